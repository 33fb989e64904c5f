#!/opt/mllm-venv/bin/python
"""C14: the C++ models compute the reference network, and generate its tokens.

Random tiny configurations (read by the repository's own config classes from a config.json) and random weights are given to
the real model classes running on the real CPU operators; after the prompt and after every decoded token the logits are
compared with transformers' model of the same family (float64) run on the whole sequence.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vh
vh.reexec(san=False)
import ctypes as C
import glob
import json
import shutil
import tempfile
import numpy as np
import rt
import cppbuild
from vh import need, eq, Violation

R = L = None
torch = None
KINDS = ["llama", "qwen3", "qwen3_fa2", "smollm3", "minicpm4", "qwen3_moe"]


def gen_config(s, k):
    nkv = s.choice([1, 1, 2, 3])
    nh = nkv * s.choice([1, 2, 2, 3])
    hd = 2 * s.int(2, 12)
    c = {"kind": k, "kv": nkv, "heads": nh, "hd": hd, "layers": s.weighted([(2, 1), (3, 2), (2, 3), (1, 5)]), "inter": s.int(4, 40), "vocab": s.int(5, 60),
         "bias": s.bool(0.4), "tie": s.bool(), "theta": s.choice([10000.0, 100.0, 1000000.0]), "eps": s.choice([1e-6, 1e-5, 1e-2]), "seed": s.seed()}
    c["hidden"] = nh * hd if k in ("llama", "minicpm4", "smollm3") else s.int(4, 48)
    if k == "smollm3":
        c["norope"] = s.choice([None, "some"])
        c["rope_layers"] = [int(s.bool()) for _ in range(c["layers"])]
        c["interval"] = s.int(2, 4)
    if k == "minicpm4":
        c.update(scale_emb=s.choice([1.0, 12.0, 2.5]), base=s.choice([1.0, 256.0, 8.0]), depth=s.choice([1.4, 1.0]), long=s.choice([None, "long"]),
                 orig=s.int(4, 12), extend=s.choice([1, 2, 4]), factors=[s.real(1, 4) for _ in range(hd)])
    if k == "qwen3_moe":
        e = s.int(1, 6)
        c.update(experts=e, topk=s.int(1, e), moe_inter=s.int(4, 24), norm=s.bool(0.7), step=s.weighted([(3, 1), (1, 2)]), dense=[i for i in range(c["layers"]) if s.bool(0.2)])
    if k == "llama":
        c["mask"] = s.bool(0.3)
    return c


def gen_forward(s):
    c = gen_config(s, s.choice(KINDS))
    c["prompt"] = s.weighted([(1, 1), (4, s.int(2, 9)), (1, s.int(10, 40))])
    c["decode"] = s.int(0, 7)
    c["room"] = s.weighted([(1, 0), (2, s.int(1, 20))])
    return c


def gen_generate(s):
    c = gen_config(s, s.choice(KINDS))
    c["vocab"] = s.int(5, 12)
    c.update(prompt=s.int(1, 6), mode=s.int(0, 2), eos=s.int(0, c["vocab"] - 1), decode=s.int(1, 10), room=s.int(12, 30), limit=s.bool(0.8))
    if c["kind"] == "minicpm4":
        c["long"] = None
    if c["kind"] == "llama":
        c["mask"] = False
    return c


def config_json(c, length):
    d = {"vocab_size": c["vocab"], "hidden_size": c["hidden"], "intermediate_size": c["inter"], "num_hidden_layers": c["layers"], "num_attention_heads": c["heads"],
         "num_key_value_heads": c["kv"], "max_position_embeddings": length, "rms_norm_eps": c["eps"], "rope_theta": c["theta"], "attention_bias": c["bias"],
         "tie_word_embeddings": c["tie"], "head_dim": c["hd"], "hidden_act": "silu", "initializer_range": 0.02, "bos_token_id": 0, "eos_token_id": c.get("eos", c["vocab"] - 1),
         "pad_token_id": 0, "max_cache_length": length, "linear_impl_type": "Default"}
    k = c["kind"]
    if k == "smollm3":
        if c["norope"]:
            d["no_rope_layers"] = c["rope_layers"]
        d["no_rope_layer_interval"] = c["interval"]
    if k == "minicpm4":
        d.update(scale_emb=c["scale_emb"], dim_model_base=c["base"], scale_depth=c["depth"])
        if c["long"]:
            h = c["hd"] // 2
            d["max_position_embeddings"] = c["orig"] * c["extend"]
            d["rope_scaling"] = {"rope_type": "longrope", "factor": float(c["extend"]), "original_max_position_embeddings": c["orig"],
                                 "short_factor": c["factors"][:h], "long_factor": c["factors"][h:2 * h]}
    if k == "qwen3_moe":
        d.update(num_experts=c["experts"], num_experts_per_tok=c["topk"], moe_intermediate_size=c["moe_inter"], norm_topk_prob=c["norm"], decoder_sparse_step=c["step"],
                 mlp_only_layers=c["dense"])
    return d


def hf_model(c, d):
    import transformers as T
    k = c["kind"]
    d = {a: b for a, b in d.items() if a not in ("linear_impl_type", "max_cache_length", "rope_scaling", "scale_emb", "dim_model_base", "scale_depth")}
    d["attn_implementation"] = "eager"
    if k == "smollm3":
        d.setdefault("no_rope_layers", None)
        d["use_sliding_window"] = False
    cls = {"llama": (T.LlamaConfig, T.LlamaForCausalLM), "qwen3": (T.Qwen3Config, T.Qwen3ForCausalLM), "qwen3_fa2": (T.Qwen3Config, T.Qwen3ForCausalLM), "smollm3": (T.SmolLM3Config, T.SmolLM3ForCausalLM),
           "minicpm4": (T.LlamaConfig, T.LlamaForCausalLM), "qwen3_moe": (T.Qwen3MoeConfig, T.Qwen3MoeForCausalLM)}[k]
    torch.manual_seed(c["seed"] % 2**31)
    m = cls[1](cls[0](**d))
    g = torch.Generator().manual_seed(c["seed"] % 2**31)
    with torch.no_grad():
        for n, p in m.named_parameters():
            x = torch.randn(p.shape, generator=g, dtype=torch.float32)
            if "norm" in n:
                x = 1 + 0.3 * x
            elif p.ndim == 2 and "embed" not in n:
                x = x * p.shape[1] ** -0.5 * 1.5
            p.copy_(x)
    return m.double().eval()


def reference(c, m, ids):
    """float64 logits after every token of ids."""
    t = torch.tensor([ids])
    with torch.no_grad():
        if c["kind"] != "minicpm4":
            return m(t).logits[0].numpy()
        # MiniCPM: the Llama network with scaled embedding, residuals and head, and long-rope tables
        x = m.model.embed_tokens(t) * c["scale_emb"]
        n, h = len(ids), c["hd"]
        inv = 1.0 / c["theta"] ** (torch.arange(0, h, 2, dtype=torch.float64) / h)
        sc = 1.0
        if c["long"]:
            f = torch.tensor(c["factors"][:h // 2] if n <= c["orig"] else c["factors"][h // 2:h], dtype=torch.float64)
            inv = inv / f
            sc = (1 + np.log(c["extend"]) / np.log(c["orig"])) ** 0.5
        fr = torch.arange(n, dtype=torch.float64)[:, None] * inv
        em = torch.cat([fr, fr], -1)[None]
        mask = torch.full((n, n), float("-inf"), dtype=torch.float64).triu(1)[None, None]
        r = c["depth"] / c["layers"] ** 0.5
        for l in m.model.layers:
            a = l.self_attn(l.input_layernorm(x), position_embeddings=(em.cos() * sc, em.sin() * sc), attention_mask=mask)[0]
            x = x + a * r
            x = x + l.mlp(l.post_attention_layernorm(x)) * r
        x = m.model.norm(x)
        if c["base"] != 1.0:
            x = x / (c["hidden"] / c["base"])
        return m.lm_head(x)[0].numpy()


def load(c, length, root):
    d = config_json(c, length)
    m = hf_model(c, d)
    f = os.path.join(root, "config.json")
    json.dump(d, open(f, "w"))
    need(L.m_new(c["kind"].encode(), f.encode(), int(c.get("mask", 0))) == 0, "%s: building the model failed: %s", c["kind"], L.m_error().decode())
    sd = {n: p.detach().float().numpy() for n, p in m.state_dict().items()}
    # a tied head is stored under the name the converter gives the head's own (possibly quantised) copy
    sd["lm_head.weight"] = sd["model.embed_tokens.weight"] if c["tie"] else sd["lm_head.weight"]
    for alias in ("lm_head_out.weight", "model.lm_head.weight"):
        sd[alias] = sd["lm_head.weight"]
    for n, x in sd.items():
        x = np.ascontiguousarray(x)
        L.m_param(n.encode(), x.ndim, (C.c_int32 * x.ndim)(*x.shape), x.ctypes.data_as(C.POINTER(C.c_float)))
    need(L.m_load() == 0, "%s: loading failed: %s", c["kind"], L.m_error().decode())
    return m


def forward(ids, v):
    out = np.zeros(v + 64, np.float32)
    n = L.m_forward(len(ids), (C.c_int64 * len(ids))(*ids), out.ctypes.data_as(C.POINTER(C.c_float)), len(out))
    need(n >= 0, "forward failed: %s", L.m_error().decode() if n < 0 else "")
    eq(n, v, "logits per position")
    return out[:v]


def tables_differ(c, a, b):
    return c["kind"] == "minicpm4" and c["long"] and (a <= c["orig"]) != (b <= c["orig"])


WORST = [0.0]


def close(got, want, what):
    tol = 2e-3 * np.abs(want).max() + 1e-4
    e = np.abs(got - want).max()
    WORST[0] = max(WORST[0], e / tol)
    need(np.isfinite(got).all() and e <= tol, "%s: logits differ from the reference by %.4g (largest %.4g)", what, e, float(np.abs(want).max()))


def run_forward(c, st):
    if c["kind"] == "qwen3_moe":
        st.hit("experts")
    rng = np.random.default_rng(c["seed"])
    n = c["prompt"] + c["decode"]
    ids = rng.integers(0, c["vocab"], n).tolist()
    root = tempfile.mkdtemp(prefix="c14_")
    try:
        m = load(c, n + c["room"], root)
        what = "%s, %s layers, %d/%d heads of %d%s" % (c["kind"], c["layers"], c["heads"], c["kv"], c["hd"], ", tied" if c["tie"] else "")
        pos = c["prompt"]
        got = forward(ids[:pos], c["vocab"])
        close(got, reference(c, m, ids[:pos])[-1], what + ": after a prompt of %d" % pos)
        st.hit(c["kind"])
        if c["tie"]:
            st.hit("tied head of " + c["kind"])
        for i in range(pos, n):
            got = forward(ids[i:i + 1], c["vocab"])
            if tables_differ(c, c["prompt"], i + 1):
                break  # keys of the prompt were rotated with the other table: no single reference
            close(got, reference(c, m, ids[:i + 1])[-1], what + ": token %d after a prompt of %d" % (i + 1, pos))
            st.hit("decode " + c["kind"])
        if c["room"] == 0:
            st.hit("cache filled to the end")
    finally:
        L.m_free()
        shutil.rmtree(root, ignore_errors=True)


def run_generate(c, st):
    rng = np.random.default_rng(c["seed"])
    ids = rng.integers(0, c["vocab"], c["prompt"]).tolist()
    root = tempfile.mkdtemp(prefix="c14_")
    try:
        m = load(c, c["prompt"] + c["room"], root)
        cap = 100
        out = (C.c_int64 * cap)()
        lim = c["decode"] if c["limit"] else c["room"]
        n = L.m_generate(c["mode"], len(ids), (C.c_int64 * len(ids))(*ids), lim, out, cap)
        name = c["kind"] + " " + ("generate", "streamGenerate", "chat")[c["mode"]]
        need(n >= 0, "%s failed: %s", name, L.m_error().decode() if n < 0 else "")
        got = list(out[:n])
        st.hit(name)
        seq = list(ids)
        for i in range(lim):
            x = reference(c, m, seq)[-1]
            o = np.sort(x)
            if len(o) > 1 and o[-1] - o[-2] < 4e-3 * np.abs(x).max() + 2e-4:
                st.hit("stopped at a tie")
                return
            t = int(x.argmax())
            if c["mode"] == 2 and t == c["eos"]:
                eq(n, i, name + ": tokens before the end token")
                st.hit("ended by the end token")
                return
            need(i < n, "%s stopped after %d tokens, token %d is to be %d (end token %d, at most %d)", name, n, i, t, c["eos"], lim)
            eq(got[i], t, "%s: token %d" % (name, i))
            seq.append(t)
            if t == c["eos"]:
                eq(n, i + 1, name + ": tokens up to the end token")
                st.hit("ended by the end token")
                return
        eq(n, lim, name + ": tokens")
    finally:
        L.m_free()
        shutil.rmtree(root, ignore_errors=True)


def parts():
    global R, L, torch
    g = lambda p: [os.path.relpath(f, cppbuild.REPO) for f in sorted(glob.glob(os.path.join(cppbuild.REPO, p)))]
    R = rt.RT("c14", None, ["c14_models.cpp"], san=False, link=["-Wl,-Bsymbolic-functions"],
              more_unity=["mllm/models/ARGeneration.cpp", "mllm/nn/Functional.cpp", "mllm/nn/Module.cpp", "mllm/nn/Layer.cpp", "mllm/nn/AbstractNnNode.cpp",
                          "mllm/engine/ConfigFile.cpp"] + g("mllm/nn/layers/*.cpp"))
    L = R.L
    L.m_error.restype = C.c_char_p
    import torch as t
    torch = t
    torch.set_num_threads(1)
    import transformers
    for n in ("LlamaForCausalLM", "Qwen3ForCausalLM", "SmolLM3ForCausalLM", "Qwen3MoeForCausalLM"):
        getattr(transformers, n)
    P = vh.Part
    return [P("forward", gen_forward, run_forward, quick=3000, cpu_limit=60), P("generate", gen_generate, run_generate, quick=2000, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C14", parts, "a case with a label: the model family, decode step or end condition it compared",
            ["Inner dimensions are at least 4 (below, the default linear kernel is not implemented on x86 and says so).", "MiniCPM4 long rope is compared as long as prompt and answer lie on the same side of the original length.",
             "A tied head is given to the model under the names the repository's converter uses for its own copy."])
