#!/usr/bin/env python3
"""P08: the logits the model runner produces are those of the reference network.

Random tiny checkpoints are written to disk and loaded by the real ModelRunner
(with CPU stand-ins for the GPU kernels, lib/mmenv.py); random histories of
batched prefills (with prefix-cache reuse), decode steps and completions run
through the real ModelRunnerProcess.  After every forward pass the logits of
each request are compared with an independent implementation (transformers,
or a direct float64 one) run on that request's whole token sequence alone.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq
import logging
import shutil
import tempfile

TOL = 1e-4


def rnd(seed):
    import torch
    return torch.Generator().manual_seed(seed)


def fill(model, g, std):
    """Random weights; norm weights around one (or zero for 1+w norms)."""
    import torch
    with torch.no_grad():
        for n, p in model.named_parameters():
            if p.dim() == 1 and "norm" in n and n.endswith("weight"):
                p.copy_(1 + .3 * torch.randn(p.shape, generator=g))
            elif p.dim() == 1:
                p.copy_(.3 * torch.randn(p.shape, generator=g))
            else:
                p.copy_(torch.randn(p.shape, generator=g) * std / max(p[0].numel(), 1) ** .5 if "embed" not in n
                        else torch.randn(p.shape, generator=g))


class Qwen3:
    arch = "Qwen3ForCausalLM"

    def __init__(self, c):
        import torch
        from transformers import Qwen3Config, Qwen3ForCausalLM
        self.cfg = Qwen3Config(vocab_size=c["vocab"], hidden_size=c["hidden"], intermediate_size=c["inter"], num_hidden_layers=c["layers"],
                               num_attention_heads=c["kv"] * c["group"], num_key_value_heads=c["kv"], head_dim=c["hd"],
                               attention_bias=c["bias"], rope_theta=c["theta"], rms_norm_eps=c["eps"], tie_word_embeddings=c["tie"],
                               max_position_embeddings=512, architectures=[self.arch])
        self.cfg._attn_implementation = "eager"
        self.ref = Qwen3ForCausalLM(self.cfg).float().eval()
        fill(self.ref, rnd(c["seed"]), c["std"])
        if c["tie"]:
            self.ref.tie_weights()

    def tensors(self, c):
        import torch
        out = {k: v.clone() for k, v in self.ref.state_dict().items()}
        if c["tie"] and not c["head_in_ckpt"]:
            out.pop("lm_head.weight", None)
        names = c["names"]
        if names == "fused":
            for n in [k for k in out if "q_proj" in k or "gate_proj" in k]:
                if "q_proj" in n:
                    parts = [out.pop(n.replace("q_proj", x)) for x in ("q_proj", "k_proj", "v_proj")]
                    out[n.replace("q_proj", "qkv_proj")] = torch.cat(parts)
                else:
                    parts = [out.pop(n.replace("gate_proj", x)) for x in ("gate_proj", "up_proj")]
                    out[n.replace("gate_proj", "gate_up_proj")] = torch.cat(parts)
        ren = {"plain": "model.", "bare": "", "lm": "language_model.", "mlm": "model.language_model.", "fused": "model."}[names]
        out = {(ren + k[6:] if k.startswith("model.") else k): v for k, v in out.items()}
        if c["inv_freq"]:
            out["model.layers.0.self_attn.rotary_emb.inv_freq"] = torch.zeros(3)
        return out

    def logits(self, toks, imgs):
        import torch
        with torch.no_grad():
            return self.ref(torch.tensor([toks])).logits[0, -1]


END, START, IMG = 0, 1, 2          # vision end / start / image placeholder tokens of the VL checkpoints


class Qwen3VL:
    arch = "Qwen3VLForConditionalGeneration"
    images = True

    def __init__(self, c):
        import torch
        from transformers import Qwen3VLConfig, Qwen3VLForConditionalGeneration
        v = c["vis"]
        text = dict(vocab_size=c["vocab"], hidden_size=c["hidden"], intermediate_size=c["inter"], num_hidden_layers=c["layers"],
                    num_attention_heads=c["kv"] * c["group"], num_key_value_heads=c["kv"], head_dim=c["hd"], rope_theta=c["theta"],
                    rms_norm_eps=1e-6, max_position_embeddings=512, tie_word_embeddings=c["tie"],
                    rope_scaling={"rope_type": "default", "mrope_section": c["sec"], "mrope_interleaved": True})
        vis = dict(depth=v["depth"], hidden_size=v["heads"] * v["hd"], intermediate_size=v["inter"], num_heads=v["heads"], in_channels=v["ch"],
                   patch_size=v["patch"], spatial_merge_size=v["merge"], temporal_patch_size=v["tpatch"], out_hidden_size=c["hidden"],
                   num_position_embeddings=v["side"] ** 2, deepstack_visual_indexes=v["deep"], hidden_act=v["act"])
        self.cfg = Qwen3VLConfig(text_config=text, vision_config=vis, image_token_id=IMG, video_token_id=c["vocab"] + 5,
                                 vision_start_token_id=START, vision_end_token_id=END, tie_word_embeddings=c["tie"], architectures=[self.arch])
        for x in (self.cfg, self.cfg.text_config, self.cfg.vision_config):
            x._attn_implementation = "eager"
        self.merge, self.pdim = v["merge"], v["ch"] * v["tpatch"] * v["patch"] ** 2
        self.ref = Qwen3VLForConditionalGeneration(self.cfg).float().eval()
        fill(self.ref, rnd(c["seed"]), c["std"])
        if c["tie"]:
            self.ref.tie_weights()

    def cfg_text(self):
        return self.cfg.text_config

    def tensors(self, c):
        import torch
        out = {k: v.clone() for k, v in self.ref.state_dict().items()}
        if c["tie"] and not c["head_in_ckpt"]:
            out.pop("lm_head.weight", None)
        if c["names"] == "old":         # names before transformers 4.52: visual.*, model.*
            out = {k.replace("model.visual.", "visual.").replace("model.language_model.", "model."): v for k, v in out.items()}
        elif c["names"] == "vsplit":    # vision q/k/v stored apart
            for n in [k for k in out if ".attn.qkv." in k]:
                for x, t in zip("qkv", out.pop(n).chunk(3)):
                    out[n.replace(".attn.qkv.", f".attn.{x}.")] = t
        elif c["names"] == "fused":
            for n in [k for k in out if "q_proj" in k]:
                out[n.replace("q_proj", "qkv_proj")] = torch.cat([out.pop(n.replace("q_proj", x)) for x in ("q_proj", "k_proj", "v_proj")])
        return out

    def pixels(self, seg):
        import torch
        _, h, w, seed = seg
        return torch.randn(h * w * self.merge ** 2, self.pdim, generator=rnd(seed)), [1, h * self.merge, w * self.merge]

    def expand(self, segs):
        toks, imgs = [], []
        for x in segs:
            if isinstance(x, int):
                toks.append(x)
            else:
                toks += [START] + [IMG] * (x[1] * x[2]) + [END]
                imgs.append(x)
        return tuple(toks), imgs

    def inputs(self, imgs, bare):
        import torch
        if not imgs:
            return None
        px = [self.pixels(x) for x in imgs]
        d = {"pixel_values": torch.cat([p for p, _ in px]), "image_grid_thw": torch.tensor([g for _, g in px])}
        return d if bare else {"image_inputs": d}

    def logits(self, toks, imgs):
        import torch
        kw = self.inputs(imgs, True) or {}
        with torch.no_grad():
            return self.ref(input_ids=torch.tensor([toks]), attention_mask=torch.ones(1, len(toks), dtype=torch.long), **kw).logits[0, -1]

class Qwen35:
    """Qwen3.5 (gated full attention + gated delta nets), written out token by token in float64."""
    arch = "Qwen3_5ForConditionalGeneration"

    def __init__(self, c):
        import torch
        from transformers import PretrainedConfig
        self.images = c["vis"] is not None
        rope = {"rope_type": "default", "rope_theta": c["theta"], "partial_rotary_factor": c["partial"], "mrope_section": c["sec"],
                "mrope_interleaved": True}
        t = dict(vocab_size=c["vocab"], hidden_size=c["hidden"], intermediate_size=c["inter"], num_hidden_layers=len(c["types"]),
                 num_attention_heads=c["kv"] * c["group"], num_key_value_heads=c["kv"], head_dim=c["hd"], rms_norm_eps=c["eps"],
                 hidden_act="silu", max_position_embeddings=512, tie_word_embeddings=c["tie"], partial_rotary_factor=c["partial"],
                 linear_num_key_heads=c["lk"], linear_num_value_heads=c["lk"] * c["lgroup"], linear_key_head_dim=c["ldk"],
                 linear_value_head_dim=c["ldv"], linear_conv_kernel_dim=c["K"], attn_output_gate=c["gate"])
        t["rope_parameters"] = rope
        if c["interval"]:
            t["full_attention_interval"] = c["interval"]
        else:
            t["layers_block_type"] = [{"F": "attention", "L": "linear_attention"}[x] for x in c["types"]]
        kw = dict(architectures=[self.arch if c["vis"] or c["wrap"] else "Qwen3_5ForCausalLM"], tie_word_embeddings=c["tie"])
        if self.images:
            from transformers import Qwen3VLConfig
            from transformers.models.qwen3_vl.modeling_qwen3_vl import Qwen3VLVisionModel
            v = c["vis"]
            vis = dict(depth=v["depth"], hidden_size=v["heads"] * v["hd"], intermediate_size=v["inter"], num_heads=v["heads"], in_channels=v["ch"],
                       patch_size=v["patch"], spatial_merge_size=v["merge"], temporal_patch_size=v["tpatch"], out_hidden_size=c["hidden"],
                       num_position_embeddings=v["side"] ** 2, hidden_act=v["act"])
            vc = Qwen3VLConfig(vision_config={**vis, "deepstack_visual_indexes": []}).vision_config
            vc._attn_implementation = "eager"
            self.vis = Qwen3VLVisionModel._from_config(vc).float().eval()
            fill(self.vis, rnd(c["seed"] + 1), c["std"])
            self.merge, self.pdim = v["merge"], v["ch"] * v["tpatch"] * v["patch"] ** 2
            kw.update(vision_config=PretrainedConfig(**vis), image_token_id=IMG, video_token_id=c["vocab"] + 5, vision_start_token_id=START,
                      vision_end_token_id=END)
        if c["vis"] or c["wrap"]:
            self.cfg = PretrainedConfig(text_config=PretrainedConfig(**t), **kw)
        else:
            self.cfg = PretrainedConfig(**t, **{k: v for k, v in kw.items() if k not in t})
        self.c = c
        g = rnd(c["seed"])
        H, W = c["kv"] * c["group"], {}

        def lin(n, o, i):
            W[n + ".weight"] = torch.randn(o, i, generator=g) * c["std"] / i ** .5

        def norm(n, d, base=0.0):
            W[n + ".weight"] = base + .3 * torch.randn(d, generator=g)
        W["embed_tokens.weight"] = torch.randn(c["vocab"], c["hidden"], generator=g)
        hv = c["lk"] * c["lgroup"]
        for i, ty in enumerate(c["types"]):
            L = f"layers.{i}."
            norm(L + "input_layernorm", c["hidden"])
            norm(L + "post_attention_layernorm", c["hidden"])
            lin(L + "mlp.gate_proj", c["inter"], c["hidden"])
            lin(L + "mlp.up_proj", c["inter"], c["hidden"])
            lin(L + "mlp.down_proj", c["hidden"], c["inter"])
            if ty == "F":
                A = L + "self_attn."
                lin(A + "q_proj", H * c["hd"] * (2 if c["gate"] else 1), c["hidden"])
                lin(A + "k_proj", c["kv"] * c["hd"], c["hidden"])
                lin(A + "v_proj", c["kv"] * c["hd"], c["hidden"])
                lin(A + "o_proj", c["hidden"], H * c["hd"])
                norm(A + "q_norm", c["hd"])
                norm(A + "k_norm", c["hd"])
            else:
                A = L + "linear_attn."
                kd, vd = c["lk"] * c["ldk"], hv * c["ldv"]
                lin(A + "in_proj_qkv", 2 * kd + vd, c["hidden"])
                lin(A + "in_proj_z", vd, c["hidden"])
                lin(A + "in_proj_a", hv, c["hidden"])
                lin(A + "in_proj_b", hv, c["hidden"])
                W[A + "conv1d.weight"] = torch.randn(2 * kd + vd, 1, c["K"], generator=g)
                W[A + "A_log"] = torch.log(torch.rand(hv, generator=g) * c["amax"] + 1e-3)
                W[A + "dt_bias"] = torch.randn(hv, generator=g)
                norm(A + "norm", c["ldv"], 1.0)
                lin(A + "out_proj", c["hidden"], vd)
        norm("norm", c["hidden"])
        if not c["tie"]:
            lin("lm_head", c["vocab"], c["hidden"])
        self.W = {k: v.double() for k, v in W.items()}
        self.raw = W

    def cfg_text(self):
        return getattr(self.cfg, "text_config", self.cfg)

    def tensors(self, c):
        import torch
        base = "model.language_model." if c["vis"] or c["wrap"] else "model."
        out = {("" if k.startswith("lm_head") else base) + k: v.clone() for k, v in self.raw.items()}
        if c["tie"] and c["head_in_ckpt"]:
            out["lm_head.weight"] = out[base + "embed_tokens.weight"].clone()
        if self.images:
            out.update({"model.visual." + k: v.clone() for k, v in self.vis.state_dict().items()})
        if c["names"] == "fused":
            for n in [k for k in out if "gate_proj" in k]:
                out[n.replace("gate_proj", "gate_up_proj")] = torch.cat([out.pop(n), out.pop(n.replace("gate_proj", "up_proj"))])
        if c["mtp"]:
            out["mtp.layers.0.mlp.down_proj.weight"] = torch.zeros(2, 2)
            out["mtp.norm.weight"] = torch.zeros(2)
        return out

    pixels, expand, inputs = Qwen3VL.pixels, Qwen3VL.expand, Qwen3VL.inputs

    def conditioning(self, toks, imgs, want):
        """How far the logits move when the embeddings are disturbed by about eight float32 roundings."""
        import torch
        keep = self.W
        worst = 0.0
        for i in range(4):
            g = rnd(i)
            self.W = {**keep, **{k: keep[k] * (1 + 1e-6 * torch.randn(keep[k].shape, generator=g)) for k in keep if "embed" in k or "proj" in k}}
            worst = max(worst, float((self.logits(toks, imgs) - want).abs().max() / (1 + want.abs().max())))
        self.W = keep
        return 10 * worst

    def logits(self, toks, imgs):
        import torch
        import torch.nn.functional as F
        c, W = self.c, self.W
        n = len(toks)
        h = W["embed_tokens.weight"][torch.tensor(toks)]
        pos = torch.arange(n).repeat(3, 1)
        if imgs:
            px = [self.pixels(x) for x in imgs]
            with torch.no_grad():
                emb = self.vis(torch.cat([p for p, _ in px]), grid_thw=torch.tensor([g for _, g in px]))[0].double()
            h[torch.tensor([t == IMG for t in toks])] = emb
            cur, i, k = 0, 0, 0
            while i < n:
                if toks[i] == IMG:
                    _, gh, gw, _ = imgs[k]
                    for j in range(gh * gw):
                        pos[:, i + j] = torch.tensor([cur, cur + j // gw, cur + j % gw])
                    i, cur, k = i + gh * gw, cur + max(gh, gw), k + 1
                else:
                    pos[:, i] = cur
                    cur, i = cur + 1, i + 1
        rd = int(c["hd"] * c["partial"])
        inv = c["theta"] ** (-torch.arange(0, rd, 2, dtype=torch.float64) / rd)
        axis = [(d % 3 if d % 3 and d < 3 * c["sec"][d % 3] else 0) for d in range(rd // 2)]
        ang = pos[torch.tensor(axis)].T.double() * inv if axis else torch.zeros(n, 0, dtype=torch.float64)
        cos, sin = ang.cos()[:, None], ang.sin()[:, None]

        def rms(x, w):
            return x * torch.rsqrt(x.pow(2).mean(-1, keepdim=True) + c["eps"]) * w

        def rope(x):
            a, b = x[..., :rd // 2], x[..., rd // 2:rd]
            return torch.cat([a * cos - b * sin, b * cos + a * sin, x[..., rd:]], -1)
        H = c["kv"] * c["group"]
        for i, ty in enumerate(c["types"]):
            def lin(x, nm, L=f"layers.{i}."):
                return x @ W[L + nm + ".weight"].T
            L = f"layers.{i}."
            x = rms(h, 1 + W[L + "input_layernorm.weight"])
            if ty == "F":
                q = lin(x, "self_attn.q_proj").view(n, H, -1)
                gate = q[..., c["hd"]:].reshape(n, -1) if c["gate"] else None
                q = rope(rms(q[..., :c["hd"]], 1 + W[L + "self_attn.q_norm.weight"]))
                k = rope(rms(lin(x, "self_attn.k_proj").view(n, c["kv"], -1), 1 + W[L + "self_attn.k_norm.weight"]))
                v = lin(x, "self_attn.v_proj").view(n, c["kv"], -1)
                k, v = k.repeat_interleave(c["group"], 1), v.repeat_interleave(c["group"], 1)
                s = torch.einsum("nhd,mhd->hnm", q, k) * c["hd"] ** -.5
                s = s.masked_fill(torch.ones(n, n).triu(1).bool(), -1e300).softmax(-1)
                o = torch.einsum("hnm,mhd->nhd", s, v).reshape(n, -1)
                if gate is not None:
                    o = o * torch.sigmoid(gate)
                h = h + lin(o, "self_attn.o_proj")
            else:
                hv, kd = c["lk"] * c["lgroup"], c["lk"] * c["ldk"]
                A = L + "linear_attn."
                m = torch.cat([torch.zeros(c["K"] - 1, W[A + "conv1d.weight"].shape[0], dtype=torch.float64), lin(x, "linear_attn.in_proj_qkv")])
                w = W[A + "conv1d.weight"][:, 0]
                m = F.silu(sum(m[j:j + n] * w[:, j] for j in range(c["K"])))
                q, k, v = m[:, :kd].view(n, c["lk"], -1), m[:, kd:2 * kd].view(n, c["lk"], -1), m[:, 2 * kd:].view(n, hv, -1)
                o = delta_rule(q, k, v, lin(x, "linear_attn.in_proj_a"), lin(x, "linear_attn.in_proj_b"), W[A + "A_log"], W[A + "dt_bias"])[0]
                o = rms(o, W[A + "norm.weight"]) * F.silu(lin(x, "linear_attn.in_proj_z").view(n, hv, -1))
                h = h + lin(o.reshape(n, -1), "linear_attn.out_proj")
            x = rms(h, 1 + W[L + "post_attention_layernorm.weight"])
            h = h + lin(F.silu(lin(x, "mlp.gate_proj")) * lin(x, "mlp.up_proj"), "mlp.down_proj")
        return rms(h[-1], 1 + W["norm.weight"]) @ W["embed_tokens.weight" if c["tie"] else "lm_head.weight"].T


def delta_rule(q, k, v, a, b, A_log, dt_bias, state=None):
    """Gated delta rule, token by token.  q,k [n,H,K]; v [n,HV,V]; a,b [n,HV] -> out [n,HV,V], state [HV,V,K] (float64)"""
    import torch
    import torch.nn.functional as F
    q, k, v, a, b, A_log, dt_bias = (x.double() for x in (q, k, v, a, b, A_log, dt_bias))
    n, H, K = q.shape
    HV, V = v.shape[1:]
    q = (q / (q.norm(dim=-1, keepdim=True) + 1e-6) * K ** -.5).repeat_interleave(HV // H, 1)
    k = (k / (k.norm(dim=-1, keepdim=True) + 1e-6)).repeat_interleave(HV // H, 1)
    decay = torch.exp(-torch.exp(A_log) * F.softplus(a + dt_bias, threshold=60))
    beta = torch.sigmoid(b)
    S = torch.zeros(HV, V, K, dtype=torch.float64) if state is None else state.double().clone()
    out = torch.empty(n, HV, V, dtype=torch.float64)
    for t in range(n):
        S = S * decay[t, :, None, None]
        d = (v[t] - torch.einsum("hvk,hk->hv", S, k[t])) * beta[t, :, None]
        S = S + d[:, :, None] * k[t][:, None]
        out[t] = torch.einsum("hvk,hk->hv", S, q[t])
    return out, S



def write_ckpt(d, tensors, c):
    import torch
    from safetensors.torch import save_file
    names = sorted(tensors)
    files = [[] for _ in range(c["files"])]
    for i, n in enumerate(names):
        files[(i * 7 + c["seed"]) % c["files"]].append(n)
    for i, f in enumerate(files):
        t = {n: tensors[n].contiguous().clone() for n in f}
        if not t:
            continue
        if c["bin"]:
            torch.save(t, os.path.join(d, f"pytorch_model-{i}.bin"))
        else:
            save_file(t, os.path.join(d, f"model-{i}.safetensors"))


def start(net, c, d):
    import torch
    from pymllm.configs.server_config import ServerConfig
    from pymllm.configs.model_config import ModelConfig
    from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
    sc = ServerConfig(model_path=d, dtype="float32", context_length=256, max_running_requests=c["slots"], max_total_tokens=c["pool"],
                      disable_radix_cache=c["cache"] == "none", radix_cache_page_size=c["ps"], enable_mamba_cache=c["cache"] == "mamba")
    mrp = ModelRunnerProcess(gpu_id=0, server_config=sc, model_config=ModelConfig(hf_config=net.cfg))
    keep = torch.get_default_dtype()
    try:
        mrp.init_model()
    finally:
        torch.set_default_dtype(keep)
    return mrp


def run(case, st):
    import torch
    torch.manual_seed(0)
    net = NETS[case["net"]](case["cfg"])
    d = tempfile.mkdtemp(prefix="p08-")
    try:
        write_ckpt(d, net.tensors(case["cfg"]), case["cfg"])
        mrp = start(net, case["world"], d)
        history(net, mrp, case, st)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def history(net, mrp, case, st):
    import torch
    rn = mrp._runner
    seen = {}
    old = rn.forward

    def forward(fb):
        out = old(fb)
        seen["logits"] = out.next_token_logits
        return out
    rn.forward = forward
    vl = getattr(net, "images", False)
    if vl:                              # generated tokens are never the image markers
        old_sample = rn.sample

        def sample(out, *a, **k):
            out.next_token_logits = out.next_token_logits.clone()
            out.next_token_logits[:, :3] = -float("inf")
            return old_sample(out, *a, **k)
        rn.sample = sample
    active, hist = [], []
    w = case["world"]
    rid = 0

    def check(reqs, res, what):
        lg = seen["logits"]
        eq(tuple(lg.shape), (len(reqs), net.cfg_text().vocab_size if hasattr(net, "cfg_text") else net.cfg.vocab_size), "shape of the logits")
        eq([o["rid"] for o in res["outputs"]], [q["rid"] for q in reqs], "order of results")
        for i, (q, o) in enumerate(zip(reqs, res["outputs"])):
            want = net.logits(list(q["toks"]), q.get("imgs")).double()
            got = lg[i].double()
            need(bool(torch.isfinite(got).all()), "%s of %s: logits are not finite", what, q["rid"])
            err = float((got - want).abs().max() / (1 + want.abs().max()))
            if err >= TOL and hasattr(net, "conditioning"):      # float32 noise can be amplified by tiny norms: measure by how much
                err /= max(1.0, net.conditioning(list(q["toks"]), q.get("imgs"), want) / TOL)
                st.note("ill_conditioned")
            need(err < TOL, "%s of %s (%d tokens, batch of %d): logits differ from the reference by %.3g\n got %s\nwant %s",
                 what, q["rid"], len(q["toks"]), len(reqs), err, got[:6].tolist(), want[:6].tolist())
            tok = o["output_token_ids"][0]
            if vl:
                want[:3] = -99
            need(float(want.max() - want[tok]) <= TOL * 2 * (1 + float(want.abs().max())), "greedy token %d is not the most likely one", tok)
            q["toks"] += (tok,)
            q["segs"] += (tok,)

    for op in case["ops"]:
        if op[0] == "extend":
            new = []
            for base, cut, tail, img in op[1]:
                segs = tuple(tail)
                if base is not None and hist:
                    b = hist[base % len(hist)]
                    segs = ((b if cut > 30 else b[: cut % (len(b) + 1)]) + segs)[:40]
                if vl and img:
                    k = img[0] % (len(segs) + 1)
                    if img[4] and k < len(segs) and not isinstance(segs[k], int):      # another image of the same size
                        segs = segs[:k] + ((*segs[k][:3], img[3]),) + segs[k + 1:]
                        st.note("image_swapped")
                    else:
                        segs = segs[:k] + (("img", img[1], img[2], img[3]),) + segs[k:]
                if not segs:
                    continue
                rid += 1
                q = {"rid": f"r{rid}", "segs": segs, "toks": segs, "mm": None}
                if vl:
                    q["toks"], q["imgs"] = net.expand(segs)
                    q["mm"] = net.inputs(q["imgs"], rid % 2)
                    if q["imgs"]:
                        st.hit("image")
                new.append(q)
            new = new[: w["slots"] - len(active)]
            if not new:
                continue
            batch = {"forward_mode": "extend", "batch_size": len(new), "batch_id": rid,
                     "input_ids": [t for q in new for t in q["toks"]], "seq_lens": [len(q["toks"]) for q in new],
                     "extend_seq_lens": [len(q["toks"]) for q in new], "extend_prefix_lens": [0] * len(new),
                     "positions": [], "req_pool_indices": [0] * len(new),
                     "requests": [{"rid": q["rid"], "sampling_params": {"temperature": 0.0}, "mm_inputs": q["mm"], "input_ids": list(q["toks"]),
                                   "return_logprob": False, "logprob_start_len": -1, "top_logprobs_num": 0} for q in new]}
            try:
                res = mrp._forward_batch(batch)
            except RuntimeError as e:
                if "alloc" not in str(e).lower():
                    raise
                st.note("refused")
                break
            for q, o in zip(new, res["outputs"]):
                if o["prefix_len"]:
                    st.hit("prefix_reused")
                    if q["mm"]:
                        st.hit("image_prefix")
            hist.extend(q["segs"] for q in new)
            check(new, res, "prefill")
            active += new
            if len(new) > 1:
                st.hit("batched_prefill")
        elif op[0] == "decode" and active:
            sel = active if not op[1] else [active[i] for i in sorted({x % len(active) for x in op[1]})]
            sel = [q for q in sel if len(q["toks"]) < 80]
            if op[2]:
                sel = sel[::-1]
            if not sel:
                continue
            batch = {"forward_mode": "decode", "batch_size": len(sel), "batch_id": rid,
                     "input_ids": [q["toks"][-1] for q in sel], "seq_lens": [len(q["toks"]) for q in sel],
                     "positions": [], "req_pool_indices": [0] * len(sel),
                     "requests": [{"rid": q["rid"], "sampling_params": {"temperature": 0.0}, "mm_inputs": None, "return_logprob": False,
                                   "logprob_start_len": -1, "top_logprobs_num": 0} for q in sel]}
            try:
                res = mrp._forward_batch(batch)
            except RuntimeError as e:
                if "alloc" not in str(e).lower():
                    raise
                st.note("refused")
                break
            check(sel, res, "decode step")
            st.hit("decoded" if len(sel) == 1 else "batched_decode")
        elif op[0] == "finish" and active:
            q = active.pop(op[1] % len(active))
            hist.append(q["segs"])
            mrp._free_rid_resources(q["rid"])


def ops(s, vocab):
    def one(s):
        base = s.int(0, 30) if s.bool(.6) else None
        return [base, 31 if s.bool(.3) else s.int(0, 30), s.ints(3, vocab - 1, 0, 4 if base is not None else 12),
                [s.int(0, 20), s.int(1, 3), s.int(1, 3), s.int(0, 9), s.bool(.5)] if s.bool(.35) else None]

    def op(s):
        k = s.weighted([(5, "extend"), (8, "decode"), (3, "finish")])
        if k == "extend":
            return [k, s.list(one, 1, 3)]
        if k == "decode":
            return [k, s.ints(0, 9, 0, 3) if s.bool(.3) else [], s.bool(.3)]
        return [k, s.int(0, 9)]
    return [["extend", s.list(one, 1, 3)]] + s.list(op, 2, 12)


def world(s, caches=("radix", "none")):
    ps = s.choice([2, 3]) if s.bool(.2) else 1
    return {"slots": s.int(1, 6), "pool": s.choice([64, 300, 600]), "cache": s.weighted([(4, caches[0])] + [(1, c) for c in caches[1:]]), "ps": ps}


def gen_qwen3(s):
    vocab = s.int(8, 40)
    c = {"vocab": vocab, "hidden": 8 * s.int(1, 4), "inter": s.int(1, 40), "layers": s.int(1, 3), "kv": s.int(1, 3), "group": s.int(1, 3),
         "hd": s.choice([2, 4, 6, 8, 16]), "bias": s.bool(.4), "theta": s.choice([100.0, 10000.0, 1e6]), "eps": s.choice([1e-6, 1e-5, 1e-2]),
         "tie": s.bool(.3), "head_in_ckpt": s.bool(.5), "seed": s.seed() % 10 ** 9, "std": s.choice([.5, 1.0, 2.0]),
         "names": s.weighted([(4, "plain"), (1, "bare"), (1, "lm"), (1, "mlm"), (1, "fused")]), "inv_freq": s.bool(.2), "files": s.int(1, 3),
         "bin": s.bool(.2)}
    return {"net": "qwen3", "cfg": c, "world": world(s), "ops": ops(s, vocab)}


def gen_vl(s):
    vocab = s.int(8, 40)
    kinds = [(2, [1, 1, 0]), (4, [2, 1, 1]), (8, [4, 2, 2]), (8, [3, 3, 2]), (6, [2, 2, 2]), (6, [4, 1, 1]), (16, [6, 5, 5])]
    half, sec = s.choice(kinds)
    depth = s.int(1, 3)
    v = {"depth": depth, "heads": s.int(1, 2), "hd": s.choice([4, 8, 12]), "inter": s.int(1, 12), "ch": s.choice([1, 3]), "patch": s.choice([1, 2]),
         "merge": s.choice([1, 2, 2, 3]), "tpatch": s.choice([1, 2]), "side": s.int(2, 6), "act": s.choice(["gelu_pytorch_tanh", "gelu", "silu"]),
         "deep": [i for i in range(depth) if s.bool(.5)]}
    layers = s.int(max(1, len(v["deep"])), 3)
    c = {"vocab": vocab, "hidden": 8 * s.int(1, 3), "inter": s.int(1, 24), "layers": layers, "kv": s.int(1, 2), "group": s.int(1, 3), "hd": half * 2,
         "sec": sec, "theta": s.choice([100.0, 1e4, 5e6]), "tie": s.bool(.3), "head_in_ckpt": s.bool(.5), "seed": s.seed() % 10 ** 9,
         "std": s.choice([.5, 1.0, 2.0]), "names": s.weighted([(4, "plain"), (2, "old"), (1, "vsplit"), (1, "fused")]), "files": s.int(1, 2),
         "bin": s.bool(.2), "vis": v}
    return {"net": "vl", "cfg": c, "world": world(s), "ops": ops(s, vocab)}


def gen_qwen35(s):
    vocab = s.int(8, 40)
    half, sec = s.choice([(2, [1, 1, 0]), (4, [2, 1, 1]), (8, [4, 2, 2]), (8, [3, 3, 2]), (6, [2, 2, 2]), (6, [4, 1, 1]), (1, [1, 0, 0])])
    hd = s.choice([x for x in (2, 4, 8, 12, 16, 24, 32) if x >= 2 * half])
    n = s.int(1, 4)
    interval = s.int(1, 4) if s.bool(.5) else 0
    types = "".join("F" if (i + 1) % interval == 0 else "L" for i in range(n)) if interval else s.text("FL", n, n)
    vis = None
    if s.bool(.4):
        vis = {"depth": s.int(1, 2), "heads": s.int(1, 2), "hd": s.choice([4, 8]), "inter": s.int(1, 12), "ch": s.choice([1, 3]),
               "patch": s.choice([1, 2]), "merge": s.choice([1, 2, 2, 3]), "tpatch": s.choice([1, 2]), "side": s.int(2, 6),
               "act": s.choice(["gelu_pytorch_tanh", "gelu", "silu"])}
    c = {"vocab": vocab, "hidden": 8 * s.int(1, 3), "inter": s.int(1, 24), "types": types, "interval": interval, "kv": s.int(1, 2),
         "group": s.int(1, 3), "hd": hd, "partial": 2 * half / hd, "sec": sec, "theta": s.choice([100.0, 1e4, 1e7]), "eps": s.choice([1e-6, 1e-3]),
         "tie": s.bool(.5), "head_in_ckpt": s.bool(.3), "wrap": s.bool(.5), "gate": s.bool(.8), "lk": s.int(1, 3), "lgroup": s.int(1, 3),
         "ldk": s.int(1, 6), "ldv": s.int(1, 6), "K": s.int(2, 5), "amax": s.choice([.1, 1.0, 16.0]), "mtp": s.bool(.3),
         "names": s.choice(["plain", "plain", "fused"]), "seed": s.seed() % 10 ** 9, "std": s.choice([.5, 1.0, 2.0]), "files": s.int(1, 2),
         "bin": s.bool(.2), "vis": vis}
    return {"net": "q35", "cfg": c, "world": world(s, ("radix", "none", "mamba")), "ops": ops(s, vocab)}


def gen_vision(s):
    depth = s.int(1, 3)
    merge = s.choice([1, 2, 2, 3])
    return {"v": {"depth": depth, "heads": s.int(1, 3), "hd": s.choice([4, 8, 12]), "inter": s.int(1, 12), "ch": s.choice([1, 3]),
                  "patch": s.choice([1, 2, 3]), "merge": merge, "tpatch": s.choice([1, 2]), "side": s.int(1, 7),
                  "act": s.choice(["gelu_pytorch_tanh", "gelu", "silu"]), "out": s.int(1, 9), "deep": [i for i in range(depth) if s.bool(.5)]},
            "grid": s.list(lambda s: [s.weighted([(3, 1), (1, 2), (1, 3)]), merge * s.int(1, 4), merge * s.int(1, 4)], 1, 4),
            "std": s.choice([.5, 1.0, 2.0]), "seed": s.seed() % 10 ** 9, "model": s.choice(["vl", "q35"]), "list": s.bool(.2)}


def run_vision(case, st):
    import torch
    from transformers import PretrainedConfig, Qwen3VLConfig
    from transformers.models.qwen3_vl.modeling_qwen3_vl import Qwen3VLVisionModel as HF
    from pymllm.models import qwen3_vl, qwen3_5
    v = case["v"]
    deep = v["deep"] if case["model"] == "vl" else []
    dims = dict(depth=v["depth"], hidden_size=v["heads"] * v["hd"], intermediate_size=v["inter"], num_heads=v["heads"], in_channels=v["ch"],
                patch_size=v["patch"], spatial_merge_size=v["merge"], temporal_patch_size=v["tpatch"], out_hidden_size=v["out"],
                num_position_embeddings=v["side"] ** 2, hidden_act=v["act"])
    vc = Qwen3VLConfig(vision_config={**dims, "deepstack_visual_indexes": deep}).vision_config
    vc._attn_implementation = "eager"
    ref = HF._from_config(vc).float().eval()
    fill(ref, rnd(case["seed"]), case["std"])
    text = dict(vocab_size=8, hidden_size=v["out"], intermediate_size=2, num_hidden_layers=max(1, len(deep)), num_attention_heads=1,
                num_key_value_heads=1, head_dim=4, rms_norm_eps=1e-6, max_position_embeddings=16, hidden_act="silu",
                rope_scaling={"rope_type": "default", "mrope_section": [1, 1, 0], "mrope_interleaved": True})
    if case["model"] == "vl":
        cfg = Qwen3VLConfig(text_config=text, vision_config={**dims, "deepstack_visual_indexes": deep})
        full = qwen3_vl.Qwen3VLForConditionalGeneration(cfg)
    else:
        text["layers_block_type"] = ["attention"]
        full = qwen3_5.Qwen3_5ForConditionalGeneration(PretrainedConfig(text_config=PretrainedConfig(**text), vision_config=PretrainedConfig(**dims)))
    full.load_weights([("model.visual." + n, t) for n, t in ref.state_dict().items()])
    net = full.visual.eval()
    grid = torch.tensor(case["grid"])
    px = torch.randn(int(grid.prod(-1).sum()), v["ch"] * v["tpatch"] * v["patch"] ** 2, generator=rnd(case["seed"] + 1))
    keep = px.clone()
    with torch.no_grad():
        want, ds = ref(px, grid_thw=grid)
        if case["model"] == "vl":
            want = torch.cat([want] + list(ds), -1)
            got = net(px, grid_thw=case["grid"] if case["list"] else grid)
        else:
            parts = net(px, grid_thw=grid)
            eq([len(p) for p in parts], [t * h * w // v["merge"] ** 2 for t, h, w in case["grid"]], "features per image")
            got = torch.cat(parts)
    need(torch.equal(px, keep), "the pixels were changed")
    eq(tuple(got.shape), tuple(want.shape), "shape of the vision features")
    err = float((got - want).abs().max() / (1 + want.abs().max()))
    need(err < TOL, "vision features differ from the reference by %.3g for grid %s", err, case["grid"])
    st.hit("images" if len(case["grid"]) > 1 else "image")
    if any(t > 1 for t, _, _ in case["grid"]):
        st.note("frames")


def gen_index(s):
    merge = s.choice([1, 2, 3])
    return {"merge": merge, "segs": s.list(lambda s: s.int(0, 9) if s.bool(.6) else [s.weighted([(4, 1), (1, 2), (1, 5)]), s.int(1, 5), s.int(1, 5)], 0, 8),
            "start": s.int(0, 20), "sec": s.choice([[2, 1, 1], [4, 2, 2], [3, 3, 2], [2, 2, 2], [1, 0, 0], [1, 1, 0], [11, 11, 10], [24, 20, 20]]),
            "heads": [s.int(1, 3), s.int(1, 3)], "extra": s.choice([0, 0, 2, 5]), "inter": s.bool(.6), "seed": s.seed() % 10 ** 9}


def run_index(c, st):
    """Positions of the tokens, and the rotation by them, against their definition."""
    import torch
    from pymllm.layers.rope import apply_mrope, apply_mrope_fused_
    from pymllm.models.qwen3_vl import get_rope_index, _build_cos_sin_cache
    from pymllm.models.qwen3_5 import get_rope_index_qwen3_5
    ids, grid, want, want5, cur, cur5 = [], [], [], [], 0, c["start"]
    for x in c["segs"]:
        if isinstance(x, int):
            ids.append(10 + x)
            want.append([cur] * 3)
            want5.append([cur5] * 3)
            cur, cur5 = cur + 1, cur5 + 1
            continue
        t, h, w = x
        grid.append([t, h * c["merge"], w * c["merge"]])
        ids += [START] + [IMG] * (t * h * w) + [END]
        want.append([cur] * 3)
        want5.append([cur5] * 3)
        want += [[cur + 1 + i, cur + 1 + j, cur + 1 + k] for i in range(t) for j in range(h) for k in range(w)]
        want5 += [[cur5 + 1, cur5 + 1 + j, cur5 + 1 + k] for i in range(t) for j in range(h) for k in range(w)]
        cur, cur5 = cur + 1 + max(t, h, w), cur5 + 1 + max(h, w)
        want.append([cur] * 3)
        want5.append([cur5] * 3)
        cur, cur5 = cur + 1, cur5 + 1
        st.hit("image")
    if len(grid) > 1:
        st.hit("images")
    g = torch.tensor(grid) if grid else None
    tid = torch.tensor(ids, dtype=torch.long)
    pos, d = get_rope_index(tid, g, IMG, START, c["merge"])
    eq(pos.T.tolist(), want, "M-RoPE positions")
    eq(d, cur - len(ids), "position delta")
    pos5, d5 = get_rope_index_qwen3_5(tid, g, IMG, START, c["merge"], start_pos=c["start"])
    eq(pos5.T.tolist(), want5, "Qwen3.5 M-RoPE positions")
    eq(d5, cur5 - c["start"] - len(ids), "Qwen3.5 position delta")
    n, sec = len(ids), c["sec"]
    half = sum(sec)
    gen = rnd(c["seed"])
    q, k = (torch.randn(n, h, 2 * half + c["extra"], generator=gen) for h in c["heads"])
    cache = _build_cos_sin_cache(2 * half, 1e4, 512, torch.float32)
    axis = [(i % 3 if i % 3 and i < 3 * sec[i % 3] else 0) for i in range(half)] if c["inter"] else [0] * sec[0] + [1] * sec[1] + [2] * sec[2]
    ang = pos[torch.tensor(axis)].T.double() * 1e4 ** (-torch.arange(half, dtype=torch.float64) / half)
    cos, sin = ang.cos()[:, None], ang.sin()[:, None]
    for fn in (apply_mrope, apply_mrope_fused_):
        out = fn(q.clone(), k.clone(), pos, cache, sec, c["inter"])
        for x, y in zip((q, k), out):
            a, b = x[..., :half], x[..., half:2 * half]
            w = torch.cat([a * cos - b * sin, b * cos + a * sin, x[..., 2 * half:]], -1)
            eq(tuple(y.shape), tuple(x.shape), "shape of the rotated heads")
            need(not n or float((y - w).abs().max()) < 1e-3, "rotation by three-axis positions is off by %.3g", float((y - w).abs().max()) if n else 0)


NETS = {"qwen3": Qwen3, "vl": Qwen3VL, "q35": Qwen35}


def make():
    import torch
    torch.set_num_threads(1)
    import mmenv
    mmenv.install()
    logging.disable(logging.WARNING)
    import functools
    import pymllm.orchestrator.model_runner_process  # noqa
    from pymllm.executor import model_runner as MR
    MR.make_full_attention_net_mem_pool = functools.partial(MR.make_full_attention_net_mem_pool, pin_memory=False)  # pinning needs CUDA
    import transformers  # noqa
    return [Part("qwen3", gen_qwen3, run, 1500, shards=3),
            Part("qwen3_vl", gen_vl, run, 600, shards=3),
            Part("qwen3_5", gen_qwen35, run, 600, shards=3),
            Part("vision", gen_vision, run_vision, 900, shards=2),
            Part("rope_index", gen_index, run_index, 3000, shards=1)]


vh.main("P08", make, "a random checkpoint and a history of batched prefills (sharing prefixes), decode steps and completions; "
        "non-trivial when a prefix was reused, a batch held several requests, or tokens were decoded",
        ["GPU kernels (attention, rope, norms, gated activations) are replaced by their definitions in torch; CUDA graphs are not exercised",
         "single device (tensor parallel size 1), float32"])
