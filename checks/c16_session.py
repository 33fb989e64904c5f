#!/opt/mllm-venv/bin/python
"""C16: a service session answers every request as the model alone would, whatever it has cached.

A model folder (config.json, model.mllm, tokenizer.json) with random tiny weights is opened by the real Qwen3 session; a history
of requests that repeat, continue, branch and shorten each other is answered from its prefix cache, and every answer is compared
with greedy decoding of transformers' float64 model on the whole prompt. Prompts are rendered by Qwen3's published template.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vh
vh.reexec(san=False)
import ctypes as C
import glob
import json
import shutil
import tempfile
import numpy as np
import rt
import cppbuild
from vh import need, eq, Violation

R = L = None
torch = JT = None
TEMPLATE = r"""{%- if messages[0].role == 'system' %}{{- '<|im_start|>system\n' + messages[0].content + '<|im_end|>\n' }}{%- endif %}
{%- set ns = namespace(multi_step_tool=true, last_query_index=messages|length - 1) %}
{%- for message in messages[::-1] %}
    {%- set index = (messages|length - 1) - loop.index0 %}
    {%- if ns.multi_step_tool and message.role == "user" and message.content is string and not(message.content.startswith('<tool_response>') and message.content.endswith('</tool_response>')) %}
        {%- set ns.multi_step_tool = false %}
        {%- set ns.last_query_index = index %}
    {%- endif %}
{%- endfor %}
{%- for message in messages %}
    {%- if message.content is string %}{%- set content = message.content %}{%- else %}{%- set content = '' %}{%- endif %}
    {%- if (message.role == "user") or (message.role == "system" and not loop.first) %}
        {{- '<|im_start|>' + message.role + '\n' + content + '<|im_end|>' + '\n' }}
    {%- elif message.role == "assistant" %}
        {%- set reasoning_content = '' %}
        {%- if message.reasoning_content is string %}
            {%- set reasoning_content = message.reasoning_content %}
        {%- else %}
            {%- if '</think>' in content %}
                {%- set reasoning_content = content.split('</think>')[0].rstrip('\n').split('<think>')[-1].lstrip('\n') %}
                {%- set content = content.split('</think>')[-1].lstrip('\n') %}
            {%- endif %}
        {%- endif %}
        {%- if loop.index0 > ns.last_query_index %}
            {%- if loop.last or (not loop.last and reasoning_content) %}
                {{- '<|im_start|>' + message.role + '\n<think>\n' + reasoning_content.strip('\n') + '\n</think>\n\n' + content.lstrip('\n') }}
            {%- else %}
                {{- '<|im_start|>' + message.role + '\n' + content }}
            {%- endif %}
        {%- else %}
            {{- '<|im_start|>' + message.role + '\n' + content }}
        {%- endif %}
        {%- if message.tool_calls %}
            {%- for tool_call in message.tool_calls %}
                {%- if (loop.first and content) or (not loop.first) %}{{- '\n' }}{%- endif %}
                {%- if tool_call.function %}{%- set tool_call = tool_call.function %}{%- endif %}
                {{- '<tool_call>\n{"name": "' }}{{- tool_call.name }}{{- '", "arguments": ' }}
                {%- if tool_call.arguments is string %}{{- tool_call.arguments }}{%- else %}{{- tool_call.arguments | tojson }}{%- endif %}
                {{- '}\n</tool_call>' }}
            {%- endfor %}
        {%- endif %}
        {{- '<|im_end|>\n' }}
    {%- elif message.role == "tool" %}
        {%- if loop.first or (messages[loop.index0 - 1].role != "tool") %}{{- '<|im_start|>user' }}{%- endif %}
        {{- '\n<tool_response>\n' }}{{- content }}{{- '\n</tool_response>' }}
        {%- if loop.last or (messages[loop.index0 + 1].role != "tool") %}{{- '<|im_end|>\n' }}{%- endif %}
    {%- endif %}
{%- endfor %}
{%- if add_generation_prompt %}
    {{- '<|im_start|>assistant\n' }}
    {%- if enable_thinking is defined and enable_thinking is false %}{{- '<think>\n\n</think>\n\n' }}{%- endif %}
{%- endif %}"""
SPECIALS = ["<|endoftext|>", "<|im_start|>", "<|im_end|>", "<think>", "</think>"]
THINK = 151667
WORDS = ["hi", "no", " a", "b", "aab", " 12", "\u00e9", "\u4f60\u597d", "?", ".", "it's", "\n", "ab ab", "\U0001f600"]


def text(s, n=6):
    return "".join(s.choice(WORDS) for _ in range(s.int(0, n)))


def render(messages, prompt, think):
    return JT.render(messages=messages, add_generation_prompt=prompt, enable_thinking=think)


# ---------------------------------------------------------------- the template alone

def gen_template(s):
    ms = []
    if s.bool(0.4):
        ms.append({"role": "system", "content": text(s)})
    for _ in range(s.int(0 if ms else 1, 6)):
        r = s.weighted([(4, "user"), (4, "assistant"), (1, "system"), (2, "tool")])
        m = {"role": r, "content": text(s)}
        if r == "user" and s.bool(0.15):
            m["content"] = "<tool_response>" + text(s) + s.choice(["</tool_response>", "</tool_response>", "", "</tool_response>x"])
        if r == "assistant":
            k = s.int(0, 3)
            think = s.choice(["", "hm", "\nhm\n", "\n\nso it's\n", "x y"])
            if k == 1:
                m["content"] = "<think>" + think + "</think>" + s.choice(["", "\n", "\n\n"]) + m["content"]
            elif k == 2:
                m["reasoning_content"] = think
            if s.bool(0.15):
                m["tool_calls"] = [s.choice([{"name": "f", "arguments": {}}, {"function": {"name": "g", "arguments": "{\"a\": 1}"}}]) for _ in range(s.int(1, 3))]
            if s.bool(0.1):
                m["content"] = None
        ms.append(m)
    return {"messages": ms, "prompt": s.bool(0.8), "think": s.bool()}


def run_template(c, st):
    need(L.s_template(json.dumps(c["messages"]).encode(), int(c["prompt"]), int(c["think"])) == 0, "%s", L.s_error().decode())
    got = L.s_out().decode()
    want = render(c["messages"], c["prompt"], c["think"])
    eq(got, want, "prompt of %s" % json.dumps(c["messages"]))
    for m in c["messages"]:
        st.hit(m["role"])


# ---------------------------------------------------------------- histories

def gen_history(s):
    nkv = s.choice([1, 2])
    nh = nkv * s.choice([1, 2])
    hd = 2 * s.int(2, 6)
    big = s.bool(0.12)
    c = {"kv": nkv, "heads": nh, "hd": hd, "layers": s.weighted([(1, 1), (3, 2), (1, 3)]), "inter": s.int(4, 16), "hidden": 8 if big else s.int(4, 24), "bias": s.bool(0.3),
         "tie": s.bool(), "theta": s.choice([10000.0, 1000000.0]), "seed": s.seed(), "big": big, "end": s.int(0, 8), "merges": s.int(0, 6)}
    steps = []
    for i in range(s.weighted([(1, 1), (4, s.int(2, 4)), (2, s.int(5, 9))])):
        steps.append({"how": s.weighted([(2, "new"), (4, "go on"), (2, "again"), (2, "branch"), (1, "shorter")]) if i else "new", "system": s.choice([None, "be kind", "be"]),
                      "text": text(s), "think": s.bool(), "limit": s.weighted([(1, 1), (1, 2), (6, s.int(3, 8))]), "at": s.int(0, 8), "reason": s.bool(0.2),
                      "peers": s.list(lambda s: {"text": text(s, 3), "think": s.bool(), "limit": s.int(1, 6), "fresh": s.bool()}, 1, 3) if s.bool(0.15) else []})
    c["steps"] = steps
    return c


def byte_alphabet():
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    cs = bs[:]
    n = 0
    for b in range(256):
        if b not in bs:
            bs.append(b)
            cs.append(256 + n)
            n += 1
    return {b: chr(x) for b, x in zip(bs, cs)}


def write_folder(c, root):
    import transformers as T
    al = byte_alphabet()
    vocab = {al[b]: b for b in range(256)}
    merges = []
    for a, b in [("a", "b"), ("i", "t"), ("u", "s"), ("us", "e"), ("h", "i"), (al[32], "a")][:c["merges"]]:
        if a in vocab and b in vocab:
            merges.append([a, b])
            vocab[a + b] = len(vocab)
    n = len(vocab)
    sp = {t: n + i for i, t in enumerate(SPECIALS)}
    v = n + len(SPECIALS)
    if c["big"]:
        sp["<think>"], sp["</think>"] = THINK, THINK + 1
        v = THINK + 2
    json.dump({"model": {"vocab": vocab, "merges": merges}, "added_tokens": [{"id": i, "content": t} for t, i in sp.items()]}, open(os.path.join(root, "tokenizer.json"), "w"))
    d = {"vocab_size": v, "hidden_size": c["hidden"], "intermediate_size": c["inter"], "num_hidden_layers": c["layers"], "num_attention_heads": c["heads"],
         "num_key_value_heads": c["kv"], "max_position_embeddings": 4096, "rms_norm_eps": 1e-6, "rope_theta": c["theta"], "attention_bias": c["bias"],
         "tie_word_embeddings": c["tie"], "head_dim": c["hd"], "bos_token_id": 0, "eos_token_id": 0}
    cfg = T.Qwen3Config(**d, attn_implementation="eager")
    torch.manual_seed(0)
    m = T.Qwen3ForCausalLM(cfg)
    g = torch.Generator().manual_seed(c["seed"] % 2 ** 31)
    with torch.no_grad():
        for nme, p in m.named_parameters():
            x = torch.randn(p.shape, generator=g, dtype=torch.float32)
            if "norm" in nme:
                x = 1 + 0.3 * x
            elif p.ndim == 2 and "embed" not in nme:
                x = x * p.shape[1] ** -0.5 * 1.5
            if c["big"] and p.shape[0] == v:
                x[n + 3:THINK] = 0
            p.copy_(x)
    sd = {k: p.detach().float().numpy() for k, p in m.state_dict().items()}
    if c["tie"]:
        sd["lm_head_out.weight"] = sd.pop("lm_head.weight")
    for k, x in sd.items():
        x = np.ascontiguousarray(x)
        L.s_param(k.encode(), x.ndim, (C.c_int32 * x.ndim)(*x.shape), x.ctypes.data_as(C.POINTER(C.c_float)))
    need(L.s_save(os.path.join(root, "model.mllm").encode()) == 0, "saving failed: %s", L.s_error().decode())
    need(L.s_tokenizer(os.path.join(root, "tokenizer.json").encode()) == 0, "tokenizer: %s", L.s_error().decode())
    return m.double().eval(), d


def greedy(m, ids, n, eos):
    """n tokens of greedy decoding (up to the end token), None from a tie on."""
    from transformers import DynamicCache
    out = []
    with torch.no_grad():
        past = DynamicCache()
        t = torch.tensor([ids])
        while len(out) < n:
            x = m(t, past_key_values=past, use_cache=True).logits[0, -1].numpy()
            top = np.partition(x, -2)[-2:]
            if top[1] - top[0] < 4e-3 * np.abs(x).max() + 2e-4:
                return out + [None]
            k = int(x.argmax())
            out.append(k)
            if k == eos:
                break
            t = torch.tensor([[k]])
    return out


def ids_of(prompt):
    a = (C.c_int64 * 4096)()
    n = L.s_ids(json.dumps(prompt).encode(), a, 4096)
    need(0 <= n <= 4096, "tokenizing failed")
    return list(a[:n])


def compare(got, want, limit, eos, what, st):
    for j, t in enumerate(want):
        if t is None:
            st.hit("stopped at a tie")
            return False
        last = t == eos or j + 1 == limit
        L.s_piece(t)
        exp = "" if last else json.loads(L.s_out())
        need(j < len(got), "%s: ended after %d pieces", what, len(got))
        eq(got[j], [exp, last], "%s: piece %d" % (what, j))
        if t == eos:
            st.hit("ended by the end token")
    eq(len(got), len(want), what + ": pieces")
    return True


def run_history(c, st):
    root = tempfile.mkdtemp(prefix="c16_")
    try:
        m, d = write_folder(c, root)
        eos = None
        talk, seen = [], []
        for i, q in enumerate(c["steps"]):
            how = q["how"]
            if how == "new":
                talk = ([{"role": "system", "content": q["system"]}] if q["system"] else []) + [{"role": "user", "content": q["text"]}]
            elif how == "go on":
                talk = talk + [{"role": "user", "content": q["text"]}]
            elif how == "again":
                talk = list(seen[q["at"] % len(seen)])
            elif how == "branch":
                talk = list(seen[q["at"] % len(seen)])
                talk[-1] = {"role": "user", "content": talk[-1]["content"] + q["text"]}
            else:
                old = seen[q["at"] % len(seen)]
                k = 1 + q["at"] % len(old)
                talk = list(old[:k])
            seen.append(list(talk))
            ids = ids_of(render(talk, True, q["think"]))
            if eos is None:
                first = greedy(m, ids, q["limit"], -1)
                eos = first[c["end"]] if c["end"] < len(first) and first[c["end"]] is not None else c["end"]
                d.update(eos_token_id=int(eos), max_cache_length=4096, linear_impl_type="Default")
                json.dump(d, open(os.path.join(root, "config.json"), "w"))
                need(L.s_new(root.encode()) == 0, "opening the model folder failed: %s", L.s_error().decode())
            want = greedy(m, ids, q["limit"], eos)
            if q["peers"]:
                # Requests at the same time as this one, in the same session.
                qs = [(talk, q, ids, want)]
                for t in q["peers"]:
                    tk = [{"role": "user", "content": t["text"]}] if t["fresh"] else list(talk)
                    ii = ids_of(render(tk, True, t["think"]))
                    qs.append((tk, t, ii, greedy(m, ii, t["limit"], eos)))
                rs = [{"id": str(k), "messages": tk, "max_length": t["limit"], "enable_thinking": t["think"]} for k, (tk, t, _, _) in enumerate(qs)]
                need(L.s_ask_all(json.dumps(rs).encode()) == 0, "requests at once: %s", L.s_error().decode())
                for k, (got, (_, t, ii, w)) in enumerate(zip(json.loads(L.s_out()), qs)):
                    compare(got, w, t["limit"], eos, "request %d.%d of %d at once, %d tokens" % (i + 1, k + 1, len(qs), len(ii)), st)
                st.hit("at once")
                eq(L.s_leak(), 0, "after requests at once: cache slots in use that no later request can find")
            r = L.s_ask(json.dumps({"id": "x", "messages": talk, "max_length": q["limit"], "enable_thinking": q["think"]}).encode())
            what = "request %d (%s) of %d tokens" % (i + 1, how, len(ids))
            need(r == 0, "%s failed: %s", what, L.s_error().decode() if r else "")
            got = json.loads(L.s_out().decode(errors="replace"))
            if compare(got, want, q["limit"], eos, what, st):
                st.hit(how)
            eq(L.s_leak(), 0, what + ": cache slots in use that no later request can find")
            text_ = "".join(p for p, _ in got).replace("\ufffd", "")
            a = {"role": "assistant", "content": text_}
            if q["reason"]:
                a["content"] = "<think>\nhm\n</think>\n\n" + text_
            talk = talk + [a]
            if c["big"]:
                st.hit("thinking token")
    finally:
        L.s_free()
        shutil.rmtree(root, ignore_errors=True)


def parts():
    global R, L, torch, JT
    g = lambda p: [os.path.relpath(f, cppbuild.REPO) for f in sorted(glob.glob(os.path.join(cppbuild.REPO, p)))]
    R = rt.RT("c16", None, ["c16_session.cpp"], san=False, link=["-Wl,-Bsymbolic-functions"],
              extra=g("mllm/preprocessor/tokenizers/*.cpp") + g("mllm/preprocessor/tokenizers/llama_cpp_unicode/*.cpp"),
              more_unity=["mllm/models/ARGeneration.cpp", "mllm/nn/Functional.cpp", "mllm/nn/Module.cpp", "mllm/nn/Layer.cpp", "mllm/nn/AbstractNnNode.cpp",
                          "mllm/engine/ConfigFile.cpp", "mllm/engine/service/Session.cpp"] + g("mllm/nn/layers/*.cpp") + g("mllm/engine/prefix_cache/*.cpp") + ["mllm/mllm.cpp"])
    L = R.L
    L.s_leak.restype = C.c_int64
    L.s_error.restype = L.s_out.restype = C.c_char_p
    import torch as t
    torch = t
    torch.set_num_threads(1)
    import transformers
    transformers.Qwen3ForCausalLM
    import jinja2
    import jinja2.sandbox
    env = jinja2.sandbox.ImmutableSandboxedEnvironment(trim_blocks=True, lstrip_blocks=True)
    env.filters["tojson"] = lambda x: json.dumps(x, ensure_ascii=False)
    JT = env.from_string(TEMPLATE)
    P = vh.Part
    return [P("template", gen_template, run_template, quick=6000, cpu_limit=30), P("history", gen_history, run_history, quick=1500, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C16", parts, "a conversation rendered, or a history of requests answered from the cache, labelled by how each request relates to earlier ones",
            ["Comparison of an answer ends at the first token whose two best logits are too close for float32 to order.",
             "A length limit of n yields n-1 pieces of text and the final empty one."])
