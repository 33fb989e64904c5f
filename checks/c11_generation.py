#!/opt/mllm-venv/bin/python
"""C11: generation emits exactly the tokens that the network's logits select, feeding each back, until the end token.

The real generate / streamGenerate / chat loops and samplers run around a scripted network whose logits are a function of
the whole history it was shown; std::random_device is replaced by the harness's own seeds, so draws are reproducible.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vh
vh.reexec(san=True)
import ctypes as C
import hashlib
import math
import numpy as np
import rt
from vh import need, eq, Violation

R = L = None
NET = C.CFUNCTYPE(C.c_int, C.POINTER(C.c_int64), C.c_int, C.c_int, C.c_int, C.POINTER(C.c_float))
# seeds whose first uniform number lies within 1.5e-8 of one / of zero
HIGH = [2180022, 5113050, 5927148, 20675268, 21946421, 23330562, 30066990, 122868759, 141350809, 142431535, 233651495, 251666724, 272838000, 310537330, 368639432]
LOW = [9852040, 61118804, 68935091, 92651148, 108539074, 184018948, 201323318, 251666724, 285327596, 336374145]


def row(key, v, spread, kind):
    """Logits of one position: distinct values a visible distance apart."""
    g = np.random.default_rng(int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "little"))
    x = g.permutation(v).astype(np.float64) * spread / max(v, 2)
    if kind == "spread":
        x += g.random(v) * spread / max(v, 2) * 0.2
    elif kind == "peaked":
        x[g.integers(v)] += 8
    elif kind == "masked":
        x[g.random(v) < 0.5] = -np.inf
        if not np.isfinite(x).any():
            x[g.integers(v)] = 0
    return (x - g.random() * spread).astype(np.float32)


def dist(x, temp):
    z = x.astype(np.float64) / temp
    z = np.exp(z - z.max())
    return z / z.sum()


def support(x, kind, arg, temp):
    """(tokens that may be drawn, tokens that must be possible): they differ where float rounding or a tie decides."""
    p = dist(x, temp)
    o = np.argsort(-p, kind="stable")
    if kind == "greedy":
        return set(np.flatnonzero(x == x.max()).tolist()), set()
    if kind == "temperature":
        return set(np.flatnonzero(p > 0).tolist()), set()
    if kind == "topk":
        k = min(arg, len(x))
        th = p[o[k - 1]]
        return set(np.flatnonzero(p >= th * (1 - 1e-5)).tolist()) & set(np.flatnonzero(p > 0).tolist()), set()
    c = np.cumsum(p[o])
    n = int(np.searchsorted(c, arg - 1e-5)) + 1
    m = int(np.searchsorted(c, arg + 1e-5)) + 1
    m = min(m, len(x))
    return set(np.flatnonzero(p >= p[o[m - 1]] * (1 - 1e-5)).tolist()) & set(np.flatnonzero(p > 0).tolist()), n


def gen_sample(s):
    v = s.weighted([(6, s.int(1, 12)), (4, s.int(13, 300)), (1, s.int(301, 4000))])
    kind = s.choice(["greedy", "temperature", "topk", "topp", "topk", "topp"])
    return {"v": v, "rows": s.weighted([(3, 1), (2, s.int(2, 5))]), "kind": kind,
            "arg": s.weighted([(3, s.int(1, v)), (1, v), (1, s.int(v + 1, v + 6)), (1, 1)]) if kind == "topk" else s.weighted([(6, s.real(0.01, 1.0)), (1, 1.0), (1, 0.999999)]),
            "temp": s.weighted([(2, 1.0), (3, s.real(0.1, 4.0))]), "spread": s.real(0.5, 12), "shape": s.choice(["spread", "plain", "peaked", "masked"]),
            "seed": s.seed(), "draws": s.weighted([(12, 12), (1, 800)]) if v <= 300 else 6, "edge": s.bool(0.4)}


KINDS = {"greedy": 0, "temperature": 1, "topk": 2, "topp": 3}


def run_sample(c, st):
    kind, v = c["kind"], c["v"]
    x = np.stack([row(b"%d/%d" % (c["seed"], i), v, c["spread"], c["shape"]) for i in range(c["rows"])])
    rng = np.random.default_rng(c["seed"])
    n = c["draws"]
    sd = rng.integers(0, 2**32, n, dtype=np.uint32)
    if c["edge"] and n <= 20:
        e = np.array((HIGH + LOW), np.uint32)
        k = min(n, 8)
        sd[:k] = rng.choice(e, k)
        st.hit("draws at the edge of the unit interval")
    L.g_seeds(n, sd.ctypes.data_as(C.POINTER(C.c_uint32)))
    out = np.full(n, -7, np.int64)
    r = L.g_sample(KINDS[kind], c["rows"], v, x.ctypes.data_as(C.POINTER(C.c_float)), float(c["arg"]), float(c["temp"]), n, out.ctypes.data_as(C.POINTER(C.c_int64)))
    need(r == n, "%s sampling of %d tokens failed: %s", kind, v, L.g_error().decode() if r < 0 else r)
    st.hit(kind)
    if c["rows"] > 1:
        st.hit("last of several rows")
    last = x[-1]
    temp = 1.0 if kind == "greedy" else c["temp"]
    may, _ = support(last, kind, c["arg"], temp)
    for i, t in enumerate(out.tolist()):
        need(0 <= t < v, "%s (argument %s, temperature %s) returned token %d of a vocabulary of %d", kind, c["arg"], temp, t, v)
        need(t in may, "%s (argument %s, temperature %s) returned token %d with probability %.4g, outside the %d it may choose from (seed %d)", kind, c["arg"], temp,
             t, dist(last, temp)[t], len(may), int(sd[i]))
    if n >= 500 and kind != "greedy":
        st.hit("distribution of " + kind)
        p = dist(last, temp)
        o = np.argsort(-p, kind="stable")
        if kind == "topk":
            keep = o[:min(c["arg"], v)]
        elif kind == "topp":
            cs = np.cumsum(p[o])
            k = int(np.searchsorted(cs, c["arg"])) + 1
            if min(abs(cs - c["arg"])) < 1e-4:
                return
            keep = o[:min(k, v)]
        else:
            keep = o
        q = np.zeros(v)
        q[keep] = p[keep]
        if kind == "topk" and len(may) > len(keep):
            return
        q /= q.sum()
        cnt = np.bincount(out, minlength=v)
        for t in range(v):
            f = cnt[t] / n
            a, b = f, q[t]
            kl = (a * math.log(a / b) if a > 0 else 0) + ((1 - a) * math.log((1 - a) / (1 - b)) if a < 1 and b < 1 else 0) if b > 0 else 0
            need(n * kl <= math.log(2 * v / 1e-10), "%s (argument %s, temperature %s) drew token %d %d times in %d, its probability is %.4g", kind, c["arg"], temp, t, cnt[t], n, b)


def gen_loop(s):
    v = s.int(2, 14)
    opt = lambda p, x: x if s.bool(p) else None
    return {"v": v, "prompt": s.list(lambda s: s.int(0, v - 1), 1, 6), "all_rows": s.bool(), "picture": s.bool(0.3), "mode": s.int(0, 2),
            "eos": s.weighted([(4, s.int(0, v - 1)), (1, v + 3)]), "max": s.int(1, 12), "sample": s.bool(0.3), "seed": s.seed(),
            "temperature": opt(0.3, s.choice([1.0, 0.5, 2.0])), "top_k": opt(0.3, s.int(0, v + 3)), "top_p": opt(0.3, s.choice([0.0, 0.3, 0.7, 1.0])),
            "max_length": opt(0.4, s.int(0, 14)), "eos_token_id": opt(0.4, s.int(0, v - 1)), "do_sample": opt(0.3, s.bool()), "spread": s.real(1, 6),
            "runs": s.int(1, 2)}


def run_loop(c, st):
    v = c["v"]
    for k in range(c["runs"]):
        one_loop(c, st, (c["mode"] + k) % 3)


def one_loop(c, st, mode):
    v = c["v"]
    calls = []

    def net(seen, n, fresh, extra, out):
        h = [seen[i] for i in range(n)]
        calls.append((h, fresh, extra))
        rows = fresh if c["all_rows"] else 1
        for i in range(rows):
            upto = n - rows + i + 1
            x = row(b"%d:" % c["seed"] + bytes(int(t) & 255 for t in h[:upto]), v, c["spread"], "spread")
            for j in range(v):
                out[i * v + j] = float(x[j])
        return rows
    cb = NET(net)
    eff = lambda a, b: b if c[a] is None else c[a]
    temp, topk, topp = eff("temperature", 1.0), eff("top_k", 0), eff("top_p", 0.0)
    mx, eos, smp = eff("max_length", c["max"]), eff("eos_token_id", c["eos"]), eff("do_sample", c["sample"])
    sampling = smp or temp != 1.0 or topk > 0 or topp > 0
    kind = ("topk" if topk > 0 else "topp" if topp > 0 else "temperature") if sampling else "greedy"
    arg = topk if kind == "topk" else topp
    o = []
    for n in ("temperature", "top_k", "top_p", "max_length", "eos_token_id", "do_sample"):
        o += [float(c[n] is not None), float(c[n] or 0)]
    sd = np.random.default_rng(c["seed"] + mode).integers(0, 2**32, 64, dtype=np.uint32)
    L.g_seeds(64, sd.ctypes.data_as(C.POINTER(C.c_uint32)))
    out, steps = (C.c_int64 * 64)(), (C.c_int64 * 64)()
    pr = c["prompt"]
    n = L.g_run(mode, cb, v, int(c["all_rows"]), int(c["picture"]), c["eos"], c["max"], int(c["sample"]), len(pr), (C.c_int64 * len(pr))(*pr), (C.c_double * 12)(*o), out, steps, 64)
    name = ("generate", "streamGenerate", "chat")[mode]
    need(n >= 0, "%s failed: %s", name, L.g_error().decode() if n < 0 else "")
    got = list(out[:n])
    st.hit(name)
    st.hit("loop " + kind)
    # what the network was shown
    hist = list(pr)
    toks = [h[-1] for h, f, e in calls[1:]]
    for i, (h, fresh, extra) in enumerate(calls):
        eq(h, pr + toks[:i], "%s: history the network was shown in step %d" % (name, i))
        eq(fresh, len(pr) if i == 0 else 1, "%s: new tokens given in step %d" % (name, i))
        eq(extra, int(c["picture"] and i == 0), "%s: further inputs given in step %d (prompt inputs belong to the first step only)" % (name, i))
    # what was chosen: each token but the last was fed back
    need(len(calls) == n or (mode == 2 and len(calls) == n + 1), "%s: %d tokens delivered after %d forward passes", name, n, len(calls))
    eq(got[:len(toks)], toks[:n], name + ": delivered against fed-back tokens")
    full = got
    for i, t in enumerate(full):
        x = row(b"%d:" % c["seed"] + bytes(int(u) & 255 for u in pr + full[:i]), v, c["spread"], "spread")
        may, _ = support(x, kind, arg, temp)
        need(t in may, "%s: token %d in step %d is not one of %s that %s (argument %s, temperature %s) may choose", name, t, i, sorted(may), kind, arg, temp)
        if mode == 2:
            eq(steps[i], i, "chat: number of the step")
        need(not (t == eos and i < n - 1), "%s went on after the end token", name)
    if mode == 2:
        need(eos not in full, "chat delivered the end token")
        need(n <= mx, "chat delivered %d tokens with max_length %d", n, mx)
        if n < mx:
            need(len(calls) == n + 1, "chat stopped after %d of %d tokens without an end token", n, mx)
            x = row(b"%d:" % c["seed"] + bytes(int(u) & 255 for u in pr + full), v, c["spread"], "spread")
            need(eos in support(x, kind, arg, temp)[0], "chat stopped after %d of %d tokens although the end token cannot be chosen", n, mx)
            st.hit("ended by the end token")
    else:
        need(n <= mx, "%s delivered %d tokens with max_length %d", name, n, mx)
        need(n == mx or (n and full[-1] == eos), "%s stopped after %d of %d tokens without an end token", name, n, mx)
        if n < mx:
            st.hit("ended by the end token")


def parts():
    global R, L
    R = rt.RT("c11", None, ["c11_gen.cpp"], more_unity=["mllm/models/ARGeneration.cpp", "mllm/nn/Functional.cpp"], link=["-Wl,-Bsymbolic-functions"])
    L = R.L
    L.g_error.restype = C.c_char_p
    L.g_sample.argtypes = [C.c_int, C.c_int, C.c_int, C.c_void_p, C.c_double, C.c_double, C.c_int, C.c_void_p]
    P = vh.Part
    return [P("sample", gen_sample, run_sample, quick=12000, cpu_limit=30), P("loop", gen_loop, run_loop, quick=12000, cpu_limit=30)]


if __name__ == "__main__":
    vh.main("C11", parts, "a case with a label: the sampler, loop or end condition it exercised",
            ["Temperature is positive; logits are finite or minus infinity with at least one finite.",
             "streamGenerate and generate deliver the end token, the chat iterator ends before it (each as the repository's examples use it)."])
