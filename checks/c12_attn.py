#!/usr/bin/env python3
"""C12: the fused attention operators (flash, paged, radix, with sliding window and sinks) compute softmax attention.

Oracle: numpy in float64, from the definition: scores of the visible keys scaled by 1/sqrt(D), a softmax over them (and the sink), the
weighted sum of values, each query head reading the key/value head of its group."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")]
import vh
vh.reexec(san=True)
import rt
import numpy as np
from vh import Part, need

R = None


def op(name, ins, *a):
    o = R.op(name, ins, *a)
    need(o is not None, "%s refused: %s", name, R.error())
    return o


def sizes(s, dv=False):
    kv = s.int(1, 3)
    d = s.weighted([(3, s.int(1, 7)), (3, s.choice([8, 16, 12, 24])), (2, s.int(8, 40)), (1, s.choice([64, 80, 96, 128]))])
    return {"B": s.weighted([(4, 1), (2, s.int(2, 3))]), "KV": kv, "H": kv * s.choice([1, 1, 2, 3]), "DQ": d, "DV": s.int(1, 33) if dv and s.bool(0.7) else d,
            "mag": s.choice([0.1, 1.0, 1.0, 4.0, 30.0]), "shift": s.weighted([(4, 0.0), (1, 3.0), (1, -3.0)]), "seed": s.seed(), "threads": s.weighted([(3, 1), (2, s.int(2, 4))])}


def lengths(s):
    q = s.weighted([(4, 1), (4, s.int(2, 8)), (1, s.int(9, 30))])
    return q, q + s.weighted([(3, 0), (4, s.int(1, 9)), (2, s.int(10, 50))])


def data(c, S, T):
    g = np.random.default_rng(c["seed"])
    n = lambda *sh: g.normal(size=sh).astype("f4")
    q = n(c["B"], S, c["H"], c["DQ"]) * np.float32(c["mag"]) + np.float32(c["shift"])
    k = n(c["B"], T, c["KV"], c["DQ"])
    v = n(c["B"], T, c["KV"], c["DV"]) * np.float32(10.0 ** int(g.integers(-1, 2)))
    return q, k, v, n(c["H"]) * np.float32(c["mag"]), g


def attention(c, q, k, v, see, sink=None):
    """see[s] lists the keys that query s sees."""
    rep = c["H"] // c["KV"]
    k8, v8 = (np.repeat(x.astype("f8"), rep, 2) for x in (k, v))
    z = np.einsum("bshd,bthd->bhst", q.astype("f8"), k8) / np.sqrt(c["DQ"])
    size = np.einsum("bshd,bthd->bhst", np.abs(q.astype("f8")), np.abs(k8)) / np.sqrt(c["DQ"])
    m = np.zeros((q.shape[1], k.shape[1]), bool)
    for s, ts in enumerate(see):
        m[s, list(ts)] = True
    z = np.where(m, z, -np.inf)
    top = z.max(-1, keepdims=True)
    if sink is not None:
        top = np.maximum(top, sink.astype("f8")[None, :, None, None])
    e = np.exp(z - top)
    den = e.sum(-1, keepdims=True)
    if sink is not None:
        den = den + np.exp(sink.astype("f8")[None, :, None, None] - top)
    w = e / den
    out = np.einsum("bhst,bthd->bshd", w, v8)
    # A score is off by the rounding of a dot product of that size, which the softmax turns into a relative error of its weight.
    rel = 2e-6 + 1.2e-7 * (c["DQ"] + 4) * np.where(m, size, 0).max() + (2.5e-7 * np.abs(sink).max() if sink is not None else 0)
    tol = 3 * rel * np.einsum("bhst,bthd->bshd", w, np.abs(v8)) + 1e-7 * np.abs(v8).max() * (k.shape[1] + 4) * 0.5 + 1e-30
    return out, tol, w, rel


def same(got, want, tol, what):
    need(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    bad = np.argwhere(~(np.abs(got - want) <= tol))
    if len(bad):
        i = tuple(int(x) for x in bad[0])
        need(False, "%s: %d of %d elements differ, first at %s: %.9g, expected %.9g", what, len(bad), got.size, i, got[i], want[i])


def note(c, st, S, T):
    for x, l in ((c["B"] > 1, "batch"), (c["H"] > c["KV"], "grouped heads"), (S > 1, "several queries"), (T > S, "older keys"), (c["DQ"] % 8, "odd head size"), (c["threads"] > 1, "threads"),
                 (c["DQ"] != c["DV"], "value size differs")):
        if x:
            st.hit(l)


# ---- flash attention over a dense cache

def gen_flash(s):
    c = sizes(s)
    c["S"], c["T"] = lengths(s)
    c["cap"] = s.weighted([(2, 0), (3, s.int(1, 9))])
    return c


def run_flash(c, st):
    R.clear()
    S, T = c["S"], c["T"]
    q, k, v, _, g = data(c, S, T)
    hs = []
    for x in (k, v):
        if c["cap"]:  # the head of a longer cache
            big = np.full((c["B"], T + c["cap"]) + x.shape[2:], 1e4, "f4")
            big[:, :T] = x
            st_ = [int(np.prod(big.shape[i + 1:])) for i in range(4)]
            hs.append(R.view(R.new(big), 0, x.shape, st_))
            st.hit("part of a cache")
        else:
            hs.append(R.new(x))
    (o,) = op("flash", [R.new(q)] + hs, c["threads"], c["H"], c["KV"], c["DQ"])
    want, tol, _, _ = attention(c, q, k, v, [range(T - S + i + 1) for i in range(S)])
    same(R.get(o), want, tol, "flash attention")
    note(c, st, S, T)


# ---- the same with a window and sinks

def gen_sink(s):
    c = sizes(s, True)
    c["W"] = s.int(1, 12)
    if s.bool(0.5):  # one token at a time
        c["S"], c["cur"] = 1, s.int(1, 30)
    else:
        c["cur"] = s.int(1, c["W"])
        c["S"] = s.int(1, c["cur"])
    return c


def window(c):
    """Queries see the last W tokens, which the cache holds; S > 1 only as long as all of them fit."""
    T = min(c["cur"], c["W"])
    return T, [range(T - c["S"] + i + 1) for i in range(c["S"])]


def run_sink(c, st):
    R.clear()
    T, see = window(c)
    q, k, v, sink, g = data(c, c["S"], T)
    (o,) = op("flash_sink", [R.new(q), R.new(k), R.new(v), R.new(sink)], c["threads"], c["H"], c["KV"], c["DQ"], c["DV"], c["W"], c["cur"])
    want, tol, _, _ = attention(c, q, k, v, see, sink)
    same(R.get(o), want, tol, "flash attention with sinks")
    note(c, st, c["S"], T)
    if c["cur"] > c["W"]:
        st.hit("window full")


# ---- paged

def gen_paged(s):
    c = sizes(s)
    c["DQ"] = c["DV"] = 4 * s.int(1, 12)
    c["S"], c["T"] = lengths(s)
    c["more"] = s.weighted([(2, 0), (3, s.int(1, 9))])
    c["weights"] = int(s.bool(0.7))
    c["mask"] = s.choice(["causal", "causal", "random"])
    return c


def run_paged(c, st):
    R.clear()
    S, T = c["S"], c["T"]
    q, K, V, _, g = data(c, S, T + c["more"])
    index = g.permutation(T + c["more"])[:T].astype("i4")
    see = [range(T - S + i + 1) for i in range(S)]
    if c["mask"] == "random" and S > 1:
        see = [sorted(set(g.choice(T, g.integers(1, T + 1)).tolist())) for _ in range(S)]
        st.hit("any mask")
    m = np.full((S, T), np.float32(np.finfo("f4").min))
    for i, ts in enumerate(see):
        m[i, list(ts)] = 0
    o = op("paged", [R.new(q), R.new(K), R.new(V), R.new(index), R.new(m)], c["threads"], c["H"] // c["KV"], c["weights"])
    if S == 1:
        see = [range(T)]
    want, tol, w, rel = attention(c, q, K[:, index], V[:, index], see)
    same(R.get(o[0]), want, tol, "paged attention")
    if c["weights"]:
        same(R.get(o[1]), w, 3 * rel * w + 1e-7, "weights of paged attention")
        st.hit("weights")
    if c["more"]:
        st.hit("some tokens left out")
    note(c, st, S, T)


# ---- keys and values named by address

def gen_radix(s):
    c = sizes(s, True)
    c["kind"] = s.choice(["radix", "relax", "radix_sink", "radix_sink"])
    c["prefill"] = 0
    if c["kind"] == "radix":
        c["DV"] = c["DQ"]
    if c["kind"] == "radix_sink":
        c.update({k: v for k, v in gen_sink(s).items() if k in ("W", "cur", "S")})
        if s.bool():
            c["prefill"] = 1
            c["S"], c["cur"] = lengths(s)
    else:
        c["S"], c["cur"] = lengths(s)
    c["more"] = s.int(0, 6)
    c["reuse"] = int(s.bool(0.2))
    return c


def run_radix(c, st):
    R.clear()
    S, kind = c["S"], c["kind"]
    T = c["cur"]
    see = [range(T - S + i + 1) for i in range(S)]
    if kind == "radix_sink":
        if c["prefill"]:  # W keys before the query's own
            see = [range(max(0, T - S + i - c["W"]), T - S + i + 1) for i in range(S)]
        else:
            T, see = window(c)
    q, K, V, sink, g = data(c, S, T + c["more"])
    n = T + c["more"]
    ak, av = (g.integers(0, n, T) if c["reuse"] else g.permutation(n)[:T] for _ in range(2))
    rows = lambda x: R.new(np.ascontiguousarray(x.transpose(1, 0, 2, 3).reshape(n, -1)))
    o = op(kind, [R.new(q), rows(K), rows(V), R.new(sink)], c["threads"], c["H"], c["KV"], c["DQ"], c["DV"], [int(x) for x in ak], [int(x) for x in av],
           *([c["W"], c["cur"], c["prefill"]] if kind == "radix_sink" else []))
    want, tol, _, _ = attention(c, q, K[:, ak], V[:, av], see, sink if kind == "radix_sink" else None)
    same(R.get(o[0]), want, tol, {"radix": "radix attention", "relax": "radix attention of two sizes", "radix_sink": "radix attention with sinks"}[kind])
    st.hit(kind)
    note(c, st, S, T)


def parts():
    global R
    R = rt.RT("c12", None, ["c12_attn.cpp"])
    return [Part("flash", gen_flash, run_flash, quick=5000, cpu_limit=20), Part("sink", gen_sink, run_sink, quick=4000, cpu_limit=20),
            Part("paged", gen_paged, run_paged, quick=4000, cpu_limit=20), Part("radix", gen_radix, run_radix, quick=6000, cpu_limit=20)]


if __name__ == "__main__":
    vh.main("C12", parts, "an attention call with at least one key, labelled by batch, head grouping, cache layout and mask", ["Results are compared within the rounding a float32 dot product and softmax may make."])
