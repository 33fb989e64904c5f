#!/usr/bin/env python3
"""C09: who may attend to whom, and where every token and image patch sits: causal masks, rotary embedding, position tables.

Oracles: numpy (float64) from the definitions: the mask by key/query position, the rotation of pairs, the frequency tables;
for pictures the enumeration of patches, windows and three-axis positions of the Qwen2-VL family."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")]
import vh
vh.reexec(san=True)
import rt
import numpy as np
from vh import Part, need

R = None
LMS = "llama qwen3 qwen3_fa2 qwen3_aot qwen3_svc qwen3_probing qwen3_moe smollm3 deepseek_ocr qwen_npu minicpm4".split()
VLS = "qwen2vl qwen2vl_o qwen2vl_t qwen2_5vl qwen2_5vl_t".split()


def op(name, ins, *a):
    o = R.op(name, ins, *a)
    need(o is not None, "%s refused: %s", name, R.error())
    return o


def values(seed, sh, dt):
    g = np.random.default_rng(seed)
    return (g.normal(size=sh) * 10.0 ** g.integers(-2, 3, sh)).astype(dt)


def lead(seed, x, k):
    """x behind a tensor larger in its first k dimensions."""
    b = np.random.default_rng(seed).normal(size=[n + (d < k) * 2 for d, n in enumerate(x.shape)]).astype(x.dtype)
    b[tuple(slice(1, 1 + n) if d < k else slice(None) for d, n in enumerate(x.shape))] = x
    bs = [int(np.prod(b.shape[d + 1:])) for d in range(x.ndim)]
    return R.view(R.new(b), sum(bs[:k]), x.shape, bs)


# ---- causal mask

def gen_mask(s):
    S = s.weighted([(2, 1), (2, 2), (4, s.int(3, 9)), (3, s.int(10, 40))])
    D = S + s.weighted([(3, 0), (4, s.int(1, 9)), (3, s.int(10, 40))])
    return {"B": s.int(1, 3), "H": s.int(1, 4), "S": S, "D": D, "w": s.weighted([(3, 0), (4, s.int(1, D + 2))]), "dt": s.choice(["f4", "f2"]), "lead": s.int(0, 2), "seed": s.seed()}


def run_mask(c, st):
    R.clear()
    x = values(c["seed"], (c["B"], c["H"], c["S"], c["D"]), c["dt"])
    h = lead(c["seed"] + 1, x, c["lead"]) if c["lead"] else R.new(x)
    raw = R.raw(h)
    (o,) = op("mask", [h], int(c["w"] > 0), c["w"])
    need(R.raw(h) == raw, "the mask changed its input")
    q = np.arange(c["S"])[:, None] + c["D"] - c["S"]  # the position of query s among the keys
    k = np.arange(c["D"])[None]
    see = (k <= q) & ((k > q - c["w"]) if c["w"] else True)
    g = R.get(o)
    need(g.shape == x.shape and g.dtype == x.dtype, "mask: result is %s %s", g.dtype, g.shape)
    bad = np.argwhere(np.where(see, g != x, g > -6e4))
    need(not len(bad), "mask: query %s key %s (of %s, window %s) is %s", *((bad[0][2], bad[0][3], c["D"], c["w"], g[tuple(bad[0])]) if len(bad) else (0,) * 5))
    if c["D"] > c["S"]:
        st.hit("with_past")
    if c["w"] and not see[:, 0].all():
        st.hit("window")
    st.hit("mask")


# ---- rotary embedding

def gen_rope(s):
    D = 2 * s.weighted([(3, s.int(1, 4)), (4, s.int(5, 17)), (2, 32)])
    return {"B": s.int(1, 3), "H": s.int(1, 5), "S": s.int(1, 9), "D": D, "bshd": s.int(0, 1), "part": s.weighted([(3, -1), (2, 2 * s.int(1, D // 2))]), "dt": s.choice(["f4", "f2"]),
            "inplace": s.int(0, 1), "lay": s.choice(["plain", "plain", "swapped", "lead"]), "wide": s.int(0, 1), "seed": s.seed(), "norm": s.bool(.3)}


def run_rope(c, st):
    R.clear()
    B, H, S, D, dt = c["B"], c["H"], c["S"], c["D"], np.dtype(c["dt"])
    x = values(c["seed"], (B, S, H, D) if c["bshd"] else (B, H, S, D), dt)
    n = D if c["part"] == -1 else c["part"]
    half = n // 2
    ang = np.random.default_rng(c["seed"] + 1).uniform(-7, 7, (B, S, half))
    sin, cos = np.sin(ang).astype(dt), np.cos(ang).astype(dt)
    ts = [np.concatenate([t, t], -1) if c["wide"] else t for t in (sin, cos)]
    if c["lay"] == "swapped":  # made by exchanging two axes, the last axis stays contiguous
        b = np.ascontiguousarray(x.transpose(0, 2, 1, 3))
        h = R.view(R.new(b), 0, x.shape, [b.strides[i] // dt.itemsize for i in (0, 2, 1, 3)])
    else:
        h = lead(c["seed"] + 2, x, 2) if c["lay"] == "lead" else R.new(x)
    hs = [R.new(t) for t in ts]
    raws = [R.raw(t) for t in [h] + hs]
    (o,) = op("rope", [h] + hs, c["bshd"], c["part"], c["inplace"])
    need([R.raw(t) for t in hs] == raws[1:], "rope changed its tables")
    g = R.get(o)
    need(g is not None and g.shape == x.shape and g.dtype == dt, "rope: shape or type of the result")
    if c["inplace"]:
        need(R.L.t_storage(o) == R.L.t_storage(h), "rope in place made a new tensor")
    else:
        need(R.raw(h) == raws[0], "rope changed its input")
    ax = 2 if c["bshd"] else 1
    si, co = np.expand_dims(sin.astype("f8"), ax), np.expand_dims(cos.astype("f8"), ax)
    a, b = x[..., :half].astype("f8"), x[..., half:n].astype("f8")
    w = np.concatenate([a * co - b * si, b * co + a * si, x[..., n:]], -1)
    scale = np.concatenate([abs(a) + abs(b)] * 2 + [np.zeros(x[..., n:].shape)], -1)
    tol = scale * (3e-7 if dt == np.float32 else 6e-4) + (0 if dt == np.float32 else 6e-8)
    bad = np.argwhere(~(abs(g.astype("f8") - w) <= tol))
    need(not len(bad), "rope: element %s is %s instead of %s", *((tuple(map(int, bad[0])), g[tuple(bad[0])], w[tuple(bad[0])]) if len(bad) else (0,) * 3))
    st.hit("rope")
    if c["part"] not in (-1, D):
        st.hit("partial")
    if B > 1 and S > 1:
        st.hit("many")


# ---- tables of the text models

def close(g, ang, scale, what):
    """g against scale * (sin, cos) of the angles, with the error a float32 angle may carry."""
    for t, f, name in ((g[0], np.sin, "sin"), (g[1], np.cos, "cos")):
        w = f(ang) * scale
        need(t is not None and t.shape == w.shape and t.dtype == np.float32, "%s: %s table has shape %s instead of %s", what, name, None if t is None else t.shape, w.shape)
        bad = np.argwhere(~(abs(t - w) <= scale * (1e-6 * abs(ang) + 2e-6)))
        need(not len(bad), "%s: %s of element %s is %s instead of %s", *((what, name, tuple(map(int, bad[0])), t[tuple(bad[0])], w[tuple(bad[0])]) if len(bad) else (0,) * 5))


def gen_lm(s):
    B, S = s.int(1, 3), s.int(1, 8)
    m = s.choice(LMS + ["minicpm4"] * 2 + ["sincos2d"])
    dim = 2 * s.weighted([(3, s.int(1, 6)), (4, s.int(7, 40)), (1, 64)])
    c = {"model": m, "dim": dim, "theta": s.choice([10000.0, 500000.0, 1000000.0, 100.0, 5000000.0]), "pos": [[s.weighted([(3, s.int(0, 20)), (2, s.int(0, 40000))]) for _ in range(S)] for _ in range(B)],
         "scale": s.choice([1.0, 1.0, 1.19, .5])}
    if m == "minicpm4":
        orig = s.weighted([(1, 4096), (1, 32768), (2, s.int(2, 64))])
        c.update(orig=orig, mx=orig * s.int(1, 8), long=s.int(0, 1), len=s.weighted([(2, orig), (2, orig + 1), (3, s.int(1, 100))]),
                 short_f=[s.real(1, 2) for _ in range(dim // 2)] if s.bool(.8) else [], long_f=[s.real(1, 30) for _ in range(dim // 2)])
    if m == "sincos2d":
        c.update(dim=4 * s.int(1, 12), size=[s.int(1, 9) for _ in range(s.int(1, 2))])
    return c


def run_lm(c, st):
    R.clear()
    st.hit(c["model"])
    d = c["dim"]
    if c["model"] == "sincos2d":
        (o,) = op("sincos2d", [], d, c["size"])
        g = R.get(o)
        H, W = c["size"][0], c["size"][-1]
        om = 10000.0 ** -(np.arange(d // 4) / (d / 4))
        half = lambda p: np.concatenate([np.sin(p[..., None] * om), np.cos(p[..., None] * om)], -1)
        y, x = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
        w = np.concatenate([half(x), half(y)], -1)
        need(g.shape == w.shape and abs(g - w).max() < 2e-5, "sincos2d %s: differs from the definition", c["size"])
        return
    pos = np.array(c["pos"], np.int64)
    h = R.new(pos)
    inv = c["theta"] ** -(np.arange(0, d, 2) / d)
    scale = c["scale"]
    if c["model"] == "minicpm4":
        o = op("lm:minicpm4", [h], d, c["theta"], c["len"], c["mx"], c["orig"], c["long"], c["short_f"], c["long_f"])
        if c["short_f"]:
            inv = inv / np.array(c["long_f"] if c["len"] > c["orig"] else c["short_f"], np.float32).astype("f8")
        scale = np.sqrt(1 + np.log(c["mx"] / c["orig"]) / np.log(c["orig"])) if c["long"] else 1.0
    else:
        o = op("lm:" + c["model"], [h], d, c["theta"], scale)
    ang = pos[..., None] * np.concatenate([inv, inv])
    close([R.get(t) for t in o], ang, np.float64(scale), c["model"])


# ---- pictures

def gen_vl(s):
    k = s.choice(["ids", "visual", "mrope", "place", "next", "window"])
    m = s.choice(VLS if k != "window" else VLS[3:])
    mg = s.choice([1, 2, 2, 2, 3])
    grid = [[s.weighted([(3, 1), (1, s.int(2, 4))]), mg * s.int(1, 9), mg * s.int(1, 9)] for _ in range(s.int(1, 3) if k == "ids" else 1)]
    c = {"k": k, "model": m, "merge": mg, "grid": grid}
    if k == "visual":
        c.update(dims=4 * s.int(1, 20), theta=s.choice([10000.0, 100.0]), more=s.int(0, 5))
    if k == "mrope":
        sec = [s.int(1, 12) for _ in range(3)]
        c.update(sec=sec, theta=s.choice([1000000.0, 10000.0]), pos=[[s.weighted([(3, s.int(0, 30)), (1, s.int(0, 40000))]) for _ in range(s.int(5, 5))] for _ in range(3)])
        n = s.int(1, 5)
        c["pos"] = [p[:n] for p in c["pos"]]
    if k == "place":
        c.update(pre=s.weighted([(1, 0), (5, s.int(1, 20))]), post=s.weighted([(1, 0), (5, s.int(1, 20))]), tok=s.choice([151655, 7]))
    if k == "next":
        c["pos"] = [s.int(0, 5000) for _ in range(s.int(1, 6))]
    if k == "window":
        patch = s.choice([14, 14, 2, 5])
        c.update(patch=patch, win=patch * mg * s.choice([4, 4, 1, 2, 3]))
    return c


def patches(grid, m):
    """(h, w) of every patch in the order the vision tower gets them: blocks of m x m patches, row by row."""
    out = []
    for t, h, w in grid:
        one = [(bh * m + i, bw * m + j) for bh in range(h // m) for bw in range(w // m) for i in range(m) for j in range(m)]
        out += one * t
    return np.array(out, np.int32).reshape(-1, 2)


def run_vl(c, st):
    R.clear()
    k, m, mg = c["k"], c["model"], c["merge"]
    st.hit(k + ":" + m)
    grid = R.new(np.array(c["grid"], np.int32))
    t, h, w = c["grid"][0]
    if k == "ids":
        (o,) = op("vl_ids:" + m, [grid], mg)
        g, e = R.get(o), patches(c["grid"], mg)
        need(g.shape == e.shape and (g == e).all(), "%s: patch positions of %s differ", m, c["grid"])
    elif k == "visual":
        n = max(h, w) + c["more"]
        o = op("vl_visual:" + m, [grid], c["dims"], c["theta"], n, mg)
        inv = c["theta"] ** -(np.arange(c["dims"] // 4) / (c["dims"] / 4))
        p = patches(c["grid"], mg)
        close([R.get(x) for x in o], (p[:, :, None] * inv).reshape(len(p), -1), 1.0, m)
    elif k == "mrope":
        pos = np.array(c["pos"], np.int64)
        d = 2 * sum(c["sec"])
        o = op("vl_mrope:" + m, [R.new(pos[:, None])], d, c["theta"], c["sec"])
        inv = c["theta"] ** -(np.arange(0, d, 2) / d)
        axis = np.repeat(np.arange(3), c["sec"])  # which of time, height, width turns each pair
        ang = pos[axis].T * inv
        close([R.get(x) for x in o], np.concatenate([ang, ang], -1), 1.0, m)
    elif k == "place":
        H, W = h // mg, w // mg
        ids = np.concatenate([np.full(c["pre"], 1), np.full(t * H * W, c["tok"]), np.full(c["post"], 2)]).astype(np.int64)[None]
        (o,) = op("vl_place:" + m, [R.new(ids), grid], c["tok"], mg)
        v = np.stack(np.meshgrid(np.arange(t), np.arange(H), np.arange(W), indexing="ij")).reshape(3, -1) + c["pre"]
        e = np.concatenate([np.tile(np.arange(c["pre"]), (3, 1)), v, np.tile(v.max() + 1 + np.arange(c["post"]), (3, 1))], 1)[:, None]
        g = R.get(o)
        need(g.shape == e.shape and (g == e).all(), "%s: positions of text and picture %s differ: %s instead of %s", m, c["grid"], g.tolist(), e.tolist())
    elif k == "next":
        (o,) = op("vl_next:" + m, [R.new(np.array([[c["pos"]]] * 3, np.int64))])
        g = R.get(o)
        need(g.shape == (3, 1, 1) and (g == c["pos"][-1] + 1).all(), "%s: next position is %s after %s", m, g.tolist(), c["pos"][-1])
    else:
        o = op("window:" + m, [grid], c["win"], mg, c["patch"])
        n = c["win"] // mg // c["patch"]
        H, W = h // mg, w // mg
        idx, cu = [], [0]
        for f in range(t):
            for a in range(0, H, n):
                for b in range(0, W, n):
                    q = [(f * H + y) * W + x for y in range(a, min(a + n, H)) for x in range(b, min(b + n, W))]
                    idx += q
                    cu.append(cu[-1] + len(q) * mg * mg)
        gi, gc = (R.get(x).tolist() for x in o)
        need(gi == idx, "%s: window order of %s differs", m, c["grid"])
        # a window that holds nothing may be listed or not
        need([v for p, v in enumerate(gc) if p == 0 or v != gc[p - 1]] == cu, "%s: window bounds %s instead of %s", m, gc, cu)


def parts():
    global R
    R = rt.RT("c09", ["CausalMask", "RoPE"], ["c09_pos.cpp"], extra=["mllm/backends/base/PluginSystem.cpp"], more_unity=["mllm/nn/Module.cpp"],
              flags=("-O1", "-DXXH_INLINE_ALL", "-fno-sanitize=vptr"))
    return [Part("mask", gen_mask, run_mask, quick=8000, cpu_limit=10), Part("rope", gen_rope, run_rope, quick=8000, cpu_limit=10),
            Part("tables", gen_lm, run_lm, quick=8000, cpu_limit=10), Part("pictures", gen_vl, run_vl, quick=10000, cpu_limit=10)]


if __name__ == "__main__":
    vh.main("C09", parts, rule="a mask, rotation, table or placement was computed by the code under test and compared with the definition element by element",
            assumptions=["at least as many keys as queries", "grids divisible by the merge size", "one picture per prompt (what these models support)", "float32 angles up to 40000 radians carry their rounding error"])
