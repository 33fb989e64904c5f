#!/usr/bin/env python3
"""C10: quantised weights stand for the numbers their blocks encode."""
import ctypes as C
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec(san=True)
import numpy as np
from rt import RT, F32, F16
np.seterr(all="ignore")
R = L = None
Q4_0, Q8_0, Q4_K, Q6_K, Q8_K, Q3_K, Q2_K, IQ2 = 2, 8, 12, 14, 15, 23, 24, 26
NAME = {F32: "fp32", F16: "fp16", Q4_0: "q4_0", Q8_0: "q8_0", Q4_K: "q4_K", Q6_K: "q6_K", Q8_K: "q8_K", Q3_K: "q3_K", Q2_K: "q2_K", IQ2: "iq2_xxs"}
f2, f4, u1, i1, i2 = "<f2", "<f4", "u1", "i1", "<i2"
LAY = {
    F32: np.dtype([("d", f4)]), F16: np.dtype([("d", f2)]),
    Q4_0: np.dtype([("d", f2), ("qs", u1, 16)]), Q8_0: np.dtype([("d", f2), ("qs", i1, 32)]),
    Q8_K: np.dtype([("d", f4), ("qs", i1, 256), ("bsums", i2, 16)]),
    Q4_K: np.dtype([("d", f2), ("dmin", f2), ("scales", u1, 12), ("qs", u1, 128)]),
    Q6_K: np.dtype([("ql", u1, 128), ("qh", u1, 64), ("scales", i1, 16), ("d", f2)]),
    Q2_K: np.dtype([("scales", u1, 16), ("qs", u1, 64), ("d", f2), ("dmin", f2)]),
    Q3_K: np.dtype([("hmask", u1, 32), ("qs", u1, 64), ("scales", u1, 12), ("d", f2)]),
    IQ2: np.dtype([("d", f2), ("qs", "<u2", 32)]),
}
LANES = {F32: 1, F16: 1, Q4_0: 32, Q8_0: 32, Q8_K: 256, Q4_K: 256, Q6_K: 256, Q2_K: 256, Q3_K: 256, IQ2: 256}
F8 = np.float64


def parts(t, b):
    """The (code, scale, offset) of every element of the blocks b: value = code * scale - offset; arrays (blocks, lanes)."""
    n = len(b)
    d = b["d"].astype(F8)[:, None]
    z = np.zeros((n, LANES[t]))
    if t in (F32, F16):
        return d, z + 1, z
    if t == Q4_0:
        return np.concatenate([b["qs"] & 15, b["qs"] >> 4], 1).astype(F8) - 8, d + z, z
    if t in (Q8_0, Q8_K):
        return b["qs"].astype(F8), d + z, z
    m = b["dmin"].astype(F8)[:, None] if "dmin" in b.dtype.names else None
    if t == Q4_K:
        s = b["scales"].astype(int)
        sc = np.concatenate([s[:, :4] & 63, (s[:, 8:] & 15) | (s[:, :4] >> 6) << 4], 1)
        mn = np.concatenate([s[:, 4:8] & 63, s[:, 8:] >> 4 | (s[:, 4:8] >> 6) << 4], 1)
        q = b["qs"].reshape(n, 4, 1, 32)
        q = np.concatenate([q & 15, q >> 4], 2).reshape(n, 256).astype(F8)
        return q, np.repeat(sc * d, 32, 1), np.repeat(mn * m, 32, 1)
    if t == Q6_K:
        l, h = b["ql"].reshape(n, 2, 64).astype(int), b["qh"].reshape(n, 2, 1, 32).astype(int)
        lo = np.concatenate([l & 15, l >> 4], 2).reshape(n, 2, 4, 32)
        hi = np.concatenate([h >> 2 * k & 3 for k in range(4)], 2)
        return (lo | hi << 4).reshape(n, 256).astype(F8) - 32, np.repeat(b["scales"].astype(F8) * d, 16, 1), z
    two = b["qs"].reshape(n, 2, 1, 32).astype(int) if t != IQ2 else None
    if t == Q2_K:
        q = np.concatenate([two >> 2 * k & 3 for k in range(4)], 2).reshape(n, 256).astype(F8)
        return q, np.repeat((b["scales"] & 15) * d, 16, 1), np.repeat((b["scales"] >> 4) * m, 16, 1)
    if t == Q3_K:
        q = np.concatenate([two >> 2 * k & 3 for k in range(4)], 2).reshape(n, 256)
        h = np.concatenate([b["hmask"][:, None, :].astype(int) >> k & 1 for k in range(8)], 1).reshape(n, 256)
        s = b["scales"].astype(int)
        sc = np.stack([((s[:, j] & 15 if j < 8 else s[:, j - 8] >> 4) | (s[:, 8 + j % 4] >> 2 * (j // 4) & 3) << 4) - 32 for j in range(16)], 1)
        return (q - 4 * (1 - h)).astype(F8), np.repeat(sc * d, 16, 1), z


def decode(t, b):
    if t == IQ2:  # its own decoder is the only definition of the code book
        return to_float(t, b).astype(F8).reshape(-1)
    q, s, o = parts(t, b)
    return (q * s - o).reshape(-1)


def buf(a):
    return np.ascontiguousarray(a).ctypes.data_as(C.c_void_p)


def to_float(t, b):
    o = np.full(len(b) * LANES[t], np.nan, np.float32)
    L.q_to(t, buf(b), buf(o), o.size)
    return o


def from_float(t, x):
    b = np.full(x.size // LANES[t] * LAY[t].itemsize, 0xA5, np.uint8)
    b[:] = 0xA5
    keep = x.copy()
    L.q_from(t, buf(x), buf(b), x.size)
    vh.need((x == keep).all(), "quantising to %s changed its input", NAME[t])
    return b.view(LAY[t])


def blocks(g, t, n, scale=1.0):
    """n arbitrary valid blocks of type t."""
    b = np.frombuffer(g.bytes(n * LAY[t].itemsize), LAY[t]).copy()
    mag = lambda: (scale * np.exp(g.uniform(-3, 0, n)) * g.choice([1, 1, 1, -1, 0], n) / (np.sqrt(LANES[t]) if t != F32 else 1))
    b["d"] = mag()
    if "dmin" in b.dtype.names:
        b["dmin"] = np.abs(mag())
    if t == Q8_0 or t == Q8_K:
        b["qs"][b["qs"] == -128] = -127  # -128 comes from quantising only
    if t == Q8_K:
        b["qs"][g.random(b["qs"].shape) < .02] = 127
        b["bsums"] = b["qs"].reshape(n, 16, 16).sum(2)
    return b


def close(got, want, tol, what, *a):
    bad = ~((np.abs(got.astype(F8) - want) <= tol) | (got == want))
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        vh.need(False, "%s: element %s is %.9g, expected %.9g (%d of %d wrong)", what % a, [int(v) for v in i], got[i], want[i], int(bad.sum()), bad.size)


# ------------------------------------------------------------------ decode
def gen_dec(s):
    return {"t": s.choice([Q4_0, Q8_0, Q8_K, Q4_K, Q6_K, Q3_K, Q2_K]), "n": s.edge(1, 9), "alpha": s.choice([1, -1, .5, .3, -2.75, 0]), "seed": s.seed(), "f": s.choice([F32, F16]), "m": s.edge(1, 70)}


def run_dec(c, st):
    g = np.random.default_rng(c["seed"])
    t = c["t"]
    vh.eq(L.q_size(t), LAY[t].itemsize, "bytes of a block of " + NAME[t])
    vh.eq(L.q_lanes(t), LANES[t], "elements of a block of " + NAME[t])
    b = blocks(g, t, c["n"])
    q, s, o = parts(t, b)
    want, mag = (q * s - o).ravel(), (np.abs(q * s) + np.abs(o)).ravel()
    close(to_float(t, b), want, 3e-7 * mag, "decoding %s", NAME[t])
    for t, b, w, m in [(t, b, want, mag)] + ([(c["f"], x, x["d"].astype(F8), np.abs(x["d"].astype(F8))) for x in [blocks(g, c["f"], c["m"])]]):
        if L.q_has(t) & 8:
            y = g.standard_normal(w.size).astype(np.float32)
            r = y.copy()
            L.q_add(t, r.size, buf(b), buf(r), c["alpha"])
            close(r, y + c["alpha"] * w, 4e-7 * (np.abs(y) + abs(c["alpha"]) * m), "adding a row of %s times %g", NAME[t], c["alpha"])
            st.hit("add row " + NAME[t])
    st.hit("decode " + NAME[c["t"]])


# ------------------------------------------------------------------ encode
def values(s, g, n, kind, scale):
    x = {"normal": lambda: g.standard_normal(n), "uniform": lambda: g.uniform(-1, 1, n), "pos": lambda: g.uniform(0, 1, n), "neg": lambda: -g.uniform(0, 1, n),
         "heavy": lambda: g.standard_t(2, n), "sparse": lambda: g.standard_normal(n) * (g.random(n) < .1), "const": lambda: np.full(n, float(g.choice([-1, 1]))),
         "ramp": lambda: np.linspace(-1, 1, n), "few": lambda: g.integers(-2, 3, n) * .5, "shift": lambda: g.standard_normal(n) + g.choice([-4, 4]),
         "levels": lambda: np.repeat(np.exp(g.uniform(-6, 2, n // 16)), 16) * g.standard_normal(n)}[kind]()
    x = (x * scale).astype(np.float32)
    if g.random() < .15:
        x[:32 if n == 32 else g.integers(1, n)] = 0
    return x


KINDS = ["normal", "uniform", "pos", "neg", "heavy", "sparse", "const", "ramp", "few", "shift", "levels"]
# (lowest and highest code, subblock, levels, worst accepted rms error in steps of an even grid over the sub-block)
CODE = {Q2_K: (0, 3, 16), Q3_K: (-4, 3, 16), Q4_K: (0, 15, 32), Q6_K: (-32, 31, 16)}
LIMIT = {Q2_K: (3, 2.2), Q3_K: (7, 1.1), Q4_K: (15, .7), Q6_K: (63, .6)}
STAT = {}


def gen_enc(s):
    return {"t": s.choice([Q4_0, Q8_0, Q8_K, Q4_K, Q6_K, Q3_K, Q2_K]), "n": s.choice([1, 1, 2, 3, 8]), "kind": s.choice(KINDS), "scale": s.choice([1, 1, .02, 30, 1000]), "seed": s.seed()}


def run_enc(c, st):
    g = np.random.default_rng(c["seed"])
    t = c["t"]
    x = values(None, g, c["n"] * LANES[t], c["kind"], c["scale"])
    b = from_float(t, x)
    X = x.reshape(c["n"], -1).astype(F8)
    Y = decode(t, b).reshape(X.shape)
    vh.need(np.isfinite(Y).all(), "%s of finite values decodes to a non-finite one", NAME[t])
    peak = np.abs(X).max(1, keepdims=True)
    if t == Q4_0:  # 16 levels, the extreme value exact, its opposite one step short
        step = peak / 8
        close(Y, X, step * (.5 + 1 / 128) + 2.5e-7 + np.where(np.abs(X) > 7.5 * step - 1e-9, step * .51, 0), "encoding to q4_0 (%s)", c["kind"])
        i = np.argmax(np.abs(X), 1)
        r = np.arange(len(X))
        close(Y[r, i], X[r, i], 1e-3 * peak[:, 0] + 3e-7, "the largest value of a q4_0 block")
    elif t == Q8_0:
        close(Y, X, peak / 127 * (.5 + .07) + 4e-6, "encoding to q8_0 (%s)", c["kind"])
    elif t == Q8_K:
        close(Y, X, peak / 127 * 1.01, "encoding to q8_K (%s)", c["kind"])
        close(Y, X, np.where(np.abs(X) > peak * .99, peak / 127 * 1.01, peak / 127 * .51), "encoding to q8_K (%s)", c["kind"])
        k = (b["d"] != 0)
        vh.need((b["bsums"][k] == b["qs"][k].astype(int).reshape(-1, 16, 16).sum(2)).all(), "q8_K carries sums of 16 that are not the sums of its codes")
    else:
        q, s, o = parts(t, b)
        lo, hi, sub = CODE[t]
        near = np.clip(np.rint((X + o) / np.where(s == 0, 1, s)), lo, hi)
        frac = np.abs((X + o) / np.where(s == 0, 1, s) - np.floor((X + o) / np.where(s == 0, 1, s)) - .5)
        bad = (q != near) & (s != 0) & (frac > 1e-3)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad))
            vh.need(False, "%s (%s): element %s = %.7g has code %d with scale %.6g and offset %.6g, nearest is %d", NAME[t], c["kind"], i, X[i], q[i], s[i], o[i], near[i])
        lev, lim = LIMIT[t]
        xs = X.reshape(c["n"], -1, sub)
        rng = (xs.max(2).clip(0) - xs.min(2).clip(None, 0)) if "dmin" in b.dtype.names else 2 * np.abs(xs).max(2)
        top = rng.max(1, keepdims=True)
        err = np.sqrt(((Y - X) ** 2).reshape(xs.shape).mean(2))
        # a sub-block's own step, plus what the coarse scale of scales can lose (and fp16 rounding of the block scale)
        big = np.abs(xs).max((1, 2), keepdims=True)[:, :, 0]
        grid = {Q2_K: 15, Q4_K: 63, Q6_K: 128, Q3_K: 32}[t]
        allow = rng / lev * lim + top / grid * .55 + (big / grid * .55 if "dmin" in b.dtype.names else 0) + 1e-6 * big + 3e-8 * grid * lev
        over = err / allow
        if os.environ.get("CAL"):
            STAT[t] = max(STAT.get(t, (0, "")), (float(np.nanmax(np.where(allow > 0, over, 0))), c["kind"]))
            print(NAME[t], STAT[t], file=sys.stderr)
        vh.need((over <= 1).all(), "%s (%s): rms error %.5g of a sub-block of range %.5g exceeds %.5g", NAME[t], c["kind"],
                err.ravel()[np.argmax(over)], rng.ravel()[np.argmax(over)], allow.ravel()[np.argmax(over)])
    # a second pass changes nothing: decoded values are representable
    if t in (Q8_0,):
        b2 = from_float(t, Y.astype(np.float32).ravel())
        close(decode(t, b2), Y.ravel(), 2e-3 * np.repeat(peak[:, 0], LANES[t]) + 1e-5, "encoding decoded q8_0 values again")
    st.hit("encode " + NAME[t])
    st.hit(c["kind"])


# ------------------------------------------------------------------ dot products
def gen_dot(s):
    t = s.choice([F32, F16, Q4_0, Q8_0, Q4_K, Q6_K, Q3_K, Q2_K, IQ2])
    return {"t": t, "n": s.edge(1, 200) if t in (F32, F16) else s.edge(1, 12) if LANES[t] == 32 else s.edge(1, 5), "own": s.bool(.6), "kind": s.choice(KINDS), "seed": s.seed()}


def run_dot(c, st):
    g = np.random.default_rng(c["seed"])
    t = c["t"]
    vt = L.q_dot_type(t)
    vh.eq(vt, {F32: F32, F16: F16, Q4_0: Q8_0, Q8_0: Q8_0}.get(t, Q8_K), "partner of %s" % NAME[t])
    a = blocks(g, t, c["n"])
    k = c["n"] * LANES[t]
    if t in (F32, F16) or not c["own"]:
        y = blocks(g, vt, k // LANES[vt])
    else:
        y = from_float(vt, values(None, g, k, c["kind"], 1))
    if t == IQ2:
        mag = np.abs(decode(t, a))
    else:
        q, s, o = parts(t, a)
        mag = (np.abs(q * s) + np.abs(o)).ravel()
    dy = decode(vt, y)
    want = float(decode(t, a) @ dy)
    out = np.full(1, np.nan, np.float32)
    L.q_dot(t, k, buf(out), buf(a), buf(y))
    lim = float(mag @ np.abs(dy))
    vh.need(abs(float(out[0]) - want) <= 3e-6 * lim + 1e-12, "%s . %s over %d elements is %.8g, the encoded numbers give %.8g", NAME[t], NAME[vt], k, out[0], want)
    st.hit("dot " + NAME[t])
    if c["own"]:
        st.hit("dot with quantised values")


# ------------------------------------------------------------------ layers
def gen_lin(s):
    t = s.choice([F32, F16, Q4_0, Q8_0, Q4_K, Q6_K, Q3_K, Q2_K])
    k = s.edge(4, 70) if t in (F32, F16) else 32 * s.edge(1, 9) if LANES[t] == 32 else 256 * s.int(1, 3)
    return {"op": "emb" if s.bool(.25) else "lin", "t": t, "k": k, "n": s.edge(1, 34), "m": s.edge(1, 9), "batch": s.choice([[], [], [1], [2], [2, 3]]), "bias": s.bool(.4),
            "threads": s.choice([1, 1, 2, 4]), "kind": s.choice(KINDS[:5]), "seed": s.seed()}


def weight(t, b, shape):
    h = L.t_new(t, 2, R.ints(shape))
    C.memmove(L.t_storage(h), b.tobytes(), b.nbytes)
    return h


def run_lin(c, st):
    g = np.random.default_rng(c["seed"])
    t, k, n = c["t"], c["k"], c["n"]
    b = blocks(g, t, n * k // LANES[t])
    W = decode(t, b).reshape(n, k)
    if c["op"] == "emb":
        if t not in (F32, F16, Q4_0, Q4_K):
            t = Q4_K if LANES[t] == 256 else Q4_0
            b = blocks(g, t, n * k // LANES[t])
            W = decode(t, b).reshape(n, k)
        ids = g.integers(0, n, [max(1, len(c["batch"])), c["m"]]).astype(np.int64)
        out = R.op("embedding", [R.new(ids), weight(t, b, [n, k])], c["threads"], n, k)
        vh.need(out is not None, "Embedding with %s refused: %s", NAME[t], R.error() if out is None else "")
        o = R.get(out[0])
        vh.need(o is not None and list(o.shape) == [*ids.shape, k], "Embedding with %s: shape %s", NAME[t], None if o is None else o.shape)
        w = W[ids]
        close(o, w, 1e-6 * np.abs(W).max() if LANES[t] > 1 else 0, "Embedding with %s", NAME[t])
        st.hit("embedding " + NAME[t])
        return
    x = values(None, g, int(np.prod(c["batch"] + [c["m"], k])), c["kind"] if k % 16 == 0 or c["kind"] != "levels" else "normal", 1).reshape(c["batch"] + [c["m"], k])
    vt = L.q_dot_type(t)
    xq = x.astype(F8) if LANES[vt] == 1 else decode(vt, from_float(vt, x.ravel())).reshape(x.shape)
    ins = [R.new(x), weight(t, b, [n, k])]
    bias = np.zeros(n, np.float32)
    if c["bias"]:
        bias = g.standard_normal(n).astype(np.float32)
        ins.append(R.new(bias))
    out = R.op("linear", ins, c["threads"], k, n, c["bias"], IMPL)
    vh.need(out is not None, "Linear with %s weights refused: %s", NAME[t], R.error() if out is None else "")
    o = R.get(out[0])
    want = xq @ W.T + bias
    vh.need(o is not None and o.shape == want.shape, "Linear with %s: shape %s, expected %s", NAME[t], None if o is None else o.shape, want.shape)
    if LANES[t] > 1:
        q, s, off = parts(t, b)
        mag = (np.abs(q * s) + np.abs(off)).reshape(n, k)
    else:
        mag = np.abs(W)
    tol = (1.2e-3 if t == F16 else 4e-6) * (np.abs(xq) @ mag.T + np.abs(bias)) + 1e-9
    close(o, want, tol, "Linear %s x %s (%s, batch %s, bias %s, %d threads)", [c["m"], k], [n, k], NAME[t], c["batch"], c["bias"], c["threads"])
    st.hit("linear " + NAME[t])
    if c["bias"]:
        st.hit("bias")
    if c["threads"] > 1:
        st.hit("threads")


IMPL = 3  # kGGUF


# ------------------------------------------------------------------ int8 rows with one scale
def gen_i8(s):
    return {"n": 32 * s.edge(1, 6), "m": s.edge(1, 70), "scale": s.choice([1, .5, .01, .037, 3]), "scale2": s.choice([1, .25, .013]), "amp": s.choice([.5, 1, 1, 1.5]), "seed": s.seed()}


def run_i8(c, st):
    g = np.random.default_rng(c["seed"])
    sc, n, m = np.float32(c["scale"]), c["n"], c["m"]
    x = (g.uniform(-127, 127, n) * c["amp"] * sc).astype(np.float32)
    y = np.full(n + 1, 77, np.int8)
    L.q_i8(buf(x), buf(y), n, sc)
    vh.eq(int(y[n]), 77, "byte after the quantised row")
    r = x.astype(F8) / F8(sc)
    close(y[:n], np.clip(np.rint(r), -128, 127), np.where(np.abs(r - np.floor(r) - .5) < 1e-3, 1, 0), "quantising with scale %g", sc)
    q = g.integers(-127, 128, n).astype(np.int8)
    f = np.full(m, np.nan, np.float32)
    m = min(m, n)
    L.q_un8(buf(q), buf(f), m, sc)
    close(f[:m], q[:m] * F8(sc), 1e-6 * np.abs(q[:m] * F8(sc)), "decoding int8 with scale %g", sc)
    h = np.full(m, np.nan, np.float16)
    L.q_un8h(buf(q), buf(h), m, sc)
    close(h, q[:m] * F8(sc), 1e-3 * np.abs(q[:m] * F8(sc)), "decoding int8 to fp16 with scale %g", sc)
    f = np.full(n, np.nan, np.float32)
    L.q_rt8(buf(x), buf(f), n, sc)
    close(f, x.astype(F8), .501 * sc, "rounding to multiples of %g", sc)
    q2 = g.integers(-127, 128, n).astype(np.int8)
    out = np.full(1, np.nan, np.float32)
    L.q_dot8(n, buf(out), buf(q), buf(q2), sc, np.float32(c["scale2"]))
    w = float(q.astype(F8) @ q2.astype(F8)) * F8(sc) * F8(np.float32(c["scale2"]))
    lim = float(np.abs(q).astype(F8) @ np.abs(q2).astype(F8)) * c["scale"] * c["scale2"]
    vh.need(abs(out[0] - w) <= 2e-6 * lim, "int8 dot over %d elements is %.8g, expected %.8g", n, out[0], w)
    st.hit("int8 rows")
    if c["amp"] > 1:
        st.hit("int8 saturates")


def wrapc(f):
    def run(c, st):
        try:
            f(c, st)
        finally:
            R.clear()
    return run


def parts_():
    global R, L
    G = "mllm/backends/cpu/kernels/common/ggml/"
    R = RT("c10", ["Linear", "Embedding", "View"], ["c10_quant.cpp"],
           extra=[G + "quantize/quantize_q%d.cpp" % k for k in (2, 3, 4, 6, 8)] + [G + x for x in ("vec_dot.cpp", "vec_dot_type.cpp", "matmul.cpp")] +
           ["mllm/backends/cpu/kernels/common/llamafile/llamafile_sgemm.cpp", "mllm/backends/base/PluginSystem.cpp"], flags=("-O1", "-DXXH_INLINE_ALL"))
    L = R.L
    L.q_add.argtypes = [C.c_int, C.c_int, C.c_void_p, C.c_void_p, C.c_float]
    L.q_i8.argtypes = L.q_un8.argtypes = L.q_un8h.argtypes = L.q_rt8.argtypes = [C.c_void_p, C.c_void_p, C.c_int, C.c_float]
    L.q_dot8.argtypes = [C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, C.c_float, C.c_float]
    for f in ("q_add", "q_i8", "q_un8", "q_un8h", "q_rt8", "q_dot8", "q_to", "q_from", "q_dot"):
        getattr(L, f).restype = None
    return [vh.Part("decode", gen_dec, wrapc(run_dec), 8000, cpu_limit=20), vh.Part("encode", gen_enc, wrapc(run_enc), 8000, cpu_limit=20),
            vh.Part("dot", gen_dot, wrapc(run_dot), 10000, cpu_limit=20), vh.Part("layers", gen_lin, wrapc(run_lin), 6000, cpu_limit=20),
            vh.Part("int8", gen_i8, wrapc(run_i8), 4000, cpu_limit=20)]


if __name__ == "__main__":
    vh.main("C10", parts_, "a case with a label: the block type it decodes, encodes, multiplies or runs a layer with, bias, several threads, saturation",
            ["Block layouts are those of ggml; block scales are finite and codes are the ones an encoder can emit.",
             "Activations are quantised by the repository's own encoder before the oracle multiplies them, as the kernels do."])
