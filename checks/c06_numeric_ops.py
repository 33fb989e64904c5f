#!/usr/bin/env python3
"""C06: the CPU numeric operators compute their mathematical definition."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec(san=True)
import numpy as np
from rt import RT, F32, F16
np.seterr(all="ignore")
R = None


def f32(s, shape, scale=None):
    """Values over several orders of magnitude, now and then with zeros and large entries."""
    g = np.random.default_rng(s.seed())
    sc = s.choice([1, 1, 0.01, 10, 100]) if scale is None else scale
    x = (g.standard_normal(shape) * sc).astype(np.float32)
    if s.bool(.2) and x.size:
        x.flat[g.integers(0, x.size, max(1, x.size // 4))] = 0
    return x


def run(name, arrs, *opts):
    ins = [R.new(a) for a in arrs]
    before = [R.raw(h) for h in ins]
    out = R.op(name, ins, *opts)
    vh.need(out is not None and len(out) >= 1, "%s refused valid operands: %s", name, R.error() if out is None else "no output")
    o = R.get(out[0])
    vh.need(o is not None, "%s returned a tensor that reaches outside its storage", name)
    for i, (h, b) in enumerate(zip(ins, before)):
        vh.need(R.raw(h) == b, "%s changed its input %d", name, i)
    return o


def close(got, want, tol, what, *a):
    """|got - want| <= tol elementwise (tol an array or number); nan and inf in the same places."""
    want = np.asarray(want)
    vh.need(got.shape == want.shape, "%s: shape %s, expected %s", what % a, got.shape, want.shape)
    g, w = got.astype(np.float64), want.astype(np.float64)
    bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        vh.need(False, "%s: element %s is %.9g, expected %.9g (%d of %d elements wrong)", what % a, i, g[i], w[i], int(bad.sum()), bad.size)


# ------------------------------------------------------------------ elementwise
def gen_ew(s):
    rank = s.int(1, 4)
    out = [s.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17]) if rank > 2 else s.edge(1, 70) for _ in range(rank)]

    def operand():
        k = s.choice(["same", "same", "some1", "drop", "scalar", "row", "col"])
        if k == "same":
            return list(out)
        if k == "some1":
            return [1 if s.bool(.4) else d for d in out]
        if k == "drop":
            return out[s.int(0, rank - 1):]
        if k == "row":
            return [1] * (rank - 1) + [out[-1]]
        if k == "col":
            return out[:-1] + [1]
        return [1] * s.int(1, rank)
    a, b = operand(), operand()
    if s.bool(.6):
        a = list(out)
    dt = s.weighted([(5, "f"), (2, "i4"), (1, "i2"), (1, "i1")])
    ops = ["add", "sub", "mul", "div", "equal"]
    if dt in ("i1", "i2"):
        ops.remove("div")  # NYI on x86
    return {"op": s.choice(ops), "a": a, "b": b, "dt": dt, "threads": s.choice([1, 1, 4]), "seed": s.seed(), "scale": s.choice([1, 1, 30])}


def run_ew(c, st):
    g = np.random.default_rng(c["seed"])
    T = {"f": np.float32, "i4": np.int32, "i2": np.int16, "i1": np.int8}[c["dt"]]
    if c["dt"] == "f":
        a, b = [(g.standard_normal(x) * c["scale"]).astype(T) for x in (c["a"], c["b"])]
        if c["op"] == "equal":
            a, b = np.round(a), np.round(b)
    else:
        m = 11 if c["op"] == "mul" else 60
        a, b = [g.integers(-m, m + 1, x).astype(T) for x in (c["a"], c["b"])]
        if c["op"] == "div":
            b = np.where(b == 0, T(3), b)
    o = run(c["op"], [a, b], c["threads"])
    with np.errstate(all="ignore"):
        if c["op"] == "div" and c["dt"] != "f":
            want = np.trunc(a.astype(np.float64) / b).astype(T)
        elif c["op"] == "equal":
            want = (a == b).astype(np.uint8)
        else:
            want = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}[c["op"]](a, b)
    vh.need(o.dtype == want.dtype, "%s of %s gave %s", c["op"], a.dtype, o.dtype)
    close(o, want, 2e-7 * np.abs(want.astype(np.float64)) if c["dt"] == "f" else 0, "%s %s of %s and %s", c["op"], a.dtype, list(a.shape), list(b.shape))
    if c["a"] != c["b"]:
        st.hit("broadcast")
    if a.size == b.size and c["a"] != c["b"]:
        st.hit("same size, other shape")
    if b.size == o.size != a.size:
        st.hit("first operand repeats")
    st.hit(c["op"])


# ------------------------------------------------------------------ rows: softmax, norms, activations, reductions
def gen_row(s):
    rank = s.int(1, 4)
    shape = [s.choice([1, 2, 3, 5]) for _ in range(rank - 1)] + [s.edge(1, 200) if s.bool(.8) else s.int(1, 1100)]
    op = s.choice(["softmax", "softmax", "rmsnorm", "rmsnorm", "silu", "sigmoid", "sum", "sum"])
    if op == "sum" and s.bool():
        shape = [s.edge(1, 40) for _ in range(rank)][:4]
        while np.prod(shape) > 8000:
            shape[int(np.argmax(shape))] //= 2
    return {"op": op, "shape": shape, "axis": s.int(-rank, rank - 1), "all": s.bool(.15), "keep": s.bool(), "eps": s.choice([1e-6, 1e-5, 1e-3]), "unit": s.bool(.3),
            "scale": s.choice([1e-3, .1, 1, 1, 5, 30, 100]), "shift": s.choice([0, 0, 3, -50, 200]), "mask": s.bool(.3), "threads": s.choice([1, 1, 3, 4]), "seed": s.seed()}


def run_row(c, st):
    g = np.random.default_rng(c["seed"])
    x = (g.standard_normal(c["shape"]) * c["scale"] + (c["shift"] if c["op"] != "rmsnorm" else 0)).astype(np.float32)
    X = x.astype(np.float64)
    op, t = c["op"], c["threads"]
    if op == "softmax":
        if c["mask"]:  # the masked scores the causal mask leaves
            m = g.random(x.shape) < .5
            m[..., int(g.integers(0, x.shape[-1]))] = False
            x = np.where(m, np.float32(-1e10), x)
            X = x.astype(np.float64)
            st.hit("masked")
        o = run(op, [x], t, -1 if c["axis"] < 0 else len(c["shape"]) - 1)
        e = np.exp(X - X.max(-1, keepdims=True))
        want = e / e.sum(-1, keepdims=True)
        close(o, want, 2e-5 * want + 1e-7, "softmax over %d", x.shape[-1])
        vh.need((np.abs(o.astype(np.float64).sum(-1) - 1) < 1e-4).all(), "a softmax row does not add up to one")
        if x.shape[-1] % 8:
            st.hit("ragged row")
    elif op == "rmsnorm":
        w = (g.standard_normal(c["shape"][-1]) * 2).astype(np.float32)
        o = run(op, [x, w], t, c["eps"], c["unit"])
        want = X / np.sqrt((X ** 2).mean(-1, keepdims=True) + c["eps"]) * (w.astype(np.float64) + (1 if c["unit"] else 0))
        close(o, want, 2e-5 * np.abs(want) + 1e-6, "rmsnorm over %d (unit offset %s)", x.shape[-1], c["unit"])
        if x.shape[-1] % 8:
            st.hit("ragged row")
    elif op in ("silu", "sigmoid"):
        o = run(op, [x], t)
        sg = 1 / (1 + np.exp(-X))
        want = X * sg if op == "silu" else sg
        close(o, want, 2e-5 * np.abs(want) + (1e-7 if op == "silu" else 1e-4), "%s of %d values", op, x.size)  # sigmoid is a rational approximation by design
        st.hit("pointwise")
    else:
        r = len(c["shape"])
        if c["all"]:
            o = run(op, [x], t, 0x7fffffff, c["keep"])
            close(o.reshape(-1), np.array([X.sum()]), 2e-6 * np.abs(X).sum() + 1e-30, "sum over everything in %s", c["shape"])
            st.hit("reduce all")
            return
        ax = c["axis"]
        o = run(op, [x], t, ax, c["keep"])
        want = X.sum(ax, keepdims=c["keep"])
        if want.ndim == 0:
            want = want.reshape(o.shape) if o.size == 1 else want
        close(o, want, 2e-6 * np.abs(X).sum(ax).reshape(want.shape) + 1e-30, "sum over axis %d of %s", ax, c["shape"])
        st.hit("reduce inner axis" if ax % r != r - 1 else "reduce last axis")


# ------------------------------------------------------------------ transpose and permute
def gen_perm(s):
    rank = s.int(2, 4 if s.bool(.8) else 5)
    shape = [s.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17]) for _ in range(rank)] if rank > 2 else [s.edge(1, 70), s.edge(1, 70)]
    while np.prod(shape) > 20000:
        shape[int(np.argmax(shape))] //= 2
    op = s.choice(["transpose", "transpose", "permute"])
    ax = s.perm(list(range(rank))) if op == "permute" else [s.int(-rank, rank - 1), s.int(-rank, rank - 1)]
    return {"op": op, "shape": shape, "ax": ax, "dt": s.choice(["f4", "f4", "i8"]) if op == "transpose" else s.choice(["f4", "f2", "i8", "i4", "i2", "i1"]), "seed": s.seed()}


def run_perm(c, st):
    g = np.random.default_rng(c["seed"])
    r = len(c["shape"])
    x = g.integers(-100, 100, c["shape"]).astype(np.dtype(c["dt"]))
    if c["op"] == "transpose":
        if c["ax"][0] % r == c["ax"][1] % r:
            return
        a, b = c["ax"][0] % r, c["ax"][1] % r
        known = r == 2 or {a, b} == {r - 2, r - 1} or (r == 4 and {a, b} == {1, 2}) or c["dt"] == "f4"
        if not known:
            return
        o = run("transpose", [x], 1, *c["ax"])
        want = np.swapaxes(x, *c["ax"])
        st.hit("transpose last two" if {a, b} == {r - 2, r - 1} else "transpose others")
    else:
        o = run("permute", [x], 1, c["ax"])
        want = np.transpose(x, c["ax"])
        st.hit("permute")
    close(o, want, 0, "%s %s of %s %s", c["op"], c["ax"], c["dt"], c["shape"])


# ------------------------------------------------------------------ matmul and linear
def gen_mm(s):
    k = s.choice(["matmul", "matmul", "linear"])
    M, N, K = s.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33]), s.edge(1, 70), s.edge(1, 140)
    return {"k": k, "M": M, "N": N, "K": max(K, 4) if k == "linear" else K, "batch": [s.choice([1, 2, 3]) for _ in range(s.choice([0, 0, 1, 2]))], "ta": False, "tb": s.bool(),
            "bias": s.bool(), "impl": s.choice([1, 1, 2]), "threads": s.choice([1, 1, 2, 4]), "seed": s.seed(), "scale": s.choice([.02, 1, 1, 20])}


def run_mm(c, st):
    g = np.random.default_rng(c["seed"])
    M, N, K, B = c["M"], c["N"], c["K"], c["batch"]
    A = (g.standard_normal(B + [M, K]) * c["scale"]).astype(np.float32)
    if c["k"] == "linear":
        W = (g.standard_normal([N, K]) * c["scale"]).astype(np.float32)
        b = (g.standard_normal([N]) * c["scale"]).astype(np.float32)
        o = run("linear", [A, W] + ([b] if c["bias"] else []), c["threads"], K, N, c["bias"], c["impl"] if c["impl"] == 1 else 3)
        want = A.astype(np.float64) @ W.T.astype(np.float64) + (b if c["bias"] else 0)
        mag = np.abs(A).astype(np.float64) @ np.abs(W.T) + np.abs(b)
        st.hit("linear bias" if c["bias"] else "linear")
    else:
        Bm = (g.standard_normal(B + [K, N]) * c["scale"]).astype(np.float32)
        want = A.astype(np.float64) @ Bm
        mag = np.abs(A).astype(np.float64) @ np.abs(Bm)
        ia = np.ascontiguousarray(np.swapaxes(A, -1, -2)) if c["ta"] else A
        ib = np.ascontiguousarray(np.swapaxes(Bm, -1, -2)) if c["tb"] else Bm
        o = run("matmul", [ia, ib], c["threads"], c["ta"], c["tb"], 0)
        st.hit(f"matmul {'t' if c['ta'] else 'n'}{'t' if c['tb'] else 'n'}")
    if B and int(np.prod(B)) > 1:
        st.hit("batched")
    if M == 1:
        st.hit("one row")
    close(o, want, 3e-6 * mag + 1e-12, "%s %s x [%d,%d,%d] ta=%s tb=%s threads=%d", c["k"], B, M, K, N, c["ta"], c["tb"], c["threads"])


# ------------------------------------------------------------------ embedding, convolution, pooling, fill
def gen_misc(s):
    k = s.choice(["embedding", "conv1d", "avgpool", "fill"])
    c = {"k": k, "threads": s.choice([1, 4]), "seed": s.seed()}
    if k == "embedding":
        c.update(V=s.edge(1, 40), H=s.edge(1, 70), ids=[s.choice([1, 2, 3]), s.edge(1, 20)], dt=s.choice(["f4", "f4", "f2"]))
    elif k == "conv1d":
        gr = s.choice([1, 1, 2, 3])
        c.update(g=gr, ci=gr * s.int(1, 4), co=gr * s.int(1, 4), ks=s.int(1, 5), stride=s.int(1, 3), pad=s.choice([0, 0, 1, 2, 4]), dil=s.choice([1, 1, 2, 3]), bias=s.bool(), B=s.int(1, 3), L=s.edge(1, 40))
        c["L"] = max(c["L"], c["dil"] * (c["ks"] - 1) + 1 - 2 * c["pad"], 1)
    elif k == "avgpool":
        ks = s.int(1, 6)
        c.update(ks=ks, stride=s.int(1, 5), pad=s.int(0, ks // 2), ceil=s.bool(), cip=s.bool(), B=s.int(1, 3), C=s.int(1, 4), L=s.edge(1, 40))
        c["L"] = max(c["L"], ks - 2 * c["pad"], 1)
    else:
        c.update(kind=s.int(1, 5), shape=[s.edge(1, 40) for _ in range(s.int(1, 2))], dt=s.choice(["f4", "f4", "i8", "i4", "i2", "i1", "u1"]), value=s.choice([0, 1, 3, -7, 100]), step=s.choice([1, 2, 0.5]), start=s.choice([0, 5, -3]))
    return c


def run_misc(c, st):
    g = np.random.default_rng(c["seed"])
    k, t = c["k"], c["threads"]
    st.hit(k)
    if k == "embedding":
        w = g.standard_normal([c["V"], c["H"]]).astype(np.dtype(c["dt"]))
        ids = g.integers(0, c["V"], c["ids"]).astype(np.int64)
        o = run(k, [ids, w], t, c["V"], c["H"])
        close(o, w[ids].astype(o.dtype), 0, "embedding [%d,%d] of ids %s", c["V"], c["H"], c["ids"])
    elif k == "conv1d":
        x = g.standard_normal([c["B"], c["ci"], c["L"]]).astype(np.float32)
        w = g.standard_normal([c["co"], c["ci"] // c["g"], c["ks"]]).astype(np.float32)
        b = g.standard_normal([c["co"]]).astype(np.float32)
        o = run(k, [x, w] + ([b] if c["bias"] else []), t, c["ci"], c["co"], c["ks"], c["stride"], c["pad"], c["g"], c["dil"], c["bias"])
        P = np.pad(x.astype(np.float64), [(0, 0), (0, 0), (c["pad"], c["pad"])])
        n = (P.shape[2] - c["dil"] * (c["ks"] - 1) - 1) // c["stride"] + 1
        want = np.zeros([c["B"], c["co"], n])
        cg, og = c["ci"] // c["g"], c["co"] // c["g"]
        for oc in range(c["co"]):
            gi = oc // og
            for j in range(c["ks"]):
                seg = P[:, gi * cg:(gi + 1) * cg, j * c["dil"]:j * c["dil"] + (n - 1) * c["stride"] + 1:c["stride"]]
                want[:, oc] += np.einsum("bcl,c->bl", seg, w[oc, :, j].astype(np.float64))
            if c["bias"]:
                want[:, oc] += b[oc]
        close(o, want, 1e-5 * (np.abs(want) + c["ci"] * c["ks"]), "conv1d %s", {x: c[x] for x in ("ci", "co", "ks", "stride", "pad", "g", "dil", "bias")})
    elif k == "avgpool":
        x = g.standard_normal([c["B"], c["C"], c["L"]]).astype(np.float32)
        o = run(k, [x], t, c["ks"], c["stride"], c["pad"], c["ceil"], c["cip"])
        L, p, ks, sd = c["L"], c["pad"], c["ks"], c["stride"]
        n = (L + 2 * p - ks + (sd - 1 if c["ceil"] else 0)) // sd + 1
        if c["ceil"] and (n - 1) * sd >= L + p:  # a window has to start inside the input or its left padding
            n -= 1
            st.hit("dropped window")
        want = np.zeros([c["B"], c["C"], n])
        for i in range(n):
            a = i * sd - p
            e = min(a + ks, L + p)
            cnt = e - a
            a2, e2 = max(a, 0), min(e, L)
            want[:, :, i] = x[:, :, a2:e2].astype(np.float64).sum(-1) / (cnt if c["cip"] else max(e2 - a2, 1))
        close(o, want, 1e-5, "avgpool %s", {x: c[x] for x in ("ks", "stride", "pad", "ceil", "cip", "L")})
    else:
        T = np.dtype(c["dt"])
        if T == np.uint8 and c["value"] < 0:
            c = dict(c, value=9)
        x = g.integers(0, 100, c["shape"]).astype(T)
        n = x.size
        isf = T.kind == "f"
        step = c["step"] if isf else max(1, int(c["step"]))
        start = c["start"] if isf or T.kind == "i" else abs(c["start"])
        if T.itemsize == 1:
            n2 = min(n, 50)
            x = x.reshape(-1)[:n2]
            n = n2
        if c["kind"] == 4 and not isf:
            return
        h = R.new(x)
        out = R.op("fill", [h], t, c["kind"], c["value"], start, start + step * n if c["kind"] != 4 else start + 3, step, 7)
        vh.need(out is not None, "fill refused: %s", R.error())
        o = R.get(out[0])
        vh.need(o.shape == x.shape, "fill changed the shape")
        if c["kind"] == 4:
            vh.need(((o >= start) & (o <= start + 3)).all(), "random fill leaves its range")
            o2 = R.get(R.op("fill", [R.new(x)], t, 4, 0, start, start + 3, step, 7)[0])
            vh.need((o2 == o).all(), "the same seed gives other random numbers")
            if n > 20:
                vh.need(np.unique(o).size > n // 2, "random fill repeats its values")
            return
        want = {1: np.zeros(x.shape), 2: np.ones(x.shape), 3: np.full(x.shape, c["value"]), 5: (start + step * np.arange(n)).reshape(x.shape)}[c["kind"]].astype(T)
        close(o, want, 1e-5 * (1 + np.abs(want.astype(np.float64))) if isf else 0, "fill kind %d of %s", c["kind"], c["dt"])


# ------------------------------------------------------------------ the kernels of the library
def gen_kernel(s):
    n = s.edge(1, 12)
    return {"kind": s.choice(["fill", "transpose", "permute"]), "k": s.int(0, 4), "wide": s.bool(), "dims": [s.edge(1, 12) for _ in range(4)], "n": s.edge(0, 70),
            "perm": s.perm(list(range(s.int(1, 6)))), "pd": [s.int(1, 5) for _ in range(6)], "a": s.int(-9, 9), "step": s.int(-5, 5), "value": s.real(-5, 5), "seed": s.int(0, 1 << 31), "pad": n}


def run_kernel(c, st):
    import ctypes as ct
    L = R.L
    ptr = lambda a: ct.c_void_p(a.ctypes.data)
    if c["kind"] == "fill":
        n, k = c["n"], c["k"]
        a, step = c["a"], c["step"]
        buf = [np.full(n + 2, 77, np.float32) for _ in range(3)]
        for j, b in enumerate(buf):
            L.k_fill(k, ptr(b[1:]), ct.c_size_t(n), ct.c_float(c["value"]), ct.c_float(a), ct.c_float(a + step * n if k == 3 else a + 4 if j < 2 else a + 8), ct.c_float(step), ct.c_uint64(c["seed"]))
            vh.need(b[0] == 77 and b[-1] == 77, "fill %d writes outside its %d elements", k, n)
        o = buf[0][1:-1]
        if k == 4:
            vh.need(bool(((o >= a) & (o <= a + 4)).all()) and bool((buf[1] == buf[0]).all()), "random fill: outside its range, or not reproducible")
            if n:
                close(buf[2][1:-1] - a, 2 * (o - a), 1e-4, "random fill of twice the range")
        else:
            close(o, [np.zeros(n), np.ones(n), np.full(n, np.float32(c["value"])), a + step * np.arange(n)][k], 0, "fill kernel %d of %d elements", k, n)
        if n % 8:
            st.hit("fill-tail")
        return
    if c["kind"] == "transpose":
        k, d = c["k"] % 3, c["dims"]
        shape, ax = [(d[:2], (1, 0)), (d, (0, 2, 1, 3)), (d[:3], (0, 2, 1))][k]
        x = np.arange(int(np.prod(shape)), dtype=np.int64 if c["wide"] else np.float32).reshape(shape) + 1
        y = np.full(x.size + 2, -7, x.dtype)
        L.k_transpose(k, int(c["wide"]), ptr(x), ptr(y[1:]), *(ct.c_size_t(v) for v in d))
        want = x.transpose(ax)
    else:
        perm = c["perm"]
        shape = c["pd"][:len(perm)]
        x = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) + 1
        y = np.full(x.size + 2, -7, np.float32)
        L.k_permute(ptr(x), ptr(y[1:]), (ct.c_int * len(shape))(*shape), (ct.c_int * len(shape))(*perm), len(shape))
        want = x.transpose(perm)
    vh.need(y[0] == -7 and y[-1] == -7, "%s kernel writes outside its output", c["kind"])
    close(y[1:-1].reshape(want.shape), want, 0, "%s kernel %s of %s", c["kind"], c["perm"] if c["kind"] == "permute" else k, shape)
    st.hit("moved" if c["kind"] == "transpose" or perm != sorted(perm) else "same")


def parts():
    global R
    R = RT("c06", None, ["c06_num.cpp"])

    def w(f):
        def g(c, st):
            try:
                f(c, st)
            finally:
                R.clear()
        return g
    return [vh.Part("elementwise", gen_ew, w(run_ew), 8000, cpu_limit=20), vh.Part("rows", gen_row, w(run_row), 8000, cpu_limit=20), vh.Part("permute", gen_perm, w(run_perm), 6000, cpu_limit=20),
            vh.Part("matmul", gen_mm, w(run_mm), 6000, cpu_limit=20), vh.Part("misc", gen_misc, w(run_misc), 6000, cpu_limit=20), vh.Part("kernels", gen_kernel, w(run_kernel), 6000, cpu_limit=20)]


if __name__ == "__main__":
    vh.main("C06", parts, "a case with a label: operand shapes that differ, a row that is no multiple of the vector width, a reduction, batched or one-row product, ...",
            ["The operators are compiled for x86 (AVX2) against the scalar stand-in for the highway library in cpp/shim/hwy, which aborts on misaligned aligned loads; operands are contiguous.",
             "Operators and types that the x86 backend states it does not implement (NYI) are not called."])
