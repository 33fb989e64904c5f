#!/usr/bin/env python3
"""C07: views and data-movement operators of the CPU backend against numpy."""
import os, random, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import rt
import numpy as np
from vh import Part, need

R = None
OPS = "Argsort Clone Concat Contiguous Copy Gather Index MaskedScatter Pad Repeat Scatter2Shards Slice Split Stack TopK View".split()
KALL = 0x7FFFFFF1
DTS = {"argsort": "f4 f2 i4 i2 i1", "topk": "f4 f2 i4 i2 i1", "concat": "f4 f2", "stack": "f4 f2", "repeat": "f4 f2", "pad": "f4", "gather": "f4 f2 i4",
       "masked_scatter": "f4 f2", "*": "f4 f2 i4 i2 i1 u1 i8"}


def gdim(s):
    return s.weighted([(3, 1), (5, 2), (5, 3), (3, 4), (3, 5), (2, 7), (2, 8), (1, 9), (1, 16), (1, 17), (1, 33)])


def gshape(s, lo=1, hi=4, cap=4000):
    sh = [gdim(s) for _ in range(s.int(lo, hi))]
    while np.prod(sh) > cap:
        sh[int(np.argmax(sh))] = s.int(1, 3)
    return sh


def gview(s, sh):
    """How the tensor is laid out: a larger base cut by slices, and its dimensions permuted."""
    if s.bool(.45):
        return None
    v = {"perm": s.perm(range(len(sh))) if s.bool(.5) else list(range(len(sh))), "cut": []}
    for n in sh:
        a, st = (s.int(0, 3), s.weighted([(4, 1), (1, 2), (1, 3)])) if s.bool(.6) else (0, 1)
        v["cut"].append([a, st, s.int(0, 2) if s.bool(.5) else 0])
    return v


def gten(s, sh, dt, kind="any"):
    return {"shape": list(sh), "dt": dt, "view": gview(s, sh), "seed": s.seed(), "kind": kind}


def data(t):
    g = np.random.default_rng(t["seed"])
    dt, sh = np.dtype(t["dt"]), t["shape"]
    if t["kind"] == "mask":
        return g.integers(0, 2, sh).astype(dt) * g.integers(1, 100, sh).astype(dt)
    if t["kind"] == "ties":
        return g.integers(-3, 4, sh).astype(dt)
    if isinstance(t["kind"], int):
        return g.integers(-t["kind"], t["kind"], sh).astype(dt)
    if dt.kind == "f":
        x = g.normal(size=sh) * 10.0 ** g.integers(-3, 4, sh)
        x[g.random(sh) < .03] = 0
        return x.astype(dt)
    return g.integers(np.iinfo(dt).min, np.iinfo(dt).max, sh, dtype=dt, endpoint=True)


def place(t):
    """(handle, value): the tensor put behind the strides its layout asks for."""
    x, v = data(t), t["view"]
    if v is None:
        return R.new(x), x
    n = x.ndim
    perm, cut = v["perm"], v["cut"]
    base = [0] * n
    for d in range(n):
        a, st, tail = cut[d]
        base[perm[d]] = a + (x.shape[d] - 1) * st + 1 + tail
    b = np.random.default_rng(t["seed"] + 1).integers(-100, 100, base).astype(x.dtype)
    bs = [int(np.prod(base[k + 1:])) for k in range(n)]
    off = sum(cut[d][0] * bs[perm[d]] for d in range(n))
    stride = [bs[perm[d]] * cut[d][1] for d in range(n)]
    np.lib.stride_tricks.as_strided(b.reshape(-1)[off:], x.shape, [s * x.itemsize for s in stride])[...] = x
    h = R.new(b)
    return R.view(h, off, x.shape, stride), x


def gslice(s, n):
    k = s.weighted([(3, "all"), (3, "range"), (2, "int"), (1, "neg"), (1, "open")])
    if k == "all":
        return [KALL, KALL, 1]
    if k == "int":
        return [s.int(-n, n - 1), 0, 0]
    a = s.int(0, n - 1)
    b = s.int(a + 1, n)
    st = s.weighted([(3, 1), (2, 2), (1, 3)])
    if k == "neg":
        return [a - n, b if b == n or b - (a - n) == 1 else b - n, st]
    if k == "open":
        return [a, KALL, st] if s.bool() else [KALL, b, st]
    return [a, b, st]


def npslice(c, n):
    a, b, st = c
    if st == 0:
        return slice(a % n, a % n + 1)
    return slice(None if a == KALL else a, None if b == KALL else b, st)


def gen(s):
    k = s.choice(["argsort", "topk", "clone", "contiguous", "copy2", "repeat", "unsqueeze", "squeeze", "flatten", "view", "slice", "index", "concat", "stack",
                  "gather", "masked_scatter", "scatter2shards", "split", "pad"])
    dt = s.choice(DTS.get(k, DTS["*"]).split())
    c = {"op": k, "dt": dt}
    sh = gshape(s)
    n = len(sh)
    d = s.int(-n, n - 1)
    if k in ("argsort", "topk"):
        c.update(t=gten(s, sh, dt, s.choice(["any", "ties"])), dim=d, desc=s.int(0, 1))
        if k == "topk":
            c.update(k=s.int(1, sh[d]), sorted=s.int(0, 1))
    elif k in ("clone", "contiguous", "flatten", "squeeze", "unsqueeze", "view", "slice", "repeat"):
        c["t"] = gten(s, sh, dt)
        if k in ("clone", "flatten", "squeeze", "unsqueeze", "view") and c["t"]["view"] is not None:
            # contiguous part of a larger tensor: the leading dimensions hold a prefix
            c["t"]["view"] = {"perm": list(range(n)), "cut": [[s.int(0, 3), 1, s.int(0, 2)]] + [[0, 1, 0]] * (n - 1)}
        if k == "repeat":
            c.update(m=s.int(1, 5), dim=d)
        if k == "unsqueeze":
            c["dim"] = s.int(-n - 1, n)
        if k == "flatten":
            c["dim"] = s.choice([0x7fffffff, d])
        if k == "squeeze":
            c["t"]["shape"] = [1 if s.bool(.4) else x for x in sh]
            c["dim"] = s.choice([0x7fffffff, d])
        if k == "view":
            flat = [x for x in sh]
            while len(flat) > 1 and s.bool(.6):
                p = s.int(0, len(flat) - 2)
                flat[p:p + 2] = [flat[p] * flat[p + 1]]
            if s.bool(.4):
                flat.insert(s.int(0, len(flat)), 1)
            if s.bool(.5):
                flat[s.int(0, len(flat) - 1)] = -1
            c["to"] = flat
        if k == "slice":
            c["cut"] = [gslice(s, x) for x in sh]
            c["again"] = s.bool(.4)
            c["seed2"] = s.seed()
    elif k == "copy2":
        c.update(t=gten(s, sh, dt), u=gten(s, sh, dt))
    elif k == "index":
        c["t"] = gten(s, sh, dt)
        c["t"]["view"] = None if s.bool(.6) else {"perm": list(range(n)), "cut": [[s.int(0, 2), 1, s.int(0, 2)]] + [[0, 1, 0]] * (n - 1)}
        ix, force = [], s.int(0, n - 1)
        for p, m in enumerate(sh):
            q = s.choice(["v", "t"]) if p == force else s.choice(["s", "s", "v", "t"])
            if q == "s":
                a = s.int(0, m - 1)
                ix.append([0, a, s.int(a + 1, m), s.weighted([(3, 1), (1, 2)])] if s.bool(.6) else [0, KALL, KALL, 1])
            else:
                ix.append([1 if q == "v" else 2, [s.int(0, m - 1) for _ in range(s.int(1, 6))]])
        c["ix"] = ix
    elif k in ("concat", "stack"):
        m = s.int(1, 4)
        c["dim"] = d if k == "concat" else s.int(-n - 1, n)
        c["ts"] = []
        for _ in range(m):
            q = list(sh)
            if k == "concat":
                q[d] = s.int(1, 6)
            c["ts"].append(gten(s, q, dt))
        if s.bool(.3):
            for t in c["ts"]:
                t["view"] = None
    elif k == "gather":
        c.update(t=gten(s, sh, dt), dim=d, idx=gten(s, gshape(s, 1, 2, 20), s.choice(["i4", "f4"]), sh[d]))
    elif k == "masked_scatter":
        ms = list(sh)
        for p in range(n):
            if s.bool(.3):
                ms[p] = 1
        while len(ms) > 1 and ms[0] == 1 and s.bool(.3):
            ms.pop(0)
        c.update(t=gten(s, sh, dt), mask=gten(s, ms, "i1", "mask"), src=gten(s, [int(np.prod(sh))] if s.bool(.3) else [s.int(1, 3)] + list(sh), dt))
        if s.bool(.2):
            c["mask"]["view"] = c["t"]["view"] = c["src"]["view"] = None
    elif k == "scatter2shards":
        c.update(t=gten(s, sh, dt), dim=s.int(0, n - 1), order=s.perm(range(64)))
        c["dim"] = s.int(0, n - 1)
    elif k == "split":
        c["t"], c["dim"], m = gten(s, sh, dt), d, sh[d]
        if s.bool(.5):
            c["sec"] = [s.choice([x for x in range(1, m + 1) if m % x == 0])]
        else:
            sec = []
            while sum(sec) < m:
                sec.append(s.int(1, m - sum(sec)))
            c["sec"] = sec
    elif k == "pad":
        c.update(t=gten(s, sh, dt), mode=s.int(0, 3), value=s.choice([0.0, 1.5, -3.0]))
        pad = []
        for p in range(s.int(1, n)):
            m = sh[n - 1 - p]
            hi = {0: 4, 1: m - 1, 2: 4, 3: m}[c["mode"]]
            pad += [s.int(0, min(hi, 6)), s.int(0, min(hi, 6))]
        c["pad"] = pad
    return c


def same(a, b, what, *args):
    need(a is not None, what + ": reaches outside its storage", *args)
    need(a.shape == tuple(b.shape), what + ": shape %s instead of %s", *args, a.shape, b.shape)
    need(a.dtype == b.dtype, what + ": type %s instead of %s", *args, a.dtype, b.dtype)
    if a.tobytes() != np.ascontiguousarray(b).tobytes():
        ne = np.argwhere(a != b)
        p = tuple(ne[0]) if len(ne) else ()
        need(False, what + ": element %s is %s instead of %s", *args, p, a[p], b[p])


def run(c, st):
    R.clear()
    k = c["op"]
    if max(np.prod(t["shape"]) for t in ([c["t"]] if "t" in c else c["ts"])) > 1:
        st.hit(k)
    ins = []

    def put(t):
        h, x = place(t)
        ins.append((h, x, R.raw(h)))
        if not R.info(h)["contiguous"]:
            st.hit("strided")
        return h, x

    def op(*a, mutates=()):
        o = R.op(k, *a)
        need(o is not None, "%s refused: %s", k, R.error())
        for h, x, raw in ins:
            need(h in mutates or R.raw(h) == raw, "%s changed an input", k)
        return o
    if k in ("argsort", "topk"):
        h, x = put(c["t"])
        d = c["dim"] % x.ndim
        key = x.astype(np.float64) if x.dtype.kind == "f" else x.astype(np.int64)
        if k == "argsort":
            (o,) = op([h], c["dim"], c["desc"])
            g = R.get(o)
            need(g is not None and g.shape == x.shape and g.dtype == np.int32, "argsort: shape %s", None if g is None else g.shape)
            need((np.sort(g, d) == np.moveaxis(np.broadcast_to(np.arange(x.shape[d]), np.moveaxis(x, d, -1).shape), -1, d)).all(), "argsort: no permutation")
            y = np.diff(np.take_along_axis(key, g.astype(np.int64), d), axis=d)
            need((y <= 0).all() if c["desc"] else (y >= 0).all(), "argsort: not in order")
        else:
            v, i = op([h], c["k"], c["dim"], c["desc"], c["sorted"])
            v, i = R.get(v), R.get(i)
            sh = list(x.shape)
            sh[d] = c["k"]
            need(v is not None and i is not None and v.shape == tuple(sh) == i.shape and i.dtype == np.int32 and v.dtype == x.dtype, "topk: shapes")
            need((i >= 0).all() and (i < x.shape[d]).all(), "topk: index out of range")
            need((np.diff(np.sort(i, d), axis=d) > 0).all(), "topk: an element is taken twice")
            same(np.take_along_axis(x, i.astype(np.int64), d), v, "topk: values do not belong to the indices")
            w = np.sort(key, d)
            w = np.take(w, range(x.shape[d] - c["k"], x.shape[d]) if c["desc"] else range(c["k"]), d)
            y = v.astype(key.dtype)
            need((np.sort(y, d) == w).all(), "topk: not the %s elements", "largest" if c["desc"] else "smallest")
            y = np.diff(y, axis=d)
            if c["sorted"]:
                need((y <= 0).all() if c["desc"] else (y >= 0).all(), "topk: values not sorted")
            else:
                need((np.diff(i, axis=d) > 0).all(), "topk: unsorted result does not keep the order of the input")
    elif k in ("clone", "contiguous"):
        h, x = put(c["t"])
        (o,) = op([h])
        same(R.get(o), x, k)
        need(R.info(o)["contiguous"], "%s: result is not contiguous", k)
        if k == "clone":
            need(R.L.t_storage(o) != R.L.t_storage(h), "clone shares the storage")
    elif k == "copy2":
        h, x = put(c["t"])
        u, y = place(c["u"])
        raw = R.raw(u)
        op([h, u])
        same(R.get(u), x, "copy2: target")
        # nothing else in the target's storage moves
        i = R.info(u)
        touched = np.zeros(len(raw) // x.itemsize, bool)
        np.lib.stride_tricks.as_strided(touched[i["offset"]:], i["shape"], i["stride"])[...] = True
        a, b = np.frombuffer(raw, np.uint8).reshape(-1, x.itemsize), np.frombuffer(R.raw(u), np.uint8).reshape(-1, x.itemsize)
        need((a[~touched] == b[~touched]).all(), "copy2 wrote outside the target view")
    elif k == "repeat":
        h, x = put(c["t"])
        (o,) = op([h], c["m"], c["dim"])
        same(R.get(o), np.repeat(x, c["m"], axis=c["dim"]), k)
    elif k in ("unsqueeze", "squeeze", "flatten", "view"):
        h, x = put(c["t"])
        (o,) = op([h], c["to"] if k == "view" else c["dim"])
        if k == "unsqueeze":
            w = np.expand_dims(x, c["dim"])
        elif k == "flatten":
            w = x.reshape(-1) if c["dim"] == 0x7fffffff else x.reshape(x.shape[:c["dim"] % x.ndim] + (-1,))
        elif k == "squeeze":
            w = (x.squeeze() if x.squeeze().ndim else x.reshape(1)) if c["dim"] == 0x7fffffff else x.squeeze(c["dim"]) if x.shape[c["dim"]] == 1 and x.ndim > 1 else x
            if x.ndim == 1 and c["dim"] != 0x7fffffff:
                return
        else:
            w = x.reshape(c["to"])
        same(R.get(o), w, k)
        need(R.L.t_storage(o) == R.L.t_storage(h), "%s does not share the storage", k)
    elif k == "slice":
        h, x = put(c["t"])
        cut = c["cut"]
        for turn in range(2 if c["again"] else 1):
            (o,) = op([h], *[v for t in cut for v in t])
            x = x[tuple(npslice(t, n) for t, n in zip(cut, x.shape))]
            same(R.get(o), x, "slice %s", cut)
            need(R.L.t_storage(o) == R.L.t_storage(h), "slice does not share the storage")
            i = [n - 1 for n in x.shape]
            p = R.L.t_at(o, len(i), R.ints(i))
            need(np.frombuffer(vh_string(p, x.itemsize), x.dtype)[0].tobytes() == x[tuple(i)].tobytes(), "slice: element access reads another element")
            h, cut = o, [gslice(vh.Src(random.Random(c["seed2"] + d)), n) for d, n in enumerate(x.shape)]
    elif k == "index":
        h, x = put(c["t"])
        hs, fl, w = [h], [len(c["ix"])], x
        for d, q in enumerate(c["ix"]):
            if q[0] == 0:
                fl += q
                w = w[(slice(None),) * d + (npslice(q[1:], x.shape[d]),)]
            else:
                if q[0] == 1:
                    fl += [1, len(q[1])] + q[1]
                else:
                    fl.append(2)
                    hs.append(R.new(np.array(q[1], np.int32)))
                w = np.take(w, q[1], axis=d)
        (o,) = op(hs, *fl)
        same(R.get(o), w, "index %s", c["ix"])
    elif k in ("concat", "stack"):
        hx = [put(t) for t in c["ts"]]
        (o,) = op([h for h, _ in hx], c["dim"])
        same(R.get(o), (np.concatenate if k == "concat" else np.stack)([x for _, x in hx], axis=c["dim"]), k)
    elif k == "gather":
        h, x = put(c["t"])
        g, i = put(c["idx"])
        (o,) = op([h, g], c["dim"])
        same(R.get(o), np.take(x, i.astype(np.int64), axis=c["dim"]), k)
    elif k == "masked_scatter":
        h, x = place(c["t"])
        raw = R.raw(h)
        m, mask = put(c["mask"])
        s, src = put(c["src"])
        (o,) = op([h, m, s])
        w = x.copy()
        b = np.broadcast_to(mask != 0, x.shape)
        w[b] = src.reshape(-1)[:int(b.sum())]
        same(R.get(h), w, "masked_scatter: target")
        same(R.get(o), w, "masked_scatter: result")
        if 0 < b.sum() < b.size:
            st.hit("masked_some")
    elif k == "scatter2shards":
        h, x = put(c["t"])
        d = c["dim"]
        y = np.moveaxis(x, d, 0)
        each = y[0].size if x.ndim > 1 else 1
        arena = R.new(np.full(((x.shape[d]), each), 77, x.dtype))
        order = list(np.argsort(c["order"][:x.shape[d]]))
        base = R.L.t_storage(arena)
        ptrs = R.new(np.array([base + int(j) * each * x.itemsize for j in order], np.int64))
        op([h, ptrs], d)
        got = R.get(arena)
        for j, q in enumerate(order):
            same(got[q], np.ascontiguousarray(y[j]).reshape(-1), "scatter2shards: shard %d", j)
    elif k == "split":
        h, x = put(c["t"])
        o = op([h], c["dim"], c["sec"])
        n = x.shape[c["dim"]]
        at = np.cumsum(c["sec"])[:-1] if len(c["sec"]) > 1 else np.arange(c["sec"][0], n, c["sec"][0])
        w = np.split(x, at, axis=c["dim"])
        need(len(o) == len(w), "split: %d parts instead of %d", len(o), len(w))
        for a, b in zip(o, w):
            same(R.get(a), b, "split")
            need(R.L.t_storage(a) == R.L.t_storage(h), "split does not share the storage")
    elif k == "pad":
        h, x = put(c["t"])
        (o,) = op([h], c["mode"], c["value"], c["pad"])
        pw = [(0, 0)] * x.ndim
        for p in range(len(c["pad"]) // 2):
            pw[x.ndim - 1 - p] = (c["pad"][2 * p], c["pad"][2 * p + 1])
        mode = ["constant", "reflect", "edge", "wrap"][c["mode"]]
        w = np.pad(x, pw, mode=mode, **({"constant_values": np.float32(c["value"])} if c["mode"] == 0 else {}))
        same(R.get(o), w.astype(x.dtype), "pad %s", mode)


def vh_string(p, n):
    import ctypes
    return ctypes.string_at(p, n)


def parts():
    global R
    R = rt.RT("c07", OPS, ["c07_ops.cpp"], extra=["mllm/backends/base/PluginSystem.cpp"])
    return [Part("ops", gen, run, quick=30000, cpu_limit=10)]


if __name__ == "__main__":
    vh.main("C07", parts, rule="an operator ran on generated shapes, types and strides and its result on tensors of more than one element was compared element by element with numpy",
            assumptions=["dimensions up to rank 4 and 33 per axis", "indices and slices within the bounds of the tensor", "the types each operator supports"])
