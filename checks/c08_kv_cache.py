#!/usr/bin/env python3
"""C08: the key/value caches of the C++ runtime against numpy arrays, over generated histories."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import ctypes as C
import rt
import numpy as np
from vh import Part, Violation

R = None
NPT = {0: np.float32, 1: np.float16}


def need(ok, msg, **kw):
    if not ok:
        raise Violation(msg + "".join(f"; {k}={v}" for k, v in kw.items()))


def eq(got, want, msg, **kw):
    need(got == want, f"{msg}: got {got}, want {want}", **kw)


def setup():
    global R
    if R is None:
        R = rt.RT("c08", "Concat Contiguous Copy KVCache Repeat Slice".split(), ["c08_kv.cpp"], extra=["mllm/backends/base/PluginSystem.cpp"],
                  more_unity=["mllm/core/aops/FillOp.cpp", "mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/DynamicCache.cpp", "mllm/nn/Functional.cpp"],
                  aops="Concat Contiguous Copy KVCache Repeat Slice".split())


# ---- generators
def gkv(s, c, n):
    """n new positions: contents by seed, the layout of k and of v."""
    lay = lambda: s.weighted([(5, "plain"), (2, "bshd"), (2, "cut"), (1, "even")])
    return {"n": n, "seed": s.seed(), "lk": lay(), "lv": lay()}


def gcfg(s, **kw):
    kv = s.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])
    c = {"layers": s.int(1, 4), "kv": kv, "q": kv * s.weighted([(3, 1), (3, 2), (2, 3), (1, 4), (1, 7)]), "d": s.choice([1, 2, 3, 4, 8, 16, 20, 64]),
         "kt": s.int(0, 1), "max": s.choice([1, 2, 3, 5, 8, 13, 16, 31, 40])}
    c["vt"] = c["kt"] if s.bool(.6) else s.int(0, 1)
    c.update(kw)
    return c


def gsize(s, room, mx):
    return s.weighted([(6, 1), (3, s.int(1, max(1, mx // 3))), (2, max(1, room)), (1, room + 1), (1, s.int(1, mx + 2))])


def gen_static(s):
    c = gcfg(s)
    c["steps"] = []
    cnt = [0] * c["layers"]
    sub = []  # (start, len, counts)
    mx = c["max"]
    for _ in range(s.int(1, 24)):
        k = s.weighted([(8, "update"), (2, "round"), (3, "get"), (1, "set"), (1, "clear"), (2, "sub"), (4, "subupdate"), (1, "subclear"), (1, "held")])
        l = s.int(0, c["layers"] - 1)
        if k == "update":
            n = gsize(s, mx - cnt[l], mx)
            c["steps"].append([k, l, gkv(s, c, n)])
            cnt[l] += n if cnt[l] + n <= mx else 0
        elif k == "round":  # as a model does: every layer in turn
            n = gsize(s, mx - max(cnt), mx)
            for l in range(c["layers"]):
                c["steps"].append(["update", l, gkv(s, c, n)])
                cnt[l] += n if cnt[l] + n <= mx else 0
        elif k == "set":
            v = s.int(0, max(cnt)) if s.bool(.8) else s.int(0, mx)
            c["steps"].append([k, v])
            cnt = [v] * c["layers"]
        elif k == "clear":
            c["steps"].append([k])
            cnt = [0] * c["layers"]
        elif k == "sub":
            a = s.int(0, mx - 1)
            n = s.int(0, mx - a)
            c["steps"].append([k, a, n])
            sub.append([a, n, [n] * c["layers"]])
        elif k == "subupdate" and sub:
            i = s.int(0, len(sub) - 1)
            room = mx - sub[i][0] - sub[i][2][l]
            n = gsize(s, room, mx)
            c["steps"].append([k, i, l, gkv(s, c, n)])
            sub[i][2][l] += n if n <= room else 0
        elif k == "subclear" and sub:
            i = s.int(0, len(sub) - 1)
            c["steps"].append([k, i])
            sub[i][2] = [sub[i][1]] * c["layers"]
        elif k in ("get", "held"):
            c["steps"].append([k, l])
    return c


def gen_write(s):
    c = gcfg(s)
    c["steps"], cnt, mx = [], [0] * c["layers"], c["max"]
    for _ in range(s.int(1, 20)):
        k = s.weighted([(8, "pre"), (2, "get"), (1, "set"), (1, "clear"), (1, "held")])
        l = s.int(0, c["layers"] - 1)
        if k == "pre":
            n = gsize(s, mx - cnt[l], mx)
            c["steps"].append([k, l, n, s.seed()])
            cnt[l] += n if cnt[l] + n <= mx else 0
        elif k == "set":
            v = s.int(0, max(cnt)) if s.bool(.8) else s.int(0, mx)
            c["steps"].append([k, v])
            cnt = [v] * c["layers"]
        elif k == "clear":
            c["steps"].append([k])
            cnt = [0] * c["layers"]
        else:
            c["steps"].append([k, l])
    return c


def gen_dyn(s):
    c = gcfg(s, fa2=s.int(0, 1))
    c["vt"] = c["kt"]
    c["steps"] = []
    for _ in range(s.int(1, 6)):
        n = s.weighted([(4, 1), (2, s.int(1, 5)), (1, s.int(1, 12))])
        ls = range(c["layers"]) if s.bool(.6) else [s.int(0, c["layers"] - 1)]
        for l in ls:
            c["steps"].append([l, gkv(s, c, n)])
    return c


def gen_op(s):
    c = gcfg(s, kt=0, vt=0, max=s.choice([3, 8, 16, 31]), shared=s.bool(.6))
    if not c["shared"]:
        c["d"] = min(c["d"], 8)
    mx = c["max"] if c["shared"] else 1024
    c["steps"], cnt = [], [0] * c["layers"]
    for _ in range(s.int(1, 16)):
        k = s.weighted([(8, "update"), (1, "set"), (1, "clear")])
        l = s.int(0, c["layers"] - 1)
        if k == "update":
            n = gsize(s, mx - cnt[l], min(mx, 40)) if c["shared"] else s.weighted([(6, 1), (3, s.int(1, 30)), (1, s.int(900, 1030))])
            c["steps"].append([k, l, gkv(s, c, n)])
            cnt[l] += n if cnt[l] + n <= mx else 0
        elif k == "set":
            v = s.int(0, cnt[l])
            c["steps"].append([k, l, v])
            cnt = [v] * c["layers"] if c["shared"] else [v if i == l else x for i, x in enumerate(cnt)]
        else:
            c["steps"].append([k, l])
            cnt = [0] * c["layers"] if c["shared"] else [0 if i == l else x for i, x in enumerate(cnt)]
    return c


# ---- machinery
def values(seed, shape, dt):
    return np.random.default_rng(seed).normal(size=shape).astype(dt)


def put(x, layout):
    """A [1, H, S, D] tensor in the given memory layout."""
    b, h, n, d = x.shape
    if layout == "bshd":   # a transposed [B, S, H, D] tensor
        return R.view(R.new(np.ascontiguousarray(x.transpose(0, 2, 1, 3))), 0, x.shape, [h * n * d, d, h * d, 1])
    if layout == "cut":    # heads and positions taken out of a larger tensor
        big = np.full((1, h + 1, n + 2, d), 7, x.dtype)
        big[:, 1:, 1:-1] = x
        return R.view(R.new(big), (n + 2) * d + d, x.shape, [(h + 1) * (n + 2) * d, (n + 2) * d, d, 1])
    if layout == "even":   # every other position, part of a row
        big = np.full((1, h, 2 * n, d + 3), 7, x.dtype)
        big[:, :, ::2, 1:1 + d] = x
        return R.view(R.new(big), 1, x.shape, [h * 2 * n * (d + 3), 2 * n * (d + 3), 2 * (d + 3), 1])
    return R.new(x)


def inputs(c, g):
    k = values(g["seed"], (1, c["kv"], g["n"], c["d"]), NPT[c["kt"]])
    v = values(g["seed"] + 1, (1, c["kv"], g["n"], c["d"]), NPT[c["vt"]])
    return put(k, g["lk"]), put(v, g["lv"]), k, v


def same(h, want, what, step):
    got = R.get(h)
    need(got is not None, "the tensor reaches outside its storage", what=what, step=step, info=R.info(h))
    need(got.shape == want.shape and got.dtype == want.dtype and got.tobytes() == np.ascontiguousarray(want).tobytes(),
         f"{what} is not what was written", step=step, got=got.shape, want=want.shape,
         first=[x.tolist() for x in np.argwhere(got != want)[:3]] if got.shape == want.shape else None)


def buffers(i, l):
    o = (C.c_int64 * 2)()
    R.L.kv_buffers(i, l, o)
    return o[0], o[1]


def refusal(room, n, out, what, step):
    if n > room:
        need(out is None, f"{what}: more positions than the cache can hold are accepted", step=step, positions=n, room=room)
        return True
    need(out is not None, f"{what}: refused although there is room", step=step, positions=n, room=room, error=R.error())
    return False


def run_static(c, st):
    R.clear(), R.L.kv_reset()
    q, mx, L, rep = c["q"], c["max"], c["layers"], c["q"] // c["kv"]
    R.op("static_new", [], 0, mx, L, q, c["kv"], c["d"], c["kt"], c["vt"], 0)
    K = np.zeros((L, 1, q, mx, c["d"]), NPT[c["kt"]])
    V = np.zeros((L, 1, q, mx, c["d"]), NPT[c["vt"]])
    cnt, subs, held, full = [0] * L, [], [], False
    eq(R.L.kv_layers(0, 0), L, "getLayerNums")
    for no, (k, *a) in enumerate(c["steps"]):
        if k == "update":
            l, g = a
            hk, hv, x, y = inputs(c, g)
            out = R.op("static_update", [hk, hv], 0, l)
            if refusal(mx - cnt[l], g["n"], out, "updateKVCache", no):
                st.hit("update refused")
            else:
                K[l][:, :, cnt[l]:cnt[l] + g["n"]] = np.repeat(x, rep, 1)
                V[l][:, :, cnt[l]:cnt[l] + g["n"]] = np.repeat(y, rep, 1)
                cnt[l] += g["n"]
                same(out[0], K[l][:, :, :cnt[l]], "the key cache returned by updateKVCache", no)
                same(out[1], V[l][:, :, :cnt[l]], "the value cache returned by updateKVCache", no)
                held.append((out[0], out[1], l, cnt[l]))
                st.hit("exactly full" if cnt[l] == mx else "update")
                st.hit("k " + g["lk"])
                if rep > 1:
                    st.hit("grouped heads")
        elif k == "get":
            out = R.op("static_get", [], 0, a[0])
            need(out is not None, "getKVCache refused", step=no, error=R.error())
            same(out[0], K[a[0]][:, :, :cnt[a[0]]], "getKVCache (key)", no)
            same(out[1], V[a[0]][:, :, :cnt[a[0]]], "getKVCache (value)", no)
        elif k == "set":
            R.L.kv_set(0, 0, a[0])
            if a[0] < max(cnt):
                st.hit("rolled back")
            cnt = [a[0]] * L
        elif k == "clear":
            R.L.kv_wipe(0, 0)
            cnt = [0] * L
        elif k == "sub":
            R.op("sub_new", [], len(subs), 0, a[0], a[1])
            subs.append((a[0], a[1], [a[1]] * L))
        elif k == "subclear":
            R.L.kv_wipe(1, a[0])
            subs[a[0]][2][:] = [subs[a[0]][1]] * L
        elif k == "subupdate":
            i, l, g = a
            hk, hv, x, y = inputs(c, g)
            at, _, sc = subs[i]
            out = R.op("sub_update", [hk, hv], i, l)
            if refusal(mx - at - sc[l], g["n"], out, "SubStaticCache::updateKVCache", no):
                st.hit("sub refused")
            else:
                p = at + sc[l]
                K[l][:, :, p:p + g["n"]] = np.repeat(x, rep, 1)
                V[l][:, :, p:p + g["n"]] = np.repeat(y, rep, 1)
                sc[l] += g["n"]
                same(out[0], K[l][:, :, at:at + sc[l]], "the key window returned by SubStaticCache", no)
                same(out[1], V[l][:, :, at:at + sc[l]], "the value window returned by SubStaticCache", no)
                st.hit("sub update at an offset" if at else "sub update")
        elif k == "held" and held:   # views handed out before still show the cache
            for hk, hv, l, n in held[-3:]:
                same(hk, K[l][:, :, :n], "a key view handed out earlier", no)
                same(hv, V[l][:, :, :n], "a value view handed out earlier", no)
        for l in range(L):
            eq(R.L.kv_count(0, 0, l), cnt[l], "getCurrentSeqCnt", step=no, layer=l)
            for i, (_, _, sc) in enumerate(subs):
                eq(R.L.kv_count(1, i, l), sc[l], "SubStaticCache::getCurrentSeqCnt", step=no, layer=l)
    for l in range(L):
        hk, hv = buffers(0, l)
        same(hk, K[l], f"key buffer of layer {l}", "end")
        same(hv, V[l], f"value buffer of layer {l}", "end")
    if sum(k == "update" for k, *_ in c["steps"]) > 1:
        st.hit("history")


def run_write(c, st):
    R.clear(), R.L.kv_reset()
    kv, mx, L = c["kv"], c["max"], c["layers"]
    R.op("static_new", [], 0, mx, L, c["q"], kv, c["d"], c["kt"], c["vt"], 1)
    K = np.zeros((L, 1, mx, kv, c["d"]), NPT[c["kt"]])
    V = np.zeros((L, 1, mx, kv, c["d"]), NPT[c["vt"]])
    cnt = [0] * L
    for no, (k, *a) in enumerate(c["steps"]):
        if k == "pre":
            l, n, seed = a
            out = R.op("static_pre", [], 0, l, n)
            if refusal(mx - cnt[l], n, out, "preGetKVWriteLocation", no):
                st.hit("refused")
            else:
                for h, A, sd in ((out[0], K, seed), (out[1], V, seed + 1)):
                    i = R.info(h)
                    need(i["shape"] == (1, n, kv * c["d"]) and i["contiguous"] and rt.NP[i["dtype"]] == A.dtype, "shape of a write location", step=no, info=i)
                    x = values(sd, i["shape"], A.dtype)
                    C.memmove(R.L.t_ptr(h), x.tobytes(), x.nbytes)
                    A[l][0, cnt[l]:cnt[l] + n] = x.reshape(n, kv, c["d"])
                cnt[l] += n
                st.hit("exactly full" if cnt[l] == mx else "write")
        elif k == "get":
            out = R.op("static_get", [], 0, a[0])
            need(out is not None, "getKVCache refused", step=no, error=R.error())
            same(out[0], K[a[0]][:, :cnt[a[0]]], "getKVCache (key)", no)
            same(out[1], V[a[0]][:, :cnt[a[0]]], "getKVCache (value)", no)
        elif k == "set":
            R.L.kv_set(0, 0, a[0])
            cnt = [a[0]] * L
        elif k == "clear":
            R.L.kv_wipe(0, 0)
            cnt = [0] * L
        for l in range(L):
            eq(R.L.kv_count(0, 0, l), cnt[l], "getCurrentSeqCnt", step=no, layer=l)
    for l in range(L):
        hk, hv = buffers(0, l)
        same(hk, K[l], f"key buffer of layer {l}", "end")
        same(hv, V[l], f"value buffer of layer {l}", "end")
    if len(c["steps"]) > 2:
        st.hit("history")


def run_dyn(c, st):
    R.clear(), R.L.kv_reset()
    rep = 1 if c["fa2"] else c["q"] // c["kv"]
    R.op("dyn_new", [], 0, c["layers"], c["q"], c["kv"], c["d"], c["fa2"])
    H, old = [None] * c["layers"], []
    eq(R.L.kv_count(2, 0, 0), 0, "getCurrentSeqCnt of an empty cache")
    for no, (l, g) in enumerate(c["steps"]):
        hk, hv, x, y = inputs(c, g)
        out = R.op("dyn_update", [hk, hv], 0, l)
        need(out is not None, "updateKVCache refused", step=no, error=R.error())
        x, y = np.repeat(x, rep, 1), np.repeat(y, rep, 1)
        H[l] = (x, y) if H[l] is None else (np.concatenate([H[l][0], x], 2), np.concatenate([H[l][1], y], 2))
        same(out[0], H[l][0], "the key cache returned by updateKVCache", no)
        same(out[1], H[l][1], "the value cache returned by updateKVCache", no)
        for o, w in old:
            same(o[0], w[0], "an earlier result (key)", no)
            same(o[1], w[1], "an earlier result (value)", no)
        old = (old + [(out, H[l])])[-3:]
        eq(R.L.kv_count(2, 0, 0), 0 if H[0] is None else H[0][0].shape[2], "getCurrentSeqCnt", step=no)
        st.hit("grown" if H[l][0].shape[2] > g["n"] else "first")
        st.hit("k " + g["lk"])
        if rep > 1:
            st.hit("grouped heads")


def run_op(c, st):
    R.clear(), R.L.kv_reset()
    L, q, rep = c["layers"], c["q"], c["q"] // c["kv"]
    mx = c["max"] if c["shared"] else 1024
    if c["shared"]:
        R.op("static_new", [], 0, mx, L, q, c["kv"], c["d"], 0, 0, 0)
    for l in range(L):
        R.op("op_new", [], l, l, q, c["kv"], c["d"], 0 if c["shared"] else -1)
    K = np.zeros((L, 1, q, mx, c["d"]), np.float32)
    V = np.zeros((L, 1, q, mx, c["d"]), np.float32)
    cnt = [0] * L
    for no, (k, l, *a) in enumerate(c["steps"]):
        if k == "update":
            g = a[0]
            hk, hv, x, y = inputs(c, g)
            out = R.op("op_update", [hk, hv], l)
            if refusal(mx - cnt[l], g["n"], out, "KVCacheOp", no):
                st.hit("refused")
            else:
                K[l][:, :, cnt[l]:cnt[l] + g["n"]] = np.repeat(x, rep, 1)
                V[l][:, :, cnt[l]:cnt[l] + g["n"]] = np.repeat(y, rep, 1)
                cnt[l] += g["n"]
                same(out[0], K[l][:, :, :cnt[l]], "KVCacheOp (key)", no)
                same(out[1], V[l][:, :, :cnt[l]], "KVCacheOp (value)", no)
                st.hit("shared" if c["shared"] else "own cache")
        elif k == "set":
            R.L.kv_set(3, l, a[0])
            cnt = [a[0]] * L if c["shared"] else [a[0] if i == l else n for i, n in enumerate(cnt)]
        else:
            R.L.kv_wipe(3, l)
            cnt = [0] * L if c["shared"] else [0 if i == l else n for i, n in enumerate(cnt)]
        for i in range(L):
            eq(R.L.kv_count(3, i, 0), cnt[i], "getCurrentSeqCnt", step=no, layer=i)


PARTS = [Part("static", gen_static, run_static, 6000, cpu_limit=20), Part("write", gen_write, run_write, 3000, cpu_limit=20),
         Part("dynamic", gen_dyn, run_dyn, 2500, cpu_limit=20), Part("operator", gen_op, run_op, 1500, cpu_limit=20)]

if __name__ == "__main__":
    vh.main("C08", lambda: (setup(), PARTS)[1],
            rule="non-trivial: at least one update was stored in a cache (or refused for lack of room) and its result compared with the model; "
                 "labels name what happened (history = several updates, exactly full, rolled back, sub windows, layouts)",
            assumptions=["zero-filling of the caches is done by a stand-in for the fill operator", "updateKVCache in fa2 mode is not implemented in the repository and is not called",
                         "keys and values have the cache's element types, batch 1"])
