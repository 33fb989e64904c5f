import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import ctypes as C
import shutil, tempfile
from vh import Part, eq, need
import cprefix
from cprefix import i64, u32

L = None
CAP = 64


def search(fn, h, toks, blocks, extra=None):
    k, v, ok = (C.c_uint32 * (CAP * blocks))(), (C.c_uint32 * (CAP * blocks))(), C.c_int(0)
    a = (h, i64(toks), len(toks)) + (() if extra is None else (extra,)) + (blocks, k, v, C.byref(ok), CAP)
    n = fn(*a)
    need(0 <= n <= len(toks), "a lookup of %d tokens matched %d", len(toks), n)
    return n, [[k[b * CAP + i] for i in range(n)] for b in range(blocks)], [[v[b * CAP + i] for i in range(n)] for b in range(blocks)], ok.value


def mk(s):
    """token sequences that share, split and extend prefixes"""
    base = s.int(0, 40) if s.bool(.7) else None
    return [base, s.int(0, 24), s.ints(0, 2, 0, 8), s.choice([0, 0, 0, 1, -7])]


def seq(spec, hist):
    base, cut, tail, ex = spec
    b = hist[base % len(hist)] if base is not None and hist else ()
    return (b[:cut % (len(b) + 1)] + tuple(tail))[:30], ex


def gen_tree(s):
    def op(s):
        k = s.weighted([(10, "ins"), (10, "find"), (1, "clear"), (1, "dot")])
        return [k, mk(s)] if k in ("ins", "find") else [k]
    return {"blocks": s.int(1, 3), "ops": s.list(op, 2, 40)}


def run_tree(case, st):
    B = case["blocks"]
    t = L.tree_new(B)
    model, hist, n = {}, [], 0

    def check(toks, ex):
        m = 0
        while m < len(toks) and (ex, toks[:m + 1]) in model:
            m += 1
        g, k, v, ok = search(L.tree_search, t, toks, B, ex)
        eq(g, m, f"matched length of {toks} (extra key {ex})")
        eq(bool(ok), m > 0, "success flag")
        for b in range(B):
            want = [model[ex, toks[:i + 1]] * 16 + b * 2 for i in range(m)]
            eq(k[b], want, f"key addresses of {toks} in layer {b}")
            eq(v[b], [x + 1 for x in want], f"value addresses of {toks} in layer {b}")
        return m
    try:
        for op in case["ops"]:
            if op[0] == "ins":
                toks, ex = seq(op[1], hist)
                ids = list(range(n, n + len(toks)))
                n += len(toks)
                k = [x * 16 + b * 2 for b in range(B) for x in ids]
                old = sum((ex, toks[:i + 1]) in model for i in range(len(toks)))
                need(L.tree_insert(t, i64(toks), len(toks), ex, B, u32(k), u32([x + 1 for x in k])), "insert refused")
                for i in range(len(toks)):
                    model.setdefault((ex, toks[:i + 1]), ids[i])
                hist.append(toks)
                if 0 < old < len(toks):
                    st.hit("shared_prefix")
                check(toks, ex)
            elif op[0] == "find":
                toks, ex = seq(op[1], hist)
                m = check(toks, ex)
                if 0 < m < len(toks):
                    st.hit("partial_match")
            elif op[0] == "clear":
                L.tree_clear(t)
                model.clear()
            else:
                L.tree_dot(t)
        for toks in hist:
            for ex in (0, 1, -7):
                check(toks, ex)
                check(toks + (2,), ex)
    finally:
        L.tree_del(t)


def gen_pc(s):
    layers = s.int(1, 3)

    def op(s):
        k = s.weighted([(8, "prompt"), (6, "find"), (2, "purge")])
        if k == "prompt":
            sp = mk(s)
            sp[3] = 0
            return [k, sp, s.bool(.4)]
        return [k, mk(s)]
    win = s.choice([0, 0, 1, 2, 3, 4, 8, 33])
    return {"layers": layers, "kele": s.int(1, 9), "vele": s.int(1, 9), "dtype": s.choice([0, 1, 16]), "pb": s.int(0, 3), "lb": s.int(0, 5), "win": win,
            "swl": [int(s.bool()) for _ in range(layers)], "file": s.bool(.3), "ops": s.list(op, 1, 25)}


INV = 0xFFFFFFFF


def run_pc(case, st):
    """The service's use of the cache: look the prompt up, allocate the rest, write it, promote it."""
    d = tempfile.mkdtemp(prefix="vh_pc_")
    layers = case["layers"]
    swl = case["swl"] if case["win"] else [0] * layers
    size = [case["kele"] * {0: 4, 1: 2, 16: 1}[case["dtype"]], case["vele"] * {0: 4, 1: 2, 16: 1}[case["dtype"]]]
    c = L.pc_new(layers, case["kele"], case["vele"], case["dtype"], case["pb"], case["lb"], case["win"], (C.c_int * layers)(*case["swl"]),
                 int(case["file"]), d.encode())
    tag, model, hist, live = 0, {}, [], {}   # model: prefix -> tag; live: (layer, kv, addr) -> (tag, phys)

    def pat(t, layer, kv):
        return bytes(((t * 7 + layer * 3 + kv + 1) * (j + 5) & 0xff) for j in range(size[kv]))

    def check(toks):
        m = 0
        while m < len(toks) and toks[:m + 1] in model:
            m += 1
        g, k, v, ok = search(L.pc_find, c, toks, layers)
        eq(g, m, f"matched length of {toks}")
        for layer in range(layers):
            for i in range(m):
                for kv, a in ((0, k[layer][i]), (1, v[layer][i])):
                    p = toks[:i + 1]
                    if (layer, p) in gone:
                        eq(a, INV, "address of a token outside the window")
                        continue
                    need(a != INV, "no address for token %d of %s in layer %d", i, toks, layer)
                    eq(C.string_at(L.pc_addr(c, layer, kv, a), size[kv]), pat(model[p], layer, kv), f"KV data of token {i} of {toks} in layer {layer}")
        return m
    gone = set()
    try:
        for op in case["ops"]:
            if op[0] == "prompt":
                toks, _ = seq(op[1], hist)
                if not toks:
                    continue
                m, k, v, _ = search(L.pc_find, c, toks, layers)
                ks, vs = [list(x) for x in k], [list(x) for x in v]
                for i in range(m, len(toks)):
                    tag += 1
                    for layer in range(layers):
                        for kv, dst in ((0, ks), (1, vs)):
                            a = L.pc_alloc(c, layer, kv)
                            need(a != INV, "no address")
                            need((layer, kv, a) not in live, "address %#x of layer %d is handed out twice", a, layer)
                            p = L.pc_addr(c, layer, kv, a)
                            need(p, "an allocated address has no memory")
                            C.memmove(p, pat(tag, layer, kv), size[kv])
                            live[layer, kv, a] = toks[:i + 1]
                            dst[layer].append(a)
                    model[toks[:i + 1]] = tag
                flat = lambda x: u32([a for l in x for a in l])  # noqa
                L.pc_promote(c, i64(toks), len(toks), 0, layers, flat(ks), flat(vs))
                hist.append(toks)
                if 0 < m < len(toks):
                    st.hit("prefix_shared")
                check(toks)
                if op[2] and case["win"]:
                    L.pc_window(c, i64(toks), len(toks))
                    n = len(toks) - case["win"]
                    for layer in range(layers):
                        if swl[layer]:
                            for i in range(n):
                                gone.add((layer, toks[:i + 1]))
                    live = {q: p for q, p in live.items() if (q[0], p) not in gone}
                    if n > 0 and any(swl):
                        st.hit("window_evicted")
            elif op[0] == "find":
                check(seq(op[1], hist)[0])
            else:
                toks, _ = seq(op[1], hist)
                m, k, v, _ = search(L.pc_find, c, toks, layers)
                for layer in range(layers):
                    for i in range(m):
                        if k[layer][i] != INV:
                            L.pc_purge(c, layer, 0, k[layer][i])
                            L.pc_prefetch(c, layer, 0, k[layer][i])
                        if v[layer][i] != INV:
                            L.pc_purge(c, layer, 1, v[layer][i])
        for toks in hist:
            check(toks)
    finally:
        L.pc_del(c)
        L.stub_reset()
        shutil.rmtree(d)


def make():
    global L
    L = cprefix.load()
    return [Part("tree", gen_tree, run_tree, 20000, shards=4, cpu_limit=10), Part("cache", gen_pc, run_pc, 8000, shards=4, cpu_limit=10)]


vh.main("C01", make, "a history of inserts and lookups over token sequences sharing prefixes (and, for the cache, KV data written and read through it); "
        "non-trivial when an insert shared part of a stored prefix, a lookup matched partially, or the window evicted",
        ["tensors are plain buffers from a stand-in; single-threaded use"])
