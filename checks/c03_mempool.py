import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import ctypes as C
from vh import Part, eq, need
import cppbuild

L = None


def log2c(n):
    return max(0, (n - 1).bit_length())


def gen(s):
    mn = s.int(4, 8)
    mx = mn + s.int(0, 5)
    align = s.choice([a for a in (1, 16, 32, 64) if a <= 1 << mx])
    sizes = [s.choice([1 << s.int(mn, mx), s.int(1, 1 << mx)]) for _ in range(s.int(0, 4))]
    sizes = [-(-x // align) * align for x in sizes]
    thr = (1 << mx) if s.bool(.4) else 0

    def op(s):
        k = s.weighted([(10, "alloc"), (8, "free")] + ([(1, "sizes")] if not thr else []))
        if k == "alloc":
            return [k, s.choice(sizes) if sizes and s.bool(.5) else s.choice([s.int(1, 1 << mn), s.int(1, 1 << mx), 1 << s.int(mn, mx)] + ([2 << mx] if thr else []))]
        if k == "free":
            return [k, s.int(0, 1000)]
        return [k, [x for x in sizes if s.bool()]]
    return {"mn": mn, "mx": mx, "align": align, "cache": s.bool(.5), "sizes": sizes, "thr": thr, "ops": s.list(op, 1, 60)}


def run(case, st):
    mn, mx, al = case["mn"], case["mx"], case["align"]
    sizes = case["sizes"]
    arr = lambda x: (C.c_int64 * max(1, len(x)))(*x)  # noqa
    h = L.mem_new(al, mn, mx, int(case["cache"]), arr(sizes), len(sizes), case["thr"])
    uid, live, cached = 0, {}, []     # live: uid -> (storage, ptr, asked, rounded, pat, direct); cached: [asked, ptr, block size]
    sizes = set(sizes)

    def order(n):
        return max(mn, log2c(n))

    def segs():
        return [(L.mem_seg(h, i), L.mem_cap(h, i)) for i in range(L.mem_nseg(h))]

    def check():
        for u, (s, p, asked, size, pat, d) in live.items():
            if C.string_at(p, asked) != bytes([pat]) * asked:
                need(False, "the contents of a live %d-byte block changed", asked)
    try:
        for op in case["ops"]:
            if op[0] == "alloc":
                asked = op[1]
                size = -(-asked // al) * al
                direct = case["thr"] and size >= case["thr"]
                if not direct and size > 1 << mx:
                    continue
                uid += 1
                s = L.st_new(asked, uid)
                before, nd = segs(), L.mem_ndirect(h)
                p = L.mem_alloc(h, s)
                need(p, "no memory for %d bytes", asked)
                after = segs()
                if direct:
                    eq(L.mem_ndirect(h), nd + 1, "large tensors come from the system")
                    eq(len(after), len(before), "segments")
                else:
                    o = order(size)
                    seg = [b for b in after if b[0] <= p and p + size <= b[0] + b[1]]
                    need(seg, "a block of %d bytes is outside every segment", size)
                    need(p % max(1, min(64, 1 << mn)) == 0, "block is not aligned")
                    hit = [c for c in cached if c[0] == size] if case["cache"] and size in sizes else []
                    if hit:
                        need(any(c[1] == p for c in hit), "a cached block of %d bytes is not reused", size)
                        cached = [c for c in cached if c[1] != p]
                        st.hit("reused_cached")
                    need(len(after) - len(before) <= 64, "segments")
                    if len(after) > len(before):
                        used = [(q, 1 << order(z)) for _, (_, q, _, z, _, d) in live.items() if not d] + [(c[1], c[2]) for c in cached]
                        for b, cap in before:
                            for off in range(0, cap, 1 << o):
                                if cap >= 1 << o and all(q + n <= b + off or b + off + (1 << o) <= q for q, n in used):
                                    need(False, "the pool grew for %d bytes although an aligned free block of %d bytes exists", size, 1 << o)
                        st.hit("grew")
                for _, (_, q, a2, z, _, _) in live.items():
                    need(p + size <= q or q + z <= p, "two live blocks overlap")
                pat = uid % 251
                C.memset(p, pat, asked)
                live[uid] = (s, p, asked, size, pat, direct)
            elif op[0] == "free" and live:
                u = sorted(live)[op[1] % len(live)]
                s, p, asked, size, pat, direct = live[u]
                need(C.string_at(p, asked) == bytes([pat]) * asked, "the contents of a live block changed")
                del live[u]
                L.mem_free(h, s)
                L.st_del(s)
                if case["cache"] and size in sizes and not direct:
                    cached.append([size, p, 1 << order(size)])
            elif op[0] == "sizes":
                sizes = set(op[1])
                L.mem_sizes(h, arr(op[1]), len(op[1]))
                cached = [c for c in cached if c[0] in sizes]
            check()
        for u, (s, p, asked, size, pat, d) in live.items():
            L.mem_free(h, s)
            L.st_del(s)
        live.clear()
        eq(L.mem_ndirect(h), 0, "large tensors still held")
        if not case["thr"]:
            # no size is cached and everything is free:
            L.mem_sizes(h, arr([]), 0)
            # one block of each whole segment is available again
            n = len(segs())
            hold = []
            for b, cap in segs():
                uid += 1
                s = L.st_new(1 << mx, uid)
                L.mem_alloc(h, s)
                hold.append(s)
            eq(len(segs()), n, "segments after everything was freed and the first capacity requested again")
            for s in hold:
                L.mem_free(h, s)
                L.st_del(s)
    finally:
        eq(L.mem_del(h), 0, "segments not returned to the system")


def gen_thr(s):
    return {"mn": s.int(4, 6), "mx": s.int(6, 10), "threads": s.int(2, 6), "rounds": s.int(50, 400), "cache": s.bool(), "seed": s.int(0, 10 ** 6)}


def run_thr(case, st):
    h = L.mem_new(16, case["mn"], case["mx"], int(case["cache"]), (C.c_int64 * 2)(32, 64), 2, 0)
    eq(L.mem_threads(h, case["threads"], case["rounds"], 1 << case["mx"], case["seed"]), 0, "blocks corrupted by another thread's allocation")
    eq(L.mem_del(h), 0, "segments not returned")
    st.hit("threads")


def make():
    global L
    so = cppbuild.build("mem", repo=["mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/core/DeviceTypes.cpp", "mllm/utils/Log.cpp"],
                        wrap=["c03_mem.cpp"], san=True)
    L = C.CDLL(so)
    vp, i, l, u = C.c_void_p, C.c_int, C.c_int64, C.c_uint32
    lp = C.POINTER(l)
    for name, res, args in [("mem_new", vp, [i, i, i, i, lp, i, l]), ("mem_del", i, [vp]), ("st_new", vp, [l, u]), ("st_del", None, [vp]),
                            ("mem_alloc", vp, [vp, vp]), ("mem_free", None, [vp, vp]), ("mem_sizes", None, [vp, lp, i]), ("mem_nseg", i, [vp]),
                            ("mem_seg", vp, [vp, i]), ("mem_cap", l, [vp, i]), ("mem_ndirect", i, [vp]), ("mem_threads", i, [vp, i, i, i, u])]:
        f = getattr(L, name)
        f.restype, f.argtypes = res, args
    return [Part("pool", gen, run, 24000, shards=6, cpu_limit=10), Part("threads", gen_thr, run_thr, 300, shards=2, cpu_limit=30)]


vh.main("C03", make, "a history of allocations, frees and cache-size changes on a pool of random geometry; non-trivial when a cached block was reused, "
        "the pool grew, or several threads worked on one pool", ["the operating-system allocator is a stand-in that records segments"])
