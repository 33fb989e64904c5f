import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import ctypes as C
import shutil, tempfile
from vh import Part, eq, need
import cprefix

L = None
INV = 0xFFFFFFFF


def gen(s):
    def op(s):
        k = s.weighted([(12, "alloc"), (6, "free"), (3, "write"), (2, "purge"), (2, "prefetch"), (1, "check"), (1, "reopen")])
        return [k, s.int(1, 60)] if k == "alloc" else [k, s.int(0, 10 ** 6)]
    pb, lb = s.int(0, 4), s.int(0, 6)
    dt = s.choice([0, 1, 16, 132, 2, 8, 12, 129])
    return {"pb": pb, "lb": lb, "ele": s.choice([256, 512, 1024] if dt == 12 else [32, 64, 96, 512] if dt in (2, 8) else [1, 3, 8, 64, 512, 1024]), "dtype": dt,
            "file": s.bool(.5), "record": s.bool(.5), "ops": s.list(op, 1, 30)}


def run(case, st):
    d = tempfile.mkdtemp(prefix="vh_zen_")
    pb, lb = case["pb"], case["lb"]
    size = case["ele"] * L.dtype_bytes(case["dtype"]) // L.dtype_lanes(case["dtype"])
    z = L.zen_new(pb, lb, case["ele"], case["dtype"], int(case["file"]), int(case["record"]), d.encode())
    live, order, ver, keep = {}, [], 0, []

    def pat(t):
        x = (t * 2654435761 + 12345) & 0xffffffff
        b = bytes(((x >> (8 * (j & 3))) + j * 31) & 0xff for j in range(min(size, 64)))
        return (b * (size // len(b) + 1))[:size]

    def check_all(what):
        for a, (p, t) in live.items():
            q = L.zen_access(z, a)
            eq(q, p, f"memory of live address {a:#x}")
            if C.string_at(p, size) != pat(t):
                need(False, "%s: the data of live address %#x changed", what, a)

    def write(a, p):
        nonlocal ver
        ver += 1
        C.memmove(p, pat(ver), size)
        live[a] = (p, ver)
    try:
        for op in case["ops"]:
            if op[0] == "alloc":
                for _ in range(op[1]):
                    if len(live) > 600 or size * len(live) > 1 << 19:
                        break
                    a = L.zen_malloc(z)
                    need(a != INV, "no address")
                    need(a not in live, "live address %#x is handed out again", a)
                    need((L.a_blob(a, pb, lb) << (pb + lb)) | (L.a_page(a, pb, lb) << lb) | L.a_lane(a, pb, lb) == a
                         and L.a_page(a, pb, lb) < 1 << pb and L.a_lane(a, pb, lb) < 1 << lb, "address %#x does not decompose", a)
                    p = L.zen_access(z, a)
                    need(p, "allocated address %#x has no memory", a)
                    for b, (q, _) in live.items():
                        need(p + size <= q or q + size <= p, "addresses %#x and %#x share memory", a, b)
                    write(a, p)
                    order.append(a)
                    if a >> (pb + lb):
                        st.hit("second_blob")
            elif op[0] == "free" and order:
                a = order.pop(op[1] % len(order))
                del live[a]
                L.zen_free(z, a)
                keep.append(a)
            elif op[0] == "write" and order:
                a = order[op[1] % len(order)]
                write(a, live[a][0])
            elif op[0] == "purge" and order:
                L.zen_purge(z, order[op[1] % len(order)])
                check_all("after a purge hint")
            elif op[0] == "prefetch" and order:
                L.zen_prefetch(z, order[op[1] % len(order)])
            elif op[0] == "check":
                check_all("on reading")
            elif op[0] == "reopen" and case["record"] and (case["file"] or not any(a >> (pb + lb) for a in order)) and not (
                    not case["file"] and any(a >> (pb + lb) for a in keep)):
                L.zen_finalize(z)
                L.zen_del(z)
                z = L.zen_recover(d.encode())
                for a in live:
                    p = L.zen_access(z, a)
                    need(p, "recovered address %#x has no memory", a)
                    live[a] = (p, live[a][1])
                check_all("after recovery")
                st.hit("recovered")
        check_all("at the end")
    finally:
        L.zen_del(z)
        L.stub_reset()
        shutil.rmtree(d)


def make():
    global L
    L = cprefix.load()
    return [Part("zen", gen, run, 6000, shards=8, cpu_limit=10)]


vh.main("C02", make, "a history of allocations, frees, writes, hints and save/recover steps; non-trivial when a second blob was needed or a recovery happened",
        ["tensors are plain buffers from a stand-in; single-threaded use"])
