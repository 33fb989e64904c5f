#!/usr/bin/env python3
"""P11: tensors and metadata handed between processes: the chunk pool, the proxies and the shared queue."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
import contextlib, logging, pickle
from vh import Part, need, eq

REG = []


def fake():
    """The transport module over memory of the CPU: cuda:N is the CPU and a handle is an index into the storages shared."""
    import torch
    import pymllm.orchestrator.cuda_ipc_transport as m
    if getattr(m, "_on_cpu", False):
        return m
    logging.disable(logging.CRITICAL)

    class Torch:
        device = staticmethod(lambda *a, **k: torch.device("cpu"))
        empty = staticmethod(lambda *a, device=None, **k: torch.empty(*a, **k))

        class cuda:
            device = staticmethod(lambda *a: contextlib.nullcontext())

        class UntypedStorage:
            _new_shared_cuda = staticmethod(lambda i: REG[i])

        def __getattr__(self, n):
            return getattr(torch, n)

    class Pass(BaseException):
        pass

    class Time:
        @staticmethod
        def sleep(s):
            raise Pass

        def __getattr__(self, n):
            import time
            return getattr(time, n)

    class Idle:            # the recycler, one pass at a time
        last = None

        def __init__(self, *a, target=None, args=(), kwargs=None, **k):
            Idle.last, self.run = self, lambda: target(*args, **(kwargs or {}))

        def start(self): pass

        def step(self):
            try:
                self.run()
            except Pass:
                pass
        def is_alive(self): return False
        def join(self, *a, **k): pass

    class Threading:
        Thread = Idle

        def __getattr__(self, n):
            import threading
            return getattr(threading, n)
    m.torch, m.threading, m.time, m._on_cpu, m.Idle = Torch(), Threading(), Time(), True, Idle

    class Gpu(torch.Tensor):
        is_cuda = property(lambda self: True)
    Gpu.__module__, Gpu.__qualname__, m.Gpu = m.__name__, "Gpu", Gpu
    return m


def share(ok):
    import torch

    def f(self):
        if not ok:
            raise RuntimeError("no handle")
        REG.append(self)
        return (len(REG) - 1,)
    torch.UntypedStorage._share_cuda_ = f


DT = ["float32", "float16", "bfloat16", "int8", "uint8", "int64", "int32", "bool", "float64"]


# ---------------------------------------------------------------- pool
def gen_pool(s):
    size = s.weighted([(3, s.int(1, 64)), (2, s.int(64, 4096))])

    def op(s):
        k = s.weighted([(6, "get"), (5, "done"), (3, "recycle")])
        if k == "get":
            return [k, s.weighted([(5, s.int(1, max(1, size // 4))), (1, s.int(0, size + 3)), (.4, 0), (.4, size)]), s.choice(DT)]
        return [k, s.int(0, 30)] if k == "done" else [k]
    return {"size": size, "consumers": s.int(1, 3), "ops": s.list(op, 1, 60)}


def run_pool(c, st):
    import torch
    m = fake()
    p = m.MmItemMemoryPool(c["size"], recycle_interval=1e6, num_consumers=c["consumers"])
    recycler = m.Idle.last
    base = p.memory_pool.data_ptr()
    used, free = [], [(0, c["size"])]        # used: [start, end, meta, times read, bytes]
    for k, op in enumerate(c["ops"]):
        if op[0] == "get":
            t = torch.empty(op[1] // getattr(torch, op[2]).itemsize, dtype=getattr(torch, op[2]))
            n = t.numel() * t.element_size()
            meta, sl = p.get_slice_with_flag(t)
            fits = [f for f in free if f[1] - f[0] >= n]
            if n:
                eq(sl is not None, bool(fits), "a slice of %d bytes, free: %s" % (n, free))
            if sl is None:
                need(meta is None, "a flag without a slice")
                st.hit("full")
                continue
            eq((sl.numel(), sl.element_size()), (n, 1), "bytes of the slice")
            if n == 0:
                st.hit("empty tensor")
            else:
                a = sl.data_ptr() - base
                f = [f for f in free if f[0] <= a and a + n <= f[1]]
                need(f, "the slice [%d, %d) is not free, free: %s", a, a + n, free)
                free.remove(f[0])
                free += [x for x in ((f[0][0], a), (a + n, f[0][1])) if x[0] < x[1]]
            shm, arr = m.ShmSyncBuffer.open(meta)
            v = float(arr[0])
            del arr
            shm.close()
            eq(v, 0.0, "the flag of a new slice")
            need(meta["handle"] not in [u[2]["handle"] for u in used], "two slices share a flag")
            data = bytes((k * 37 + i * 11 + 1) % 256 for i in range(n))
            sl.copy_(torch.frombuffer(bytearray(data), dtype=torch.int8) if n else sl)
            used.append([sl.data_ptr() - base if n else None, n, meta, 0, data, sl])
        elif op[0] == "done":
            left = [u for u in used if u[3] < c["consumers"]]
            if left:
                u = left[op[1] % len(left)]
                m._increment_sync_flag(u[2])
                u[3] += 1
        else:
            recycler.step()
            gone = [u for u in used if u[3] >= c["consumers"]]
            used = [u for u in used if u[3] < c["consumers"]]
            free, at = [], 0
            for a, b in sorted((u[0], u[0] + u[1]) for u in used if u[1]) + [(c["size"], c["size"])]:
                if at < a:
                    free.append((at, a))
                at = b
            if gone:
                st.hit("recycled")
        for u in used:
            need(bytes(u[5].numpy().tobytes()) == u[4], "a slice changed before all had read it")
    p.shutdown()


# ---------------------------------------------------------------- what crosses
def gen_tree(s, d=0):
    k = s.weighted([(6, "t"), (1, "x")] + ([(2, "d"), (2, "l"), (1, "u")] if d < 3 else []))
    if k == "t":
        return [k, s.bool(.6), s.choice(DT), s.ints(1, 4, 0, 3) if s.bool(.9) else [0, 3], s.weighted([(4, "plain"), (1, "t"), (1, "step")]), s.int(0, 9999)]
    if k == "x":
        return [k, s.choice([None, 1, "s", 2.5, True])]
    return [k, [gen_tree(s, d + 1) for _ in range(s.int(0, 3))]]


def build(m, t):
    import torch
    if t[0] == "t":
        g = torch.Generator().manual_seed(t[5])
        dt = getattr(torch, t[2])
        n = 1
        for x in t[3]:
            n *= x
        shape = [2 * x for x in t[3]] if t[4] == "step" else t[3]
        v = torch.randint(0, 2 if t[2] == "bool" else 120, shape, generator=g).to(dt)
        if t[4] == "t" and v.dim() >= 2:
            v = v.transpose(0, -1)
        if t[4] == "step":
            for k in range(v.dim()):
                v = v.narrow(k, 0, t[3][k]) if k == 0 else v.index_select(k, torch.arange(t[3][k])) if k % 2 else v.unfold(k, 1, 2).squeeze(-1)
        return v.as_subclass(m.Gpu) if t[1] else v
    if t[0] == "x":
        return t[1]
    sub = [build(m, x) for x in t[1]]
    return {"k%d" % i: x for i, x in enumerate(sub)} if t[0] == "d" else sub if t[0] == "l" else tuple(sub)


def same(got, want, path="value"):
    import torch
    if isinstance(want, torch.Tensor):
        need(isinstance(got, torch.Tensor), "%s is a %s", path, type(got).__name__)
        w, g = want.as_subclass(torch.Tensor), got.as_subclass(torch.Tensor)
        eq((str(g.dtype), tuple(g.shape)), (str(w.dtype), tuple(w.shape)), path)
        need(torch.equal(g, w), "%s holds other numbers", path)
        return
    need(type(got) is type(want), "%s is a %s, not a %s", path, type(got).__name__, type(want).__name__)
    if isinstance(want, dict):
        eq(list(got), list(want), path)
        for k in want:
            same(got[k], want[k], "%s[%r]" % (path, k))
    elif isinstance(want, (list, tuple)):
        eq(len(got), len(want), path)
        for i, (g, w) in enumerate(zip(got, want)):
            same(g, w, "%s[%d]" % (path, i))
    else:
        eq(got, want, path)


def gen_cross(s):
    return {"size": s.weighted([(3, 4096), (2, s.int(1, 200))]), "mode": s.weighted([(4, "cuda_ipc_pool"), (1, "default")]), "consumers": s.int(1, 2),
            "handles": s.bool(.7), "trees": [["d", [gen_tree(s, 1) for _ in range(s.int(0, 4))]] for _ in range(s.int(1, 4))]}


def run_cross(c, st):
    import torch
    m = fake()
    share(c["handles"])
    del REG[:]
    p = m.MmItemMemoryPool(c["size"], recycle_interval=1e6, num_consumers=c["consumers"])
    recycler = m.Idle.last
    for t in c["trees"]:
        want, src = build(m, t), build(m, t)
        sent = m.wrap_mm_inputs_for_ipc(src, c["mode"], p)
        same(src, want, "what was sent")

        def plain(x):      # a full pool passes the tensor on as it is, outside what can be shown without a device
            if isinstance(x, m.TransportProxyTensor):
                st.hit("full")
                return x.as_subclass(torch.Tensor)
            if isinstance(x, torch.Tensor):
                return x.as_subclass(torch.Tensor)
            return {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else type(x)(plain(v) for v in x) if isinstance(x, (list, tuple)) else x
        raw = pickle.dumps(plain(sent))
        if b"CudaIpcTensorTransportProxy" in raw:
            st.hit("through the pool")
        for _ in range(c["consumers"]):
            got = m.unwrap_mm_inputs_from_ipc(pickle.loads(raw))
            same(got, want)
            same(m.unwrap_mm_inputs_from_ipc(got), want, "unwrapped twice")
        recycler.step()
        meta, sl = p.get_slice_with_flag(torch.empty(c["size"], dtype=torch.int8))
        need(sl is not None and sl.numel() == c["size"], "after all have read a part of the pool is still held")
        for _ in range(c["consumers"]):
            m._increment_sync_flag(meta)
        recycler.step()
    need(m.wrap_mm_inputs_for_ipc(None, c["mode"], p) is None and m.unwrap_mm_inputs_from_ipc(None) is None, "None")
    p.shutdown()


# ---------------------------------------------------------------- shared queue
RID = "abc09-_./ \u00e9\u4f60"


def gen_queue(s):
    return {"items": [[s.text(RID, 0, 12) * s.weighted([(8, 1), (1, 30)]), gen_tree(s), None if s.bool(.2) else ["d", [gen_tree(s, 1) for _ in range(s.int(0, 3))]]]
                      for _ in range(s.int(1, 5))], "mode": s.choice(["default", "default", "cuda_ipc"]), "lost": s.int(0, 9)}


def cpu(t):
    return t[:1] + [False] + t[2:] if t[0] == "t" else t if t[0] == "x" else [t[0], [cpu(x) for x in t[1]]]


def run_queue(c, st):
    m = fake()
    share(False)
    from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager as S, TensorQueue
    q = TensorQueue(transport_mode=c["mode"])
    names = []
    try:
        for rid, meta, mm in c["items"]:
            names.append(S.write_metadata(rid, [rid, build(m, cpu(meta))]))
            q.put(rid, names[-1], build(m, cpu(mm)) if mm else None)
        eq(len(set(names)), len(names), "segments of different requests")
        for k, (rid, meta, mm) in enumerate(c["items"]):
            r, n, x = q.get(timeout=20)
            eq((r, n), (rid, names[k]), "the next request")
            same(x, build(m, cpu(mm)) if mm else None, "inputs")
            if k == c["lost"]:
                S.cleanup(n)
            else:
                if k % 2:
                    same(S.read_metadata(n, unlink=False), [rid, build(m, cpu(meta))], "metadata")
                same(S.read_metadata(n), [rid, build(m, cpu(meta))], "metadata")
            need(not os.path.exists("/dev/shm/" + n), "the segment of a read request stays")
            S.cleanup(n)
        need(q.empty() and q.qsize() == 0, "more in the queue than was put in")
        if any(mm for _, _, mm in c["items"]):
            st.hit("tensors")
    finally:
        q.close()
        for n in names:
            S.cleanup(n)


PARTS = [Part("pool", gen_pool, run_pool, quick=3000, shards=6), Part("cross", gen_cross, run_cross, quick=3000, shards=6), Part("queue", gen_queue, run_queue, quick=1200, shards=6)]

if __name__ == "__main__":
    vh.main("P11", PARTS, "a recycled or full pool, a tensor through the pool, a request with tensors",
            ["No device: cuda memory is memory of the CPU, and IPC handles are stand-ins for the driver's."])
