"""The CPU tensor runtime of the tree under test behind ctypes, with numpy on this side."""
import ctypes as C
import os
import cppbuild
import numpy as np

CORE = ["mllm/core/" + x for x in "BaseOp.cpp DataTypes.cpp DeviceTypes.cpp MappedFile.cpp ParameterFile.cpp SlicePrimitives.cpp Tensor.cpp TensorStorage.cpp TensorViewImpl.cpp".split()]
ENG = ["mllm/engine/" + x for x in "Context.cpp Dispatcher.cpp DispatcherManager.cpp Task.cpp SessionTCB.cpp MemoryManager.cpp BuddyMemPool.cpp".split()] + \
    ["mllm/backends/cpu/CPUDispatcher.cpp", "mllm/backends/base/Backend.cpp", "mllm/backends/base/Allocator.cpp", "mllm/utils/Log.cpp"]
F32, F16, I8, I16, I32, U8, I64, BOOL, C64 = 0, 1, 16, 17, 18, 129, 132, 156, 201
NP = {F32: np.float32, F16: np.float16, I8: np.int8, I16: np.int16, I32: np.int32, U8: np.uint8, I64: np.int64, C64: np.complex64}
DT = {np.dtype(v): k for k, v in NP.items()}
NP[BOOL] = np.uint8


class RT:
    def __init__(self, name, ops, wrap, extra=(), more_unity=(), san=True, aops=None, flags=("-O1",), link=()):
        """ops: the operators to compile (mllm/backends/cpu/ops/<op>Op.cpp and mllm/core/aops/<op>Op.cpp)."""
        full = ops is None  # every operator, registered by the repository's own CPU backend
        if full:
            fl = lambda d, deep=False: sorted(os.path.relpath(os.path.join(r, f), cppbuild.REPO) for r, ds, fs in os.walk(os.path.join(cppbuild.REPO, d))
                                              for f in fs if f.endswith(".cpp") and (deep or r.endswith(d)))
            ops = []
            aops = []
            more_unity = list(more_unity) + fl("mllm/core/aops") + fl("mllm/backends/cpu/ops") + ["mllm/nn/lmcache/StaticCache.cpp"]
            extra = list(extra) + fl("mllm/backends/cpu/kernels/x86", True) + fl("mllm/backends/cpu/kernels/common", True) + \
                ["mllm/backends/cpu/CPUBackend.cpp", "mllm/engine/HpcThreadPool.cpp", "mllm/backends/base/PluginSystem.cpp"]
            flags = tuple(flags) + ("-DRT_FULL", "-DXXH_INLINE_ALL")
        un = [f"mllm/core/aops/{o}Op.cpp" for o in (aops or ops)] + [f"mllm/backends/cpu/ops/{o}Op.cpp" for o in ops] + list(more_unity)
        so = cppbuild.build(name, repo=list(extra), wrap=["rt.cpp"] + list(wrap), unity=CORE + ENG + un, flags=tuple(flags) + ("-include", "random", "-include", "numeric"),
                            san=san, undefined=True, libs=["-Wl,-z,lazy"] + list(link))
        self.L = L = C.CDLL(so, mode=os.RTLD_LAZY)
        for f, r, a in [("t_new", C.c_int64, [C.c_int, C.c_int, C.c_void_p]), ("t_view", C.c_int64, [C.c_int64, C.c_int, C.c_int, C.c_void_p, C.c_void_p]),
                        ("t_free", None, [C.c_int64]), ("t_info", C.c_int, [C.c_int64, C.c_void_p]), ("t_ptr", C.c_void_p, [C.c_int64]),
                        ("t_storage", C.c_void_p, [C.c_int64]), ("t_storage_bytes", C.c_int64, [C.c_int64]), ("t_numel", C.c_int64, [C.c_int64]),
                        ("t_rank_n_contig", C.c_int64, [C.c_int64, C.c_int]), ("t_at", C.c_void_p, [C.c_int64, C.c_int, C.c_void_p]),
                        ("rt_op", C.c_int, [C.c_char_p, C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_void_p]), ("rt_error", C.c_char_p, [])]:
            getattr(L, f).restype, getattr(L, f).argtypes = r, a
        L.rt_init()

    @staticmethod
    def ints(v):
        return (C.c_int32 * max(len(v), 1))(*v)

    def clear(self):
        self.L.rt_clear()

    def new(self, arr):
        """A tensor of its own holding a copy of arr."""
        arr = np.asarray(arr)
        h = self.L.t_new(DT[arr.dtype], arr.ndim, self.ints(arr.shape))
        C.memmove(self.L.t_storage(h), np.ascontiguousarray(arr).tobytes(), arr.nbytes)
        return h

    def view(self, h, off, shape, stride):
        return self.L.t_view(h, off, len(shape), self.ints(shape), self.ints(stride))

    def info(self, h):
        o = (C.c_int32 * 40)()
        self.L.t_info(h, o)
        n = o[0]
        return {"dtype": o[1], "offset": o[2], "contiguous": o[3], "shape": tuple(o[4:4 + n]), "stride": tuple(o[4 + n:4 + 2 * n])}

    def get(self, h):
        """A copy of the elements as numpy sees them through shape, strides and offset; None when they reach outside the storage."""
        i = self.info(h)
        dt = np.dtype(NP[i["dtype"]])
        if 0 in i["shape"]:
            return np.zeros(i["shape"], dt)
        lo = i["offset"] + sum(min(0, (s - 1) * t) for s, t in zip(i["shape"], i["stride"]))
        hi = i["offset"] + sum(max(0, (s - 1) * t) for s, t in zip(i["shape"], i["stride"]))
        nb = self.L.t_storage_bytes(h)
        if lo < 0 or (hi + 1) * dt.itemsize > nb:
            return None
        raw = np.frombuffer((C.c_char * nb).from_address(self.L.t_storage(h)), dtype=np.uint8)
        raw = raw[:nb // dt.itemsize * dt.itemsize].view(dt)
        return np.lib.stride_tricks.as_strided(raw[i["offset"]:], i["shape"], [s * dt.itemsize for s in i["stride"]]).copy()

    def raw(self, h):
        return C.string_at(self.L.t_storage(h), self.L.t_storage_bytes(h))

    def op(self, name, ins, *opts):
        """Handles of the outputs, or None when the operator refused."""
        fl = []
        for o in opts:
            if isinstance(o, (list, tuple)):
                fl.append(len(o))
                fl += list(o)
            else:
                fl.append(o)
        out = (C.c_int64 * 256)()
        n = self.L.rt_op(name.encode(), len(ins), (C.c_int64 * max(len(ins), 1))(*ins), len(fl), (C.c_double * max(len(fl), 1))(*[float(x) for x in fl]), out)
        return None if n < 0 else list(out[:n])

    def error(self):
        return self.L.rt_error().decode()
