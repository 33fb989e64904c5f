import ctypes as C
import cppbuild

P = "mllm/engine/prefix_cache/"


def load():
    so = cppbuild.build("prefix", repo=[P + f + ".cpp" for f in ("RadixTree", "ZenFS", "TLB", "HaHaHash", "Allocator", "Cache")] + [
        "mllm/nn/lmcache/PrefixCache.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/TensorStorage.cpp", "mllm/core/DataTypes.cpp",
        "mllm/core/DeviceTypes.cpp", "mllm/utils/Log.cpp", "third_party/xxHash/src/xxhash.c", "third_party/xxHash/src/xxh_x86dispatch.c"],
        wrap=["stubs/tensor_stub.cpp", "c01_prefix.cpp"], san=True)
    L = C.CDLL(so)
    vp, i, u, s = C.c_void_p, C.c_int, C.c_uint32, C.c_char_p
    i64p, u32p, ip = C.POINTER(C.c_int64), C.POINTER(u), C.POINTER(i)
    for name, res, args in [
        ("tree_new", vp, [i]), ("tree_del", None, [vp]), ("tree_clear", None, [vp]),
        ("tree_insert", i, [vp, i64p, i, C.c_int64, i, u32p, u32p]),
        ("tree_search", i, [vp, i64p, i, C.c_int64, i, u32p, u32p, ip, i]), ("tree_dot", i, [vp]),
        ("zen_new", vp, [i, i, i, i, i, i, s]), ("zen_recover", vp, [s]), ("zen_del", None, [vp]), ("zen_malloc", u, [vp]),
        ("zen_free", None, [vp, u]), ("zen_access", vp, [vp, u]), ("zen_prefetch", None, [vp, u]), ("zen_purge", None, [vp, u]),
        ("zen_finalize", None, [vp]), ("dtype_bytes", i, [i]), ("dtype_lanes", i, [i]),
        ("a_blob", u, [u, i, i]), ("a_page", u, [u, i, i]), ("a_lane", u, [u, i, i]),
        ("pc_new", vp, [i, i, i, i, i, i, i, ip, i, s]), ("pc_del", None, [vp]), ("pc_alloc", u, [vp, i, i]), ("pc_free", None, [vp, i, i, u]),
        ("pc_addr", vp, [vp, i, i, u]), ("pc_purge", None, [vp, i, i, u]), ("pc_prefetch", None, [vp, i, i, u]),
        ("pc_promote", None, [vp, i64p, i, C.c_int64, i, u32p, u32p]), ("pc_find", i, [vp, i64p, i, i, u32p, u32p, ip, i]),
        ("pc_window", None, [vp, i64p, i]), ("stub_reset", None, [])]:
        f = getattr(L, name)
        f.restype, f.argtypes = res, args
    return L


def i64(a):
    return (C.c_int64 * max(1, len(a)))(*a)


def u32(a):
    return (C.c_uint32 * max(1, len(a)))(*a)
