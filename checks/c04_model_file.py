#!/usr/bin/env python3
"""C04: model files (v1, v2): what was stored is what is loaded; incomplete or inconsistent files are refused."""
import json, os, random, resource, shutil, signal, struct, subprocess, sys, tempfile
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"), os.path.dirname(os.path.abspath(__file__))]
import vh
vh.reexec(san=True)
import ctypes as C
import rt
import numpy as np
from vh import Part, need, eq

R, L, D, W = None, None, None, None
# type: (id, elements per block, bytes per block) - the table of the file format
TYPES = {"f32": (0, 1, 4), "f16": (1, 1, 2), "q4_0": (2, 32, 18), "q8_0": (8, 32, 34), "q4_k": (12, 256, 144), "q6_k": (14, 256, 210), "q8_k": (15, 256, 292),
         "i8": (16, 1, 1), "i16": (17, 1, 2), "i32": (18, 1, 4), "q4_0_4_4": (19, 128, 72), "q3_k": (23, 256, 110), "q2_k": (24, 256, 84), "u8": (129, 1, 1),
         "u16": (130, 1, 2), "u32": (131, 1, 4), "i64": (132, 1, 8), "u64": (133, 1, 8), "byte": (134, 1, 1), "bool": (156, 1, 1), "c64": (201, 1, 8), "c128": (202, 1, 16),
         "i8pt": (140, 1, 1), "u8pt": (142, 1, 1), "i16pt": (144, 1, 2), "u16pt": (146, 1, 2)}
H2, P2 = "<ii512sIQ", "<IIQQQ16i256s"
PARTS = ["model", "layers", "0", "11", "self_attn", "mlp", "q_proj", "weight", "bias", "权重", "é", " ", "_x"]


def gname(s, k, lo=0):
    n = ".".join(s.choice(PARTS) for _ in range(s.int(lo, 5)))
    if s.bool(.1):
        n += "n" * (s.choice([100, 200, 254, 255]) - len(n.encode()) - len(str(k)) if len(n.encode()) < 90 else 3)
    return n + str(k) if k or n == "" and s.bool(.9) else n


def gtensor(s, k, types=None):
    t = s.choice(types or sorted(TYPES))
    lanes = TYPES[t][1]
    rank = s.weighted([(4, 1), (6, 2), (4, 3), (3, 4), (1, 5), (1, 16)])
    sh = [s.weighted([(3, 1), (5, 2), (5, 3), (2, 5), (1, 8)]) for _ in range(rank)]
    while np.prod(sh) > 600:
        sh[int(np.argmax(sh))] = 1
    if s.bool(.04):
        sh[s.int(0, rank - 1)] = 0
    if lanes > 1:
        sh[-1] = lanes * s.int(1, 2) if np.prod(sh) < 20 else lanes
        while np.prod(sh) > 4096:
            sh[int(np.argmax(sh[:-1]))] = 1
    return {"name": gname(s, k), "t": t, "shape": sh, "seed": s.seed()}


def gset(s, lo=0, hi=8, types=None):
    return [gtensor(s, k, types) for k in range(s.int(lo, hi))]


def nbytes(t, shape=None):
    i, lanes, by = TYPES[t["t"]]
    return int(np.prod(t["shape"] if shape is None else shape)) // lanes * by


def raw(t):
    return random.Random(t["seed"]).randbytes(nbytes(t))


# ---- the formats, written down independently
def parse_v1(b):
    """name -> (type, bytes), or None when the file is not well formed."""
    if len(b) < 12:
        return None
    m, size = struct.unpack_from("<iQ", b)
    if m != 20012 or size > len(b) - 12:
        return None
    p, end, out = 12, 12 + size, {}
    while p < end:
        if end - p < 4:
            return None
        n, = struct.unpack_from("<I", b, p)
        p += 4
        if end - p < n + 20:
            return None
        name = b[p:p + n]
        ln, off, ty = struct.unpack_from("<QQi", b, p + n)
        p += n + 20
        if off > len(b) or ln > len(b) - off or name in out:
            return None
        out[name] = (ty, b[off:off + ln], None)
    return out


def parse_v2(b):
    if len(b) < 532:
        return None
    m, v, _, n, off = struct.unpack_from(H2, b)
    if m != 0x519A or v != 2 or off > len(b) or n * 352 > len(b) - off:
        return None
    out = {}
    for i in range(n):
        d = struct.unpack_from(P2, b, off + i * 352)
        _, ty, ln, o, rank = d[:5]
        name = d[21].split(b"\0")[0]
        if rank > 16 or name in out or o > len(b) or ln > len(b) - o or any(x < 0 for x in d[5:5 + rank]):
            return None
        out[name] = (ty, b[o:o + ln], list(d[5:5 + rank]))
    return out


def lay(s):
    """Freedoms of a writer: gaps, order of the data, room after the tensor."""
    return {"gap": s.choice([0, 0, 1, 7, 32, 64]), "shuffle": s.bool(.3), "room": s.choice([0, 0, 0, 4, 64]), "extra": s.choice([0, 0, 16, 100]), "tail": s.choice([0, 0, 9]),
            "slots": s.choice([0, 0, 0, 3])}


def build(ver, ts, g, seed):
    rnd = random.Random(seed)
    if ver == 1:
        dsz = sum(4 + len(t["name"].encode()) + 20 for t in ts)
        pos = 12 + dsz
    else:
        base = 532 + g["extra"]
        pos = base + 352 * (len(ts) + g["slots"])
    order = list(range(len(ts)))
    if g["shuffle"]:
        rnd.shuffle(order)
    offs, body = {}, {}
    start = pos
    for i in order:
        pos += g["gap"]
        offs[i] = pos
        body[pos] = raw(ts[i])
        pos += len(body[pos]) + (g["room"] if ver == 2 else 0)
    out = bytearray(rnd.randbytes(pos + g["tail"]))
    if ver == 1:
        struct.pack_into("<iQ", out, 0, 20012, dsz)
        p = 12
        for i, t in enumerate(ts):
            n = t["name"].encode()
            rec = struct.pack("<I", len(n)) + n + struct.pack("<QQi", nbytes(t), offs[i], TYPES[t["t"]][0])
            out[p:p + len(rec)] = rec
            p += len(rec)
    else:
        struct.pack_into(H2, out, 0, 0x519A, 2, b"m", len(ts), base)
        for i, t in enumerate(ts):
            struct.pack_into(P2, out, base + 352 * i, i, TYPES[t["t"]][0], nbytes(t) + g["room"], offs[i], len(t["shape"]),
                             *(t["shape"] + [0] * (16 - len(t["shape"]))), t["name"].encode())
    for o, b in body.items():
        out[o:o + len(b)] = b
    return bytes(out)


def content(h):
    i = R.info(h)
    n = L.t_storage_bytes(h)
    return i["dtype"], list(i["shape"]), (C.string_at(L.t_ptr(h), n) if n else b"")


def same_as(pf, ts, ver, what):
    """The loaded file pf holds exactly the tensors ts."""
    eq(L.pf_size(pf), len(ts), what + ": number of tensors")
    for t in ts:
        n = t["name"].encode()
        need(L.pf_has(pf, n, len(n)), "%s: %r is missing", what, t["name"])
        ty, sh, b = content(L.pf_pull(pf, n, len(n)))
        eq(ty, TYPES[t["t"]][0], f"{what}: type of {t['name']!r}")
        eq(sh, t["shape"] if ver == 2 else [int(np.prod(t["shape"]))], f"{what}: shape of {t['name']!r}")
        need(b == raw(t), "%s: the bytes of %r differ", what, t["name"])


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=D)
        return self.d + "/m.mllm"

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        R.clear()


# ---- write, then read
def gview(s, t):
    """How the tensor handed to the writer is laid out: its own storage, or a window of a larger one."""
    if TYPES[t["t"]][1] > 1 or t["t"] not in ("f32", "f16", "i8", "i16", "i32", "i64", "u8"):
        return None
    r = s.weighted([(6, None), (1, "rows"), (1, "cut"), (1, "perm")])
    return r


def place(t, how):
    b, i = raw(t), TYPES[t["t"]][0]
    sh = t["shape"]
    if how is None or 0 in sh:
        h = L.t_new(i, len(sh), R.ints(sh))
        if b:
            C.memmove(L.t_storage(h), b, len(b))
        return h
    x = np.frombuffer(b, dtype=f"V{TYPES[t['t']][2]}").reshape(sh)
    npd = {1: np.uint8, 2: np.uint16, 4: np.uint32, 8: np.uint64}[TYPES[t["t"]][2]]
    x = x.view(npd).reshape(sh)
    if how == "rows":
        base = np.zeros([sh[0] + 3] + sh[1:], npd)
        base[2:2 + sh[0]] = x
        off, st = 2 * int(np.prod(sh[1:])), [int(np.prod(sh[k + 1:])) for k in range(len(sh))]
    elif how == "cut":
        base = np.zeros(sh[:-1] + [sh[-1] + 2], npd)
        base[..., 1:-1] = x
        full = sh[:-1] + [sh[-1] + 2]
        off, st = 1, [int(np.prod(full[k + 1:])) for k in range(len(sh))]
    else:
        base = np.ascontiguousarray(x.T)
        full = sh[::-1]
        off, st = 0, [int(np.prod(full[len(sh) - k:])) for k in range(len(sh))]
    h = L.t_new(i, base.ndim, R.ints(base.shape))
    C.memmove(L.t_storage(h), base.tobytes(), base.nbytes)
    return R.view(h, off, sh, st)


def gen_write(s):
    ts = gset(s)
    return {"ver": s.int(1, 2), "ts": ts, "how": [gview(s, t) for t in ts], "drop": [k for k in range(len(ts)) if s.bool(.1)], "map": s.bool(), "seed": s.seed(), "again": s.bool(.3)}


def write(case, ts, path):
    f = L.pf_new(case["ver"])
    eq(L.pf_version(f), case["ver"], "version")
    for t, how in zip(ts, case["how"]):
        n = t["name"].encode()
        L.pf_push(f, n, len(n), place(t, how))
    gone = [ts[k] for k in case.get("drop", []) if k < len(ts)]
    for t in gone:
        n = t["name"].encode()
        L.pf_remove(f, n, len(n))
        need(not L.pf_has(f, n, len(n)), "a removed tensor is still there")
    rc = L.pf_write(f, case["ver"], path.encode())
    L.pf_free(f)
    return rc, [t for t in ts if t not in gone]


def run_write(case, st):
    with Tmp() as path:
        rc, ts = write(case, case["ts"], path)
        eq(rc, 0, "write")
        b = open(path, "rb").read()
        p = (parse_v1 if case["ver"] == 1 else parse_v2)(b)
        need(p is not None, "the written file is not well formed")
        eq(len(p), len(ts), "number of tensors in the file")
        for t in ts:
            ty, data, sh = p[t["name"].encode()]
            eq(ty, TYPES[t["t"]][0], "type in the file")
            need(data == raw(t), "the file has other bytes for %r", t["name"])
            if case["ver"] == 2:
                eq(sh, t["shape"], "shape in the file")
        f = L.pf_read(case["ver"], path.encode(), int(case["map"]))
        need(f > 0, "the written file is refused")
        same_as(f, ts, case["ver"], "read back")
        if case["again"]:
            L.pf_write(f, case["ver"], (path + "2").encode())
            q = (parse_v1 if case["ver"] == 1 else parse_v2)(open(path + "2", "rb").read())
            eq({k: v[:2] for k, v in q.items()}, {k: v[:2] for k, v in p.items()}, "a loaded file written again")
        R.clear()
        L.pf_free(f)
    if len(ts) > 1:
        st.hit(f"write v{case['ver']}")


# ---- files of other writers
def gen_read(s):
    return {"ver": s.int(1, 2), "ts": gset(s), "g": lay(s), "map": s.bool(), "seed": s.seed()}


def run_read(case, st):
    with Tmp() as path:
        open(path, "wb").write(build(case["ver"], case["ts"], case["g"], case["seed"]))
        f = L.pf_read(case["ver"], path.encode(), int(case["map"]))
        need(f > 0, "a well-formed file is refused")
        same_as(f, case["ts"], case["ver"], "read")
        R.clear()
        L.pf_free(f)
    if len(case["ts"]) > 1:
        st.hit(f"read v{case['ver']}")


# ---- the Python writer
NPT = {"f32": "f4", "f16": "f2", "i8": "i1", "i16": "i2", "i32": "i4", "i64": "i8", "u8": "u1", "bool8": "?", "c64": "c8", "c128": "c16"}


def gen_py(s):
    ts = []
    for k in range(s.int(0, 7)):
        src = s.choice(["torch", "torch", "numpy", "mllm"])
        t = gtensor(s, k, {"torch": ["f32", "f16", "i8", "i16", "i32", "i64", "u8"], "numpy": ["f32", "f16", "i8", "i16", "i32", "i64", "u8", "c64", "c128"]}.get(src))
        if src == "torch":
            t["shape"] = [max(x, 1) for x in t["shape"]]
        if src != "mllm" and s.bool(.08):
            t["shape"] = []
        t.update(src=src, lay=s.choice(["C", "C", "T", "S", "P"]))
        if s.bool(.03):
            t["name"] = "L" * s.choice([255, 256, 257, 300])
        ts.append(t)
    return {"mode": s.choice(["static", "streaming"]), "ts": ts, "cap": s.int(max(1, len(ts) - 2), len(ts) + 3), "map": s.bool()}


def worker():
    global W
    if W is None or W.poll() is not None:
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
        W = subprocess.Popen(["/opt/mllm-venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c04_writer.py"), vh.REPO], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env, OMP_NUM_THREADS="1"))
    return W


def run_py(case, st):
    ts = case["ts"]
    if len({t["name"] for t in ts}) < len(ts):
        return
    w = worker()
    with Tmp() as path:
        q = {"mode": case["mode"], "model": "m", "cap": case["cap"], "path": path, "ts": [dict(t, raw=raw(t).hex(), np=NPT.get(t["t"], ""), dtype=TYPES[t["t"]][0]) for t in ts]}
        try:
            w.stdin.write(json.dumps(q) + "\n")
            w.stdin.flush()
            line = w.stdout.readline()
        except OSError:
            line = ""
        need(line, "the writer process died: %s", w.stderr.read()[-500:] if not line else "")
        o = json.loads(line)
        long = [i for i, t in enumerate(ts) if len(t["name"].encode()) > 256]
        if case["mode"] == "static":
            if long:
                need("error" in o, "a name that does not fit is stored cut off")
                st.hit("name refused")
                return
            need("error" not in o, "the writer fails: %s", o.get("error"))
        else:
            need("error" not in o, "the writer fails: %s", o.get("error"))
            keep, bad = [], {i for i, _ in o["refused"]}
            for i, t in enumerate(ts):
                if i in long or len(keep) >= case["cap"]:
                    need(i in bad, "%s is not refused", "a name that does not fit" if i in long else f"tensor {i} although there is room for {case['cap']}")
                    st.hit("refused")
                else:
                    need(i not in bad, "tensor %d is refused: %s", i, o["refused"])
                    keep.append(t)
            ts = keep
        f = L.pf_read(2, path.encode(), int(case["map"]))
        need(f > 0, "the written file is refused")
        same_as(f, ts, 2, "read")
        R.clear()
        L.pf_free(f)
    if len(ts) > 1:
        st.hit(case["mode"])


# ---- broken files and failing disks, each in a process of its own
def child(fn):
    """('ok', value) | ('refused',) | ('broken', why) of fn() in a forked child."""
    r, w = os.pipe()
    e = tempfile.TemporaryFile(dir=D)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(e.fileno(), 2)
            os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
            v = fn()
            os.write(w, json.dumps(v).encode()[:4000])
            os._exit(0)
        except BaseException as ex:  # noqa
            os.write(2, repr(ex).encode())
            os._exit(9)
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    e.seek(0)
    err = e.read().decode(errors="replace")
    e.close()
    if os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 0:
        v = json.loads(b)
        return ("refused",) if v in ("refused", -1) else ("ok", v)
    if os.WIFSIGNALED(stt) and os.WTERMSIG(stt) == signal.SIGABRT and "Sanitizer" not in err and "runtime error" not in err:
        return ("refused",)
    return ("broken", f"status {stt}: {err[:300]}")


def gen_broken(s):
    ver = s.int(1, 2)
    ts = gset(s, 1, 4)
    k = s.weighted([(4, "cut"), (5, "field"), (3, "flip"), (1, "magic"), (1, "noise")])
    return {"ver": ver, "ts": ts, "g": lay(s), "map": s.bool(), "seed": s.seed(), "kind": k, "pos": s.real(0, 1), "cutin": s.choice(["any", "header", "desc", "data", "last"]),
            "which": s.int(0, 3), "field": s.choice(["len", "off", "name", "shape", "rank", "count", "table"]),
            "val": s.choice([0, 1, 3, 5, 17, 255, 4096, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]), "add": s.bool()}


def broken_bytes(case):
    ver, ts = case["ver"], case["ts"]
    b = bytearray(build(ver, ts, case["g"], case["seed"]))
    k, n = case["kind"], len(b)
    rnd = random.Random(case["seed"] + 1)
    if k == "cut":
        hdr = 12 if ver == 1 else 532
        desc = hdr + sum(len(t["name"].encode()) + 24 for t in ts) if ver == 1 else hdr + case["g"]["extra"] + 352 * len(ts)
        lo, hi = {"any": (0, n), "header": (0, hdr), "desc": (hdr, desc), "data": (desc, n), "last": (n - 20, n)}[case["cutin"]]
        return bytes(b[:max(0, min(n, int(lo + case["pos"] * (hi - lo))))])
    if k == "magic":
        b[rnd.randrange(4 if ver == 1 else 8)] ^= 1 << rnd.randrange(8)
    elif k == "noise":
        return rnd.randbytes(rnd.randrange(0, 600))
    elif k == "flip":
        end = 12 + sum(len(t["name"].encode()) + 24 for t in ts) if ver == 1 else 532 + case["g"]["extra"] + 352 * len(ts)
        for _ in range(rnd.randrange(1, 4)):
            b[rnd.randrange(end)] ^= 1 << rnd.randrange(8)
    else:
        w, f = case["which"] % len(ts), case["field"]

        def put(fmt, pos):
            m = 1 << 8 * struct.calcsize(fmt)
            v = (struct.unpack_from("<" + fmt, b, pos)[0] + case["val"] if case["add"] else case["val"]) % m
            if case["add"] and case["val"] >= 1 << 62:
                v = (struct.unpack_from("<" + fmt, b, pos)[0] - 1) % m
            struct.pack_into("<" + fmt, b, pos, v)
        if ver == 1:
            p = 12 + sum(len(t["name"].encode()) + 24 for t in ts[:w])
            q = p + 4 + len(ts[w]["name"].encode())
            put(*{"len": ("Q", q), "off": ("Q", q + 8), "name": ("I", p)}.get(f, ("Q", 4)))
        else:
            p = 532 + case["g"]["extra"] + 352 * w
            put(*{"len": ("Q", p + 8), "off": ("Q", p + 16), "shape": ("I", p + 32 + 4 * (case["which"] % max(1, len(ts[w]["shape"])))), "rank": ("Q", p + 24),
                  "count": ("I", 520), "table": ("Q", 524), "name": ("Q", p + 96)}[f])
    return bytes(b)


def expected(ver, b):
    """('refuse') | ('load', {name: (type, shape, bytes)}) | ('either') for a type of unknown size."""
    p = (parse_v1 if ver == 1 else parse_v2)(b)
    if p is None:
        return "refuse", None
    by = {i: (lanes, n) for i, lanes, n in TYPES.values()}
    out = {}
    odd = False
    for name, (ty, data, sh) in p.items():
        if ty not in by:
            odd = True
            continue
        lanes, n = by[ty]
        if ver == 1:
            if len(data) % n:
                odd = True      # not a whole number of elements: may be refused
            data = data[:len(data) // n * n]
            out[name] = (ty, [len(data) // n * lanes], data)
        else:
            cnt = 1
            for x in sh:
                cnt *= x
            if cnt % lanes or cnt // lanes * n > len(data):
                return "refuse", None
            out[name] = (ty, sh, data[:cnt // lanes * n])
    return ("either" if odd else "load"), out


def run_broken(case, st):
    b = broken_bytes(case)
    what, exp = expected(case["ver"], b)
    with Tmp() as path:
        open(path, "wb").write(b)

        def go():
            f = L.pf_read(case["ver"], path.encode(), int(case["map"]))
            if f < 0:
                return "refused"
            if what == "refuse":
                return "accepted"
            if what == "load":
                eq(L.pf_size(f), len(exp), "number of tensors")
            for name, (ty, sh, data) in exp.items():
                if not L.pf_has(f, name, len(name)):
                    return f"{name!r} is missing"
                got = content(L.pf_pull(f, name, len(name)))
                if got != (ty, sh, data):
                    return f"{name!r} is {got[:2]} {got[2][:40]!r}"
            return ""
        r = child(go)
    need(r[0] != "broken", "reading outside of the file or a crash: %s", r[1:])
    if r[0] == "ok":
        need(what != "refuse", "a %s file is accepted", case["kind"])
        eq(r[1], "", "what was loaded")
    else:
        need(what != "load", "a well-formed file is refused (%s)", case["kind"])
    st.hit(f"{case['kind']} {what}")


def gen_disk(s):
    ts = gset(s, 1, 5)
    return {"ver": s.int(1, 2), "ts": ts, "how": [None] * len(ts), "pos": s.real(0, 1), "full": s.bool(.2), "toolong": s.weighted([(5, None), (1, 256), (1, 300)])}


def run_disk(case, st):
    """A write that could not be completed, or cannot be represented, is not reported as done."""
    ts = [dict(t) for t in case["ts"]]
    if case["toolong"] and case["ver"] == 2:
        ts[0]["name"] = "z" * case["toolong"]
    with Tmp() as path:
        r = child(lambda: write(case, ts, path)[0])
        if case["toolong"] and case["ver"] == 2:
            if r[0] == "refused":
                st.hit("name refused")
                return
            p = parse_v2(open(path, "rb").read())
            need(r[0] == "ok" and p is not None and ts[0]["name"].encode() in p, "a name that does not fit is stored cut off (%s)", r)
            return
        eq(r, ("ok", 0), "write without a fault")
        whole = os.path.getsize(path)
        lim = int(case["pos"] * whole)
        if lim >= whole:
            return

        def go():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
            return write(case, ts, path + "2")[0] or "done"
        r = child((lambda: write(case, ts, "/dev/full")[0] or "done") if case["full"] else go)
        need(r[0] == "refused", "a write that could not be completed is reported as done (%s)", r)
        st.hit("disk full" if case["full"] else "limit")


def parts():
    global R, L, D
    D = tempfile.mkdtemp(prefix="c04-")
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(D, ignore_errors=True))
    R = rt.RT("c04", ["Contiguous"], ["c04_param.cpp"], extra=["mllm/backends/base/PluginSystem.cpp"])
    L = R.L
    for f, r, a in [("pf_new", C.c_int64, [C.c_int]), ("pf_free", None, [C.c_int64]), ("pf_push", None, [C.c_int64, C.c_char_p, C.c_int, C.c_int64]),
                    ("pf_has", C.c_int, [C.c_int64, C.c_char_p, C.c_int]), ("pf_remove", None, [C.c_int64, C.c_char_p, C.c_int]), ("pf_size", C.c_int, [C.c_int64]),
                    ("pf_version", C.c_int, [C.c_int64]), ("pf_pull", C.c_int64, [C.c_int64, C.c_char_p, C.c_int]), ("pf_write", C.c_int, [C.c_int64, C.c_int, C.c_char_p]),
                    ("pf_read", C.c_int64, [C.c_int, C.c_char_p, C.c_int])]:
        getattr(L, f).restype, getattr(L, f).argtypes = r, a
    kw = dict(cpu_limit=20)
    return [Part("write", gen_write, run_write, 6000, shards=4, **kw), Part("read", gen_read, run_read, 8000, shards=4, **kw), Part("python", gen_py, run_py, 2500, shards=4, **kw),
            Part("broken", gen_broken, run_broken, 4000, shards=8, **kw), Part("disk", gen_disk, run_disk, 700, shards=4, **kw)]


if __name__ == "__main__":
    vh.main("C04", parts, "a case counts when at least two tensors were stored and loaded again, a file was damaged, or a fault hit the write",
            ["tensors of the types the runtime knows the size of; sparse files above a few hundred kB are not generated"])
