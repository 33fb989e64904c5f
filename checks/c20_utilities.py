#!/usr/bin/env python3
"""C20: command lines, generic values and reference-counted pointers keep exactly what they were given."""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
from vh import Part, need, eq

vh.reexec(san=True)
import ctypes as C
import numpy as np
import cppbuild

L = None
EXE = None

# ---------------------------------------------------------------- command lines

NAMES = ["-m", "--model", "-mv", "-n", "--num", "--n", "-t", "--temperature", "-h", "--help", "--use-cache", "-v", "--out", "-", "--"]
ZERO = {"i": 0, "l": 0, "f": 0.0, "b": False, "s": ""}


def word(s, t):
    """A word for a value of this type, and the value or None if it is not one."""
    if s.bool(0.06):
        w = s.choice(["abc", "12abc", "1.5.2", "", " ", "0x10", "99999999999999999999", "--", "1 2", "5-"])
        return (w, w) if t == "s" else (w, None)
    if t == "i":
        v = s.weighted([(4, s.int(-40, 40)), (1, s.edge(-(2**31), 2**31 - 1))])
        return s.choice(["%d", "%d", "+%d" if v >= 0 else "%d", "00%d" if v >= 0 else "%d"]) % v, v
    if t == "l":
        v = s.edge(-(2**63), 2**63 - 1)
        return "%d" % v, v
    if t == "f":
        w = s.choice(["%d" % s.int(-99, 99), "%.3f" % s.real(-9, 9), "%.2e" % s.real(-9, 9), ".5", "2.", "-0.25"])
        return w, float(np.float32(float(w)))
    if t == "b":
        w = s.choice(["true", "false", "1", "0", "yes"])
        return w, {"true": True, "1": True, "false": False, "0": False}.get(w)
    w = s.weighted([(3, s.text("abc /.=|é", 0, 12)), (1, s.choice(NAMES)), (1, "-5")])
    return w, w


def gen_args(s):
    names = s.perm(NAMES)
    opts = []
    for _ in range(s.int(0, 5)):
        t = s.choice("iilffbbss")
        fl = [names.pop() for _ in range(s.int(1, 3)) if names] if s.bool(0.7) else []
        d = s.bool(0.6)
        opts.append([t, fl, {"i": s.int(-9, 9), "l": s.int(0, 10**12), "f": s.int(-64, 64) / 8.0, "b": s.bool(), "s": s.text("ab ", 0, 5)}[t] if d else None, int(s.bool(0.25))])
    argv, pos = [], [o for o in opts if not o[1]]
    n = s.int(0, len(pos)) if s.bool(0.4) else len(pos)
    todo = [("pos", o) for o in pos[:n]] + [("opt", o) for o in opts if o[1] and s.bool(0.75) for _ in range(s.weighted([(4, 1), (1, 2)]))]
    k = iter([x for x in todo if x[0] == "pos"])
    for kind, o in s.perm(todo):
        if kind == "pos":
            kind, o = next(k)
            w, v = word(s, o[0])
            argv.append(w)
        else:
            argv.append(s.choice(o[1]))
            if o[0] != "b" and not s.bool(0.02):
                argv.append(word(s, o[0])[0])
    if s.bool(0.05):
        argv.insert(s.int(0, len(argv)), s.choice(["-zz", "--nope", "-" + s.text("xyz", 1, 3)]))
    return {"opts": opts, "argv": argv}


def value(t, w):
    """The value of a word, None if it is none."""
    if t == "s":
        return w
    if t == "b":
        return {"true": True, "1": True, "false": False, "0": False}.get(w)
    try:
        if not w or any(c not in "0123456789+-.eE" for c in w):
            return None
        if t == "f":
            return float(np.float32(float(w)))
        v, b = int(w), 31 if t == "i" else 63
        return v if -(2**b) <= v < 2**b else None
    except ValueError:
        return None


def expect(c):
    """The values, or None if the command line is refused."""
    val = [None] * len(c["opts"])
    by = {f: k for k, o in enumerate(c["opts"]) for f in o[1]}
    words, i = [], 0
    while i < len(c["argv"]):
        w = c["argv"][i]
        if w.startswith("-"):
            if w not in by:
                return None
            t = c["opts"][by[w]][0]
            if t == "b":
                v = True
            else:
                i += 1
                if i >= len(c["argv"]):
                    return None
                v = value(t, c["argv"][i])
            if v is None:
                return None
            val[by[w]] = v
        else:
            words.append(w)
        i += 1
    pos = [k for k, o in enumerate(c["opts"]) if not o[1]]
    if len(words) > len(pos):
        return "not judged"
    for k, w in zip(pos, words):
        val[k] = value(c["opts"][k][0], w)
        if val[k] is None:
            return None
    if any(o[3] and v is None for o, v in zip(c["opts"], val)):
        return None
    return [((v if v is not None else o[2] if o[2] is not None else ZERO[o[0]]), v is not None) for o, v in zip(c["opts"], val)]


def hexed(x):
    return ":" + x.encode("utf-8", "surrogateescape").hex()


def run_args(c, st):
    want = expect(c)
    if want == "not judged":
        return
    t = ""
    for ty, fl, d, req in c["opts"]:
        t += "opt %s %s %s %d\n" % (ty, hexed("|".join(fl)) if fl else "-", "-" if d is None else hexed(d) if ty == "s" else int(d) if ty == "b" else d, req)
    t += "".join("argv %s\n" % hexed(w) for w in c["argv"])
    p = subprocess.run([EXE], input=t.encode(), capture_output=True, timeout=20, env={"MALLOC_PERTURB_": "165", "PATH": os.environ["PATH"]})
    out = p.stdout.decode(errors="replace")
    if want is None:
        need(p.returncode != 0, "a wrong command line is accepted: %s", out[-300:])
        st.hit("refused")
        return
    need(p.returncode == 0, "a right command line is refused: %s%s", out[:300], p.stderr.decode(errors="replace")[-300:])
    got = out.split("\nVALUES\n")[1].split("\n")[:-1]
    exp = []
    for (ty, fl, d, req), (v, isset) in zip(c["opts"], want):
        x = hexed(v) if ty == "s" else "%.9g" % v if ty == "f" else str(int(v))
        exp += [x, str(int(isset))] + [x] * len(fl)
    same = len(got) == len(exp) and all(a == b or (":" not in a and ":" not in b and "e" + a != "e" + b and float(a) == float(b)) for a, b in zip(got, exp))
    need(same, "values %s, expected %s", got, exp)
    if len(c["argv"]) >= 2:
        st.hit("two words")
    if any(not v[1] for v in want):
        st.hit("defaults")


# ---------------------------------------------------------------- values

TYPES = ["long", "string", "obj", "pair"]


def gen_any(s):
    ops = []
    for _ in range(s.weighted([(1, s.int(1, 4)), (3, s.int(4, 25))])):
        k = s.weighted([(4, "put"), (2, "ref"), (3, "copy"), (2, "move"), (2, "build"), (2, "swap"), (1, "reset"), (2, "set"), (2, "part"), (1, "fail")])
        i = s.int(0, 3)
        if k in ("put", "set"):
            ops.append([s.choice(["copytag", "make", "emplace", "assign", "lvalue"]) if k == "put" else k, i, s.int(0, 99), s.choice(TYPES)])
        elif k == "ref":
            ops.append([s.choice(["refl", "refs", "refo"]), i, s.int(0, 1)])
        else:
            ops.append([k, i, s.int(0, 3)])
    return {"ops": ops}


def call(fn, prog):
    b = C.create_string_buffer(1 << 17)
    n = fn(prog.encode(), b, len(b))
    need(n < len(b), "harness: output too long")
    return b.value.decode().split("\n")


def run_any(c, st):
    ext = {"l0": ["long", 100], "l1": ["long", 101], "s0": ["string", "e0"], "s1": ["string", "e1"], "o0": ["obj", 200], "o1": ["obj", 201]}
    r = [None] * 4

    def show(a):
        if a is None:
            return "none"
        t, v = ext[a[1]] if a[0] == "ref" else a[1:]
        return "%s %s %s" % (a[0], t, v)

    def made(t, j):
        x = "s%d" % j + "x" * (j % 40)
        return {"long": j, "string": x, "obj": j, "pair": "%s,%d" % (x, j)}[t]

    got = call(L.c20_any, "\n".join(" ".join(map(str, o)) for o in c["ops"]))
    eq(len(got), len(c["ops"]) + 2, "steps")
    for n, o in enumerate(c["ops"]):
        k, i, j = o[:3]
        if k in ("copytag", "make", "emplace", "assign", "lvalue"):
            r[i] = ["own", o[3], made(o[3], j)]
        elif k == "set" and r[i]:
            if r[i][0] == "ref" and ext[r[i][1]][0] == o[3]:
                ext[r[i][1]][1] = made(o[3], j)
                st.hit("written through a reference")
            elif r[i][0] == "own" and r[i][1] == o[3]:
                r[i] = ["own", o[3], made(o[3], j)]
        elif k[:3] == "ref":
            r[i] = ["ref", k[3] + str(j)]
        elif k in ("copy", "build"):
            r[i] = list(r[j]) if r[j] else None
            if r[i] and i != j:
                st.hit("copied")
        elif k == "move" and i != j:
            r[i], r[j] = r[j], None
        elif k == "swap":
            r[i], r[j] = r[j], r[i]
        elif k == "reset":
            r[i] = None
        elif k == "part" and r[i] and r[i][0] == "own" and r[i][1] == "pair":
            a, b = r[i][2].split(",")
            r[i] = ["own", "string", a] if j % 2 else ["own", "obj", int(b)]
            st.hit("a part of itself")
        elif k == "fail" and got[n].split(";")[i] == "none":
            r[i] = None  # as std::any does; keeping the value is right too
        want = "".join(show(a) + ";" for a in r) + ",".join(str(ext[x][1]) for x in ("l0", "l1", "s0", "s1", "o0", "o1")) + ";"
        eq(got[n], want, "registers after step %d, %s" % (n, o))
    eq((got[-2], got[-1]), ("2", "0"), "objects alive with the registers empty, and at the end")


def gen_ptr(s):
    return {"ops": [[s.weighted([(2, "makeb"), (4, "maked"), (1, "copyb"), (2, "copyd"), (1, "moveb"), (1, "moved"), (2, "up"), (2, "upmove"), (1, "upnew"), (2, "upnewmove"), (1, "rawb"), (1, "rawd"), (1, "resetb"), (1, "resetd"), (1, "swapb"), (1, "swapd")]),
                     s.int(0, 2), s.int(0, 2)] for _ in range(s.int(1, 30))]}


def run_ptr(c, st):
    b, d, made = [None] * 3, [None] * 3, 0
    got = call(L.c20_ptr, "\n".join(" ".join(map(str, o)) for o in c["ops"]))
    eq(len(got), len(c["ops"]) + 1, "steps")
    for n, (k, i, j) in enumerate(c["ops"]):
        if k in ("makeb", "maked"):
            made += 1
            (b if k == "makeb" else d)[i] = (made, j)
        elif k in ("copyb", "rawb"):
            b[i] = b[j]
        elif k == "copyd":
            d[i] = d[j]
        elif k == "moveb" and i != j:
            b[i], b[j] = b[j], None
        elif k == "moved" and i != j:
            d[i], d[j] = d[j], None
        elif k in ("up", "upnew", "rawd"):
            b[i] = d[j]
        elif k in ("upmove", "upnewmove"):
            if d[j]:
                st.hit("moved to the base class")
            b[i], d[j] = d[j], None
        elif k == "resetb":
            b[i] = None
        elif k == "resetd":
            d[i] = None
        elif k == "swapb":
            b[i], b[j] = b[j], b[i]
        elif k == "swapd":
            d[i], d[j] = d[j], d[i]
        live = [x for x in b + d if x]
        want = "".join("%d:%d " % ((x[1], live.count(x)) if x else (-1, 0)) for x in b + d)
        eq(got[n], want + "%d%d%d %d" % (b[i] == b[j], b[i] == d[j], d[i] != d[j], len(set(live))), "pointers after step %d, %s" % (n, c["ops"][n]))
    eq(got[-1], "0", "objects alive at the end")


# ---------------------------------------------------------------- splitting

def gen_split(s):
    sep = s.weighted([(3, s.text("ab,", 1, 1)), (3, s.text("ab", 2, 4)), (1, "<image>"), (2, "")])
    parts = s.list(lambda s: s.weighted([(3, s.text("ab, \t\nx", 0, 6)), (2, sep), (1, sep[:-1]), (1, "é\x00")]), 0, 8)
    return {"s": "".join(parts), "sep": sep, "max": s.weighted([(3, -1), (2, s.int(0, 4))]) if sep else -1}


def run_split(c, st):
    s, sep = c["s"].encode(), c["sep"].encode()
    want = s.split(sep, c["max"]) if sep else s.split()
    out, lens = C.create_string_buffer(len(s) + 1), (C.c_int * (len(s) + 2))()
    n = L.c20_split(s, len(s), sep, len(sep), c["max"], out, lens)
    got, at = [], 0
    for k in range(n):
        got.append(out.raw[at:at + lens[k]])
        at += lens[k]
    eq(got, want, "parts")
    if n > 1:
        st.hit("split")


def parts():
    global L, EXE
    L = C.CDLL(cppbuild.build("c20", repo=["mllm/utils/Log.cpp"], wrap=["c20_util.cpp"], san=True))
    EXE = cppbuild.build("c20a", repo=["mllm/utils/Log.cpp"], wrap=["c20_args.cpp"], shared=False)
    return [Part("arguments", gen_args, run_args, quick=4000, cpu_limit=30), Part("values", gen_any, run_any, quick=12000, cpu_limit=10), Part("pointers", gen_ptr, run_ptr, quick=8000, cpu_limit=10), Part("split", gen_split, run_split, quick=8000, cpu_limit=10)]


if __name__ == "__main__":
    vh.main("C20", parts, "a command line of two words, a copied or converted value, a split in two", ["Command lines with more words than positional arguments are not judged."])
