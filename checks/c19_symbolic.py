#!/usr/bin/env python3
"""C19: symbolic expressions mean what arithmetic says, however they are written, built or printed."""
import os, random, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
from vh import Part, need, eq

vh.reexec(san=True)
import ctypes as C
import numpy as np
import cppbuild

L = None
F = np.float32
NAMES = ["a", "B", "x1", "_k", "seq_len", "ceiling", "abs_", "floor2", "Ceil", "H_0_w", "i", "e5"]
FN = {"ceil": np.ceil, "floor": np.floor, "abs": np.abs}
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 0}


class Undefined(Exception):
    pass


def gen(s):
    def leaf():
        k = s.weighted([(4, "i"), (3, "f"), (5, "v")])
        if k == "i":
            return ["i", str(s.weighted([(6, s.int(0, 12)), (2, s.int(0, 999999)), (1, s.edge(0, 2**31 - 1))]))]
        if k == "v":
            return ["v", s.choice(NAMES)]
        n = s.int(0, 5)
        whole, frac = ("%d" % s.int(0, 10**n - 1) if n else s.choice(["", "0"])), s.int(0, 6 - max(n, 1))
        t = whole + "." + "".join(str(s.int(0, 9)) for _ in range(frac))
        t = t if t != "." else "0.5"
        return ["f", t if float(t) == 0 or float(t) >= 1e-4 else "0.25"]

    def tree(d):
        if d == 0 or s.bool(0.12):
            return leaf()
        k = s.weighted([(10, "b"), (2, "u"), (1, "%")])
        if k == "u":
            return ["u", s.choice(["ceil", "floor", "abs"]), tree(d - 1)]
        if k == "%":
            return ["b", "%", tree(min(d - 1, 1)), tree(min(d - 1, 1))]
        return ["b", s.choice("+-*/"), tree(d - 1), tree(d - 1)]

    def chain():
        t = tree(s.int(0, 2))
        for _ in range(s.weighted([(3, s.int(1, 12)), (1, s.int(20, 80))])):
            o = s.choice("+-*/")
            t = ["b", o, t, tree(s.weighted([(4, 0), (2, 1), (1, 2)]))] if s.bool(0.85) else ["b", o, tree(1), t]
        return t

    n = len(NAMES)
    val = lambda: s.weighted([(4, float(s.int(-20, 20))), (4, s.int(-8000, 8000) / 64.0), (1, float(s.int(-10**9, 10**9))), (1, 0.1)])
    return {"tree": tree(s.int(1, 5)) if s.bool(0.6) else chain(), "vals": [[val() for _ in range(n)] for _ in range(s.int(1, 3))], "style": s.seed(), "parsed": s.weighted([(5, 1.0), (2, 0.3), (1, 0.0)]), "more": s.weighted([(5, 0.0), (1, 0.2)]),
            "before": s.weighted([(3, None), (1, ["A", s.choice(["x", "1 + 2 * ceil(a)", "(3 % 2)"])]), (1, ["L", s.int(0, 6), s.choice(["x", "12.5 + foo * ceil(a)", "((3 % 2"])])])}


def value(t, d):
    k = t[0]
    if k == "i":
        return F(int(t[1]))
    if k == "f":
        return F(float(t[1]))
    if k == "v":
        return F(d[NAMES.index(t[1])])
    if k == "u":
        return F(FN[t[1]](value(t[2], d)))
    a, b = value(t[2], d), value(t[3], d)
    if t[1] == "%":
        if not (abs(a) < 2**31 and abs(b) < 2**31) or int(b) == 0:
            raise Undefined()
        m = abs(int(a)) % abs(int(b))
        return F(-m if int(a) < 0 else m)
    return F({"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide}[t[1]](a, b))


def text(t, r, more):
    sp = lambda: r.choice(["", " ", " ", "  "])

    def go(t, need_prec, enclosed):
        """need_prec: the expression has to bind at least this tight."""
        k = t[0]
        if k in "ifv":
            out, ok = t[1], True
        elif k == "u":
            return t[1] + sp() + "(" + sp() + go(t[2], 0, True) + sp() + ")"
        elif t[1] == "%":
            out, ok = go(t[2], 3, False) + sp() + "%" + sp() + go(t[3], 3, False), enclosed
        else:
            p = PREC[t[1]]
            out, ok = go(t[2], p, False) + sp() + t[1] + sp() + go(t[3], p + 1, False), p >= need_prec
        return out if ok and not r.random() < more else "(" + sp() + (go(t, 0, True) if k == "b" and t[1] == "%" and not ok else out) + sp() + ")"

    return sp() + go(t, 0, True) + sp()


def program(c):
    r = random.Random(c["style"])
    out = []

    def build(t):
        if r.random() < c["parsed"]:
            x = text(t, r, c["more"])
            b = c["before"]
            if b and b[0] == "A":
                out.append("A %s\x1f%s" % (b[1], x))
            elif b:
                out.append("L %d %s\x1f%s" % (b[1], b[2], x))
            else:
                out.append("P " + x)
        elif t[0] == "v":
            out.append("P " + t[1])
        elif t[0] in "if":
            out.append(t[0] + " " + t[1])
        elif t[0] == "u":
            build(t[2])
            out.append({"ceil": "c", "floor": "l", "abs": "a"}[t[1]])
        else:
            build(t[2])
            build(t[3])
            out.append(t[1])

    build(c["tree"])
    return "\n".join(out)


def has(t, f):
    return f(t) or any(has(x, f) for x in t[1:] if isinstance(x, list))


def run(c, st):
    with np.errstate(all="ignore"):
        try:
            want = [value(c["tree"], d) for d in c["vals"]]
        except Undefined:
            st.note("undefined remainder")
            return
    prog = program(c)
    n = len(want)
    vals = np.asarray(c["vals"], F)
    out, ints = np.zeros(2 * n, F), np.zeros(n, np.int32)
    fits = np.asarray([np.isfinite(w) and abs(w) < 2**31 for w in want], np.int32)
    buf = C.create_string_buffer(1 << 18)
    p = lambda a: a.ctypes.data_as(C.c_void_p)
    flags = L.c19_run(prog.encode(), "\n".join(NAMES).encode(), p(vals), n, len(NAMES), p(out), p(ints), p(fits), buf, len(buf))
    need(flags >= 0, "a part of %r prints differently after it was combined", prog)
    printed = buf.value.decode()
    same = lambda a, b: a == b or (np.isnan(a) and np.isnan(b))
    for i, w in enumerate(want):
        need(same(out[2 * i], w), "%r with %s is %r, not %r", prog, dict(zip(NAMES, c["vals"][i])), out[2 * i], w)
        if fits[i]:
            eq(int(ints[i]), int(np.trunc(w)), "%r as an integer" % prog)
        need(same(out[2 * i + 1], w), "%r prints as %r, which is %r, not %r", prog, printed, out[2 * i + 1], w)
    static = not has(c["tree"], lambda t: t[0] == "v")
    eq((flags & 1, flags >> 1 & 1, flags >> 2), (int(static), int(static), 1), "static, static after printing, and values left")
    ops = [0]
    has(c["tree"], lambda t: (ops.__setitem__(0, ops[0] + (t[0] == "b")), False)[1])
    if ops[0] >= 2:
        st.hit("two operators")
    if ops[0] >= 10:
        st.hit("ten operators")
    if "%" in prog:
        st.hit("remainder")
    if static:
        st.hit("static")


def parts():
    global L
    L = C.CDLL(cppbuild.build("c19", repo=["mllm/compile/symbolic_expr/Eval.cpp", "mllm/compile/symbolic_expr/Parser.cpp"], wrap=["c19_sym.cpp"], san=True))
    return [Part("expressions", gen, run, quick=20000, cpu_limit=5)]


if __name__ == "__main__":
    vh.main("C19", parts, "an expression with at least two operators", ["Literals have at most six significant digits where the printed form is parsed again; % is written in parentheses."])
