#!/usr/bin/env python3
"""C17: loops given to the thread pool run every index exactly once before they return, whoever idles the pool."""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
from vh import Part, need

vh.reexec()
import cppbuild

EXE = {}


def gen(s):
    users = []
    lone = s.bool(0.3)
    for _ in range(1 if lone else s.int(1, 4)):
        ops = []
        for _ in range(s.weighted([(2, s.int(1, 3)), (3, s.int(2, 12)), (1, s.int(20, 60))])):
            k = s.weighted([(8, "loop"), (2, "idle"), (2, "wake"), (1, "nap"), (1, "slot"), (1, "drop")])
            if k == "loop":
                a = s.weighted([(4, 0), (2, s.int(-5, 40))])
                step = s.weighted([(4, 1), (3, s.int(2, 7)), (1, 32)])
                n = s.weighted([(1, 0), (1, 1), (6, s.int(2, 24)), (2, s.int(25, 200))])
                ops.append(["loop", a, a + n * step - s.int(0, step - 1) if n else a - s.int(0, 3), step, s.weighted([(8, 0), (1, s.int(1, 60))])])
            elif k == "nap":
                ops.append(["nap", s.int(0, 200)])
            else:
                ops.append([k])
        users.append(ops)
    return {"threads": s.weighted([(1, 0), (1, 1), (3, 2), (4, s.int(3, 6)), (1, 8)]), "active": s.weighted([(1, 0), (9, 1)]), "end": s.int(0, 2), "meet": int(s.bool(0.3)), "users": users}


def run(c, st, exe):
    t = "%d %d %d %d %d\n" % (c["threads"], c["active"], c["end"], c["meet"] and c["threads"] > 0, len(c["users"]))
    for u in c["users"]:
        t += "".join(" ".join(map(str, o)) + "\n" for o in u) + "done\n"
    try:
        p = subprocess.run([EXE[exe]], input=t.encode(), capture_output=True, timeout=25, env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66"))
    except subprocess.TimeoutExpired as e:
        need(False, "the users of the pool do not end in 25 s (%s)", (e.stdout or b"").decode()[:200])
    out = p.stdout.decode()
    need(p.returncode == 0, "%s%s", out[:300], p.stderr.decode(errors="replace")[:1500] or "ended with %d" % p.returncode)
    need(out.startswith("OK"), "output %r", out)
    loops = [o for u in c["users"] for o in u if o[0] == "loop"]
    if out.strip() == "OK 1":
        st.hit("worked by several threads")
    if any((o[2] - o[1]) % o[3] for o in loops):
        st.hit("uneven step")
    if len(c["users"]) > 1:
        st.hit("several users")
    if any(o[0] == "idle" for u in c["users"] for o in u):
        st.hit("idled")
    if c["meet"] and c["active"] and c["threads"] > 1:
        st.hit("all threads met")
    if loops:
        st.hit("loops")


def parts():
    src = dict(repo=["mllm/engine/HpcThreadPool.cpp", "mllm/utils/Log.cpp"], wrap=["c17_pool.cpp"], shared=False)
    EXE["plain"] = cppbuild.build("c17", **src)
    EXE["tsan"] = cppbuild.build("c17t", flags=("-O1", "-fsanitize=thread"), libs=["-fsanitize=thread"], **src)
    return [Part("pool", gen, lambda c, st: run(c, st, "plain"), quick=4000, cpu_limit=60), Part("races", gen, lambda c, st: run(c, st, "tsan"), quick=2000, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C17", parts, "a script of users of the pool with at least one loop", ["Loops are given to the pool on a slot its user holds, or on none, and bodies do not start loops of their own."])
