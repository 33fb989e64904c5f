#!/usr/bin/env python3
"""C21: the C interface relays requests to the session they name and answers to who asks, and owns nothing for longer than it should."""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
from vh import Part, need, eq, Violation

vh.reexec()
import json
import cppbuild

EXE = None
TEXT = "abcxyz \"\\/\n\t\u00e9\u4f60\U0001f600{}[]\x00"


def gen_round(s, k):
    setup = []
    for i in range(s.int(1, 4)):
        h = "h%d.%d" % (k, i)
        setup.append([s.choice(["qwen", "ocr"]), h, s.weighted([(8, s.text("/abc\u00e9", 0, 6)), (1, "bad/x"), (0.7, None)])])
        for _ in range(s.weighted([(1, 0), (5, 1), (1, 2)])):
            setup.append(["insert", s.weighted([(6, s.choice(["m0", "m1", "m\u00e9"])), (0.5, None)]), s.weighted([(8, h), (0.5, "code"), (0.5, "none"), (1, "h0.0")])])
        if s.bool(0.5):
            setup.append(["free", h])
    clients = []
    for c in range(s.weighted([(2, 1), (3, s.int(2, 4))])):
        acts, wait = [], []
        for j in range(s.int(1, 6)):
            rid = "r%d.%d.%d%s" % (k, c, j, s.choice(["", "\u00e9"]))
            if s.bool(0.1):
                acts.append(["send", s.choice(["m0", None, ""]), s.weighted([(2, None), (3, s.choice(["", "{", "[1]", "7", "null", '{"id": 5}']))])])
            m = s.weighted([(8, s.choice(["m0", "m1", "m\u00e9"])), (1, "nope")])
            q = {"id": rid, "model": m, "script": [[s.text(TEXT, 0, 5) * s.weighted([(30, 1), (1, 300)]), s.weighted([(5, 0), (1, s.int(1, 400))])] for _ in range(s.weighted([(1, 0), (4, s.int(1, 6)), (1, s.int(20, 60))]))]}
            if s.bool(0.12):
                q["fail"] = s.int(0, len(q["script"]))
            if s.bool(0.1):
                q["end"] = False
            acts.append(["send", s.choice([m, "other"]), q])
            wait.append(["poll", rid, s.bool(0.4)])
            while wait and s.bool(0.5):
                acts.append(wait.pop(s.int(0, len(wait) - 1)))
        late = [wait.pop(s.int(0, len(wait) - 1)) for _ in range(s.int(0, len(wait)))] if s.bool(0.3) else []
        clients.append(acts + wait + [["stopped"]] + late)
    return {"setup": setup, "workers": s.weighted([(3, 1), (3, s.int(2, 4))]), "clients": clients, "orphans": s.weighted([(3, 0), (1, 1), (1, 2)])}


def gen(s):
    return {"int": s.edge(-(2**63), 2**63 - 1), "float": s.real(-9, 9), "rounds": [gen_round(s, k) for k in range(s.weighted([(4, 1), (2, 2)]))]}


def run(c, st):
    try:
        p = subprocess.run([EXE], input=json.dumps(c).encode(), capture_output=True, timeout=25, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=66"))
    except subprocess.TimeoutExpired:
        raise Violation("a call of the C interface never returns")
    err = p.stderr.decode(errors="replace")
    need(p.returncode == 0, "the process ended with %d: %s", p.returncode, err[:1500])
    out = json.loads(p.stdout.decode().split("\n@@", 1)[1])
    need(all(out["plain"]) and out["null poll"] and out["down"], "plain calls: %s", out)
    handles, reg = {}, {}
    for r, o in zip(c["rounds"], out["rounds"]):
        for a, ok in zip(r["setup"], o["setup"]):
            if a[0] in ("qwen", "ocr"):
                want = a[2] is not None and not a[2].startswith("bad")
                if want:
                    handles[a[1]] = a[1:2] + [("q-" if a[0] == "qwen" else "o-") + a[2] + ":"]
            elif a[0] == "insert":
                want = a[1] is not None and a[2] in handles
                if want:
                    reg.setdefault(a[1], handles[a[2]])
            else:
                want = handles.pop(a[1], None) is not None
            eq(ok, int(want), "success of %s" % a)
        eq((o["started"], o["stopped"]), (1, 1), "start and stop")
        eq(o["polls"], [0] * r["orphans"], "pieces for who waits for nothing until the service stops")
        if r["orphans"]:
            st.hit("released by stop")
        eq(o["alive"], len({h[0] for h in list(handles.values()) + list(reg.values())}), "sessions alive")
        reqs = {a[2]["id"]: a[2] for k in r["clients"] for a in k if a[0] == "send" and isinstance(a[2], dict)}
        for acts, log in zip(r["clients"], o["log"]):
            eq(log[-1], True, "pieces stay as they were until they are freed")
            stop = next((i for i, a in enumerate(acts) if a[0] == "stopped"), len(acts))
            sent = [a[2]["id"] if isinstance(a[2], dict) else None for a in acts[:stop] if a[0] == "send"]
            # One worker has served all this client sent before the last request it has seen served
            served = 1 + max([sent.index(a[1]) for a in acts[:stop] if a[0] == "poll"], default=-1)
            for i, (a, g) in enumerate(zip(acts, log)):
                if a[0] == "stopped":
                    continue
                if a[0] == "send":
                    eq(g, int(isinstance(a[2], dict) and a[1] is not None), "success of sendRequest %s" % vh.short(a))
                    continue
                q = reqs[a[1]]
                if i > stop and not g and (r["workers"] > 1 or a[1] not in sent[:served]):
                    continue  # The service stopped before it was served
                if i > stop:
                    st.hit("pieces of before a stop")
                t = [x for x, _ in q["script"]]
                if q["model"] not in reg:
                    t = []
                else:
                    if t:
                        t[0] = reg[q["model"]][1] + t[0]
                    t = t[:q.get("fail", len(t))]
                    st.hit("answered")
                    if q["model"] in reg and reg[q["model"]][0] not in handles:
                        st.hit("answered after its handle was freed")
                eq([x["choices"][0]["delta"]["content"] for x in g], t, "pieces of %s" % vh.short(q))
                for x in g:
                    eq((x["id"], x["model"], x["choices"][0]["finish_reason"]), (q["id"], q["model"], None), "a piece's id, model and finish reason")


def parts():
    global EXE
    EXE = cppbuild.build("c21", repo=["mllm/c_api/Runtime.cpp", "mllm/engine/service/Service.cpp", "mllm/engine/service/Session.cpp", "mllm/utils/Log.cpp"], wrap=["c21_capi.cpp"],
                         flags=("-O1", "-iquote", cppbuild.VERIF + "/cpp/c21", "-iquote", cppbuild.VERIF + "/cpp"), san=True, shared=False)
    return [Part("relay", gen, run, quick=2500, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C21", parts, "a history with an answered request", ["The models below the interface are stand-ins that answer with a script; a handle is freed once."])
