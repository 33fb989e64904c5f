#!/opt/mllm-venv/bin/python
"""C15: the service answers every request completely, in order and to the client that asked.

Random histories of workers, sessions, requests (valid, malformed, without or with an unknown model, with failing sessions)
and clients run on the real Service, half of them under the thread sanitizer; the oracle is the script each request carries.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vh
vh.reexec(san=False)
import json
import subprocess
import cppbuild
from vh import need, eq, Violation

EXE = {}
TEXT = "abcxyz \"\\/\n\t\u00e9\u4f60\U0001f600{}[]"


def gen_request(s, rid, sessions):
    q = {"id": rid}
    m = s.weighted([(12, "known"), (1, "unknown"), (0.006, "none"), (0.006, "<none>"), (0.3, "number")])
    if m == "known":
        q["model"] = s.choice(sessions)
    elif m == "unknown":
        q["model"] = "m" + s.text("abc", 1, 4)
    elif m == "number":
        q["model"] = s.choice([3, None, ["s0"], {"a": 1}])
    elif m == "<none>":
        q["model"] = m
    n = s.weighted([(1, 0), (3, 1), (6, s.int(2, 8)), (1, s.int(20, 60))])
    q["script"] = [[s.text(TEXT, 0, 4), s.weighted([(6, 0), (2, -1), (2, s.int(1, 300))])] for _ in range(n)]
    if s.bool(0.15):
        q["fail"] = s.int(0, n)
        q["odd"] = s.bool(0.3)
    if s.bool(0.08):
        q["end"] = False
    if s.bool(0.2):
        q["extra"] = s.choice([1, "x", {"model": "s0", "id": "c0r0"}, ["id"]])
    return q


def gen_round(s, first):
    sess = ["s%d" % i for i in range(s.int(1, 3))]
    late = ["t%d" % i for i in range(s.int(0, 2))]
    clients = []
    for k in range(s.weighted([(1, 1), (3, s.int(2, 4)), (1, s.int(5, 8))])):
        acts, wait = [], []
        for j in range(s.weighted([(2, 1), (4, s.int(2, 6)), (1, s.int(10, 20))])):
            rid = "c%dr%d%s" % (k, j, s.choice(["", "", "-chat", "\u00e9"]))
            if s.bool(0.15):
                acts.append(["nap", s.choice([-1, s.int(1, 500)])])
            if late and s.bool(0.2):
                acts.append(["insert", s.choice(late + sess)])
            if s.bool(0.06):
                acts.append(["send", s.choice(["", "{", "[1,2", "nonsense", "7", "[]", "null", "\"id\"", '{"id": 5}', '{"id": null, "model": "s0"}', '{"id": "a",}'])])
            q = gen_request(s, rid, sess + late)
            acts.append(["send", q])
            wait.append(rid)
            if s.bool(0.02):
                acts.append(["burst", "b%dx%d_" % (k, j), s.log(20, 2000), s.choice(sess), s.int(1, 20), s.choice([-1, s.int(1, 60)])])
            while wait and s.bool(0.6):
                acts.append(["recv", wait.pop(s.int(0, len(wait) - 1)), s.weighted([(6, 0), (1, -1), (1, s.int(1, 100))])])
            if s.bool(0.03):
                acts.append(["one", ""])
        for i in s.perm(range(len(wait))):
            acts.append(["recv", wait[i], 0])
        clients.append(acts)
    if len(clients) > 1 and s.bool(0.4):
        # some client waits for what another one asks
        for k in range(len(clients)):
            o = (k + 1) % len(clients)
            sent = {a[1]["id"] for a in clients[k] if a[0] == "send" and isinstance(a[1], dict)}
            mv = [a for a in clients[k] if a[0] == "recv" and a[1] in sent and s.bool(0.3)]
            for a in mv:
                clients[k].remove(a)
                clients[o] = clients[o] + [a]
    workers = s.weighted([(3, 1), (3, 2), (3, s.int(3, 6))])
    if s.bool(0.5):
        # as many requests at the same time as there are workers
        if s.bool():
            clients[0].append(["burst", "bm_", s.log(20, 2000), sess[0], s.int(1, 20), s.choice([-1, s.int(1, 60)])])
        ids = ["meet%d" % i for i in range(workers)]
        clients[0] += [["send", {"id": i, "model": sess[0], "script": [["x", 0]], "meet": ["r%s" % s.int(0, 10 ** 9), 0]}] for i in ids]
        for a in clients[0][-workers:]:
            a[1]["meet"] = [clients[0][-1][1]["meet"][0], workers]
        clients[0] += [["recv", i, 0] for i in ids]
    return {"sessions": sess, "workers": workers, "clients": clients, "late_start": first and s.bool(0.15), "orphans": s.weighted([(3, 0), (1, 1), (1, 3)])}


def gen(s):
    c = {"rounds": [gen_round(s, i == 0) for i in range(s.weighted([(4, 1), (2, 2), (1, 3)]))], "tsan": s.bool()}
    slow = 0
    for r in c["rounds"]:
        for k in r["clients"]:
            for a in k:
                if a[0] == "send" and isinstance(a[1], dict) and a[1].get("model", "<none>") == "<none>":
                    slow += 1  # the session of no model takes seconds
                    if slow > 1:
                        a[1]["model"] = "s0"
    return c


def expect(q, sessions):
    """(tokens before the final response, content of the final one) a client has to see."""
    m = q.get("model", "<none>")
    if not isinstance(m, str) or m not in sessions and m != "<none>":
        return [], ""
    if m == "<none>":
        return [str(i) for i in range(10)], ""
    t = [a for a, _ in q["script"]]
    if t:
        t[0] = m + ":" + t[0]
    f = q.get("fail", -1)
    end = q.get("end", True)
    if f == len(t) and f > 0 and end:
        return t[:-1], t[-1]  # it failed after its last token
    if 0 <= f <= len(t):
        return t[:f], ""
    if not end or not t:
        return t, ""
    return t[:-1], t[-1]


def run(c, st):
    exe = EXE["tsan" if c["tsan"] else "plain"]
    env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=0 history_size=4")
    try:
        p = subprocess.run([exe], input=json.dumps(c).encode(), capture_output=True, timeout=25, env=env)
    except subprocess.TimeoutExpired:
        raise Violation("the service hangs: some client waits for a response for ever")
    err = p.stderr.decode(errors="replace")
    if "unexpected memory mapping" in err:
        return
    need("WARNING: ThreadSanitizer" not in err, "%s", err[:1500])
    need(p.returncode == 0, "the service process ended with %d: %s", p.returncode, err[-800:])
    out = json.loads(p.stdout.decode().split("\n@@", 1)[1])
    known = set()
    for r, o in zip(c["rounds"], out):
        known |= set(r["sessions"])
        late = {a[1] for k in r["clients"] for a in k if a[0] == "insert"} - known
        reqs = {a[1]["id"]: a[1] for k in r["clients"] for a in k if a[0] == "send" and isinstance(a[1], dict)}
        for x in o["orphans"]:
            eq(x.get("finished"), True, "what stopping the service tells a client that still waits")
            st.hit("client released by stop")
        for acts, log in zip(r["clients"], o["clients"]):
            log = iter(log)
            for a in acts:
                if a[0] == "send":
                    rc = next(log)[1]
                    if isinstance(a[1], dict):
                        eq(rc, 0, "sendRequest")
                    else:
                        eq(rc, -1, "sendRequest(%r)" % a[1])
                        st.hit("malformed request refused")
                elif a[0] == "burst":
                    eq(next(log)[1], a[2], "requests of a burst answered rightly")
                    st.hit("burst")
                elif a[0] == "one":
                    eq(next(log)[2]["finished"], True, "response to no request")
                elif a[0] == "recv":
                    _, rid, got = next(log)
                    q = reqs[rid]
                    m = q.get("model", "<none>")
                    if isinstance(m, str) and m in late and len(got) == 1 and got[0].get("choices", [{}])[0].get("delta", {}).get("content") == "":
                        continue  # it may or may not have been there in time
                    body, last = expect(q, known | late)
                    what = "request %s to %r" % (rid, m)
                    content = [g["choices"][0]["delta"]["content"] for g in got]
                    eq(content, body + [last], what + ": contents")
                    for i, g in enumerate(got):
                        fin = i == len(got) - 1
                        eq(g["id"], rid, what + ": id")
                        eq(g["finished"], fin, what + ": finished")
                        eq(g["choices"][0]["finish_reason"], "stop" if fin else None, what + ": finish reason")
                        eq(g["object"], "chat.completion.chunk", what + ": object")
                        if isinstance(m, str):
                            eq(g["model"], m, what + ": model")
                    st.hit("answered by a session" if isinstance(m, str) and m in known | late else "answered without a session")
                    if "meet" in q:
                        st.hit("all workers at the same time")
                    if "fail" in q:
                        st.hit("session failed")
        known |= late
    if len(c["rounds"]) > 1:
        st.hit("restarted")
    st.hit("tsan" if c["tsan"] else "plain")


def parts():
    src = ["mllm/engine/service/Service.cpp", "mllm/engine/service/Session.cpp", "mllm/utils/Log.cpp"]
    EXE["tsan"] = cppbuild.build("svc_tsan", src, ["c15_service.cpp"], flags=("-O1", "-fsanitize=thread"), libs=["-fsanitize=thread"], shared=False)
    EXE["plain"] = cppbuild.build("svc", src, ["c15_service.cpp"], flags=("-O2",), shared=False)
    return [vh.Part("service", gen, run, quick=2500, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C15", parts, "a history in which requests were answered, with labels for the kinds of answers, stops and restarts",
            ["A request identifier is used by one request and read by one client at a time.", "Requests still queued when the service is stopped are not judged.",
             "Schedules are those the operating system produces under generated pauses and 1 to 6 workers, half of them under ThreadSanitizer."])
