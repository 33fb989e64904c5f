#!/usr/bin/env python3
"""C18: mllm-server relays each chat request to its model's session and streams the answer to its client."""
import atexit, base64, glob, http.client, json, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
from vh import Part, need, eq

vh.reexec()
import cppbuild

CLI = os.path.join(cppbuild.REPO, "mllm-cli")
GO = os.path.join(cppbuild.VERIF, "go")
EXE = None
MODELS = ["qwen", "Qwen3-0.6B-w4a32kai", "m\u00f6del x", "DeepSeek-OCR", "my-ocr"]
OCR = MODELS[3:]
DEFAULT = "Convert the document to markdown."


def build():
    """The server with the repository's Go packages over a C library of ours."""
    global EXE
    d = tempfile.mkdtemp(prefix="vh_c18_")
    cppbuild._dirs.append((os.getpid(), d))
    atexit.register(cppbuild.cleanup)
    j = lambda *a: os.path.join(d, *a)
    r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-c", "-I" + cppbuild.REPO, "-I" + cppbuild.REPO + "/third_party/json", cppbuild.VERIF + "/cpp/c18_sdk.cpp", "-o", j("sdk.o")], capture_output=True, text=True)
    if r.returncode == 0:
        for lib in ("MllmSdkC", "MllmRT", "MllmCPUBackend"):
            subprocess.run(["ar", "rcs", j("lib%s.a" % lib)] + ([j("sdk.o")] if lib == "MllmSdkC" else []), check=True)
        open(j("go.mod"), "w").write("module mllm-cli\n\ngo 1.23.0\n\nrequire github.com/google/uuid v1.6.0\n\nreplace github.com/google/uuid => %s/uuid\n" % GO)
        json.dump({"Replace": {CLI + "/cmd/vh-httpd/main.go": GO + "/httpd/main.go"}}, open(j("overlay.json"), "w"))
        env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", CGO_ENABLED="1", CGO_CFLAGS="-w -I" + cppbuild.REPO,
                   CGO_LDFLAGS="-L%s -lMllmSdkC -lstdc++" % d, HOME=os.environ.get("HOME", "/root"), GOTMPDIR=d)
        if "GOCACHE" not in os.environ and not os.path.isdir(os.path.expanduser("~/.cache/go-build")):
            env["GOCACHE"] = j("cache")
        r = subprocess.run(["go", "build", "-race", "-buildvcs=false", "-modfile=" + j("go.mod"), "-overlay=" + j("overlay.json"), "-o", j("httpd"), "./cmd/vh-httpd"],
                           cwd=CLI, env=env, capture_output=True, text=True)
    if r.returncode:
        raise cppbuild.BuildError(r.stderr[-6000:])
    EXE = j("httpd")


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="s", dir=os.path.dirname(EXE))
        self.log = os.path.join(self.dir, "log")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        open(self.log, "w").close()
        self.at, self.rest = 0, b""
        for _ in range(20):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            self.err = open(os.path.join(self.dir, "err"), "w+")
            self.p = subprocess.Popen([EXE, "127.0.0.1:%d" % self.port] + MODELS, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                      env=dict(os.environ, SDK_LOG=self.log, TMPDIR=self.tmp, GORACE="halt_on_error=1", GOMAXPROCS="4"))
            for _ in range(1000):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.01)
            self.close(False)
        raise SystemExit("harness: the server does not start")

    def read(self):
        """Log entries since the last call."""
        with open(self.log, "rb") as f:
            f.seek(self.at)
            b = f.read()
        self.at += len(b)
        ls = (self.rest + b).split(b"\n")
        self.rest = ls.pop()
        return [json.loads(x) for x in ls]

    def trouble(self):
        self.err.flush()
        t = open(os.path.join(self.dir, "err"), errors="replace").read()
        for mark in ("panic", "DATA RACE", "fatal error"):
            if mark in t:
                return t[t.index(mark):][:1500]
        return "ended with %s" % self.p.returncode if self.p.poll() is not None else None

    def close(self, rm=True):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        if rm:
            shutil.rmtree(self.dir, ignore_errors=True)


_srv = {}


def server():
    s = _srv.get(os.getpid())
    if s is None or s.p.poll() is not None:
        if s:
            s.close()
        s = _srv[os.getpid()] = Server()
    return s


def drop():
    s = _srv.pop(os.getpid(), None)
    if s:
        s.close()


# ---------------------------------------------------------------- generators

WORDS = ["hi", " ", "\n", "\u4f60\u597d", "<b>", "&", "\"", "\\", "\U0001f600", "\u2028", "x y", "data: x", "\x00", "0"]


def text(s, n=5):
    return "".join(s.choice(WORDS) for _ in range(s.int(0, n)))


def value(s, d=2):
    k = s.int(0, 8 if d else 6)
    if k == 0:
        return None
    if k == 1:
        return s.bool()
    if k == 2:
        return s.choice([0, 1, -3, 2 ** 31, 2 ** 53 + 1, -2 ** 63, 2 ** 64 - 1])
    if k == 3:
        return s.choice([0.5, 1e-7, -2.25, 1e20, 3.0])
    if k in (4, 5, 6):
        return text(s)
    if k == 7:
        return [value(s, d - 1) for _ in range(s.int(0, 3))]
    return {text(s, 2): value(s, d - 1) for _ in range(s.int(0, 3))}


def picture(s):
    n = s.weighted([(1, 0), (6, s.int(1, 40)), (1, 70000)])
    kind = s.weighted([(4, "image/png"), (4, "image/jpeg"), (3, "image/webp"), (1, "image/gif"), (1, "image/bmp")])
    how = s.weighted([(10, "good"), (1, "broken"), (1, "no comma"), (1, "no data"), (1, "path")])
    return {"n": n, "seed": s.seed(), "kind": kind, "how": how}


def gen_message(s, last):
    r = "user" if last else s.weighted([(3, "user"), (3, "assistant"), (1, "system")])
    m = {"role": r, "form": s.weighted([(3, "text"), (5, "parts"), (2, "images")]) if r == "user" else "text", "text": s.weighted([(5, text(s)), (1, ""), (1, " \n\t")])}
    if m["form"] != "text":
        m["picture"] = picture(s)
        m["order"] = s.choice(["text first", "picture first", "picture only"]) if m["form"] == "parts" else ""
        m["odd"] = s.choice([None, None, None, 3, "x", {"type": "audio"}])
    m["stale"] = s.bool(0.2) and m["form"] == "parts"
    return m


def gen(s):
    cs = []
    for _ in range(s.weighted([(4, 1), (3, 2), (3, s.int(3, 5))])):
        c = {"model": s.weighted([(4, 0), (1, 1), (1, 2), (4, 3), (2, 4), (1, "none"), (1, "nope"), (1, "nope ocr"), (1, 5)]), "messages": [gen_message(s, False) for _ in range(s.int(0, 2))] + [gen_message(s, True)],
             "after": s.weighted([(6, 0), (1, 1)]), "id": s.weighted([(3, None), (1, ""), (1, 7), (5, "id")]), "more": {"f" + text(s, 1): value(s) for _ in range(s.int(0, 3))},
             "chunks": [{"text": text(s), "us": s.weighted([(3, 0), (1, s.int(1, 3000))])} for _ in range(s.weighted([(1, 0), (5, s.int(1, 5)), (1, 40)]))],
             "stop": s.bool(0.3), "gate": s.bool(0.2), "refuse": s.bool(0.08), "leave": s.bool(0.1)}
        c["bad"] = s.weighted([(14, None), (1, "GET"), (1, "PUT"), (1, "not json"), (1, "empty"), (1, "array"), (1, "null"), (1, "no messages"), (1, "messages text"), (1, "no user"), (1, "odd messages")])
        cs.append(c)
    return {"clients": cs}


# ---------------------------------------------------------------- one client

def bytes_of(p):
    import random
    return random.Random(p["seed"]).randbytes(p["n"])


def url_of(p):
    b = base64.b64encode(bytes_of(p)).decode()
    return {"good": "data:%s;base64,%s" % (p["kind"], b), "broken": "data:%s;base64,%s!*" % (p["kind"], b), "no comma": "data:%s;base64" % p["kind"],
            "no data": "hello", "path": "/etc/hostname"}[p["how"]]


def message(m):
    if m["form"] == "text":
        return {"role": m["role"], "content": m["text"]}
    if m["form"] == "images":
        return {"role": m["role"], "content": m["text"], "images": [url_of(m["picture"])]}
    t, u = {"type": "text", "text": m["text"]}, {"type": "image_url", "image_url": {"url": url_of(m["picture"])}}
    ps = {"text first": [t, u], "picture first": [u, t], "picture only": [u]}[m["order"]]
    if m["odd"] is not None:
        ps.insert(1, m["odd"])
    r = {"role": m["role"], "content": ps}
    if m["stale"]:
        r["images"] = ["/old/path.png"]
    return r


class Client:
    def __init__(self, c, k, srv, tag):
        self.c, self.tag = c, "%s-%d" % (tag, k)
        self.chunks = [{"raw": json.dumps({"n": i, "choices": [{"delta": {"content": x["text"]}, "finish_reason": "stop" if c["stop"] and i + 1 == len(c["chunks"]) else None}]}, ensure_ascii=bool(i % 2)),
                        "us": x["us"]} for i, x in enumerate(c["chunks"])]
        self.gate = os.path.join(srv.dir, "gate-" + self.tag) if c["gate"] and len(self.chunks) > 1 else ""
        name = {"none": None, "nope": "gpt-4", "nope ocr": "GOT-OCR2", 5: 12}.get(c["model"]) if c["model"] in ("none", "nope", "nope ocr", 5) else MODELS[c["model"]]
        ms = [message(m) for m in c["messages"]]
        if c["after"]:
            ms.append({"role": "assistant", "content": "so"})
        b = {"messages": ms, "x_tag": self.tag, "x_script": {"chunks": self.chunks, "stop": c["stop"], "gate": self.gate, "refuse": c["refuse"]}}
        b.update({k: v for k, v in c["more"].items() if k not in b})
        if name is not None:
            b["model"] = name
        if c["id"] is not None:
            b["id"] = "id-" + self.tag if c["id"] == "id" else c["id"]
        bad = c["bad"]
        if bad == "no messages":
            del b["messages"]
        elif bad == "messages text":
            b["messages"] = "hello"
        elif bad == "no user":
            b["messages"] = [{"role": "assistant", "content": "x"}]
        elif bad == "odd messages":
            b["messages"] = [3, None, "x", {"role": 1}]
        self.payload = b
        self.body = {"not json": b"{\"model\": \"qwen\",", "empty": b"", "array": b"[1]", "null": b"null"}.get(bad, json.dumps(b).encode())
        self.method = bad if bad in ("GET", "PUT") else "POST"
        self.name = name
        self.sent = None
        self.expect(ms)

    def expect(self, ms):
        """Status, and for 200 the request the session gets and its image."""
        self.image, self.want, self.either = None, json.loads(json.dumps(self.payload)), False
        if self.method != "POST":
            self.status = 405
        elif self.c["bad"] in ("not json", "empty", "array"):
            self.status = 400
        elif self.c["bad"] == "null":
            self.status = 404
        elif self.name in OCR and not self.ocr():
            self.status = 400
        elif self.name not in MODELS:
            self.status = 404
            self.either = self.name == "GOT-OCR2" and not self.ocr()
        else:
            self.status = 500 if self.c["refuse"] else 200

    def ocr(self):
        if self.c["bad"]:
            return False
        k = len(self.c["messages"]) - 1
        m = self.c["messages"][k]
        if m["form"] == "text" or m["picture"]["how"] != "good" or m["picture"]["kind"] in ("image/gif", "image/bmp"):
            return False
        t = "" if m["form"] == "parts" and m["order"] == "picture only" else m["text"]
        self.want["messages"][k]["content"] = t if t.replace("\x00", "x").strip() else DEFAULT
        self.image = (k, bytes_of(m["picture"]), {"image/png": ".png", "image/jpeg": ".jpg", "image/webp": ".webp"}[m["picture"]["kind"]])
        return True

    def run(self, port):
        self.got, self.error, self.events = None, None, []
        try:
            h = http.client.HTTPConnection("127.0.0.1", port, timeout=30)
            h.request(self.method, "/v1/chat/completions", self.body, {"Content-Type": "application/json"})
            r = h.getresponse()
            self.got = r.status
            self.type = r.getheader("Content-Type")
            if r.status != 200:
                r.read()
            else:
                n, cur = 0, b""
                while True:
                    line = r.readline()
                    if not line:
                        break
                    cur += line
                    if line == b"\n":
                        self.events.append(cur.decode())
                        cur = b""
                        if self.gate and len(self.events) == 1:
                            open(self.gate, "w").close()
                        if self.c["leave"] and self.events[0] != "data: [DONE]\n\n":
                            break
                self.tail = cur.decode()
            h.close()
            if r.status == 200 and self.c["leave"]:
                r.close()
        except Exception as e:
            self.error = "%s: %s" % (type(e).__name__, e)
        if self.gate:
            open(self.gate, "w").close()


_n = [0]


def run(c, st):
    srv = server()
    _n[0] += 1
    tag = "%d-%d" % (os.getpid(), _n[0])
    cl = [Client(x, k, srv, tag) for k, x in enumerate(c["clients"])]
    try:
        go(cl, srv, st)
    except BaseException:
        drop()
        raise


def go(cl, srv, st):
    ts = [threading.Thread(target=x.run, args=(srv.port,)) for x in cl]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    bad = srv.trouble()
    need(not bad, "the server failed: %s", bad)
    # Everything the server still does after its last words to a client.
    log = []
    for k in range(1500):
        log += srv.read()
        sent = [e for e in log if "send" in e and not json.loads(e["text"])["x_script"]["refuse"]]
        ended = {e["end"] for e in log if "end" in e}
        if all(json.loads(e["text"])["id"] in ended for e in sent) and not os.listdir(srv.tmp):
            break
        time.sleep(0.01)
    log += srv.read()
    for e in log:
        need("wrong" not in e, "%s: %s", e.get("wrong"), e)
    by = {}
    for e in log:
        if "send" in e:
            by.setdefault(json.loads(e["text"])["x_tag"], []).append(e)
    looks, ids, ended = {}, set(), {e["end"] for e in log if "end" in e}
    for e in log:
        if "look" in e:
            looks.setdefault(e["look"], []).append(e["images"])
    for x in cl:
        what = "%s request for model %r" % (x.method, x.name) + (" (%s)" % x.c["bad"] if x.c["bad"] else "")
        need(x.error is None, "%s: %s", what, x.error)
        if not (x.either and x.got == 400):
            eq(x.got, x.status, what + ": status")
        es = by.get(x.tag, [])
        if x.status in (400, 404, 405):
            eq(len(es), 0, what + ": requests to a session")
            st.hit("refused %d" % x.status)
            continue
        eq(len(es), 1, what + ": requests to a session")
        e = es[0]
        eq(e["send"], x.name, what + ": session asked")
        got, want = json.loads(e["text"]), x.want
        rid = got.get("id")
        need(isinstance(rid, str) and rid and rid not in ids, "%s: request id %r is not a name of its own", what, rid)
        ids.add(rid)
        want["id"] = want["id"] if isinstance(want.get("id"), str) and want["id"] else rid
        want["model"] = x.name
        if x.image:
            k, data, ext = x.image
            p = got["messages"][k].get("images")
            need(isinstance(p, list) and len(p) == 1 and isinstance(p[0], str) and os.path.isabs(p[0]) and p[0].endswith(ext), "%s: images %r given to the session, expected one %s file", what, p, ext)
            want["messages"][k]["images"] = p
            if x.status == 200:
                for im in looks.get(rid, []):
                    mine = [i for i in im if i is not None]
                    need([bytes(i) for i in mine][-1:] == [data], "%s: the session finds image %s, expected %d bytes", what, vh.short(mine), len(data))
            need(not os.path.exists(p[0]), "%s: the image file is still there", what)
            st.hit("picture")
        need(json.dumps(got, sort_keys=True) == json.dumps(want, sort_keys=True), "%s: the session gets %s, expected %s", what, vh.short(got), vh.short(want))
        if x.status == 500:
            st.hit("refused 500")
            continue
        need(x.type == "text/event-stream", "%s: content type %r", what, x.type)
        need(rid in ended, "%s: the rest of the answer was never taken", what)
        ev = ["data: %s\n\n" % k["raw"] for k in x.chunks] + ["data: [DONE]\n\n"]
        if x.c["leave"] and x.chunks:
            eq(x.events, ev[:1], what + ": events before the client left")
            st.hit("client left")
        else:
            eq(x.events, ev, what + ": events")
            eq(x.tail, "", what + ": end of the stream")
        st.hit("streamed")
        if x.gate:
            st.hit("piece by piece")
    if sum(x.status == 200 for x in cl) > 1:
        st.hit("at once")
    left = os.listdir(srv.tmp)
    need(not left, "files left behind: %s", left)


def parts():
    build()
    return [Part("http", gen, run, quick=4000, shards=4, cpu_limit=60)]


if __name__ == "__main__":
    vh.main("C18", parts, "a round of clients of which at least one is answered or refused, labelled by outcome", ["The C library below the server is a stand-in that follows the contract of mllm/c_api/Runtime.h."])
