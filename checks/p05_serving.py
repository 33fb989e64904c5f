#!/usr/bin/env python3
"""P05: every HTTP response is the text of its own prompt's tokens, streamed or not.

The real FastAPI app, engine, request/response process, tokenizer process,
scheduler and detokenizer process are wired together in one process with
in-memory sockets; a generated schedule decides which of them moves next.  The
model is a stand-in that emits a known token sequence per prompt.
"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq

DEFAULT_NEW = 24
G = {}

TEMPLATE = ("{% if tools %}<tools>{% for t in tools %}{{ t.function.name }};{% endfor %}</tools>{% endif %}"
            "{% for m in messages %}<|im_start|>{{ m.role }}{% if m.name %}({{ m.name }}){% endif %}\n"
            "{% if m.content is string %}{{ m.content }}{% else %}{% for p in m.content %}{% if p.type == 'text' %}{{ p.text }}{% else %}"
            "[{{ p.image_url.url if p.type == 'image_url' else p.image }}]{% endif %}{% endfor %}{% endif %}"
            "{% for c in m.tool_calls or [] %}<call {{ c.function.name }}>{% endfor %}{% if m.tool_call_id %}#{{ m.tool_call_id }}{% endif %}"
            "<|im_end|>\n{% endfor %}{% if add_generation_prompt %}<|im_start|>assistant\n{% endif %}{% if enable_thinking %}THINK{% endif %}")


def setup():
    import tempfile
    from tokenizers import Tokenizer, models, pre_tokenizers, decoders, trainers
    from transformers import PreTrainedTokenizerFast
    d = tempfile.mkdtemp(prefix="vh_p05_")
    t = Tokenizer(models.BPE())
    t.pre_tokenizer = pre_tokenizers.ByteLevel(add_prefix_space=False)
    t.decoder = decoders.ByteLevel()
    tr = trainers.BpeTrainer(vocab_size=340, initial_alphabet=pre_tokenizers.ByteLevel.alphabet(), special_tokens=["<|endoftext|>", "<|im_start|>", "<|im_end|>"],
                             show_progress=False)
    t.train_from_iterator(["hello world the answer is 日本語 héllo 🙂🙃 <think> </think> <tool_call>\n \n</tool_call> name arguments"] * 4, tr)
    f = PreTrainedTokenizerFast(tokenizer_object=t, eos_token="<|endoftext|>", chat_template=TEMPLATE)
    f.save_pretrained(d)
    G["dir"] = d
    from transformers import AutoTokenizer
    G["tok"] = AutoTokenizer.from_pretrained(d)
    G["eos"] = G["tok"].convert_tokens_to_ids("<|endoftext|>")
    G["byte"] = {b: G["tok"].convert_tokens_to_ids(c) for b, c in byte_alphabet().items()}
    import gc
    import pymllm.server.launch  # noqa: F401
    gc.collect()
    gc.freeze()
    return [Part("http", gen, run, 4000, shards=8, cpu_limit=60)]


def byte_alphabet():
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    cs, n = bs[:], 0
    for b in range(256):
        if b not in bs:
            bs.append(b)
            cs.append(256 + n)
            n += 1
    return {b: chr(c) for b, c in zip(bs, cs)}


WORDS = ["hello", " world", "é", "日本", "🙂", "語", "\n", " ", "x", "<", "🙃é", "�", "</", "the answer"]
PROMPTS = ["a", "hello", "hello world", "日本語", "🙂", "the answer is", "b\n", "", "xyz " * 4, "<|im_start|>"]


def gen_reply(s):
    k = s.weighted([(6, "plain"), (2, "think"), (2, "tool"), (1, "both"), (1, "openthink")])
    w = lambda s: "".join(s.list(lambda s: s.choice(WORDS), 0, 5))
    r = ""
    if k in ("think", "both"):
        r += "<think>" + w(s) + "</think>"
    if k == "openthink":
        r += "<think>"
    r += w(s)
    if k in ("tool", "both"):
        for _ in range(s.int(1, 2)):
            r += '<tool_call>\n' + json.dumps({"name": s.choice(["f", "g"]), "arguments": {s.choice(["a", "日"]): s.choice([1, "x", "é🙂"])}}, ensure_ascii=False) + '\n</tool_call>'
    return r


def gen_call(s, n):
    kind = s.weighted([(4, "generate"), (4, "completions"), (5, "chat"), (1, "bad")])
    c = {"kind": kind, "stream": s.bool(), "max": s.weighted([(3, None), (2, s.int(1, 12)), (1, 0)]) or None,
         "temp": s.choice([None, 0.0, 0.5]), "seed": s.choice([None, 3]), "pen": s.choice([None, 1.2])}
    if kind == "generate":
        c["form"] = s.weighted([(4, "text"), (2, "ids"), (2, "texts"), (1, "idss")])
        c["rid"] = s.bool(.4)
        c["stop"] = s.bool(.2)
    elif kind == "completions":
        c["form"] = s.weighted([(3, "text"), (3, "texts")])
    if kind in ("generate", "completions"):
        c["prompts"] = [s.choice(PROMPTS) for _ in range(s.int(1, 3) if c["form"] in ("texts", "idss") else 1)]
        if c["form"] in ("ids", "idss"):
            c["prompts"] = [p or "a" for p in c["prompts"]]
    if kind == "chat":
        def msg(s):
            m = {"role": s.choice(["user", "system", "assistant", "tool"])}
            f = s.weighted([(4, "str"), (1, "none"), (2, "parts")])
            if f == "str":
                m["content"] = s.choice(PROMPTS)
            elif f == "parts":
                m["content"] = [{"type": "text", "text": s.choice(PROMPTS[:6])}] + ([{"type": "image_url", "image_url": {"url": "u%d" % s.int(0, 3)}}] if s.bool(.4) else [])
            if s.bool(.15):
                m["name"] = "bob"
            if m["role"] == "tool":
                m["tool_call_id"] = "id%d" % s.int(0, 9)
            if m["role"] == "assistant" and s.bool():
                m["tool_calls"] = [{"id": "c1", "type": "function", "function": {"name": s.choice(["f", "g"]), "arguments": "{}"}}]
            return m
        c["messages"] = s.list(msg, 1, 4)
        c["tools"] = s.bool(.5)
        c["mct"] = s.bool(.3)
        c["sep"] = s.bool(.8)
        c["srs"] = s.bool(.7)
        c["think"] = s.choice([None, None, True, False])
    if kind == "bad":
        c["form"] = s.choice(["n", "both", "none", "emptylist", "echo", "logprobs", "model404", "health", "models", "flush", "abort-none"])
    c["usage"] = s.bool(.5)
    c["end"] = s.weighted([(8, "normal"), (1, "disconnect"), (1, "abort")]) if kind != "bad" else "normal"
    c["after"] = s.int(0, 12)
    c["key"] = s.weighted([(6, "good"), (1, "admin"), (1, "bad"), (1, "none"), (1, "scheme")])
    c["at"] = s.int(0, 40)
    return c


def gen(s):
    reps = s.list(gen_reply, 1, 4)
    n = s.int(1, 5)
    return {"replies": reps, "seg": s.choice(["bytes", "enc", "mix"]), "reasoning": s.choice([None, None, "qwen3", "deepseek-r1"]),
            "tool": s.choice([None, "qwen25"]), "api_key": s.bool(.4), "admin": s.bool(), "shared": s.bool(.25),
            "ctx": s.choice([None, None, 4, 9]), "max_running": s.int(1, 4), "max_prefill": s.choice([400, 8192, 12]), "max_queued": s.weighted([(9, None), (1, 50), (1, 0)]),
            "calls": [gen_call(s, i) for i in range(n)], "order": s.ints(0, 4, 0, 60), "debug": s.bool(.2), "served": s.choice([None, "m1"])}


class Stop(BaseException):
    pass


def run(case, st):
    import asyncio, gc, pickle, queue, threading, types, uuid
    from collections import deque
    import pymllm.server.launch as L
    from pymllm.engine.launch import Engine
    from pymllm.configs.global_config import get_global_config
    from pymllm.orchestrator.request_response_process import RequestResponseProcess
    from pymllm.orchestrator.tokenizer_process import TokenizerProcess
    from pymllm.orchestrator.detokenizer_process import DetokenizerProcess
    from pymllm.orchestrator.scheduler_process import SchedulerProcess

    tok, eos = G["tok"], G["eos"]

    def segment(text, n):
        if case["seg"] == "bytes" or case["seg"] == "mix" and n % 2:
            return [G["byte"][b] for b in text.encode()]
        return tok(text, add_special_tokens=False)["input_ids"]
    replies = [segment(r, i) + [eos] for i, r in enumerate(case["replies"])]

    def model(ids):
        return replies[(sum(ids) + len(ids)) % len(replies)]

    cfg = get_global_config()
    sc = cfg.server
    key = "sk-1"
    sc.api_key = key if case["api_key"] else None
    sc.admin_api_key = "adm-2" if case["admin"] else None
    sc.reasoning_parser, sc.tool_call_parser = case["reasoning"], case["tool"]
    sc.max_queued_requests, sc.enable_debug_timing = case["max_queued"], case["debug"]
    sc.served_model_name, sc.model_path = case["served"], "/models/x"

    # ---- wires
    to_tok, to_sched, to_det = deque(), deque(), deque()
    shq = deque()

    class Out:
        def __init__(self, q):
            self.q = q

        def send_pyobj(self, m):
            self.q.append(pickle.dumps(m))

    class In:
        def __init__(self, q):
            self.q = q

        def recv_pyobj(self, flags=0):
            if not self.q:
                raise Stop
            return pickle.loads(self.q.popleft())

    class ShQ:
        def put(self, rid, name, mm):
            shq.append(pickle.dumps((rid, name, mm)))

        def get(self, timeout=None):
            if not shq:
                raise queue.Empty
            return pickle.loads(shq.popleft())

    tp = TokenizerProcess("a", "b", {"tokenizer_path": G["dir"], "context_length": case["ctx"], "enable_shared_queue": case["shared"]},
                          ShQ() if case["shared"] else None)
    tp._mm_processor = None
    tp._send_to_scheduler = Out(to_sched)
    dp = DetokenizerProcess("a", "b", {"tokenizer_path": G["dir"]})
    dp._tokenizer = tok
    dp._recv_from_scheduler = In(to_det)

    # one message per step
    class One:
        def __init__(self, q):
            self.q, self.n = q, 0

        def recv_pyobj(self, flags=0):
            if not self.q or self.n:
                raise Stop
            self.n = 1
            return pickle.loads(self.q.popleft())

    def step(proc, attr, q):
        setattr(proc, attr, One(q))
        try:
            proc.event_loop()
        except Stop:
            pass

    # ---- scheduler in lock step
    go, back = threading.Semaphore(0), threading.Semaphore(0)
    S = {"stop": False, "err": None, "fwd": 0}
    live = {}
    seen = {}

    def handoff():
        back.release()
        go.acquire()
        if S["stop"]:
            raise Stop

    class Runner:
        def _forward_batch(self, b):
            S["fwd"] += 1
            outs, off = [], 0
            for i, m in enumerate(b["requests"]):
                rid = m["rid"]
                if b["forward_mode"] == "extend":
                    ids = list(m["input_ids"])
                    live[rid] = [model(ids), 0]
                    seen[rid] = m
                r = live[rid]
                outs.append({"rid": rid, "output_token_ids": [r[0][r[1]] if r[1] < len(r[0]) else eos]})
                r[1] += 1
            handoff()
            return {"outputs": outs}

        def _free_rid_resources(self, rid):
            need(rid in live, "resources of %s freed although it is not live", rid)
            del live[rid]

        def shutdown(self):
            pass

    class Sleeper:
        def sleep(self):
            S["idle"] = True
            handoff()
            S["idle"] = False

    class Poller:
        def poll(self, timeout=None):
            return [(sin, 1)] if to_sched else []

    sin = In(to_sched)
    sp = SchedulerProcess("a", "b", max_running_requests=case["max_running"], max_prefill_tokens=case["max_prefill"], eos_token_ids=[eos],
                          default_max_new_tokens=DEFAULT_NEW, shared_queue=ShQ() if case["shared"] else None, enable_shared_queue=case["shared"])
    sp._recv_from_tokenizer, sp._poller, sp._send_to_detokenizer = sin, Poller(), Out(to_det)
    sp._idle_sleeper, sp._model_runner = Sleeper(), Runner()

    def sched_thread():
        go.acquire()
        try:
            if not S["stop"]:
                sp.event_loop()
        except Stop:
            pass
        except BaseException as e:  # noqa
            import traceback
            S["err"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
        back.release()
    th = threading.Thread(target=sched_thread, daemon=True)

    def sched_step():
        if S["err"] is None:
            go.release()
            back.acquire()
        if S["err"]:
            need(False, "the scheduler died: %s", S["err"])

    results = {}

    async def http(path, body, call, i, method="POST", stop_evt=None):
        raw = json.dumps(body).encode() if body is not None else b""
        k = {"good": f"Bearer {key}", "admin": "Bearer adm-2", "bad": "Bearer nope", "none": None, "scheme": key}[call["key"]]
        headers = [(b"content-type", b"application/json"), (b"host", b"x")]
        if k is not None:
            headers.append((b"authorization", k.encode()))
        sent = [False]
        out = results[i] = {"status": None, "body": b"", "done": False}

        async def receive():
            if not sent[0]:
                sent[0] = True
                return {"type": "http.request", "body": raw, "more_body": False}
            await stop_evt.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            if m["type"] == "http.response.start":
                out["status"] = m["status"]
            elif m["type"] == "http.response.body":
                out["body"] += m.get("body", b"")
                out["done"] = not m.get("more_body", False)
        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": path, "raw_path": path.encode(),
                 "query_string": b"", "headers": headers, "client": ("c", 1), "server": ("s", 80), "scheme": "http", "root_path": "", "state": {}}
        await L.app(scope, receive, send)

    async def main():
        eng = object.__new__(Engine)
        eng._subprocess_healthy = True
        rr = RequestResponseProcess("a", "b")
        fromdet = asyncio.Queue()

        class RS:
            async def send_pyobj(self, m):
                to_tok.append(pickle.dumps(m))

        class RD:
            async def recv_pyobj(self):
                return pickle.loads(await fromdet.get())

        class DO:
            def send_pyobj(self, m):
                fromdet.put_nowait(pickle.dumps(m))
        rr._send_to_tokenizer, rr._recv_from_detokenizer = RS(), RD()
        dp._send_to_rr = DO()
        eng._rr_process = rr
        L._engine, L._tokenizer = eng, tok
        L._model_architectures = None
        th.start()
        tasks, evts = {}, {}
        t = 0
        quiet = 0
        order = list(case["order"])
        waiting = sorted(range(len(case["calls"])), key=lambda i: (case["calls"][i]["at"], i))
        pending_end = {}
        async def stray():
            """Requests nobody waits for any more must stop, once the abort got through."""
            n0 = {r: live[r][1] for r in live if r not in rr._rid_to_state}
            for _ in range(2):
                gc.collect()
                for _ in range(30):
                    await asyncio.sleep(0)
                while to_tok:
                    step(tp, "_recv_from_rr", to_tok)
                sched_step()
                sched_step()
            sched_step()
            st.hit("abandoned request")
            for r in n0:
                need(r not in live, "request %s still runs although its client is gone or aborted it", r)
        try:
            while True:
                t += 1
                need(t < 6000, "a request never gets its answer: %s", 
                     [(i, results.get(i), case["calls"][i]["kind"] if i in range(len(case["calls"])) else "") for i in tasks if not tasks[i].done()] +
                     [len(to_tok), len(to_sched), len(to_det), len(shq), list(live), fromdet.qsize(), list(rr._rid_to_state)])
                while waiting and (case["calls"][waiting[0]]["at"] <= t or not tasks or all(x.done() for x in tasks.values())):
                    i = waiting.pop(0)
                    c = case["calls"][i]
                    c["rids"] = None
                    evts[i] = asyncio.Event()
                    method, path, body = request_of(c, i, case)
                    c["body"] = body
                    tasks[i] = asyncio.ensure_future(http(path, body, c, i, method, evts[i]))
                    if c["end"] != "normal":
                        pending_end[i] = t + c["after"]
                for i in list(pending_end):
                    c = case["calls"][i]
                    if t >= pending_end[i]:
                        del pending_end[i]
                        if tasks[i].done():
                            c["end"] = "normal"
                        elif c["end"] == "disconnect":
                            evts[i].set()
                            st.hit("client disconnect")
                        elif c.get("rid"):
                            rid = c["body"]["rid"]
                            for r in rid if isinstance(rid, list) else [rid]:
                                ae = asyncio.Event()
                                j = f"abort{i}{r}"
                                tasks[j] = asyncio.ensure_future(http("/abort_request", {"rid": r}, dict(c, key="good"), j, "POST", ae))
                            st.hit("abort request")
                        else:
                            c["end"] = "normal"
                a = order.pop(0) if order else None
                if a in (0, None):
                    await asyncio.sleep(0)
                if a in (1, None):
                    step(tp, "_recv_from_rr", to_tok)
                if a in (2, None):
                    sched_step()
                if a in (3, None):
                    step(dp, "_recv_from_scheduler", to_det)
                await asyncio.sleep(0)
                if not case["shared"] and any(r not in rr._rid_to_state for r in live):
                    await stray()
                if not waiting and not pending_end and all(x.done() for x in tasks.values()) and not to_tok and not to_sched and not to_det and not shq and not live and fromdet.empty():
                    quiet += 1
                    if quiet > 3:
                        break
                else:
                    quiet = 0
            for i, x in tasks.items():
                e = x.exception()
                if e is not None and not isinstance(i, str) and case["calls"][i]["end"] == "normal":
                    raise e
            for _ in range(3):
                if rr._rid_to_state:
                    gc.collect()
                    for _ in range(20):
                        await asyncio.sleep(0)
            eq(sorted(rr._rid_to_state), [], "request states left over")
            eq(sorted(live), [], "requests left running in the model")
        finally:
            S["stop"] = True
            go.release()
            th.join(10)
            if rr._loop_task is not None:
                rr._loop_task.cancel()
                await asyncio.gather(rr._loop_task, return_exceptions=True)
            for x in tasks.values():
                x.cancel()
            await asyncio.gather(*tasks.values(), return_exceptions=True)

    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(main())
    finally:
        loop.close()

    # ---- what every answer must be
    cap = min(case["max_prefill"], 131072)

    def expect(ids, mx):
        if not 0 < len(ids) <= cap:
            return {"ids": [], "text": "", "reason": "abort", "n": len(ids), "prompt": ids}
        full = model(ids)
        out = full[:mx if mx is not None else DEFAULT_NEW]
        return {"ids": out, "text": tok.decode(out, skip_special_tokens=True), "reason": "eos" if out[-1] == eos else "length", "n": len(ids), "prompt": ids}

    def encode(text):
        ids = tok(text, add_special_tokens=True)["input_ids"]
        return ids[:case["ctx"]] if case["ctx"] is not None else ids
    for i, c in enumerate(case["calls"]):
        judge(case, c, results[i], expect, encode, st, seen, key, tok)


def request_of(c, i, case):
    k = c["kind"]
    if k == "bad":
        f = c["form"]
        return {"n": ("POST", "/v1/completions", {"prompt": "a", "n": 2}), "both": ("POST", "/generate", {"text": "a", "input_ids": [1]}),
                "none": ("POST", "/generate", {"sampling_params": {}}), "emptylist": ("POST", "/v1/completions", {"prompt": []}),
                "echo": ("POST", "/v1/completions", {"prompt": "a", "echo": True}), "logprobs": ("POST", "/v1/chat/completions", {"messages": [], "logprobs": True}),
                "model404": ("GET", "/v1/models/nope", None), "health": ("GET", "/health", None), "models": ("GET", "/v1/models", None),
                "flush": ("POST", "/flush_cache", None), "abort-none": ("POST", "/abort_request", {})}[f]
    if k == "generate":
        b = {"stream": c["stream"]}
        sp = {}
        if c["max"]:
            sp["max_new_tokens"] = c["max"]
        if c["temp"] is not None:
            sp["temperature"] = c["temp"]
        if c["stop"]:
            sp["stop_token_ids"] = [G["byte"][ord("x")]]
        if sp:
            b["sampling_params"] = sp
        ps = c["prompts"]
        if c["form"] == "text":
            b["text"] = ps[0]
        elif c["form"] == "texts":
            b["text"] = ps
        else:
            ids = [G["tok"](p)["input_ids"] for p in ps]
            b["input_ids"] = ids[0] if c["form"] == "ids" else ids
        if c["rid"]:
            b["rid"] = [f"rid{i}-{(j + i) % len(ps)}" for j in range(len(ps))] if c["form"] in ("texts", "idss") else f"rid{i}"
        return "POST", "/generate", b
    b = {"stream": c["stream"]}
    if c["stream"] and c["usage"]:
        b["stream_options"] = {"include_usage": True}
    if c["temp"] is not None:
        b["temperature"] = c["temp"]
    if c["seed"] is not None:
        b["seed"] = c["seed"]
    if c["pen"] is not None:
        b["repetition_penalty"] = c["pen"]
    if k == "completions":
        if c["max"]:
            b["max_tokens"] = c["max"]
        b["prompt"] = c["prompts"] if c["form"] == "texts" else c["prompts"][0]
        return "POST", "/v1/completions", b
    if c["max"]:
        b["max_completion_tokens" if c["mct"] else "max_tokens"] = c["max"]
        if c["mct"]:
            b["max_tokens"] = 999
    b["messages"] = c["messages"]
    if c["tools"]:
        b["tools"] = [{"type": "function", "function": {"name": "f", "parameters": {"type": "object"}}}, {"type": "function", "function": {"name": "g"}}]
    b["separate_reasoning"], b["stream_reasoning"] = c["sep"], c["srs"]
    if c["think"] is not None:
        b["chat_template_kwargs"] = {"enable_thinking": c["think"]}
    return "POST", "/v1/chat/completions", b


def sse(body):
    ev = []
    for blk in body.decode().split("\n\n"):
        if not blk:
            continue
        need(blk.startswith("data: "), "malformed event %r", blk)
        ev.append(blk[6:])
    return ev


FIN = {"eos": "stop", "length": "length", "abort": "stop"}


def judge(case, c, r, expect, encode, st, seen, key, tok):
    body = r["body"]
    if case["api_key"] and not (c["kind"] == "bad" and c["form"] == "health"):
        ok = c["key"] == "good" or c["key"] == "admin" and case["admin"]
        if not ok:
            eq(r["status"], 401, "status without a valid key")
            st.hit("rejected key")
            return
    need(r["status"] not in (401, 403), "a valid key was refused")
    model_name = case["served"] or "/models/x"
    if c["kind"] == "bad":
        want = {"n": 400, "both": 400, "none": 400, "emptylist": 400, "echo": 400, "logprobs": 400, "model404": 404, "health": 200, "models": 200, "flush": 501,
                "abort-none": 400}[c["form"]]
        eq(r["status"], want, "status of " + c["form"])
        if c["form"] == "models":
            eq([m["id"] for m in json.loads(body)["data"]], [model_name], "model list")
        st.hit("error case")
        return
    k = c["kind"]
    if c["end"] != "normal":
        if c["end"] == "abort" and not c["stream"]:
            need(r["done"], "an aborted request has no answer")
        return
    need(r["done"], "the response was not finished")
    if case["max_queued"] == 0:
        if c["stream"]:
            need(b"error" in body, "an overloaded server did not answer with an error")
        else:
            eq(r["status"], 429, "status of an overloaded server")
        st.hit("overload")
        return
    eq(r["status"], 200, "status (%s)" % body[:300])
    mx = c["max"]
    if k == "chat":
        import copy
        msgs = []
        for m in c["messages"]:
            m2 = dict(m)
            m2["content"] = [p for p in m["content"] if p["type"] != "text" or p["text"]] if isinstance(m.get("content"), list) else m.get("content") or ""
            msgs.append(m2)
        kw = {"enable_thinking": c["think"]} if c["think"] is not None else {"enable_thinking": True} if case["reasoning"] else {}
        if c["tools"]:
            kw["tools"] = c["body"]["tools"]
        prompt = tok.apply_chat_template(msgs, tokenize=False, add_generation_prompt=True, **kw)
        exps = [expect(encode(prompt), mx)]
    elif c["form"] in ("ids", "idss"):
        exps = [expect(G["tok"](p)["input_ids"], mx) for p in c["prompts"]]
    else:
        exps = [expect(encode(p), mx) for p in c["prompts"]]
    if k == "generate" and c["stop"]:
        x = G["byte"][ord("x")]
        for e in exps:
            if x in e["ids"] and e["ids"].index(x) < len(e["ids"]):
                e["ids"] = e["ids"][:e["ids"].index(x) + 1]
                e["text"] = tok.decode(e["ids"], skip_special_tokens=True)
                e["reason"] = "eos"
    if any("�" in tok.decode(e["ids"][:n]) for e in exps for n in range(1, len(e["ids"]))) and c["stream"]:
        st.hit("character split over tokens, streamed")
    # the parameters that reached the model
    for e in exps:
        if e["reason"] == "abort":
            continue
        ms = [m for m in seen.values() if list(m["input_ids"]) == e["prompt"]]
        need(ms, "prompt %s was never run", tok.decode(e["prompt"]))
    usage = {"prompt_tokens": sum(e["n"] for e in exps), "completion_tokens": sum(len(e["ids"]) for e in exps)}
    usage["total_tokens"] = sum(usage.values())
    if k == "generate":
        rids = c["body"].get("rid")
        rids = [rids] if isinstance(rids, str) else rids

        def one(d, e):
            eq(d.get("text"), e["text"], "text")
            eq(d.get("output_token_ids"), e["ids"], "output_token_ids")
            eq(d.get("finished_reason"), e["reason"], "finished_reason")
            eq([d.get("prompt_tokens"), d.get("completion_tokens"), d.get("finished")], [e["n"], len(e["ids"]), True], "counts")
        if not c["stream"]:
            d = json.loads(body)
            ds = d if isinstance(d, list) else [d]
            eq(len(ds), len(exps), "number of results")
            if rids:
                eq(sorted(x["rid"] for x in ds), sorted(rids), "result ids")
                for x in ds:
                    one(x, exps[rids.index(x["rid"])])
            else:
                keyf = lambda t: (t[0], t[1])
                got = sorted((x.get("text"), x.get("finished_reason"), x.get("prompt_tokens")) for x in ds)
                eq(got, sorted((e["text"], e["reason"], e["n"]) for e in exps), "results")
            st.hit("generate")
        else:
            ev = sse(body)
            eq(ev[-1], "[DONE]", "end of the stream")
            by = {}
            for x in ev[:-1]:
                d = json.loads(x)
                need("error" not in d, "error event %s", d)
                L_ = by.setdefault(d["rid"], [])
                need(not L_ or not L_[-1]["finished"], "event after the final one")
                L_.append(d)
            eq(len(by), len(exps), "number of streams")
            if rids:
                eq(sorted(by), sorted(rids), "stream ids")
            left = list(exps)
            for rid, L_ in by.items():
                e = exps[rids.index(rid)] if rids else next((e for e in left if e["text"] == L_[-1]["text"] and e["n"] == L_[-1]["prompt_tokens"]), None)
                need(e is not None, "stream with text %r belongs to no prompt", L_[-1]["text"])
                if not rids:
                    left.remove(e)
                one(L_[-1], e)
                eq("".join(d["delta"] for d in L_), e["text"], "concatenated deltas")
            st.hit("generate stream")
        return
    if k == "completions":
        if not c["stream"]:
            d = json.loads(body)
            eq([x["index"] for x in d["choices"]], list(range(len(exps))), "choice indices")
            eq([x["text"] for x in d["choices"]], [e["text"] for e in exps], "choice texts")
            eq([x["finish_reason"] for x in d["choices"]], [FIN[e["reason"]] for e in exps], "finish reasons")
            eq(d["usage"], usage, "usage")
            eq(d["model"], model_name, "model name")
            st.hit("completions")
        else:
            ev = sse(body)
            eq(ev[-1], "[DONE]", "end of the stream")
            ev = [json.loads(x) for x in ev[:-1]]
            check_usage(ev, c, usage)
            txt, fin = {}, {}
            for d in ev:
                for x in d["choices"]:
                    n = x["index"]
                    need(n not in fin, "chunk after the finish of choice %d", n)
                    txt[n] = txt.get(n, "") + x["text"]
                    if x["finish_reason"] is not None:
                        fin[n] = x["finish_reason"]
            eq([txt.get(n) for n in range(len(exps))], [e["text"] for e in exps], "streamed texts by choice")
            eq(fin, {n: FIN[e["reason"]] for n, e in enumerate(exps)}, "finish reasons")
            st.hit("completions stream")
        return
    # chat
    from pymllm.parsers import ReasoningParser, ToolCallParser
    e = exps[0]
    text, reason, calls, fin = e["text"], None, [], FIN[e["reason"]]
    if case["reasoning"] and c["sep"]:
        reason, text = ReasoningParser(case["reasoning"]).parse_non_stream(text)
    whole = True
    if case["tool"] and c["tools"]:
        tp = ToolCallParser(case["tool"], tools=[{}])
        if tp.has_tool_call(text):
            opened = text.count("<tool_call>\n")
            text, calls = tp.parse_non_stream(text)
            whole = opened == len(calls)
            if calls:
                fin = "tool_calls"
    calls = [(x.name, json.loads(x.arguments)) for x in calls]
    if not c["stream"]:
        d = json.loads(body)
        eq(len(d["choices"]), 1, "choices")
        ch = d["choices"][0]
        m = ch["message"]
        eq(m["role"], "assistant", "role")
        eq(m["content"] or "", text, "content")
        eq(m.get("reasoning_content"), reason, "reasoning_content")
        eq([(x["function"]["name"], json.loads(x["function"]["arguments"])) for x in m.get("tool_calls", [])], calls, "tool calls")
        eq(ch["finish_reason"], fin, "finish_reason")
        eq(d["usage"], usage, "usage")
        eq(d["model"], model_name, "model name")
        st.hit("chat")
    else:
        ev = sse(body)
        eq(ev[-1], "[DONE]", "end of the stream")
        ev = [json.loads(x) for x in ev[:-1]]
        need(not any("error" in d for d in ev), "error event %s", ev)
        check_usage(ev, c, usage)
        con, rea, tcs, fins, roles = "", "", {}, [], 0
        for d in ev:
            for x in d["choices"]:
                need(not fins, "chunk after the finish")
                de = x["delta"]
                if "role" in de:
                    roles += 1
                con += de.get("content") or ""
                rea += de.get("reasoning_content") or ""
                for tc in de.get("tool_calls", []):
                    o = tcs.setdefault(tc["index"], [None, ""])
                    if tc["function"].get("name") is not None:
                        o[0] = tc["function"]["name"]
                    o[1] += tc["function"].get("arguments", "")
                if x["finish_reason"] is not None:
                    fins.append(x["finish_reason"])
        eq(roles, 1, "role chunks")
        if text.strip().endswith("<tool_call>") and not con.strip().endswith("<tool_call>"):
            # cut off right behind the opening of a call: either form is fine
            text = text.strip()[:-len("<tool_call>")]
        eq(con.strip(), text.strip(), "streamed content")
        eq(rea.strip() or None, reason, "streamed reasoning")
        if whole:
            eq([(o[0], json.loads(o[1])) for _, o in sorted(tcs.items())], calls, "streamed tool calls")
            eq(fins, [fin], "finish reason")
        else:
            eq(len(fins), 1, "finish chunks")
        st.hit("chat stream")
    if reason:
        st.hit("chat with reasoning")
    if calls:
        st.hit("chat with tool calls")


def check_usage(ev, c, usage):
    us = [d["usage"] for d in ev if d.get("usage")]
    eq(us, [usage] if c["usage"] else [], "streamed usage")


if __name__ == "__main__":
    import shutil
    import atexit

    def bye():
        if "dir" in G:
            shutil.rmtree(G["dir"], ignore_errors=True)
    old = vh._exit

    def _exit(code):
        bye()
        old(code)
    vh._exit = _exit
    vh.main("P05", setup,
            "a set of concurrent HTTP calls counts when an endpoint was answered (per endpoint and streaming), a key or an overload was refused, a client disconnected or aborted, or a character was split over tokens",
            ["The model, sockets and subprocess boundaries are replaced by in-process stand-ins (messages are pickled).", "Multimodal processors are not loaded."])
