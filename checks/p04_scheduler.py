#!/usr/bin/env python3
"""P04: continuous batching in the scheduler over request histories.

The real SchedulerProcess.event_loop runs against a scripted tokenizer socket /
shared queue, a stand-in model runner and a recording detokenizer socket; a
reference model predicts every batch and every message.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq

V = 11
DEFAULT_LEN = 5


def tok(rid, step, salt):
    return (hash_(rid) * 31 + step * 7 + salt * 13 + step * step) % V


def hash_(s):
    h = 7
    for c in s:
        h = (h * 33 + ord(c)) % 100003
    return h


class Stop(BaseException):
    pass


def gen(s):
    maxpre = s.int(1, 12)
    maxtot = s.edge(1, 30)
    n = s.int(1, 9)

    def req(s, i):
        sp = {}
        m = s.weighted([(5, "set"), (1, "absent"), (1, "none")])
        if m == "set":
            sp["max_new_tokens"] = s.edge(1, 7)
        elif m == "none":
            sp["max_new_tokens"] = None
        m = s.weighted([(2, "absent"), (2, "set"), (1, "none")])
        if m == "set":
            sp["stop_token_ids"] = s.ints(0, V - 1, 0, 2)
        elif m == "none":
            sp["stop_token_ids"] = None
        if s.bool(.5):
            sp["temperature"] = s.int(0, 3) / 2
        if s.bool(.3):
            sp["top_k"] = s.int(1, 9)
        plen = s.weighted([(8, None), (1, 0), (1, maxpre), (1, maxtot), (1, maxpre + 1), (1, maxtot + 1)])
        return {"op": "req", "rid": "r%d" % i, "len": s.int(1, max(1, min(maxpre, maxtot))) if plen is None else plen,
                "sp": sp if s.bool(.95) else None, "stream": s.bool(), "prefix": s.weighted([(2, 0), (1, 1), (1, 2)]),
                "salt": s.int(0, 5), "mm": s.bool(.2), "logprob": s.bool(.2)}
    ticks = []
    i = 0
    ids = []
    for _ in range(n):
        evs = []
        for _ in range(s.weighted([(2, 0), (4, 1), (2, 2), (1, 4)])):
            evs.append(req(s, i))
            ids.append("r%d" % i)
            i += 1
        if ids and s.bool(.3):
            evs.append({"op": "abort", "rid": s.choice(ids)})
        if s.bool(.05):
            evs.append({"op": "abort", "rid": "nobody"})
        ticks.append(evs)
    return {"max_running": s.edge(1, 5), "max_prefill": maxpre, "max_total": maxtot, "eos": s.ints(0, V - 1, 0, 2),
            "ticks": ticks, "shared": s.bool(.3), "flip": s.int(0, 3)}


class M:
    """reference state of one request"""

    def __init__(self, e, eos):
        self.e, self.rid, self.n = e, e["rid"], e["len"]
        sp = e["sp"] or {}
        self.max_new = sp.get("max_new_tokens")
        if self.max_new is None:
            self.max_new = DEFAULT_LEN
        self.stops = set(sp.get("stop_token_ids") or []) | set(eos)
        self.ids = [(hash_(self.rid) + k * 5) % V for k in range(self.n)]
        self.prefix = min(e["prefix"] * self.n // 3, max(0, self.n - 1))
        self.out, self.sent = [], 0
        self.reason = None
        self.state = "pending"
        self.slot = None
        self.fin_msg = False

    def produce(self):
        t = tok(self.rid, len(self.out), self.e["salt"])
        self.out.append(t)
        if t in self.stops:
            self.reason = "eos"
        elif len(self.out) >= self.max_new:
            self.reason = "length"
        return t


def run(case, st):
    import queue
    from collections import deque
    import torch
    from pymllm.orchestrator.scheduler_process import SchedulerProcess
    from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager
    from pymllm.engine.io_struct import TokenizedGenerateReqInput

    eos = case["eos"]
    reqs, pending, running = {}, [], []
    freed, slots = {}, {}
    aborted = set()
    msgs = []
    pos = [0]
    log = []
    zq, sq = deque(), deque()
    state = {"idle": 0, "fwd": 0, "probe": False}
    cap = min(case["max_prefill"], case["max_total"])

    def used():
        return sum(r.n - r.prefix + len(r.out) if r.out else r.n for r in reqs.values() if r.state == "running")

    def got_abort(rid):
        r = reqs.get(rid)
        if r is None or r.fin_msg or r.rid in aborted:
            return
        aborted.add(rid)
        st.hit("abort of a %s request" % r.state)
        if r in pending:
            pending.remove(r)
            r.state = "done"
        r.reason = "abort"

    def got_request(r):
        reqs[r.rid] = r
        if not 0 < r.n <= cap:
            r.state, r.reason = "rejected", "abort"
            st.hit("prompt that can never run")
        else:
            pending.append(r)

    def deliver(evs):
        for e in evs:
            if e["op"] == "abort":
                zq.append((lambda rid=e["rid"]: got_abort(rid), {"rid": e["rid"], "abort": True}))
                continue
            r = M(e, eos)
            t = TokenizedGenerateReqInput(
                rid=r.rid, input_text="text " + r.rid, input_ids=list(r.ids),
                mm_inputs={"image_data": [r.rid]} if e["mm"] else None,
                sampling_params=dict(e["sp"]) if e["sp"] is not None else {}, stream=e["stream"], return_logprob=e["logprob"],
                logprob_start_len=3 if e["logprob"] else -1, top_logprobs_num=2 if e["logprob"] else 0)
            if case["shared"]:
                mm, t.mm_inputs = t.mm_inputs, None
                name = SharedMemoryManager.write_metadata(f"{os.getpid()}_{r.rid}", t)
                sq.append((lambda r=r: got_request(r), (r.rid, name, mm)))
            else:
                zq.append((lambda r=r: got_request(r), t))

    def advance():
        if pos[0] < len(case["ticks"]):
            deliver(case["ticks"][pos[0]])
            pos[0] += 1
            return True
        return False

    class Sock:
        def recv_pyobj(self, flags=0):
            need(zq, "receive from an empty socket")
            f, m = zq.popleft()
            f()
            return m

    class Poller:
        def poll(self, timeout=None):
            return [(sock, 1)] if zq else []

    class Queue_:
        def get(self, timeout=None):
            if not sq:
                raise queue.Empty
            f, m = sq.popleft()
            f()
            return m

    class Out:
        def send_pyobj(self, m):
            msgs.append(m)
            check_msg(m)

    def check_msg(m):
        eq(len(m["rids"]), 1, "rids in a message")
        rid = m["rids"][0]
        need(rid in reqs, "message for unknown request %s", rid)
        r = reqs[rid]
        need(rid not in aborted, "message for aborted request %s", rid)
        need(not r.fin_msg, "message for %s after its final one", rid)
        reason = m["finished_reasons"][0]
        eq(reason, r.reason, f"finish reason of {rid}")
        eq(m["decode_ids"], r.out[r.sent:], f"new tokens of {rid}")
        eq(m["read_offsets"], [r.sent], f"offset of {rid}")
        eq(list(m["output_ids"]), r.out, f"all tokens of {rid}")
        eq(m["prompt_tokens"], [r.n], "prompt_tokens")
        eq(m["completion_tokens"], [len(r.out)], "completion_tokens")
        if reason is None:
            need(r.e["stream"], "intermediate message for non-streaming %s", rid)
            need(len(r.out) > r.sent, "empty intermediate message")
            st.hit("streamed chunk")
        else:
            r.fin_msg = True
            st.hit("finished: " + reason)
        r.sent = len(r.out)

    def settle():
        need(not zq and not sq, "messages left unread when the next step is decided")
        """aborted running requests leave before the next batch is built"""
        for r in list(running):
            if r.reason is not None:
                running.remove(r)
                r.state = "done"

    def admissible():
        budget, u, n, new = case["max_prefill"], used(), len(running), []
        for r in pending:
            if n + len(new) < case["max_running"] and u + r.n <= case["max_total"] and r.n <= budget:
                new.append(r)
                u += r.n
                budget -= r.n
            else:
                st.note("request kept waiting")
        return new

    def pending_messages(asleep=False):
        for r in reqs.values():
            if r.rid in aborted or r.state == "rejected" and not asleep:
                continue
            if r.reason is not None and not r.fin_msg:
                need(False, "request %s finished (%s) but no final message was sent", r.rid, r.reason)
            if r.e["stream"] and r.state == "running":
                eq(r.sent, len(r.out), f"tokens streamed of running {r.rid}")

    class Runner:
        def _forward_batch(self, b):
            state["fwd"] += 1
            need(state["fwd"] < 3000, "the scheduler does not come to rest")
            if state["fwd"] > 1:
                pending_messages()
            settle()
            freed_check()
            new = admissible()
            order = []
            if new:
                eq(b["forward_mode"], "extend", "mode with admissible requests %s" % [r.rid for r in new])
                ms = b["requests"]
                eq([m["rid"] for m in ms], [r.rid for r in new], "admitted requests")
                eq(b["batch_size"], len(new), "batch_size")
                eq(list(b["input_ids"]), [t for r in new for t in r.ids], "prefill input_ids")
                eq(list(b["positions"]), [p for r in new for p in range(r.n)], "prefill positions")
                eq(list(b["seq_lens"]), [r.n for r in new], "prefill seq_lens")
                eq(list(b["extend_seq_lens"]), [r.n for r in new], "extend_seq_lens")
                eq(list(b["extend_prefix_lens"]), [0] * len(new), "extend_prefix_lens")
                for r, m, slot in zip(new, ms, b["req_pool_indices"]):
                    r.slot = slot
                    eq(list(m["input_ids"]), r.ids, "request input_ids")
                    eq(m["mm_inputs"], {"image_data": [r.rid]} if r.e["mm"] else None, "mm_inputs")
                    meta(r, m)
                    pending.remove(r)
                    running.append(r)
                    r.state = "running"
                order = new
                if len(new) > 1:
                    st.hit("batched prefill")
            else:
                eq(b["forward_mode"], "decode", "mode without admissible requests")
                ms = b["requests"]
                eq([m["rid"] for m in ms], [r.rid for r in running], "decoded requests")
                eq(list(b["input_ids"]), [r.out[-1] for r in running], "decode input_ids")
                eq(list(b["seq_lens"]), [r.n + len(r.out) for r in running], "decode seq_lens")
                eq(list(b["req_pool_indices"]), [r.slot for r in running], "decode slots")
                for r, m in zip(running, ms):
                    meta(r, m)
                order = list(running)
                if len(order) > 1:
                    st.hit("batched decode")
            live = [r.slot for r in running]
            eq(len(set(live)), len(live), "distinct slots of running requests")
            outs = []
            for r in order:
                o = {"rid": r.rid, "output_token_ids": [r.produce()]}
                if b["forward_mode"] == "extend":
                    o["prefix_len"] = r.prefix
                    if r.prefix:
                        st.hit("prefix hit")
                outs.append(o)
                if r.reason is not None:
                    running.remove(r)
                    r.state = "done"
            if case["flip"] == 1:
                outs.reverse()
            advance()
            return {"batch_id": b.get("batch_id"), "outputs": outs}

        def _free_rid_resources(self, rid):
            freed[rid] = freed.get(rid, 0) + 1
            r = reqs[rid]
            need(r.reason is not None, "resources of unfinished request %s freed", rid)
            need(freed[rid] == 1, "resources of %s freed twice", rid)

        def shutdown(self):
            pass

    def meta(r, m):
        sp = m["sampling_params"]
        for k, v in (r.e["sp"] or {}).items():
            if k == "stop_token_ids":
                need(set(sp[k]) == r.stops, "stop tokens of %s", r.rid)
            elif k == "max_new_tokens":
                eq(sp[k], r.max_new, "max_new_tokens")
            else:
                eq(sp.get(k), v, "sampling parameter " + k)
        for k in ("temperature", "top_k"):
            if k not in (r.e["sp"] or {}):
                need(k not in sp, "sampling parameter %s appeared", k)
        eq(m["return_logprob"], r.e["logprob"], "return_logprob")
        eq(m["logprob_start_len"], 3 if r.e["logprob"] else -1, "logprob_start_len")
        eq(m["top_logprobs_num"], 2 if r.e["logprob"] else 0, "top_logprobs_num")

    def freed_check():
        for r in reqs.values():
            want = 1 if r.state == "done" and r.slot is not None else 0
            eq(freed.get(r.rid, 0), want, f"times the resources of {r.rid} ({r.state}, {r.reason}) were freed")

    class Sleeper:
        def sleep(self):
            state["idle"] += 1
            need(state["idle"] < 200, "the scheduler sleeps over work")
            settle()
            pending_messages(True)
            freed_check()
            need(not running and not admissible(), "idle although %s could run", [r.rid for r in running + pending])
            if advance():
                return
            need(not pending, "request %s is never run", pending[:1])
            if not state["probe"]:
                # all budget must be back: the biggest legal request runs at once
                state["probe"] = True
                deliver([{"op": "req", "rid": "probe", "len": cap, "sp": {"max_new_tokens": 1}, "stream": False, "prefix": 0, "salt": 0,
                          "mm": False, "logprob": False}])
                return
            need(reqs["probe"].fin_msg, "the probe request did not finish")
            raise Stop

    sock = Sock()
    p = SchedulerProcess("ipc://a", "ipc://b", max_running_requests=case["max_running"], max_prefill_tokens=case["max_prefill"],
                         max_total_tokens=case["max_total"], eos_token_ids=eos, default_max_new_tokens=DEFAULT_LEN,
                         shared_queue=Queue_() if case["shared"] else None, enable_shared_queue=case["shared"])
    p._recv_from_tokenizer, p._poller, p._send_to_detokenizer = sock, Poller(), Out()
    p._idle_sleeper, p._model_runner = Sleeper(), Runner()
    advance()
    try:
        p.event_loop()
    except Stop:
        pass
    need(not [f for f in os.listdir("/dev/shm") if f.startswith(f"pymllm_meta_{os.getpid()}_")], "shared memory segments left behind")
    for r in reqs.values():
        if r.rid not in aborted:
            need(r.fin_msg, "no final message for %s", r.rid)


if __name__ == "__main__":
    vh.main("P04", [Part("loop", gen, run, 20000, shards=8, cpu_limit=20)],
            "a request history counts when a batch of several requests, a streamed chunk, an abort, a prefix hit, a rejected prompt or a finish (by reason) occurred in it",
            ["The model runner is a stand-in returning one token per request and step; sockets are in-process queues.",
             "Request ids are unique within a history."])
