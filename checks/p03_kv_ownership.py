#!/usr/bin/env python3
"""P03: KV / recurrent-state ownership in the model-runner process over request histories.

The model is a stand-in whose KV entry for a position is the exact token prefix
it was computed from, and whose recurrent state is the exact token history.
Every forward pass checks that each request reads entries made from its own
prefix, and every pool is a checking pool (double free, leaks).
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq
from types import SimpleNamespace as NS


def make_world(case, st):
    import torch
    from pymllm.executor import model_runner as MR
    from pymllm.mem_cache.memory_pool import TokenToKVPoolAllocator, ReqToTokenPool, GDNPool

    class Alloc(TokenToKVPoolAllocator):
        def clear(self):
            super().clear()
            self.live = set()

        def alloc(self, n):
            out = super().alloc(n)
            if out is not None:
                for i in out.tolist():
                    need(i not in self.live, "index %d allocated twice", i)
                    need(1 <= i <= self.size, "index %d out of range", i)
                    self.live.add(i)
            return out

        def free(self, idx):
            for i in idx.tolist():
                need(i in self.live, "KV index %d freed although it is not allocated", i)
                self.live.discard(i)
            super().free(idx)

    class Slots(ReqToTokenPool):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.used = set()

        def alloc(self, n=1):
            out = super().alloc(n)
            for s in out or []:
                need(s not in self.used, "request slot %d allocated twice", s)
                self.used.add(s)
            return out

        def free(self, slot):
            need(slot in self.used, "request slot %s freed twice", slot)
            self.used.discard(slot)
            super().free(slot)

    class Gdn(GDNPool):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.tracks = set()

        def alloc_track_slot(self):
            s = super().alloc_track_slot()
            if s is not None:
                need(s not in self.tracks, "track slot %d allocated twice", s)
                self.tracks.add(s)
            return s

        def free_track_slot(self, s):
            need(s in self.tracks, "track slot %s freed twice", s)
            self.tracks.discard(s)
            super().free_track_slot(s)

    class Runner:
        prepare_forward_batch_extend = MR.ModelRunner.prepare_forward_batch_extend
        prepare_forward_batch_decode = MR.ModelRunner.prepare_forward_batch_decode

        def __init__(self, **kw):
            mode = case["mode"]
            self.device = "cpu"
            self.num_gdn_layers = 1 if mode in ("hybrid", "mamba_hybrid", "chunk_hybrid") else 0
            self.sliding_window_size = case["win"] if mode == "swa" else None
            self.token_to_kv_pool_allocator = Alloc(case["pool"], device="cpu")
            self.token_to_kv_pool = None
            self.attn_backend = None
            self.req_to_token_pool = Slots(case["slots"], 64, device="cpu")
            self.gdn_pool = None
            if self.num_gdn_layers:
                self.gdn_pool = Gdn(case["slots"], 1, 1, 1, 1, 1, 2, device="cpu", dtype=torch.float32,
                                    max_track_slots=case["tracks"])
                self.gdn_pool.recurrent_state.fill_(-7)
            self.kv = {}        # index -> token prefix (tuple) the entry was computed from
            self.hist = {(): 0}  # token history -> state number
            self.expect = None
            self.next_tokens = None

        def initialize(self):
            pass

        def shutdown(self):
            pass

        def state(self, toks):
            return self.hist.setdefault(toks, len(self.hist))

        def forward(self, fb):
            reqs = self.expect
            rows = fb.req_pool_indices.tolist()
            eq(len(rows), len(reqs), "batch size")
            need(len(set(rows)) == len(rows), "two requests of one batch share a slot")
            table = self.req_to_token_pool.req_to_token
            ext = fb.forward_mode.is_extend()
            ids, loc, pos = fb.input_ids.tolist(), fb.out_cache_loc.tolist(), fb.positions.tolist()
            need(len(set(loc)) == len(loc), "two tokens write one KV index")
            off = 0
            for i, q in enumerate(reqs):
                full = q["toks"]
                n = len(full)
                eq(int(fb.seq_lens[i]), n, "sequence length")
                if ext:
                    p, e = int(fb.extend_prefix_lens[i]), int(fb.extend_seq_lens[i])
                    eq(p + e, n, "prefix + extend length")
                    need(e >= 1, "empty extend")
                    q["prefix"] = p
                else:
                    p, e = n - 1, 1
                eq(tuple(ids[off:off + e]), full[p:], f"input tokens of {q['rid']}")
                eq(pos[off:off + e], list(range(p, n)), f"positions of {q['rid']}")
                row = table[rows[i], :n].tolist()
                eq(row[p:], loc[off:off + e], f"mapping of the new tokens of {q['rid']}")
                for j in range(p):
                    eq(self.kv.get(row[j]), full[:j + 1], f"KV read by {q['rid']} at position {j} (index {row[j]})")
                if self.gdn_pool is not None:
                    got = float(self.gdn_pool.recurrent_state[0, rows[i], 0, 0, 0])
                    eq(got, float(self.state(full[:p])), f"recurrent state of {q['rid']} after {p} tokens")
                off += e
            off = 0
            for i, q in enumerate(reqs):
                full = q["toks"]
                p = q["prefix"] if ext else len(full) - 1
                for j in range(p, len(full)):
                    k = loc[off + j - p]
                    need(k in self.token_to_kv_pool_allocator.live, "write to the unallocated KV index %d", k)
                    self.kv[k] = full[:j + 1]
                off += len(full) - p
                if self.gdn_pool is not None:
                    v = float(self.state(full))
                    self.gdn_pool.recurrent_state[0, rows[i]] = v
                    self.gdn_pool.conv_state[0, rows[i]] = v
            if ext and case["mrope"]:
                fb.mrope_position_deltas = torch.tensor([q["delta"] for q in reqs])
            elif not ext:
                eq(fb.mrope_position_deltas.tolist(), [q["delta"] if case["mrope"] else 0 for q in reqs], "m-rope deltas")
            eq(off, len(loc), "number of new tokens")
            return None

        def sample(self, out, fb, temperatures=None, top_ps=None, top_ks=None, penalty_params=None, is_all_greedy=None):
            sps = [q["sp"] for q in self.expect]
            for name, t, d in (("temperature", temperatures, 1.0), ("top_p", top_ps, 1.0), ("top_k", top_ks, -1)):
                want = [sp.get(name, d) for sp in sps]
                need(all(abs(a - b) < 1e-5 for a, b in zip(t.tolist(), want)) and len(t) == len(want),
                     "%s given to the sampler: %s, want %s", name, t.tolist(), want)
            eq(bool(is_all_greedy), all(sp.get("temperature", 1.0) < 1e-6 for sp in sps), "greedy flag")
            pen = any(sp.get("repetition_penalty", 1.0) != 1.0 or sp.get("frequency_penalty", 0.0) or sp.get("presence_penalty", 0.0)
                      for sp in sps)
            if pen:
                need(penalty_params is not None, "penalties dropped")
                eq([tuple(h) for h in penalty_params["token_histories"]], [q["toks"] for q in self.expect], "penalty histories")
                for nm, key, d in (("repetition_penalties", "repetition_penalty", 1.0), ("frequency_penalties", "frequency_penalty", 0.0),
                                   ("presence_penalties", "presence_penalty", 0.0)):
                    want = [sp.get(key, d) for sp in sps]
                    need(all(abs(a - b) < 1e-5 for a, b in zip(penalty_params[nm].tolist(), want)), "%s %s", nm, want)
            return torch.tensor(self.next_tokens)

    from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
    mode = case["mode"]
    sc = NS(disable_radix_cache=mode.startswith("chunk"), enable_mamba_cache=mode.startswith("mamba"), radix_cache_page_size=case["ps"])
    mrp = ModelRunnerProcess(gpu_id=0, server_config=sc, model_config=None)
    keep = MR.ModelRunner
    MR.ModelRunner = Runner
    try:
        mrp.init_model()
    finally:
        MR.ModelRunner = keep
    return mrp, mrp._runner


def run(case, st):
    mrp, rn = make_world(case, st)
    al = rn.token_to_kv_pool_allocator
    cached_mode = case["mode"] in ("radix", "mamba", "swa")
    active, hist, inserted = [], [], set()
    evictions = [0]
    cache = mrp._radix_cache
    old_evict = cache.evict

    def spy(*a, **k):
        r = old_evict(*a, **k)
        evictions[0] += 1
        if r.full_evicted:
            st.hit("evicted")
        return r
    cache.evict = spy
    rid = 0
    ps = case["ps"]

    def in_use():
        s = set()
        for q in active:
            s.update(rn.req_to_token_pool.req_to_token[q["slot"], :len(q["toks"]) - 1].tolist())
        return len(s)

    def meta(q, ids):
        m = {"rid": q["rid"], "sampling_params": q["sp"], "mm_inputs": None, "return_logprob": False,
             "logprob_start_len": -1, "top_logprobs_num": 0}
        if ids:
            m["input_ids"] = list(q["toks"])
        return m

    def remember(toks):
        for i in range(1, len(toks) + 1):
            inserted.add(toks[:i])

    def finish(q):
        active.remove(q)
        mrp._free_rid_resources(q["rid"])
        if cached_mode:
            remember(q["toks"][:-1][: (len(q["toks"]) - 1) // ps * ps])
        if q["steps"]:
            st.hit("finished_after_decode")

    for op in case["ops"]:
        if op[0] == "extend":
            new = []
            for base, cut, tail, sp in op[1]:
                toks = tuple(tail)
                if base is not None and hist:
                    b = hist[base % len(hist)]
                    toks = (b[: cut % (len(b) + 1)] + toks)[:24]
                if not toks:
                    continue
                rid += 1
                new.append({"rid": f"r{rid}", "toks": toks, "sp": sp, "delta": rid * 3, "steps": 0})
            if not new:
                continue
            fits_slots = len(new) <= case["slots"] - len(active)
            base_use = in_use()
            lower = sum(len(q["toks"]) for q in new)
            batch = {"forward_mode": "extend", "batch_size": len(new), "batch_id": rid,
                     "input_ids": [t for q in new for t in q["toks"]], "seq_lens": [len(q["toks"]) for q in new],
                     "extend_seq_lens": [len(q["toks"]) for q in new], "extend_prefix_lens": [0] * len(new),
                     "positions": [], "req_pool_indices": [0] * len(new), "requests": [meta(q, True) for q in new]}
            rn.expect, rn.next_tokens = new, [op[2][i % len(op[2])] for i in range(len(new))]
            ev0 = evictions[0]
            seen = set(inserted)
            try:
                res = mrp._forward_batch(batch)
            except RuntimeError as e:
                if "alloc" not in str(e).lower():
                    raise
                need(not fits_slots or base_use + lower + 4 * len(new) * (ps + 1) > case["pool"],
                     "allocation failed although %d of %d indices are in use and %d are needed: %s", base_use, case["pool"], lower, e)
                st.note("refused")
                continue
            need(fits_slots, "more requests admitted than slots")
            eq([o["rid"] for o in res["outputs"]], [q["rid"] for q in new], "order of results")
            for q, o in zip(new, res["outputs"]):
                eq(o["output_token_ids"], [rn.next_tokens[new.index(q)]], "sampled token")
                eq(o["prefix_len"], q["prefix"], "reported prefix length")
                if q["prefix"]:
                    st.hit("prefix_reused")
                need(q["prefix"] < len(q["toks"]), "no token is computed")
                if case["mode"].startswith("chunk"):
                    eq(q["prefix"], 0, "prefix reuse with the cache disabled")
                if cached_mode and evictions[0] == 0:
                    n, L = 0, len(q["toks"]) // ps * ps
                    while n < L and q["toks"][:n + ps] in seen:
                        n += ps
                    if n >= len(q["toks"]) - 1:  # at least two tokens are recomputed, where there are two
                        n = max(len(q["toks"]) - 2, 0)
                    eq(q["prefix"], n, f"reuse of the cached prefix of {q['toks']}")
                slot = None
            slots = mrp._rid_to_req_pool_idx
            for q in new:
                q["slot"] = slots[q["rid"]]
                if cached_mode:
                    remember(q["toks"][: len(q["toks"]) // ps * ps])
                hist.append(q["toks"])
                q["toks"] = q["toks"] + (rn.next_tokens[new.index(q)],)
                active.append(q)
            if len(new) > 1:
                st.hit("batched_extend")
        elif op[0] == "decode" and active:
            sel = active if not op[1] else [active[i] for i in sorted({x % len(active) for x in op[1]})]
            sel = [q for q in sel if len(q["toks"]) < 60]
            if not sel:
                continue
            batch = {"forward_mode": "decode", "batch_size": len(sel), "batch_id": rid,
                     "input_ids": [q["toks"][-1] for q in sel], "seq_lens": [len(q["toks"]) for q in sel],
                     "positions": [], "req_pool_indices": [0] * len(sel), "requests": [meta(q, False) for q in sel]}
            rn.expect, rn.next_tokens = sel, [op[2][i % len(op[2])] for i in range(len(sel))]
            use = in_use()
            try:
                res = mrp._forward_batch(batch)
            except RuntimeError as e:
                if "alloc" not in str(e).lower():
                    raise
                need(use + len(sel) + 4 * ps * len(active) > case["pool"], "decode allocation failed with %d of %d indices in use: %s",
                     use, case["pool"], e)
                st.note("decode_refused")
                finish(active[0])
                continue
            eq([(o["rid"], o["output_token_ids"]) for o in res["outputs"]],
               [(q["rid"], [t]) for q, t in zip(sel, rn.next_tokens)], "decode results")
            for q, t in zip(sel, rn.next_tokens):
                q["toks"] += (t,)
                q["steps"] += 1
            if len(sel) > 1:
                st.hit("batched_decode")
        elif op[0] == "finish" and active:
            q = active[op[1] % len(active)]
            hist.append(q["toks"])
            finish(q)
        # no live request may hold an index that is free
        for q in active:
            row = rn.req_to_token_pool.req_to_token[q["slot"], :len(q["toks"]) - 1].tolist()
            for j, i in enumerate(row):
                need(i in al.live, "live request %s still uses freed KV index %d", q["rid"], i)
        eq(len(rn.req_to_token_pool.used), len(active), "request slots in use")
        total = cache.total_size()
        need(total <= len(al.live), "the cache holds %d indices, %d are allocated", total, len(al.live))
    for q in list(active):
        finish(q)
    eq(rn.req_to_token_pool.available_size(), case["slots"], "request slots after all requests finished")
    eq(len(al.live), cache.total_size(), "allocated KV indices after all requests finished (rest is leaked)")
    eq(cache.protected_size(), 0, "locked tokens after all requests finished")
    if not case["mode"].startswith("chunk"):
        for _ in range(3):
            old_evict(10 ** 6)
    eq(al.available_size(), case["pool"], "KV indices available after evicting everything")
    if rn.gdn_pool is not None and not case["mode"].startswith("chunk"):
        eq(len(rn.gdn_pool.tracks), 0, "track slots after evicting everything")


def gen(modes):
    def go(s):
        mode = s.choice(modes)
        abc = s.choice([2, 3])

        def sp(s):
            d = {}
            if s.bool(.3):
                d["temperature"] = s.choice([0.0, 0.5, 1.5])
            if s.bool(.2):
                d["top_p"] = s.choice([0.5, 0.9])
            if s.bool(.2):
                d["top_k"] = s.int(1, 50)
            if s.bool(.2):
                d["repetition_penalty"] = 1.5
            if s.bool(.1):
                d["presence_penalty"] = 0.5
            if s.bool(.1):
                d["frequency_penalty"] = 0.25
            return d

        def one(s):
            base = s.int(0, 40) if s.bool(.65) else None
            return [base, s.int(0, 24), s.ints(0, abc - 1, 0, 3 if base is not None else 10), sp(s)]

        def op(s):
            k = s.weighted([(5, "extend"), (8, "decode"), (4, "finish")])
            if k == "extend":
                return [k, s.list(one, 1, 3), s.ints(0, abc - 1, 1, 3)]
            if k == "decode":
                return [k, s.ints(0, 9, 0, 3) if s.bool(.3) else [], s.ints(0, abc - 1, 1, 3)]
            return [k, s.int(0, 9)]
        paged = mode in ("radix", "mamba", "swa") and s.bool(.3)
        return {"mode": mode, "win": s.choice([1, 2, 4, 8]), "pool": s.choice([30, 60, 100, 400]), "slots": s.int(1, 6),
                "tracks": s.int(0, 5), "ps": s.choice([2, 3, 4]) if paged else 1, "mrope": s.bool(.3), "ops": s.list(op, 2, 40)}
    return go


def make():
    import pymllm.orchestrator.model_runner_process  # noqa
    return [
        Part("radix", gen(["radix"]), run, 6000, shards=3),
        Part("chunk", gen(["chunk", "chunk_hybrid"]), run, 2400, shards=1),
        Part("swa", gen(["swa"]), run, 3000, shards=1),
        Part("hybrid", gen(["hybrid", "mamba_hybrid"]), run, 5000, shards=2),
        Part("mamba", gen(["mamba"]), run, 2400, shards=1),
    ]


vh.main("P03", make, "a history of batched prefills (sharing prefixes), decode steps over subsets and completions against one KV pool; "
        "non-trivial when a prefix was reused, a batch held several requests, a request finished after decoding, or eviction ran",
        ["the network itself is a stand-in that records what each KV entry was computed from; CUDA graphs are not exercised"])
