#!/usr/bin/env python3
"""P01: the radix prefix cache against a reference trie of (namespace, prefix) -> index."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq


class Pool:
    """A checking allocator: every index is free or live, and a second free is an error."""

    def __init__(self, size, swa):
        import torch
        self.torch = torch
        self.device = torch.device("cpu")
        self.size = size
        self.free_list = list(range(1, size + 1))
        self.live = set()
        self.swa_live = set()
        self.freed = []
        self.swa_freed = []
        if swa:
            self.free_swa = self._free_swa

    def alloc(self, n):
        if n > len(self.free_list):
            return None
        out, self.free_list = self.free_list[:n], self.free_list[n:]
        self.live.update(out)
        self.swa_live.update(out)
        return out

    def free(self, idx):
        for i in idx.tolist() if hasattr(idx, "tolist") else idx:
            need(i in self.live, "index %d freed twice", i)
            self.live.discard(i)
            self.swa_live.discard(i)
            self.free_list.append(i)
            self.freed.append(i)

    def _free_swa(self, idx):
        for i in idx.tolist():
            need(i in self.live, "sliding-window KV of a free index %d freed", i)
            need(i in self.swa_live, "sliding-window KV of index %d freed twice", i)
            self.swa_live.discard(i)
            self.swa_freed.append(i)


class World:
    def __init__(self, case, st):
        import torch
        from pymllm.mem_cache.radix_cache import RadixCache
        from pymllm.mem_cache.base_prefix_cache import RadixKey
        self.torch, self.RadixKey, self.st = torch, RadixKey, st
        self.ps, self.win = case["ps"], case["win"]
        self.pool = Pool(case["pool"], self.win is not None)
        self.cache = RadixCache(page_size=self.ps, sliding_window_size=self.win, token_to_kv_pool_allocator=self.pool)
        self.ref = {}        # (ns, tokens up to the end of its page, position) -> index
        self.owner = {}      # index -> that key
        self.lo, self.hi = {}, {}   # last access bounds per key
        self.now = 0
        self.active = []     # requests holding a lock
        self.seqs = []       # earlier sequences, for prefix reuse

    # ---- helpers -------------------------------------------------------
    def align(self, n):
        return n // self.ps * self.ps

    def k(self, ns, toks, i):
        return (ns, toks[: -(-i // self.ps) * self.ps], i)

    def longest(self, ns, toks):
        n = 0
        for i in range(self.ps, self.align(len(toks)) + 1, self.ps):
            if self.k(ns, toks, i) not in self.ref:
                break
            n = i
        return n

    def path(self, ns, toks, n):
        return [self.ref[self.k(ns, toks, i)] for i in range(1, n + 1)]

    def touch(self, ns, toks, n):
        """An access that matched n tokens; anything sharing the first page may be refreshed too."""
        self.now += 1
        for i in range(1, n + 1):
            self.lo[self.k(ns, toks, i)] = self.now
        head = toks[: self.ps]
        for k in self.ref:
            if k[0] == ns and k[1][: self.ps] == head:
                self.hi[k] = self.now

    def locked(self):
        s = set()
        for r in self.active:
            for i in range(1, r["locked"] + 1):
                s.add(self.k(r["ns"], r["toks"], i))
        return s

    def swa_safe(self, idx):
        tail = idx[-self.win:] if self.win else []
        return all(i in self.pool.swa_live for i in tail)

    def match(self, ns, toks):
        m = self.cache.match_prefix(self.RadixKey(list(toks), ns))
        got = m.indices.tolist()
        want = self.longest(ns, toks)
        exp = self.path(ns, toks, want)
        eq(m.prefix_len, len(got), "reported prefix length vs indices")
        if self.win is None or all(i in self.pool.swa_live for i in exp):
            eq(got, exp, f"longest cached prefix of {toks} ns={ns}")
        else:
            self.st.hit("swa_constrained_match")
            eq(got, exp[:len(got)], f"cached prefix of {toks} ns={ns}")
            need(len(got) % self.ps == 0, "match not page aligned")
            need(self.swa_safe(got), "match %s ends in a window whose sliding-window KV was freed", got)
        if 0 < len(got) < len(toks):
            self.st.hit("partial_hit")
        self.touch(ns, toks, len(got))
        return m, got

    def forget(self, idx):
        k = self.owner.pop(idx)
        del self.ref[k]
        self.lo.pop(k, None)
        self.hi.pop(k, None)

    # ---- operations ----------------------------------------------------
    def evict(self, n, swa_n=0):
        before = dict(self.ref)
        locked = self.locked()
        swa_before = set(self.pool.swa_live)
        evictable = self.cache.evictable_size()
        mark, smark = len(self.pool.freed), len(self.pool.swa_freed)
        r = self.cache.evict(n, swa_n)
        freed = self.pool.freed[mark:]
        sfreed = self.pool.swa_freed[smark:]
        eq(r.full_evicted, len(freed), "reported number of evicted tokens")
        for i in freed:
            need(i in self.owner, "eviction freed index %d the cache does not own", i)
            need(self.owner[i] not in locked, "eviction freed a locked prefix %s", self.owner.get(i))
        need(len(freed) >= min(n, evictable), "evict(%d) freed %d of %d evictable tokens", n, len(freed), evictable)
        if n == 0 and swa_n == 0:
            eq(freed, [], "evict(0)")
        gone = {self.owner[i] for i in freed}
        # least recently used first (bounds make it a sound test)
        if gone and swa_n == 0:
            rest = [k for k in before if k not in gone]
            inner = {(k[0], k[1][:-self.ps]) for k in rest}
            leaves = [k for k in rest if k[:2] not in inner and k not in locked]
            for g in gone:
                if before[g] not in swa_before:
                    continue  # a tombstoned parent goes together with its last child
                for l in leaves:
                    # l must have been a leaf of its own before: nothing of its subtree went
                    if any(x[0] == l[0] and x[1][:len(l[1])] == l[1] for x in gone):
                        continue
                    # tokens of g that sit below/above l on one path are ordered by the tree itself
                    if g[0] == l[0] and g[1][:self.ps] == l[1][:self.ps]:
                        continue
                    need(self.lo.get(g, 0) <= self.hi.get(l, 0),
                         "evicted %s (used at %s) while %s (last used at %s) stayed", g, self.lo.get(g), l, self.hi.get(l))
            if leaves and len(freed):
                self.st.hit("evict_chose")
        for i in freed:
            self.forget(i)
        for (ns, p, i) in self.ref:
            need(i == 1 or self.k(ns, p, i - 1) in self.ref, "eviction left position %d of %s without its prefix", i, p)
        for i in sfreed:
            need(i in self.owner, "sliding-window eviction of an index the cache does not own")
        if sfreed:
            self.st.hit("tombstone")
            for q in self.active:
                idx = self.path(q["ns"], q["toks"], q["locked"])
                for i in idx[-self.win:]:
                    need(i not in sfreed, "sliding-window KV of a locked window was evicted")
        if freed:
            self.st.hit("evict_freed")

    def alloc(self, n):
        got = self.pool.alloc(n)
        if got is None:
            self.evict(n)
            got = self.pool.alloc(n)
        return got

    def insert(self, ns, toks, own, protected, swa_evicted):
        """Insert; apply the ownership contract; returns the new aligned prefix in the tree."""
        n0 = len(self.pool.freed)
        want = self.longest(ns, toks)
        al = self.align(len(toks))
        locked = self.locked()
        kw = {}
        if self.win is not None:
            kw = dict(prev_prefix_len=protected, swa_evicted_seqlen=swa_evicted)
        r = self.cache.insert(self.RadixKey(list(toks), ns), self.torch.tensor(own, dtype=self.torch.int64), **kw)
        eq(r.prefix_len, want, f"tokens of {toks} reported as already cached")
        if self.win is None:
            eq(len(self.pool.freed), n0, "insert freed indices itself")
            dup = own[protected:want]
            if dup:
                self.st.hit("duplicate_insert")
                self.pool.free(dup)
        else:
            freed = set(self.pool.freed[n0:])
            for i in range(want):
                k = self.k(ns, toks, i + 1)
                old = self.ref[k]
                if i < protected:
                    need(own[i] not in freed, "insert freed protected index %d", own[i])
                    continue
                if old in freed:
                    self.st.hit("untombstone")
                    need(own[i] not in freed, "both copies of a position were freed")
                    need(k not in locked, "insert replaced (and freed) an index a locked request reads")
                    need(old not in self.pool.swa_live, "insert replaced a live index")
                    del self.owner[old]
                    self.ref[k] = own[i]
                    self.owner[own[i]] = k
                else:
                    need(own[i] in freed, "duplicate index %d neither freed nor adopted", own[i])
            need(all(own[i] not in freed for i in range(want, len(own))), "insert freed a newly inserted index")
        for i in range(want, al):
            k = self.k(ns, toks, i + 1)
            self.ref[k] = own[i]
            self.owner[own[i]] = k
        self.touch(ns, toks, al)
        if self.win is not None:
            # windows that were claimed evicted stay dead
            for i in range(want, min(swa_evicted, al)):
                self.pool.swa_live.discard(own[i])
        if want < al and want:
            self.st.hit("branch_insert")
        return al

    def request(self, ns, toks, swa_evicted, keep):
        m, got = self.match(ns, toks)
        tok = self.cache.inc_lock_ref(m.last_node)
        req = {"ns": ns, "toks": toks, "node": m.last_node, "tok": tok, "locked": len(got)}
        self.active.append(req)
        new = self.alloc(len(toks) - len(got))
        if new is None:
            self.st.note("pool_full")
            self.drop(req)
            return
        own = got + new
        swa_evicted = self.align(min(swa_evicted, max(0, self.align(len(toks)) - (self.win or 0))))
        swa_evicted = swa_evicted if swa_evicted > len(got) else 0
        if self.win is not None:
            for i in own[len(got):swa_evicted]:
                self.pool.swa_live.discard(i)
        al = self.insert(ns, toks, own, len(got), swa_evicted)
        m2, got2 = self.match(ns, toks)
        if self.win is None:
            eq(len(got2), al, "prefix right after insert")
        tok2 = self.cache.inc_lock_ref(m2.last_node)
        self.cache.dec_lock_ref(req["node"], req["tok"]) if tok is not None or self.win is not None else self.cache.dec_lock_ref(req["node"])
        req.update(node=m2.last_node, tok=tok2, locked=len(got2), tail=own[al:])
        if not keep:
            self.drop(req)

    def drop(self, req):
        self.active.remove(req)
        if req["tok"] is not None:
            self.cache.dec_lock_ref(req["node"], req["tok"])
        else:
            self.cache.dec_lock_ref(req["node"])
        if req.get("tail"):
            self.pool.free(req["tail"])

    def finish(self, req, more):
        """Decode `more` tokens, insert the whole sequence, unlock."""
        ns, toks = req["ns"], req["toks"]
        if req.get("extra"):
            self.drop(req)
            return
        new = self.alloc(len(more)) if more else []
        if new is None or (self.win is not None and self.align(len(toks)) != req["locked"]):
            # cannot continue this request (its own match was window-limited)
            if new:
                self.pool.free(new)
            self.drop(req)
            return
        prot = req["locked"]
        own = self.path(ns, toks, prot) + req.get("tail", []) + new
        full = toks + tuple(more)
        eq(len(own), len(full), "harness: owned indices")
        req["tail"] = []
        al = self.insert(ns, full, own, prot, 0)
        req["tail"] = own[al:]
        self.drop(req)
        if more:
            self.st.hit("decode_insert")

    def invariant(self):
        c = self.cache
        eq(c.total_size(), len(self.ref), "total_size")
        locked = self.locked()
        eq(c.protected_size(), len(locked), "protected_size")
        eq(c.evictable_size(), len(self.ref) - len(locked), "evictable_size")
        for i in self.owner:
            need(i in self.pool.live, "the cache holds freed index %d", i)
        if self.win is not None:
            alive = sum(1 for i in self.owner if i in self.pool.swa_live)
            eq(c.swa_evictable_size() + c.swa_protected_size(), alive, "sliding-window sizes")
            win = set()
            for q in self.active:
                win.update(self.path(q["ns"], q["toks"], q["locked"])[-self.win:])
            need(c.swa_protected_size() >= len(win), "swa_protected_size %d < %d", c.swa_protected_size(), len(win))
            if not self.active:
                eq(c.swa_protected_size(), 0, "swa_protected_size without locks")


def run(case, st):
    w = World(case, st)
    for op in case["ops"]:
        k = op[0]
        if k in ("req", "query"):
            toks = tuple(op[2])
            if op[3] is not None and w.seqs:
                b, cut = op[3]
                base = w.seqs[b % len(w.seqs)]
                toks = (base[: cut % (len(base) + 1)] + toks)[:20]
            if not toks:
                continue
            w.seqs.append(toks)
            if k == "req":
                w.request(op[1], toks, op[4], op[5])
            else:
                w.match(op[1], toks)
        elif k == "fin" and w.active:
            w.finish(w.active[op[1] % len(w.active)], op[2])
        elif k == "abort" and w.active:
            w.drop(w.active[op[1] % len(w.active)])
        elif k == "lock" and w.active:
            # a second, independent lock on the prefix a running request holds
            r = w.active[op[1] % len(w.active)]
            m, got = w.match(r["ns"], r["toks"])
            t = w.cache.inc_lock_ref(m.last_node)
            w.active.append({"ns": r["ns"], "toks": r["toks"], "node": m.last_node, "tok": t, "locked": len(got), "tail": [],
                             "extra": True})
            st.hit("shared_lock")
        elif k == "evict":
            w.evict(op[1], op[2] if w.win is not None else 0)
        elif k == "reset" and not w.active:
            w.cache.reset()
            w.pool.free(list(w.owner))
            w.ref.clear(); w.owner.clear(); w.lo.clear(); w.hi.clear()
        w.invariant()
    # drain: nothing may be lost
    for r in list(w.active):
        w.drop(r)
    w.invariant()
    w.evict(10 ** 6)
    w.invariant()
    eq(w.cache.total_size(), 0, "tokens left after evicting everything")
    eq(sorted(w.pool.free_list), list(range(1, w.pool.size + 1)), "indices after evicting everything")


def gen(ps, win, pools):
    def go(s):
        p, w = s.choice(ps), s.choice(win)
        abc = s.choice([2, 2, 3])

        def op(s):
            k = s.weighted([(8, "req"), (2, "query"), (4, "fin"), (1, "abort"), (1, "lock"), (3, "evict"), (.15, "reset")])
            if k in ("req", "query"):
                ns = s.weighted([(6, None), (1, "a"), (1, "b")])
                ref = [s.int(0, 30), s.int(0, 20)] if s.bool(.6) else None
                toks = s.ints(0, abc - 1, 0, 4 if ref else 12)
                if k == "query":
                    return [k, ns, toks, ref]
                return [k, ns, toks, ref, s.int(0, 12) if w and s.bool(.4) else 0, s.bool(.5)]
            if k == "fin":
                return [k, s.int(0, 9), s.ints(0, abc - 1, 0, 5)]
            if k in ("abort", "lock"):
                return [k, s.int(0, 9)]
            if k == "evict":
                return [k, s.int(0, 12) if not w or s.bool() else 0, s.int(0, 8) if w else 0]
            return [k]
        return {"ps": p, "win": w, "pool": s.choice(pools), "ops": s.list(op, 1, 40)}
    return go


def make():
    import pymllm.mem_cache.radix_cache  # noqa
    return [
        Part("plain", gen([1], [None], [20, 40, 60, 200]), run, 20000, shards=3),
        Part("paged", gen([2, 3, 4], [None], [24, 40, 60, 200]), run, 13000, shards=2),
        Part("swa", gen([1, 1, 2], [1, 2, 3, 5, 8], [30, 60, 200]), run, 20000, shards=3),
    ]


vh.main("P01", make, "a history of requests (match, lock, insert, re-match), completions, aborts, evictions and queries over a small "
        "alphabet; non-trivial when it had a partial hit, a duplicate or branching insert, an eviction that freed something, "
        "a shared lock, or a sliding-window tombstone",
        ["indices and time are modelled; the tree runs with its real code on CPU tensors"])
