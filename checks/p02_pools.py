#!/usr/bin/env python3
"""P02: KV index allocator, request table, KV storage and recurrent-state pool against set / dict models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq


# ---------------------------------------------------------------- KV storage + index allocator
def gen_kv(s):
    ps = s.weighted([(4, 1), (1, 2), (1, 4), (1, 16), (1, 32)])
    size = s.int(1, 40) if ps == 1 else s.int(ps, 4 * ps + 9)

    def op(s):
        k = s.weighted([(6, "alloc"), (5, "free"), (2, "group"), (1, "part"), (.2, "clear")])
        if k == "alloc":
            return [k, s.edge(0, size + 2) if s.bool(.3) else s.int(1, max(1, size // 3))]
        if k == "group":
            return [k, s.ints(0, 20, 0, 4)]
        return [k, s.int(0, 20), s.int(0, 40)]
    return {"ps": ps, "size": size, "sort": s.bool(.7), "kh": s.int(1, 3), "vh": s.int(1, 3), "layers": s.int(1, 2),
            "shape": s.int(0, 2), "ops": s.list(op, 1, 40)}


def run_kv(case, st):
    import torch
    from pymllm.mem_cache.memory_pool import make_full_attention_net_mem_pool
    ps, size = case["ps"], case["size"]
    kv, al = make_full_attention_net_mem_pool(
        size=size, layer_num=case["layers"], k_head_num=case["kh"], k_head_dim=2, v_head_num=case["vh"], v_head_dim=3,
        device="cpu", dtype=torch.float32, page_size=ps, need_sort=case["sort"], pin_memory=False)
    total = size // ps * ps
    held = []            # list of lists of indices
    model = {}           # (layer, index) -> (k, v) token written
    stamp = 0

    def free_all_pages():
        return total - sum(-(-len(h) // ps) * ps for h in held)

    for op in case["ops"]:
        if op[0] == "alloc":
            n = op[1]
            avail = al.available_size()
            fits = -(-n // ps) * ps <= avail
            got = al.alloc(n)
            eq(got is not None, fits, f"alloc({n}) with {avail} available")
            if got is None:
                st.hit("refused")
                continue
            idx = got.tolist()
            eq(len(idx), n, "number of allocated indices")
            need(len(set(idx)) == n, "duplicate index in one allocation: %s", idx)
            used = {i // ps if ps > 1 else i for h in held for i in h}
            need(not used & {i // ps if ps > 1 else i for i in idx}, "index handed out while still allocated: %s", idx)
            for i in idx:
                need(i >= 1, "the padding slot was handed out")
                if ps == 1:
                    need(i <= size, "index %d > size %d", i, size)
            if ps > 1:
                for j in range(0, n, ps):
                    page = idx[j:j + ps]
                    eq(page, list(range(page[0], page[0] + len(page))), "indices of one page")
                    eq(page[0] % ps, 0, "page start")
            if case["sort"] and n == avail and n:
                eq(idx, sorted(idx), "sorted allocation of everything")
            if not n:
                continue
            held.append(idx)
            # every index must be usable storage, distinct from all others
            for layer in range(case["layers"]):
                stamp += 1
                base = torch.arange(n, dtype=torch.float32) + stamp * 1000
                k = base[:, None, None].expand(n, case["kh"], 2).clone()
                v = -base[:, None, None].expand(n, case["vh"], 3).clone()
                k[..., 1] += .5
                if case["shape"] == 1:
                    kk, vv, ii = k.reshape(1, n, case["kh"], 2), v.reshape(1, n, case["vh"], 3), got[None]
                else:
                    kk, vv, ii = k, v, got
                kv.set_kv_buffer(layer, ii.long(), kk, vv)
                for j, i in enumerate(idx):
                    model[(layer, i)] = (k[j].tolist(), v[j].tolist())
            if len(held) > 1:
                st.hit("several_live")
        elif op[0] == "free" and held:
            h = held.pop(op[1] % len(held))
            al.free(torch.tensor(h, dtype=torch.int64 if op[2] % 2 else torch.int32))
            st.note("free")
        elif op[0] == "part" and held:
            # give back a page-aligned part of one allocation
            j = op[1] % len(held)
            h = held[j]
            cut = op[2] % (len(h) + 1) // ps * ps
            if op[2] % 3 == 0:
                back, keep = h[:cut], h[cut:]
            else:
                keep, back = h[:cut], h[cut:]
            al.free(torch.tensor(back, dtype=torch.int32))
            if keep:
                held[j] = keep
            else:
                held.pop(j)
            st.hit("partial_free")
        elif op[0] == "group":
            before = al.available_size()
            al.free_group_begin()
            for j in op[1]:
                if held:
                    al.free(torch.tensor(held.pop(j % len(held)), dtype=torch.int32))
            eq(al.available_size(), before, "available size inside a free group")
            al.free_group_end()
            st.hit("group")
        elif op[0] == "clear":
            al.clear()
            held.clear()
        eq(al.available_size(), free_all_pages(), "available_size")
        for h in held:
            for layer in range(case["layers"]):
                k, v = kv.get_kv_buffer(layer)
                gk, gv = k[h].tolist(), v[h].tolist()
                for j, i in enumerate(h):
                    eq((gk[j], gv[j]), model[(layer, i)], f"K/V stored at index {i} of layer {layer}")
    for h in held:
        al.free(torch.tensor(h, dtype=torch.int32))
    eq(al.available_size(), total, "available size after freeing everything")
    got = al.alloc(total)
    need(got is not None and len(set(got.tolist())) == total, "all slots can be allocated again")


# ---------------------------------------------------------------- request table
def gen_req(s):
    n, m = s.int(1, 6), s.int(1, 12)

    def op(s):
        k = s.weighted([(4, "alloc"), (3, "free"), (5, "write"), (.3, "clear")])
        if k == "alloc":
            return [k, s.int(1, n + 1)]
        a = s.int(0, m)
        return [k, s.int(0, 9), a, s.int(a, m), s.int(1, 10 ** 6)]
    return {"n": n, "m": m, "ops": s.list(op, 1, 40)}


def run_req(case, st):
    import torch
    from pymllm.mem_cache.memory_pool import make_req_to_token_pool
    p = make_req_to_token_pool(case["n"], case["m"], device="cpu")
    live = {}
    for op in case["ops"]:
        if op[0] == "alloc":
            avail = case["n"] - len(live)
            got = p.alloc(op[1])
            eq(got is not None, op[1] <= avail, f"alloc({op[1]}) with {avail} free slots")
            if got is None:
                st.hit("refused")
                continue
            eq(len(got), op[1], "number of slots")
            for g in got:
                need(g not in live and 0 <= g < case["n"], "slot %d handed out while in use", g)
                live[g] = {}
            need(len(set(got)) == len(got), "slot handed out twice in one call")
        elif op[0] == "free" and live:
            g = sorted(live)[op[1] % len(live)]
            p.free(g)
            del live[g]
        elif op[0] == "write" and live:
            g = sorted(live)[op[1] % len(live)]
            a, b, v = op[2], op[3], op[4]
            p.write((g, slice(a, b)), torch.arange(v, v + b - a, dtype=torch.int32))
            for i in range(a, b):
                live[g][i] = v + i - a
            if len(live) > 1 and b > a:
                st.hit("write_shared")
        elif op[0] == "clear":
            p.clear()
            live.clear()
        eq(p.available_size(), case["n"] - len(live), "available_size")
        for g, row in live.items():
            r = p.req_to_token[g].tolist()
            for i, v in row.items():
                eq(r[i], v, f"mapping of slot {g} position {i}")


# ---------------------------------------------------------------- recurrent-state pool
def gen_gdn(s):
    n, t = s.int(1, 4), s.int(0, 4)

    def op(s):
        k = s.weighted([(4, "talloc"), (3, "tfree"), (5, "write"), (4, "copy"), (3, "reset")])
        return [k, s.int(0, 20), s.int(0, 20), s.ints(0, 20, 0, 3), s.int(0, 20)]
    return {"n": n, "t": t, "layers": s.log(1, 12), "dims": [s.int(1, 4), s.int(1, 5), s.int(1, 5), s.int(1, 6), s.int(2, 5)],
            "half": s.bool(.3), "ops": s.list(op, 1, 40)}


def run_gdn(case, st):
    import torch
    from pymllm.mem_cache.memory_pool import GDNPool
    n, t, L = case["n"], case["t"], case["layers"]
    vh_, kd, vd, cd, ks = case["dims"]
    dt = torch.bfloat16 if case["half"] else torch.float32
    p = GDNPool(n, L, vh_, kd, vd, cd, ks, device="cpu", dtype=dt, max_track_slots=t)
    size = n + 1 + t
    # slot, layer -> the state last put there
    mrec, mconv = torch.zeros(size, L, vh_, vd, kd), torch.zeros(size, L, cd, ks - 1, dtype=dt)
    tracks, stamp = set(), 0

    for k, a, b, many, c in case["ops"]:
        work = list(range(1, n + 1))
        usable = work + sorted(tracks)
        if k == "talloc":
            s = p.alloc_track_slot()
            eq(s is not None, len(tracks) < t, "track slot availability")
            if s is not None:
                need(s not in tracks and s not in work and 0 < s < size, "track slot %d collides or is out of range", s)
                tracks.add(s)
                rec, conv = p.recurrent_state[:, s], p.conv_state[:, s]  # whatever the slot held before
                mrec[s], mconv[s] = rec, conv
            else:
                st.hit("track_exhausted")
        elif k == "tfree" and tracks:
            s = sorted(tracks)[a % len(tracks)]
            p.free_track_slot(s)
            tracks.discard(s)
        elif k == "write":
            s, layer = usable[a % len(usable)], b % L
            rec, conv = p.get_layer_state(layer)
            mrec[s, layer] = stamp + torch.arange(mrec[s, layer].numel()).view_as(mrec[s, layer])
            mconv[s, layer] = (-stamp - torch.arange(mconv[s, layer].numel())).view_as(mconv[s, layer]).to(dt)
            stamp += 101
            eq((rec[s].shape, conv[s].shape, rec.dtype, conv.dtype), (mrec[s, layer].shape, mconv[s, layer].shape, torch.float32, dt), "state shapes")
            rec[s] = mrec[s, layer]
            conv[s] = mconv[s, layer]
        elif k == "copy":
            s, d = usable[a % len(usable)], usable[b % len(usable)]
            p.copy_states(s, d)
            if s != d and bool(mrec[s].any()):
                st.hit("copy")
            mrec[d], mconv[d] = mrec[s].clone(), mconv[s].clone()
        elif k == "reset":
            sl = [usable[x % len(usable)] for x in many]
            p.reset_states(torch.tensor(sl, dtype=torch.int64))
            for x in sl:
                if bool(mrec[x].any()):
                    st.hit("reset")
                mrec[x] = 0
                mconv[x] = 0
        u = work + sorted(tracks)
        for layer in range(L):
            rec, conv = p.get_layer_state(layer)
            need(torch.equal(rec[u], mrec[u, layer]) and torch.equal(conv[u], mconv[u, layer]), "the state of layer %d changed: %s", layer, k)


def make():
    import pymllm.mem_cache.memory_pool  # noqa
    return [Part("kv", gen_kv, run_kv, 12000, shards=4), Part("req", gen_req, run_req, 12000, shards=2), Part("gdn", gen_gdn, run_gdn, 9000, shards=2)]


vh.main("P02", make, "a history of alloc / free / grouped free / partial free / clear (or write / copy / reset) on one pool; non-trivial "
        "when several allocations were live at once, a request was refused, a group or partial free ran, or state was copied or reset",
        ["CPU tensors; the CUDA store kernel is not exercised"])
