#!/usr/bin/env python3
"""P10: sharded, fused and quantised layers compute the checkpoint's matrices.

 - tp: Column/RowParallelLinear, ParallelMLP and VocabParallelEmbedding run as n
   ranks in n threads (collectives joined by a barrier) from full checkpoint
   tensors; every rank's result equals the unsharded computation.
 - groups: initialize_model_parallel in real gloo process groups: membership and
   collectives of every TP x DP x PP factorisation.
 - merged: MergedLinear filled shard by shard, in any order, equals the
   concatenation of the shards.
 - quant: AWQ, W4A16 and W8A8 checkpoints packed by an independent packer, loaded
   through the layers' own loaders and post-processing, with the GPU kernels
   replaced by their definition over the Marlin layouts.
 - model: whole quantised Qwen3 / Qwen3.5 checkpoints through ModelRunner.load_model;
   every projection of the loaded model equals the checkpoint's.
 - config: which layers a quantisation config leaves unquantised.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq
import json
import logging
import re
import shutil
import tempfile
import threading
from types import SimpleNamespace


def T():
    import torch
    return torch


def gen_of(seed):
    return T().Generator().manual_seed(seed)


def randn(g, *shape):
    return T().randn(*shape, generator=g)


def close(got, want, what, tol=1e-4):
    torch = T()
    need(tuple(got.shape) == tuple(want.shape), "%s: shape %s, expected %s", what, tuple(got.shape), tuple(want.shape))
    scale = want.double().abs().max().item() + 1e-3 if want.numel() else 1.0
    err = (got.double() - want.double()).abs().max().item() / scale if want.numel() else 0.0
    need(err <= tol, "%s: relative error %.3g (got %s, expected %s)", what, err, got.flatten()[:6].tolist(), want.flatten()[:6].tolist())


def act(name, a, b):
    F = T().nn.functional
    a, b = a.double(), b.double()
    return {"silu": F.silu, "gelu": F.gelu, "gelu_tanh": lambda t: F.gelu(t, approximate="tanh")}[name](a) * b


# ------------------------------------------------------------------ tensor parallelism (threads)

class Group:
    """A TP group whose ranks are threads: collectives meet at a barrier."""

    def __init__(self, n):
        self.n, self.bar, self.slots, self.me = n, threading.Barrier(n, timeout=20), [None] * n, threading.local()

    def _all(self, t):
        self.slots[self.me.rank] = t
        self.bar.wait()
        out = [x.clone() for x in self.slots]
        self.bar.wait()
        return out

    def all_reduce(self, t):
        parts = self._all(t)
        t.copy_(sum(parts[1:], parts[0]))
        return t

    def all_gather(self, t, dim=0):
        return T().cat(self._all(t), dim=dim)


def ranks(n, build, call):
    """build(rank) with the module state of that rank, then call(layer) in one thread per rank."""
    from pymllm.orchestrator import parallel_state as PS
    g = Group(n)
    keep = (PS._TP_RANK, PS._TP_SIZE, PS._TP_GROUP)
    out, errs = [None] * n, []
    try:
        PS._TP_SIZE, PS._TP_GROUP = n, g if n > 1 else None
        layers = []
        for r in range(n):
            PS._TP_RANK = r
            layers.append(build(r))

        def body(r):
            g.me.rank = r
            try:
                with T().no_grad():
                    out[r] = call(layers[r])
            except BaseException as e:                      # noqa
                errs.append(e)
                g.bar.abort()
        ts = [threading.Thread(target=body, args=(r,)) for r in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        PS._TP_RANK, PS._TP_SIZE, PS._TP_GROUP = keep
    for e in errs:
        if not isinstance(e, threading.BrokenBarrierError):
            raise e
    if errs:
        raise errs[0]
    return out, layers


def load(layer, **tensors):
    params = dict(layer.named_parameters())
    for n, t in tensors.items():
        if t is None:
            continue
        p = params[n]
        p.weight_loader(p, t.clone())


def gen_tp(s):
    n = s.choice([1, 2, 2, 3, 4])
    return {"kind": s.choice(["col", "row", "mlp", "emb", "colrow"]), "n": n, "a": n * s.int(1, 4), "b": n * s.int(1, 4), "c": s.int(1, 6),
            "bias": [s.bool(), s.bool()], "gather": s.bool(.6), "act": s.choice(["silu", "gelu", "gelu_tanh"]),
            "shape": s.choice([[3], [1], [2, 2], [0], [2, 1, 3]]), "seed": s.seed() % 10 ** 9, "pad": s.bool(.4)}


def run_tp(c, st):
    torch = T()
    F = torch.nn.functional
    from pymllm.layers import linear as L, mlp as M, embedding as E
    g = gen_of(c["seed"])
    n, a, b, cc = c["n"], c["a"], c["b"], c["c"]
    if n > 1:
        st.hit("sharded")
    if c["kind"] == "emb":
        W = randn(g, a, cc)
        pad = c["seed"] % a if c["pad"] else None
        ids = torch.randint(0, a, c["shape"], generator=g)

        def build(r):
            l = E.VocabParallelEmbedding(a, cc, padding_idx=pad)
            load(l, weight=W)
            return l
        out, layers = ranks(n, build, lambda l: l(ids))
        for r, o in enumerate(out):
            close(o, W[ids], "embedding on rank %d of %d" % (r, n), 1e-6)
        close(torch.cat([l.weight.data for l in layers]), W, "the ranks' vocabulary shards together", 0)
        return
    if c["kind"] == "col":
        W, B = randn(g, a, cc), randn(g, a) if c["bias"][0] else None
        x = randn(g, *c["shape"], cc)

        def build(r):
            l = L.ColumnParallelLinear(cc, a, bias=c["bias"][0], gather_output=c["gather"])
            load(l, weight=W, bias=B)
            return l
        out, layers = ranks(n, build, lambda l: l(x))
        want = F.linear(x, W, B)
        if not c["gather"]:
            out = [torch.cat(out, -1)] if n > 1 else out
        for r, o in enumerate(out):
            close(o, want, "column-parallel output (rank %d of %d)" % (r, n))
        return
    if c["kind"] == "row":
        W, B = randn(g, cc, a), randn(g, cc) if c["bias"][1] else None
        x = randn(g, *c["shape"], a)

        def build(r):
            l = L.RowParallelLinear(a, cc, bias=c["bias"][1])
            load(l, weight=W, bias=B)
            l.rank = r
            return l
        out, _ = ranks(n, build, lambda l: l(x[..., l.rank * (a // n):(l.rank + 1) * (a // n)].contiguous()))
        for r, o in enumerate(out):
            close(o, F.linear(x, W, B), "row-parallel output (rank %d of %d)" % (r, n))
        return
    x = randn(g, *c["shape"], cc)
    if c["kind"] == "colrow":
        W1, B1, W2, B2 = randn(g, b, cc), randn(g, b) if c["bias"][0] else None, randn(g, cc, b), randn(g, cc) if c["bias"][1] else None

        def build(r):
            l = [L.ColumnParallelLinear(cc, b, bias=c["bias"][0], gather_output=False), L.RowParallelLinear(b, cc, bias=c["bias"][1])]
            load(l[0], weight=W1, bias=B1)
            load(l[1], weight=W2, bias=B2)
            return l
        out, _ = ranks(n, build, lambda l: l[1](l[0](x)))
        want = F.linear(F.linear(x, W1, B1), W2, B2)
    else:
        t = {"gate": randn(g, b, cc), "up": randn(g, b, cc), "down": randn(g, cc, b)}
        bi = {"gate": randn(g, b) if c["bias"][0] else None, "up": randn(g, b) if c["bias"][0] else None,
              "down": randn(g, cc) if c["bias"][1] else None}

        def build(r):
            l = M.ParallelMLP(cc, b, activation=c["act"], use_bias_gate_up=c["bias"][0], use_bias_down=c["bias"][1])
            for k in t:
                load(getattr(l, k + "_proj"), weight=t[k], bias=bi[k])
            return l
        out, _ = ranks(n, build, lambda l: l(x))
        h = act(c["act"], F.linear(x, t["gate"], bi["gate"]), F.linear(x, t["up"], bi["up"]))
        want = F.linear(h, t["down"].double(), None if bi["down"] is None else bi["down"].double())
        for fused in (True, False):
            l = M.MLP(cc, b, activation=c["act"], use_fused_gate_up_proj=fused, use_bias_gate_up=c["bias"][0], use_bias_down=c["bias"][1])
            load(l.down_proj, weight=t["down"], bias=bi["down"])
            for i, k in enumerate(["gate", "up"] if c["pad"] else ["up", "gate"]):
                i = ["gate", "up"].index(k)
                for nm, v in (("weight", t[k]), ("bias", bi[k])):
                    if v is None:
                        continue
                    if fused:
                        p = getattr(l.gate_up_proj, nm)
                        p.weight_loader(p, v.clone(), i)
                    else:
                        p = getattr(getattr(l, k + "_proj"), nm)
                        p.weight_loader(p, v.clone())
            with torch.no_grad():
                close(l(x), want, "MLP (fused=%s)" % fused)
    for r, o in enumerate(out):
        close(o, want, "%s output (rank %d of %d)" % (c["kind"], r, n))


# ------------------------------------------------------------------ process groups

def worker(rank, world, port, jobs, q):
    """Runs every job on one rank of a real gloo world; reports per-job observations."""
    import torch
    import torch.distributed as dist
    from datetime import timedelta
    torch.set_num_threads(1)
    os.environ["GLOO_SOCKET_IFNAME"] = "lo"
    out = []
    for k, j in enumerate(jobs):
        from pymllm.orchestrator import parallel_state as PS
        PS._TP_GROUP = PS._DP_GROUP = PS._PP_GROUP = None
        PS._TP_RANK = PS._DP_RANK = PS._PP_RANK = 0
        obs = {}
        try:
            dist.init_process_group("gloo", init_method="tcp://127.0.0.1:%d" % (port + k), rank=rank, world_size=world,
                                    timeout=timedelta(seconds=30))
            PS.initialize_model_parallel(j["tp"], j["dp"], j["pp"], backend="gloo")
            for nm, grp, r, size in (("tp", PS.get_tp_group(), PS.get_tensor_model_parallel_rank(), PS.get_tensor_model_parallel_world_size()),
                                     ("dp", PS.get_dp_group(), PS.get_data_parallel_rank(), PS.get_data_parallel_world_size()),
                                     ("pp", PS.get_pp_group(), PS.get_pipeline_model_parallel_rank(), PS.get_pipeline_model_parallel_world_size())):
                o = {"rank": r, "size": size, "ranks": grp.ranks if grp is not None else [rank]}
                if grp is not None:
                    x = torch.arange(6, dtype=torch.float32).reshape(2, 3) + 100 * rank
                    o["sum"] = grp.all_reduce(x.clone()).tolist()
                    o["g0"] = grp.all_gather(x.clone(), dim=0).tolist()
                    o["g1"] = grp.all_gather(x.clone(), dim=1).tolist()
                    o["gm"] = grp.all_gather(x.clone(), dim=-1).tolist()
                    src = j["src"] % len(grp.ranks)
                    o["bc"] = grp.broadcast(x.clone(), src=src).tolist()
                obs[nm] = o
            y = torch.ones(2) * (rank + 1)
            obs["tpar"] = PS.tensor_model_parallel_all_reduce(y.clone()).tolist()
            obs["tpag"] = PS.tensor_model_parallel_all_gather(y.clone()).tolist()
            obs["dpar"] = PS.data_parallel_all_reduce(y.clone()).tolist()
            dist.barrier()
        except Exception as e:                              # noqa
            obs["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        finally:
            if dist.is_initialized():
                dist.destroy_process_group()
        out.append(obs)
        if "error" in obs:
            break
    q.put((rank, out))


def gen_groups(s):
    dims = s.choice([[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [2, 1, 2], [1, 2, 2], [4, 1, 1], [3, 1, 1], [1, 3, 1], [2, 2, 2], [1, 4, 1], [3, 2, 1]])
    return {"tp": dims[0], "dp": dims[1], "pp": dims[2], "src": s.int(0, 3)}


def free_port():
    import socket
    with socket.socket() as k:
        k.bind(("127.0.0.1", 0))
        return k.getsockname()[1]


def run_groups(j, st):
    import multiprocessing as mp
    world = j["tp"] * j["dp"] * j["pp"]
    ctx = mp.get_context("fork")
    for attempt in range(2):
        q = ctx.Queue()
        port = free_port()
        ps = [ctx.Process(target=worker, args=(r, world, port, [j], q), daemon=True) for r in range(world)]
        [p.start() for p in ps]
        res = {}
        try:
            for _ in range(world):
                r, o = q.get(timeout=40)
                res[r] = o[0]
        except Exception:                                   # noqa
            pass
        finally:
            [p.kill() for p in ps]
            [p.join() for p in ps]
        if len(res) == world and not any("EADDRINUSE" in o.get("error", "") or "address already in use" in o.get("error", "").lower() for o in res.values()):
            break
    need(len(res) == world, "only ranks %s of %d answered", sorted(res), world)
    for r, o in sorted(res.items()):
        need("error" not in o, "rank %d of tp=%d dp=%d pp=%d: %s", r, j["tp"], j["dp"], j["pp"], o.get("error"))
    st.hit("multi_dim" if sum(j[k] > 1 for k in ("tp", "dp", "pp")) > 1 else "one_dim")
    base = [[float(i * 3 + c) for c in range(3)] for i in range(2)]
    groups = {}
    for nm in ("tp", "dp", "pp"):
        seen = {}
        for r in range(world):
            o = res[r][nm]
            eq(o["size"], j[nm], "%s world size on rank %d" % (nm, r))
            eq(len(o["ranks"]), j[nm], "%s group size on rank %d" % (nm, r))
            need(r in o["ranks"], "rank %d is not in its own %s group %s", r, nm, o["ranks"])
            eq(o["rank"], o["ranks"].index(r), "%s rank of world rank %d" % (nm, r))
            for p in o["ranks"]:
                eq(seen.setdefault(p, o["ranks"]), o["ranks"], "%s group of rank %d as seen by rank %d" % (nm, p, r))
            groups[nm, r] = set(o["ranks"])
            if j[nm] > 1:
                G = o["ranks"]
                eq(o["sum"], [[sum(v + 100 * p for p in G) for v in row] for row in base], "%s all_reduce on rank %d" % (nm, r))
                eq(o["g0"], [[v + 100 * p for v in row] for p in G for row in base], "%s all_gather(0) on rank %d" % (nm, r))
                w1 = [[v + 100 * p for p in G for v in row] for row in base]
                eq(o["g1"], w1, "%s all_gather(1) on rank %d" % (nm, r))
                eq(o["gm"], w1, "%s all_gather(-1) on rank %d" % (nm, r))
                eq(o["bc"], [[v + 100 * G[j["src"] % len(G)] for v in row] for row in base], "%s broadcast on rank %d" % (nm, r))
    # The three groups of a rank meet only in that rank, and (tp, dp, pp) ranks identify it.
    ids = set()
    for r in range(world):
        for a, b in (("tp", "dp"), ("tp", "pp"), ("dp", "pp")):
            eq(sorted(groups[a, r] & groups[b, r]), [r], "ranks common to the %s and %s groups of rank %d" % (a, b, r))
        ids.add(tuple(res[r][nm]["rank"] for nm in ("tp", "dp", "pp")))
        eq(res[r]["tpar"], [float(sum(p + 1 for p in groups["tp", r]))] * 2, "tensor_model_parallel_all_reduce on rank %d" % r)
        eq(res[r]["tpag"], [float(p + 1) for p in res[r]["tp"]["ranks"] for _ in range(2)], "tensor_model_parallel_all_gather on rank %d" % r)
        eq(res[r]["dpar"], [float(sum(p + 1 for p in groups["dp", r]))] * 2, "data_parallel_all_reduce on rank %d" % r)
    eq(len(ids), world, "distinct (tp, dp, pp) coordinates")


# ------------------------------------------------------------------ fused layers

def gen_merged(s):
    qkv = s.bool()
    parts = [s.int(1, 9), 0, 0] if qkv else s.ints(1, 7, 1, 5)
    if qkv:
        parts[1] = parts[2] = s.int(1, 9)
    order = s.perm(range(len(parts)))
    return {"qkv": qkv, "parts": parts, "order": list(order), "k": s.int(1, 6), "bias": s.bool(), "seed": s.seed() % 10 ** 9,
            "ids": s.bool(.3), "again": s.bool(.2), "bad": s.choice([None, None, None, "id", "shape", "name"])}


def run_merged(c, st):
    torch = T()
    from pymllm.layers.linear import MergedLinear
    g = gen_of(c["seed"])
    parts = c["parts"]
    W, B = [randn(g, p, c["k"]) for p in parts], [randn(g, p) for p in parts]
    l = MergedLinear(c["k"], list(parts), bias=c["bias"])
    with torch.no_grad():
        l.weight.fill_(float("nan"))
    tags = ["q", "k", "v"] if c["qkv"] and not c["ids"] else list(range(len(parts)))
    for i in c["order"] + ([c["order"][0]] if c["again"] else []):
        l.weight.weight_loader(l.weight, W[i].clone(), tags[i])
        if c["bias"]:
            l.bias.weight_loader(l.bias, B[i].clone(), tags[i])
    x = randn(g, 3, c["k"])
    with torch.no_grad():
        close(l(x), torch.nn.functional.linear(x, torch.cat(W), torch.cat(B) if c["bias"] else None), "merged layer %s" % parts)
    if len(parts) > 1:
        st.hit("several_shards")
    if c["bad"]:
        before = l.weight.data.clone()
        try:
            if c["bad"] == "id":
                l.weight.weight_loader(l.weight, W[0].clone(), len(parts))
            elif c["bad"] == "name":
                l.weight.weight_loader(l.weight, W[0].clone(), "z")
            else:
                l.weight.weight_loader(l.weight, torch.zeros(parts[0], c["k"] + 1), 0)
            need(False, "a shard with a wrong %s was accepted", c["bad"])
        except (ValueError, AssertionError):
            pass
        need(torch.equal(before, l.weight.data), "a refused shard (%s) changed the layer", c["bad"])
    full = MergedLinear(c["k"], list(parts), bias=False)
    full.weight.weight_loader(full.weight, torch.cat(W))
    close(full.weight.data, torch.cat(W), "an already fused checkpoint tensor", 0)


# ------------------------------------------------------------------ quantised layers

AWQ_ORDER = {4: [0, 2, 4, 6, 1, 3, 5, 7], 8: [0, 2, 1, 3]}


def i32(t):
    torch = T()
    t = t & 0xFFFFFFFF
    return torch.where(t >= 2 ** 31, t - 2 ** 32, t).to(torch.int32)


def awq_pack(q, bits):
    """[rows, N] ints -> AutoAWQ's column packing: nibble j of a word holds column 8*w + ORDER[j]."""
    torch = T()
    f = 32 // bits
    q = q.long().reshape(q.shape[0], -1, f)
    out = torch.zeros(q.shape[:2], dtype=torch.long)
    for j, src in enumerate(AWQ_ORDER[bits]):
        out |= q[:, :, src] << (bits * j)
    return i32(out)


def awq_unpack(p, bits):
    torch = T()
    f = 32 // bits
    out = torch.zeros(*p.shape, f, dtype=torch.long)
    for j, src in enumerate(AWQ_ORDER[bits]):
        out[:, :, src] = (p.long() >> (bits * j)) & ((1 << bits) - 1)
    return out.reshape(p.shape[0], -1)


def ct_pack(q, bits=4):
    """compressed-tensors: [N, K] signed values offset by 8, eight consecutive K per word, low nibble first."""
    torch = T()
    f = 32 // bits
    q = (q.long() + (1 << (bits - 1))).reshape(q.shape[0], -1, f)
    out = torch.zeros(q.shape[:2], dtype=torch.long)
    for j in range(f):
        out |= q[:, :, j] << (bits * j)
    return i32(out)


def kernel_scales(n, grouped):
    """Column that position p of a Marlin scale row holds (one row of n columns)."""
    if grouped:        # blocks of 64 viewed as an 8x8 matrix, transposed
        return [b * 64 + (p % 8) * 8 + p // 8 for b in range(n // 64) for p in range(64)]
    out = []           # blocks of 32: thread pair i owns columns 2i, 2i+1 of each 8-column tile
    for b in range(n // 32):
        for i in range(4):
            for tile in range(4):
                out += [b * 32 + 8 * tile + 2 * i, b * 32 + 8 * tile + 2 * i + 1]
    return out


def unpermute(s, grouped):
    torch = T()
    out = torch.empty_like(s)
    out[:, kernel_scales(s.shape[1], grouped)] = s
    return out


def kernel_zeros(z, bits):
    """Marlin zero points -> plain [groups, N]."""
    torch = T()
    f = 32 // bits
    raw = torch.stack([(z.long() >> (bits * j)) & ((1 << bits) - 1) for j in range(f)], -1).reshape(z.shape[0], -1, f)
    q = torch.empty_like(raw)
    q[:, :, AWQ_ORDER[bits]] = raw
    return unpermute(q.reshape(z.shape[0], -1), True)


def scalar_type(i):
    """host::ScalarType id: exponent 8, mantissa 8, signed 1, bias 32, finite-only 1, nan 8 bits."""
    return {"exp": i & 255, "man": (i >> 8) & 255, "signed": (i >> 16) & 1, "bias": (i >> 17) & 0xFFFFFFFF,
            "finite": (i >> 49) & 1, "nan": (i >> 50) & 255}


PLAIN = {}


def stash(q, size_k, size_n, bits):
    """The stand-in's own weight layout: a handle of the shape the kernel promises."""
    torch = T()
    out = torch.zeros(size_k // 16, size_n * 16 // (32 // bits), dtype=torch.int32)
    h = len(PLAIN) + 1
    out[0, 0] = h
    PLAIN[h] = q
    return out


def k_awq_repack(b_q_weight, size_k, size_n, num_bits):
    eq(tuple(b_q_weight.shape), (size_k, size_n * num_bits // 32), "AWQ weight handed to the repack kernel")
    need(b_q_weight.is_contiguous(), "the repack kernel needs a contiguous weight")
    return stash(awq_unpack(b_q_weight, num_bits), size_k, size_n, num_bits)


def k_gptq_repack(b_q_weight, perm, size_k, size_n, num_bits):
    torch = T()
    f = 32 // num_bits
    eq(tuple(b_q_weight.shape), (size_k // f, size_n), "GPTQ weight handed to the repack kernel")
    need(b_q_weight.is_contiguous() and (perm is None or perm.numel() == 0), "repack kernel: contiguous weight and no permutation")
    q = torch.stack([(b_q_weight.long() >> (num_bits * j)) & ((1 << num_bits) - 1) for j in range(f)], 1).reshape(size_k, size_n)
    return stash(q, size_k, size_n, num_bits)


def k_gemm(a, c, b_q_weight, b_scales, global_scale, b_zeros, g_idx, perm, workspace, b_q_type_id, size_m, size_n, size_k,
           is_k_full=True, use_atomic_add=False, use_fp32_reduce=False, is_zp_float=False):
    t = scalar_type(b_q_type_id)
    need(t["exp"] == 0 and t["signed"] == 0 and t["man"] in (4, 8) and not t["finite"] and t["nan"] == 1, "unknown weight type %s", t)
    bits = t["man"]
    eq(tuple(a.shape), (size_m, size_k), "activations of the GEMM kernel")
    eq(tuple(b_q_weight.shape), (size_k // 16, size_n * bits // 2), "weight of the GEMM kernel")
    q = PLAIN[int(b_q_weight[0, 0])].double()
    groups = b_scales.shape[0]
    eq(b_scales.shape[1], size_n, "scale columns")
    need(size_k % groups == 0, "%d groups over %d rows", groups, size_k)
    s = unpermute(b_scales.double(), groups > 1).repeat_interleave(size_k // groups, 0)
    if b_zeros is not None and b_zeros.numel():
        need(t["bias"] == 0, "zero points with a biased type")
        eq(tuple(b_zeros.shape), (groups, size_n * bits // 32), "zero points of the GEMM kernel")
        q = q - kernel_zeros(b_zeros, bits).double().repeat_interleave(size_k // groups, 0)
    else:
        q = q - t["bias"]
    return (a.double() @ (q * s)).to(a.dtype)


def k_quant8(x):
    need(x.is_contiguous(), "the int8 activation kernel needs contiguous input")
    m = x.double().abs().amax(-1, keepdim=True).clamp_min(1e-10)
    return T().round(x.double() * 127 / m).to(T().int8), (m / 127).to(T().float32)


def k_mm8(a, b, sa, sb, out_dtype, bias=None):
    need(a.dtype == T().int8 and b.dtype == T().int8 and a.is_contiguous() and b.stride(0) == 1, "int8 GEMM layouts: %s %s", a.stride(), b.stride())
    need(sb.dim() == 1 and sb.numel() == b.shape[1] and sa.numel() == a.shape[0], "int8 GEMM scales %s %s", tuple(sa.shape), tuple(sb.shape))
    out = a.double() @ b.double() * sa.double().reshape(-1, 1) * sb.double()
    return (out + bias.double() if bias is not None else out).to(out_dtype)


def fake_weight(g, kind, n, k, bits, group, std=1.0):
    """A random quantised matrix: checkpoint tensors (without prefix) and a function computing x @ W.T."""
    torch = T()
    if kind == "awq":
        gs = k if group == -1 else group
        q, z = torch.randint(0, 1 << bits, (k, n), generator=g), torch.randint(0, 1 << bits, (k // gs, n), generator=g)
        s = (torch.rand(k // gs, n, generator=g) + .5) * std / k ** .5 / (1 << bits)
        W = ((q - z.repeat_interleave(gs, 0)).double() * s.double().repeat_interleave(gs, 0)).T
        return {"qweight": awq_pack(q, bits), "qzeros": awq_pack(z, bits), "scales": s}, W
    if kind == "w4":
        gs = k if group == -1 else group
        q = torch.randint(-8, 8, (n, k), generator=g)
        s = (torch.rand(n, k // gs, generator=g) + .5) * std / k ** .5 / 8
        return {"weight_packed": ct_pack(q), "weight_scale": s, "weight_shape": torch.tensor([n, k])}, q.double() * s.double().repeat_interleave(gs, 1)
    q = torch.randint(-127, 128, (n, k), generator=g)
    s = (torch.rand(n, 1, generator=g) + .5) * std / k ** .5 / 127
    return {"weight": q.to(torch.int8), "weight_scale": s}, q.double() * s.double()


def qconfig(kind, bits, group, ignore=None):
    if kind == "awq":
        c = {"quant_method": "awq", "bits": bits, "group_size": group, "zero_point": True, "version": "gemm"}
        if ignore:
            c["modules_to_not_convert"] = ignore
        return c
    w = {"num_bits": 4, "type": "int", "symmetric": True, "strategy": "channel" if group == -1 else "group", "group_size": group, "dynamic": False,
         "actorder": None}
    c = {"quant_method": "compressed-tensors", "format": "pack-quantized", "ignore": ignore or [],
         "config_groups": {"group_0": {"targets": ["Linear"], "weights": w, "input_activations": None}}}
    if kind == "w8":
        w.update(num_bits=8, strategy="channel", group_size=None)
        c["format"] = "int-quantized"
        c["config_groups"]["group_0"]["input_activations"] = {"num_bits": 8, "type": "int", "symmetric": True, "strategy": "token", "dynamic": True}
    return c


def apply_ref(kind, x, W, bias):
    """x @ W.T (+ bias) in float64; int8 activations are quantised per token first."""
    torch = T()
    x2 = x.reshape(-1, x.shape[-1])
    if kind == "w8":
        q, s = k_quant8(x2.contiguous())
        x2 = q.double() * s.double()
    o = x2.double() @ W.double().T
    if bias is not None:
        o = o + bias.double()
    return o.reshape(*x.shape[:-1], -1)


def gen_quant(s):
    kind = s.choice(["awq", "w4", "w8"])
    merged = s.weighted([(2, None), (2, "qkv"), (2, "ids")])
    k = 128 * s.int(1, 3)
    parts = [64 * s.int(1, 3)]
    if merged == "qkv":
        kv = s.choice([32, 64, 128])
        parts = [64 * s.int(1, 3), kv, kv]
    elif merged == "ids":
        m = s.int(1, 3)
        parts = [64 * m, 64 * m] if s.bool(.7) else [64 * s.int(1, 3) for _ in range(s.int(2, 4))]
    if kind == "w8" and s.bool(.5):
        k, parts = s.int(1, 20), [s.int(1, 9)] if not merged else [s.int(1, 9)] + [s.int(1, 5)] * 2
    return {"kind": kind, "bits": s.weighted([(4, 4), (1, 8)]) if kind == "awq" else 4, "group": s.choice([-1, 32, 64, 128]), "k": k, "parts": parts,
            "merged": merged, "order": list(s.perm(range(16))), "bias": s.bool(.4), "shape": s.choice([[3], [1], [2, 2], [1, 2, 1]]),
            "seed": s.seed() % 10 ** 9, "fusedck": s.bool(.15)}


def run_quant(c, st):
    torch = T()
    from pymllm.layers.linear import Linear, MergedLinear
    from pymllm.quantization import get_quantization_config
    PLAIN.clear()
    kind, g = c["kind"], gen_of(c["seed"])
    cfg = qconfig(kind, c["bits"], c["group"])
    qc = get_quantization_config("awq_marlin" if kind == "awq" else "compressed-tensors").from_config(cfg)
    qm = qc.get_quant_method(layer=None, prefix="model.layers.0.x_proj")
    need(qm is not None, "a quantised layer was left unquantised")
    parts, k = c["parts"], c["k"]
    pieces = [fake_weight(g, kind, n, k, c["bits"], c["group"]) for n in parts]
    W = torch.cat([w for _, w in pieces])
    bias = randn(g, sum(parts)) if c["bias"] else None
    if c["merged"] and not c["fusedck"]:
        l = MergedLinear(k, list(parts), bias=c["bias"], quant_method=qm)
        tags = ["q", "k", "v"] if c["merged"] == "qkv" else list(range(len(parts)))
        for i in [i for i in c["order"] if i < len(parts)]:
            for n, t in pieces[i][0].items():
                p = getattr(l, n)
                p.weight_loader(p, t.clone(), tags[i])
            if bias is not None:
                off = sum(parts[:i])
                l.bias.weight_loader(l.bias, bias[off:off + parts[i]].clone(), tags[i])
        st.hit("fused")
    else:
        l = MergedLinear(k, list(parts), bias=c["bias"], quant_method=qm) if c["merged"] else Linear(k, sum(parts), bias=c["bias"], quant_method=qm)
        dim = {"qweight": 1, "qzeros": 1, "scales": 1}
        for n in pieces[0][0]:
            p = getattr(l, n)
            t = torch.tensor([sum(parts), k]) if n == "weight_shape" else torch.cat([t[n] for t, _ in pieces], dim.get(n, 0))
            p.weight_loader(p, t)
        if bias is not None:
            l.bias.weight_loader(l.bias, bias.clone())
    if hasattr(l, "weight_shape"):
        eq(l.weight_shape.tolist(), [sum(parts), k], "recorded weight shape")
    qm.process_weights_after_loading(l)
    st.hit(kind)
    if c["group"] == -1 and kind != "w8":
        st.hit("per_channel")
    for shape in (c["shape"], [2]):
        x = randn(g, *shape, k)
        with torch.no_grad():
            close(l(x), apply_ref(kind, x, W, bias).float(), "%s layer (group %s, parts %s)" % (kind, c["group"], parts), 1e-5)


# ------------------------------------------------------------------ whole checkpoints

FUSED = {"qkv_proj": ["q_proj", "k_proj", "v_proj"], "gate_up_proj": ["gate_proj", "up_proj"]}


def gen_model(s):
    kv, group = s.int(1, 2), s.int(1, 2)
    layers = s.int(1, 3)
    style = s.weighted([(3, "none"), (3, "exact"), (2, "component"), (2, "regex"), (1, "anchored")])
    lst = []
    for i in range(layers):
        for blk, ms in (("self_attn", ["qkv", "o"]), ("mlp", ["gu", "d"])):
            for m in ms:
                if s.bool(.3):
                    lst.append([i, blk, m])
    return {"net": s.weighted([(3, "qwen3"), (2, "q35"), (1, "vl")]), "lin": s.ints(0, 1, 3, 3), "kind": s.choice(["awq", "w4", "w8"]), "group": s.choice([-1, 32, 64, 128]), "kv": kv, "grp": group,
            "layers": layers, "inter": s.choice([128, 256]), "bias": s.bool(.3), "names": s.choice(["model.", "model.language_model.", "model."]),
            "style": style, "list": lst, "files": s.int(1, 3), "bin": s.bool(.2), "seed": s.seed() % 10 ** 9, "cfgfile": s.choice(["config", "quantize"]),
            "method": s.bool(.3), "head": s.bool(.6)}


def run_model(c, st):
    torch = T()
    from safetensors.torch import save_file
    from pymllm.executor.model_runner import ModelRunner
    from pymllm.configs.server_config import ServerConfig
    from pymllm.configs.model_config import ModelConfig
    from pymllm.configs import get_global_config
    PLAIN.clear()
    g = gen_of(c["seed"])
    kind = c["kind"]
    hd, H = 64, c["kv"] * c["grp"] * 2
    hidden = 128
    if c["net"] == "qwen3":
        from transformers import Qwen3Config
        cfg = Qwen3Config(vocab_size=16, hidden_size=hidden, intermediate_size=c["inter"], num_hidden_layers=c["layers"], num_attention_heads=H,
                          num_key_value_heads=c["kv"] * 2, head_dim=hd, attention_bias=c["bias"], tie_word_embeddings=False, architectures=["Qwen3ForCausalLM"])
        bias = c["bias"]
        lin = [("self_attn.q_proj", H * hd, hidden), ("self_attn.k_proj", c["kv"] * 2 * hd, hidden), ("self_attn.v_proj", c["kv"] * 2 * hd, hidden),
               ("self_attn.o_proj", hidden, H * hd)]
    elif c["net"] == "vl":
        from transformers import Qwen3VLConfig
        P = c["names"]
        cfg = Qwen3VLConfig(text_config=dict(vocab_size=16, hidden_size=hidden, intermediate_size=c["inter"], num_hidden_layers=c["layers"],
                                             num_attention_heads=H, num_key_value_heads=c["kv"] * 2, head_dim=hd, tie_word_embeddings=False,
                                             rope_scaling={"rope_type": "default", "mrope_section": [16, 8, 8], "mrope_interleaved": True}),
                            vision_config=dict(depth=1, hidden_size=8, intermediate_size=8, num_heads=2, in_channels=1, patch_size=2,
                                               spatial_merge_size=1, temporal_patch_size=1, out_hidden_size=hidden, num_position_embeddings=4,
                                               deepstack_visual_indexes=[0], hidden_act="silu"),
                            tie_word_embeddings=False, architectures=["Qwen3VLForConditionalGeneration"])
        bias = False
        lin = [("self_attn.q_proj", H * hd, hidden), ("self_attn.k_proj", c["kv"] * 2 * hd, hidden), ("self_attn.v_proj", c["kv"] * 2 * hd, hidden),
               ("self_attn.o_proj", hidden, H * hd)]
    else:
        kinds = ["linear_attention" if x else "full_attention" for x in c["lin"]][:c["layers"]]
        cfg = SimpleNamespace(vocab_size=16, hidden_size=hidden, intermediate_size=c["inter"], num_hidden_layers=c["layers"], num_attention_heads=H,
                              num_key_value_heads=c["kv"] * 2, head_dim=hd, rms_norm_eps=1e-6, tie_word_embeddings=False, rope_theta=1e4, hidden_act="silu",
                              partial_rotary_factor=.5, layers_block_type=[{"full_attention": "attention"}.get(x, x) for x in kinds], max_position_embeddings=128,
                              architectures=["Qwen3_5ForCausalLM"], linear_num_key_heads=1, linear_num_value_heads=2, linear_key_head_dim=32,
                              linear_value_head_dim=64, linear_conv_kernel_dim=2, attn_output_gate=True, model_type="qwen3_5_text")
        bias = False
        lin = [("self_attn.q_proj", H * hd * 2, hidden), ("self_attn.k_proj", c["kv"] * 2 * hd, hidden), ("self_attn.v_proj", c["kv"] * 2 * hd, hidden),
               ("self_attn.o_proj", hidden, H * hd)]
    gdn = [("linear_attn.in_proj_qkv", 32 * 2 + 128, hidden), ("linear_attn.in_proj_z", 128, hidden), ("linear_attn.in_proj_b", 2, hidden),
           ("linear_attn.in_proj_a", 2, hidden), ("linear_attn.out_proj", hidden, 128)]
    mlp = [("mlp.gate_proj", c["inter"], hidden), ("mlp.up_proj", c["inter"], hidden), ("mlp.down_proj", hidden, c["inter"])]
    rows = {i: (gdn if c["net"] == "q35" and c["lin"][i] else lin) + mlp for i in range(c["layers"])}
    sets = {"qkv": ["q_proj", "k_proj", "v_proj"], "o": ["o_proj"], "gu": ["gate_proj", "up_proj"], "d": ["down_proj"]}
    skip, ignore = set(), ["lm_head"]
    P = c["names"]
    if c["style"] == "exact":
        for i, blk, m in c["list"]:
            for x in sets[m]:
                skip.add("layers.%d.%s.%s" % (i, blk, x))
                ignore.append("%slayers.%d.%s.%s" % (P, i, blk, x))
    elif c["style"] == "component" and c["list"]:
        blk = c["list"][0][1]
        ignore.append(blk)
        skip = {"layers.%d.%s" % (i, n) for i in range(c["layers"]) for n, _, _ in rows[i] if n.startswith(blk + ".")}
    elif c["style"] in ("regex", "anchored") and c["list"] and kind != "awq":
        for i, blk, m in c["list"]:
            pat = (re.escape(P) if c["style"] == "anchored" else r".*\.") + r"layers\.%d\.%s\.(%s)$" % (i, blk, "|".join(sets[m]))
            ignore.append("re:" + pat)
            skip |= {"layers.%d.%s.%s" % (i, blk, x) for x in sets[m]}
    ck, want, biases = {}, {}, {}
    for i in range(c["layers"]):
        for n, o, k in rows[i]:
            key = "layers.%d.%s" % (i, n)
            if key in skip or o < 64:
                w = randn(g, o, k) / k ** .5
                ck[P + key + ".weight"] = w
                want[key] = ("fp", w.double())
            else:
                ts, w = fake_weight(g, kind, o, k, 4, c["group"])
                for m, t in ts.items():
                    ck[P + key + "." + m] = t
                want[key] = (kind, w)
            if bias and "self_attn" in n:
                biases[key] = ck[P + key + ".bias"] = randn(g, o)
        if rows[i][0] in gdn:
            ignore += ["%slayers.%d.linear_attn.in_proj_%s" % (P, i, x) for x in "ab"]
            ck["%slayers.%d.linear_attn.conv1d.weight" % (P, i)] = randn(g, 192, 1, 2)
        for n, d in (("input_layernorm", hidden), ("post_attention_layernorm", hidden), ("self_attn.q_norm", hd), ("self_attn.k_norm", hd)):
            ck["%slayers.%d.%s.weight" % (P, i, n)] = randn(g, d)
    ck[P + "norm.weight"] = randn(g, hidden)
    ck[P + "embed_tokens.weight"] = randn(g, 16, hidden)
    ck["lm_head.weight"] = randn(g, 16, hidden)
    qcfg = qconfig(kind, 4, c["group"], ignore)
    d = tempfile.mkdtemp(prefix="p10-")
    gc = get_global_config()
    keep, dt = gc.quantization.method, torch.get_default_dtype()
    try:
        names = sorted(ck)
        import random
        random.Random(c["seed"]).shuffle(names)
        for f in range(c["files"]):
            part = {n: ck[n].contiguous() for n in names[f::c["files"]]}
            if c["bin"]:
                torch.save(part, os.path.join(d, "pytorch_model-%d.bin" % f))
            else:
                save_file(part, os.path.join(d, "model-%05d.safetensors" % f))
        main = {"model_type": "qwen3", "hidden_size": hidden}
        if c["cfgfile"] == "config":
            main["quantization_config"] = qcfg
        else:
            with open(os.path.join(d, "quantize_config.json"), "w") as f:
                json.dump(qcfg, f)
        with open(os.path.join(d, "config.json"), "w") as f:
            json.dump(main, f)
        gc.quantization.method = ("awq_marlin" if kind == "awq" else "compressed-tensors") if c["method"] else None
        rn = ModelRunner.__new__(ModelRunner)
        rn.server_config = ServerConfig(model_path=d, dtype="float32")
        rn.model_config = ModelConfig(hf_config=cfg)
        rn.device, rn.gpu_id, rn.dtype = "cpu", 0, torch.float32
        rn.load_model()
    finally:
        gc.quantization.method = keep
        torch.set_default_dtype(dt)
        shutil.rmtree(d, ignore_errors=True)
    mods = dict(rn.model.named_modules())
    strip = lambda n: n[6:] if n.startswith("model.") else n
    seen = set()
    for name, m in mods.items():
        if not hasattr(m, "quant_method") or m.quant_method is None:
            continue
        short = strip(name)
        head, leaf = short.rsplit(".", 1) if "." in short else ("", short)
        shards = ["%s.%s" % (head, x) for x in FUSED.get(leaf, [leaf])]
        if not all(x in want for x in shards):
            continue
        seen |= set(shards)
        kinds = {want[x][0] for x in shards}
        eq(len(kinds), 1, "kinds in a fused layer")
        kd = kinds.pop()
        W = torch.cat([want[x][1] for x in shards])
        B = torch.cat([biases[x] for x in shards]) if shards[0] in biases else None
        quantised = type(m.quant_method).__name__ != "UnquantizedLinearMethod"
        eq(quantised, kd != "fp", "%s is loaded as a quantised layer (checkpoint ignore list %s)" % (name, ignore))
        x = randn(g, 2, W.shape[1])
        with torch.no_grad():
            close(m(x), apply_ref(kd, x, W, B).float(), "%s of the loaded model" % name, 1e-5)
    eq(sorted(seen), sorted(want), "projections of the checkpoint found in the loaded model")
    st.hit(kind)
    st.hit(c["net"])
    if skip:
        st.hit("partly_unquantised")
    for n, p in rn.model.named_parameters():
        s2 = strip(n)
        for pre in (P, ""):
            if pre + s2 in ck and p.dim() == 1 and "norm" in n:
                close(p.data, ck[pre + s2], n, 0)
    close(rn.model.lm_head.weight.data, ck["lm_head.weight"], "lm_head", 0)


# ------------------------------------------------------------------ configuration

def gen_config(s):
    n = s.int(1, 3)
    ents = []
    leaf = ["self_attn.q_proj", "self_attn.o_proj", "mlp.down_proj", "linear_attn.out_proj", "linear_attn.in_proj_b", "mlp.gate_proj"]
    for _ in range(n):
        k = s.weighted([(3, "full"), (2, "block"), (2, "comp"), (2, "re"), (1, "lm"), (1, "empty"), (1, "anch")])
        i = s.choice([0, 1, 2, 11])
        pre = s.choice(["model.", "model.language_model.", ""])
        ents.append({"full": lambda: "%slayers.%d.%s" % (pre, i, s.choice(leaf)), "block": lambda: "%slayers.%d" % (pre, i),
                     "comp": lambda: s.choice(["self_attn", "linear_attn", "mlp", "q_proj", "mlp.down_proj", "in_proj"]),
                     "re": lambda: s.choice([r"re:.*self_attn.*", r"re:.*\.layers\.%d\..*" % i, r"re:.*o_proj$", r"re:.*linear_attn\.in_proj_b$", "re:("]),
                     "anch": lambda: "re:" + re.escape(pre or "model.") + r"layers\.%d\..*_proj$" % i, "lm": lambda: "lm_head", "empty": lambda: ""}[k]())
    return {"ents": ents, "i": s.choice([0, 1, 2, 10, 11, 12, 21]), "leaf": s.choice(leaf + ["linear_attn.in_proj_ba", "mlp.gate_up_proj", "self_attn.qkv_proj"]),
            "own": s.choice(["model.", ""]), "awq": s.bool(.25), "bits": s.weighted([(12, 4), (1, 8), (1, 3)]), "group": s.weighted([(4, -1), (4, 32), (4, 64), (4, 128), (1, 16)])}


def run_config(c, st):
    from pymllm.quantization import get_quantization_config
    ents = c["ents"]
    if c["awq"]:
        ents = [e for e in ents if e and not e.startswith("re:")]
        cfg = {"bits": c["bits"], "group_size": c["group"], "zero_point": True, "modules_to_not_convert": ents or None}
        ok = c["bits"] in (4, 8) and c["group"] != 16
        cls = get_quantization_config("awq_marlin")
    else:
        cfg = qconfig("w4", 4, c["group"], ents)
        cfg["config_groups"]["group_0"]["weights"]["num_bits"] = c["bits"]
        ok = c["bits"] == 4 and c["group"] != 16
        cls = get_quantization_config("compressed-tensors")
    prefix = "%slayers.%d.%s" % (c["own"], c["i"], c["leaf"])
    try:
        qc = cls.from_config(cfg)
        got = qc.get_quant_method(layer=None, prefix=prefix)
    except ValueError:
        need(not ok, "a supported configuration was refused: %s", cfg)
        st.note("unsupported")
        return
    need(ok, "an unsupported configuration was accepted: %s", cfg)
    bare = "layers.%d.%s" % (c["i"], c["leaf"])
    head, last = bare.rsplit(".", 1)

    def hit(e, name):
        if not e:
            return False
        if e.startswith("re:"):
            try:
                p = re.compile(e[3:])
            except re.error:
                return False
            return any(p.match(pre + name) for pre in ("model.", "model.language_model."))
        for pre in ("model.language_model.", "model."):
            if e.startswith(pre):
                e = e[len(pre):]
                break
        return ("." + e + ".") in ("." + name + ".")
    shards = [head + "." + x for x in FUSED.get(last, [last])]
    flags = [any(hit(e, x) for e in ents) for x in shards] if last not in FUSED else \
        [any(hit(e, x) or hit(e, bare) for e in ents) for x in shards]
    if any(flags) and not all(flags):
        st.note("mixed fused layer")
        return
    want = all(flags)
    eq(got is None, want, "layer %s left unquantised under ignore list %s" % (prefix, ents))
    st.hit("ignored" if want else "quantised")


def make():
    import torch
    torch.set_num_threads(1)
    import mmenv
    mmenv.install()
    logging.disable(logging.ERROR)
    import pymllm.executor.model_runner  # noqa
    import mllm_kernel.cuda.jit as J
    import mllm_kernel.cuda.jit.awq_marlin_repack as A
    import mllm_kernel.cuda.jit.gptq_marlin as G
    import pymllm.quantization.methods.awq_marlin as QA
    import pymllm.quantization.methods.compressed_tensors as QC
    import sys
    sys.modules["mllm_kernel.cuda.jit.awq_marlin_repack"].awq_marlin_repack = k_awq_repack
    sys.modules["mllm_kernel.cuda.jit.gptq_marlin"].gptq_marlin_gemm = k_gemm
    QC.gptq_marlin_gemm, QC.gptq_marlin_repack = k_gemm, k_gptq_repack
    QC._triton_quant_fn, QC._cutlass_mm_fn = k_quant8, k_mm8
    torch.cuda.get_device_capability = lambda *a: (8, 0)
    torch.cuda.get_device_properties = lambda *a: SimpleNamespace(multi_processor_count=4, shared_memory_per_block_optin=0)
    return [Part("tp", gen_tp, run_tp, 6000, shards=2),
            Part("merged", gen_merged, run_merged, 8000, shards=1),
            Part("quant", gen_quant, run_quant, 1500, shards=3),
            Part("model", gen_model, run_model, 500, shards=2),
            Part("config", gen_config, run_config, 20000, shards=1),
            Part("groups", gen_groups, run_groups, 24, shards=2, cpu_limit=200)]


vh.main("P10", make, "a sharding, fusing or quantisation layout with random matrices; non-trivial when several shards, groups or kinds are involved",
        ["GPU kernels are replaced by their definitions over the Marlin layouts (lib/mmenv.py and this file)",
         "process groups use the gloo backend on the loopback interface"])
