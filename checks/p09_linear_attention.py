#!/usr/bin/env python3
"""P09: linear attention gives one answer, however a sequence is cut up.

Gated delta nets: the chunk-parallel scans, the step-by-step scan, the decode
step and the causal convolution, over histories of extends and decodes of many
sequences whose states live in one pool, against a float64 recurrence over
each sequence's whole history.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq
import logging
from types import SimpleNamespace

TOL = 2e-4


def rnd(seed):
    import torch
    return torch.Generator().manual_seed(seed)


def delta_rule(q, k, v, a, b, A_log, dt_bias, S):
    """q,k [n,H,K]; v [n,HV,V]; a,b [n,HV]; S [HV,V,K] -> out [n,HV,V], state (float64, token by token)"""
    import torch
    q, k, v, a, b, A_log, dt_bias = (x.double() for x in (q, k, v, a, b, A_log, dt_bias))
    n, H, K = q.shape
    HV, V = v.shape[1:]
    q = (q / (q.norm(dim=-1, keepdim=True) + 1e-6) * K ** -.5).repeat_interleave(HV // H, 1)
    k = (k / (k.norm(dim=-1, keepdim=True) + 1e-6)).repeat_interleave(HV // H, 1)
    x = a + dt_bias
    decay = torch.exp(-torch.exp(A_log) * torch.logaddexp(x, torch.zeros_like(x)))
    beta = torch.sigmoid(b)
    S = S.double().clone()
    out = torch.empty(n, HV, V, dtype=torch.float64)
    for t in range(n):
        S = S * decay[t, :, None, None]
        d = (v[t] - torch.einsum("hvk,hk->hv", S, k[t])) * beta[t, :, None]
        S = S + d[:, :, None] * k[t][:, None]
        out[t] = torch.einsum("hvk,hk->hv", S, q[t])
    return out, S


def close(got, want, what, scale=1.0, extra=0.0):
    import torch
    eq(tuple(got.shape), tuple(want.shape), f"shape of {what}")
    need(bool(torch.isfinite(got).all()), "%s is not finite", what)
    err = float((got.double() - want).abs().max() / (scale + want.abs().max())) if got.numel() else 0.0
    need(err < TOL + extra, "%s differs from the recurrence by %.3g\n got %s\nwant %s", what, err, got.flatten()[:6].tolist(), want.flatten()[:6].tolist())


def dims(s):
    H = s.int(1, 3)
    return {"H": H, "HV": H * s.int(1, 3), "K": s.int(1, 8), "V": s.int(1, 8), "seed": s.seed() % 10 ** 9, "slots": s.int(1, 4),
            "amax": s.choice([.1, 1.0, 16.0]), "ascale": s.choice([.5, 2.0, 8.0]), "dup": s.bool(.2)}


def weights(c, g):
    import torch
    A_log = torch.log(torch.rand(c["HV"], generator=g) * c["amax"] + 1e-4)
    dt = torch.randn(c["HV"], generator=g) * 2
    return A_log, dt


def gen_scan(s):
    c = dims(s)
    c["fn"] = s.weighted([(4, "torch"), (2, "loop")])
    c["chunk"] = s.choice([None, None, 1, 2, 3, 8, 16, 64])
    c["dtype"] = s.weighted([(4, "float32"), (1, "bfloat16")])
    steps = s.list(lambda s: [s.perm(list(range(c["slots"])))[: s.int(1, c["slots"])],
                              [s.weighted([(4, s.int(1, 12)), (2, s.int(10, 70)), (1, 0), (1, s.int(120, 300)), (1, 64), (1, 128)])
                               for _ in range(c["slots"])]], 1, 3)
    return {"c": c, "steps": steps}


def run_scan(case, st):
    import torch
    from pymllm.layers.attention import gdn_chunkwise as G
    c = case["c"]
    g = rnd(c["seed"])
    A_log, dt = weights(c, g)
    pool = torch.zeros(c["slots"] + 1, c["HV"], c["V"], c["K"])
    ref = pool.double()
    fn = G.gdn_extend_chunkwise_torch if c["fn"] == "torch" else G.gdn_extend_chunkwise
    kw = {"chunk_size": c["chunk"]} if c["chunk"] else {}
    dtype = getattr(torch, c["dtype"])
    for slots, lens in case["steps"]:
        lens = lens[: len(slots)]
        if c["fn"] == "loop":
            lens = [min(n, 90) for n in lens]
        n = sum(lens)
        q, k = (torch.randn(n, c["H"], c["K"], generator=g).to(dtype) for _ in "qk")
        if c["dup"]:                    # repeated keys: the delta rule overwrites
            k[1::2] = k[0::2][: len(k[1::2])]
        v = torch.randn(n, c["HV"], c["V"], generator=g).to(dtype)
        a, b = ((torch.randn(n, c["HV"], generator=g) * c["ascale"]).to(dtype) for _ in "ab")
        cu = [0]
        for x in lens:
            cu.append(cu[-1] + x)
        keep = [x.clone() for x in (q, k, v, a, b)]
        before = pool.clone()
        out = fn(q, k, v, a, b, A_log, dt, pool, torch.tensor(slots), torch.tensor(cu), **kw)
        for x, y in zip(keep, (q, k, v, a, b)):
            need(torch.equal(x, y), "the scan changed its inputs")
        eq(out.dtype, v.dtype, "dtype of the output")
        for i, (sl, x, y) in enumerate(zip(slots, cu, cu[1:])):
            o, S = delta_rule(q[x:y], k[x:y], v[x:y], a[x:y], b[x:y], A_log, dt, ref[sl])
            # log decays are accumulated in float32 over a chunk
            gg = torch.exp(A_log.double()) * torch.nn.functional.softplus((a[x:y] + dt).double())
            extra = 2.5e-7 * float(gg.sum(0).max()) if y > x else 0.0
            if dtype == torch.float32:
                close(out[x:y], o, f"output of request {i} ({y - x} tokens)", extra=extra)
            elif y > x:
                need(float((out[x:y].double() - o).abs().max()) < .02 * (1 + float(o.abs().max())), "output of request %d (%d tokens) is off", i, y - x)
            close(pool[sl], S, f"state of request {i} after {y - x} tokens", extra=extra)
            ref[sl] = S
            if y - x > (c["chunk"] or (128 if c["fn"] == "torch" else 64)):
                st.hit("several_chunks")
            if y - x > 1:
                st.hit("multi_token")
        for sl in set(range(c["slots"] + 1)) - set(slots):
            need(torch.equal(pool[sl], before[sl]), "state of an absent request (slot %d) changed", sl)


def gen_backend(s):
    c = dims(s)
    c["K_conv"] = s.int(2, 5)
    c["layers"] = s.int(1, 3)

    def op(s):
        k = s.weighted([(4, "extend"), (5, "decode"), (2, "reset"), (2, "copy")])
        slots = s.perm(list(range(c["slots"])))[: s.int(1, c["slots"])]
        if k == "extend":
            return [k, slots, s.ints(0 if s.bool(.3) else 1, s.choice([3, 10]), len(slots), len(slots))]
        if k == "copy":
            return [k, [s.int(0, c["slots"]) for _ in range(2)]]
        return [k, slots]
    return {"c": c, "ops": s.list(op, 1, 12)}


def run_backend(case, st):
    import torch
    import torch.nn.functional as F
    from pymllm.engine.forward_batch import ForwardMode
    from pymllm.layers.attention.gdn_backend import GDNAttnBackend
    from pymllm.layers.attention.radix_linear_attention import RadixLinearAttention
    from pymllm.mem_cache.memory_pool import GDNPool
    c = case["c"]
    g = rnd(c["seed"])
    kd, vd = c["H"] * c["K"], c["HV"] * c["V"]
    cd, Kc, L = 2 * kd + vd, c["K_conv"], c["layers"]
    n = c["slots"] + 1
    pool = GDNPool(max_reqs=n, num_gdn_layers=L, num_v_heads=c["HV"], head_k_dim=c["K"], head_v_dim=c["V"], conv_dim=cd,
                   conv_kernel_size=Kc, device="cpu", dtype=torch.float32)
    be = GDNAttnBackend(pool, torch.device("cpu"))
    layers, ws = [], []
    for i in range(L):
        A_log, dt = weights(c, g)
        w = torch.randn(cd, Kc, generator=g)
        ws.append((A_log, dt, w))
        layers.append(RadixLinearAttention(layer_id=2 * i, gdn_layer_idx=i, num_k_heads=c["H"], num_v_heads=c["HV"], head_k_dim=c["K"],
                                           head_v_dim=c["V"], conv_weight=torch.nn.Parameter(w), A_log=torch.nn.Parameter(A_log),
                                           dt_bias=torch.nn.Parameter(dt)))
    S = torch.zeros(L, n, c["HV"], c["V"], c["K"], dtype=torch.float64)
    C = torch.zeros(L, n, Kc - 1, cd, dtype=torch.float64)
    for op in case["ops"]:
        if op[0] == "reset":
            pool.reset_states(torch.tensor(op[1]))
            S[:, op[1]] = 0
            C[:, op[1]] = 0
        elif op[0] == "copy":
            a, b = op[1]
            if a != b:
                pool.copy_states(a, b)
                S[:, b], C[:, b] = S[:, a], C[:, a]
                st.note("copied")
        else:
            slots = op[1]
            lens = op[2] if op[0] == "extend" else [1] * len(slots)
            if not sum(lens):
                continue
            t = sum(lens)
            fb = SimpleNamespace(req_pool_indices=torch.tensor(slots, dtype=torch.int32 if c["seed"] % 2 else torch.int64), batch_size=len(slots),
                                 forward_mode=ForwardMode.EXTEND if op[0] == "extend" else ForwardMode.DECODE,
                                 extend_seq_lens=torch.tensor(lens, dtype=torch.int32) if op[0] == "extend" else None, attn_backend=be)
            be.init_forward_metadata(fb)
            for i in range(L):
                x = torch.randn(t, cd, generator=g)
                a, b = (torch.randn(t, c["HV"], generator=g) * c["ascale"] for _ in "ab")
                A_log, dt, w = ws[i]
                with torch.no_grad():
                    out = layers[i](fb, x.clone(), a, b)
                eq(tuple(out.shape), (t, vd), "shape of the output")
                p = 0
                for sl, m in zip(slots, lens):
                    full = torch.cat([C[i, sl], x[p:p + m].double()])
                    conv = F.silu(sum(full[j:j + m] * w[:, j].double() for j in range(Kc))) if m else full[:0]
                    C[i, sl] = full[len(full) - (Kc - 1):]
                    o, S[i, sl] = delta_rule(conv[:, :kd].view(m, c["H"], c["K"]), conv[:, kd:2 * kd].view(m, c["H"], c["K"]),
                                             conv[:, 2 * kd:].view(m, c["HV"], c["V"]), a[p:p + m], b[p:p + m], A_log, dt, S[i, sl])
                    close(out[p:p + m].view(m, c["HV"], c["V"]), o, f"{op[0]} output of layer {i}, slot {sl} ({m} tokens)")
                    p += m
            st.hit(op[0] if len(slots) == 1 else "batched_" + op[0])
        for i in range(L):
            rec, conv = pool.get_layer_state(i)
            close(rec[:n], S[i], f"recurrent states of layer {i} after {op[0]}")
            close(conv[:n].transpose(-1, -2), C[i], f"convolution states of layer {i} after {op[0]}")


def gen_norm(s):
    return {"seed": s.seed() % 10 ** 9, "n": s.int(0, 5), "d": s.int(1, 20), "eps": s.choice([1e-6, 1e-3, .5]), "z": s.bool(.8), "before": s.bool(.7),
            "dtype": s.choice(["float32", "float32", "bfloat16", "float16"]), "scale": s.choice([1e-3, 1.0, 50.0])}


def run_norm(c, st):
    import torch
    from pymllm.layers.rms_norm_gated import RMSNormGated
    g = rnd(c["seed"])
    dt = getattr(torch, c["dtype"])
    m = RMSNormGated(c["d"], eps=c["eps"], norm_before_gate=c["before"], dtype=dt)
    with torch.no_grad():
        m.weight.copy_(torch.randn(c["d"], generator=g))
    x = (torch.randn(c["n"], c["d"], generator=g) * c["scale"]).to(dt)
    z = torch.randn(c["n"], c["d"], generator=g).to(dt) if c["z"] else None
    with torch.no_grad():
        out = m(x, z)
    y = x.double()
    gate = z.double() * torch.sigmoid(z.double()) if c["z"] else 1.0
    if not c["before"]:
        y = y * gate
    y = y / torch.sqrt(y.pow(2).mean(-1, keepdim=True) + c["eps"]) * m.weight.double()
    if c["before"]:
        y = y * gate
    eq(out.dtype, dt, "dtype")
    eq(tuple(out.shape), tuple(x.shape), "shape")
    tol = {"float32": 1e-5, "bfloat16": 1e-2, "float16": 2e-3}[c["dtype"]]
    if out.numel():
        err = float(((out.double() - y).abs() / (1e-3 + y.abs())).max())
        need(err < tol * 2, "gated norm off by %.3g (relative)", err)
        st.hit("gated" if c["z"] else "plain")


def make():
    import torch
    torch.set_num_threads(1)
    import mmenv
    mmenv.install()
    logging.disable(logging.WARNING)
    import pymllm.layers.attention.gdn_backend  # noqa
    return [Part("scan", gen_scan, run_scan, 1500, shards=3),
            Part("backend", gen_backend, run_backend, 1500, shards=3),
            Part("gated_norm", gen_norm, run_norm, 1500, shards=1)]


vh.main("P09", make, "random head counts, dimensions, decays and histories of extends, decodes, resets and copies over a pool of states; "
        "non-trivial when a request processed several tokens or a batch several requests",
        ["CUDA kernels are not run: the PyTorch scans and fallbacks are", "key kernels of width 1 (no convolution) are not generated"])
