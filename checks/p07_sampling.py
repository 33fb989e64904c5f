#!/usr/bin/env python3
"""P07: penalties, temperature, top-k / top-p / min-p filtering and the distribution that is sampled, against direct definitions.

Filter functions are compared value by value.  Sampling is judged on a few thousand draws made by one call
(identical rows): the support exactly, the frequencies within a bound that a correct sampler exceeds with
probability below 1e-10 per comparison.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq
from types import SimpleNamespace as NS
import numpy as np


def no_flashinfer_kernels():
    """FlashInfer's kernels need a GPU: make the torch fallback the one that is imported."""
    if "pymllm.layers.sampling" not in sys.modules:
        import flashinfer  # noqa: other layers import it
        sys.modules["flashinfer.sampling"] = None
        import pymllm.layers.sampling  # noqa


EPS = 2e-6


# ---------------------------------------------------------------- oracle
def keep_k(p, k):
    """(certainly kept, possibly kept): ties at the boundary may go either way."""
    V = len(p)
    if k < 1 or k >= V:
        return np.ones(V, bool), np.ones(V, bool)
    hi = np.array([(p > x * (1 + EPS)).sum() for x in p])
    near = np.array([(p >= x * (1 - EPS)).sum() for x in p])  # itself and its ties included
    return near <= k, hi < k


def keep_p(p, t):
    V = len(p)
    if t >= 1:
        return np.ones(V, bool) & (p > 1e-4), np.ones(V, bool)   # a cumulative sum may round up to 1 in the tail
    hi = np.array([p[p > x * (1 + EPS)].sum() for x in p])
    near = np.array([p[p >= x * (1 - EPS)].sum() for x in p])
    return near - p <= t - 4 * EPS, hi <= t + 4 * EPS


def keep_min(p, m):
    t = m * p.max()
    return p >= t * (1 + EPS), p >= t * (1 - EPS)


def both(a, b):
    return a[0] & b[0], a[1] & b[1]


def renorm(p, sure):
    q = np.where(sure, p, 0)
    return q / q.sum()


def top_k_p(p, k, t, order="top_k_first"):
    a = keep_k(p, k)
    if order == "joint":
        return both(a, keep_p(p, t))
    if (a[0] == a[1]).all():
        return both(a, keep_p(renorm(p, a[0]), t))
    return np.zeros(len(p), bool), a[1]


def check_counts(counts, p, keep, what, st):
    sure, maybe = keep
    n = counts.sum()
    need(not counts[~maybe].any(), "%s: drew %s, allowed %s", what, np.flatnonzero(counts * ~maybe).tolist(), np.flatnonzero(maybe).tolist())
    if (sure == maybe).all() or (p[maybe & ~sure].sum() < 1e-4 and sure.any()):
        q = np.where(maybe, p, 0)
        q = q / q.sum()
        bad = np.abs(counts - n * q) > 7 * np.sqrt(n * q * (1 - q)) + 12
        need(not bad.any(), "%s: %s draws have the counts %s, expected about %s", what, n, counts.tolist(), np.round(n * q, 1).tolist())
        if (q > .02).sum() > 1:
            st.hit("frequencies")
    else:
        st.note("boundary_tie")


def gen_row(s, V):
    m = s.weighted([(6, "distinct"), (2, "ties"), (1, "flat"), (2, "peaked"), (1, "zeros")])
    if m == "distinct":
        return [x + 1 for x in s.perm(range(V))]
    if m == "flat":
        return [1] * V
    if m == "peaked":
        return [s.choice([1000, 30, 1]) if i else 1000 for i in range(V)]
    w = [s.int(1 if m == "ties" else 0, 4) for _ in range(V)]
    return w if any(w) else [1] + w[1:]


def gen_k(s, V):
    return s.weighted([(6, s.int(1, V)), (1, V), (2, -1), (1, V + s.int(1, 5)), (1, 1)])


def gen_p(s):
    return s.weighted([(6, s.int(1, 99) / 100 + .003), (1, 1.0), (1, .001), (1, .999)])


def gen_base(s):
    V = s.weighted([(6, s.int(1, 9)), (1, s.int(10, 40))])
    B = s.int(1, 4)
    return {"V": V, "B": B, "w": [gen_row(s, V) for _ in range(B)], "k": [gen_k(s, V) for _ in range(B)], "p": [gen_p(s) for _ in range(B)]}


def probs_of(c):
    w = np.array(c["w"], dtype=np.float64)
    return w / w.sum(1, keepdims=True)


# ---------------------------------------------------------------- filters, value by value
def gen_filter(s):
    c = gen_base(s)
    c["f"] = s.choice(["top_p", "top_k", "mask", "softmax"])
    c["tensor"] = s.bool(.6)
    c["dtype"] = s.weighted([(4, "float32"), (1, "float64"), (1, "bfloat16")]) if c["f"] in ("mask", "softmax") else "float32"
    c["logits"] = [[s.int(-40, 40) / 4 for _ in range(c["V"])] for _ in range(c["B"])]
    c["temp"] = s.weighted([(1, None), (4, [s.choice([.1, .5, .7, 1.0, 1.5, 4.0]) for _ in range(c["B"])])])
    return c


def run_filter(c, st):
    import torch
    no_flashinfer_kernels()
    import pymllm.layers.sampling as S
    p = probs_of(c)
    k = torch.tensor(c["k"], dtype=torch.int32) if c["tensor"] else c["k"][0]
    t = torch.tensor(c["p"], dtype=torch.float32) if c["tensor"] else c["p"][0]
    ks = c["k"] if c["tensor"] else [c["k"][0]] * c["B"]
    ts = c["p"] if c["tensor"] else [c["p"][0]] * c["B"]
    if c["f"] in ("top_p", "top_k"):
        x = torch.tensor(p, dtype=torch.float32)
        keepx = x.clone()
        out = (S.top_p_renorm_probs(x, t) if c["f"] == "top_p" else S.top_k_renorm_probs(x, k))
        need(torch.equal(x, keepx), "the input probabilities were modified")
        eq(out.dtype, x.dtype, "dtype")
        out = out.double().numpy()
        eq(out.shape, p.shape, "shape")
        for i in range(c["B"]):
            sure, maybe = keep_p(p[i], ts[i]) if c["f"] == "top_p" else keep_k(p[i], ks[i])
            got = out[i] > 0
            pos = p[i] > 0
            need(not (sure & pos & ~got).any() and not (got & ~maybe).any(), "row %d %s: kept %s, want between %s and %s (probabilities %s)",
                 i, c["f"], np.flatnonzero(got).tolist(), np.flatnonzero(sure & pos).tolist(), np.flatnonzero(maybe).tolist(), p[i].tolist())
            need(got.any(), "nothing kept")
            need(np.allclose(out[i], renorm(p[i], got), atol=3e-6), "row %d %s: %s, want %s", i, c["f"], out[i].tolist(), renorm(p[i], got).tolist())
            if got.sum() < pos.sum():
                st.hit("filtered")
        return
    x = torch.tensor(c["logits"], dtype=torch.float64).to(getattr(torch, c["dtype"]))
    l = x.double().numpy()
    keepx = x.clone()
    if c["f"] == "mask":
        out = S.top_k_mask_logits(x, k)
        need(torch.equal(x, keepx), "the input logits were modified")
        eq(out.dtype, x.dtype, "dtype")
        out = out.double().numpy()
        for i in range(c["B"]):
            e = np.exp(l[i] - l[i].max())
            sure, maybe = keep_k(e, ks[i])
            got = np.isfinite(out[i])
            need(not (sure & ~got).any() and not (got & ~maybe).any(), "row %d: kept %s, want between %s and %s", i, np.flatnonzero(got).tolist(),
                 np.flatnonzero(sure).tolist(), np.flatnonzero(maybe).tolist())
            need((out[i][got] == l[i][got]).all() and (out[i][~got] == -np.inf).all(), "values of row %d: %s", i, out[i].tolist())
            if not got.all():
                st.hit("masked")
        return
    tm = c["temp"]
    if tm is not None:
        out = S.softmax(x, torch.tensor(tm, dtype=torch.float32) if c["tensor"] else tm[0])
    else:
        out = S.softmax(x)
    need(torch.equal(x, keepx), "the input logits were modified")
    out = out.double().numpy()
    for i in range(c["B"]):
        z = l[i] / (1 if tm is None else tm[i] if c["tensor"] else tm[0])
        e = np.exp(z - z.max())
        e /= e.sum()
        tol = 3e-2 if c["dtype"] == "bfloat16" else 2e-5
        if c["dtype"] == "bfloat16" and tm is not None and not c["tensor"]:
            tol = .2    # the scaled logits are rounded to bfloat16
        need(np.abs(out[i] - e).max() < tol, "softmax row %d: %s, want %s", i, out[i].tolist(), e.tolist())
        need(abs(out[i].sum() - 1) < 2e-2, "row %d sums to %s", i, out[i].sum())
    st.hit("softmax")


# ---------------------------------------------------------------- penalties
def gen_pen(s):
    V, B = s.int(1, 12), s.int(1, 4)
    return {"V": V, "B": B, "logits": [[s.int(-20, 20) / 2 for _ in range(V)] for _ in range(B)],
            "hist": [s.list(lambda s: s.int(-1 if s.bool(.1) else 0, V + 1 if s.bool(.1) else V - 1), 0, 12) for _ in range(B)],
            "rep": [s.weighted([(2, 1.0), (1, 1.1), (1, 2.0), (1, .5)]) for _ in range(B)],
            "freq": [s.weighted([(2, 0.0), (1, .5), (1, 2.0), (1, -1.0), (1, .03125)]) for _ in range(B)],
            "pres": [s.weighted([(2, 0.0), (1, .25), (1, 2.0), (1, -.5)]) for _ in range(B)],
            "dtype": s.weighted([(4, "float32"), (1, "bfloat16"), (1, "float16")])}


def run_pen(c, st):
    import torch
    from pymllm.executor.model_runner import _apply_penalties
    x = torch.tensor(c["logits"]).to(getattr(torch, c["dtype"]))
    keepx = x.clone()
    h = [list(a) for a in c["hist"]]
    out = _apply_penalties(x, h, *(torch.tensor(c[n], dtype=torch.float32) for n in ("rep", "freq", "pres")))
    need(torch.equal(x, keepx), "the logits of the caller were modified")
    eq(h, c["hist"], "token histories afterwards")
    eq(out.dtype, x.dtype, "dtype")
    eq(tuple(out.shape), (c["B"], c["V"]), "shape")
    got = out.double().numpy()
    tol = {"float32": 1e-5, "float16": 2e-3, "bfloat16": 2e-2}[c["dtype"]]
    for i in range(c["B"]):
        for t in range(c["V"]):
            v = c["logits"][i][t]
            n = c["hist"][i].count(t)
            w = v
            if n:
                w = v / c["rep"][i] if v > 0 else v * c["rep"][i]
                w -= c["freq"][i] * n + c["pres"][i]
                if w != v:
                    st.hit("penalised")
            need(abs(got[i, t] - w) <= tol * (4 + abs(v) + abs(w) + (abs(c["freq"][i]) * n)) if w != v else got[i, t] == float(keepx[i, t]),
                 "row %d token %d seen %d times: %s, want %s", i, t, n, got[i, t], w)


# ---------------------------------------------------------------- the sampler the engine calls
N = 2400


def gen_sample(s):
    c = gen_base(s)
    c["logits"] = [[s.int(-12, 12) / 4 if s.bool(.2) else x / 3 for x in s.perm(range(c["V"]))] for _ in range(c["B"])]
    c["temp"] = [s.weighted([(3, 1.0), (1, .5), (1, 2.0), (1, 0.0), (.5, 1e-7), (1, .1)]) for _ in range(c["B"])]
    if s.bool(.1):
        c["temp"] = [0.0] * c["B"]
    c["use"] = {"t": s.bool(.9), "k": s.bool(.8), "p": s.bool(.8), "g": s.bool(.5), "pen": s.bool(.3)}
    c["hist"] = [s.ints(0, c["V"] - 1, 0, 5) for _ in range(c["B"])]
    c["pen"] = [[s.choice([1.0, 1.5]), s.choice([0.0, .5]), s.choice([0.0, 1.0])] for _ in range(c["B"])]
    c["dtype"] = s.weighted([(4, "float32"), (1, "bfloat16")])
    c["seed"] = s.seed()
    return c


def run_sample(c, st):
    import torch
    no_flashinfer_kernels()
    from pymllm.executor.model_runner import ModelRunner, LogitsProcessorOutput
    u, B, V = c["use"], c["B"], c["V"]
    rng = np.random.default_rng(c["seed"])
    greedy = u["t"] and all(t < 1e-6 for t in c["temp"])
    n = 40 if greedy or u["pen"] else N
    row = rng.permutation(np.repeat(np.arange(B), n // B + 1))
    x = torch.tensor(c["logits"], dtype=torch.float32).to(getattr(torch, c["dtype"]))
    l = x.double().numpy()
    if u["pen"]:
        for i in range(B):
            r, f, q = c["pen"][i]
            for t in set(c["hist"][i]):
                l[i, t] = (l[i, t] / r if l[i, t] > 0 else l[i, t] * r) - f * c["hist"][i].count(t) - q
    big = x[row]
    keepx = big.clone()
    kw = {}
    if u["t"]:
        kw["temperatures"] = torch.tensor(c["temp"], dtype=torch.float32)[row]
        if u["g"] or greedy:
            kw["is_all_greedy"] = greedy
        if greedy and not u["g"]:
            kw.pop("is_all_greedy")
    if u["k"]:
        kw["top_ks"] = torch.tensor(c["k"], dtype=torch.int32)[row]
    if u["p"]:
        kw["top_ps"] = torch.tensor(c["p"], dtype=torch.float32)[row]
    if u["pen"]:
        kw["penalty_params"] = {"token_histories": [list(c["hist"][i]) for i in row],
                                **{nm: torch.tensor([c["pen"][i][j] for i in row], dtype=torch.float32)
                                   for j, nm in enumerate(("repetition_penalties", "frequency_penalties", "presence_penalties"))}}
    torch.manual_seed(c["seed"])
    out = ModelRunner.sample(NS(device="cpu"), LogitsProcessorOutput(next_token_logits=big), NS(batch_size=len(row)), **kw)
    need(torch.equal(big, keepx), "the logits of the caller were modified")
    eq(tuple(out.shape), (len(row),), "shape of the sampled ids")
    eq(out.dtype, torch.int32, "dtype of the sampled ids")
    out = out.numpy()
    need((out >= 0).all() and (out < V).all(), "ids out of the vocabulary")
    half = c["dtype"] == "bfloat16"
    slack = (.04 if u["pen"] else 0) if half else 1e-6
    for i in range(B):
        counts = np.bincount(out[row == i], minlength=V)
        t = c["temp"][i] if u["t"] else 1.0
        if t < 1e-6:
            best = np.flatnonzero(l[i] >= l[i].max() - slack)
            need(not np.delete(counts, best).any(), "row %d with temperature 0 drew %s, the largest logit is at %s (logits %s)", i,
                 np.flatnonzero(counts).tolist(), best.tolist(), l[i].tolist())
            if greedy:
                st.hit("greedy")
            else:
                st.hit("greedy_row_in_mixed_batch")
            continue
        z = l[i] / t
        p = np.exp(z - z.max())
        p /= p.sum()
        k = c["k"][i] if u["k"] else -1
        tp = c["p"][i] if u["p"] else 1.0
        if half and u["pen"]:
            continue    # the rounding of penalised logits to bfloat16 is not modelled
        check_counts(counts, p, top_k_p(p, k, tp), f"row {i} (temperature {t}, top_k {k}, top_p {tp})", st)


# ---------------------------------------------------------------- the sampling functions
def gen_fn(s):
    c = gen_base(s)
    c["f"] = s.choice(["probs", "logits", "top_p", "top_k", "min_p", "kp_probs", "kp_logits"])
    c["order"] = s.choice(["top_k_first", "joint"])
    c["tensor"] = s.bool()
    c["indices"] = s.bool()
    c["gen"] = s.bool(.3)
    c["seed"] = s.seed()
    return c


def run_fn(c, st):
    import torch
    no_flashinfer_kernels()
    import pymllm.layers.sampling as S
    B, V, f = c["B"], c["V"], c["f"]
    rng = np.random.default_rng(c["seed"])
    row = rng.permutation(np.repeat(np.arange(B), N // B + 1))
    p = probs_of(c)
    with np.errstate(divide="ignore"):
        x = np.log(p) + rng.normal() if f in ("logits", "kp_logits") else p
    x = torch.tensor(x, dtype=torch.float32)
    kw = {}
    if c["indices"]:
        kw["indices"] = torch.tensor(row, dtype=torch.int32)
    else:
        x = x[row]
    if c["gen"]:
        kw["generator"] = torch.Generator().manual_seed(c["seed"])
    keepx = x.clone()
    if c["tensor"]:
        k, t = torch.tensor(c["k"], dtype=torch.int32)[row], torch.tensor(c["p"], dtype=torch.float32)[row]
        ks, ts = c["k"], c["p"]
    else:
        k, t = c["k"][0], c["p"][0]
        ks, ts = [k] * B, [t] * B
    torch.manual_seed(c["seed"])
    if f == "probs":
        out = S.sampling_from_probs(x, **kw)
    elif f == "logits":
        out = S.sampling_from_logits(x, **kw)
    elif f == "top_p":
        out = S.top_p_sampling_from_probs(x, t, **kw)
    elif f == "top_k":
        out = S.top_k_sampling_from_probs(x, k, **kw)
    elif f == "min_p":
        out = S.min_p_sampling_from_probs(x, t, **kw)
    else:
        fn = S.top_k_top_p_sampling_from_probs if f == "kp_probs" else S.top_k_top_p_sampling_from_logits
        out = fn(x, k, t, filter_apply_order=c["order"], **kw)
    need(torch.equal(x, keepx), "the input was modified")
    eq(tuple(out.shape), (len(row),), "shape of the sampled ids")
    out = out.numpy()
    every = np.ones(V, bool)
    for i in range(B):
        q = p[i]
        keep = {"probs": lambda: (every, every), "logits": lambda: (every, every), "top_p": lambda: keep_p(q, ts[i]), "top_k": lambda: keep_k(q, ks[i]),
                "min_p": lambda: keep_min(q, ts[i])}.get(f, lambda: top_k_p(q, ks[i], ts[i], c["order"]))()
        keep = (keep[0] & (q > 0), keep[1] & (q > 0))
        check_counts(np.bincount(out[row == i], minlength=V), q, keep, f"{f} row {i} (k {ks[i]}, p {ts[i]}, {c['order']})", st)


# ---------------------------------------------------------------- speculative sampling
def gen_spec(s):
    V, n = s.int(1, 6), s.int(1, 3)
    return {"V": V, "n": n, "d": [gen_row(s, V) for _ in range(n)], "t": [gen_row(s, V) for _ in range(n + 1)],
            "same": s.bool(.15), "add": s.bool(), "gen": s.bool(.3), "seed": s.seed()}


def run_spec(c, st):
    import torch
    no_flashinfer_kernels()
    import pymllm.layers.sampling as S
    V, n, B = c["V"], c["n"], 700
    d, t = (np.array(c[x], float) for x in "dt")
    d, t = d / d.sum(1, keepdims=True), t / t.sum(1, keepdims=True)
    if c["same"]:
        t[:n] = d
    rng = np.random.default_rng(c["seed"])
    ids = np.stack([rng.choice(V, size=B, p=d[j]) for j in range(n)], 1)
    kw = {}
    if c["add"]:
        kw = {"maybe_output_accepted_token_num": torch.full((B,), 5, dtype=torch.int32), "maybe_output_emitted_draft_token_num": torch.full((B,), 9, dtype=torch.int32)}
    torch.manual_seed(c["seed"])
    dp, tp = (torch.tensor(a, dtype=torch.float32)[None].repeat(B, 1, 1) for a in (d, t))
    out, acc, emit = S.chain_speculative_sampling(dp, torch.tensor(ids, dtype=torch.int32), tp, **kw,
                                                  **({"generator": torch.Generator().manual_seed(c["seed"])} if c["gen"] else {}))
    eq(tuple(out.shape), (B, n + 1), "shape of the output tokens")
    out, acc, emit = out.numpy(), acc.numpy(), emit.numpy()
    if c["add"]:
        eq(kw["maybe_output_accepted_token_num"].tolist(), (acc + 5).tolist(), "accumulated accepted counts")
        eq(kw["maybe_output_emitted_draft_token_num"].tolist(), (emit + 9).tolist(), "accumulated emitted counts")
    valid = out >= 0
    need((valid.sum(1) >= 1).all(), "a row without a token")
    for b in range(B):
        m = int(valid[b].sum())
        need(valid[b, :m].all() and (out[b, m:] == -1).all(), "row %s: the padding is not at the end", out[b].tolist())
        eq(out[b, :m - 1].tolist(), ids[b, :m - 1].tolist(), "tokens before the last one are accepted draft tokens")
    eq(emit.tolist(), (valid.sum(1) - 1).tolist(), "emitted draft tokens")
    rate = np.minimum(np.minimum(d, t[:n]).sum(1), 1)
    for j in range(n + 1):
        rows = valid[:, j]
        if rows.any():
            check_counts(np.bincount(out[rows, j], minlength=V), t[j], (t[j] > 0, t[j] > 0), f"token {j} given the accepted ones before it", st)
        if j < n and rows.any():
            go, N1 = valid[:, j + 1].sum(), rows.sum()
            a = rate[j]
            need(abs(go - N1 * a) <= 7 * np.sqrt(N1 * a * (1 - a)) + (12 if a < 1 - 1e-6 else .5), "position %d: %d of %d accepted, the rate should be %s", j, go, N1, a)
            if 0 < go < N1:
                st.hit("accepted_and_rejected")
    m = rate.sum()
    need((acc >= 0).all() and (acc <= n).all(), "accepted counts")
    need(abs(acc.sum() - B * m) <= 7 * np.sqrt(B * (rate * (1 - rate)).sum()) + 12, "accepted tokens: %d, expected about %s", acc.sum(), B * m)


PARTS = [Part("filter", gen_filter, run_filter, 6000, shards=2),
         Part("penalty", gen_pen, run_pen, 4000, shards=2),
         Part("sample", gen_sample, run_sample, 5000, shards=4),
         Part("functions", gen_fn, run_fn, 4000, shards=4),
         Part("speculative", gen_spec, run_spec, 300, shards=4)]

if __name__ == "__main__":
    vh.main("P07", PARTS,
            "a case counts when a filter removes something, a penalty changes a logit, a greedy row is decided, or at least two tokens of probability above 2% have their frequencies compared",
            ["CPU torch fallback (FlashInfer kernels are CUDA only)", "a cumulative probability within 8e-6 of top_p, and ties at the top-k boundary, may be kept or dropped",
             "frequency comparison detects differences of about 0.07 in a probability (2400 draws)"])
