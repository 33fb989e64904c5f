"""CPU stand-ins for the GPU kernels pymllm calls (flashinfer, mllm_kernel's JIT kernels).

Each stand-in is the documented mathematical definition of the kernel, in plain
torch, and checks the shapes and index arrays it is handed.  install() must run
before pymllm.layers is imported.  Everything above the kernels (layers, models,
attention-backend bookkeeping, memory pools, model runner) is the code under test.
"""
import math
import torch
from vh import need


def _rot(x, cos, sin, interleave):
    if interleave:
        a, b = x[..., 0::2], x[..., 1::2]
        out = torch.empty_like(x)
        out[..., 0::2], out[..., 1::2] = a * cos - b * sin, b * cos + a * sin
        return out
    h = x.shape[-1] // 2
    a, b = x[..., :h], x[..., h:]
    return torch.cat([a * cos - b * sin, b * cos + a * sin], -1)


def rope_pos(x, pos, rotary_dim, interleave, scale, theta):
    need(x.dim() == 3, "rope input has shape %s", tuple(x.shape))
    need(pos.dim() == 1 and pos.numel() == x.shape[0], "rope positions of shape %s for %d tokens", tuple(pos.shape), x.shape[0])
    d = x.shape[-1] if rotary_dim is None else rotary_dim
    inv = theta ** (-torch.arange(0, d, 2, dtype=torch.float64) / d) / scale
    ang = pos.double()[:, None] * inv
    cos, sin = ang.cos()[:, None], ang.sin()[:, None]
    out = x.double().clone()
    out[..., :d] = _rot(out[..., :d], cos, sin, interleave)
    return out.to(x.dtype)


def _rope(q, k, pos_ids, rotary_dim=None, interleave=False, rope_scale=1.0, rope_theta=1e4):
    return (rope_pos(q, pos_ids, rotary_dim, interleave, rope_scale, rope_theta),
            rope_pos(k, pos_ids, rotary_dim, interleave, rope_scale, rope_theta))


def _rope_inplace(q, k, pos_ids, **kw):
    a, b = _rope(q, k, pos_ids, **kw)
    q.copy_(a)
    k.copy_(b)


def attend(q, k, v, causal_from, scale, cap=None, window=-1):
    """q [n,H,D], k [m,G,D], v [m,G,E]; token i sees keys 0..causal_from+i (all if None). -> o, lse (base 2)"""
    n, H, _ = q.shape
    m, G = k.shape[0], k.shape[1]
    need(H % G == 0, "%d query heads with %d kv heads", H, G)
    if m == 0:
        return q.new_zeros(n, H, v.shape[-1]), q.new_full((n, H), -math.inf, dtype=torch.float64)
    kk, vv = k.double().repeat_interleave(H // G, 1), v.double().repeat_interleave(H // G, 1)
    s = torch.einsum("nhd,mhd->hnm", q.double(), kk) * scale
    if cap:
        s = cap * torch.tanh(s / cap)
    if causal_from is not None:
        i, j = torch.arange(n)[:, None] + causal_from, torch.arange(m)[None]
        bad = j > i
        if window is not None and window >= 0:
            bad = bad | (j < i - window)
        s = s.masked_fill(bad, -math.inf)
    lse = torch.logsumexp(s, -1)
    o = torch.einsum("hnm,mhe->nhe", torch.exp(s - lse[..., None]), vv)
    return o.to(q.dtype), (lse / math.log(2)).T.contiguous()


def merge_state(o1, s1, o2, s2):
    m = torch.maximum(s1, s2)
    a, b = torch.exp2(s1 - m), torch.exp2(s2 - m)
    o = (o1.double() * a[..., None] + o2.double() * b[..., None]) / (a + b)[..., None]
    return o.to(o1.dtype), m + torch.log2(a + b)


def _ptr(p, bs=None):
    p = p.tolist()
    need(p[0] == 0 and all(a <= b for a, b in zip(p, p[1:])), "not an offset array: %s", p)
    return p


class Paged:
    is_cuda_graph_enabled = False

    def __init__(self, buf, layout="NHD", **kw):
        need(layout == "NHD", "layout %s", layout)

    def _plan_kv(self, indptr, indices, last, heads, kv_heads, dim, page):
        self.kv = _ptr(indptr)
        need(len(last) == len(self.kv) - 1 and all(x == 1 for x in last.tolist()), "last page lengths %s for %d requests",
             last.tolist(), len(self.kv) - 1)
        need(page == 1, "page size %s", page)
        need(indices.numel() >= self.kv[-1], "%d page indices, %d needed", indices.numel(), self.kv[-1])
        self.idx = indices[: self.kv[-1]].long().clone()
        self.shape = (heads, kv_heads, dim)

    def _gather(self, cache):
        k, v = cache
        need(k.dim() == 4 and k.shape[1] == 1, "paged K of shape %s", tuple(k.shape))
        return k[self.idx, 0], v[self.idx, 0]

    def _check(self, q, k):
        need(tuple(q.shape[1:]) == (self.shape[0], self.shape[2]) and k.shape[1] == self.shape[1],
             "attention planned for %s, called with q %s k %s", self.shape, tuple(q.shape), tuple(k.shape))


class Decode(Paged):
    def begin_forward(self, indptr, indices, last, heads, kv_heads, dim, page, data_type=None, q_data_type=None, non_blocking=True):
        self._plan_kv(indptr, indices, last, heads, kv_heads, dim, page)
    plan = begin_forward

    def forward(self, q, cache, sm_scale=None, logits_soft_cap=None, window_left=-1):
        k, v = self._gather(cache)
        self._check(q, k)
        need(q.shape[0] == len(self.kv) - 1, "%d decode queries for %d requests", q.shape[0], len(self.kv) - 1)
        return torch.cat([attend(q[i:i + 1], k[a:b], v[a:b], None, sm_scale, logits_soft_cap)[0]
                          for i, (a, b) in enumerate(zip(self.kv, self.kv[1:]))])
    run = forward


class Prefill(Paged):
    def begin_forward(self, qo, indptr, indices, last, heads, kv_heads, dim, page, q_data_type=None, kv_data_type=None, non_blocking=True, **kw):
        self.qo = _ptr(qo)
        self._plan_kv(indptr, indices, last, heads, kv_heads, dim, page)
        need(len(self.qo) == len(self.kv), "query and kv offsets differ in length")
    plan = begin_forward

    def forward_return_lse(self, q, cache, causal=False, sm_scale=None, window_left=-1, logits_soft_cap=None):
        k, v = self._gather(cache)
        self._check(q, k)
        need(self.qo[-1] == q.shape[0], "prefill planned for %d queries, got %d", self.qo[-1], q.shape[0])
        out = [attend(q[a:b], k[c:d], v[c:d], (d - c) - (b - a) if causal else None, sm_scale, logits_soft_cap, window_left)
               for a, b, c, d in zip(self.qo, self.qo[1:], self.kv, self.kv[1:])]
        return torch.cat([o for o, _ in out]), torch.cat([s for _, s in out])

    def forward(self, *a, **k):
        return self.forward_return_lse(*a, **k)[0]


class Ragged(Paged):
    def begin_forward(self, qo, kv, heads, kv_heads, dim, q_data_type=None, **kw):
        self.qo, self.kv = _ptr(qo), _ptr(kv)
        self.shape = (heads, kv_heads, dim)
    plan = begin_forward

    def forward_return_lse(self, q, k, v, causal=True, sm_scale=None, window_left=-1, logits_soft_cap=None):
        self._check(q, k)
        need(self.qo[-1] == q.shape[0] and self.kv[-1] == k.shape[0], "ragged prefill planned for %d/%d tokens, got %d/%d",
             self.qo[-1], self.kv[-1], q.shape[0], k.shape[0])
        out = [attend(q[a:b], k[c:d], v[c:d], (d - c) - (b - a) if causal else None, sm_scale, logits_soft_cap, window_left)
               for a, b, c, d in zip(self.qo, self.qo[1:], self.kv, self.kv[1:])]
        return torch.cat([o for o, _ in out]), torch.cat([s for _, s in out])

    def forward(self, *a, **k):
        return self.forward_return_lse(*a, **k)[0]


def create_kv_indices(req_to_token, req_pool_indices, lens, indptr, start, out):
    p = _ptr(indptr)
    for i, (slot, n) in enumerate(zip(req_pool_indices.tolist(), lens.tolist())):
        s = int(start[i]) if start is not None else 0
        need(p[i + 1] - p[i] == n, "offset array %s does not match lengths %s", p, lens.tolist())
        out[p[i]:p[i] + n] = req_to_token[slot, s:s + n]


def _act(f):
    def go(x, out=None, enable_pdl=None):
        h = x.shape[-1] // 2
        return f(x[..., :h].double(), x[..., h:].double()).to(x.dtype)
    return go


def _rms(x, w, eps, plus=0.0):
    d = x.double()
    return (d * torch.rsqrt(d.pow(2).mean(-1, keepdim=True) + eps) * (w.double() + plus)).to(x.dtype)


def _fused(plus):
    def go(x, residual, w, eps=1e-6, enable_pdl=None):
        residual.copy_((x.double() + residual.double()).to(x.dtype))
        x.copy_(_rms(residual, w, eps, plus))
    return go


def install():
    import flashinfer
    import torch.nn.functional as F
    flashinfer.activation.silu_and_mul = _act(lambda a, b: F.silu(a) * b)
    flashinfer.activation.gelu_and_mul = _act(lambda a, b: F.gelu(a) * b)
    flashinfer.activation.gelu_tanh_and_mul = _act(lambda a, b: F.gelu(a, approximate="tanh") * b)
    flashinfer.norm.rmsnorm = lambda x, w, eps=1e-6, out=None, enable_pdl=None: _rms(x, w, eps)
    flashinfer.norm.gemma_rmsnorm = lambda x, w, eps=1e-6, out=None, enable_pdl=None: _rms(x, w, eps, 1.0)
    flashinfer.norm.fused_add_rmsnorm = _fused(0.0)
    flashinfer.norm.gemma_fused_add_rmsnorm = _fused(1.0)
    flashinfer.rope.apply_rope_pos_ids = _rope
    flashinfer.rope.apply_rope_pos_ids_inplace = _rope_inplace
    flashinfer.BatchDecodeWithPagedKVCacheWrapper = Decode
    flashinfer.BatchPrefillWithPagedKVCacheWrapper = Prefill
    flashinfer.BatchPrefillWithRaggedKVCacheWrapper = Ragged
    flashinfer.cascade.merge_state = merge_state
    import os
    import sys
    sys.modules["flashinfer.sampling"] = None          # the torch fallback of the sampler is used
    os.environ["PYMLLM_FLASHINFER_WORKSPACE_SIZE"] = "16"
    import mllm_kernel.cuda.jit.create_kv_indices as ck
    ck.create_kv_indices = create_kv_indices
