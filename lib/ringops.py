"""CPU stand-ins for the CUDA-only ring-step attention kernels.

They follow the contract written next to the operator definitions (attention_interface.cpp) and at the top of the CUDA
files: a neighbour list in rows (output latitudes for the gather direction, halo-padded input latitudes for the scatter
direction), a rotating chunk of keys and values that starts at longitude lon_lo_kx, and online softmax state in the
buffers. Everything around the kernels (splitting, neighbour lists, halo, ring, reductions, gradients) is the library's.
"""
import torch

_NAMES = [
    "forward_ring_step",
    "backward_ring_step_pass1",
    "backward_ring_step_pass2",
    "forward_ring_step_upsample",
    "backward_ring_step_upsample_pass1",
    "backward_ring_step_upsample_pass2",
    "split_csr_rows",
]


def _need(cond, what):
    if not cond:
        raise RuntimeError("ring kernel: " + what)


def _layouts(kx, vx, qy, others, nlat_out, nlon_out):
    for t in (kx, vx, qy, *others):
        _need(t.is_contiguous(), "tensors must be contiguous")
    _need(kx.dim() == 4 and vx.dim() == 4 and qy.dim() == 4, "expected [batch, lat, lon, channel]")
    _need(kx.shape[:3] == vx.shape[:3], "keys and values differ in shape")
    _need(tuple(qy.shape) == (kx.shape[0], nlat_out, nlon_out, kx.shape[3]), "query shape")
    _need(kx.dtype == vx.dtype == qy.dtype, "types differ")


def _gather_mask(col_idx, row_off, row_idx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, nlat_halo, nlon_kx):
    _need(row_off.numel() == nlat_out + 1 and row_idx.numel() == nlat_out and row_idx.dtype == torch.int32, "row lists")
    m = torch.zeros(nlat_out, nlon_out, nlat_halo, nlon_kx)
    wo = torch.arange(nlon_out)
    for h in range(nlat_out):
        ho = int(row_idx[h])
        cols = col_idx[int(row_off[ho]) : int(row_off[ho + 1])]
        hi = (cols // nlon_in) - lat0
        w = (cols % nlon_in)[:, None] + pscale * wo[None]
        w = w % nlon_in - lon_lo
        ok = (w >= 0) & (w < nlon_kx) & (hi >= 0)[:, None] & (hi < nlat_halo)[:, None]
        n, o = torch.nonzero(ok, as_tuple=True)
        m[ho].index_put_((o, hi[n], w[n, o]), torch.ones(n.numel()), accumulate=True)
    return m


def _scatter_mask(col_idx, row_off, nlon_out_global, pscale_out, lon_lo, nlat_out, nlon_out, nlat_halo, nlon_kx):
    _need(row_off.numel() == nlat_halo + 1, "row offsets")
    m = torch.zeros(nlat_out, nlon_out, nlat_halo, nlon_kx)
    wi = torch.arange(nlon_kx)
    for hi in range(nlat_halo):
        cols = col_idx[int(row_off[hi]) : int(row_off[hi + 1])]
        ho = cols // nlon_out_global
        _need(bool(((ho >= 0) & (ho < nlat_out)).all()), "output latitude out of range")
        w = (cols % nlon_out_global)[:, None] + pscale_out * (lon_lo + wi)[None]
        w = w % nlon_out_global
        n, i = torch.nonzero(w < nlon_out, as_tuple=True)
        m[:, :, hi].index_put_((ho[n], w[n, i], i), torch.ones(n.numel()), accumulate=True)
    return m


def _weights(mask, quad, lat0):
    """Area weight of each neighbour (zero for rows beyond the poles, which no list may contain)."""
    hi = torch.arange(mask.shape[2]) + lat0
    inside = (hi >= 0) & (hi < quad.numel())
    _need(not bool(mask[:, :, ~inside].any()), "neighbour beyond the poles")
    q = quad.reshape(-1)[hi.clamp(0, quad.numel() - 1)].float()
    return mask * q[None, None, :, None]


def _logits(kx, qy, mask):
    s = torch.einsum("bxyc,bhwc->bxyhw", qy.float(), kx.float())
    return torch.where(mask > 0, s, torch.full_like(s, float("-inf")))


def _update(s, w, mbuf):
    """New maxima, correction of the old state and the weights of the new terms."""
    new = torch.maximum(mbuf, s.amax(dim=(-2, -1)))
    dead = new == float("-inf")
    safe = torch.where(dead, torch.zeros_like(new), new)
    corr = torch.where(dead, torch.ones_like(new), torch.exp(mbuf - safe))
    a = torch.exp(s - safe[..., None, None]) * w
    return new, corr, a


def _fwd(kx, vx, y, asum, mx, mask, w):
    def run(qy):
        s = _logits(kx, qy, mask)
        new, corr, a = _update(s, w, mx)
        y.copy_(y * corr[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a, vx.float()))
        asum.copy_(asum * corr + a.sum(dim=(-2, -1)))
        mx.copy_(new)

    return run


def forward_ring_step(kx, vx, qy, y, asum, mx, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, nlong, maxlen, midlen):
    _layouts(kx, vx, qy, (y, asum, mx), nlat_out, nlon_out)
    mask = _gather_mask(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _fwd(kx, vx, y, asum, mx, mask, _weights(mask, quad, lat0))(qy)


def forward_ring_step_upsample(kx, vx, qy, y, asum, mx, quad, col, roff, nlon_in, nlon_og, pscale, lon_lo, lat0, nlat_out, nlon_out):
    _layouts(kx, vx, qy, (y, asum, mx), nlat_out, nlon_out)
    mask = _scatter_mask(col, roff, nlon_og, pscale, lon_lo, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _fwd(kx, vx, y, asum, mx, mask, _weights(mask, quad, lat0))(qy)


def backward_ring_step_pass1(kx, vx, qy, dy, asum, mx, integral, ak, akv, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, nlong, maxlen, midlen):
    _layouts(kx, vx, qy, (dy, asum, mx, integral, ak, akv), nlat_out, nlon_out)
    mask = _gather_mask(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    s = _logits(kx, qy, mask)
    new, corr, a = _update(s, _weights(mask, quad, lat0), mx)
    g = torch.einsum("bxyc,bhwc->bxyhw", dy.float(), vx.float())
    asum.copy_(asum * corr + a.sum(dim=(-2, -1)))
    integral.copy_(integral * corr + (a * g).sum(dim=(-2, -1)))
    ak.copy_(ak * corr[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a, kx.float()))
    akv.copy_(akv * corr[..., None] + torch.einsum("bxyhw,bhwc->bxyc", a * g, kx.float()))
    mx.copy_(new)


def backward_ring_step_upsample_pass1(kx, vx, qy, dy, mx, integral, ak, akv, quad, col, roff, nlon_in, nlon_og, pscale, lon_lo, lat0, nlat_out, nlon_out):
    _layouts(kx, vx, qy, (dy, mx, integral, ak, akv), nlat_out, nlon_out)
    mask = _scatter_mask(col, roff, nlon_og, pscale, lon_lo, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    s = _logits(kx, qy, mask)
    a = torch.exp(s - mx[..., None, None]) * _weights(mask, quad, lat0)
    g = torch.einsum("bxyc,bhwc->bxyhw", dy.float(), vx.float())
    integral.add_((a * g).sum(dim=(-2, -1)))
    ak.add_(torch.einsum("bxyhw,bhwc->bxyc", a, kx.float()))
    akv.add_(torch.einsum("bxyhw,bhwc->bxyc", a * g, kx.float()))


def _pass2(kx, vx, qy, dy, asum, mx, inorm, dkx, dvx, mask, w):
    s = _logits(kx, qy, mask)
    p = torch.exp(s - mx[..., None, None]) * w / asum[..., None, None]
    g = torch.einsum("bxyc,bhwc->bxyhw", dy.float(), vx.float())
    dvx.add_(torch.einsum("bxyhw,bxyc->bhwc", p, dy.float()))
    dkx.add_(torch.einsum("bxyhw,bxyc->bhwc", p * (g - inorm[..., None, None]), qy.float()))


def backward_ring_step_pass2(kx, vx, qy, dy, asum, mx, inorm, dkx, dvx, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, nlong, maxlen, midlen):
    _layouts(kx, vx, qy, (dy, asum, mx, inorm, dkx, dvx), nlat_out, nlon_out)
    mask = _gather_mask(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _pass2(kx, vx, qy, dy, asum, mx, inorm, dkx, dvx, mask, _weights(mask, quad, lat0))


def backward_ring_step_upsample_pass2(kx, vx, qy, dy, asum, mx, inorm, dkx, dvx, quad, col, roff, nlon_in, nlon_og, pscale, lon_lo, lat0, nlat_out, nlon_out):
    _layouts(kx, vx, qy, (dy, asum, mx, inorm, dkx, dvx), nlat_out, nlon_out)
    mask = _scatter_mask(col, roff, nlon_og, pscale, lon_lo, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _pass2(kx, vx, qy, dy, asum, mx, inorm, dkx, dvx, mask, _weights(mask, quad, lat0))


def split_csr_rows(ridx, roff, nlat_out):
    """Launch hints of the gather kernels, over rows sorted by decreasing length."""
    _need(ridx.dtype == torch.int32 and roff.dtype == torch.int64 and ridx.numel() == nlat_out, "row lists")
    n = [int(roff[i + 1] - roff[i]) for i in ridx.tolist()]
    _need(n == sorted(n, reverse=True), "rows are not sorted by length")
    return 0, 0, (n[0] if n else 0)


_lib = None


def install():
    """Registers the stand-ins for CPU tensors (once per process)."""
    global _lib
    if _lib is not None:
        return
    import torch_harmonics  # noqa: F401  (defines the operators)

    _lib = torch.library.Library("attention_kernels", "IMPL")
    for n in _NAMES:
        if not torch._C._dispatch_has_kernel_for_dispatch_key("attention_kernels::" + n, "CPU"):
            _lib.impl(n, globals()[n], "CPU")
