"""Numeric helpers shared by the checks."""
import os
import warnings

import torch
from hypothesis import strategies as st

from lib.harness import Discard, Violation, event, expect, must_raise, sut  # noqa: F401

warnings.simplefilter("ignore")

GRIDS3 = ["equiangular", "legendre-gauss", "lobatto"]
EPS = {torch.float64: 2.3e-16, torch.float32: 1.2e-7, torch.float16: 1e-3, torch.bfloat16: 8e-3, torch.complex64: 1.2e-7, torch.complex128: 2.3e-16}

MARGIN = os.environ.get("VERIF_MARGIN")  # a file: how close passing comparisons come to their tolerance


def gen(seed):
    return torch.Generator().manual_seed(int(seed))


KINDS = ["normal", "normal", "normal", "delta", "const", "large", "tiny", "smooth", "offset", "huge", "minute", "zonal", "part"]


def field(shape, seed, kind="normal", dtype=torch.float64):
    """Deterministic test data of one of a few shapes that stress different things."""
    g = gen(seed)
    shape = tuple(shape)
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if kind == "delta":
        y = torch.zeros(shape, dtype=torch.float64)
        n = y.numel()
        if n:
            k = int(torch.randint(0, n, (1,), generator=g))
            y.view(-1)[k] = 1.0
        x = y
    elif kind == "const":
        x = torch.full(shape, 0.75, dtype=torch.float64)
    elif kind == "large":
        x = x * 1e4
    elif kind == "tiny":
        x = x * 1e-4
    elif kind == "huge":
        x = x * 1e9
    elif kind == "minute":
        x = x * 1e-11
    elif kind == "offset":
        x = x + 5.0
    elif kind == "smooth":
        x = torch.cumsum(x, dim=-1) / max(1, shape[-1]) if x.numel() else x
    elif kind == "zonal":
        x = x[..., :1].expand(shape).clone()
    elif kind == "part":
        # some slices along one axis vanish: empty channels, components, latitudes or orders
        axes = [i for i, n in enumerate(shape) if n > 1]
        if axes:
            a = axes[int(torch.randint(0, len(axes), (1,), generator=g))]
            p = torch.randperm(shape[a], generator=g)
            x.index_fill_(a, p[: int(torch.randint(1, shape[a], (1,), generator=g))], 0.0)
    return x.to(dtype)


def scale_of(*ts):
    m = 0.0
    for t in ts:
        if t.numel():
            m = max(m, float(t.abs().max()))
    return m


def close(a, b, label, rtol, scale=None, atol=0.0):
    """|a-b| <= rtol*scale + atol entrywise, scale defaults to max|b|. a: under test, b: oracle."""
    if tuple(a.shape) != tuple(b.shape):
        raise Violation(f"{label}: shape {tuple(a.shape)} != expected {tuple(b.shape)}")
    if a.numel() == 0:
        return
    a = a.detach().to(torch.complex128 if (a.is_complex() or b.is_complex()) else torch.float64)
    b = b.detach().to(a.dtype)
    bad = ~torch.isfinite(torch.view_as_real(a) if a.is_complex() else a)
    if bool(bad.any()):
        raise Violation(f"{label}: result contains NaN or inf")
    s = scale_of(b) if scale is None else float(scale)
    tol = rtol * s + atol
    err = (a - b).abs()
    e = float(err.max())
    if MARGIN and e > 0.2 * tol:
        with open(MARGIN, "a") as f:
            f.write(f"{e / tol:.3f} {label} {tol:.1e}\n")
    if not e <= tol:
        i = int(err.reshape(-1).argmax())
        idx = []
        for d in reversed(a.shape):
            idx.append(i % d)
            i //= d
        idx = tuple(reversed(idx))
        raise Violation(f"{label}: differs by {e:.3e} (tolerance {tol:.3e}, scale {s:.3e}) at {idx}: got {a[idx]!s}, expected {b[idx]!s}")


def equal(a, b, label):
    if tuple(a.shape) != tuple(b.shape):
        raise Violation(f"{label}: shape {tuple(a.shape)} != {tuple(b.shape)}")
    if a.dtype != b.dtype:
        raise Violation(f"{label}: dtype {a.dtype} != {b.dtype}")
    if not torch.equal(a, b):
        raise Violation(f"{label}: not bit-equal")


def weighted(*pairs):
    """Strategy choosing between (weight, strategy) pairs."""
    opts = [s for _, s in pairs]
    idx = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(idx).flatmap(lambda i: opts[i])


def seeds():
    return st.integers(0, 2**20)


def kinds():
    return st.sampled_from(KINDS)


def dtype_of(name):
    return {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16}[name]


def _poison(shape, dtype):
    """Memory beside the values: reading it shows up as NaN."""
    return torch.full(shape, float("nan") if dtype.is_floating_point or dtype.is_complex else 99, dtype=dtype)


def layout(x, how):
    """The same values in a different memory layout."""
    if how == "contiguous":
        return x.contiguous()
    if how == "transposed":
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == "strided":
        y = _poison((*x.shape[:-1], 2 * x.shape[-1]), x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    if how == "channels_last" and x.dim() == 4:
        return x.contiguous(memory_format=torch.channels_last)
    if how == "offset":
        y = _poison((x.numel() + 67,), x.dtype)
        y[3 : 3 + x.numel()] = x.reshape(-1)
        return y[3 : 3 + x.numel()].view(x.shape)
    if how == "expanded" and x.dim() >= 3 and x.shape[0] > 1:
        return x[:1].expand(x.shape)
    return x.contiguous()


LAYOUTS = ["contiguous", "contiguous", "transposed", "strided", "channels_last", "offset"]
