"""C19: resampling between spherical grids is the documented interpolation (linear or slerp, periodic, with pole expansion), with gradients."""
import math

import numpy as np

from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

ALL_GRIDS = GRIDS3 + ["equiangular-trapezoidal"]
RULE = "case = two grids x mode x leading shape x data; non-trivial: the grids differ and nlat_in >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 1500}, "thorough": {"shards": 8, "examples": 12000}}
ASSUMPTIONS = ["interpolation weights are stored in single precision", "slerp cases where the angular difference is close to (|sin| < 0.15) a non-zero multiple of pi are discarded (singular)", "nlon_in >= 2"]


def strategy(tier):
    big = 16 if tier == "quick" else 64
    sh = weighted((15, st.tuples(st.one_of(st.integers(2, 8), st.integers(2, big)), st.one_of(st.integers(2, 8), st.integers(2, 2 * big))).map(list)), (1, st.tuples(st.integers(big, 200), st.integers(2 * big, 400)).map(list)))

    @st.composite
    def s(draw):
        i, o = draw(sh), draw(sh)
        r = draw(st.sampled_from(["any", "any", "same", "double", "half", "same_lat"]))
        if r == "same":
            o = list(i)
        elif r == "double":
            o = [2 * i[0] - 1, 2 * i[1]]
        elif r == "half":
            i = [2 * o[0] - 1, 2 * o[1]]
        elif r == "same_lat":
            o[0] = i[0]
        return {
            "in": i,
            "out": o,
            "grid_in": draw(st.sampled_from(ALL_GRIDS)),
            "grid_out": draw(st.sampled_from(ALL_GRIDS)),
            "mode": draw(st.sampled_from(["bilinear", "bilinear", "bilinear-spherical"])),
            "lead": draw(weighted((14, st.lists(st.integers(1, 3), max_size=3)), (1, st.lists(st.integers(4, 40), min_size=1, max_size=1)))),
            "dtype": draw(st.sampled_from(["f64", "f32"])),
            "kind": draw(kinds()),
            "amp": draw(st.sampled_from([1.0, 0.3, 0.6])),
            "layout": draw(st.sampled_from(LAYOUTS)),
            "seed": draw(seeds()),
        }

    return s()


def nontrivial(c):
    return (c["in"] != c["out"] or c["grid_in"] != c["grid_out"]) and c["in"][0] >= 3


def interp(a, b, t, mode):
    if mode == "bilinear":
        return a + t * (b - a)
    w = b - a
    s = torch.sin(w)
    dw = w.detach()
    if bool(((s.detach().abs() < 0.15) & (dw.abs() > 0.5)).any()) or bool(((s.detach().abs() - 1e-4).abs() < 1e-6).any()):
        raise Discard("slerp close to antipodal")
    use = s.abs() > 1e-4
    s = torch.where(use, s, torch.ones_like(s))
    return torch.where(use, torch.sin((1 - t) * w) / s, (1 - t) + 0 * w) * a + torch.where(use, torch.sin(t * w) / s, t + 0 * w) * b


def reference(x, c):
    _, _, ti = O._nodes(c["in"][0], c["grid_in"])
    _, _, to = O._nodes(c["out"][0], c["grid_out"])
    eps = 1e-12
    if to[-1] > ti[-1] + eps or to[0] < ti[0] - eps:
        n = x[..., :1, :].mean(-1, keepdim=True).expand(*x.shape[:-2], 1, x.shape[-1])
        s = x[..., -1:, :].mean(-1, keepdim=True).expand(*x.shape[:-2], 1, x.shape[-1])
        x = torch.cat([n, x, s], -2)
        ti = np.concatenate([[0.0], ti, [np.pi]])
    lo = np.clip(np.searchsorted(ti, to + eps) - 1, 0, len(ti) - 2)
    t = torch.from_numpy((to - ti[lo]) / (ti[lo + 1] - ti[lo]))[:, None]
    y = interp(x[..., lo, :], x[..., lo + 1, :], t, c["mode"])
    ni, no = c["in"][1], c["out"][1]
    # exact rational arithmetic for the longitudes: output k sits at k*ni/no input steps
    k = np.arange(no)
    left = (k * ni) // no
    frac = torch.from_numpy(((k * ni) % no) / no)
    return interp(y[..., left], y[..., (left + 1) % ni], frac, c["mode"])


def check(c):
    event(c["mode"])
    dt = dtype_of(c["dtype"])
    sph = c["mode"] != "bilinear"
    kind = "normal" if (sph and c["kind"] in ("large", "huge")) else c["kind"]
    with sut("ResampleS2"):
        m = th.ResampleS2(*c["in"], *c["out"], grid_in=c["grid_in"], grid_out=c["grid_out"], mode=c["mode"])
    x = layout(c["amp"] * field(c["lead"] + c["in"], c["seed"], kind, dt), c["layout"]).detach()
    x0 = x.clone()
    x.requires_grad_(True)
    same = c["in"] == c["out"] and c["grid_in"] == c["grid_out"]
    xr = x0.double().requires_grad_(True)
    ref = xr * 1.0 if same else reference(xr, c)
    with sut("forward"):
        y = m(x)
    expect(torch.equal(x.detach(), x0), "the input was modified")
    expect(y.dtype == dt, f"dtype {y.dtype}")
    s = max(scale_of(x0), 1e-30)
    s = max(s, scale_of(ref.detach())) if sph else s
    tol = (2e-6 if dt == torch.float32 else 4e-7) * (60 if sph else 1)
    close(y, ref, "resampled field", tol, scale=s)
    if same:
        equal(y.detach(), x0, "resampling to the same grid")
    if not sph:
        lo, hi = float(x0.min()), float(x0.max())
        expect(float(y.min()) >= lo - 1e-6 * s and float(y.max()) <= hi + 1e-6 * s, "interpolated values leave the range of the input")
    u = field(y.shape, c["seed"] + 5)
    with sut("backward"):
        g = torch.autograd.grad(y, x, grad_outputs=u.to(dt))[0]
    w = torch.autograd.grad(ref, xr, grad_outputs=u)[0]
    close(g, w, "gradient", tol * 10, scale=max(scale_of(w), 1.0) * (max(1.0, s) if sph else 1.0))
