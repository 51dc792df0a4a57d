"""C03: associated Legendre functions."""
import math

import numpy as np

from lib import oracles as O
from lib.common import *  # noqa: F401,F403
from torch_harmonics import legendre
from torch_harmonics.legendre import clm, legpoly

RULE = "case = (mmax, lmax, points in [-1,1] including the end points, norm, inverse, phase); non-trivial: lmax >= 3 and mmax >= 2"
BUDGET = {"quick": {"shards": 8, "examples": 240}, "thorough": {"shards": 8, "examples": 2500}}
ASSUMPTIONS = ["reference values: scipy.special.sph_legendre_p up to degree 48, an independent recursion (validated against it) above; degrees up to 700, mostly up to 72 (quick) / 400 (thorough)"]


def strategy(tier):
    big = 72 if tier == "quick" else 400
    lm = weighted((6, st.integers(1, 8)), (9, st.integers(1, big)), (2, st.integers(big, 300)), (1, st.integers(300, 700)))
    return st.fixed_dictionaries(
        {
            "mmax": lm,
            "lmax": lm,
            "x": st.lists(st.one_of(st.sampled_from([-1.0, 1.0, 0.0]), st.floats(-1, 1, width=32)), min_size=1, max_size=6),
            "th": st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1, width=32)), max_size=4),
            "mirror": weighted((5, st.none()), (1, st.just(0.0)), (3, st.floats(2, 10).map(lambda e: 10.0**-e))),
            "norm": st.sampled_from(["ortho", "schmidt", "unnorm"]),
            "inverse": st.booleans(),
            "csphase": st.booleans(),
        }
    )


_dleg = getattr(legendre, "_precompute_dlegpoly", None)


_leg = getattr(legendre, "_precompute_legpoly", None)


def _mirror(pts, centre, eps):
    """points from north to south, (almost) symmetric about the equator, as the grids are"""
    if eps is None:
        return pts
    a = sorted(pts, key=lambda v: abs(v - centre), reverse=True)
    return a + [2 * centre - (v + eps * (centre - v)) for v in reversed(a)]


def derivatives(c):
    """d/dtheta of the functions and order times function over sine, for the vector transforms."""
    mmax, lmax = c["mmax"], c["lmax"]
    th = np.array([0.05 + (np.pi - 0.1) * t if 0 < t < 1 else np.pi * t for t in _mirror(c["th"], 0.5, c.get("mirror"))])
    event("derivatives")
    with sut("derivative table"):
        d = _dleg(mmax, lmax, torch.from_numpy(th), norm=c["norm"], inverse=c["inverse"], csphase=c["csphase"])
    if _leg is not None:
        with sut("table over colatitudes"):
            p = _leg(mmax, lmax, torch.from_numpy(th), norm=c["norm"], inverse=c["inverse"], csphase=c["csphase"])
        l = np.arange(lmax)
        f = O.norm_factors(lmax, c["norm"], c["inverse"])
        want = O.plm_theta(mmax, lmax, th) * f[None, :, None]
        if c["csphase"]:
            want = want * ((-1.0) ** np.arange(mmax))[:, None, None]
        expect(tuple(p.shape) == want.shape and p.dtype == torch.float64, f"table over colatitudes {tuple(p.shape)} {p.dtype}")
        bad = np.abs(p.numpy() - want) > (1e-11 * (1 + l) * np.sqrt((2 * l + 1) / (4 * np.pi)) * f)[None, :, None]
        expect(not bad.any(), lambda: f"table over colatitudes {th.tolist()}: wrong at (m, l, point) {[int(v[0]) for v in np.nonzero(bad)]}")
    a, b = O.dplm_theta(mmax, lmax, th)
    ref = np.stack([a, b]) * O.norm_factors(lmax, c["norm"], c["inverse"])[None, None, :, None]
    if c["csphase"]:
        ref = ref * ((-1.0) ** np.arange(mmax))[None, :, None, None]
    l = np.arange(lmax)
    f = np.sqrt((2 * l + 1) / (4 * np.pi)) * (l + 1) * O.norm_factors(lmax, c["norm"], c["inverse"])
    expect(tuple(d.shape) == ref.shape and d.dtype == torch.float64, f"derivative table {tuple(d.shape)} {d.dtype}")
    err = np.abs(d.numpy() - ref)
    tol = (2e-11 * (1 + l) * f)[None, None, :, None]
    if not (err <= tol).all():
        i = np.unravel_index(np.argmax(err / (tol + 1e-300)), err.shape)
        raise Violation(f"derivative table (component {i[0]}, m={i[1]}, l={i[2]}, theta={th[i[3]]}): {float(d[i])}, expected {ref[i]}")


def nontrivial(c):
    return c["lmax"] >= 3 and c["mmax"] >= 2


def check(c):
    mmax, lmax = c["mmax"], c["lmax"]
    x = torch.tensor(_mirror(c["x"], 0.0, c.get("mirror")), dtype=torch.float64)
    event(c["norm"])
    event("wide" if mmax > lmax else "tall")
    x0 = x.clone()
    with sut("legpoly"):
        p = legpoly(mmax, lmax, x, norm=c["norm"], inverse=c["inverse"], csphase=c["csphase"])
    expect(torch.equal(x, x0), "positions were modified")
    expect(p.dtype == torch.float64, "not double precision")
    ref = O.plm_theta(mmax, lmax, np.arccos(x.numpy()))
    # arccos / cos round trip is the dominant error next to the poles; evaluate it from x itself for the diagonal
    ref = ref * O.norm_factors(lmax, c["norm"], c["inverse"])[None, :, None]
    if c["csphase"]:
        ref = ref * ((-1.0) ** np.arange(mmax))[:, None, None]
    ref = torch.from_numpy(np.ascontiguousarray(ref))
    # degree-wise scale: the functions of degree l are bounded by their value at the pole
    f = np.sqrt((2 * np.arange(lmax) + 1) / (4 * np.pi)) * O.norm_factors(lmax, c["norm"], c["inverse"])
    tol = torch.from_numpy(1e-12 * (1 + np.arange(lmax)) * f)[None, :, None]
    expect(tuple(p.shape) == (mmax, lmax, len(x)), f"shape {tuple(p.shape)}")
    err = (p - ref).abs()
    if not bool((err <= tol).all()):
        i = int((err / tol).reshape(-1).argmax())
        k, i2 = i % len(x), i // len(x)
        l, m = i2 % lmax, i2 // lmax
        raise Violation(f"P_{l}^{m}({float(x[k])}) norm={c['norm']} inverse={c['inverse']}: {float(p[m, l, k])}, expected {float(ref[m, l, k])}")
    if _dleg is not None and c["th"]:
        derivatives(c)
    # orders above the degree vanish
    for l in range(lmax):
        if l + 1 < mmax:
            expect(float(p[l + 1 :, l].abs().max()) == 0.0, f"P_{l}^m is not zero for m > l")
    l = lmax - 1
    m = min(mmax - 1, l)
    if l <= 60:
        with sut("clm"):
            v = clm(l, m)
        want = math.exp(0.5 * (math.log(2 * l + 1) - math.log(4 * math.pi) + math.lgamma(l - m + 1) - math.lgamma(l + m + 1)))
        expect(abs(v - want) <= 1e-11 * want, lambda: f"clm({l},{m}) = {v}, expected {want}")
