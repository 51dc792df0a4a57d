"""Shared pieces of the spherical-harmonic checks."""
import torch
from hypothesis import strategies as st

from lib.common import GRIDS3, LAYOUTS, field, gen, kinds, layout, seeds, weighted  # noqa: F401

NORMS = ["ortho", "schmidt", "unnorm"]


def sht_config(big, with_trunc=True, tail=None):
    """Configurations up to about big latitudes, and now and then (1 in 16) one with up to tail."""
    base = _sht_config(big, with_trunc)
    if tail is None:
        return base

    @st.composite
    def large(draw):
        c = dict(draw(base))
        c["nlat"] = draw(st.integers(3 * big, tail))
        c["nlon"] = draw(st.integers(c["nlat"], 2 * tail))
        if with_trunc:
            c["lmax"] = draw(st.one_of(st.none(), st.integers(big, tail)))
            c["mmax"] = draw(st.one_of(st.none(), st.integers(big, tail)))
        return c

    return weighted((15, base), (1, large()))


def _sht_config(big, with_trunc=True):
    return st.fixed_dictionaries(
        {
            "nlat": st.one_of(st.integers(2, 8), st.integers(2, big), st.integers(2, big), st.integers(2, big), st.integers(big, 3 * big)),
            "nlon": st.one_of(st.integers(2, 10), st.integers(2, 2 * big), st.integers(2, 2 * big), st.integers(2, 2 * big), st.integers(2 * big, 6 * big)),
            "lmax": st.one_of(st.none(), st.integers(1, big + 6), st.integers(1, 3 * big)) if with_trunc else st.none(),
            "mmax": st.one_of(st.none(), st.integers(1, big + 6), st.integers(1, 3 * big)) if with_trunc else st.none(),
            "grid": st.sampled_from(GRIDS3),
            "norm": st.sampled_from(NORMS),
            "csphase": st.booleans(),
        }
    )


def kwargs(c):
    return dict(lmax=c["lmax"], mmax=c["mmax"], grid=c["grid"], norm=c["norm"], csphase=c["csphase"])


def expected_trunc(nlat, nlon, lmax, mmax, grid):
    L = lmax if lmax is not None else {"legendre-gauss": nlat, "lobatto": nlat - 1, "equiangular": (nlat + 1) // 2, "equiangular-trapezoidal": (nlat + 1) // 2}[grid]
    M = mmax if mmax is not None else nlon // 2 + 1
    return min(L, M), min(L, M)


def coeffs(lead, lmax, mmax, seed, kind="normal", dtype=torch.complex128, fill_upper=False):
    re = field(list(lead) + [lmax, mmax], 2 * seed, kind)
    im = field(list(lead) + [lmax, mmax], 2 * seed + 1, kind)
    c = torch.complex(re, im)
    if not fill_upper:
        c = torch.tril(c)
    return c.to(dtype)


def real_rows(c, nlon):
    """Coefficients a real field on this grid can carry: real at order 0 and at the Nyquist order, none above it."""
    c = c.clone()
    m = torch.arange(c.shape[-1])
    ny = (m == 0) | (2 * m == nlon)
    c = torch.where(ny, torch.complex(c.real, torch.zeros_like(c.real)), c)
    return torch.where(2 * m > nlon, torch.zeros_like(c), c)
