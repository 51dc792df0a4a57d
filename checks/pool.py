"""A pool of small configured modules with a fixed input each, shared by the history, persistence, purity and dtype checks."""
import torch
import torch_harmonics as th
from torch_harmonics.filter_basis import get_filter_basis
from torch_harmonics.quadrature import precompute_latitudes, precompute_longitudes
from torch_harmonics.random_fields import GaussianRandomFieldS2

from lib.common import GRIDS3, field


def _c(shape, seed):
    L, M = shape[-2:]
    x = torch.complex(field(shape, seed), field(shape, seed + 1))
    x[..., 0].imag.zero_()
    return torch.tril(x)


class _Dist:
    """The distributed layers without process groups (one process)."""

    def __getattr__(self, n):
        import torch_harmonics.distributed as thd

        return getattr(thd, "Distributed" + n)


def build(key, dist=False):
    """(module or None, function of the module giving a tuple of tensors). Deterministic for a key."""
    torch.manual_seed(1234)
    T = _Dist() if dist else th
    kind, i = key
    g = GRIDS3[i % 3]
    nlat, nlon = 5 + i % 4, [8, 6, 9, 12][i % 4]
    x4 = lambda c, h, w: field([2, c, h, w], 7 + i)  # noqa: E731
    if kind == "lat":
        n = 3 + i
        return None, lambda m: tuple(precompute_latitudes(n, grid=g)) if i % 2 else tuple(precompute_latitudes(n, g))
    if kind == "lon":
        return None, lambda m: (precompute_longitudes(3 + i),)
    if kind == "basis":
        b, ks = [("piecewise linear", 3), ("piecewise linear", (2, 3)), ("harmonic", (2, 2)), ("zernike", 3), ("fourier-bessel", (2, 2)), ("morlet", (2, 2)), ("piecewise linear", (3,)), ("harmonic", (2, 3))][i % 8]
        r, p = torch.rand(4, 5, dtype=torch.float64), torch.rand(4, 5, dtype=torch.float64) * 6
        return None, lambda m: tuple(get_filter_basis(ks, b).compute_support_vals(r, p, r_cutoff=1.0))
    if kind == "sht":
        m = T.RealSHT(nlat, nlon, grid=g, norm=["ortho", "schmidt", "unnorm"][i % 3], csphase=i % 2 == 0)
        return m, lambda m: (m(x4(1, nlat, nlon)),)
    if kind == "isht":
        m = T.InverseRealSHT(nlat, nlon, grid=g, norm=["ortho", "schmidt", "unnorm"][i % 3], csphase=i % 2 == 0)
        return m, lambda m: (m(_c([2, m.lmax, m.mmax], i)),)
    if kind == "vsht":
        m = T.RealVectorSHT(nlat, nlon, grid=g, csphase=i % 2 == 0)
        return m, lambda m: (m(x4(2, nlat, nlon)),)
    if kind == "ivsht":
        m = T.InverseRealVectorSHT(nlat, nlon, grid=g, csphase=i % 2 == 0)
        return m, lambda m: (m(_c([2, 2, m.lmax, m.mmax], i)),)
    if kind == "quad":
        m = T.QuadratureS2((nlat, nlon), grid=g)
        return m, lambda m: (m(x4(1, nlat, nlon)),)
    if kind == "resample":
        m = T.ResampleS2(nlat, nlon, nlat + 2, nlon + 3, grid_in=g, grid_out=GRIDS3[(i + 1) % 3], mode=["bilinear", "bilinear-spherical"][i % 2])
        return m, lambda m: (m(0.2 * x4(1, nlat, nlon)),)
    if kind == "sconv":
        m = T.SpectralConvS2((nlat, nlon), (nlat + 1, nlon), 2, 3, grid_in=g, bias=i % 2 == 0)
        return m, lambda m: (m(x4(2, nlat, nlon).float()),)
    if kind in ("conv", "convt"):
        cls = T.DiscreteContinuousConvS2 if kind == "conv" else T.DiscreteContinuousConvTransposeS2
        b, ks = [("piecewise linear", 3), ("piecewise linear", (3, 3)), ("harmonic", (2, 2)), ("fourier-bessel", (2, 2))][i % 4]
        s = (nlat, 12), (nlat - 1, 6)
        if kind == "convt":
            s = s[1], s[0]
        m = cls(2, 2, *s, ks, basis_type=b, basis_norm_mode=["nodal", "mean", "none", "modal"][(i + i // 4) % 4], grid_in=g, theta_cutoff=0.9, optimized_kernel=i % 5 != 4)
        return m.double(), lambda m: (m(x4(2, *s[0])),)
    if kind == "nattn":
        s = [((nlat, 6), (nlat, 6)), ((nlat, 8), (nlat - 1, 4)), ((nlat, 4), (nlat + 1, 8))][i % 3]
        m = T.NeighborhoodAttentionS2(4, *s, grid_in=g, grid_out=g, num_heads=1 + i % 2, use_qknorm=i % 2 == 0, theta_cutoff=1.2, optimized_kernel=i % 4 != 3)
        return m, lambda m: (m(field([2, 4, *s[1]], i).float(), field([2, 4, *s[0]], i + 1).float(), field([2, 4, *s[0]], i + 2).float()),)
    if kind == "attn":
        m = th.AttentionS2(4, 2, (nlat, 6), (nlat, 6), grid_in="legendre-gauss", grid_out="legendre-gauss", use_qknorm=i % 2 == 0)
        return m, lambda m: (m(x4(4, nlat, 6).float()),)
    if kind == "grf":
        m = GaussianRandomFieldS2(nlat, grid=g, dtype=torch.float64 if i % 2 else torch.float32)
        xi = torch.complex(field([2, m.isht.lmax, m.isht.mmax], i), field([2, m.isht.lmax, m.isht.mmax], i + 1))
        return m, lambda m: (m(2, xi if i % 2 else xi.to(torch.complex64)),)
    raise KeyError(kind)


MODULE_KINDS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt", "nattn", "attn", "grf"]
FUNC_KINDS = ["lat", "lon", "basis"]
NI = 12


def all_keys(kinds=None):
    return [(k, i) for k in (kinds or FUNC_KINDS + MODULE_KINDS) for i in range(30 if k in ("lat", "lon") else NI)]
