"""Families of configurations for the history check: a key names every argument, so that histories can hold configurations that differ in one."""
import torch
import torch_harmonics as th
from torch_harmonics import quadrature as Q
from torch_harmonics.filter_basis import get_filter_basis
from torch_harmonics.legendre import legpoly
from torch_harmonics.random_fields import GaussianRandomFieldS2

from lib.common import GRIDS3, field

G4 = list(GRIDS3) + ["equiangular-trapezoidal"]
BASES = [["piecewise linear", 3], ["piecewise linear", [3]], ["piecewise linear", [2, 3]], ["piecewise linear", [3, 2]], ["harmonic", [2, 3]], ["harmonic", [3, 2]], ["harmonic", [2, 2]], ["zernike", 2], ["zernike", 3], ["fourier-bessel", [2, 2]], ["fourier-bessel", [1, 3]], ["morlet", [2, 2]]]
T = {
    "nlat": [5, 6, 8],
    "nlon": [8, 9, 12],
    "lmax": [None, 4, 5],
    "mmax": [None, 3, 4],
    "grid": list(GRIDS3),
    "norm": ["ortho", "schmidt", "unnorm"],
    "csphase": [True, False],
}
D = {
    "in": [[6, 12], [7, 12], [5, 6]],
    "out": [[6, 12], [5, 6], [8, 12]],
    "gi": list(GRIDS3),
    "go": list(GRIDS3),
    "basis": BASES,
    "mode": ["nodal", "mean", "modal", "none", "support"],
    "cut": [0.9, 1.2, None],
    "groups": [1, 2],
    "bias": [True, False],
    "opt": [True, False],
    "dtype": ["float64", "float32"],
}
FAM = {
    "lat": {"n": [4, 5, 6, 9], "grid": G4, "how": [0, 1]},
    "lon": {"n": [4, 5, 6, 9]},
    "rule": {"rule": ["legendre_gauss_weights", "clenshaw_curtiss_weights", "lobatto_weights", "trapezoidal_weights"], "n": [4, 5, 8], "a": [-1.0, 0.0], "b": [1.0, 2.0]},
    "legpoly": {"mmax": [3, 4], "lmax": [4, 6], "n": [3, 5], "norm": T["norm"], "inverse": [False, True], "csphase": [True, False]},
    "basis": {"basis": BASES, "cut": [1.0, 0.6], "dtype": ["float64", "float32"]},
    "sht": T,
    "isht": T,
    "vsht": T,
    "ivsht": T,
    "quad": {"nlat": [5, 6, 8], "nlon": [8, 9], "grid": G4, "normalize": [False, True]},
    "resample": {"nlat": [5, 6], "nlon": [8, 9], "nlat_out": [5, 7], "nlon_out": [8, 11], "gi": list(GRIDS3), "go": list(GRIDS3), "mode": ["bilinear", "bilinear-spherical"]},
    "sconv": {"in": [[6, 12], [7, 12]], "out": [[6, 12], [5, 9]], "gi": list(GRIDS3), "go": list(GRIDS3), "groups": [1, 2], "bias": [False, True]},
    "conv": D,
    "convt": D,
    "nattn": {"in": [[6, 12], [7, 12], [5, 6]], "out": [[6, 12], [5, 6], [8, 12]], "gi": list(GRIDS3), "go": list(GRIDS3), "cut": [1.2, 1.5, None], "heads": [1, 2], "qknorm": [False, True], "opt": [True, False]},
    "attn": {"in": [[6, 12], [5, 6]], "out": [[6, 12], [5, 6]], "gi": ["legendre-gauss", "equiangular"], "go": ["legendre-gauss", "equiangular"], "heads": [1, 2], "qknorm": [False, True]},
    "grf": {"nlat": [6, 8], "alpha": [2.0, 3.0], "tau": [3.0, 4.0], "sigma": [None, 0.7], "radius": [1.0, 2.0], "grid": list(GRIDS3), "dtype": ["float32", "float64"]},
}
KINDS = sorted(FAM)


def values(key):
    kind, idx = key
    return {n: v[i % len(v)] for (n, v), i in zip(FAM[kind].items(), idx)}


def tup(x):
    return tuple(x) if isinstance(x, (list, tuple)) else x


def _coef(lead, m):
    L, M = m.lmax, m.mmax
    x = torch.complex(field(lead + [L, M], 3), field(lead + [L, M], 4))
    x[..., 0].imag.zero_()
    return torch.tril(x)


def build(key):
    """(module or None, function of the module giving a tuple of tensors). Deterministic for a key."""
    torch.manual_seed(1234)
    kind, v = key[0], values(key)
    if kind == "lat":
        return None, lambda m: tuple(Q.precompute_latitudes(v["n"], grid=v["grid"]) if v["how"] else Q.precompute_latitudes(v["n"], v["grid"]))
    if kind == "lon":
        return None, lambda m: (Q.precompute_longitudes(v["n"]),)
    if kind == "rule":
        return None, lambda m: tuple(getattr(Q, v["rule"])(v["n"], v["a"], v["b"]))
    if kind == "legpoly":
        x = torch.linspace(-0.9, 0.95, v["n"], dtype=torch.float64)
        return None, lambda m: (legpoly(v["mmax"], v["lmax"], x, norm=v["norm"], inverse=v["inverse"], csphase=v["csphase"]),)
    if kind == "basis":
        dt = getattr(torch, v["dtype"])
        r, p = field([4, 5], 1, "uniform").abs().clamp(0, 1).to(dt), 3 * field([4, 5], 2, "uniform").abs().to(dt)
        return None, lambda m: tuple(get_filter_basis(tup(v["basis"][1]), v["basis"][0]).compute_support_vals(r, p, r_cutoff=v["cut"]))
    if kind in ("sht", "isht", "vsht", "ivsht"):
        cls = {"sht": th.RealSHT, "isht": th.InverseRealSHT, "vsht": th.RealVectorSHT, "ivsht": th.InverseRealVectorSHT}[kind]
        m = cls(v["nlat"], v["nlon"], lmax=v["lmax"], mmax=v["mmax"], grid=v["grid"], norm=v["norm"], csphase=v["csphase"])
        lead = [1, 2] if kind[-4:] == "vsht" else [1]
        if kind[0] == "i":
            return m, lambda m: (m(_coef(lead, m)),)
        return m, lambda m: (m(field(lead + [v["nlat"], v["nlon"]], 5)),)
    if kind == "quad":
        m = th.QuadratureS2((v["nlat"], v["nlon"]), grid=v["grid"], normalize=v["normalize"])
        return m, lambda m: (m(field([2, 1, v["nlat"], v["nlon"]], 5)),)
    if kind == "resample":
        m = th.ResampleS2(v["nlat"], v["nlon"], v["nlat_out"], v["nlon_out"], grid_in=v["gi"], grid_out=v["go"], mode=v["mode"])
        return m, lambda m: (m(0.2 * field([1, 2, v["nlat"], v["nlon"]], 5)),)
    if kind == "sconv":
        m = th.SpectralConvS2(tup(v["in"]), tup(v["out"]), 2, 4, num_groups=v["groups"], grid_in=v["gi"], grid_out=v["go"], bias=v["bias"])
        return m, lambda m: (m(field([2, 2] + v["in"], 5, dtype=torch.float32)),)
    if kind in ("conv", "convt"):
        cls = th.DiscreteContinuousConvS2 if kind == "conv" else th.DiscreteContinuousConvTransposeS2
        dt = getattr(torch, v["dtype"])
        a, b = (v["in"], v["out"]) if kind == "conv" else (v["out"], v["in"])
        m = cls(2, 2, tup(a), tup(b), tup(v["basis"][1]), basis_type=v["basis"][0], basis_norm_mode=v["mode"], groups=v["groups"], grid_in=v["gi"], grid_out=v["go"], bias=v["bias"], theta_cutoff=v["cut"], optimized_kernel=v["opt"])
        return m.to(dt), lambda m: (m(field([1, 2] + a, 5, dtype=dt)),)
    if kind == "nattn":
        m = th.NeighborhoodAttentionS2(4, tup(v["in"]), tup(v["out"]), grid_in=v["gi"], grid_out=v["go"], num_heads=v["heads"], use_qknorm=v["qknorm"], theta_cutoff=v["cut"], optimized_kernel=v["opt"])
        return m, lambda m: (m(field([1, 4] + v["out"], 5, dtype=torch.float32), *(field([1, 4] + v["in"], 6 + j, dtype=torch.float32) for j in (0, 1))),)
    if kind == "attn":
        m = th.AttentionS2(4, v["heads"], tup(v["in"]), tup(v["out"]), grid_in=v["gi"], grid_out=v["go"], use_qknorm=v["qknorm"])
        return m, lambda m: (m(field([1, 4] + v["out"], 5, dtype=torch.float32), *(field([1, 4] + v["in"], 6 + j, dtype=torch.float32) for j in (0, 1))),)
    if kind == "grf":
        dt = getattr(torch, v["dtype"])
        m = GaussianRandomFieldS2(v["nlat"], alpha=v["alpha"], tau=v["tau"], sigma=v["sigma"], radius=v["radius"], grid=v["grid"], dtype=dt)
        n = [2, m.isht.lmax, m.isht.mmax]
        xi = torch.complex(field(n, 5), field(n, 6)).to(torch.complex64 if dt == torch.float32 else torch.complex128)
        return m, lambda m: (m(2, xi),)
    raise KeyError(kind)
