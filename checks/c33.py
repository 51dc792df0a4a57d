"""C33: an omitted optional argument means its documented default, in every constructor and function, by keyword and by position."""
import math

import torch
import torch_harmonics as th
from hypothesis import strategies as st
from torch_harmonics import fft as thfft
from torch_harmonics import legendre, quadrature
from torch_harmonics.examples import losses, metrics
from torch_harmonics.random_fields import GaussianRandomFieldS2
from torch_harmonics.truncation import truncate_sht

from lib.common import GRIDS3, field, seeds
from lib.harness import Discard, event, expect, sut

RULE = "case = constructor or function x required arguments x a value for every optional argument (default or other) x the subset of the defaults written out; non-trivial: at least two optional arguments at their default and one written out"
BUDGET = {"quick": {"shards": 8, "examples": 2250}, "thorough": {"shards": 8, "examples": 9000}}
ASSUMPTIONS = ["the table of defaults is the one of the documentation (docstrings and signatures of the pinned release)", "distributed layers in a single process"]


def start(tier):
    from lib import ringops

    ringops.install()


def _R(c, *s, cx=False):
    x = field(list(s), c["seed"], "normal", torch.float32)
    return torch.complex(x, field(list(s), c["seed"] + 1, "normal", torch.float32)) if cx else x


GRID = [("grid", "equiangular", ["legendre-gauss", "lobatto"])]
GRIDS = [("grid_in", "equiangular", ["legendre-gauss", "lobatto"]), ("grid_out", "equiangular", ["legendre-gauss", "lobatto"])]


def _sht(name, inverse, vector):
    def build(c, T):
        return getattr(T, name), (c["nlat"], c["nlon"])

    def opts(c, a):
        L, M = truncate_sht(c["nlat"], c["nlon"], None, None, a.get("grid", "equiangular"))
        # with one limit given the other default is the smaller of the two, as the truncation documents; written out only without
        both = a.get("lmax", None) is None and a.get("mmax", None) is None
        return [("lmax", None, [max(1, L - 1)]), ("mmax", None, [max(1, M - 1)])] + GRID + [("norm", "ortho", ["schmidt", "unnorm"]), ("csphase", True, [False])], ({"lmax": L, "mmax": M} if both else {})

    def run(c, m):
        v = [2] if vector else []
        if inverse:
            return [m(_R(c, 3, *v, m.lmax, m.mmax, cx=True))]
        return [m(_R(c, 3, *v, c["nlat"], c["nlon"]))]

    return build, opts, run


def _table():
    t = {}
    for n in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
        t[n] = _sht(n, "Inverse" in n, "Vector" in n)
    t["QuadratureS2"] = (
        lambda c, T: (T.QuadratureS2, ((c["nlat"], c["nlon"]),)),
        lambda c, a: (GRID + [("normalize", False, [True])], {}),
        lambda c, m: [m(_R(c, 2, 3, c["nlat"], c["nlon"]))],
    )
    t["ResampleS2"] = (
        lambda c, T: (T.ResampleS2, (c["nlat"], c["nlon"], c["nlat2"], c["nlon2"])),
        lambda c, a: (GRIDS + [("mode", "bilinear", ["bilinear-spherical"])], {}),
        lambda c, m: [m(0.3 * _R(c, 2, 3, c["nlat"], c["nlon"]))],
    )
    t["SpectralConvS2"] = (
        lambda c, T: (T.SpectralConvS2, ((c["nlat"], c["nlon"]), (c["nlat2"], c["nlon2"]), 4, 2)),
        lambda c, a: ([("num_groups", 1, [2])] + GRIDS + [("bias", False, [True])], {}),
        lambda c, m: [m(_R(c, 2, 4, c["nlat"], c["nlon"]))],
    )
    for n in ("DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2"):
        tr = "Transpose" in n

        def build(c, T, n=n, tr=tr):
            fine, coarse = (c["nlat"], c["nlon"] * c["mult"]), (c["nlat2"], c["nlon"])
            i, o = (coarse, fine) if tr else (fine, coarse)
            return getattr(T, n), (4, 2, i, o, 3)

        def opts(c, a, tr=tr):
            # the default cutoff follows the coarser grid in both directions
            cut = math.pi / (c["nlat2"] - 1)
            o = [("basis_type", "piecewise linear", ["zernike"]), ("basis_norm_mode", "nodal", ["mean", "none", "modal", "support", "geometric"]), ("groups", 1, [2])]
            return o + GRIDS + [("bias", True, [False]), ("theta_cutoff", None, [1.3 * cut]), ("optimized_kernel", True, [False])] + ([] if tr else [("fused", False, [False])]), {"theta_cutoff": cut}

        def run(c, m, tr=tr):
            s = (c["nlat2"], c["nlon"]) if tr else (c["nlat"], c["nlon"] * c["mult"])
            return [m(_R(c, 2, 4, *s))]

        t[n] = (build, opts, run)
    t["AttentionS2"] = (
        lambda c, T: (th.AttentionS2, (4, 2, (c["nlat"], c["nlon"] * c["mult"]), (c["nlat2"], c["nlon"]))),
        lambda c, a: (
            GRIDS + [("scale", None, [0.4]), ("use_qknorm", False, [True]), ("bias", True, [False]), ("k_channels", None, [2]), ("out_channels", None, [6]), ("drop_rate", 0.0, [0.0])],
            {"k_channels": 4, "out_channels": 4, "scale": 1 / math.sqrt((a.get("k_channels") or 4) / 2)},
        ),
        lambda c, m: [m(_R(c, 2, 4, c["nlat2"], c["nlon"]), _R(c, 2, 4, c["nlat"], c["nlon"] * c["mult"]), _R(c, 2, 4, c["nlat"], c["nlon"] * c["mult"])), *([m(_R(c, 2, 4, c["nlat"], c["nlon"]))] if c["mult"] == 1 and c["nlat"] == c["nlat2"] else [])],
    )

    def nbuild(c, T):
        fine, coarse = (c["nlat"], c["nlon"] * c["mult"]), (c["nlat2"], c["nlon"])
        i, o = (coarse, fine) if c["flip"] else (fine, coarse)
        return T.NeighborhoodAttentionS2, (4, i, o)

    def nopts(c, a):
        cut = math.pi / ((c["nlat"] if c["flip"] and c["mult"] == 1 else c["nlat2"]) - 1)
        o = GRIDS + [("num_heads", 1, [2]), ("scale", None, [0.4]), ("use_qknorm", False, [True]), ("bias", True, [False]), ("theta_cutoff", None, [2.5])]
        return o + [("k_channels", None, [2]), ("out_channels", None, [6]), ("optimized_kernel", True, [True])], {"theta_cutoff": cut, "k_channels": 4, "out_channels": 4, "scale": 1 / math.sqrt((a.get("k_channels") or 4) / a.get("num_heads", 1))}

    def nrun(c, m):
        fine, coarse = (c["nlat"], c["nlon"] * c["mult"]), (c["nlat2"], c["nlon"])
        i, o = (coarse, fine) if c["flip"] else (fine, coarse)
        return [m(_R(c, 2, 4, *o), _R(c, 2, 4, *i), _R(c, 2, 4, *i))]

    t["NeighborhoodAttentionS2"] = (nbuild, nopts, nrun)

    def grun(c, m):
        dt = torch.complex128 if c["_a"].get("dtype") == torch.float64 else torch.complex64
        torch.manual_seed(c["seed"])
        return [m(2), m(2, _R(c, 2, m.isht.lmax, m.isht.mmax, cx=True).to(dt))]

    t["GaussianRandomFieldS2"] = (
        lambda c, T: (GaussianRandomFieldS2, (c["nlat"],)),
        lambda c, a: (
            [("alpha", 2.0, [3.0, 1.5]), ("tau", 3.0, [1.0, 5.0]), ("sigma", None, [2.0]), ("radius", 1.0, [2.0])] + GRID + [("dtype", torch.float32, [torch.float64])],
            {"sigma": a.get("tau", 3.0) ** (a.get("alpha", 2.0) - 1)},
        ),
        grun,
    )
    S = [("grid", "equiangular", ["legendre-gauss", "lobatto"])]
    NR = S + [("normalized", True, [False])]
    for n in ("L1LossS2", "L2LossS2", "SquaredL2LossS2"):
        t[n] = (lambda c, T, n=n: (getattr(losses, n), (c["nlat"], c["nlon"])), lambda c, a: (NR, {}), lambda c, m: [m(_R(c, 2, 3, c["nlat"], c["nlon"]), _R({"seed": c["seed"] + 9}, 2, 3, c["nlat"], c["nlon"]))])
    SEG = S + [("weight", None, [torch.tensor([0.2, 0.5, 0.3])]), ("smooth", 0, [0.1]), ("ignore_index", -100, [2])]
    tgt = lambda c: (_R(c, 2, c["nlat"], c["nlon"]).abs() * 10).long() % 3  # noqa: E731
    for n in ("CrossEntropyLossS2", "FocalLossS2", "DiceLossS2"):
        o = SEG + ([("mode", "micro", ["macro"])] if n == "DiceLossS2" else [])
        t[n] = (lambda c, T, n=n: (getattr(losses, n), (c["nlat"], c["nlon"])), lambda c, a, o=o: (o, {}), lambda c, m: [m(_R(c, 2, 3, c["nlat"], c["nlon"]), tgt(c))])
    MET = S + [("weight", None, [torch.tensor([0.2, 0.5, 0.3])]), ("ignore_index", -100, [2]), ("mode", "micro", ["macro"])]
    for n in ("AccuracyS2", "IntersectionOverUnionS2"):
        t[n] = (lambda c, T, n=n: (getattr(metrics, n), (c["nlat"], c["nlon"])), lambda c, a: (MET, {}), lambda c, m: [m(_R(c, 2, 3, c["nlat"], c["nlon"]), tgt(c))])
    # functions: the call itself is the result
    fn = lambda f, *req: (lambda c, T: (f, tuple(r(c) for r in req)))  # noqa: E731
    res = lambda c, r: [torch.as_tensor(x, dtype=torch.float64) if not torch.is_tensor(x) else x for x in (r if isinstance(r, tuple) else (r,))]  # noqa: E731
    n1 = lambda c: c["nlat"] + 1  # noqa: E731
    AB = [("a", -1.0, [0.0]), ("b", 1.0, [2.0])]
    t["truncate_sht"] = (fn(truncate_sht, n1, lambda c: c["nlon"]), lambda c, a: ([("lmax", None, [2]), ("mmax", None, [2])] + GRID, {}), res)
    t["precompute_latitudes"] = (fn(quadrature.precompute_latitudes, n1), lambda c, a: (GRID, {}), res)
    t["trapezoidal_weights"] = (fn(quadrature.trapezoidal_weights, n1), lambda c, a: (AB + [("periodic", False, [True])], {}), res)
    t["legendre_gauss_weights"] = (fn(quadrature.legendre_gauss_weights, n1), lambda c, a: (AB, {}), res)
    t["clenshaw_curtiss_weights"] = (fn(quadrature.clenshaw_curtiss_weights, n1), lambda c, a: (AB, {}), res)
    t["lobatto_weights"] = (fn(quadrature.lobatto_weights, n1), lambda c, a: (AB, {}), res)
    xs = lambda c: torch.linspace(-0.9, 0.9, c["nlat"], dtype=torch.float64)  # noqa: E731
    t["legpoly"] = (fn(legendre.legpoly, lambda c: 4, lambda c: 5, xs), lambda c, a: ([("norm", "ortho", ["schmidt", "four-pi"]), ("inverse", False, [True]), ("csphase", True, [False])], {}), res)
    t["rfft"] = (fn(thfft.rfft, lambda c: _R(c, 4, c["nlat"], c["nlon"])), lambda c, a: ([("nmodes", None, [2]), ("dim", -1, [-2])], {"nmodes": (c["nlon"] if a.get("dim", -1) == -1 else c["nlat"]) // 2 + 1}), res)
    t["irfft"] = (fn(thfft.irfft, lambda c: _R(c, 4, c["nlat"], c["nlon"], cx=True)), lambda c, a: ([("n", None, [5]), ("dim", -1, [-2])], {"n": 2 * ((c["nlon"] if a.get("dim", -1) == -1 else c["nlat"]) - 1)}), res)
    return t


TABLE = _table()
DIST = ["RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT", "QuadratureS2", "ResampleS2", "SpectralConvS2", "DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "NeighborhoodAttentionS2"]


class _Dist:
    def __getattr__(self, n):
        import torch_harmonics.distributed as thd

        return getattr(thd, "Distributed" + n)


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "what": st.sampled_from([[n, d] for n in sorted(TABLE) for d in ([False, True] if n in DIST else [False])]),
            "nlat": st.integers(3, 7),
            "nlon": st.integers(4, 8),
            "nlat2": st.integers(3, 7),
            "nlon2": st.integers(4, 8),
            "mult": st.integers(1, 2),
            "flip": st.booleans(),
            "other": st.lists(st.integers(0, 9), min_size=12, max_size=12),
            "write": st.integers(0, 4095),
            "form": st.sampled_from(["keyword", "positional", "value"]),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["write"] != 0


def _fill(m, seed):
    if isinstance(m, torch.nn.Module):
        with torch.no_grad():
            for j, (n, p) in enumerate(sorted(m.named_parameters())):
                p.copy_(0.4 * torch.randn(p.shape, generator=torch.Generator().manual_seed(seed + j), dtype=p.dtype))


def check(c):
    name, dist = c["what"]
    build, opts, run = TABLE[name]
    c = dict(c)
    # values: two passes, because some defaults depend on the other arguments
    chosen = {}
    for (n, d, alts), o in zip(opts(c, {})[0], c["other"]):
        if o >= 6:
            chosen[n] = alts[o % len(alts)]
    spec, meaning = opts(c, chosen)
    chosen = {n: (next(a for a in alts if a is chosen[n] or a == chosen[n]) if n not in ("lmax", "mmax") else alts[0]) for n, d, alts in spec if n in chosen}
    c["_a"] = chosen
    cls, req = build(c, _Dist() if dist else th)
    label = ("Distributed" if dist else "") + name
    event(label)

    def make(kw, pos=()):
        torch.manual_seed(c["seed"])
        with sut(f"{label}{req + tuple(pos)} {kw}"):
            m = cls(*req, *pos, **kw)
            _fill(m, c["seed"])
            with torch.no_grad():
                return m, run(c, m)

    m0, y0 = make(chosen)
    if not all(bool(torch.isfinite(t.abs()).all()) for t in y0) and "Attention" in name:
        raise Discard("a query without neighbours: its softmax is over the empty set")
    full, written = dict(chosen), []
    for j, (n, d, _) in enumerate(spec):
        if n not in chosen and (c["write"] >> j) & 1:
            full[n] = meaning[n] if c["form"] == "value" and n in meaning else d
            written.append(f"{n}={full[n]!r}")
    if c["form"] == "positional":
        # everything up to the last argument that is given, in the documented order
        last = max([j for j, (n, _, _) in enumerate(spec) if n in full], default=-1)
        pos = [full.get(n, d) for n, d, _ in spec[: last + 1]]
        m1, y1 = make({}, pos)
        how = f"with the arguments {[n for n, _, _ in spec[: last + 1]]} by position"
    else:
        m1, y1 = make(full)
        how = "with " + ", ".join(written) + " written out"
    event(c["form"])
    given = f"{label} given {chosen}" if chosen else label
    if isinstance(m0, torch.nn.Module):
        a, b = {n: tuple(p.shape) for n, p in m0.named_parameters()}, {n: tuple(p.shape) for n, p in m1.named_parameters()}
        expect(a == b, f"{given} has parameters {a}, {how} {b}")
    expect(len(y0) == len(y1), f"{given}: different results {how}")
    for p, q in zip(y0, y1):
        expect(p.shape == q.shape and p.dtype == q.dtype, f"{given} gives {tuple(p.shape)} {p.dtype}, {how} {tuple(q.shape)} {q.dtype}")
        s = float(q.abs().max()) if q.numel() else 1.0
        expect(bool(((p - q).abs() <= 2e-5 * max(s, 1e-3)).all()), f"{given} differs from the result {how} by {float((p - q).abs().max()) if p.numel() else 0:.3e}")
