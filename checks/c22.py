"""C22: symmetry: every operator commutes with longitude rotations that both grids share, and with the north-south mirror where its definition is mirror symmetric."""
import math

from checks.discocommon import hashable
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = operator x grid pair (up to 49 x 96 quick, 121 x 240 thorough) x rotation or mirror x data; non-trivial: the input is not invariant under the transformation"
BUDGET = {"quick": {"shards": 8, "examples": 770}, "thorough": {"shards": 8, "examples": 2500}}
ASSUMPTIONS = ["rotations by a whole number of grid steps on both grids", "the mirror relation is used only with filters that depend on the distance and normalisations that do not divide by a local sum"]

OPS = ["sht", "isht", "vsht", "ivsht", "conv", "convt", "nattn", "nattn", "attn", "resample", "sconv", "quad", "loss"]


def strategy(tier):
    big = 49 if tier == "quick" else 121

    @st.composite
    def s(draw):
        op = draw(st.sampled_from(OPS))
        b = big if op not in ("attn",) else 13
        if op in ("nattn", "conv", "convt"):
            b = 25 if tier == "quick" else 49
        wc = draw(st.one_of(st.integers(2, 8), st.integers(2, b)))
        mult = draw(st.integers(1, 4))
        nl = lambda: draw(st.one_of(st.integers(3, 8), st.integers(3, b)))  # noqa: E731
        return {
            "op": op,
            "fine": [nl(), wc * mult],
            "coarse": [nl(), wc],
            "mirror": draw(st.booleans()),
            "shift": draw(st.integers(1, max(1, wc - 1))),
            "grid_a": draw(st.sampled_from(GRIDS3)),
            "grid_b": draw(st.sampled_from(GRIDS3)),
            "opt": draw(st.integers(0, 5)),
            "heads": draw(st.sampled_from([1, 2])),
            "dtype": draw(st.sampled_from(["f64", "f32"])),
            "cut": draw(st.floats(0.6, 2.4)),
            "seed": draw(seeds()),
        }

    return s()


def nontrivial(c):
    return True


def roll(x, s):
    return torch.roll(x, s, -1)


def check(c):
    op, dt = c["op"], dtype_of(c["dtype"])
    event(op + (" mirror" if c["mirror"] else " rotation"))
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    f, k = c["fine"], c["coarse"]
    mult = f[1] // k[1]
    s = c["shift"]
    torch.manual_seed(c["seed"])
    tol = 1e-9 if dt == torch.float64 else 1e-4
    mir = c["mirror"]
    flip = lambda x: x.flip(-2)  # noqa: E731

    def T(x, step):
        return flip(x) if mir else roll(x, step)

    if op in ("sht", "vsht", "isht", "ivsht"):
        vec = op in ("vsht", "ivsht")
        nlat, nlon = f
        kw = dict(grid=c["grid_a"], norm=["ortho", "schmidt", "unnorm"][c["opt"] % 3], csphase=c["opt"] < 3)
        with sut(op):
            m = {"sht": th.RealSHT, "vsht": th.RealVectorSHT, "isht": th.InverseRealSHT, "ivsht": th.InverseRealVectorSHT}[op](nlat, nlon, **kw).to(dt)
        L, M = m.lmax, m.mmax
        sh = c["shift"] % nlon
        l, mm = torch.arange(L, dtype=torch.float64)[:, None], torch.arange(M, dtype=torch.float64)[None, :]
        if mir:
            fac = ((-1.0) ** (l + mm)).to(torch.complex128)
        else:
            fac = torch.exp(-2j * math.pi * mm * sh / nlon).to(torch.complex128) * torch.ones(L, 1)
        if mir and vec:
            # mirrored vectors: the meridional component changes sign, spheroidal keeps the parity, toroidal flips it
            fac = torch.stack([fac, -fac])
            g = torch.tensor([-1.0, 1.0], dtype=dt)[:, None, None]
        else:
            g = torch.ones(1, dtype=dt)
        if op in ("sht", "vsht"):
            x = field([2] + ([2] if vec else []) + f, c["seed"], "normal", dt)
            with sut("forward"):
                a, b = m(T(x, sh) * g), m(x)
            close(a, b.to(torch.complex128) * fac, f"{op} of the transformed field", tol, scale=scale_of(b))
        else:
            co = torch.complex(field([2] + ([2] if vec else []) + [L, M], c["seed"]), field([2] + ([2] if vec else []) + [L, M], c["seed"] + 1))
            co[..., 0].imag.zero_()
            if 2 * (M - 1) == nlon:
                co[..., M - 1] = 0
            co = torch.tril(co)
            with sut("inverse"):
                a, b = m((co * fac).to(cdt)), m(co.to(cdt))
            close(a, T(b, sh) * g, f"{op} of the transformed coefficients", tol, scale=scale_of(b))
        return
    if op == "quad":
        with sut(op):
            m = th.QuadratureS2(tuple(f), grid=c["grid_a"]).to(dt)
            x = field([2, 3] + f, c["seed"], "normal", dt)
            a, b = m(T(x, s)), m(x)
        close(a, b, "integral of the transformed field", tol, scale=20 * scale_of(x))
        return
    if op == "loss":
        from torch_harmonics.examples import losses as Ls

        name = ["CrossEntropyLossS2", "DiceLossS2", "FocalLossS2", "SquaredL2LossS2", "L1LossS2", "L2LossS2"][c["opt"]]
        with sut(name):
            m = getattr(Ls, name)(nlat=f[0], nlon=f[1], grid=c["grid_a"]) if c["opt"] > 2 else getattr(Ls, name)(nlat=f[0], nlon=f[1], grid=c["grid_a"])
            m = m.to(dt)
            if c["opt"] <= 2:
                x = field([2, 3] + f, c["seed"], "normal", dt)
                y = torch.randint(0, 3, [2] + f, generator=gen(c["seed"]))
            else:
                x, y = field([2, 3] + f, c["seed"], "normal", dt), field([2, 3] + f, c["seed"] + 1, "normal", dt)
            a, b = m(T(x, s), T(y, s)), m(x, y)
        close(a, b, f"{name} of transformed fields", 1e-5 if dt == torch.float32 else 1e-6, scale=max(1.0, scale_of(b)))
        return
    if op == "attn":
        with sut(op):
            m = th.AttentionS2(2 * c["heads"], c["heads"], (f[0] % 9 + 3, f[1] % 12 + 2), (f[0] % 9 + 3, f[1] % 12 + 2), grid_in=c["grid_a"], grid_out=c["grid_a"]).to(dt)
            x = field([2, 2 * c["heads"], f[0] % 9 + 3, f[1] % 12 + 2], c["seed"], "normal", dt)
            a, b = m(T(x, s)), m(x)
        close(a, T(b, s), "attention of the transformed field", max(tol, 1e-6), scale=scale_of(b))
        return
    if op == "nattn":
        up = c["opt"] >= 4
        i, o = (k, f) if up else (f, k)
        si, so = (s, s * mult) if up else (s * mult, s)
        h = c["heads"]
        cut = max(c["cut"], 0.8) * math.pi / (min(f[0], k[0]) - 1)  # every output point has a neighbour
        with sut(op):
            m = th.NeighborhoodAttentionS2(2 * h, tuple(i), tuple(o), grid_in=c["grid_a"], grid_out=c["grid_b"], num_heads=h, use_qknorm=c["opt"] % 2 == 1, theta_cutoff=cut)
            q, kk, v = (field([1, 2 * h] + sh_, c["seed"] + j, "normal", torch.float32) for j, sh_ in enumerate([o, i, i]))
            a, b = m(T(q, so), T(kk, si), T(v, si)), m(q, kk, v)
        if not bool(torch.isfinite(b).all()):
            raise Discard("an output point has no neighbour")
        close(a, T(b, so), "neighbourhood attention of transformed fields", 2e-5, scale=scale_of(b))
        return
    if op == "resample":
        up = c["opt"] % 2 == 0
        i, o = (k, f) if up else (f, k)
        si, so = (s, s * mult) if up else (s * mult, s)
        with sut(op):
            m = th.ResampleS2(*i, *o, grid_in=c["grid_a"], grid_out=c["grid_b"], mode="bilinear")
            x = field([2] + i, c["seed"], "normal", dt)
            a, b = m(T(x, si)), m(x)
        close(a, T(b, so), "resampling of the transformed field", 3e-6, scale=scale_of(x))
        return
    if op == "sconv":
        with sut(op):
            m = th.SpectralConvS2(tuple(f), tuple(k), 2, 3, grid_in=c["grid_a"], grid_out=c["grid_b"], bias=False)
            x = field([2, 2] + f, c["seed"], "normal", torch.float32)
            a, b = m(T(x, s * mult)), m(x)
        close(a, T(b, s), "spectral convolution of the transformed field", 5e-5, scale=max(scale_of(b), 1e-3))
        return
    # DISCO
    tr = op == "convt"
    i, o = (k, f) if tr else (f, k)
    si, so = (s, s * mult) if tr else (s * mult, s)
    if mir:
        basis, ks, mode = "piecewise linear", 1 + c["opt"] % 4, ["mean", "none", "geometric"][c["opt"] % 3]
    else:
        basis, ks, mode = [("piecewise linear", 3), ("piecewise linear", (3, 4)), ("harmonic", (2, 3)), ("fourier-bessel", (2, 2)), ("piecewise linear", (2, 3)), ("piecewise linear", 4)][c["opt"]] + (["nodal", "mean", "support"][c["opt"] % 3],)
    n = i[0] if tr else o[0]
    with sut(op):
        cls = th.DiscreteContinuousConvTransposeS2 if tr else th.DiscreteContinuousConvS2
        m = cls(4 * c["heads"], 2, tuple(i), tuple(o), ks, basis_type=basis, basis_norm_mode=mode, grid_in=c["grid_a"], grid_out=c["grid_b"], theta_cutoff=min(3.0, c["cut"] * math.pi / (n - 1))).to(dt)
        x = field([2, 4 * c["heads"]] + i, c["seed"], "normal", dt)
        with torch.no_grad():
            a, b = m(T(x, si)), m(x)
    close(a, T(b, so), f"{op} of the transformed field", max(tol, 1e-6) if mir else tol, scale=max(scale_of(b), 1e-6))
