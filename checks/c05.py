"""C05: synthesis and analysis are inverse to each other on band-limited data; projection, energy, cross-grid consistency."""
import math

from checks.sphcommon import *  # noqa: F401,F403
from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = two grids x truncation within exactness x norm x phase x coefficients x field; non-trivial: lmax >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 300}, "thorough": {"shards": 8, "examples": 2500}}
ASSUMPTIONS = ["nlat <= 40 (quick) / 128 (thorough)"]


def strategy(tier):
    big = 40 if tier == "quick" else 128
    grid = st.fixed_dictionaries(
        {"nlat": weighted((7, st.integers(2, 9)), (8, st.integers(2, big))), "nlon": weighted((6, st.integers(2, 12)), (8, st.integers(2, 2 * big))), "grid": st.sampled_from(GRIDS3)}
    )

    @st.composite
    def large(draw):  # now and then a fine grid, resolved in both directions
        n = draw(st.integers(big, 180))
        return {"nlat": n, "nlon": draw(st.one_of(st.integers(2 * n - 2, 2 * n + 2), st.integers(big, 400))), "grid": draw(st.sampled_from(GRIDS3))}

    grid = weighted((11, grid), (1, large()))
    return st.fixed_dictionaries(
        {
            "a": grid,
            "b": grid,
            "trunc": st.sampled_from(["default", "default", "lower"]),
            "cut": st.integers(1, big),
            "norm": st.sampled_from(NORMS),
            "csphase": st.booleans(),
            "lead": st.lists(st.integers(1, 2), max_size=2),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "kind": kinds(),
            "seed": seeds(),
        }
    )


def _default(g):
    return min(expected_trunc(g["nlat"], g["nlon"], None, None, g["grid"]))


def nontrivial(c):
    return _default(c["a"]) >= 3


def check(c):
    a, b = c["a"], c["b"]
    event(a["grid"])
    dt = dtype_of(c["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    tol = 1e-10 if dt == torch.float64 else 3e-4
    la = _default(a)
    lmax = None if c["trunc"] == "default" else min(c["cut"], la)
    L = la if lmax is None else lmax
    kw = dict(lmax=lmax, norm=c["norm"], csphase=c["csphase"])
    with sut("transforms"):
        S = th.RealSHT(a["nlat"], a["nlon"], grid=a["grid"], **kw)
        I = th.InverseRealSHT(a["nlat"], a["nlon"], grid=a["grid"], **kw)
    expect(S.lmax == L and S.mmax == L and I.lmax == L and I.mmax == L, f"truncation {(S.lmax, S.mmax, I.lmax, I.mmax)}, expected {L}")
    cf = real_rows(coeffs(c["lead"], L, L, c["seed"], c["kind"], torch.complex128), a["nlon"]).to(cdt)
    with sut("inverse"):
        f = I(cf)
    with sut("forward"):
        back = S(f)
    # coefficients of degree l are synthesised with functions of size sqrt(2l+1) at most
    grow = L if c["norm"] != "ortho" else 1.0
    close(back, cf, f"{a['grid']}: analysis of a synthesised band-limited field", tol * grow, scale=max(1e-30, scale_of(cf)))
    # projection: applying analysis + synthesis twice is the same as once, for any field
    x = field(c["lead"] + [a["nlat"], a["nlon"]], c["seed"] + 5, c["kind"], dt)
    with sut("projection"):
        p1 = I(S(x))
        p2 = I(S(p1))
    close(p2, p1.double(), "analysis followed by synthesis is not a projection", tol * grow * 4, scale=max(scale_of(x), scale_of(p1)) * (L**0.5))
    # energy (orthonormal convention), on the exact part of the spectrum
    if c["norm"] == "ortho":
        _, w, _ = O.nodes(a["nlat"], a["grid"])
        m = torch.arange(L)
        mult = torch.where(m == 0, 1.0, 2.0)
        # the Nyquist order is carried by a single real mode, its energy is not 2|c|^2: leave it out
        if 2 * (L - 1) < a["nlon"]:
            e1 = (f.double() ** 2 * w[:, None]).sum((-1, -2)) * 2 * math.pi / a["nlon"]
            e2 = (cf.to(torch.complex128).abs() ** 2 * mult).sum((-1, -2))
            close(e1, e2, "energy of the field vs of the coefficients", tol * 4, scale=max(1e-30, scale_of(e2)))
            event("parseval")
    # constant
    with sut("constant"):
        k = S(torch.full((a["nlat"], a["nlon"]), 2.5, dtype=dt))
    want = torch.zeros(L, L, dtype=torch.complex128)
    want[0, 0] = 2.5 * math.sqrt(4 * math.pi) * (1.0 if c["norm"] == "ortho" else math.sqrt(4 * math.pi))
    close(k, want, "coefficients of a constant field", tol, scale=float(want[0, 0].abs()))
    # the coefficients describe one function on the sphere, whatever grid it is put on
    lb = _default(b)
    if lb >= L and 2 * (L - 1) < b["nlon"] and 2 * (L - 1) < a["nlon"]:
        event("cross-grid")
        with sut("second grid"):
            I2 = th.InverseRealSHT(b["nlat"], b["nlon"], lmax=L, mmax=L, grid=b["grid"], norm=c["norm"], csphase=c["csphase"])
            S2 = th.RealSHT(b["nlat"], b["nlon"], lmax=L, mmax=L, grid=b["grid"], norm=c["norm"], csphase=c["csphase"])
            back2 = S2(I2(S(f)))
        close(back2, cf, "coefficients after going through a second grid", tol * grow * 4, scale=max(1e-30, scale_of(cf)))
