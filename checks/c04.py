"""C04: scalar transforms equal the dense spherical-harmonic sums."""
import math

from checks.sphcommon import *  # noqa: F401,F403
from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = transform configuration (shape, truncation, grid, norm, phase) x direction x leading shape x dtype x layout x data; non-trivial: lmax >= 3 and data not constant"
BUDGET = {"quick": {"shards": 8, "examples": 520}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["mostly nlat <= 72 (quick) / 216 (thorough), 1 case in 16 up to 220 / 300", "CPU only"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "cfg": sht_config(24 if tier == "quick" else 72, tail=220 if tier == "quick" else 300),
            "inverse": st.booleans(),
            "lead": weighted((14, st.lists(st.integers(1, 3), max_size=3)), (1, st.lists(st.integers(4, 40), min_size=1, max_size=1))),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "layout": st.sampled_from(LAYOUTS),
            "kind": kinds(),
            "upper": st.booleans(),
            "seed": seeds(),
            "threads": st.sampled_from([1, 1, 4]),
        }
    )


def nontrivial(c):
    g = c["cfg"]
    return min(expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])) >= 3 and c["kind"] != "const"


def check(c):
    g = c["cfg"]
    torch.set_num_threads(c["threads"])
    dt = dtype_of(c["dtype"])
    lm, mm = expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])
    event(g["grid"])
    event(g["norm"])
    event("inverse" if c["inverse"] else "forward")
    tol = 3e-12 if dt == torch.float64 else 4e-6
    if not c["inverse"]:
        with sut("RealSHT"):
            t = th.RealSHT(g["nlat"], g["nlon"], **kwargs(g))
        x = layout(field(c["lead"] + [g["nlat"], g["nlon"]], c["seed"], c["kind"], dt), c["layout"])
        x0 = x.clone()
        with sut("RealSHT forward"):
            y = t(x)
        expect(torch.equal(x, x0), "the input was modified")
        ref = O.sht(x.double(), lm, mm, g["grid"], g["norm"], g["csphase"])
        s = 4 * math.pi * scale_of(x) * scale_of(O.plm(mm, lm, g["nlat"], g["grid"], g["norm"], False, False))
        want = torch.complex128 if dt == torch.float64 else torch.complex64
        expect(y.dtype == want, f"coefficients of {dt} data have dtype {y.dtype}")
        close(y, ref, "forward transform", tol, scale=s, atol=1e-30)
    else:
        with sut("InverseRealSHT"):
            t = th.InverseRealSHT(g["nlat"], g["nlon"], **kwargs(g))
        cf = coeffs(c["lead"], lm, mm, c["seed"], c["kind"], torch.complex128 if dt == torch.float64 else torch.complex64, c["upper"])
        cf = layout(cf, c["layout"])
        c0 = cf.clone()
        with sut("InverseRealSHT forward"):
            y = t(cf)
        expect(torch.equal(cf, c0), "the input was modified")
        ref = O.isht(cf.to(torch.complex128), g["nlat"], g["nlon"], g["grid"], g["norm"], g["csphase"])
        s = 2 * scale_of(cf) * lm * mm**0.5 * scale_of(O.plm(mm, lm, g["nlat"], g["grid"], g["norm"], True, False))
        expect(y.dtype == dt, f"signal of {cf.dtype} coefficients has dtype {y.dtype}")
        close(y, ref, "inverse transform", tol, scale=s, atol=1e-30)
