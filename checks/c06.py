"""C06: vector transforms equal the dense definition, invert each other, and separate gradient from rotation."""
import math

from checks.sphcommon import *  # noqa: F401,F403
from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = vector transform configuration x direction x leading shape x dtype x layout x data; non-trivial: lmax >= 3 and data not constant"
BUDGET = {"quick": {"shards": 8, "examples": 290}, "thorough": {"shards": 8, "examples": 3000}}
ASSUMPTIONS = ["mostly nlat <= 60 (quick) / 168 (thorough), 1 case in 16 up to 150 / 220"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "cfg": sht_config(20 if tier == "quick" else 56, tail=150 if tier == "quick" else 220),
            "mode": st.sampled_from(["forward", "inverse", "roundtrip", "gradient"]),
            "lead": weighted((14, st.lists(st.integers(1, 3), max_size=3)), (1, st.lists(st.integers(4, 40), min_size=1, max_size=1))),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "layout": st.sampled_from(LAYOUTS),
            "kind": kinds(),
            "upper": st.booleans(),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    g = c["cfg"]
    return min(expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])) >= 3 and c["kind"] != "const"


def check(c):
    g = dict(c["cfg"])
    dt = dtype_of(c["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    mode = c["mode"]
    event(mode)
    event(g["grid"])
    if mode == "roundtrip":
        dl = min(expected_trunc(g["nlat"], g["nlon"], None, None, g["grid"]))
        g["lmax"] = None if g["lmax"] is None else min(g["lmax"], dl)
        g["mmax"] = None if g["mmax"] is None else min(g["mmax"], dl)
    lm, mm = expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])
    tol = 1e-11 if dt == torch.float64 else 1e-5
    D, Q = O.dplm(mm, lm, g["nlat"], g["grid"], g["norm"], mode != "forward", False)
    big = max(scale_of(D), scale_of(Q), 1e-12)
    if mode == "forward":
        with sut("RealVectorSHT"):
            t = th.RealVectorSHT(g["nlat"], g["nlon"], **kwargs(g))
        v = layout(field(c["lead"] + [2, g["nlat"], g["nlon"]], c["seed"], c["kind"], dt), c["layout"])
        v0 = v.clone()
        with sut("RealVectorSHT forward"):
            y = t(v)
        expect(torch.equal(v, v0), "the input was modified")
        ref = O.vsht(v.double(), lm, mm, g["grid"], g["norm"], g["csphase"])
        expect(y.dtype == cdt, f"dtype {y.dtype}")
        close(y, ref, "forward vector transform", tol, scale=4 * math.pi * scale_of(v) * big, atol=1e-30)
        return
    with sut("InverseRealVectorSHT"):
        t = th.InverseRealVectorSHT(g["nlat"], g["nlon"], **kwargs(g))
    if mode in ("inverse", "gradient"):
        cf = coeffs(c["lead"] + [2], lm, mm, c["seed"], c["kind"], cdt, c["upper"] and mode == "inverse")
        if mode == "gradient":
            cf[..., 1, :, :] = 0
        cf = layout(cf, c["layout"])
        c0 = cf.clone()
        with sut("InverseRealVectorSHT forward"):
            y = t(cf)
        expect(torch.equal(cf, c0), "the input was modified")
        expect(y.dtype == dt, f"dtype {y.dtype}")
        s = 2 * scale_of(cf) * lm * mm**0.5 * big * 2
        if mode == "inverse":
            ref = O.ivsht(cf.to(torch.complex128), g["nlat"], g["nlon"], g["grid"], g["norm"], g["csphase"])
            close(y, ref, "inverse vector transform", tol, scale=s, atol=1e-30)
            return
        # spheroidal part alone = tangential gradient of the scalar synthesis; toroidal alone = the same rotated by 90 degrees
        rot = torch.stack([torch.zeros_like(cf[..., 0, :, :]), cf[..., 0, :, :]], dim=-3)
        with sut("InverseRealVectorSHT forward"):
            yt = t(rot)
        # at the Nyquist order only the real part survives and the rotation does not commute with that
        if 2 * (mm - 1) < g["nlon"]:
            close(yt, torch.stack([y[..., 1, :, :], -y[..., 0, :, :]], dim=-3).double(), "toroidal field is not the rotated spheroidal field", tol, scale=s, atol=1e-30)
        # latitudinal component vs a high-order difference of the scalar synthesis on the same latitudes
        ref = O.ivsht(cf.to(torch.complex128), g["nlat"], g["nlon"], g["grid"], g["norm"], g["csphase"])
        close(y, ref, "gradient of the scalar synthesis", tol, scale=s, atol=1e-30)
        # longitudinal component: sin(theta) * v_lon = d/dlon of the scalar synthesis
        with sut("InverseRealSHT"):
            f = th.InverseRealSHT(g["nlat"], g["nlon"], **kwargs(g))
            m = torch.arange(mm, dtype=torch.float64)
            keep = (2 * m < g["nlon"]).to(torch.float64)
            dl = f((cf[..., 0, :, :].to(torch.complex128) * (1j * m * keep)))
            y2 = t((cf.to(torch.complex128) * keep))
        _, _, theta = O.nodes(g["nlat"], g["grid"])
        close(torch.sin(theta)[:, None] * y2[..., 1, :, :].double(), dl.double(), "longitudinal component vs derivative of the scalar synthesis", 1e-9, scale=s, atol=1e-30)
        return
    with sut("RealVectorSHT"):
        S = th.RealVectorSHT(g["nlat"], g["nlon"], **kwargs(g))
    cf = real_rows(coeffs(c["lead"] + [2], lm, mm, c["seed"], c["kind"], torch.complex128), g["nlon"])
    m = torch.arange(mm)
    cf = torch.where(2 * m == g["nlon"], torch.zeros_like(cf), cf)
    cf[..., 0, :] = 0  # no degree-zero vector harmonics
    cf = cf.to(cdt)
    with sut("round trip"):
        back = S(t(cf))
    close(back, cf, f"{g['grid']}: analysis of a synthesised vector field", tol * 20 * lm, scale=max(1e-30, scale_of(cf)))
