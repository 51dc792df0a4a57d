"""C25: a distributed layer on any process grid computes what the serial layer computes, forward and backward."""
import math

import torch
import torch_harmonics as th
from hypothesis import strategies as st

from checks import sphcommon  # noqa: F401
from lib import distpool as DP
from lib.common import GRIDS3, close, field, scale_of, seeds, weighted
from lib.harness import Discard, event, sut

RULE = "case = layer x process grid (polar x azimuth) x global grid sizes, truncation, channels, groups, normalisation, type and data; non-trivial: more than one rank"
BUDGET = {"quick": {"shards": 3, "examples": 650, "hang_s": 200}, "thorough": {"shards": 3, "examples": 5000, "hang_s": 300}}
WORLD = {"quick": 6, "thorough": 8}
ASSUMPTIONS = [
    "the wire is gloo on the CPU with stand-ins for the uneven collectives it lacks",
    "every dimension that is split has at least as many entries as ranks (otherwise the layers refuse)",
    "gradients of replicated parameters are compared after summing over the ranks that hold a copy, as the test suite and the documentation do",
    "the ring-attention layer is covered by C31",
]
OPS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt"]


def start(tier):
    DP.start(WORLD[tier])


def stop():
    DP.stop()


def strategy(tier):
    w = WORLD[tier]
    g = [x for x in DP.grids(w)]
    return st.fixed_dictionaries(
        {
            "op": st.sampled_from(OPS),
            "grid": st.sampled_from(g).map(list),
            "mode": st.integers(0, 3),
            "nlat": weighted((19, st.integers(2, 12)), (1, st.integers(13, 40))),
            "nlon": weighted((19, st.integers(2, 14)), (1, st.integers(15, 64))),
            "nlat2": weighted((19, st.integers(2, 12)), (1, st.integers(13, 40))),
            "nlon2": weighted((19, st.integers(2, 14)), (1, st.integers(15, 64))),
            "mult": st.integers(1, 3),
            "lmax": st.one_of(st.none(), st.integers(1, 12)),
            "mmax": st.one_of(st.none(), st.integers(1, 8)),
            "ga": st.sampled_from(GRIDS3),
            "gb": st.sampled_from(GRIDS3),
            "norm": st.sampled_from(["ortho", "schmidt", "unnorm"]),
            "csphase": st.booleans(),
            "lead": st.lists(st.integers(1, 4), min_size=1, max_size=3),
            "ci": st.integers(1, 4),
            "co": st.integers(1, 4),
            "groups": st.integers(1, 3),
            "bias": st.booleans(),
            "opt": st.integers(0, 5),
            "cut": st.one_of(st.none(), st.floats(0.3, 3.0)),
            "ref": st.booleans(),
            "fused": st.booleans(),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "debug": st.booleans(),
            "half": st.sampled_from([None, None, "f16", "f16", "bf16"]),  # resampling and quadrature only
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["grid"][0] * c["grid"][1] > 1


class _claim_cuda:
    """The fused variant insists on a GPU when it is constructed, but its operations exist on the CPU as well."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = torch.cuda.is_available
        if self.on:
            torch.cuda.is_available = lambda: True

    def __exit__(self, *a):
        torch.cuda.is_available = self.old


BASES = [("piecewise linear", 3), ("piecewise linear", (2, 3)), ("harmonic", (2, 3)), ("fourier-bessel", (2, 2)), ("zernike", 2), ("morlet", (2, 2))]
NORMS = ["nodal", "mean", "none", "modal", "support", "geometric"]


def _cfg(c):
    """Sizes adjusted so that every split dimension has an entry per rank."""
    pol, az = c["grid"]
    r = dict(c)
    # the default truncation needs enough latitudes and longitudes for the l and m splits
    r["nlat"] = max(c["nlat"], 2 * pol if c["op"] in ("sht", "isht", "vsht", "ivsht", "sconv") else pol)
    r["nlat2"] = max(c["nlat2"], 2 * pol if c["op"] == "sconv" else pol)
    need = 2 * az if c["op"] in ("sht", "isht", "vsht", "ivsht", "sconv") else az
    r["nlon"] = max(c["nlon"], need)
    r["nlon2"] = max(c["nlon2"], need)
    return r


def _half(c):
    if c["op"] == "quad" or (c["op"] == "resample" and c["opt"] % 2 == 0):
        return {"f16": torch.float16, "bf16": torch.bfloat16}.get(c.get("half"))


def _data(shape, c, dt, factor=1.0):
    h = _half(c)
    if h is None:
        return factor * field(shape, c["seed"], "normal", dt)
    # large values, all of one sign: sums over a row exceed the range of the half format
    return (4000.0 * (field(shape, c["seed"], "normal", torch.float32).clamp(-3, 3) + 4.0)).to(h)


def make(c, dist):
    """(module, list of (name, global input), hdim/wdim are the last two). c: adjusted."""
    if dist:
        import torch_harmonics.distributed as thd

        P = lambda n: getattr(thd, "Distributed" + n)  # noqa: E731
    else:
        P = lambda n: getattr(th, n)  # noqa: E731
    op = c["op"]
    dt = torch.float64 if c["dtype"] == "f64" else torch.float32
    cd = torch.complex128 if c["dtype"] == "f64" else torch.complex64
    torch.manual_seed(c["seed"])
    if op in ("sht", "vsht", "isht", "ivsht"):
        cls = {"sht": "RealSHT", "vsht": "RealVectorSHT", "isht": "InverseRealSHT", "ivsht": "InverseRealVectorSHT"}[op]
        m = P(cls)(c["nlat"], c["nlon"], lmax=c["lmax"], mmax=c["mmax"], grid=c["ga"], norm=c["norm"], csphase=c["csphase"])
        v = [2] if op in ("vsht", "ivsht") else []
        lead = list(c["lead"]) + v
        if op in ("sht", "vsht"):
            x = field(lead + [c["nlat"], c["nlon"]], c["seed"], ("part", "zonal", "normal", "normal", "normal")[c["seed"] % 5], dt)
        else:
            L, M = m.lmax, m.mmax
            x = torch.complex(field(lead + [L, M], c["seed"]), field(lead + [L, M], c["seed"] + 1)).to(cd)
        return m, x
    if op == "quad":
        m = P("QuadratureS2")((c["nlat"], c["nlon"]), grid=c["ga"], normalize=c["csphase"])
        return m, _data(list(c["lead"]) + [c["nlat"], c["nlon"]], c, dt)
    if op == "resample":
        m = P("ResampleS2")(c["nlat"], c["nlon"], c["nlat2"], c["nlon2"], grid_in=c["ga"], grid_out=c["gb"], mode=["bilinear", "bilinear-spherical"][c["opt"] % 2])
        # the channels are redistributed over the ranks: at least one each
        ch = max(c["lead"][-1], c["grid"][0], c["grid"][1])
        return m, _data(list(c["lead"][:-1]) + [ch, c["nlat"], c["nlon"]], c, dt, 0.2)
    G = c["groups"]
    ci, co = G * c["ci"], G * c["co"]
    B = c["lead"][0]
    if op == "sconv":
        m = P("SpectralConvS2")((c["nlat"], c["nlon"]), (c["nlat2"], c["nlon2"]), ci, co, num_groups=G, grid_in=c["ga"], grid_out=c["gb"], bias=c["bias"])
        return m, field([B, ci, c["nlat"], c["nlon"]], c["seed"], "normal", torch.float32)
    basis, ks = BASES[c["opt"]]
    # azimuth transposes split the channels
    az = c["grid"][1]
    need = -(-az // G)
    ci, co = G * max(c["ci"], need), G * max(c["co"], need)
    fine, coarse = (c["nlat"], c["nlon"] * c["mult"]), (c["nlat2"], c["nlon"])
    i, o = (fine, coarse) if op == "conv" else (coarse, fine)
    n = o[0] if op == "conv" else i[0]
    cut = None if c["cut"] is None else min(3.0, c["cut"] * math.pi / (n - 1))
    cls = "DiscreteContinuousConvS2" if op == "conv" else "DiscreteContinuousConvTransposeS2"
    kw = {"fused": True} if dist and op == "conv" and c["fused"] and not c["ref"] else {}
    with _claim_cuda(bool(kw)):
        m = P(cls)(ci, co, i, o, ks, **kw, basis_type=basis, basis_norm_mode=NORMS[c["opt"]] if basis != "zernike" else "nodal", groups=G, grid_in=c["ga"], grid_out=c["gb"], bias=c["bias"], theta_cutoff=cut, optimized_kernel=not c["ref"])
    return m.to(dt), field([B, ci, *i], c["seed"], ("part", "zonal", "normal", "normal", "normal")[c["seed"] % 5], dt)


def params(m, c):
    """Deterministic values for the global parameters, by name."""
    out = {}
    for j, (n, p) in enumerate(sorted(m.named_parameters())):
        out[n] = (j, tuple(p.shape))
    return out


def global_params(c, serial):
    out = {}
    for j, (n, p) in enumerate(sorted(serial.named_parameters())):
        v = 0.3 * field(p.shape, c["seed"] + 50 + j)
        if p.is_complex():
            v = torch.complex(v, 0.3 * field(p.shape, c["seed"] + 70 + j))
        out[n] = v.to(p.dtype)
    return out


def place(c, name, v, ctx):
    """The part of a global parameter a rank holds."""
    if c["op"] != "sconv":
        return v
    a, b = DP.bounds(v.shape[-1 if name == "weight" else -2], ctx.npol, ctx.ipol)
    v = v.narrow(-1 if name == "weight" else -2, a, b - a)
    if name == "spectral_bias":
        a, b = DP.bounds(v.shape[-1], ctx.naz, ctx.iaz)
        v = v.narrow(-1, a, b - a)
    return v


def cotangent(shape, c, like):
    g = field(shape, c["seed"] + 9)
    if like.is_complex():
        g = torch.complex(g, field(shape, c["seed"] + 10))
    return g.to(like.dtype)


def rank_run(case, ctx):
    import torch_harmonics.distributed as thd

    thd.config.debug = case["debug"]
    c = _cfg(case)
    m, x = make(c, True)
    serial_shapes = case["_pshapes"]
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            sh = serial_shapes[n]
            v = 0.3 * field(sh, c["seed"] + 50 + j)
            if p.is_complex():
                v = torch.complex(v, 0.3 * field(sh, c["seed"] + 70 + j))
            p.copy_(place(c, n, v.to(p.dtype), ctx))
    xl = DP.local(x, ctx).requires_grad_(True)
    x0 = xl.detach().clone()
    y = m(xl)
    go = cotangent(case["_yshape"], c, y)
    go = go if c["op"] == "quad" else DP.local(go, ctx)
    y.backward(go)
    return {
        "y": y.detach().clone(),
        "gx": xl.grad.clone(),
        "gp": {n: p.grad.clone() for n, p in m.named_parameters()},
        "same": bool(torch.equal(xl.detach(), x0)),
    }


def check(case):
    c = _cfg(case)
    pol, az = c["grid"]
    op = c["op"]
    if op in ("sht", "isht", "vsht", "ivsht"):
        from torch_harmonics.truncation import truncate_sht

        L, M = truncate_sht(c["nlat"], c["nlon"], c["lmax"], c["mmax"], c["ga"])
        if L < pol or M < az:
            raise Discard("fewer degrees or orders than ranks")
    if op == "sconv":
        from torch_harmonics.truncation import truncate_sht

        L = min(*truncate_sht(c["nlat"], c["nlon"], grid=c["ga"]), *truncate_sht(c["nlat2"], c["nlon2"], grid=c["gb"]))
        if L < max(pol, az):
            raise Discard("fewer degrees than ranks")
    with sut("serial layer"):
        m, x = make(c, False)
    vals = global_params(c, m)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(vals[n])
    x.requires_grad_(True)
    with sut("serial layer"):
        y = m(x)
        go = cotangent(y.shape, c, y)
        y.backward(go)
    event(op + (" fused" if op == "conv" and c["fused"] and not c["ref"] else ""))
    event(f"grid {pol}x{az}")
    case = {**case, "_pshapes": {n: list(p.shape) for n, p in m.named_parameters()}, "_yshape": list(y.shape)}
    res = DP.run("checks.c25", "rank_run", pol, az, case, c["mode"])
    where = f"{op} on the {pol}x{az} grid"
    f32 = c["dtype"] == "f32" or op == "sconv"
    tol = 2e-5 if f32 else 1e-11
    if op in ("conv", "convt", "resample", "quad") and not f32:
        tol = 1e-10
    if _half(c) is not None:
        event("half precision " + op)
        tol = 12 * torch.finfo(_half(c)).eps
    if op == "quad":
        ys = [r["y"] for r in res]
        for i, yy in enumerate(ys):
            close(yy, y, f"{where}: result on rank {i}", tol, scale=max(scale_of(x.detach()), 1e-6))
    else:
        close(DP.assemble([r["y"] for r in res], pol, az), y, f"{where}: result", tol, scale=max(scale_of(y.detach()), 1e-6))
    close(DP.assemble([r["gx"] for r in res], pol, az), x.grad, f"{where}: input gradient", tol, scale=max(scale_of(x.grad), 1e-6))
    for n, p in m.named_parameters():
        parts = [r["gp"][n] for r in res]
        if op == "sconv":
            if n == "weight":
                tot = torch.cat([sum(parts[i * az : (i + 1) * az]) for i in range(pol)], dim=-1)
            else:
                tot = DP.assemble(parts, pol, az)
        else:
            tot = sum(parts)
        close(tot, p.grad, f"{where}: gradient of {n}", 10 * tol, scale=max(scale_of(p.grad), 1e-6))
    for i, r in enumerate(res):
        if not r["same"]:
            from lib.harness import Violation

            raise Violation(f"{where}: rank {i} modified its input")
