"""C07: truncation rules and nesting of truncations."""
from checks.sphcommon import *  # noqa: F401,F403
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = grid shape x optional user limits x a smaller second truncation x data; non-trivial: resolved degree >= 2 and second truncation strictly smaller, or a size-only query with nlat > 24"
BUDGET = {"quick": {"shards": 8, "examples": 220}, "thorough": {"shards": 8, "examples": 4000}}


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "cfg": sht_config(20 if tier == "quick" else 48, tail=160),
            "cut": st.integers(1, 20),
            "seed": seeds(),
            "vector": st.booleans(),
            "big": st.tuples(st.integers(2, 4000), st.integers(1, 8000)),
            "grid4": st.sampled_from(GRIDS3 + ["equiangular-trapezoidal"]),
        }
    )


def nontrivial(c):
    g = c["cfg"]
    return min(expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])) > c["cut"]


def check(c):
    g = c["cfg"]
    for nlat, nlon, L, M, grid in [(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"]), (c["big"][0], c["big"][1], g["lmax"], g["mmax"], c["grid4"])]:
        with sut("truncate_sht"):
            got = tuple(th.truncate_sht(nlat, nlon, lmax=L, mmax=M, grid=grid))
        want = expected_trunc(nlat, nlon, L, M, grid)
        expect(got == want, f"truncate_sht({nlat},{nlon},{L},{M},{grid}) = {got}, expected {want}")
    lm, mm = expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])
    F, I = (th.RealVectorSHT, th.InverseRealVectorSHT) if c["vector"] else (th.RealSHT, th.InverseRealSHT)
    lead = [2] if c["vector"] else []
    with sut("transforms"):
        f, i = F(g["nlat"], g["nlon"], **kwargs(g)), I(g["nlat"], g["nlon"], **kwargs(g))
    expect((f.lmax, f.mmax, i.lmax, i.mmax) == (lm, mm, lm, mm), f"transforms truncate to {(f.lmax, f.mmax, i.lmax, i.mmax)}, expected {(lm, mm)}")
    x = field(lead + [g["nlat"], g["nlon"]], c["seed"])
    with sut("forward"):
        y = f(x)
    expect(tuple(y.shape) == tuple(lead + [lm, mm]), f"coefficient shape {tuple(y.shape)}")
    cf = coeffs(lead, lm, mm, c["seed"])
    with sut("inverse"):
        z = i(cf)
    expect(tuple(z.shape) == tuple(lead + [g["nlat"], g["nlon"]]), f"signal shape {tuple(z.shape)}")
    k = c["cut"]
    if k < lm:
        event("nested")
        kw = dict(kwargs(g), lmax=k, mmax=k)
        with sut("smaller transform"):
            y2 = F(g["nlat"], g["nlon"], **kw)(x)
            cz = cf.clone()
            cz[..., k:, :] = 0
            cz[..., :, k:] = 0
            z1 = i(cz)
            z2 = I(g["nlat"], g["nlon"], **kw)(cf[..., :k, :k].contiguous())
        close(y2, y[..., :k, :k], "a lower truncation does not return the leading coefficients", 1e-12, scale=max(scale_of(y), 1e-30))
        close(z2, z1, "truncated coefficients give another signal than zero-padded ones", 1e-11, scale=max(scale_of(z1), 1e-30) * 10)
    # orders above the degree carry nothing
    up = torch.triu(torch.ones(lm, mm, dtype=torch.bool), 1)
    if bool(up.any()):
        expect(float((y * up).abs().max()) <= 1e-14 * scale_of(y), "coefficients with m > l are not zero")
        with sut("inverse"):
            z3 = i(torch.where(up, torch.full_like(cf, 3.0), cf))
        close(z3, z, "coefficients with m > l change the signal", 1e-12, scale=max(scale_of(z), 1e-30))
