"""C20: Gaussian random fields: the field is the synthesis of noise scaled by the documented spectrum, samples are independent and reproducible, zero mean mode."""
import math

import numpy as np

from lib import oracles as O
from lib.common import *  # noqa: F401,F403
from torch_harmonics.random_fields import GaussianRandomFieldS2

RULE = "case = resolution x grid x smoothness x length scale x amplitude x radius x dtype x noise; non-trivial: lmax >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 370}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["statistics of the sampler are tested through the joint distribution of fixed-seed draws (5 sigma)"]


def strategy(tier):
    big = 24 if tier == "quick" else 64
    return st.fixed_dictionaries(
        {
            "nlat": weighted((56, st.integers(3, 8)), (64, st.integers(3, big)), (8, st.integers(big, 150)), (1, st.integers(184, 210))),
            "grid": st.sampled_from(GRIDS3),
            "alpha": st.one_of(st.sampled_from([1.5, 2.0, 2.5, 3.0, 4.0, 1.01]), st.floats(1.01, 6.0)),
            "tau": st.one_of(st.sampled_from([3.0, 1.0, 0.5, 5.0, 9.0]), st.floats(0.2, 15.0)),
            "sigma": st.one_of(st.none(), st.sampled_from([0.1, 1.0, 7.5]), st.floats(0.01, 50.0)),
            "radius": st.one_of(st.sampled_from([1.0, 1.0, 2.0, 0.5, 6371.0]), st.floats(0.1, 100.0)),
            "dtype": st.sampled_from(["f32", "f64"]),
            "N": st.integers(1, 4),
            "moved": st.booleans(),
            "seed": seeds(),
        }
    )


def trunc(c):
    L = {"legendre-gauss": c["nlat"], "lobatto": c["nlat"] - 1, "equiangular": (c["nlat"] + 1) // 2}[c["grid"]]
    return min(L, c["nlat"] + 1)


def nontrivial(c):
    return trunc(c) >= 3


def check(c):
    event(c["grid"])
    event("sigma given" if c["sigma"] is not None else "sigma default")
    dt = dtype_of(c["dtype"])
    cdt = torch.complex64 if dt == torch.float32 else torch.complex128
    with sut("GaussianRandomFieldS2"):
        m = GaussianRandomFieldS2(c["nlat"], alpha=c["alpha"], tau=c["tau"], sigma=c["sigma"], radius=c["radius"], grid=c["grid"], dtype=dt)
        if c["moved"]:
            m = m.to("cpu")
    nlat, nlon, L = c["nlat"], 2 * c["nlat"], trunc(c)
    g = gen(c["seed"])
    xi = torch.complex(torch.randn(c["N"], L, L, generator=g, dtype=torch.float64), torch.randn(c["N"], L, L, generator=g, dtype=torch.float64)).to(cdt)
    xi0 = xi.clone()
    with sut("forward with given noise"):
        y = m(c["N"], xi)
    expect(torch.equal(xi, xi0), "the noise was modified")
    expect(y.dtype == dt and tuple(y.shape) == (c["N"], nlat, nlon), f"result {y.dtype} {tuple(y.shape)}")
    l = torch.arange(L, dtype=torch.float64)
    sig = c["sigma"] if c["sigma"] is not None else c["tau"] ** (c["alpha"] - 1.0)
    amp = sig * (l * (l + 1) / c["radius"] ** 2 + c["tau"] ** 2) ** (-c["alpha"] / 2)
    amp[0] = 0.0
    co = torch.tril(xi0.to(torch.complex128) * amp[:, None])
    # the fields use spherical harmonics of norm sqrt(4 pi)-free amplitude (the "unnorm" convention)
    ref = O.isht(co, nlat, nlon, c["grid"], norm="unnorm")
    s = max(scale_of(ref), scale_of(co), 1e-30)
    close(y, ref, "field of given noise", 3e-5 if dt == torch.float32 else 3e-6, scale=s)
    # mean over the sphere is zero (the constant mode is switched off)
    _, w, _ = O.nodes(nlat, c["grid"])
    mean = (y.double() * w[:, None]).sum((-1, -2)) / nlon / 2
    if c["grid"] != "equiangular" or L <= nlat:
        close(mean, torch.zeros_like(mean), "mean of a sample", 1e-5, scale=s)
    # reproducible, independent draws with unit normal coefficients
    with sut("sampling"):
        torch.manual_seed(c["seed"])
        a = m(c["N"])
        b = m(c["N"])
        torch.manual_seed(c["seed"])
        a2 = m(c["N"])
    expect(a.dtype == dt and tuple(a.shape) == (c["N"], nlat, nlon), f"sample {a.dtype} {tuple(a.shape)}")
    equal(a, a2, "samples after reseeding")
    if L >= 2:
        expect(not torch.equal(a, b), "two draws are identical")
        if c["N"] > 1:
            expect(not torch.equal(a[0], a[1]), "two samples of one draw are identical")
    if nlat > 48:
        return
    # pointwise variance of the draws against the spectrum (chi-square, 6 sigma)
    with sut("sampling many"):
        torch.manual_seed(c["seed"] + 1)
        z = m(400).double()
    # variance at (theta, 0): sum_l amp_l^2 (P_l0^2 + sum_{m>0} 4 P_lm^2); real part of m=0 only
    var = point_variance(c, amp, L)
    row = nlat // 2
    est = (z[:, row, 0] ** 2).mean()
    mu = z[:, row, 0].mean()
    v = float(var[row])
    if v > 0:
        expect(abs(float(mu)) < 6 * math.sqrt(v / 400), f"mean {float(mu)} of 400 draws at one point, variance {v}")
        expect(abs(float(est) / v - 1) < 6 * math.sqrt(2 / 400), f"variance {float(est)} of 400 draws at one point, expected {v}")
        expect(len(set(z[:, row, 0].tolist())) > 390, "samples of one draw repeat")
    if 2 <= L <= 6:
        joint(c, z, amp, L)


def joint(c, z, amp, L):
    """The coefficients behind the samples: unit variance after scaling, uncorrelated with each other and between samples."""
    ks = [(l, m, i) for l in range(1, L) for m in range(l + 1) for i in ((1.0,) if m == 0 else (1.0, 1.0j))]
    co = torch.zeros(len(ks), L, L, dtype=torch.complex128)
    for n, (l, m, i) in enumerate(ks):
        co[n, l, m] = i * amp[l]
    B = O.isht(co, c["nlat"], 2 * c["nlat"], c["grid"], norm="unnorm").reshape(len(ks), -1)
    N = z.shape[0]
    x = torch.linalg.lstsq(B.T, z.reshape(N, -1).T).solution  # (coefficients, samples)
    event("joint distribution")
    cov = x @ x.T / N
    for n in range(len(ks)):
        expect(abs(float(cov[n, n]) - 1) < 8 * math.sqrt(2 / N), f"variance of the noise behind coefficient {ks[n]} is {float(cov[n, n]):.3f}")
        expect(abs(float(x[n].mean())) < 7 / math.sqrt(N), f"mean of the noise behind coefficient {ks[n]} is {float(x[n].mean()):.3f}")
    off = (cov - torch.diag(torch.diag(cov))).abs()
    k = int(off.argmax())
    expect(float(off.max()) < 7 / math.sqrt(N), f"noise of coefficients {ks[k // len(ks)]} and {ks[k % len(ks)]} is correlated: {float(off.max()):.3f}")
    for lag in (1, 2, 3, 7, N // 2):
        r = float((x[:, lag:] * x[:, :-lag]).sum()) / math.sqrt(x[:, lag:].numel())
        expect(abs(r) < 7, f"samples {lag} apart are correlated ({r:.1f} sigma)")


def point_variance(c, amp, L):
    """Variance of the field at longitude 0 per latitude for unit complex noise (real and imaginary parts both N(0,1)); all orders lie below the Nyquist order."""
    P = O.plm(L, L, c["nlat"], c["grid"], "unnorm", True)
    f = torch.where(torch.arange(L) == 0, 1.0, 2.0).to(torch.float64)
    # the imaginary noise does not contribute at longitude 0
    return ((f[:, None, None] * amp[None, :, None] * P) ** 2).sum((0, 1))
