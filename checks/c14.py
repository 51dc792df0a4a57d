"""C14: filter bases: values equal their definitions, enumeration and isotropy flags are consistent, normalised bases are orthonormal, values depend on r/cutoff only."""
import math

import numpy as np

from checks.discocommon import *  # noqa: F401,F403
from torch_harmonics.filter_basis import get_filter_basis

RULE = "case = basis type x kernel shape x cutoff x random points on the disk; non-trivial: more than one basis function"
BUDGET = {"quick": {"shards": 8, "examples": 800}, "thorough": {"shards": 8, "examples": 8000}}
ASSUMPTIONS = ["zernike factorials are single precision (tolerance 2e-5)", "points within 1e-9 of a cell edge are not generated (random reals)"]


@st.composite
def _k(draw, tier):
    n = 1 if tier == "quick" else 2
    big = draw(weighted((7, st.just(0)), (1, st.just(1))))
    b = draw(st.sampled_from(["piecewise linear", "harmonic", "zernike", "fourier-bessel", "morlet"]))
    if b == "piecewise linear":
        ks = draw(st.one_of(st.integers(1, 9 + 8 * big), st.tuples(st.integers(1, 7 + 8 * big)).map(list), st.tuples(st.integers(1, 7 + 5 * big), st.integers(1, 8 + 8 * big)).map(list)))
    elif b in ("harmonic", "morlet"):
        ks = draw(st.one_of(st.integers(1, 5 + 4 * big), st.tuples(st.integers(1, 6 + 4 * big), st.integers(1, 6 + 4 * big)).map(list)))
    elif b == "zernike":
        ks = draw(st.one_of(st.integers(1, 6 + n), st.tuples(st.integers(1, 5)).map(list)))
    else:
        ks = draw(st.one_of(st.integers(1, 4 + 3 * big), st.tuples(st.integers(1, 4 + 3 * big)).map(list), st.tuples(st.integers(1, 5 + 5 * big), st.integers(0, 6 + 6 * big)).map(list)))
    return {"basis": b, "ks": ks}


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "k": _k(tier),
            "rc": st.one_of(st.floats(0.01, 3.0), st.just(1.0)),
            "shape": st.tuples(st.integers(1, 8), st.integers(1, 12)).map(list),
            "special": st.sampled_from([0, 1, 0, 1, 2]),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return D.kernel_size(c["k"]["basis"], c["k"]["ks"]) > 1


def densify(fb, r, phi, rc, K, what):
    with sut(what):
        idx, vals = fb.compute_support_vals(r, phi, r_cutoff=rc)
    expect(idx.dim() == 2 and idx.shape[1] == 3 and idx.shape[0] == vals.shape[0], f"{what}: index shape {tuple(idx.shape)}")
    expect(vals.dtype == r.dtype, f"{what}: dtype {vals.dtype} for {r.dtype} points")
    if idx.numel():
        expect(int(idx.min()) >= 0 and int(idx[:, 0].max()) < K and int(idx[:, 1].max()) < r.shape[0] and int(idx[:, 2].max()) < r.shape[1], f"{what}: index out of range")
        flat = (idx[:, 0] * r.shape[0] + idx[:, 1]) * r.shape[1] + idx[:, 2]
        expect(flat.unique().numel() == flat.numel(), f"{what}: duplicate entries")
    d = torch.zeros(K, *r.shape, dtype=vals.dtype)
    d[idx[:, 0], idx[:, 1], idx[:, 2]] = vals
    return d


def check(c):
    b, ks = c["k"]["basis"], c["k"]["ks"]
    event(b)
    K = D.kernel_size(b, ks)
    dt = dtype_of(c["dtype"])
    with sut("get_filter_basis"):
        fb = get_filter_basis(hashable(ks), b)
        n, mask = fb.kernel_size, list(fb.isotropic_mask)
    expect(n == K, f"kernel size {n}, expected {K}")
    expect(mask == D.isotropic(b, ks), f"isotropy mask {mask}")
    rc = c["rc"]
    g = gen(c["seed"])
    r = torch.rand(c["shape"], generator=g, dtype=torch.float64) * 1.25 * rc
    phi = torch.rand(c["shape"], generator=g, dtype=torch.float64) * 2 * math.pi
    if c["special"] == 2:
        r = rc * (1.05 + r)  # no point within the cutoff
    elif c["special"]:
        r[0, 0] = 1.1 * rc
    r, phi = r.to(dt), phi.to(dt)
    got = densify(fb, r, phi, rc, K, "values")
    want, _ = D.basis_values(b, ks, r.double().numpy(), phi.double().numpy(), rc)
    edge = (np.abs(r.double().numpy() - rc) < 1e-5 * rc)[None]
    tol = (2e-5 * max(1, D.norm_shape(b, ks) ** 2) if b == "zernike" else 1e-10) if dt == torch.float64 else 2e-3
    if b == "zernike" and dt == torch.float32:
        tol = 5e-2
    close(got * torch.from_numpy(~edge), torch.from_numpy(np.where(edge, 0, want)), "basis values", tol, scale=max(1.0, float(np.abs(want).max(initial=0))))
    # only r / cutoff matters, and isotropic functions ignore the angle
    s = 0.37
    r2 = (r.double() * s).to(dt)
    got2 = densify(fb, r2, phi, rc * s, K, "rescaled values")
    close(got2 * torch.from_numpy(~edge), got * torch.from_numpy(~edge), "value at rescaled radius", max(tol, 1e-9), scale=max(1.0, float(np.abs(want).max(initial=0))))
    got3 = densify(fb, r, torch.remainder(phi + 1.234, 2 * math.pi), rc, K, "rotated values")
    iso = torch.tensor(mask)
    if bool(iso.any()):
        close(got3[iso], got[iso], "isotropic function at rotated angle", 1e-9 if dt == torch.float64 else 1e-4, scale=max(1.0, scale_of(got)))
    if b in ("zernike", "fourier-bessel", "harmonic") and K <= 60:
        x, w = np.polynomial.legendre.leggauss(40)
        u, w = (x + 1) / 2, w / 2
        P = np.arange(64) * 2 * math.pi / 64
        R, PH = np.meshgrid(u * rc, P, indexing="ij")
        V = densify(fb, torch.from_numpy(R), torch.from_numpy(PH), rc, K, "disk values")
        W = torch.from_numpy(np.broadcast_to((w * u)[:, None] * 2 * math.pi / 64, R.shape).copy())
        G = torch.einsum("aij,bij,ij->ab", V, V, W)
        if b == "harmonic":
            close(torch.diagonal(G), torch.ones(K, dtype=torch.float64), "norm of the basis functions", 2e-2)
        else:
            close(G, torch.eye(K, dtype=torch.float64), "Gram matrix on the disk", 1e-3 if b == "zernike" else 1e-8)
    if b == "piecewise linear":
        nks = D.norm_shape(b, ks)
        dr = 2 * rc / (nks[0] + 1)
        # hat functions form a partition of unity up to the last radial node
        last = (((nks[0] + 1) // 2 - 1) if nks[0] % 2 else (nks[0] // 2 - 1 + 0.5)) * dr
        first = 0.0 if nks[0] % 2 or nks[1] > 1 else 0.5 * dr
        if K > 1 or nks[0] % 2:
            sel = (r.double() < last * (1 - 1e-6)) & (r.double() > first * (1 + 1e-6)) & (r.double() > 1e-6 * rc)
            if bool(sel.any()):
                tot = got.double().sum(0)[sel]
                close(tot, torch.ones_like(tot), "sum of the hat functions", 1e-10 if dt == torch.float64 else 1e-4)
