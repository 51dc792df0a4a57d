"""C29: the sphere PDE solvers compute the tendencies and time steps of their equations and conserve what the equations conserve."""
import math

import torch
from hypothesis import strategies as st

from lib import oracles
from lib.common import GRIDS3, close, field, scale_of, seeds
from lib.harness import Discard, event, expect, sut

RULE = "case = equation x grid x truncation x physical constants x state x number of steps; non-trivial: a state with non-zonal components"
BUDGET = {"quick": {"shards": 8, "examples": 480}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["float64 solvers against dense float64 sums over the scipy harmonics; relative tolerance 1e-8 (1e-6 after several steps)"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "what": st.sampled_from(["swe", "swe", "swe", "steady", "allen-cahn", "ginzburg-landau", "roundtrip", "dataset"]),
            "nlat": st.integers(4, 12),
            "nlon": st.integers(4, 16),
            "grid": st.integers(0, 2),
            "lmax": st.integers(2, 12),
            "radius": st.sampled_from([1.0, 2.5, 6.37122e6]),
            "omega": st.sampled_from([1.0, 0.3, 7.292e-5]),
            "havg": st.sampled_from([1.0, 5.0, 1.0e4]),
            "dt": st.sampled_from([0.001, 0.01, 10.0]),
            "steps": st.integers(0, 6),
            "coeff": st.sampled_from([0.0, 0.001, 0.2]),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["what"] != "steady" and c["lmax"] > 2


def _coef(shape, seed):
    x = torch.complex(field(shape, seed), field(shape, seed + 1))
    x[..., 0].imag.zero_()
    return torch.tril(x)


def check(c):
    from torch_harmonics.examples import pde_sphere, shallow_water_equations

    g, H, W = GRIDS3[c["grid"]], c["nlat"], c["nlon"]
    L = min(c["lmax"], H)
    Mx = min(L, W // 2)
    event(c["what"])
    if c["what"] in ("allen-cahn", "ginzburg-landau"):
        with sut("solver"):
            s = pde_sphere.SphereSolver(H, W, 0.01, lmax=L, mmax=Mx, grid=g, radius=c["radius"], coeff=c["coeff"])
            s = s.double() if not any(b.is_complex() for b in s.buffers()) else s
        L, Mx = s.lmax, s.mmax
        u = _coef([L, Mx], c["seed"])
        with sut("tendency"):
            y = s.dudtspec(u.clone(), pde=c["what"])
        lap = -(torch.arange(L, dtype=torch.float64) * (torch.arange(L, dtype=torch.float64) + 1) / c["radius"] ** 2)[:, None]
        ug = oracles.isht(u, H, W, g, csphase=False)
        u3 = oracles.sht(ug**3, L, Mx, g, csphase=False)
        f = 1.0 if c["what"] == "allen-cahn" else 1.0 + 2.0j
        want = u + f * c["coeff"] * lap * u - f * u3
        close(y, want, f"{c['what']} tendency", 1e-9, scale=max(scale_of(want), scale_of(u3)))
        # the constant states 0 and +-1 are stationary for Allen-Cahn
        if c["what"] == "allen-cahn":
            for v in (0.0, 1.0, -1.0):
                e = torch.zeros_like(u)
                e[0, 0] = v * math.sqrt(4 * math.pi)
                with sut("tendency"):
                    y = s.dudtspec(e)
                close(y, torch.zeros_like(y), f"tendency of the constant state {v}", 1e-9, scale=10.0)
        return
    if c["what"] == "dataset":
        from torch_harmonics.examples.pde_dataset import PdeDataset

        torch.manual_seed(c["seed"])
        n = 1 + c["steps"]
        with sut("dataset"):
            ds = PdeDataset(dt=600.0, nsteps=n, dims=(max(H, 6), 2 * max(H, 6)), grid=g, num_examples=3, normalize=c["lmax"] % 2 == 0)
            ds.set_num_examples(2 + c["steps"])
            st0 = torch.get_rng_state()
            inp, tar = ds[0]
            torch.set_rng_state(st0)
            ic = ds.solver.random_initial_condition(mach=0.2)
            a, b = ds.solver.spec2grid(ic), ds.solver.spec2grid(ds.solver.timestep(ic, n))
        expect(len(ds) == 2 + c["steps"], f"length {len(ds)}")
        expect(abs(ds.solver.dt * n - 600.0) < 1e-6, f"{n} steps of {ds.solver.dt} do not make 600")
        if ds.normalize:
            nm = lambda v: (v - ds.inp_mean) / torch.sqrt(ds.inp_var)  # noqa: E731
            a, b = nm(a), nm(b)
        close(inp, a, "dataset input", 1e-5, scale=max(scale_of(a), 1e-9))
        close(tar, b, "dataset target", 1e-5, scale=max(scale_of(b), 1e-9))
        return

    R, om, grav, hav = c["radius"], c["omega"], 9.80616 if c["radius"] > 10 else 1.0, c["havg"]
    with sut("solver"):
        s = shallow_water_equations.ShallowWaterSolver(H, W, c["dt"], lmax=L, mmax=Mx, grid=g, radius=R, omega=om, gravity=grav, havg=hav, hamp=0.1 * hav).double()
    L, Mx = s.lmax, s.mmax
    expect(L <= c["lmax"] and Mx <= min(L, W // 2 + 1), f"truncation {L}, {Mx}")
    if L < 2:
        raise Discard("only the mean is left")
    lf = torch.arange(L, dtype=torch.float64)[:, None]
    lap = -lf * (lf + 1) / R**2
    inv = torch.where(lf > 0, 1.0 / torch.where(lf > 0, lap, torch.ones_like(lap)), torch.zeros_like(lap))
    _, w, th = oracles.nodes(H, g)
    cor = 2 * om * torch.cos(th)[:, None]
    D, Q = oracles.dplm(Mx, L, H, g, "ortho", True, False)
    D, Q = D.to(torch.complex128), 1j * Q.to(torch.complex128)

    def syn(cf, T):
        return oracles.fourier_sum(torch.einsum("...lm,mlk->...km", cf.to(torch.complex128), T), W)

    def wind(vd):
        """(u, v) eastward / northward of vorticity and divergence: psi, chi = inverse Laplacian."""
        psi, chi = inv * vd[0], inv * vd[1]
        u = (syn(psi, D) + syn(chi, Q)) / R  # -dpsi/dlat + dchi/dlon/cos
        v = (syn(psi, Q) - syn(chi, D)) / R  # dpsi/dlon/cos + dchi/dlat
        return torch.stack([u, v])

    def vrtdiv(uv):
        """Weak-form vorticity and divergence: projections onto the gradients of the harmonics."""
        A = oracles.vsht(torch.stack([-uv[1], uv[0]]), L, Mx, g, "ortho", False)  # (theta, lambda) components: southward, eastward
        return torch.stack([-A[1], A[0]]) * lap * R

    sp = _coef([3, L, Mx], c["seed"])
    speed = 0.2 * math.sqrt(grav * hav)
    sp[1:] *= speed / R
    sp[1:, 0] = 0
    sp[0] *= 0.1 * grav * hav
    sp[0, 0, 0] += math.sqrt(4 * math.pi) * grav * hav
    if c["what"] == "roundtrip":
        with sut("wind of vorticity and divergence"):
            uv = s.getuv(sp[1:])
            huv = s.gethuv(sp)
            pv = s.potential_vorticity(sp)
        want = wind(sp[1:])
        close(uv, want, "wind", 1e-9, scale=max(scale_of(want), 1e-12))
        close(huv[1:], want, "wind (gethuv)", 1e-9, scale=max(scale_of(want), 1e-12))
        hg = oracles.isht(sp, H, W, g, csphase=False)
        close(huv[0], hg[0], "geopotential (gethuv)", 1e-9, scale=scale_of(hg[0]))
        if float(hg[0].abs().min()) > 1e-3 * scale_of(hg[0]):
            pw = 0.5 * hav * grav / om * (hg[1] + cor) / hg[0]
            close(pv, pw, "potential vorticity", 1e-7, scale=scale_of(pw))
        with sut("vorticity and divergence of a wind"):
            vd = s.vrtdivspec(want)
        wv = vrtdiv(want)
        close(vd, wv, "vorticity and divergence", 1e-9, scale=max(scale_of(wv), 1e-30))
        with sut("integral"):
            one = s.integrate_grid(torch.full((H, W), 2.0, dtype=torch.float64))
            dim = s.integrate_grid(torch.full((2, H, W), 2.0, dtype=torch.float64), dimensionless=True)
        close(one, torch.tensor(8 * math.pi * R**2, dtype=torch.float64), "integral of two", 1e-10)
        close(dim, torch.full((2,), 8 * math.pi, dtype=torch.float64), "integral of two on the unit sphere", 1e-10)
        if L < H and 2 * Mx < W + 1 and g == "legendre-gauss":
            close(vd[:, 1:], sp[1:, 1:], "vorticity and divergence of their own wind", 1e-8, scale=scale_of(sp[1:]))
        return
    if c["what"] == "steady":
        # balanced solid body rotation: Williamson et al. (1992), case 2
        if g != "legendre-gauss" or H < 6 or L < 4 or L + 2 > H:
            raise Discard("not resolved exactly")
        U = speed
        e = torch.zeros(3, L, Mx, dtype=torch.complex128)
        lat = math.pi / 2 - th
        phi = grav * hav - (R * om * U + 0.5 * U * U) * torch.sin(lat) ** 2
        e[0] = oracles.sht(phi[:, None].expand(H, W), L, Mx, g, csphase=False)
        e[1] = oracles.sht((2 * U / R * torch.sin(lat))[:, None].expand(H, W), L, Mx, g, csphase=False)
        with sut("wind"):
            uv = s.getuv(e[1:])
        close(uv[0], (U * torch.cos(lat))[:, None].expand(H, W), "eastward wind of solid body rotation", 1e-9)
        close(uv[1], torch.zeros(H, W), "northward wind of solid body rotation", 1e-9, scale=U)
        with sut("tendency"):
            d = s.dudtspec(e.clone())
        for j, sc in enumerate([grav * hav * U / R, (U / R) * (U / R + om), (U / R + om) ** 2 + grav * hav / R**2]):
            close(d[j], torch.zeros_like(d[j]), f"tendency {j} of a balanced flow", 1e-8, scale=10 * sc)
        return
    keep = sp.clone()

    def tend(x):
        ug = oracles.isht(x, H, W, g, csphase=False)
        uv = wind(x[1:])
        a = vrtdiv(uv * (ug[1] + cor))
        b = vrtdiv(uv * ug[0])
        e = oracles.sht(ug[0] + 0.5 * (uv[0] ** 2 + uv[1] ** 2), L, Mx, g, csphase=False)
        return torch.stack([-b[1], -a[1], a[0] - lap * e])

    with sut("tendency"):
        d = s.dudtspec(sp)
    expect(torch.equal(sp, keep), "computing the tendency changed the state")
    want = tend(sp)
    for j, n in enumerate(["geopotential", "vorticity", "divergence"]):
        close(d[j], want[j], f"{n} tendency", 1e-8, scale=max(scale_of(want[j]), 1e-30))
        close(d[j][0, 0], torch.zeros((), dtype=torch.complex128), f"mean {n} tendency", 1e-10, scale=max(scale_of(want[j]), scale_of(sp[j]) * 1e-3))
    # time steps: Euler, AB2 and then AB3, with implicit hyperdiffusion of vorticity and divergence
    cfl = c["dt"] * (math.sqrt(grav * hav) * L / R + om)
    if cfl > 0.5:
        event("step too large")
        return
    with sut("time steps"):
        y = s.timestep(sp, c["steps"])
    expect(torch.equal(sp, keep), "time stepping changed the initial state")
    hd = torch.exp(-c["dt"] / 2 / 3600.0 * (lap / lap[-1]) ** 4)
    x, hist = sp, []
    for n in range(c["steps"]):
        hist.append(tend(x))
        k = hist[-1], hist[-2] if n > 0 else hist[-1], (hist[-3] if n > 1 else (hist[-1] if n == 1 else hist[-1]))
        x = x + c["dt"] * (23 * k[0] - 16 * k[1] + 5 * k[2]) / 12
        x = torch.cat([x[:1], hd * x[1:]])
    for j, n in enumerate(["geopotential", "vorticity", "divergence"]):
        close(y[j], x[j], f"{n} after {c['steps']} steps", 1e-7, scale=max(scale_of(x[j]), 1e-30))
    close(y[0][0, 0], sp[0][0, 0], "total mass", 1e-10, scale=float(sp[0][0, 0].abs()))
