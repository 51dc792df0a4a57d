"""C32: a new layer's parameters are independent draws from the documented initialisation, in the serial and in the distributed layers."""
import math

import torch
import torch_harmonics as th
from hypothesis import strategies as st

from lib import distpool as DP
from lib.common import GRIDS3, seeds
from lib.harness import Violation, event, expect, sut

RULE = "case = learnable layer (serial, or distributed on a process grid) x channels, groups, heads, kernel, grids x seed; non-trivial: input and output (or key) channels differ, or several groups, or several ranks"
BUDGET = {"quick": {"shards": 4, "examples": 650, "hang_s": 200}, "thorough": {"shards": 4, "examples": 4000, "hang_s": 300}}
WORLD = {"quick": 4, "thorough": 6}
Z = 7.5  # a standard normal exceeds this with probability 6e-14
ASSUMPTIONS = [f"distributional statements are tested per slice of every parameter at {Z} standard deviations (false-alarm probability below 1e-8 per run)", "ranks are seeded differently, as the documentation of the training scripts does for split parameters"]

BASES = [("piecewise linear", 3), ("piecewise linear", (2, 3)), ("harmonic", (2, 3)), ("fourier-bessel", (2, 2)), ("zernike", 2), ("morlet", (2, 2)), ("zernike", 1), ("piecewise linear", (1, 4))]


def start(tier):
    DP.start(WORLD[tier])


def stop():
    DP.stop()


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "layer": st.sampled_from(["sconv", "sconv", "conv", "convt", "attn", "nattn"]),
            "ci": st.integers(1, 24),
            "co": st.integers(1, 24),
            "ck": st.one_of(st.none(), st.integers(1, 24)),
            "groups": st.integers(1, 4),
            "opt": st.integers(0, len(BASES) - 1),
            "ga": st.sampled_from(GRIDS3),
            "nlat": st.integers(4, 12),
            "nlon": st.integers(4, 12),
            "bias": st.booleans(),
            "qknorm": st.booleans(),
            "grid": st.one_of(st.none(), st.sampled_from(DP.grids(WORLD[tier])).map(list)),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["groups"] > 1 or c["ci"] != c["co"] or c["grid"] not in (None, [1, 1])


def make(c, dist):
    if dist:
        import torch_harmonics.distributed as thd

        P = lambda n: getattr(thd, "Distributed" + n)  # noqa: E731
    else:
        P = lambda n: getattr(th, n)  # noqa: E731
    G, s = c["groups"], (c["nlat"], c["nlon"])
    ci, co = G * c["ci"], G * c["co"]
    k = c["layer"]
    if k == "sconv":
        return P("SpectralConvS2")(s, s, ci, co, num_groups=G, grid_in=c["ga"], grid_out=c["ga"], bias=c["bias"])
    if k in ("conv", "convt"):
        b, ks = BASES[c["opt"]]
        return P("DiscreteContinuousConvS2" if k == "conv" else "DiscreteContinuousConvTransposeS2")(ci, co, s, s, ks, basis_type=b, groups=G, grid_in=c["ga"], grid_out=c["ga"], bias=c["bias"], theta_cutoff=1.5)
    ck = None if c["ck"] is None else G * c["ck"]
    if k == "attn":
        return th.AttentionS2(ci, G, s, s, grid_in=c["ga"], use_qknorm=c["qknorm"], bias=c["bias"], k_channels=ck, out_channels=co)
    return P("NeighborhoodAttentionS2")(ci, s, s, grid_in=c["ga"], grid_out=c["ga"], num_heads=G, use_qknorm=c["qknorm"], bias=c["bias"], k_channels=ck, out_channels=co)


def wanted(c, m):
    """name -> ('normal', std per entry) or ('uniform', bound) or ('zero',); m only gives the shapes."""
    G, ci, co = c["groups"], c["groups"] * c["ci"], c["groups"] * c["co"]
    k = c["layer"]
    if k == "sconv":
        shape = (G, ci // G, co // G, m.lmax)
        sd = torch.full((m.lmax,), math.sqrt(G / ci), dtype=torch.float64)
        sd[0] *= math.sqrt(2.0)  # the degree-zero coefficient is real
        r = {"weight": (shape, "normal", sd / math.sqrt(2.0))}
        if c["bias"]:
            r["spectral_bias"] = ((1, ci, m.lmax, m.mmax), "zero", None)
        return r
    if k in ("conv", "convt"):
        K = m.filter_basis.kernel_size
        r = {"weight": ((co, ci // G, K), "normal", torch.full((K,), math.sqrt(G / ci / K), dtype=torch.float64))}
        if c["bias"]:
            r["bias"] = ((co,), "zero", None)
        return r
    ck = ci if c["ck"] is None else G * c["ck"]
    qk, v, pr = math.sqrt(6.0 / (ci + ck)), math.sqrt(6.0 / (ci + co)), math.sqrt(3.0 / co)
    r = {
        "q_weights": ((ck, ci, 1, 1), "uniform", qk),
        "k_weights": ((ck, ci, 1, 1), "uniform", qk),
        "v_weights": ((co, ci, 1, 1), "uniform", v),
        "proj_weights": ((co, co, 1, 1), "uniform", pr),
    }
    if c["bias"]:
        r.update({"q_bias": ((ck,), "zero", None), "k_bias": ((ck,), "zero", None), "v_bias": ((co,), "zero", None), "proj_bias": ((co,), "zero", None)})
    if c["qknorm"]:
        r.update({"q_norm_weights": ((ck // G,), "zero", None), "k_norm_weights": ((ck // G,), "zero", None)})
    return r


def _chi2_z(x):
    """Wilson-Hilferty: the sum of squares of n standard normals as a standard normal."""
    n = x.numel()
    q = float((x * x).sum()) / n
    return (q ** (1 / 3) - (1 - 2 / (9 * n))) / math.sqrt(2 / (9 * n))


def _slices(x):
    yield "all entries", x
    for d in range(x.dim()):
        if 1 < x.shape[d]:
            for i in range(x.shape[d]):
                yield f"index {i} of axis {d}", x.select(d, i)


def statistics(where, name, x, kind, par):
    x = x.detach()
    if kind == "zero":
        expect(bool((x == 0).all()), f"{where}: {name} does not start at zero")
        return
    if kind == "normal":
        x = (torch.view_as_real(x.to(torch.complex128)).movedim(-1, 0) if x.is_complex() else x.double()) / par
        for lab, s in _slices(x):
            n = s.numel()
            z = float(s.sum()) / math.sqrt(n)
            if abs(z) > Z:
                raise Violation(f"{where}: {name}, {lab}: mean of {n} entries is {z:.1f} standard errors from zero")
            if n >= 4:
                z = _chi2_z(s)
                if abs(z) > Z:
                    raise Violation(f"{where}: {name}, {lab}: variance of {n} entries is {float((s * s).mean()):.3f} times the documented one ({z:.1f} sigma)")
        flat = x.reshape(-1)
    else:
        flat = (x.double() / par).reshape(-1)
        n = flat.numel()
        expect(float(flat.abs().max()) <= 1 + 1e-6, f"{where}: {name} exceeds its bound {par:.4f} by the factor {float(flat.abs().max()):.3f}")
        top = float(flat.abs().max())
        if n >= 50 and top ** n < 1e-12:
            raise Violation(f"{where}: {name} stays within {top:.3f} of its bound in {n} draws")
        z = float(flat.sum()) / math.sqrt(n / 3)
        if n >= 20 and abs(z) > Z:
            raise Violation(f"{where}: {name}: mean is {z:.1f} standard errors from zero")
        z = (float((flat**2).mean()) - 1 / 3) / math.sqrt(4 / 45 / n)
        if n >= 200 and abs(z) > Z:
            raise Violation(f"{where}: {name}: variance is {3 * float((flat**2).mean()):.3f} times the documented one ({z:.1f} sigma)")
    n = flat.numel()
    if n >= 50:
        expect(torch.unique(flat).numel() > 0.95 * n, f"{where}: entries of {name} repeat")


def rank_run(case, ctx):
    from lib import ringops

    ringops.install()
    torch.manual_seed(case["seed"] + 7919 * ctx.ipol)
    m = make(case, True)
    return {"p": {n: p.detach().clone() for n, p in m.named_parameters()}, "grad": all(p.requires_grad for p in m.parameters()), "L": m.lmax if case["layer"] == "sconv" else 0}


def check(c):
    k = c["layer"]
    event(k)
    if c["grid"] is not None and k != "attn":
        pol, az = c["grid"]
        c = {**c, "nlat": max(c["nlat"], 2 * pol), "nlon": max(c["nlon"], 2 * az)}
        with sut("serial layer"):
            ser = make(c, False)
        if k == "sconv":
            if ser.lmax < max(pol, az):
                from lib.harness import Discard

                raise Discard("fewer degrees than ranks")
        elif k == "nattn":
            c = {**c, "nlat": max(c["nlat"], 4 * pol)}
        event(f"grid {pol}x{az}")
        where = f"Distributed {k} on the {pol}x{az} grid"
        res = DP.run("checks.c32", "rank_run", pol, az, c, 0)
        expect(all(r["grad"] for r in res), f"{where}: a parameter does not require gradients")
        got = {}
        for n in res[0]["p"]:
            parts = [r["p"][n] for r in res]
            if k == "sconv":
                got[n] = torch.cat([parts[i * az] for i in range(pol)], dim=-1) if n == "weight" else DP.assemble(parts, pol, az)
            else:
                got[n] = parts[0]
        m = ser
    else:
        torch.manual_seed(c["seed"])
        with sut("construction"):
            m = make(c, False)
        torch.manual_seed(c["seed"])
        with sut("construction"):
            again, other = make(c, False), make(c, False)
        where = f"{k} with {c['groups'] * c['ci']} to {c['groups'] * c['co']} channels in {c['groups']} groups"
        got = dict(m.named_parameters())
        for (n, p), (_, a), (_, o) in zip(m.named_parameters(), again.named_parameters(), other.named_parameters()):
            expect(p.requires_grad, f"{where}: {n} does not require gradients")
            expect(torch.equal(p, a), f"{where}: {n} is not reproducible from the seed")
            expect(not bool(p.any()) or not torch.equal(p, o), f"{where}: {n} is the same in two layers")
    w = wanted(c, m)
    expect(set(w) == set(got), f"{where}: parameters {sorted(got)}, expected {sorted(w)}")
    for n, (shape, kind, par) in w.items():
        expect(tuple(got[n].shape) == tuple(shape), f"{where}: {n} has shape {tuple(got[n].shape)}, expected {tuple(shape)}")
        statistics(where, n, got[n], kind, par)
    names = [n for n in w if w[n][1] != "zero"]
    for i, a in enumerate(names):
        for b in names[:i]:
            x, y = got[a].detach().reshape(-1), got[b].detach().reshape(-1)
            n = min(x.numel(), y.numel())
            if n >= 3:
                expect(not torch.allclose(x[:n] / x[0], y[:n] / y[0], rtol=1e-4), f"{where}: {a} and {b} share their draws")
