"""C01: one-dimensional quadrature rules and the latitude / longitude nodes derived from them."""
import math

import numpy as np
import scipy.special as sp

from lib import oracles as O
from lib.common import *  # noqa: F401,F403
from torch_harmonics.quadrature import (
    clenshaw_curtiss_weights,
    legendre_gauss_weights,
    lobatto_weights,
    precompute_latitudes,
    precompute_longitudes,
    trapezoidal_weights,
)

RULE = "case = rule x n x interval [a,b] (or latitude/longitude nodes) with a random polynomial of the highest exact degree; non-trivial: n >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 260}, "thorough": {"shards": 8, "examples": 6000}}
ASSUMPTIONS = ["n up to 1000, mostly up to 96 (quick) / 700 (thorough)"]


def strategy(tier):
    big = 96 if tier == "quick" else 700
    n = weighted((7, st.integers(2, 12)), (7, st.integers(2, big)), (2, st.integers(big, 400)), (1, st.integers(400, 1000)))
    ab = st.tuples(st.floats(-9, 9, width=32), st.floats(0.015625, 12, width=32)).map(lambda t: [float(t[0]), float(t[0] + t[1])])
    return st.fixed_dictionaries(
        {
            "rule": st.sampled_from(["legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal", "periodic", "lats", "lons"]),
            "grid": st.sampled_from(GRIDS3 + ["equiangular-trapezoidal"]),
            "n": n,
            "ab": st.one_of(st.just([-1.0, 1.0]), st.just([0.0, 1.0]), ab),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["n"] >= 3


def check(c):
    n, (a, b) = c["n"], c["ab"]
    rule = c["rule"]
    event(rule)
    if rule == "lons":
        with sut("precompute_longitudes"):
            l = precompute_longitudes(n)
        expect(l.dtype == torch.float64, "longitudes not float64")
        close(l, O.lons(n), "longitudes", 1e-14, scale=2 * math.pi)
        return
    if rule == "lats":
        with sut("precompute_latitudes"):
            th, w = precompute_latitudes(n, grid=c["grid"])
        x, wr, thr = O.nodes(n, c["grid"])
        expect(bool((th[1:] > th[:-1]).all()), "latitudes are not strictly increasing from the north pole")
        # colatitude from arccos loses digits next to the poles
        tol = 1e-14 / torch.clamp(torch.sin(thr), min=1e-8)
        expect(bool(((th - thr).abs() <= tol + 1e-13).all()), lambda: f"latitudes off by {float((th - thr).abs().max()):.2e}")
        close(w, wr, "latitude weights", 1e-11, scale=1.0)
        return
    fn = {
        "legendre-gauss": lambda: legendre_gauss_weights(n, a, b),
        "lobatto": lambda: lobatto_weights(n, a, b),
        "equiangular": lambda: clenshaw_curtiss_weights(n, a, b),
        "equiangular-trapezoidal": lambda: trapezoidal_weights(n, a, b),
        "periodic": lambda: trapezoidal_weights(n, a, b, periodic=True),
    }[rule]
    with sut(rule):
        x, w = fn()
    L = b - a
    expect(tuple(x.shape) == (n,) and tuple(w.shape) == (n,), f"{rule}: shapes {tuple(x.shape)}, {tuple(w.shape)}")
    expect(x.dtype == torch.float64 and w.dtype == torch.float64, f"{rule}: not double precision")
    eps = 4e-13 * (1 + (abs(a) + abs(b)) / L)
    expect(bool((x[1:] > x[:-1]).all()), f"{rule}: nodes not strictly increasing")
    expect(float(x[0]) >= a - eps * L and float(x[-1]) <= b + eps * L, f"{rule}: nodes outside [a, b]")
    expect(bool((w > 0).all()), f"{rule}: non-positive weight {float(w.min()):.3e}")
    expect(abs(float(w.sum()) - L) <= 1e-12 * L * max(1, n / 10), lambda: f"{rule}: weights sum to {float(w.sum())}, not {L}")
    if rule == "periodic":
        ref = a + L * torch.arange(n, dtype=torch.float64) / n
        close(x, ref, "periodic nodes", 1e-13, scale=abs(a) + abs(b) + L)
        close(w, torch.full((n,), L / n, dtype=torch.float64), "periodic weights", 1e-13)
        return
    xr, wr, _ = O.nodes(n, rule)
    xr, wr = torch.flip(xr, (0,)), torch.flip(wr, (0,))
    close(x, a + L * (xr + 1) / 2, f"{rule}: nodes", eps, scale=L)
    close(w, wr * L / 2, f"{rule}: weights", 1e-11 * max(1.0, n / 50), scale=L * float(wr.max()) / 2)
    # exactness on a random polynomial (Legendre series on [a,b]) of the highest degree the rule integrates exactly
    deg = {"legendre-gauss": 2 * n - 1, "lobatto": 2 * n - 3, "equiangular": n - 1, "equiangular-trapezoidal": 1}[rule]
    cs = np.random.RandomState(c["seed"]).randn(deg + 1)
    xi = (2 * (x.numpy() - a) / L - 1).clip(-1, 1)
    vals = np.zeros(n)
    for k in range(deg + 1):
        vals += cs[k] * sp.eval_legendre(k, xi)
    got = float((w * torch.from_numpy(vals)).sum())
    expect(abs(got - cs[0] * L) <= 5e-11 * L * (1 + np.abs(cs).sum()), lambda: f"{rule}: not exact for degree {deg}: {got} vs {cs[0] * L}")
