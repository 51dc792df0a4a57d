"""Shared generators for the DISCO convolution checks."""
import math

from lib import disco_oracle as D
from lib.common import *  # noqa: F401,F403

NORM_MODES = ["nodal", "nodal", "mean", "support", "modal", "geometric", "none"]
ALL_GRIDS = GRIDS3 + ["equiangular-trapezoidal"]


@st.composite
def kernels(draw, big=False):
    b = draw(st.sampled_from(["piecewise linear", "piecewise linear", "harmonic", "zernike", "fourier-bessel", "morlet"]))
    if b == "piecewise linear":
        ks = draw(st.one_of(st.integers(1, 6), st.tuples(st.integers(1, 5)).map(list), st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list)))
    elif b in ("harmonic", "morlet"):
        ks = draw(st.one_of(st.integers(1, 3), st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list)))
    elif b == "zernike":
        ks = draw(st.integers(1, 4))
    else:
        ks = draw(st.one_of(st.integers(1, 2), st.tuples(st.integers(1, 3), st.integers(0, 3)).map(list)))
    return {"basis": b, "ks": ks}


def hashable(ks):
    return tuple(ks) if isinstance(ks, list) else ks


@st.composite
def geometry(draw, hi=9, transpose=False, mult_max=7, grids=None):
    """A pair of grids related as fine -> coarse (swapped for transposed layers), plus a cutoff."""
    grids = grids or ALL_GRIDS
    fine_grid = draw(weighted((14, st.just(False)), (1, st.just(True))))
    if fine_grid:
        nl = lambda: draw(st.integers(hi, 5 * hi))  # noqa: E731
    else:
        nl = lambda: draw(st.one_of(st.integers(2, 6), st.integers(2, hi)))  # noqa: E731
    nlat_f, nlat_c = nl(), nl()
    if draw(st.booleans()):
        nlat_c = nlat_f
    wc = draw(st.integers(2 * hi, 5 * hi)) if fine_grid else draw(st.one_of(st.integers(1, 6), st.integers(2, 2 * hi)))
    mult = draw(weighted((3, st.integers(1, 3)), (1, st.integers(4, max(4, mult_max)))))
    if fine_grid:
        mult = 1 + mult % 2
    elif mult > 3:
        wc = min(wc, 6)
    if draw(weighted((39, st.just(False)), (1, st.just(True)))):  # few rows, many longitudes
        nlat_f, nlat_c, mult, wc = 2 + nlat_f % 3, 2 + nlat_c % 3, 1 + mult % 2, draw(st.integers(100, 300))
    fine, coarse = [nlat_f, wc * mult], [nlat_c, wc]
    g = {
        "grid_in": draw(st.sampled_from(grids)),
        "grid_out": draw(st.sampled_from(grids)),
        "cut": draw(st.one_of(st.none(), st.floats(0.4, 3.5), st.floats(0.05, 2.0 if fine_grid else 10.0))),
    }
    g["in"], g["out"] = (coarse, fine) if transpose else (fine, coarse)
    return g


def cutoff(g, transpose=False):
    """(argument to pass, effective value)."""
    n = g["in"][0] if transpose else g["out"][0]
    base = math.pi / (n - 1)
    if g["cut"] is None:
        return None, base
    v = min(g["cut"] * base, 3.1)
    return v, v


def layer_strategy(hi, transpose=False):
    return st.fixed_dictionaries(
        {
            "k": kernels(),
            "g": geometry(hi, transpose),
            "mode": st.sampled_from(NORM_MODES),
            "groups": weighted((19, st.sampled_from([1, 1, 2, 3, 4])), (1, st.sampled_from([5, 6, 8]))),
            "ci": weighted((22, st.integers(1, 4)), (2, st.integers(5, 18)), (1, st.integers(19, 72))),
            "co": weighted((22, st.integers(1, 3)), (2, st.integers(4, 18)), (1, st.integers(19, 72))),
            "bias": st.booleans(),
            "B": weighted((11, st.integers(1, 3)), (1, st.integers(4, 9))),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "layout": st.sampled_from(LAYOUTS),
            "kind": kinds(),
            "seed": seeds(),
        }
    )


def make(cls, c, transpose=False, **kw):
    g, k = c["g"], c["k"]
    arg, _ = cutoff(g, transpose)
    torch.manual_seed(c["seed"])
    ci, co = c["groups"] * c["ci"], c["groups"] * c["co"]
    return cls(
        ci,
        co,
        tuple(g["in"]),
        tuple(g["out"]),
        hashable(k["ks"]),
        basis_type=k["basis"],
        basis_norm_mode=c["mode"],
        groups=c["groups"],
        grid_in=g["grid_in"],
        grid_out=g["grid_out"],
        bias=c["bias"],
        theta_cutoff=arg,
        **kw,
    )


def dense(c, transpose=False):
    g, k = c["g"], c["k"]
    _, cut = cutoff(g, transpose)
    if transpose:
        return D.psi_dense(g["out"], g["in"], k["basis"], k["ks"], g["grid_out"], g["grid_in"], cut, c["mode"], transpose=True)
    return D.psi_dense(g["in"], g["out"], k["basis"], k["ks"], g["grid_in"], g["grid_out"], cut, c["mode"])


def psi_tol(c, dt):
    """The basis values themselves are only single-precision accurate for zernike (factorials); single-precision sums lose with their length."""
    n = max(math.prod(c["g"]["in"]), math.prod(c["g"]["out"]))
    return (2e-5 if c["k"]["basis"] == "zernike" else 2e-6) + (0.0 if dt == torch.float64 else 1e-5 + 3e-8 * n)


def set_params(m, c, good, dt):
    """Random weights (zero on ill-conditioned kernels) and biases in the layer; returns double copies."""
    co, cg, K = m.weight.shape
    w = field([co, cg, K], c["seed"] + 1) * good.to(torch.float64)
    with torch.no_grad():
        m.weight.copy_(w)
        if c["bias"]:
            m.bias.copy_(field([co], c["seed"] + 2))
    m.to(dt)
    b = m.bias.detach().double() if c["bias"] else None
    return m.weight.detach().double(), b
