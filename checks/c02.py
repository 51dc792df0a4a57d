"""C02: integration over the sphere."""
import math

from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = grid x (nlat,nlon) x normalize x leading shape x dtype x data; non-trivial: at least one non-constant field with nlat >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 420}, "thorough": {"shards": 8, "examples": 5000}}
ASSUMPTIONS = ["weights are kept in single precision by design, tolerances are single precision relative to the integral of |f|"]


def strategy(tier):
    big = 40 if tier == "quick" else 160
    return st.fixed_dictionaries(
        {
            "grid": st.sampled_from(GRIDS3 + ["equiangular-trapezoidal"]),
            "nlat": weighted((9, st.integers(2, big)), (1, st.integers(big, 400))),
            "nlon": weighted((9, st.integers(1, 2 * big)), (1, st.integers(2 * big, 800))),
            "normalize": st.booleans(),
            "lead": weighted((14, st.lists(st.integers(1, 3), max_size=4)), (1, st.lists(st.integers(4, 40), min_size=1, max_size=1))),
            "dtype": st.sampled_from(["f64", "f32"]),
            "kind": kinds(),
            "layout": st.sampled_from(LAYOUTS),
            "seed": seeds(),
            "l": st.integers(0, 12),
            "m": st.integers(0, 12),
        }
    )


EXAMPLES = [
    {"grid": "legendre-gauss", "nlat": 6, "nlon": 12, "normalize": False, "lead": lead, "dtype": "f64", "kind": "normal", "layout": "contiguous", "seed": 3, "l": 2, "m": 1}
    for lead in ([], [2], [2, 3], [1, 2, 3])
]


def nontrivial(c):
    return c["nlat"] >= 3 and c["kind"] != "const"


def check(c):
    nlat, nlon = c["nlat"], c["nlon"]
    event(c["grid"])
    event(f"lead{len(c['lead'])}")
    dt = dtype_of(c["dtype"])
    with sut("QuadratureS2"):
        q = th.QuadratureS2((nlat, nlon), grid=c["grid"], normalize=c["normalize"])
    x = layout(field(c["lead"] + [nlat, nlon], c["seed"], c["kind"], dt), c["layout"])
    x0 = x.clone()
    with sut("QuadratureS2 forward"):
        y = q(x)
    expect(torch.equal(x, x0), "the input was modified")
    nodes, w, _ = O.nodes(nlat, c["grid"])
    ww = (w * 2 * math.pi / nlon / (4 * math.pi if c["normalize"] else 1.0))[:, None]
    ref = (x.double() * ww).sum((-1, -2))
    mag = (x.double().abs() * ww).sum((-1, -2)).max()
    close(y, ref, f"integral on {c['grid']}", 2e-6, scale=mag, atol=1e-30)
    # exact integrals of spherical harmonics: zero except for the constant one
    l, m = c["l"], min(c["m"], c["l"])
    exact = {"legendre-gauss": 2 * nlat - 1, "lobatto": 2 * nlat - 3, "equiangular": nlat - 1, "equiangular-trapezoidal": 1}[c["grid"]]
    # orders above the number of longitudes alias
    if l <= exact and m < nlon:
        P = O.plm(m + 1, l + 1, nlat, c["grid"])[m, l]
        lam = O.lons(nlon)
        Y = (P[:, None] * torch.cos(m * lam)[None, :]).to(dt)
        want = (math.sqrt(4 * math.pi) if (l == 0) else 0.0) / (4 * math.pi if c["normalize"] else 1.0)
        with sut("QuadratureS2 forward"):
            got = q(Y)
        expect(got.dim() == 0, f"integral of one field has shape {tuple(got.shape)}")
        expect(abs(float(got) - want) <= 4e-5 * (1 + float(P.abs().max())), lambda: f"integral of Y_{l}^{m} is {float(got)}, expected {want}")
        event("harmonic")
    # a shift in longitude does not change the integral
    s = 1 + c["seed"] % max(1, nlon)
    with sut("QuadratureS2 forward"):
        y2 = q(torch.roll(x, s, -1))
    close(y2, y.double(), "integral after a longitude shift", 4e-6, scale=mag, atol=1e-30)
