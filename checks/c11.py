"""C11: the DISCO convolution equals the quadrature sum of its filters over the support, for every basis, normalisation, grid pair and cutoff."""
from checks.discocommon import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = filter basis and shape x normalisation x grid pair x cutoff x channels x groups x data; non-trivial: at least one filter is non-zero at some output latitude beyond the centre point, and nlon_out >= 2"
BUDGET = {"quick": {"shards": 8, "examples": 900}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = [
    "cases where a grid point lies within 1e-6 of the edge of the support, or whose filter direction is undefined, are discarded",
    "filters whose normalisation sum is close to zero get weight 0 (ill conditioned)",
    "the support radius is the cutoff enlarged by 0.1 percent, as the code documents (theta_eps)",
]


def strategy(tier):
    return layer_strategy(9 if tier == "quick" else 20)


_nt = {}


def nontrivial(c):
    return _nt.get("v", False)


def check(c):
    dt = dtype_of(c["dtype"])
    psi, good = dense(c)
    K = psi.shape[0]
    _nt["v"] = bool((psi[:, :, :, :].abs().sum((0, 1)) > 0).sum() > 1) and c["g"]["out"][1] >= 2
    event(c["k"]["basis"])
    event("mode " + c["mode"])
    with sut("DiscreteContinuousConvS2"):
        m = make(th.DiscreteContinuousConvS2, c)
    expect(tuple(m.weight.shape) == (c["groups"] * c["co"], c["ci"], K), f"weight shape {tuple(m.weight.shape)}, expected kernel size {K}")
    w, b = set_params(m, c, good, dt)
    x = layout(field([c["B"], c["groups"] * c["ci"]] + c["g"]["in"], c["seed"], c["kind"], dt), c["layout"])
    x0 = x.clone()
    with sut("forward"), torch.no_grad():
        y = m(x)
    expect(torch.equal(x, x0), "the input was modified")
    expect(y.dtype == dt, f"dtype {y.dtype}")
    ref = D.conv(x0.double(), psi, w, b, c["groups"], c["g"]["out"][1])
    mag = D.conv(x0.double().abs(), psi.abs(), w.abs(), b.abs() if b is not None else None, c["groups"], c["g"]["out"][1])
    tol = psi_tol(c, dt)
    close(y, ref, "DISCO convolution", tol, scale=scale_of(mag))
