"""C13: the transposed DISCO convolution scatters every input point through the same filters with its own normalisation; gradients included."""
from checks.discocommon import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = filter basis and shape x normalisation x grid pair x cutoff x channels x groups x implementation x data; non-trivial: some filter is non-zero at more than one point and nlon_in >= 2"
BUDGET = {"quick": {"shards": 8, "examples": 220}, "thorough": {"shards": 8, "examples": 3000}}
ASSUMPTIONS = [
    "cases where a grid point lies within 1e-6 of the edge of the support, or whose filter direction is undefined, are discarded",
    "filters whose normalisation sum is close to zero get weight 0 (ill conditioned)",
]


def strategy(tier):
    return st.tuples(layer_strategy(8 if tier == "quick" else 18, transpose=True), st.fixed_dictionaries({"impl": st.sampled_from(["optimized", "optimized", "reference"]), "threads": st.sampled_from([1, 1, 4])})).map(
        lambda t: {**t[0], **t[1]}
    )


_nt = {}


def nontrivial(c):
    return _nt.get("v", False)


def check(c):
    torch.set_num_threads(c["threads"])
    try:
        _check(c)
    finally:
        torch.set_num_threads(1)


def _check(c):
    dt = dtype_of(c["dtype"])
    psi, good = dense(c, transpose=True)
    _nt["v"] = bool((psi.abs().sum((0, 1)) > 0).sum() > 1) and c["g"]["in"][1] >= 2
    event(c["k"]["basis"])
    event("mode " + c["mode"])
    event(c["impl"])
    with sut("DiscreteContinuousConvTransposeS2"):
        m = make(th.DiscreteContinuousConvTransposeS2, c, transpose=True, optimized_kernel=c["impl"] == "optimized")
    w, b = set_params(m, c, good, dt)
    x = layout(field([c["B"], c["groups"] * c["ci"]] + c["g"]["in"], c["seed"], c["kind"], dt), c["layout"]).detach()
    x0 = x.clone()
    x.requires_grad_(True)
    with sut("forward"):
        y = m(x)
    expect(torch.equal(x.detach(), x0), "the input was modified")
    expect(y.dtype == dt, f"dtype {y.dtype}")
    xr, wr = x0.double().requires_grad_(True), w.clone().requires_grad_(True)
    br = b.clone().requires_grad_(True) if b is not None else None
    ref = D.conv_transpose(xr, psi, wr, br, c["groups"])
    mag = D.conv_transpose(x0.double().abs(), psi.abs(), w.abs(), b.abs() if b is not None else None, c["groups"])
    tol = psi_tol(c, dt)
    close(y, ref, "transposed DISCO convolution", tol, scale=scale_of(mag))
    u = field(y.shape, c["seed"] + 7)
    with sut("backward"):
        got = torch.autograd.grad(y, [x, m.weight] + ([m.bias] if b is not None else []), grad_outputs=u.to(dt))
    want = torch.autograd.grad(ref, [xr, wr] + ([br] if b is not None else []), grad_outputs=u)
    xa, wa = x0.double().abs().requires_grad_(True), w.abs().requires_grad_(True)
    amag = torch.autograd.grad(D.conv_transpose(xa, psi.abs(), wa, None, c["groups"]), [xa, wa], grad_outputs=u.abs())
    amag = list(amag) + [u.abs().sum((0, 2, 3))]
    for n, p, q, a in zip(["input", "weight", "bias"], got, want, amag):
        if n == "weight":
            p, q, a = p * good, q * good, a * good
        close(p, q, f"gradient of the {n}", 3 * tol, scale=max(scale_of(a), 1e-30))
