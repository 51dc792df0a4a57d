"""C12: every implementation of the DISCO convolution (compiled, fused, saved-input, plain PyTorch; any thread count) gives the same result and gradients."""
from checks.discocommon import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = layer configuration x channel ratio x which gradients are requested x thread count; non-trivial: more than one filter, non-empty support, nlon_out >= 2"
BUDGET = {"quick": {"shards": 8, "examples": 170}, "thorough": {"shards": 8, "examples": 2500}}
ASSUMPTIONS = ["CPU implementations only: the CUDA kernels cannot run here", "filters with an ill-conditioned normalisation get weight 0"]


def strategy(tier):
    extra = st.fixed_dictionaries(
        {
            "ci": weighted((14, st.sampled_from([1, 2, 3, 4, 6])), (1, st.integers(5, 40))),
            "co": weighted((14, st.sampled_from([1, 1, 2, 3])), (1, st.integers(4, 40))),
            "need": st.sampled_from(["all", "all", "input", "weight"]),
            "threads": st.sampled_from([1, 1, 3, 8]),
        }
    )
    return st.tuples(layer_strategy(8 if tier == "quick" else 18), extra).map(lambda t: {**t[0], **t[1]})


_nt = {}


def nontrivial(c):
    return _nt.get("v", False)


def check(c):
    torch.set_num_threads(c["threads"])
    try:
        _check(c)
    finally:
        torch.set_num_threads(1)


def _check(c):
    dt = dtype_of(c["dtype"])
    psi, good = dense(c)
    _nt["v"] = psi.shape[0] > 1 and bool((psi != 0).any()) and c["g"]["out"][1] >= 2
    event("few outputs" if 2 * c["co"] <= c["ci"] else "many outputs")
    event(f"threads{c['threads']}")
    event("empty row" if bool((psi.abs().sum((2, 3)) == 0).any()) else "full rows")
    x0 = field([c["B"], c["groups"] * c["ci"]] + c["g"]["in"], c["seed"], c["kind"], dt)
    ref = None
    tol = psi_tol(c, dt)
    for name, kw in (("compiled", {"optimized_kernel": True}), ("fused", {"optimized_kernel": True, "fused": True}), ("reference", {"optimized_kernel": False})):
        with sut(f"constructing the {name} layer"):
            m = make(th.DiscreteContinuousConvS2, c, **kw)
        w, b = set_params(m, c, good, dt)
        x = layout(x0, c["layout"]).detach().clone(memory_format=torch.preserve_format)
        x.requires_grad_(c["need"] != "weight")
        m.weight.requires_grad_(c["need"] != "input")
        with sut(f"{name} forward"):
            y = m(x)
        if ref is None:
            xr, wr = x0.double().requires_grad_(True), w.clone().requires_grad_(True)
            br = b.clone().requires_grad_(True) if b is not None else None
            ref = D.conv(xr, psi, wr, br, c["groups"], c["g"]["out"][1])
            u = field(ref.shape, c["seed"] + 7)
            xa, wa = x0.double().abs().requires_grad_(True), w.abs().requires_grad_(True)
            mag = D.conv(xa, psi.abs(), wa, b.abs() if b is not None else None, c["groups"], c["g"]["out"][1])
            gx, gw = torch.autograd.grad(ref, [xr, wr], grad_outputs=u, retain_graph=True)
            ax, aw = torch.autograd.grad(mag, [xa, wa], grad_outputs=u.abs())
        close(y, ref, f"{name} forward", tol, scale=scale_of(mag.detach()))
        with sut(f"{name} backward"):
            y.backward(u.to(dt))
        if c["need"] != "weight":
            expect(x.grad is not None and x.grad.dtype == dt, f"{name}: no input gradient or wrong dtype")
            close(x.grad, gx, f"{name} input gradient", 3 * tol, scale=max(scale_of(ax), 1e-30))
        if c["need"] != "input":
            expect(m.weight.grad is not None and m.weight.grad.dtype == dt, f"{name}: no weight gradient or wrong dtype")
            close(m.weight.grad * good, gw * good, f"{name} weight gradient", 3 * tol, scale=max(scale_of(aw), 1e-30))
        if b is not None:
            close(m.bias.grad, u.sum((0, 2, 3)), f"{name} bias gradient", 1e-5, scale=max(scale_of(u.abs().sum((0, 2, 3))), 1e-30))
