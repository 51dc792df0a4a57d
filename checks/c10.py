"""C10: spectral convolution equals transform - degree-wise channel mixing - inverse transform, and so do its gradients."""
import math

from checks.sphcommon import *  # noqa: F401,F403
from lib import oracles as O
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = in/out shapes and grids x channels x groups x bias x dtype x data; non-trivial: lmax >= 2 and more than one channel in or out"
BUDGET = {"quick": {"shards": 8, "examples": 390}, "thorough": {"shards": 8, "examples": 2500}}
ASSUMPTIONS = ["the module computes in single precision", "torch.compile runs in eager fallback (TORCHDYNAMO_DISABLE=1)"]


def strategy(tier):
    big = 14 if tier == "quick" else 40
    sh = weighted((15, st.tuples(st.one_of(st.integers(2, 7), st.integers(2, big)), st.one_of(st.integers(2, 9), st.integers(2, 2 * big))).map(list)), (1, st.tuples(st.integers(big, 90), st.integers(2 * big, 180)).map(list)))
    return st.fixed_dictionaries(
        {
            "in": sh,
            "out": sh,
            "grid_in": st.sampled_from(GRIDS3),
            "grid_out": st.sampled_from(GRIDS3),
            "groups": st.sampled_from([1, 1, 2, 3, 4]),
            "ci": weighted((18, st.integers(1, 3)), (2, st.integers(4, 20)), (1, st.integers(21, 72))),
            "co": weighted((18, st.integers(1, 3)), (2, st.integers(4, 20)), (1, st.integers(21, 72))),
            "bias": st.booleans(),
            "B": st.integers(1, 3),
            "dtype": st.sampled_from(["f32", "f32", "f64", "bf16"]),
            "layout": st.sampled_from(LAYOUTS),
            "kind": kinds(),
            "seed": seeds(),
            "mode": st.sampled_from(["train", "eval"]),
        }
    )


def _L(c):
    a = min(expected_trunc(*c["in"], None, None, c["grid_in"]))
    b = min(expected_trunc(*c["out"], None, None, c["grid_out"]))
    return min(a, b)


def nontrivial(c):
    return _L(c) >= 2 and c["groups"] * max(c["ci"], c["co"]) > 1


def check(c):
    L = _L(c)
    G, ci, co = c["groups"], c["groups"] * c["ci"], c["groups"] * c["co"]
    event(f"groups{G}")
    event("bias" if c["bias"] else "nobias")
    dt = dtype_of(c["dtype"])
    torch.manual_seed(c["seed"])
    with sut("SpectralConvS2"):
        m = th.SpectralConvS2(tuple(c["in"]), tuple(c["out"]), ci, co, num_groups=G, grid_in=c["grid_in"], grid_out=c["grid_out"], bias=c["bias"])
    m.train(c["mode"] == "train")
    expect(m.lmax == L and m.mmax == L, f"truncation {(m.lmax, m.mmax)}, expected {L}")
    w = m.weight
    expect(tuple(w.shape) == (G, c["ci"], c["co"], L), f"weight shape {tuple(w.shape)}")
    if c["bias"]:
        with torch.no_grad():
            m.spectral_bias.copy_(coeffs([1, ci], L, L, c["seed"] + 3, "normal", torch.complex64))
    x = layout(field([c["B"], ci] + c["in"], c["seed"], c["kind"], dt), c["layout"]).detach()
    x0 = x.clone()
    x.requires_grad_(True)
    with sut("forward"):
        y = m(x)
    expect(torch.equal(x.detach(), x0), "the input was modified")
    expect(y.dtype == dt, f"dtype {y.dtype}")
    # dense reference in double precision, differentiated by autograd
    xr = x0.double().requires_grad_(True)
    wr = w.detach().to(torch.complex128).requires_grad_(True)
    cf = O.sht(xr, L, L, c["grid_in"])
    br = None
    if c["bias"]:
        br = m.spectral_bias.detach().to(torch.complex128).requires_grad_(True)
        _, qw, _ = O.nodes(c["in"][0], c["grid_in"])
        integ = (xr * qw[:, None]).sum((-1, -2)) * 2 * math.pi / c["in"][1]
        cf = cf + integ[..., None, None] * br
    z = torch.einsum("bgilm,giol->bgolm", cf.reshape(c["B"], G, c["ci"], L, L), wr).reshape(c["B"], co, L, L)
    ref = O.isht(z, *c["out"], c["grid_out"])
    s = max(scale_of(ref), scale_of(cf.detach()) * scale_of(w.detach()) * 0.3, 1e-30)
    # rounding is relative to the sums of magnitudes: an integral of a signed field can cancel almost completely
    _, qn, _ = O.nodes(c["in"][0], c["grid_in"])
    qn = qn[:, None] * 2 * math.pi / c["in"][1]
    absint, wmax = float((x0.double().abs() * qn).sum((-1, -2)).max()), scale_of(w.detach())
    bmax = 0.3 + (scale_of(m.spectral_bias.detach()) if c["bias"] else 0.0)
    s = max(s, 0.1 * absint * bmax * wmax)
    tol = {torch.float32: 2e-5, torch.float64: 2e-5, torch.bfloat16: 1.5e-2}[dt]
    close(y, ref, "spectral convolution", tol, scale=s)
    if dt == torch.bfloat16:
        return
    u = field(y.shape, c["seed"] + 11, "normal", torch.float64)
    ins = [x, w] + ([m.spectral_bias] if c["bias"] else [])
    rin = [xr, wr] + ([br] if c["bias"] else [])
    with sut("backward"):
        got = torch.autograd.grad(y, ins, grad_outputs=u.to(dt))
    want = torch.autograd.grad(ref, rin, grad_outputs=u)
    usum = 0.03 * float(u.abs().sum((-1, -2)).max())
    floor = [usum * wmax * bmax * float(qn.abs().max()), usum * absint * bmax, usum * absint * wmax]
    for name, a, b, fl in zip(["input", "weight", "bias"], got, want, floor):
        expect(a.shape == b.shape, f"gradient of {name}: shape {tuple(a.shape)}")
        close(a, b, f"gradient of the {name}", 5e-5, scale=max(scale_of(b), fl, 1e-30))
