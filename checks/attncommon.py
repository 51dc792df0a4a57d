"""Shared generators for the attention checks."""
import math

from lib import attn_oracle as A
from lib import oracles as O
from lib.common import *  # noqa: F401,F403

ALL_GRIDS = GRIDS3 + ["equiangular-trapezoidal"]


@st.composite
def attn_strategy(draw, hi, upsample_ok=True, mult_max=6):
    nl = lambda: draw(st.one_of(st.integers(2, 5), st.integers(2, hi)))  # noqa: E731
    a, b = nl(), nl()
    w, mult = draw(st.one_of(st.integers(1, 5), st.integers(1, hi))), draw(weighted((3, st.integers(1, 3)), (1, st.integers(4, mult_max))))
    # now and then a thin, wide pair of grids: the kernels work on blocks of output longitudes
    wide = draw(weighted((5, st.just(False)), (1, st.just(True))))
    if wide:
        a, b = 2 + a % 2, 2 + b % 2
        mult = 1 + mult % 2
        w = draw(weighted((9, st.integers(60, 140)), (1, st.integers(140, 300)))) // (mult if draw(st.booleans()) else 1)
    mode = draw(st.sampled_from(["self", "down", "down", "up", "up"] if upsample_ok else ["self", "down"]))
    if mode == "self":
        i = o = [a, w]
    elif mode == "down":
        i, o = [a, w * mult], [b, w]
    else:
        i, o = [a, w], [b, w * mult]
    # and a fine input grid with few output points: the smallest cells of a fine grid are tiny
    if not wide and mode == "down" and draw(weighted((11, st.just(False)), (1, st.just(True)))):
        wide, o = True, [2 + b % 3, 1 + w % 4]
        i = [draw(st.integers(20, 64)), o[1] * draw(st.integers(12, 32))]
    # and many output latitudes
    if not wide and draw(weighted((15, st.just(False)), (1, st.just(True)))):
        wide, n = True, draw(st.integers(8, 40))
        o = [n, o[1]]
        i = o if mode == "self" else i
    gi = draw(st.sampled_from(ALL_GRIDS))
    go = gi if mode == "self" else draw(st.sampled_from(ALL_GRIDS))
    heads = draw(weighted((15, st.sampled_from([1, 1, 2, 3, 4])), (1, st.sampled_from([5, 8, 12, 16]))))
    # (the reference implementation loops in Python: small grids only)
    impl = draw(st.sampled_from(["optimized"] if wide else ["optimized", "optimized", "reference"]))
    return {
        "in": i,
        "out": o,
        "grid_in": gi,
        "grid_out": go,
        "heads": heads,
        "ci": draw(weighted((22, st.integers(1, 5)), (2, st.integers(6, 20)), (1, st.integers(21, 72)))),
        "kc": draw(weighted((24, st.sampled_from([None, None, 1, 2, 3, 4, 5, 9, 17])), (1, st.integers(18, 72)))),
        "oc": draw(weighted((24, st.sampled_from([None, None, 1, 2, 3, 4, 5, 9, 17])), (1, st.integers(18, 72)))),
        "qknorm": draw(st.booleans()),
        "bias": draw(st.booleans()),
        "scale": draw(st.sampled_from(["default", "default", "float", "tensor"])),
        "cut": draw(st.one_of(st.none(), st.floats(0.7, 3.5))),
        "args": draw(st.sampled_from((["self", "key_is_query", "value_is_query", "value_omitted"] if mode == "self" else []) + ["qkv", "qkv", "qk_shared"])),
        "B": draw(weighted((7, st.integers(1, 2)), (1, st.integers(3, 6)))),
        # the compiled neighbourhood kernels reject double precision
        "dtype": draw(st.sampled_from(["f32", "f64"] if (impl == "reference" or not upsample_ok) else ["f32"])),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "kind": draw(st.sampled_from(["normal", "normal", "offset", "const", "tiny", "delta", "smooth", "zonal", "part"])),
        "gain": draw(st.sampled_from([1.0, 10.0, -10.0] if wide else [1.0, 1.0, 1.0, 10.0, -10.0, 40.0, -40.0])),
        "impl": impl,
        "threads": draw(st.sampled_from([1, 1, 1, 1, 1, 4, 2, 7])),
        # which inputs require gradients (bit set), and whether the parameters do
        "need": draw(st.sampled_from([7, 7, 7, 0, 1, 2, 3, 4, 5, 6])),
        "frozen": draw(st.sampled_from([False, False, True])),
        "seed": draw(seeds()),
    }


def channels(c):
    h = c["heads"]
    ci = c["ci"] * h if (c["kc"] is None or c["oc"] is None) else c["ci"]
    return ci, (None if c["kc"] is None else c["kc"] * h), (None if c["oc"] is None else c["oc"] * h)


def upsample(c):
    return c["out"][1] % c["in"][1] == 0 and c["in"][1] % c["out"][1] != 0


def att_cutoff(c):
    n = c["in"][0] if upsample(c) else c["out"][0]
    base = math.pi / (n - 1)
    return (None, base) if c["cut"] is None else (min(c["cut"] * base, 3.1),) * 2


def scale_arg(c, kdim, dt):
    if c["scale"] == "default":
        return None, 1 / math.sqrt(kdim)
    if c["scale"] == "float":
        return 0.37, 0.37
    return torch.tensor(0.81, dtype=dt), float(torch.tensor(0.81, dtype=dt).double())


def randomise(m, c, dt):
    """Random parameters (biases and norm weights are zero initially) and their double copies."""
    m.to(dt)
    p = {}
    with torch.no_grad():
        for i, (n, t) in enumerate(sorted(m.named_parameters())):
            if "bias" in n or "norm" in n:
                t.copy_(0.5 * field(t.shape, c["seed"] + 20 + i))
            if n in ("q_weights", "k_weights") and n == "q_weights":
                t.mul_(c["gain"])
            p[n] = t.detach().double()
    return p


def inputs(c, ci, dt):
    """Distinct leaf tensors and the call arguments built from them (with the aliasing the case asks for)."""
    same = c["in"] == c["out"]
    q = layout(field([c["B"], ci] + c["out"], c["seed"], c["kind"], dt), c["layout"]).detach()
    # the three inputs need not share a memory layout
    j = LAYOUTS.index(c["layout"])
    k = layout(field([c["B"], ci] + c["in"], c["seed"] + 1, c["kind"], dt), LAYOUTS[(j + c["seed"] % 3) % len(LAYOUTS)]).detach()
    v = layout(field([c["B"], ci] + c["in"], c["seed"] + 2, c["kind"], dt), LAYOUTS[(j + c["seed"] // 3 % 3) % len(LAYOUTS)]).detach()
    if same:
        if c["args"] == "self":
            return [q], (0,), (0, 0, 0)
        if c["args"] == "key_is_query":
            return [q, v], (0, 0, 1), (0, 0, 1)
        if c["args"] == "value_is_query":
            return [q, k], (0, 1, 0), (0, 1, 0)
        if c["args"] == "value_omitted":
            return [q, k], (0, 1), (0, 1, 0)
    if c["args"] == "qk_shared":
        return [q, k], (0, 1, 1), (0, 1, 1)
    return [q, k, v], (0, 1, 2), (0, 1, 2)


def run(c, neighbourhood, grads):
    import torch_harmonics as th

    dt = dtype_of(c["dtype"])
    ci, kc, oc = channels(c)
    kdim = (ci if kc is None else kc) // c["heads"]
    arg, val = scale_arg(c, kdim, dt)
    torch.manual_seed(c["seed"])
    if neighbourhood:
        ca, cut = att_cutoff(c)
        mask = A.neighbours(c["in"], c["out"], c["grid_in"], c["grid_out"], cut)
        logw = torch.log(A.quad(c["in"], c["grid_in"]))
        if bool((A.quad(c["in"], c["grid_in"]) <= 0).any()):
            raise Discard("non-positive quadrature weight")
        with sut("NeighborhoodAttentionS2"):
            m = th.NeighborhoodAttentionS2(
                ci, tuple(c["in"]), tuple(c["out"]), grid_in=c["grid_in"], grid_out=c["grid_out"], num_heads=c["heads"], scale=arg, use_qknorm=c["qknorm"],
                bias=c["bias"], theta_cutoff=ca, k_channels=kc, out_channels=oc, optimized_kernel=c["impl"] == "optimized",
            )
    else:
        mask = None
        logw = torch.log(A.quad(c["in"], c["grid_in"]))
        if bool((A.quad(c["in"], c["grid_in"]) <= 0).any()):
            raise Discard("non-positive quadrature weight")
        with sut("AttentionS2"):
            m = th.AttentionS2(
                ci, c["heads"], tuple(c["in"]), tuple(c["out"]), grid_in=c["grid_in"], grid_out=c["grid_out"], scale=arg, use_qknorm=c["qknorm"], bias=c["bias"],
                k_channels=kc, out_channels=oc, drop_rate=c.get("drop", 0.0),
            )
            if c.get("drop"):
                m.eval()
    p = randomise(m, c, dt)
    leaves, call, full = inputs(c, ci, dt)
    before = [t.clone() for t in leaves]
    need = [i for i in range(len(leaves)) if c.get("need", 7) >> i & 1]
    frozen = c.get("frozen", False) and len(need) > 0
    if grads:
        for i in need:
            leaves[i].requires_grad_(True)
        if frozen:
            m.requires_grad_(False)
    with sut("forward"), torch.set_grad_enabled(grads):
        y = m(*[leaves[i] for i in call])
    for t, b in zip(leaves, before):
        expect(torch.equal(t.detach(), b), "an input was modified")
    expect(y.dtype == dt, f"dtype {y.dtype}")
    rl = [b.double().requires_grad_(grads) for b in before]
    rp = {n: t.clone().requires_grad_(grads) for n, t in p.items()}
    eps = torch.finfo(dt).eps
    ref, top = A.attention(*[rl[i] for i in full], rp, c["heads"], val, logw, mask, c["out"], eps)
    amp = 1.0 + 0.05 * top
    # magnitude that bounds rounding: max |value projection| through the output projection
    V = torch.einsum("bcn,oc->bno", rl[full[2]].flatten(2), rp["v_weights"].flatten(1)).detach()
    mag = (scale_of(V) + (scale_of(p["v_bias"]) if "v_bias" in p else 0)) * float(p["proj_weights"].abs().sum(1).max()) + (scale_of(p["proj_bias"]) if "proj_bias" in p else 0)
    # the neighbourhood kernels compute in single precision for every dtype
    tol = (3e-5 if dt == torch.float32 or neighbourhood else 3e-6) * amp
    close(y, ref, "attention output", tol, scale=max(mag, 1e-30))
    if not grads:
        return
    if top > 2000 and dt == torch.float32:
        raise Discard("logits too large for single-precision gradients")
    event("logits > 88" if top > 88 else "logits <= 88")
    u = field(y.shape, c["seed"] + 9)
    names = [] if frozen else sorted(p)
    event("some inputs" if len(need) < len(leaves) else "all inputs")
    event("frozen" if frozen else "parameters")
    mp = dict(m.named_parameters())
    with sut("backward"):
        got = torch.autograd.grad(y, [leaves[i] for i in need] + [mp[n] for n in names], grad_outputs=u.to(dt))
    want = torch.autograd.grad(ref, [rl[i] for i in need] + [rp[n] for n in names], grad_outputs=u)
    um = scale_of(u) * float(p["proj_weights"].abs().sum(0).max())
    for n, a, b in zip([f"input {i}" for i in need] + names, got, want):
        expect(a.dtype == dt, f"gradient of {n}: dtype {a.dtype}")
        # cancellation: gradients through the softmax are differences of terms of size um*|V|*|k or q|
        close(a, b, f"gradient of {n}", tol * 10, scale=max(scale_of(b), grad_scale(c, n, p, rl, full, u, um, V, val, eps), 1e-30))


def grad_scale(c, n, p, rl, full, u, um, V, val, eps):
    """Upper bound of the size of the terms whose sum is the gradient."""
    N = u.shape[0] * u.shape[2] * u.shape[3]
    x = max(scale_of(t.detach()) for t in rl)
    q = (scale_of(p["q_weights"]) + scale_of(p.get("q_bias", torch.zeros(1)))) * (1 + x)
    k = (scale_of(p["k_weights"]) + scale_of(p.get("k_bias", torch.zeros(1)))) * (1 + x)
    s = um * (scale_of(V) + 1) * val * (q + k + 1) * (1 + x)
    if c["qknorm"]:
        # the derivative of the normalisation grows like one over the norm, and its two terms nearly cancel for one or two channels
        for w, i in (("q", full[0]), ("k", full[1])):
            z = torch.einsum("bcn,oc->bno", rl[i].detach().flatten(2), p[w + "_weights"].flatten(1)) + (p[w + "_bias"] if w + "_bias" in p else 0.0)
            r = z.reshape(*z.shape[:2], c["heads"], -1).pow(2).mean(-1).sqrt().min()
            s = s * max(1.0, 0.3 / max(float(r), math.sqrt(eps)))
    # long sums over the keys accumulate rounding errors
    s = s * max(1.0, math.sqrt(rl[full[1]].shape[-2:].numel() / 100))
    return 0.01 * s * (math.sqrt(N) if not n.startswith("input") else 1.0)
