"""C30: applying a layer is a pure function of each sample: nothing else is read or changed, and samples of a batch do not interact."""
from concurrent.futures import ThreadPoolExecutor

import torch
from hypothesis import strategies as st

from checks import c23
from lib.common import LAYOUTS, close, field, layout, scale_of, seeds, weighted
from lib.harness import Discard, Violation, event, expect, sut

RULE = "case = layer and configuration x batch x memory layout x thread count x gradient mode x data; non-trivial: batch of at least two samples"
BUDGET = {"quick": {"shards": 8, "examples": 640}, "thorough": {"shards": 8, "examples": 5000}}
ASSUMPTIONS = ["batched and per-sample evaluation may differ by floating-point rounding only (2e-5 of the magnitude)", "attention without dropout"]

LAYERS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt", "attn", "nattn"]


def strategy(tier):
    d = weighted((19, st.integers(2, 8)), (1, st.integers(9, 36)))
    return st.fixed_dictionaries(
        {
            "layer": st.sampled_from(LAYERS),
            "nlat": d,
            "nlon": weighted((19, st.integers(1, 10)), (1, st.integers(11, 50))),
            "nlat2": d,
            "mult": st.integers(1, 3),
            "ci": st.integers(1, 4),
            "groups": st.integers(1, 3),
            "grid": st.integers(0, 2),
            "opt": st.integers(0, 11),
            "B": weighted((15, st.integers(1, 5)), (1, st.integers(6, 40))),
            "poison": st.sampled_from([None, None, "nan", "inf", "huge"]),
            "layout": st.sampled_from(LAYOUTS + ["expanded"]),
            "threads": st.sampled_from([1, 1, 1, 1, 2, 3]),
            "mode": st.sampled_from(["grad", "no_grad", "inference"]),
            "conc": st.sampled_from([False, False, True]),
            "dist": st.sampled_from([False, False, True]),
            "seed": seeds(),
        }
    )


def start(tier):
    from lib import ringops

    ringops.install()


def nontrivial(c):
    return c["B"] > 1


def _state(m):
    return {k: (v.data_ptr(), v._version, v.detach().clone()) for k, v in list(m.named_parameters()) + list(m.named_buffers())}


def _same_state(a, m, what):
    for k, v in list(m.named_parameters()) + list(m.named_buffers()):
        if not torch.equal(a[k][2], v.detach()):
            raise Violation(f"{what} changed {k}")


def _global():
    return (torch.get_rng_state(), torch.get_default_dtype(), torch.get_num_threads(), torch.is_grad_enabled(), torch.are_deterministic_algorithms_enabled())


def check(c):
    if c["layer"] == "nattn" and c["opt"] % 4 == 3:  # the reference implementation is a Python loop
        c = {**c, "nlat": min(c["nlat"], 4), "nlat2": min(c["nlat2"], 3), "nlon": min(c["nlon"], 3), "B": min(c["B"], 2)}
    if max(c["nlat"], c["nlat2"], c["nlon"]) > 10:
        c = {**c, "B": min(c["B"], 3)}
    with sut("construction"):
        m, xs, _, ch, _ = c23._layer(c)
    B = c["B"]
    with torch.no_grad():
        for j, p in enumerate(m.parameters()):
            p.copy_(0.4 * torch.randn(p.shape, generator=torch.Generator().manual_seed(c["seed"] + j), dtype=p.dtype))
    # fresh data with a batch dimension in front
    new = []
    for j, x in enumerate(xs):
        tail = list(x.shape[1:]) if ch is not None else list(x.shape)
        v = field([B] + tail, c["seed"] + j, "normal", torch.float32)
        if x.is_complex():
            v = torch.complex(v, field([B] + tail, c["seed"] + 40 + j, "normal", torch.float32))
        if c["layer"] == "resample":
            v = 0.2 * v
        new.append(layout(v, c["layout"]))
    xs = new
    keep = [x.clone() for x in xs]
    st0, g0 = _state(m), _global()
    event(("distributed " if c["dist"] and c["layer"] != "attn" else "") + c["layer"])
    event("mode " + c["mode"])

    def run(args):
        with sut("forward"):
            return m(*args)

    if c["mode"] == "inference":
        with torch.inference_mode():
            y = run(xs).clone()
    elif c["mode"] == "no_grad":
        with torch.no_grad():
            y = run(xs)
    else:
        leaves = [x.detach().requires_grad_(True) for x in xs]
        y = run(leaves)
        expect(y.requires_grad, "the result does not require gradients although the input does")
        with sut("backward"):
            z = (y.abs() ** 2).sum()
            once = torch.autograd.grad(z, leaves, retain_graph=True)
            z.backward()
        grads = [x.grad.clone() for x in leaves]
        for a, g in zip(once, grads):
            close(a, g, "input gradient of the second backward pass", 2e-5, scale=max(scale_of(g), 1e-6))
        pg = {n: p.grad.clone() for n, p in m.named_parameters()}
        y = y.detach()
    g1 = _global()
    expect(torch.equal(g0[0], g1[0]), "the random state changed")
    expect(g0[1:] == g1[1:], f"global state changed from {g0[1:]} to {g1[1:]}")
    for x, k in zip(xs, keep):
        expect(torch.equal(x, k), "an input was modified")
    _same_state(st0, m, "the forward pass")
    with torch.no_grad():
        y2 = run(xs)
        s = max(scale_of(y), 1e-2)
        close(y2, y, "second call on the same input", 1e-6, scale=s)
        m.eval()
        close(run(xs), y, "result in evaluation mode", 1e-6, scale=s)
        m.train()
        # a result handed out is not internal storage
        if not (c["layer"] == "resample" and m.skip_resampling):
            y3 = run(xs)
            y3.zero_()
            expect(all(torch.equal(x, k) for x, k in zip(xs, keep)), "the result shares memory with an input")
            close(run(xs), y, "result after overwriting an earlier one", 1e-6, scale=s)
        # earlier calls leave no trace: other data in the same tensors, other parameters
        with sut("construction"):
            fresh = c23._layer(c)[0]
        if c["seed"] % 2:
            m.eval()
            run(xs)
        old = [p.clone() for p in m.parameters()]
        for a, p in zip(m.parameters(), fresh.parameters()):
            a.mul_(-0.7)
            p.copy_(a)
        if c["layout"] != "expanded":
            for x in xs:
                x.mul_(0.6)
        y4, y5 = run(xs), fresh(*[x.clone() for x in xs])
        close(y4, y5, "result with other parameters and data, as in a fresh layer", 2e-5, scale=max(scale_of(y5), 1e-2))
        m.train()
        for p, o in zip(m.parameters(), old):
            p.copy_(o)
        if c["layout"] != "expanded":
            for x, k in zip(xs, keep):
                x.copy_(k)
        close(run([x.contiguous() for x in keep]), y, "result for the contiguous copy", 2e-5, scale=s)
        for b in range(B):
            close(run([x[b : b + 1] for x in xs]), y[b : b + 1], f"sample {b} alone", 2e-5, scale=s)
        if B > 1:
            p = torch.randperm(B, generator=torch.Generator().manual_seed(c["seed"]))
            close(run([x[p] for x in xs]), y[p], "permuted batch", 2e-5, scale=s)
            if c["poison"]:
                # whatever one sample holds, the others do not see it
                j = c["seed"] % B
                rest = [b for b in range(B) if b != j]
                bad = [x.contiguous().clone() for x in keep]
                for x in bad:
                    x[j] = {"nan": float("nan"), "inf": float("inf"), "huge": 1e30}[c["poison"]]
                event("poison " + c["poison"])
                close(run(bad)[rest], y[rest], f"the others, with sample {j} {c['poison']}", 2e-5, scale=s)
        if c["threads"] > 1:
            torch.set_num_threads(c["threads"])
            try:
                close(run(xs), y, f"result with {c['threads']} threads", 2e-5, scale=s)
            finally:
                torch.set_num_threads(g0[2])
    if c["mode"] == "grad":
        # another call between forward and backward does not disturb the gradients
        leaves = [x.detach().clone().requires_grad_(True) for x in xs]
        other = [(0.5 * x.detach().flip(-1)).contiguous().requires_grad_(True) for x in xs]
        m.zero_grad()
        ya, yb = run(leaves), run(other)
        with sut("backward"):
            (yb.abs() ** 2).sum().backward()
            m.zero_grad()
            (ya.abs() ** 2).sum().backward()
        top = max([scale_of(g) for g in grads] + [scale_of(g) for g in pg.values()] + [s * s, 1e-6])
        for x, g in zip(leaves, grads):
            close(x.grad, g, "input gradient with another call in between", 2e-5, scale=top)
        for n, p_ in m.named_parameters():
            close(p_.grad, pg[n], f"gradient of {n} with another call in between", 2e-5 * B, scale=top)
    if c["conc"] and not c["dist"]:
        # calls from several Python threads at once
        event("concurrent")
        sets = [xs, [0.5 * x.flip(-1) for x in xs], [x[:1] for x in xs]]
        want = []
        with torch.no_grad():
            want = [run(a) for a in sets]
        got = [[None] * 3 for _ in sets]

        def work(i):
            with torch.no_grad():
                for r in range(3):
                    got[i][r] = run(sets[i])

        with ThreadPoolExecutor(len(sets)) as ex:
            list(ex.map(work, range(len(sets))))
        for i, w in enumerate(want):
            for r in range(3):
                close(got[i][r], w, "result of a call concurrent with others", 2e-5, scale=max(scale_of(w), 1e-2))
    if c["mode"] == "grad" and B > 1:
        # gradients: a sample's gradient does not depend on the others, parameter gradients add up
        # (some gradients vanish identically and are pure rounding, hence the scale of all of them)
        top = max([scale_of(g) for g in grads] + [scale_of(g) for g in pg.values()] + [s * s, 1e-6])
        tot = {n: torch.zeros_like(g) for n, g in pg.items()}
        for b in range(B):
            m.zero_grad()
            leaves = [x[b : b + 1].detach().clone().requires_grad_(True) for x in xs]
            yb = run(leaves)
            with sut("backward"):
                (yb.abs() ** 2).sum().backward()
            for x, g in zip(leaves, grads):
                close(x.grad, g[b : b + 1], f"input gradient of sample {b} alone", 2e-5, scale=top)
            for n, p_ in m.named_parameters():
                tot[n] += p_.grad
        if c["poison"]:
            leaves = [x.detach().clone().requires_grad_(True) for x in bad]
            (run(leaves)[rest].abs() ** 2).sum().backward()
            for x, g in zip(leaves, grads):
                close(x.grad[rest], g[rest], f"input gradients of the others, with sample {j} {c['poison']}", 2e-5, scale=top)
        for n, g in pg.items():
            close(tot[n], g, f"gradient of {n} summed over samples", 2e-5 * B, scale=top)
    if c["mode"] == "grad":
        m.zero_grad()
    _same_state(st0, m, "evaluation")
