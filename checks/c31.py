"""C31: distributed neighbourhood attention on any process grid computes what the serial layer computes, forward and backward."""
import math

import torch
import torch_harmonics as th
from hypothesis import strategies as st

from checks import attncommon  # noqa: F401
from lib import attn_oracle as A
from lib import distpool as DP
from lib.common import GRIDS3, close, field, scale_of, seeds, weighted
from lib.harness import Discard, Violation, event, expect, sut

RULE = "case = process grid (polar x azimuth) x grid pair (self/coarser/finer output) x cutoff x heads x channels x normalisation x aliasing x requested gradients x data; non-trivial: more than one rank"
BUDGET = {"quick": {"shards": 3, "examples": 390, "hang_s": 200}, "thorough": {"shards": 3, "examples": 3000, "hang_s": 300}}
WORLD = {"quick": 6, "thorough": 8}
ASSUMPTIONS = [
    "the wire is gloo on the CPU with stand-ins for the uneven collectives it lacks",
    "the six CUDA-only ring-step kernels are replaced by CPU stand-ins that follow their documented contract; the splitting, neighbour lists, halo and ring exchange, reductions and gradients are the library's",
    "gradients of the (replicated) parameters are compared after summing over the ranks",
    "splits for which the layer documents that it refuses (unequal ratio of input and output longitudes, neighbourhoods reaching beyond the next rank) must be refused",
]


def start(tier):
    DP.start(WORLD[tier])


def stop():
    DP.stop()


@st.composite
def strategy_(draw, w):
    pol, az = draw(st.sampled_from(DP.grids(w)))
    mode = draw(st.sampled_from(["self", "self", "down", "up"]))
    mult = 1 if mode == "self" else draw(st.integers(1, 3))
    # a ratio above one needs equal shares of the coarse longitudes to be accepted
    coarse = az * draw(st.integers(1, 4)) if mult > 1 and draw(weighted((5, st.just(True)), (1, st.just(False)))) else draw(st.integers(az, 9))
    lat = lambda: draw(st.integers(max(2, pol), max(3, 3 * pol + 2)))  # noqa: E731
    a, b = lat(), lat()
    if mode == "self":
        i = o = [a, coarse]
    elif mode == "down":
        i, o = [a, coarse * mult], [b, coarse]
    else:
        i, o = [a, coarse], [b, coarse * mult]
    gi = draw(st.sampled_from(GRIDS3))
    heads = draw(st.sampled_from([1, 1, 2]))
    return {
        "grid": [pol, az],
        "mode": draw(st.integers(0, 3)),
        "in": i,
        "out": o,
        "grid_in": gi,
        "grid_out": gi if mode == "self" else draw(st.sampled_from(GRIDS3)),
        "heads": heads,
        "ci": heads * draw(st.integers(1, 3)),
        "kc": draw(st.sampled_from([None, None, 1, 3])),
        "oc": draw(st.sampled_from([None, None, 1, 4])),
        "qknorm": draw(st.booleans()),
        "bias": draw(st.booleans()),
        "scale": draw(st.sampled_from([None, None, 0.4])),
        "cut": draw(st.one_of(st.none(), st.floats(0.7, 2.5))),
        "args": draw(st.sampled_from(["qkv", "qkv", "self"])),
        "B": draw(st.integers(1, 3)),
        "gain": draw(st.sampled_from([1.0, 1.0, 10.0, -10.0])),
        "need": draw(st.sampled_from([7, 7, 7, 1, 2, 3, 4, 5, 6])),
        "frozen": draw(st.sampled_from([False, False, True])),
        "debug": draw(st.booleans()),
        "seed": draw(seeds()),
    }


def strategy(tier):
    return strategy_(WORLD[tier])


def nontrivial(c):
    return c["grid"][0] * c["grid"][1] > 1


def rows(c):
    """Latitudes of the coarser grid, whose spacing sets the cutoff."""
    return c["in"][0] if c["out"][1] > c["in"][1] else c["out"][0]


def make(c, cls):
    h = c["heads"]
    cut = None if c["cut"] is None else min(3.0, c["cut"] * math.pi / (rows(c) - 1))
    torch.manual_seed(c["seed"])
    m = cls(
        c["ci"], tuple(c["in"]), tuple(c["out"]), grid_in=c["grid_in"], grid_out=c["grid_out"], num_heads=h, scale=c["scale"], use_qknorm=c["qknorm"],
        bias=c["bias"], theta_cutoff=cut, k_channels=None if c["kc"] is None else c["kc"] * h, out_channels=None if c["oc"] is None else c["oc"] * h,
    )
    with torch.no_grad():
        for j, (n, p) in enumerate(sorted(m.named_parameters())):
            p.copy_(0.6 * field(p.shape, c["seed"] + 50 + j))
            if n == "q_weights":
                p.mul_(c["gain"])
    return m


def data(c):
    q = field([c["B"], c["ci"]] + c["out"], c["seed"], "normal", torch.float32)
    if c["args"] == "self" and c["in"] == c["out"]:
        return [q]
    return [q] + [field([c["B"], c["ci"]] + c["in"], c["seed"] + i, "normal", torch.float32) for i in (1, 2)]


def run(m, xs, go_of, c):
    need = [i for i in range(len(xs)) if c["need"] >> i & 1]
    if c["frozen"] and need:
        m.requires_grad_(False)
    for i in need:
        xs[i].requires_grad_(True)
    y = m(*xs)
    ps = [(n, p) for n, p in m.named_parameters() if p.requires_grad]
    g = torch.autograd.grad(y, [xs[i] for i in need] + [p for _, p in ps], go_of(y))
    return y.detach(), dict(zip(need, g)), {n: t for (n, _), t in zip(ps, g[len(need) :])}


def refusals(c):
    """Why the layer has to refuse this split, if it has to."""
    pol, az = c["grid"]
    li, lo = DP.split_sizes(c["in"][1], az), DP.split_sizes(c["out"][1], az)
    a, b = (li, lo) if c["in"][1] >= c["out"][1] else (lo, li)
    r = sum(a) // sum(b)
    return any(x != r * y for x, y in zip(a, b))


def halo(c, near):
    """Rows beyond its own that some polar rank needs."""
    pol = c["grid"][0]
    if pol == 1:
        return 0
    rows_ = near.reshape(c["out"][0], c["out"][1], c["in"][0], c["in"][1]).any(3).any(1)
    r = i0 = o0 = 0
    for ni, no in zip(DP.split_sizes(c["in"][0], pol), DP.split_sizes(c["out"][0], pol)):
        hi = torch.nonzero(rows_[o0 : o0 + no].any(0))
        r = max(r, i0 - int(hi.min()), int(hi.max()) - (i0 + ni - 1))
        i0, o0 = i0 + ni, o0 + no
    return r


def rank_run(c, ctx):
    import torch_harmonics.distributed as thd

    from lib import ringops

    ringops.install()
    thd.config.debug = c["debug"]
    try:
        m = make(c, thd.DistributedNeighborhoodAttentionS2)
    except ValueError as e:
        return {"refused": str(e)[:200]}
    xs = [DP.local(x, ctx) for x in data(c)]
    x0 = [x.clone() for x in xs]
    yshape = c["_yshape"]
    y, gx, gp = run(m, xs, lambda y: DP.local(field(yshape, c["seed"] + 9, "normal", torch.float32), ctx), c)
    return {"y": y.clone(), "gx": {i: t.clone() for i, t in gx.items()}, "gp": {n: t.clone() for n, t in gp.items()}, "same": all(torch.equal(a.detach(), b) for a, b in zip(xs, x0)), "r": m.r_lat}


def check(c):
    pol, az = c["grid"]
    if min(c["in"][0], c["out"][0]) < pol or min(c["in"][1], c["out"][1]) < az:
        raise Discard("fewer rows or columns than ranks")
    if bool((A.quad(c["in"], c["grid_in"]) <= 0).any()):
        raise Discard("non-positive quadrature weight")
    n = rows(c)
    near = A.neighbours(c["in"], c["out"], c["grid_in"], c["grid_out"], math.pi / (n - 1) if c["cut"] is None else min(3.0, c["cut"] * math.pi / (n - 1)))
    with sut("serial layer"):
        m = make(c, th.NeighborhoodAttentionS2)
        xs = data(c)
        y, gx, gp = run(m, xs, lambda y: field(y.shape, c["seed"] + 9, "normal", torch.float32), c)
    res = DP.run("checks.c31", "rank_run", pol, az, {**c, "_yshape": list(y.shape)}, c["mode"])
    ref = [("refused" in r) for r in res]
    where = f"attention on the {pol}x{az} grid"
    if any(ref):
        expect(all(ref), f"{where}: only some ranks refused")
        why = res[0]["refused"]
        if refusals(c):
            event("refused: unequal ratio")
            return
        expect(halo(c, near) > min(DP.split_sizes(c["in"][0], pol)), f"{where}: refused: {why}")
        event("refused: wide neighbourhood")
        return
    expect(not refusals(c), f"{where}: a split with unequal ratios was accepted")
    event(f"grid {pol}x{az}")
    event("self" if c["in"] == c["out"] else ("up" if c["out"][1] > c["in"][1] else "down"))
    event("halo" if res[0]["r"] > 0 else "no halo")
    top = scale_of(y)
    tol = 2e-4 if abs(c["gain"]) == 1.0 else 2e-3
    close(DP.assemble([r["y"] for r in res], pol, az), y, f"{where}: result", tol, scale=max(top, 1e-3))
    # gradients through the softmax cancel (the key bias exactly, without normalisation), so errors are measured against all of them
    every = max([1.0, top] + [scale_of(t) for t in [*gx.values(), *gp.values()]])
    for i, g in gx.items():
        close(DP.assemble([r["gx"][i] for r in res], pol, az), g, f"{where}: gradient of input {i}", tol, scale=max(scale_of(g), 0.1 * every))
    for n, g in gp.items():
        sc = max(scale_of(g), (1.0 if n == "k_bias" else 0.1) * every)
        close(sum(r["gp"][n] for r in res), g, f"{where}: gradient of {n}", tol, scale=sc)
    for i, r in enumerate(res):
        if not r["same"]:
            raise Violation(f"{where}: rank {i} modified its input")
