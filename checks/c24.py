"""C24: the distributed communication primitives move, sum and split exactly the right data, forward and backward, on every process grid."""
import torch
from hypothesis import strategies as st

from lib import distpool as DP
from lib.common import field, seeds
from lib.harness import Discard, Violation, event, expect, must_raise

RULE = "case = primitive x process grid x tensor shape, split dimension, type, memory layout and data; non-trivial: more than one rank takes part in the collective (or, for the local helpers, more than one chunk)"
BUDGET = {"quick": {"shards": 3, "examples": 2760, "hang_s": 200}, "thorough": {"shards": 3, "examples": 9000, "hang_s": 300}}
WORLD = {"quick": 6, "thorough": 8}
ASSUMPTIONS = [
    "the wire is gloo on the CPU, with stand-ins for the uneven collectives gloo lacks (they raise on sizes the ranks disagree on, as NCCL would fail)",
    "gradients follow the conventions the primitives document (a reduction passes the gradient through, a copy sums it)",
    "halo widths between 1 and the smallest local extent (the exchange is with direct neighbours only)",
]

COLL = ["transpose", "transpose", "copy", "reduce", "scatter", "gather", "reduce_scatter", "gather_copy", "halo", "neighbors"]
SUMS = {("result", "reduce"), ("result", "reduce_scatter"), ("gradient", "copy"), ("gradient", "gather_copy"), ("gradient", "halo")}
DT = {"f32": torch.float32, "f64": torch.float64, "bf16": torch.bfloat16, "c64": torch.complex64, "c128": torch.complex128}


def start(tier):
    DP.start(WORLD[tier])


def stop():
    DP.stop()


def strategy(tier):
    w = WORLD[tier]
    g = [x for x in DP.grids(w) if x[0] * x[1] > 1]
    coll = st.fixed_dictionaries(
        {
            "op": st.sampled_from(COLL),
            "grid": st.sampled_from(g + [(1, 1)]).map(list),
            "mode": st.integers(0, 3),
            "dir": st.sampled_from(["polar", "azimuth"]),
            "shape": st.lists(st.integers(1, 9), min_size=2, max_size=4),
            "d0": st.integers(0, 3),
            "d1": st.integers(0, 3),
            "neg": st.booleans(),
            "dtype": st.sampled_from(["f32", "f64", "bf16", "c64", "c128"]),
            "layout": st.sampled_from(["c", "t", "s"]),
            "halo": st.integers(1, 4),
            "big": st.sampled_from([0] * 9 + [7, 40, 200]),
            "debug": st.booleans(),
            "real": st.booleans(),
            "shapes_none": st.booleans(),
            "seed": seeds(),
        }
    )
    loc = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["split_shapes", "split_tensor", "flatten"]),
            "n": st.integers(0, 60),
            "k": st.integers(1, 12),
            "shape": st.lists(st.integers(1, 6), min_size=2, max_size=5),
            "d0": st.integers(0, 4),
            "trail": st.integers(1, 3),
            "min": st.integers(1, 9),
            "seed": seeds(),
        }
    )
    return st.one_of(coll, coll, coll, loc)


_nt = {}


def nontrivial(c):
    return _nt.get("v", False)


def _lay(x, how):
    if how == "t" and x.dim() >= 2:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "s":
        y = torch.zeros(*x.shape[:-1], 2 * x.shape[-1], dtype=x.dtype)
        y[..., ::2] = x
        return y[..., ::2]
    return x.contiguous()


def _data(shape, seed, dt, real=False):
    g = torch.Generator().manual_seed(seed)
    if real:
        x = torch.randn(shape, generator=g, dtype=torch.float64)
        return (torch.complex(x, torch.randn(shape, generator=g, dtype=torch.float64)) if dt.is_complex else x).to(dt)
    # small integers: sums are exact in every type, so comparisons are bitwise
    x = torch.randint(-8, 9, shape, generator=g)
    if dt in (torch.complex64, torch.complex128):
        return torch.complex(x.double(), torch.randint(-8, 9, shape, generator=g).double()).to(dt)
    return x.to(dt)


def _setup(c):
    """(group size, shapes of global data, dims)"""
    k = c["grid"][0] if c["dir"] == "polar" else c["grid"][1]
    s = list(c["shape"])
    s[c["d1"] % len(s)] += c.get("big", 0)
    d0 = c["d0"] % len(s)
    d1 = c["d1"] % len(s)
    if c["op"] == "transpose" and d0 == d1:
        d1 = (d0 + 1) % len(s)
    if c["op"] == "transpose":
        s[d0] += k - 1
        s[d1] += k - 1
    elif c["op"] in ("scatter", "gather", "reduce_scatter", "gather_copy"):
        s[d0] += k - 1
    elif c["op"] == "halo":
        s = (s + [2, 3])[:4]
        s[2] = k * c["halo"] + s[2] - 1
    return k, s, d0, d1


def rank_run(c, ctx):
    import torch.distributed as dist
    import torch_harmonics.distributed as thd

    thd.config.debug = c["debug"]
    polar = c["dir"] == "polar"
    k, s, d0, d1 = _setup(c)
    me = ctx.ipol if polar else ctx.iaz
    lane = ctx.iaz if polar else ctx.ipol  # ranks of one group share a lane, and the data differ between lanes
    dt = DT[c["dtype"]]
    op = c["op"]
    N = lambda d: d - len(s) if c["neg"] else d  # noqa: E731

    def chunk(x, d, i):
        a, b = DP.bounds(x.shape[d], k, i)
        return x.narrow(d, a, b - a)

    base = c["seed"] + 1000 * lane
    G = lambda off: _data(s, base + off, dt, c["real"])  # noqa: E731
    fwd_sizes = lambda d: DP.split_sizes(s[d], k)  # noqa: E731
    if op == "neighbors":
        grp = thd.polar_group() if polar else thd.azimuth_group()
        if grp is None:
            return None
        ranks = dist.get_process_group_ranks(grp)
        return {"nb": thd.get_group_neighbors(grp), "ranks": ranks, "sizes": (thd.polar_group_size(), thd.azimuth_group_size(), thd.polar_group_rank(), thd.azimuth_group_rank())}
    if op == "transpose":
        f = thd.distributed_transpose_polar if polar else thd.distributed_transpose_azimuth
        x = chunk(G(0), d1, me)
        call = lambda t: f(t, (N(d0), N(d1)), fwd_sizes(d1))  # noqa: E731
        go = chunk(G(1), d0, me)
    elif op == "copy":
        f = thd.copy_to_polar_region if polar else thd.copy_to_azimuth_region
        x, go = G(0), G(10 + me)
        call = f
    elif op == "reduce":
        f = thd.reduce_from_polar_region if polar else thd.reduce_from_azimuth_region
        x, go = G(10 + me), G(1)
        call = f
    elif op == "scatter":
        x, go = G(0), chunk(G(1), d0, me)
        call = lambda t: thd.scatter_to_polar_region(t, N(d0))  # noqa: E731
    elif op in ("gather", "gather_copy"):
        f = thd.gather_from_polar_region if op == "gather" else thd.gather_from_copy_to_polar_region
        x, go = chunk(G(0), d0, me), G(10 + me)
        call = lambda t: f(t, N(d0), None if c["shapes_none"] else fwd_sizes(d0))  # noqa: E731
    elif op == "reduce_scatter":
        f = thd.reduce_from_scatter_to_polar_region if polar else thd.reduce_from_scatter_to_azimuth_region
        x, go = G(10 + me), chunk(G(1), d0, me)
        call = lambda t: f(t, N(d0))  # noqa: E731
    elif op == "halo":
        x = chunk(G(0), 2, me)
        go = _data([s[0], s[1], x.shape[2] + 2 * c["halo"], s[3]], base + 10 + me, dt, c["real"])
        call = lambda t: thd.polar_halo_exchange(t, c["halo"])  # noqa: E731
    x = _lay(x, c["layout"])
    x0 = x.clone()
    x.requires_grad_(True)
    y = call(x)
    if op == "halo" and thd.polar_group() is None:
        go = go[:, :, c["halo"] : go.shape[2] - c["halo"]]
    go = _lay(go, c["layout"])
    go0 = go.clone()
    (gx,) = torch.autograd.grad(y, x, go)
    return {"y": y.detach().clone(), "gx": gx.clone(), "same": bool(torch.equal(x.detach(), x0)) and bool(torch.equal(go, go0))}


def _expected(c, me, lane):
    k, s, d0, d1 = _setup(c)
    dt = DT[c["dtype"]]
    base = c["seed"] + 1000 * lane
    G = lambda off: _data(s, base + off, dt, c["real"])  # noqa: E731
    acc = torch.complex128 if dt.is_complex else torch.float64

    def chunk(x, d, i):
        a, b = DP.bounds(x.shape[d], k, i)
        return x.narrow(d, a, b - a)

    tot = lambda: sum(G(10 + i).to(acc) for i in range(k)).to(dt)  # noqa: E731
    op = c["op"]
    if op == "transpose":
        return chunk(G(0), d0, me), chunk(G(1), d1, me)
    if op == "copy":
        return G(0), tot()
    if op == "reduce":
        return tot(), G(1)
    if op == "scatter":
        return chunk(G(0), d0, me), G(1)
    if op == "gather":
        return G(0), chunk(G(10 + me), d0, me)
    if op == "gather_copy":
        return G(0), chunk(tot(), d0, me)
    if op == "reduce_scatter":
        return chunk(tot(), d0, me), G(1)
    # halo: zero rows beyond the poles; the gradient of a row is the sum over all the padded copies of it
    h = c["halo"]
    x = G(0).to(acc)
    pad = torch.zeros(s[0], s[1], h, s[3], dtype=acc)
    xp = torch.cat([pad, x, pad], dim=2)
    a, b = DP.bounds(s[2], k, me)
    gp = torch.zeros_like(xp)
    for i in range(k):
        ai, bi = DP.bounds(s[2], k, i)
        gp[:, :, ai : bi + 2 * h] += _data([s[0], s[1], bi - ai + 2 * h, s[3]], base + 10 + i, dt, c["real"]).to(acc)
    return xp[:, :, a : b + 2 * h].to(dt), gp[:, :, a + h : b + h].to(dt)


def check(c):
    if c["op"] in ("split_shapes", "split_tensor", "flatten"):
        return _local_case(c)
    pol, az = c["grid"]
    if c["op"] in ("scatter", "gather", "gather_copy", "halo") and c["dir"] != "polar":
        c = {**c, "dir": "polar"}
    if c["op"] == "halo" and DT[c["dtype"]].is_complex:
        c = {**c, "dtype": "f32"}
    k = pol if c["dir"] == "polar" else az
    _nt["v"] = k > 1
    event(f"{c['op']} {c['dir']} k={k}")
    res = DP.run("checks.c24", "rank_run", pol, az, c, c["mode"])
    nogroup = k == 1 and (c["mode"] & (1 if c["dir"] == "polar" else 2))
    for r, out in enumerate(res):
        ip, ia = divmod(r, az)
        me, lane = (ip, ia) if c["dir"] == "polar" else (ia, ip)
        where = f"{c['op']} over {c['dir']} on the {pol}x{az} grid, rank {r}"
        if c["op"] == "neighbors":
            if out is None:
                continue
            ranks = [i * az + ia for i in range(pol)] if c["dir"] == "polar" else [ip * az + j for j in range(az)]
            expect(list(out["ranks"]) == ranks, f"{where}: group {out['ranks']}")
            expect(tuple(out["nb"]) == (ranks[(me - 1) % k], ranks[(me + 1) % k]), f"{where}: neighbours {out['nb']} in {ranks}")
            expect(tuple(out["sizes"]) == (pol, az, ip, ia), f"{where}: place {out['sizes']}")
            continue
        y, gx = _expected(c, me, lane)
        if c["op"] == "halo" and nogroup:
            h = c["halo"]
            y, gx = y[:, :, h : y.shape[2] - h], gx
        for name, a, b in (("result", out["y"], y), ("gradient", out["gx"], gx)):
            if a.dtype != b.dtype:
                raise Violation(f"{where}: {name} has type {a.dtype}, expected {b.dtype}")
            if tuple(a.shape) != tuple(b.shape):
                raise Violation(f"{where}: {name} has shape {tuple(a.shape)}, expected {tuple(b.shape)}")
            if c["real"] and (name, c["op"]) in SUMS:
                # a sum of k terms of size ~1 in at least single precision, rounded once to the type of the tensor
                e = (a.to(torch.complex128) - b.to(torch.complex128)).abs()
                u = {"f64": 1e-15, "c128": 1e-15, "f32": 3e-7, "c64": 3e-7, "bf16": 3e-7}[c["dtype"]]
                tol = 8 * u * k + ((0.1 if c["op"] == "halo" else 2.0**-7 * b.abs().double()) if c["dtype"] == "bf16" else 0.0)
                if bool((e > tol).any()):
                    raise Violation(f"{where}: {name} is off by {float(e.max()):.3e}")
            elif not torch.equal(a, b):
                raise Violation(f"{where}: wrong {name}")
        expect(out["same"], f"{where}: the input was modified")


def _local_case(c):
    import torch_harmonics.distributed as thd

    event(c["op"])
    if c["op"] == "split_shapes":
        _nt["v"] = c["k"] > 1
        if c["n"] < c["k"]:
            must_raise(f"splitting {c['n']} into {c['k']}", lambda: thd.compute_split_shapes(c["n"], c["k"]))
            return
        s = thd.compute_split_shapes(c["n"], c["k"])
        expect(list(s) == DP.split_sizes(c["n"], c["k"]), f"split of {c['n']} into {c['k']}: {s}")
        return
    if c["op"] == "split_tensor":
        _nt["v"] = c["k"] > 1
        d = c["d0"] % len(c["shape"])
        sh = list(c["shape"])
        sh[d] = max(1, c["n"])
        x = field(sh, c["seed"])
        if sh[d] < c["k"]:
            must_raise("split_tensor_along_dim", lambda: thd.split_tensor_along_dim(x, d, c["k"]))
            return
        for dd in (d, d - len(sh)):
            parts = thd.split_tensor_along_dim(x, dd, c["k"])
            expect([p.shape[d] for p in parts] == DP.split_sizes(sh[d], c["k"]), "chunk sizes")
            expect(torch.equal(torch.cat(parts, dim=d), x), "chunks do not rebuild the tensor")
        return
    t = c["trail"]
    if t >= len(c["shape"]):
        raise Discard("no leading dimension")
    _nt["v"] = True
    x = field(c["shape"], c["seed"]).requires_grad_(True)
    f, lead, n = thd.flatten_and_pad_leading_dims(x, c["min"], t)
    m = 1
    for v in c["shape"][:-t]:
        m *= v
    expect(n == m and f.shape[0] == max(m, c["min"]), f"flattened leading size {tuple(f.shape)}")
    expect(torch.equal(f[:m], x.reshape(m, *c["shape"][-t:])) and not bool(f[m:].any()), "flattened values or padding")
    y = thd.unpad_and_unflatten_leading_dims(f * 2, lead, n, t)
    expect(tuple(y.shape) == tuple(c["shape"]) and torch.equal(y, 2 * x), "round trip")
    (g,) = torch.autograd.grad(y.sum(), x)
    expect(bool((g == 2).all()), "gradient of the round trip")
