"""C27: a layer's behaviour is its constructor arguments plus its state dict: it survives saving, loading, copying and moving to another grid, and copies are independent."""
import copy
import io
import pickle

import torch
from hypothesis import strategies as st

from checks import pool
from lib.common import close, scale_of, seeds
from lib.harness import Discard, Violation, event, expect, sut

RULE = "case = a configured layer with random parameters and a history of saving / loading / copying / pickling / retraining its incarnations; non-trivial: at least one copy operation on a layer and a later evaluation"
BUDGET = {"quick": {"shards": 8, "examples": 420}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["checkpoints go through torch.save / torch.load in memory", "layers constructed with the same arguments; the other grid has the same channel counts"]

OPS = ["deepcopy", "pickle", "save_module", "state", "state_wo", "state_via_other_grid", "state_via_dist", "train_copy", "zero_copy", "half_copy", "roundtrip64"]
LEARN = ["sconv", "conv", "convt", "nattn", "attn"]


def start(tier):
    from lib import ringops

    ringops.install()


def strategy(tier):
    kinds = st.sampled_from(pool.MODULE_KINDS + LEARN)
    return st.fixed_dictionaries(
        {
            "kind": kinds,
            "i": st.integers(0, pool.NI - 1),
            "dist": st.booleans(),
            "seed": seeds(),
            "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 5)).map(list), min_size=1, max_size=7),
        }
    )


def nontrivial(c):
    return any(o[0] in ("deepcopy", "pickle", "save_module", "state", "state_wo", "state_via_other_grid", "state_via_dist") for o in c["ops"])


def _other(kind, i):
    """The same layer on a different grid (same parameter shapes)."""
    import torch_harmonics as th

    if kind in ("conv", "convt"):
        m, _ = pool.build((kind, i))
        cls = type(m)
        b, ks = [("piecewise linear", 3), ("piecewise linear", (3, 3)), ("harmonic", (2, 2)), ("fourier-bessel", (2, 2))][i % 4]
        s = ((9, 16), (6, 8)) if kind == "conv" else ((6, 8), (9, 16))
        return cls(2, 2, *s, ks, basis_type=b, basis_norm_mode="nodal", theta_cutoff=0.7, optimized_kernel=i % 2 == 0).to(m.weight.dtype)
    if kind == "nattn":
        return th.NeighborhoodAttentionS2(4, (9, 12), (9, 12), num_heads=1 + i % 2, use_qknorm=i % 2 == 0, theta_cutoff=0.8)
    if kind == "attn":
        return th.AttentionS2(4, 2, (9, 12), (7, 6), use_qknorm=i % 2 == 0)
    return None


def _save(obj, weights_only):
    b = io.BytesIO()
    torch.save(obj, b)
    b.seek(0)
    return torch.load(b, weights_only=weights_only)


def check(c):
    key = (c["kind"], c["i"])
    dist = c["dist"] and c["kind"] not in ("attn", "grf")
    with sut("construction"):
        m, f = pool.build(key, dist)
    with torch.no_grad():
        for j, p in enumerate(m.parameters()):
            p.copy_(0.5 * torch.randn(p.shape, generator=torch.Generator().manual_seed(c["seed"] + j), dtype=p.dtype))
    event(("distributed " if dist else "") + c["kind"])
    params = {n for n, _ in m.named_parameters()}
    if c["kind"] != "grf":
        expect(set(m.state_dict()) == params, f"the state dict holds {sorted(set(m.state_dict()) ^ params)} beside the parameters")

    def ev(mod, what):
        with torch.no_grad(), sut(what):
            return [t.clone() for t in f(mod)]

    ref = ev(m, "original")
    snap = {n: p.detach().clone() for n, p in m.named_parameters()}

    def same(mod, what):
        for a, b in zip(ev(mod, what), ref):
            expect(a.dtype == b.dtype, f"{what}: dtype {a.dtype}, originally {b.dtype}")
            close(a, b, what, 1e-11 if b.dtype in (torch.float64, torch.complex128) and c["kind"] != "nattn" else 1e-5, scale=max(scale_of(b), 1e-6))

    fam = [m]
    for op, who in c["ops"]:
        src = fam[who % len(fam)]
        event(op)
        new = None
        if op == "deepcopy":
            with sut(op):
                new = copy.deepcopy(src)
        elif op == "pickle":
            with sut(op):
                new = pickle.loads(pickle.dumps(src))
        elif op == "save_module":
            with sut(op):
                new = _save(src, False)
        elif op in ("state", "state_wo"):
            with sut(op):
                new, _ = pool.build(key, dist)
                with torch.no_grad():
                    for p in new.parameters():
                        p.fill_(7.0)
                new.load_state_dict(_save(src.state_dict(), op == "state_wo"), strict=True)
        elif op == "state_via_other_grid":
            with sut(op):
                o = _other(*key)
                if o is not None:
                    o.load_state_dict(_save(src.state_dict(), True), strict=True)
                    for n, p in o.named_parameters():
                        expect(torch.equal(p, snap[n]), f"parameter {n} differs after loading on another grid")
                    new, _ = pool.build(key, dist)
                    new.load_state_dict(o.state_dict(), strict=True)
        elif op == "state_via_dist":
            # checkpoints move between the serial layer and the distributed one
            if c["kind"] not in ("attn", "grf"):
                with sut(op):
                    o, _ = pool.build(key, not dist)
                    o.load_state_dict(_save(src.state_dict(), True), strict=True)
                same(o, "the checkpoint in the " + ("serial" if dist else "distributed") + " layer")
                with sut(op):
                    new, _ = pool.build(key, dist)
                    new.load_state_dict(o.state_dict(), strict=True)
        else:
            # destructive operations on an independent copy: nothing of the family may notice
            with sut(op):
                d = copy.deepcopy(src)
                if op == "train_copy":
                    if any(True for _ in d.parameters()):
                        opt = torch.optim.SGD(d.parameters(), lr=0.1)
                        sum((t.abs() ** 2).sum() for t in f(d)).backward()
                        opt.step()
                elif op == "zero_copy":
                    with torch.no_grad():
                        for t in list(d.parameters()) + list(d.buffers()):
                            t.zero_()
                elif op == "half_copy":
                    d.half()
                elif op == "roundtrip64":
                    if not any(p.is_complex() for p in d.parameters()):
                        d.double()
            for n, p in m.named_parameters():
                expect(torch.equal(p, snap[n]) and p.grad is None, f"{op} on a copy changed {n} of the original")
        if new is not None:
            expect(type(new) is type(m), f"{op} gives a {type(new).__name__}")
            for (n, p), (n2, p2) in zip(new.named_parameters(), m.named_parameters()):
                expect(n == n2 and p.dtype == p2.dtype and torch.equal(p, p2), f"parameter {n} differs after {op}")
                expect(p.data_ptr() != p2.data_ptr() or p.numel() == 0, f"parameter {n} is shared with the original after {op}")
                expect(p.requires_grad == p2.requires_grad, f"parameter {n} requires_grad after {op}")
            same(new, f"after {op}")
            fam = (fam + [new])[-4:]
            if m not in fam:
                fam[0] = m
    for j, x in enumerate(fam):
        same(x, f"incarnation {j} at the end")
