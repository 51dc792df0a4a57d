"""C35: a compiled, exported or fake-tensor traced layer predicts and returns what the eager layer returns."""
import torch
import torch._dynamo
from hypothesis import strategies as st
from torch._subclasses.fake_tensor import DataDependentOutputException, DynamicOutputShapeException, FakeTensorMode

from checks import c23
from lib.common import EPS, seeds, weighted
from lib.harness import Discard, event, expect, sut

RULE = "case = layer and configuration x way of capturing it (torch.compile with static or dynamic shapes, torch.export, fake tensors) x batch sizes x contiguous or strided input x precision or autocast x data; non-trivial: always (every case captures a layer and runs the capture)"
BUDGET = {"quick": {"shards": 8, "examples": 180}, "thorough": {"shards": 8, "examples": 1500}}
ASSUMPTIONS = [
    "torch.compile runs with the aot_eager backend (graph capture, functionalisation, shape inference and autograd partitioning); TorchInductor's code generation is exercised in the thorough tier only",
    "ResampleS2 inspects its data and is not exportable; it is only compiled. Graph breaks are allowed (fullgraph is not required)",
    "a compiled result may differ from the eager one by a few rounding errors of the result's scale",
]

LAYERS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt", "attn", "nattn", "conv", "convt", "nattn"]


def strategy(tier):
    d = weighted((19, st.integers(2, 7)), (1, st.integers(8, 36)))
    return st.fixed_dictionaries(
        {
            "layer": st.sampled_from(LAYERS),
            "nlat": d,
            "nlon": weighted((19, st.integers(1, 8)), (1, st.integers(9, 50))),
            "nlat2": d,
            "mult": st.integers(1, 3),
            "ci": st.integers(1, 3),
            "groups": st.integers(1, 3),
            "grid": st.integers(0, 2),
            "opt": st.integers(0, 11),
            "mode": st.sampled_from(["fake", "fake", "fake", "export", "export", "static", "dynamic"] + (["inductor"] if tier == "thorough" else [])),
            "batch": st.integers(1, 4),
            "strided": st.booleans(),
            "dist": st.integers(0, 3).map(lambda i: i == 0),
            "dtype": st.sampled_from(["f32", "f32", "f32", "f64", "auto", "auto"]),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return True


def start(tier):
    torch._dynamo.config.disable = False
    torch._dynamo.config.cache_size_limit = 64


def _layout(x, strided):
    """The same numbers; strided: channels-last like memory."""
    if not strided or x.dim() < 3:
        return x
    return x.transpose(-3, -1).contiguous().transpose(-3, -1)


def _same(got, ref, what, dt):
    expect(got.dtype == ref.dtype, f"{what}: dtype {got.dtype}, eager {ref.dtype}")
    expect(tuple(got.shape) == tuple(ref.shape), f"{what}: shape {tuple(got.shape)}, eager {tuple(ref.shape)}")
    if ref.numel() == 0:
        return
    s = float(ref.abs().max())
    e = float((got - ref).abs().max())
    expect(e <= (2000 if dt != torch.bfloat16 else 8) * EPS[dt] * s + 1e-30, f"{what}: differs from eager by {e:.3e} at scale {s:.3e}")


def _strides(t, k):
    """Strides of the dimensions where they mean something; for AttentionS2 PyTorch's own convolution predicts other strides than it delivers."""
    return None if k == "attn" else [s for s, n in zip(t.stride(), t.shape) if n > 1]


def check(c):
    with torch.autocast("cpu", torch.bfloat16, enabled=c["dtype"] == "auto" and c["layer"] in ("conv", "convt", "attn", "nattn", "quad", "resample")):
        _check(c)


def _check(c):
    k, mode = c["layer"], c["mode"]
    if k == "nattn":
        c = {**c, "dist": False}
        if c["opt"] % 4 == 3:
            c = {**c, "nlat": min(c["nlat"], 4), "nlat2": min(c["nlat2"], 4), "nlon": min(c["nlon"], 4)}
    if k == "resample" and mode in ("fake", "export"):
        mode = "dynamic"
    with sut("construction"):
        m, xs, *_ = c23._layer(c)
    dt = torch.float32
    if c["dtype"] == "f64" and k not in ("sconv", "nattn"):
        dt = torch.float64
        m = m.double()
        xs = [x.to(torch.complex128 if x.is_complex() else dt) for x in xs]
    elif k == "nattn" and c["dtype"] == "f64" and c["opt"] % 4 == 3:
        dt = torch.float64
        m, xs = m.double(), [x.double() for x in xs]
    tol = torch.bfloat16 if torch.is_autocast_enabled("cpu") else dt
    with torch.no_grad():  # parameters that start at zero would hide their own use
        for j, p in enumerate(m.parameters()):
            g = torch.Generator().manual_seed(c["seed"] + 7 * j)
            r = 0.3 * torch.randn(p.shape + ((2,) if p.is_complex() else ()), generator=g)
            p.copy_(torch.view_as_complex(r) if p.is_complex() else r)
    if xs[0].dim() == 4:  # with batch and channels
        xs = [torch.cat([x] * 2)[: c["batch"]] * (1 + torch.arange(c["batch"], dtype=dt).reshape(-1, 1, 1, 1)) for x in xs]
    xs = [_layout(x.detach(), c["strided"]).requires_grad_(True) for x in xs]
    with sut("eager"):
        y = m(*xs)
    u = torch.randn(y.shape, generator=torch.Generator().manual_seed(c["seed"]), dtype=y.dtype)
    leaves = xs + [p for p in m.parameters()]
    with sut("eager gradient"):
        try:
            grads = torch.autograd.grad(y, leaves, u)
        except NotImplementedError as e:
            if tol == torch.bfloat16 and "bmm_sparse_dense" in str(e):
                raise Discard("PyTorch has no sparse product in bfloat16")
            raise
    event(f"{mode}:{k}")

    if mode == "fake":
        fm = FakeTensorMode(allow_non_fake_inputs=True)
        fx = [fm.from_tensor(x) for x in xs]
        with sut("fake tensors"):
            try:
                with fm:
                    fy = m(*fx)
            except (DataDependentOutputException, DynamicOutputShapeException):
                raise Discard("forward looks at the data")
        expect(tuple(fy.shape) == tuple(y.shape), f"predicted shape {tuple(fy.shape)}, actual {tuple(y.shape)}")
        expect(fy.dtype == y.dtype, f"predicted dtype {fy.dtype}, actual {y.dtype}")
        expect(_strides(fy, k) == _strides(y, k), f"predicted strides {fy.stride()}, actual {y.stride()} for shape {tuple(y.shape)}")
        with sut("fake gradient"):
            try:
                with fm:
                    fg = torch.autograd.grad(fy, fx + list(m.parameters()), fm.from_tensor(u))
            except (DataDependentOutputException, DynamicOutputShapeException):
                return event("gradient looks at the data")  # the pure-PyTorch reference loops over the neighbourhoods
        for i, (a, b) in enumerate(zip(fg, grads)):
            expect(tuple(a.shape) == tuple(b.shape) and a.dtype == b.dtype, f"gradient {i}: predicted {tuple(a.shape)} {a.dtype}, actual {tuple(b.shape)} {b.dtype}")
        return

    torch._dynamo.reset()
    if mode == "export":
        with sut("export"):
            ep = torch.export.export(m, tuple(x.detach() for x in xs), strict=False)
            f = ep.module()
    else:
        f = torch.compile(m, backend="inductor" if mode == "inductor" else "aot_eager", dynamic=mode == "dynamic", fullgraph=False)
    with sut(f"{mode}: run"):
        y2 = f(*xs)
    _same(y2, y, f"{mode} output", tol)
    ps = leaves if mode != "export" else xs
    with sut(f"{mode}: gradient"):
        g2 = torch.autograd.grad(y2, ps, u)
    for i, (a, b) in enumerate(zip(g2, grads)):
        _same(a, b, f"{mode} gradient {i}", tol)
    if mode == "export":
        return
    expect(_strides(y2, k) == _strides(y, k), f"{mode}: strides {y2.stride()}, eager {y.stride()}")
    # other numbers and another batch through the same compiled function, without gradients
    zs = [(x.detach() * 0.5).flip(-1) for x in xs]
    if zs[0].dim() == 4:
        zs = [torch.cat([z, z[:1]]) for z in zs]
    with sut(f"{mode}: second call"), torch.no_grad():
        _same(f(*zs), m(*zs), f"{mode} second call", tol)
