"""C26: every accepted combination of module precision, input precision and autocast gives the result to the lowest precision involved."""
import torch
from hypothesis import strategies as st

from checks import c23
from lib.common import EPS, close, field, scale_of, seeds, weighted
from lib.harness import Discard, Violation, event, expect, sut

RULE = "case = layer and configuration x module dtype x input dtype x autocast dtype x default dtype at construction x data; non-trivial: at least one dtype differs from float32"
BUDGET = {"quick": {"shards": 8, "examples": 2600}, "thorough": {"shards": 8, "examples": 12000}}
ASSUMPTIONS = [
    "a combination PyTorch or the compiled kernels reject with an exception is no violation, except those listed as supported in checks/c26.py (SUPPORTED)",
    "accuracy is judged relative to the float32 result on the same (exactly representable) numbers: a fixed multiple of the epsilon of the lowest precision involved",
]

LAYERS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt", "attn", "nattn"]
DT = {"f32": torch.float32, "f64": torch.float64, "bf16": torch.bfloat16, "f16": torch.float16}
CX = {"f32": torch.complex64, "f64": torch.complex128}
SPECTRAL = ("sht", "isht", "vsht", "ivsht")


def strategy(tier):
    d = weighted((19, st.integers(2, 7)), (1, st.integers(8, 40)))  # now and then a finer grid: longer sums
    return st.fixed_dictionaries(
        {
            "layer": st.sampled_from(LAYERS),
            "nlat": d,
            "nlon": weighted((19, st.integers(1, 8)), (1, st.integers(9, 64))),
            "nlat2": d,
            "mult": st.integers(1, 2),
            "ci": st.integers(1, 3),
            "groups": st.integers(1, 2),
            "grid": st.integers(0, 2),
            "opt": st.integers(0, 11),
            "mod": st.sampled_from(["asis", "asis", "asis", "f64", "bf16", "f16", "f32"]),
            "inp": st.sampled_from(["f32", "f32", "f64", "f64", "bf16", "f16"]),
            "auto": st.sampled_from(["off", "off", "bf16", "f16", "disabled"]),
            "default": st.sampled_from(["f32", "f32", "f32", "f64"]),
            "grad": st.booleans(),
            "dist": st.sampled_from([False, False, True]),
            "amp": weighted((2, st.just(0)), (3, st.sampled_from([-10, 6, 12, 12]))),
            "shift": weighted((1, st.just(0)), (1, st.sampled_from([-4, 4]))),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return any(c[k] not in ("f32", "asis", "off", "disabled") for k in ("mod", "inp", "auto", "default"))


def supported(c):
    """Combinations a user can rely on being accepted."""
    k, auto = c["layer"], c["auto"] in ("bf16", "f16")
    mod = c["mod"] if c["mod"] != "asis" else ("f64" if c["default"] == "f64" and k in ("conv", "convt", "attn", "nattn") else "f32")
    if k in SPECTRAL:
        return c["inp"] in ("f32", "f64") and not (auto and c["inp"] == "f32")
    if k in ("quad", "resample"):
        return True
    if k == "sconv":
        return c["mod"] == "asis"
    compiled = c["opt"] % 4 != 3
    if mod == "f32" and c["inp"] == "f32" and c["mod"] == "asis" and c["default"] == "f32":
        return True
    if mod == "f64" and c["inp"] == "f64" and not auto:
        return not (k == "nattn" and compiled)
    return False


def _params(m, c):
    with torch.no_grad():
        for j, p in enumerate(m.parameters()):
            g = torch.Generator().manual_seed(c["seed"] + 11 * j)
            v = (0.5 * torch.randn(p.shape + ((2,) if p.is_complex() else ()), generator=g)).to(torch.bfloat16).float()
            p.copy_(torch.view_as_complex(v) if p.is_complex() else v)


def _norm_factor(m, xs):
    """Normalising a small query or key amplifies the differences between precisions (PyTorch's own epsilon depends on the dtype)."""
    f = 1.0
    if getattr(m, "q_norm_weights", None) is None:
        return f
    with torch.no_grad():
        for w, x in (("q", xs[0]), ("k", xs[1])):
            z = torch.einsum("bc...,oc->bo...", x.double(), getattr(m, w + "_weights").double().flatten(1))
            b = getattr(m, w + "_bias", None)
            if b is not None:
                z = z + b.double().reshape(1, -1, 1, 1)
            r = float(z.reshape(z.shape[0], m.num_heads, -1, *z.shape[2:]).pow(2).mean(2).sqrt().min())
            f = max(f, 0.5 / max(r, 1e-9), (0.5 / max(r, 1e-9)) ** 2)
    return f


def check(c):
    if c["layer"] == "nattn" and c["opt"] % 4 == 3:
        c = {**c, "nlat": min(c["nlat"], 4), "nlat2": min(c["nlat2"], 4), "nlon": min(c["nlon"], 4)}
    if c["layer"] in ("attn", "nattn"):  # (the kernels of the distributed attention exist for GPUs only)
        c = {**c, "dist": False}
    if c["layer"] == "sconv" and c["mod"] != "asis":
        raise Discard("PyTorch itself drops the imaginary part of complex parameters on conversion to a real dtype")
    with sut("construction"):
        ref, xs, _, _, _ = c23._layer(c)
        torch.set_default_dtype(DT[c["default"]])
        try:
            m = c23._layer(c)[0]
        finally:
            torch.set_default_dtype(torch.float32)
    _params(ref, c)
    _params(m, c)
    # values representable exactly in every format
    # data of other magnitudes (still within every format's range) for the layers that are linear in it
    lin = c["layer"] not in ("attn", "nattn") and not (c["layer"] == "resample" and c["opt"] % 2)
    big = c["layer"] in ("resample", "quad")
    amp = 2.0 ** min(c.get("amp", 0), 12 if big else 6) if lin else 1.0
    shift = c.get("shift", 0) if lin else 0

    def rep(j, x):
        mk = lambda s: amp * (field(list(x.shape), s, "normal", torch.float32) + shift).to(torch.bfloat16).to(torch.float16).float()  # noqa: E731
        if x.is_complex():
            return torch.complex(mk(c["seed"] + j), mk(c["seed"] + j + 50))
        return mk(c["seed"] + j) * (0.25 if c["layer"] == "resample" else 1.0)

    xs = [rep(j, x) for j, x in enumerate(xs)]
    xr = [x.clone().requires_grad_(c["grad"]) for x in xs]
    with sut("float32 reference"):
        y0 = ref(*xr)
    if "f16" in (c["mod"], c["inp"], c["auto"]) and scale_of(y0) > 3e4 and (c["layer"] != "quad" or c["mod"] == "f16"):
        raise Discard("result beyond the range of the half format")
    w = field(list(y0.shape), c["seed"] + 5, "normal", torch.float32).to(torch.bfloat16).float()

    def red(y):
        return (torch.view_as_real(y.to(torch.complex64)) if y.is_complex() else y.float()).mul(w.unsqueeze(-1) if y.is_complex() else w).sum()

    if c["grad"]:
        red(y0).backward()
    conv = lambda x: (x.to(CX[c["inp"]]) if c["inp"] in CX else x) if x.is_complex() else x.to(DT[c["inp"]])  # noqa: E731
    xt = [conv(x).requires_grad_(c["grad"]) for x in xs]
    if xs[0].is_complex() and c["inp"] not in CX:
        raise Discard("no such complex type")
    try:
        if c["mod"] != "asis":
            m = m.to(DT[c["mod"]])
        if c["auto"] == "off":
            y = m(*xt)
        else:
            with torch.autocast("cpu", dtype=DT.get(c["auto"], torch.bfloat16), enabled=c["auto"] != "disabled"):
                y = m(*xt)
    except Exception as e:  # noqa: BLE001
        if supported(c):
            raise Violation(f"a supported combination is rejected: {type(e).__name__}: {str(e)[:200]}") from None
        event("rejected " + c["layer"])
        return
    event("accepted " + c["layer"])
    low = ["f32", c["mod"], c["inp"], c["auto"]]
    eps = max(EPS[DT[d]] for d in low if d in DT)
    s = max(scale_of(y0), (4.0 if c["layer"] == "quad" else 0.3) * scale_of(*xs), min(amp, 1.0) * 1e-2)  # a result may be small by cancellation
    k = (60 if eps < 1e-6 else 12) * _norm_factor(ref, xs)
    close(y, y0, "result", k * eps, scale=s)
    real = {torch.complex64: torch.float32, torch.complex128: torch.float64}.get(y.dtype, y.dtype)
    if c["layer"] in ("resample", "sconv"):
        expect(y.dtype == DT[c["inp"]], f"input {c['inp']} gives {y.dtype}")
    if c["layer"] in SPECTRAL and c["auto"] in ("off", "disabled"):
        expect(y.is_complex() == (c["layer"] in ("sht", "vsht")) and real == DT[c["inp"]], f"input {c['inp']} gives {y.dtype}")
    if c["inp"] == "f32" and c["mod"] in ("asis", "f32") and c["default"] == "f32" and c["auto"] in ("off", "disabled"):
        expect(y.dtype == y0.dtype, f"dtype {y.dtype}, expected {y0.dtype}")
    if c["grad"] and not (c["layer"] == "resample" and c["opt"] % 2):  # spherical interpolation weights of nearby values cancel
        try:
            red(y).backward()
        except Exception as e:  # noqa: BLE001
            if supported(c):
                raise Violation(f"backward of a supported combination fails: {type(e).__name__}: {str(e)[:200]}") from None
            event("backward rejected " + c["layer"])
            return
        # attention-like gradients pass through several rounded intermediates, and some vanish identically
        gr = [x.grad for x in xr] + [p.grad for p in ref.parameters()]
        if "f16" in (c["mod"], c["inp"], c["auto"]) and max(scale_of(g) for g in gr) > 1e4:
            raise Discard("gradient near the end of the range of the half format")
        gt = [x.grad for x in xt] + [p.grad for p in m.parameters()]
        top = max([scale_of(g) for g in gr] + [1e-2])
        names = [f"input {j}" for j in range(len(xr))] + [n for n, _ in ref.named_parameters()]
        owners = xt + list(m.parameters())
        for n, a, b, o in zip(names, gt, gr, owners):
            expect(a is not None and a.dtype == o.dtype, f"gradient of {n} has dtype {None if a is None else a.dtype}, the tensor {o.dtype}")
            close(a, b, f"gradient of {n}", 1.5 * k * eps, scale=top)
