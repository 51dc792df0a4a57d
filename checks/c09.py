"""C09: derivatives of the linear spherical operators are their adjoints."""
from checks.sphcommon import *  # noqa: F401,F403
from lib.common import *  # noqa: F401,F403
import torch_harmonics as th
from torch_harmonics.fft import irfft, rfft
from torch_harmonics.random_fields import GaussianRandomFieldS2

RULE = "case = linear operator x configuration x leading shape x layout x three random vectors; non-trivial: nlat >= 4"
BUDGET = {"quick": {"shards": 8, "examples": 900}, "thorough": {"shards": 8, "examples": 3000}}
ASSUMPTIONS = ["gradients of complex inputs follow PyTorch's convention (conjugate Wirtinger)"]
OPS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "spectral", "grf", "rfft", "irfft"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "op": st.sampled_from(OPS),
            "cfg": sht_config(14 if tier == "quick" else 40, tail=140),
            "out": st.tuples(st.integers(2, 18), st.integers(2, 30)),
            "grid_out": st.sampled_from(GRIDS3),
            "lead": st.lists(st.integers(1, 2), max_size=2),
            "layout": st.sampled_from(LAYOUTS),
            "amp": st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e9]),
            "ampu": st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e9]),
            "fft": st.tuples(st.integers(0, 2), st.one_of(st.none(), st.integers(1, 40)), st.sampled_from([None, "forward", "backward", "ortho"])),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["cfg"]["nlat"] >= 4


def inner(a, b):
    if a.is_complex() or b.is_complex():
        return (torch.conj(a.to(torch.complex128)) * b.to(torch.complex128)).sum().real
    return (a.double() * b.double()).sum()


def check(c):
    g = c["cfg"]
    op = c["op"]
    event(op)
    dt = dtype_of(c["dtype"])
    cdt = torch.complex128 if dt == torch.float64 else torch.complex64
    lm, mm = expected_trunc(g["nlat"], g["nlon"], g["lmax"], g["mmax"], g["grid"])
    sp_shape = [g["nlat"], g["nlon"]]
    mk = lambda s: field(c["lead"] + sp_shape, s, "normal", dt)  # noqa: E731
    tol = 1e-10 if dt == torch.float64 else 2e-4
    with sut(op):
        if op == "sht":
            A = th.RealSHT(*sp_shape, **kwargs(g))
        elif op == "isht":
            A = th.InverseRealSHT(*sp_shape, **kwargs(g))
            mk = lambda s: coeffs(c["lead"], lm, mm, s, "normal", cdt, True)  # noqa: E731
        elif op == "vsht":
            A = th.RealVectorSHT(*sp_shape, **kwargs(g))
            mk = lambda s: field(c["lead"] + [2] + sp_shape, s, "normal", dt)  # noqa: E731
        elif op == "ivsht":
            A = th.InverseRealVectorSHT(*sp_shape, **kwargs(g))
            mk = lambda s: coeffs(c["lead"] + [2], lm, mm, s, "normal", cdt, True)  # noqa: E731
        elif op == "quad":
            A = th.QuadratureS2(tuple(sp_shape), grid=g["grid"])
        elif op == "resample":
            A = th.ResampleS2(*sp_shape, *c["out"], grid_in=g["grid"], grid_out=c["grid_out"])
        elif op == "spectral":
            if min(expected_trunc(g["nlat"], g["nlon"], None, None, g["grid"])) < 1:
                raise Discard
            torch.manual_seed(c["seed"])
            A = th.SpectralConvS2(tuple(sp_shape), tuple(c["out"]), 2, 4, num_groups=2, grid_in=g["grid"], grid_out=c["grid_out"], bias=True)
            with torch.no_grad():
                A.spectral_bias.copy_(coeffs([1, 2], A.lmax, A.mmax, c["seed"], "normal", torch.complex64))
            mk = lambda s: field([2, 2] + sp_shape, s, "normal", dt)  # noqa: E731
            tol = 3e-4
        elif op in ("rfft", "irfft"):
            ax, n, norm = c["fft"]
            shape = [2, 1 + g["nlat"] % 5] if ax < 2 else [g["nlat"]]
            shape.insert(ax if ax < 2 else 1, max(2, g["nlon"]))
            if op == "rfft":
                A = lambda z: rfft(z, nmodes=n, dim=ax if ax < 2 else -1, norm=norm)  # noqa: E731
                mk = lambda s: field(shape, s, "normal", dt)  # noqa: E731
            else:
                A = lambda z: irfft(z, n=n, dim=ax if ax < 2 else -1, norm=norm)  # noqa: E731
                mk = lambda s: torch.complex(field(shape, s, "normal", dt), field(shape, s + 77, "normal", dt))  # noqa: E731
        else:
            nl = max(2, g["nlat"])
            G = GaussianRandomFieldS2(nl, grid=g["grid"], dtype=dt)
            l2, m2 = expected_trunc(nl, 2 * nl, None, None, g["grid"])
            A = lambda z: G(z.shape[0], z)  # noqa: E731
            mk = lambda s: coeffs([2], l2, m2, s, "normal", cdt, True)  # noqa: E731
    s = c["seed"]
    mk0 = mk
    mk = lambda s: mk0(s) * c.get("amp", 1.0)  # noqa: E731
    x = layout(mk(s), c["layout"]).detach()
    v = mk(s + 1000003)
    with torch.no_grad(), sut(op):
        Av = A(v)
    x.requires_grad_(True)
    with sut(f"{op} with gradients"):
        y = A(x)
    u = field(y.shape, s + 7, "normal", torch.float64)
    if y.is_complex():
        u = torch.complex(u, field(y.shape, s + 8, "normal", torch.float64))
    u = (u * c.get("ampu", 1.0)).to(y.dtype)
    with sut(f"{op} backward"):
        (gx,) = torch.autograd.grad(y, x, grad_outputs=u, create_graph=False)
    expect(gx.shape == x.shape and gx.dtype == x.dtype, f"gradient {tuple(gx.shape)} {gx.dtype} for input {tuple(x.shape)} {x.dtype}")
    expect(bool(torch.isfinite(torch.view_as_real(gx) if gx.is_complex() else gx).all()), "gradient not finite")
    lhs = float(inner(gx, v))
    rhs = float(inner(u, Av))
    mag = float(torch.linalg.vector_norm(u) * torch.linalg.vector_norm(Av)) + float(torch.linalg.vector_norm(gx) * torch.linalg.vector_norm(v)) + 1e-30
    expect(abs(lhs - rhs) <= tol * mag, lambda: f"{op}: <A^T u, v> = {lhs}, <u, A v> = {rhs} (scale {mag:.2e})")
    # linearity of the operator itself
    with torch.no_grad(), sut(op):
        y2 = A(mk(s) * 2.0 - v * 3.0)
    ref = 2.0 * y.detach() - 3.0 * Av
    close(y2, ref, f"{op} is not linear", tol * 10, scale=max(scale_of(y), scale_of(Av), 1e-30))
