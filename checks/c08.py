"""C08: real FFT helpers."""
import math

from checks.sphcommon import *  # noqa: F401,F403
from lib.common import *  # noqa: F401,F403
from torch_harmonics.fft import irfft, rfft

RULE = "case = shape x transform dim x number of modes / samples x normalisation x dtype; non-trivial: length >= 3"
BUDGET = {"quick": {"shards": 8, "examples": 2100}, "thorough": {"shards": 8, "examples": 8000}}


def strategy(tier):
    n = weighted((5, st.integers(1, 9)), (10, st.integers(1, 40)), (5, st.integers(40, 130)), (1, st.integers(130, 900)))
    return st.fixed_dictionaries(
        {
            "shape": st.lists(st.integers(1, 4), max_size=3),
            "n": n,
            "dim": st.integers(0, 3),
            "neg": st.booleans(),
            "nmodes": st.one_of(st.none(), st.integers(1, 70), st.integers(1, 500)),
            "k": st.integers(2, 70),
            "nout": st.one_of(st.none(), n),
            "norm": st.sampled_from([None, "forward", "backward", "ortho"]),
            "dtype": st.sampled_from(["f64", "f64", "f32"]),
            "layout": st.sampled_from(LAYOUTS),
            "kind": kinds(),
            "inverse": st.booleans(),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["n"] >= 3


def dft(x, dim):
    n = x.shape[dim]
    k = torch.arange(n // 2 + 1, dtype=torch.float64)
    j = torch.arange(n, dtype=torch.float64)
    ang = 2 * math.pi * torch.remainder(k[:, None] * j[None, :], n) / n
    x = x.movedim(dim, -1).double()
    y = torch.complex(torch.einsum("...j,kj->...k", x, torch.cos(ang)), -torch.einsum("...j,kj->...k", x, torch.sin(ang)))
    return y.movedim(-1, dim)


def idft(c, n, dim):
    c = c.movedim(dim, -1).to(torch.complex128)
    K = n // 2 + 1
    if c.shape[-1] < K:
        c = torch.nn.functional.pad(c, (0, K - c.shape[-1]))
    c = c[..., :K]
    k = torch.arange(K, dtype=torch.float64)
    j = torch.arange(n, dtype=torch.float64)
    f = torch.full((K,), 2.0, dtype=torch.float64)
    f[0] = 1.0
    g = f.clone()
    g[0] = 0.0
    if n % 2 == 0:
        f[n // 2] = 1.0
        g[n // 2] = 0.0
    ang = 2 * math.pi * torch.remainder(k[:, None] * j[None, :], n) / n
    y = torch.einsum("...k,kj->...j", c.real * f, torch.cos(ang)) - torch.einsum("...k,kj->...j", c.imag * g, torch.sin(ang))
    return y.movedim(-1, dim)


def check(c):
    dt = dtype_of(c["dtype"])
    tol = 1e-12 if dt == torch.float64 else 3e-6
    nd = len(c["shape"]) + 1
    dim = c["dim"] % nd
    kw = {} if c["norm"] is None else {"norm": c["norm"]}
    d = dim - nd if c["neg"] else dim
    event("inverse" if c["inverse"] else "forward")
    if not c["inverse"]:
        shape = c["shape"][:dim] + [c["n"]] + c["shape"][dim:]
        x = layout(field(shape, c["seed"], c["kind"], dt), c["layout"] if nd >= 2 or c["layout"] in ("strided", "offset") else "contiguous")
        x0 = x.clone()
        with sut("rfft"):
            y = rfft(x, nmodes=c["nmodes"], dim=d, **kw)
        expect(torch.equal(x, x0), "the input was modified")
        n = c["n"]
        ref = dft(x, dim) * {None: 1.0, "backward": 1.0, "forward": 1.0 / n, "ortho": n**-0.5}[c["norm"]]
        K = n // 2 + 1
        if c["nmodes"] is not None:
            M = c["nmodes"]
            event("pad" if M > K else "cut" if M < K else "same")
            ref = ref.movedim(dim, -1)
            ref = torch.nn.functional.pad(ref, (0, M - K)) if M > K else ref[..., :M]
            ref = ref.movedim(-1, dim)
        close(y, ref, "rfft", tol * n, scale=max(scale_of(x), 1e-30))
        expect(y.dtype == (torch.complex128 if dt == torch.float64 else torch.complex64), f"dtype {y.dtype}")
        with sut("irfft"):
            back = irfft(rfft(x, dim=d, **kw), n=n, dim=d, **kw)
        close(back, x.double(), "irfft(rfft(x))", tol * 10, scale=max(scale_of(x), 1e-30))
        must_raise("rfft(n=...)", lambda: rfft(x, n=n, dim=d), (ValueError,))
    else:
        K = c["k"]
        shape = c["shape"][:dim] + [K] + c["shape"][dim:]
        z = torch.complex(field(shape, c["seed"], c["kind"], dt), field(shape, c["seed"] + 1, c["kind"], dt))
        z = layout(z, c["layout"] if nd >= 2 else "contiguous")
        z0 = z.clone()
        nout = c["nout"]
        with sut("irfft"):
            y = irfft(z, n=nout, dim=d, **kw)
        expect(torch.equal(z, z0), "the input was modified")
        n = nout if nout is not None else 2 * (K - 1)
        ref = idft(z, n, dim) * {None: 1.0 / n, "backward": 1.0 / n, "forward": 1.0, "ortho": n**-0.5}[c["norm"]]
        close(y, ref, "irfft", tol * n, scale=max(scale_of(z), 1e-30))
        expect(y.dtype == dt, f"dtype {y.dtype}")
