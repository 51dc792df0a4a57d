"""C23: inputs and arguments outside a layer's declared domain are rejected with an exception, never turned into a result or a crash."""
import torch
import torch_harmonics as th
from hypothesis import strategies as st
from torch_harmonics.fft import irfft, rfft
from torch_harmonics.filter_basis import get_filter_basis
from torch_harmonics.quadrature import precompute_latitudes
from torch_harmonics.random_fields import GaussianRandomFieldS2
from torch_harmonics.truncation import truncate_sht

from lib.common import GRIDS3, field, seeds
from lib.harness import Discard, event, expect, must_raise, sut

RULE = "case = a valid layer and input with one extent, rank, channel count, batch size or type perturbed, or a constructor with one argument out of range; non-trivial: the perturbation really changes the shape or argument"
BUDGET = {"quick": {"shards": 8, "examples": 2200}, "thorough": {"shards": 8, "examples": 30000}}
ASSUMPTIONS = [
    "any Python exception of an ordinary kind (ValueError, RuntimeError, TypeError, ...) counts as a rejection",
    "unknown SHT normalisation names are accepted by design (the test suite uses one), and AttentionS2 broadcasts a batch of one",
]

LAYERS = ["sht", "isht", "vsht", "ivsht", "quad", "resample", "sconv", "conv", "convt", "attn", "nattn", "loss"]
CTORS = [
    "grid", "grid_out", "latgrid", "truncgrid", "nlat<2", "lonmult", "groups_in", "groups_out", "cutoff", "basis", "normmode", "basis_shape", "heads_k", "heads_out", "resmode", "alpha", "rfft_n",
]
KINDS = (ValueError, RuntimeError, TypeError, AssertionError, NotImplementedError, IndexError, KeyError, ZeroDivisionError)


def strategy(tier):
    d = st.integers(2, 7)
    return st.one_of(
        st.fixed_dictionaries(
            {
                "what": st.just("shape"),
                "layer": st.sampled_from(LAYERS),
                "nlat": d,
                "nlon": st.integers(1, 8),
                "nlat2": d,
                "mult": st.integers(1, 3),
                "ci": st.integers(1, 4),
                "groups": st.integers(1, 3),
                "grid": st.integers(0, 2),
                "opt": st.integers(0, 11),
                "which": st.integers(0, 2),
                "pert": st.sampled_from(["extent", "extent", "swap", "rank", "channels", "batch", "type", "transposeall"]),
                "axis": st.integers(0, 3),
                "to": st.one_of(st.sampled_from([1, 101, 102, 103, 104]), st.integers(1, 10)),
                "dist": st.booleans(),
                "seed": seeds(),
            }
        ),
        st.fixed_dictionaries(
            {
                "what": st.just("ctor"),
                "layer": st.sampled_from(LAYERS + ["grf"]),
                "arg": st.sampled_from(CTORS),
                "dist": st.booleans(),
                "v": st.integers(0, 30),
                "nlat": st.integers(2, 8),
                "nlon": st.integers(2, 9),
            }
        ),
    )


def nontrivial(c):
    return True


# the error must not come from an accidental numerical failure: these perturbations are all detectable from shapes and types alone
class _Dist:
    """The distributed layers without process groups (one process)."""

    def __getattr__(self, n):
        import torch_harmonics.distributed as thd

        return getattr(thd, "Distributed" + n)


def _cls(dist):
    return _Dist() if dist else th


def _layer(c):
    """(module, list of valid inputs, axes whose extent is fixed per input, channel axis or None, expected output shape)"""
    g = GRIDS3[c["grid"]]
    nlat, nlon, o = c["nlat"], c["nlon"], c["opt"]
    k = c["layer"]
    T = _cls(c.get("dist"))
    R = lambda *s: field(list(s), c["seed"], "normal", torch.float32)  # noqa: E731
    C = lambda *s: torch.complex(R(*s), R(*s))  # noqa: E731
    lead = [[], [2], [2, 3]][o % 3]
    if c.get("dist") and (k.endswith("sht") or k == "resample"):
        lead = lead or [3]  # the distributed transforms need a channel dimension
    G = c["groups"]
    if k in ("sht", "vsht"):
        m = (T.RealSHT if k == "sht" else T.RealVectorSHT)(nlat, nlon, grid=g)
        lead = lead + ([] if k == "sht" else [2])
        return m, [R(*lead, nlat, nlon)], [-2, -1] + ([] if k == "sht" else [-3]), None, (*lead, m.lmax, m.mmax)
    if k in ("isht", "ivsht"):
        m = (T.InverseRealSHT if k == "isht" else T.InverseRealVectorSHT)(nlat, nlon, grid=g)
        lead = lead + ([] if k == "isht" else [2])
        return m, [C(*lead, m.lmax, m.mmax)], [-2, -1] + ([] if k == "isht" else [-3]), None, (*lead, nlat, nlon)
    if k == "quad":
        return T.QuadratureS2((nlat, nlon), grid=g, normalize=o % 2 == 0), [R(*lead, nlat, nlon)], [-2, -1], None, tuple(lead)
    if k == "resample":
        nlon = nlon + 1
        return T.ResampleS2(nlat, nlon, c["nlat2"], nlon + o, grid_in=g, mode=["bilinear", "bilinear-spherical"][o % 2]), [0.1 * R(*lead, nlat, nlon)], [-2, -1], None, (*lead, c["nlat2"], nlon + o)
    fine, coarse = (nlat, nlon * c["mult"]), (c["nlat2"], nlon)
    if k == "sconv":
        m = T.SpectralConvS2(fine, coarse, G * c["ci"], G * 2, num_groups=G, grid_in=g, bias=o % 2 == 0)
        return m, [R(2, G * c["ci"], *fine)], [-2, -1], -3, (2, G * 2, *coarse)
    if k in ("conv", "convt"):
        i, t = (fine, coarse) if k == "conv" else (coarse, fine)
        cls = T.DiscreteContinuousConvS2 if k == "conv" else T.DiscreteContinuousConvTransposeS2
        m = cls(G * c["ci"], G * 2, i, t, [2, (2, 2), 3][o % 3], groups=G, grid_in=g, theta_cutoff=1.0, optimized_kernel=o % 4 != 3, bias=c["seed"] % 2 == 0)
        return m, [R(2, G * c["ci"], *i)], [-2, -1], -3, (2, G * 2, *t)
    if k in ("attn", "nattn"):
        i, t = (fine, coarse) if k == "attn" or o % 2 else (coarse, fine)
        h, e = c["groups"], c["groups"] * c["ci"]
        v = c["seed"]
        oc = [None, None, h, 2 * h, 3 * h][v // 16 % 5]
        kc = [None, None, h, 2 * h, 4 * h][v // 4 % 5]
        # normalising one or two numbers amplifies rounding without bound
        kw = {"use_qknorm": v % 2 == 1 and (kc or e) >= 3 * h, "bias": v // 2 % 2 == 0, "k_channels": kc, "out_channels": oc}
        if k == "attn":
            m = th.AttentionS2(e, h, i, t, grid_in=g, grid_out=g, **kw)
        else:
            m = T.NeighborhoodAttentionS2(e, i, t, grid_in=g, grid_out=g, num_heads=h, theta_cutoff=3.0, optimized_kernel=o % 4 != 3, **kw)
        return m, [R(2, e, *t), R(2, e, *i), R(2, e, *i)], [-2, -1], -3, (2, oc or e, *t)
    if k == "loss":
        m = th.examples.losses.CrossEntropyLossS2(nlat, nlon, grid=g) if o % 2 else th.examples.losses.DiceLossS2(nlat, nlon, grid=g)
        tgt = (R(2, nlat, nlon).abs() * 10).long() % 3
        return m, [R(2, 3, nlat, nlon), tgt], [-2, -1], None, ()
    raise KeyError(k)


def _to(c, n):
    """The new extent: absolute, or relative to the valid one."""
    t = c["to"]
    return t if t < 100 else max(1, [n + 1, n - 1, 2 * n, n // 2][t - 101])


def start(tier):
    from lib import ringops

    ringops.install()


def _shape_case(c):
    with sut("valid construction"):
        m, xs, axes, ch, want = _layer(c)
    with torch.no_grad(), sut("valid input"):
        y0 = m(*xs)
    expect(tuple(y0.shape) == tuple(want), f"valid input gives shape {tuple(y0.shape)}, expected {tuple(want)}")
    w = c["which"] % len(xs)
    if c["layer"] == "loss":
        w = 0
    x, p = xs[w], c["pert"]
    shape = list(x.shape)
    if p == "extent":
        a = axes[c["axis"] % len(axes)]
        shape[a] = _to(c, shape[a])
        if c["layer"] == "loss" and (shape[a] == 1 or x.shape[a] == 1):
            raise Discard("broadcastable loss target")
    elif p == "swap":
        if c["layer"] == "loss":
            raise Discard("broadcastable loss target")
        shape[-1], shape[-2] = shape[-2], shape[-1]
    elif p == "rank":
        if ch is not None:
            shape = shape[1:] if c["axis"] % 2 else [1] + shape
        else:
            keep = 1 if c["layer"] not in ("vsht", "ivsht") else 2
            if c["dist"] and c["layer"].endswith("sht") and c["axis"] % 2:
                keep += 1  # one dimension short of the declared minimum
            shape = shape[-keep:]
            if c["layer"] == "loss":
                raise Discard("loss rank")
    elif p == "channels":
        if ch is None:
            raise Discard("no channel axis")
        shape[ch] = _to(c, shape[ch])
    elif p == "batch":
        if c["layer"] != "nattn":
            raise Discard("only the neighbourhood attention has several batched inputs without broadcasting")
        shape[0] = 1 if c["to"] % 2 else 3
    elif p == "type":
        if c["layer"] in ("quad", "loss"):
            raise Discard("any number type can be integrated")
        if c["layer"] in ("sconv", "conv", "convt"):
            raise Discard("casts or promotes")
        if c["layer"] in ("attn", "nattn"):
            bad = list(xs)
            bad[w] = x.double()
            if c["layer"] == "nattn" and len(set(t.dtype for t in bad)) == 1:
                raise Discard("same type")
        elif c["layer"] == "resample":
            raise Discard("resampling follows the input type")
        elif c["layer"] in ("isht", "ivsht"):
            bad = [x.real]
        else:
            bad = [torch.complex(x, x)]
        event("type " + c["layer"])
        with torch.no_grad():
            must_raise(f"{c['layer']} input {w} of type {bad[w].dtype}", lambda: m(*bad), KINDS)
        return
    elif p == "transposeall":
        # same number of points, wrong arrangement: every input is affected
        if c["layer"] == "loss" or shape[-1] == shape[-2]:
            raise Discard("square or loss")
        bad = [t.reshape(*t.shape[:-2], t.shape[-1], t.shape[-2]) if t.shape[-1] != t.shape[-2] else t for t in xs]
        with torch.no_grad():
            must_raise(f"{c['layer']} inputs {[tuple(t.shape) for t in bad]} for {[tuple(t.shape) for t in xs]}", lambda: m(*bad), KINDS)
        event(p + " " + c["layer"])
        return
    if tuple(shape) == tuple(x.shape):
        raise Discard("unchanged")
    if c["layer"] == "attn" and p == "rank" and shape[0] == 1 and len(shape) == 5:
        pass
    n = 1
    for s in shape:
        n *= s
    bad = list(xs)
    base = torch.complex(torch.ones(n), torch.ones(n)) if x.is_complex() else 0.3 * torch.ones(n)
    bad[w] = base.reshape(shape)
    event(f"{p} {c['layer']}")
    with torch.no_grad():
        must_raise(f"{c['layer']} input {w} of shape {tuple(shape)} where {tuple(x.shape)} is declared", lambda: m(*bad), KINDS)
        with sut("valid input after a rejection"):
            y1 = m(*xs)
    expect(torch.equal(y0, y1), "a rejected call changed the layer")


def _ctor_case(c):
    a, v, nlat, nlon, k = c["arg"], c["v"], c["nlat"], c["nlon"], c["layer"]
    L = th.examples.losses
    T = _Dist() if c.get("dist") else th
    if a in ("grid", "grid_out"):
        bad = ["gauss", "Equiangular", "", "legendre gauss", "lobato", "equiangular "][v % 6]
        two = {
            "resample": lambda **kw: T.ResampleS2(nlat, nlon, nlat, nlon, **kw),
            "sconv": lambda **kw: T.SpectralConvS2((nlat, nlon), (nlat, nlon), 1, 1, **kw),
            "conv": lambda **kw: T.DiscreteContinuousConvS2(1, 1, (nlat, nlon), (nlat, nlon), 2, **kw),
            "convt": lambda **kw: T.DiscreteContinuousConvTransposeS2(1, 1, (nlat, nlon), (nlat, nlon), 2, **kw),
            "nattn": lambda **kw: T.NeighborhoodAttentionS2(1, (nlat, nlon), (nlat, nlon), **kw),
        }
        if k in two:
            fn = lambda: two[k](**{a if a == "grid_out" else "grid_in": bad})  # noqa: E731
        elif k == "attn":
            fn = lambda: th.AttentionS2(1, 1, (nlat, nlon), (nlat, nlon), grid_in=bad)  # noqa: E731
        else:
            cls = {"sht": T.RealSHT, "isht": T.InverseRealSHT, "vsht": T.RealVectorSHT, "ivsht": T.InverseRealVectorSHT}.get(k)
            if cls is not None:
                fn = lambda: cls(nlat, nlon, grid=bad)  # noqa: E731
            elif k == "quad":
                fn = lambda: T.QuadratureS2((nlat, nlon), grid=bad)  # noqa: E731
            elif k == "loss":
                fn = lambda: L.CrossEntropyLossS2(nlat, nlon, grid=bad)  # noqa: E731
            else:
                fn = lambda: GaussianRandomFieldS2(nlat, grid=bad)  # noqa: E731
        what = f"{k} on grid {bad!r}"
    elif a == "latgrid":
        fn, what = lambda: precompute_latitudes(nlat, grid="gauss" + str(v)), "unknown latitude grid"
    elif a == "truncgrid":
        fn, what = lambda: truncate_sht(nlat, nlon, grid="gauss" + str(v)), "unknown grid"
    elif a == "nlat<2":
        n = [1, 0, -1, -3][v % 4]
        cls = {"isht": T.InverseRealSHT, "vsht": T.RealVectorSHT, "ivsht": T.InverseRealVectorSHT}.get(k, T.RealSHT)
        fn, what = lambda: cls(n, nlon), f"{n} latitudes on the equiangular grid"
    elif a == "lonmult":
        w2 = 2 + v % 9
        if k in ("attn", "conv"):
            if nlon % w2 == 0:
                raise Discard("valid")
            fn = (lambda: th.AttentionS2(1, 1, (nlat, nlon), (nlat, w2))) if k == "attn" else (lambda: T.DiscreteContinuousConvS2(1, 1, (nlat, nlon), (nlat, w2), 2))
        elif k == "convt":
            if w2 % nlon == 0:
                raise Discard("valid")
            fn = lambda: T.DiscreteContinuousConvTransposeS2(1, 1, (nlat, nlon), (nlat, w2), 2)  # noqa: E731
        else:
            if nlon % w2 == 0 or w2 % nlon == 0:
                raise Discard("valid")
            fn = lambda: T.NeighborhoodAttentionS2(1, (nlat, nlon), (nlat, w2))  # noqa: E731
        what = f"{k}: longitudes {nlon} -> {w2}"
    elif a in ("groups_in", "groups_out"):
        G = 2 + v % 3
        ch = G * (1 + v % 2) + 1 + v % (G - 1)
        ci, co = (ch, 2 * G) if a == "groups_in" else (2 * G, ch)
        fn = {
            "sconv": lambda: T.SpectralConvS2((nlat, nlon), (nlat, nlon), ci, co, num_groups=G),
            "convt": lambda: T.DiscreteContinuousConvTransposeS2(ci, co, (nlat, nlon), (nlat, nlon), 2, groups=G),
        }.get(k, lambda: T.DiscreteContinuousConvS2(ci, co, (nlat, nlon), (nlat, nlon), 2, groups=G))
        what = f"channels {ci} -> {co} in {G} groups"
    elif a == "cutoff":
        t = [0.0, -0.1, -3.0][v % 3]
        fn = {
            "nattn": lambda: T.NeighborhoodAttentionS2(1, (nlat, nlon), (nlat, nlon), theta_cutoff=t),
            "convt": lambda: T.DiscreteContinuousConvTransposeS2(1, 1, (nlat, nlon), (nlat, nlon), 2, theta_cutoff=t),
        }.get(k, lambda: T.DiscreteContinuousConvS2(1, 1, (nlat, nlon), (nlat, nlon), 2, theta_cutoff=t))
        what = f"cutoff {t}"
    elif a == "basis":
        b = ["Zernike", "piecewise-linear", "", "bessel"][v % 4]
        cls = T.DiscreteContinuousConvTransposeS2 if k == "convt" else T.DiscreteContinuousConvS2
        fn, what = lambda: cls(1, 1, (nlat, nlon), (nlat, nlon), 2, basis_type=b), f"basis {b!r}"
    elif a == "normmode":
        b = ["Mean", "l2", "", "individual-mode"][v % 4]
        cls = T.DiscreteContinuousConvTransposeS2 if k == "convt" else T.DiscreteContinuousConvS2
        fn, what = lambda: cls(1, 1, (nlat, nlon), (nlat, nlon), 2, basis_norm_mode=b), f"normalisation {b!r}"
    elif a == "basis_shape":
        b, ks = [("piecewise linear", (1, 2, 3)), ("harmonic", (1, 2, 3)), ("zernike", 2.5), ("morlet", (3,)), ("fourier-bessel", (1, 2, 3)), ("zernike", "3"), ("fourier-bessel", 2.5), ("harmonic", (2,))][v % 8]
        fn, what = lambda: get_filter_basis(ks, b), f"{b} with shape {ks!r}"
    elif a in ("heads_k", "heads_out"):
        h = 2 + v % 3
        ch = h * (1 + v % 2) + 1 + v % (h - 1)
        kw = {"k_channels" if a == "heads_k" else "out_channels": ch}
        fn = (lambda: th.AttentionS2(h * 2, h, (nlat, nlon), (nlat, nlon), **kw)) if v % 2 else (lambda: T.NeighborhoodAttentionS2(h * 2, (nlat, nlon), (nlat, nlon), num_heads=h, **kw))
        what = f"{h} heads with {kw}"
    elif a == "resmode":
        b = ["nearest", "Bilinear", "", "spherical"][v % 4]
        fn, what = lambda: T.ResampleS2(nlat, nlon, nlat, nlon, mode=b), f"mode {b!r}"
    elif a == "alpha":
        al = [1.0, 0.5, 0.0, -1.0][v % 4]
        fn, what = lambda: GaussianRandomFieldS2(nlat, alpha=al), f"alpha {al} with the default sigma"
    else:
        x = torch.ones(nlon)
        fn, what = lambda: rfft(x, n=1 + v), "rfft with the ambiguous length argument"
    event(("distributed " if T is not th else "") + "ctor " + a)
    must_raise(what, fn, KINDS)


def check(c):
    (_shape_case if c["what"] == "shape" else _ctor_case)(c)
