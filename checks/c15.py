"""C15: filter normalisation modes give the unit responses they promise, for plain and transposed DISCO convolutions."""
import math

from checks.discocommon import *  # noqa: F401,F403
import torch_harmonics as th

RULE = "case = basis x shape x mode x grid pair x cutoff x direction; the layer is applied to a constant field with one filter switched on; non-trivial: at least one filter has a well-conditioned normalisation"
BUDGET = {"quick": {"shards": 8, "examples": 600}, "thorough": {"shards": 8, "examples": 4000}}
ASSUMPTIONS = ["output latitudes where a filter sees fewer than two points are skipped", "responses of ill-conditioned normalisations (sum below 1e-6 of the filter maximum) are skipped"]


def strategy(tier):
    hi = 9 if tier == "quick" else 20

    @st.composite
    def s(draw):
        tr = draw(st.booleans())
        return {"tr": tr, "k": draw(kernels()), "g": draw(geometry(hi, tr)), "mode": draw(st.sampled_from(["nodal", "modal", "mean", "support", "geometric"])), "seed": draw(seeds())}

    return s()


_nt = {}


def nontrivial(c):
    return _nt.get("v", False)


def response(c, mode, k=None, x=None):
    """Layer output (K, nlat, nlon): response of every filter to a constant field."""
    g, kk = c["g"], c["k"]
    arg, _ = cutoff(g, c["tr"])
    cls = th.DiscreteContinuousConvTransposeS2 if c["tr"] else th.DiscreteContinuousConvS2
    K = D.kernel_size(kk["basis"], kk["ks"])
    with sut(f"layer with {mode}"):
        m = cls(1, K, tuple(g["in"]), tuple(g["out"]), hashable(kk["ks"]), basis_type=kk["basis"], basis_norm_mode=mode, grid_in=g["grid_in"], grid_out=g["grid_out"], bias=False, theta_cutoff=arg).double()
        with torch.no_grad():
            m.weight.zero_()
            m.weight[:, 0, :] = torch.eye(K, dtype=torch.float64)
            return m(torch.ones(1, 1, *g["in"], dtype=torch.float64) if x is None else x)[0]


def check(c):
    g, kk = c["g"], c["k"]
    _nt["v"] = False
    event(("transposed " if c["tr"] else "") + c["mode"])
    raw = response(c, "none")
    y = response(c, c["mode"])
    expect(tuple(y.shape) == (raw.shape[0], *g["out"]), f"shape {tuple(y.shape)}")
    mode = c["mode"]
    iso = torch.tensor(D.isotropic(kk["basis"], kk["ks"]))
    nonneg = kk["basis"] == "piecewise linear"
    # responses to a constant do not depend on the longitude
    step = 1 if not c["tr"] else g["out"][1] // g["in"][1]
    s = max(1.0, scale_of(y))
    if c["tr"]:
        if step == 1:
            close(y, y[..., :1].expand_as(y), "longitude dependence of the response to a constant", 1e-7, scale=s)
        y, raw = y.mean(-1), raw.mean(-1)
    else:
        close(y, y[..., :1].expand_as(y), "longitude dependence of the response to a constant", 1e-9, scale=s)
        y, raw = y[..., 0], raw[..., 0]
    if mode == "geometric":
        _, cut = cutoff(g, c["tr"])
        _nt["v"] = bool((raw.abs() > 1e-12).any())
        close(y, raw / max((1 - math.cos(cut)) / 4, 1e-9), "geometric normalisation", 1e-9, scale=max(scale_of(raw) / max((1 - math.cos(cut)) / 4, 1e-9), 1e-30))
        return
    if nonneg and mode in ("nodal", "mean"):
        ok = raw > 1e-6
        _nt["v"] = bool(ok.any())
        if mode == "nodal":
            close(torch.where(ok, y, torch.ones_like(y)), torch.ones_like(y), "nodal response to a constant", 1e-6)
        else:
            z = y.mean(-1)
            okk = raw.mean(-1) > 1e-6
            close(torch.where(okk, z, torch.ones_like(z)), torch.ones_like(z), "mean response to a constant over the latitudes", 1e-6)
            close(y * raw.mean(-1, keepdim=True), raw, "mean normalisation is one factor per filter", 1e-6, scale=max(scale_of(raw), 1e-30))
    elif mode == "modal":
        # every directional filter annihilates constants
        _nt["v"] = bool((~iso).any())
        z = y[~iso]
        close(z, torch.zeros_like(z), "modal response of directional filters to a constant", 1e-5, scale=1.0, atol=1e-6)
        if nonneg and bool(iso.any()):
            zi, ri = y[iso], raw[iso]
            ok = ri > 1e-6
            close(torch.where(ok, zi, torch.ones_like(zi)), torch.ones_like(zi), "modal response of radial filters to a constant", 1e-6)
    elif mode == "support":
        # a weighted mean of the filter over its support
        if nonneg:
            _nt["v"] = bool((raw > 1e-6).any())
            expect(bool(((y >= -1e-9) & (y <= 1 + 1e-6)).all()), f"support-normalised response of a hat function is outside [0, 1]: {float(y.min())} .. {float(y.max())}")
    if mode in ("nodal", "support", "modal") and not c["tr"]:
        old = {"nodal": "individual"}.get(mode)
        if old:
            with sut("deprecated mode name"):
                z = response(c, old)[..., 0]
            expect(torch.equal(z, y), "the deprecated name of the mode gives another result")
    # a layer is bounded by its response: |output| <= 1 for |input| <= 1 in nodal and modal mode
    if mode in ("nodal", "modal") and not c["tr"]:
        x = field([1, 1] + g["in"], c["seed"])
        x = x / x.abs().max()
        z = response(c, mode, x=x)
        expect(float(z.abs().max()) <= 1 + 1e-5, f"{mode} normalisation: output {float(z.abs().max())} exceeds the input maximum 1")
