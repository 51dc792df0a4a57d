"""C28: the spherical losses and metrics equal their area-weighted definitions."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from lib import oracles
from lib.common import GRIDS3, close, field, scale_of, seeds
from lib.harness import Discard, Violation, event, expect, known, sut

RULE = "case = loss or metric x grid x classes x class weights x mode x ignored pixels x mask x data; non-trivial: more than one latitude row contributes (always) and at least two classes or a mask"
BUDGET = {"quick": {"shards": 8, "examples": 3000}, "thorough": {"shards": 8, "examples": 12000}}
ASSUMPTIONS = ["float32 weights: 3e-6 of the magnitude", "NormalLossS2 is compared with its normal-consistency term (the L1 term named in its description is not part of it)"]

WHICH = ["ce", "focal", "dice", "iou", "acc", "l1", "l2sq", "l2", "w11", "normal"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "which": st.sampled_from(WHICH),
            "nlat": st.integers(2, 9),
            "nlon": st.integers(1, 10),
            "grid": st.integers(0, 2),
            "B": st.integers(1, 3),
            "K": st.integers(1, 5),
            "weight": st.booleans(),
            "mode": st.sampled_from(["micro", "macro"]),
            "smooth": st.sampled_from([0.0, 0.0, 0.1, 1.0]),
            "ignore": st.sampled_from(["none", "default", "class", "neg", "pixels"]),
            "mask": st.booleans(),
            "normalized": st.booleans(),
            "same": st.integers(0, 4),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["K"] > 1 or c["mask"]


def area(c):
    """(nlat, nlon) area fractions from scipy's rules."""
    _, w, _ = oracles.nodes(c["nlat"], GRIDS3[c["grid"]])
    a = (w / w.sum() / c["nlon"])[:, None].expand(c["nlat"], c["nlon"])
    return a


def _diffmat(n, length):
    """Real part of the Fourier derivative on n points of a period."""
    k = np.fft.fftfreq(n, d=1.0 / n) * (2 * math.pi / length)
    F = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return torch.from_numpy(np.real(np.conj(F).T @ np.diag(1j * k) @ F / n))


def close_or_known(y, want, defect, applies, key):
    """The definition, or exactly the recorded defect where it applies (while KNOWN_FINDINGS.txt lists it)."""
    if applies and known(key):
        try:
            close(y, defect(), key, 1e-5, scale=max(1.0, abs(float(defect()))))
        except Violation:
            pass
        else:
            try:
                close(y, want(), key, 1e-5, scale=max(1.0, abs(float(want()))))
            except Violation:
                event("known finding " + key)
            return
    v = want()
    close(y, v, key.split("-")[0], 1e-5, scale=max(1.0, abs(float(v))))


EXAMPLES = [
    {"which": w, "nlat": 3, "nlon": 4, "grid": 0, "B": 1, "K": 2, "weight": False, "mode": "micro", "smooth": 0.0, "ignore": "neg", "mask": False, "normalized": True, "same": 2, "seed": 1}
    for w in ("dice", "acc")
]


def check(c):
    from torch_harmonics.examples import losses as L
    from torch_harmonics.examples import metrics as M

    w, grid, H, W, B, K = c["which"], GRIDS3[c["grid"]], c["nlat"], c["nlon"], c["B"], c["K"]
    g = torch.Generator().manual_seed(c["seed"])
    A = area(c)
    event(w)
    if w in ("ce", "focal", "dice", "iou", "acc"):
        x = torch.randn(B, K, H, W, generator=g) * 2
        t = torch.randint(0, K, (B, H, W), generator=g)
        if c["same"] == 0:
            t = x.argmax(1)
        ig = {"none": -100, "default": -100, "class": min(1, K - 1), "neg": -1, "pixels": 255}[c["ignore"]]
        if c["ignore"] in ("default", "neg", "pixels"):
            t = torch.where(torch.rand(B, H, W, generator=g) < 0.3, ig, t)
        kw = {"weight": torch.rand(K, generator=g) + 0.2} if c["weight"] else {}
        cw = kw["weight"].double() if kw else None
        xd = x.double()
        keep = (t != ig).double()
        if w in ("ce", "focal"):
            smooth = min(c["smooth"], 0.3)
            with sut(w):
                m = (L.CrossEntropyLossS2 if w == "ce" else L.FocalLossS2)(H, W, grid=grid, smooth=smooth, ignore_index=ig, **kw)
                y = m(x, t)
            lp = xd - torch.logsumexp(xd, 1, keepdim=True)
            oh = torch.zeros_like(xd)
            for k in range(K):
                oh[:, k] = (t == k).double() * keep
            cwv = (cw if cw is not None else torch.ones(K, dtype=torch.float64)).view(1, K, 1, 1)
            ce = -(1 - smooth) * (oh * cwv * lp).sum(1) - smooth / K * (cwv * lp).sum(1) * keep
            if w == "focal":
                ce = 0.25 * (1 - torch.exp(-ce)) ** 2 * ce
            want = (ce * A).sum((-1, -2)).mean()
            close(y, want, w, 3e-6, scale=max(1.0, scale_of(ce)))
            return
        oh = torch.stack([(t == k).double() * keep for k in range(K)], 1)
        if w == "dice":
            with sut(w):
                m = L.DiceLossS2(H, W, grid=grid, smooth=c["smooth"], ignore_index=ig, mode=c["mode"], **kw)
                y = m(x, t)
            p = torch.softmax(xd, 1) * keep.unsqueeze(1)

            def dice(oh):
                inter = (p * oh * A).sum((-1, -2))
                union = ((p + oh) * A).sum((-1, -2))
                if c["mode"] == "micro":
                    inter, union = ((inter * cw).sum(1), (union * cw).sum(1)) if kw else (inter.mean(1), union.mean(1))
                if float(union.abs().min()) + c["smooth"] < 1e-9:
                    raise Discard("no pixel left in some sample or class")
                d = (2 * inter + c["smooth"]) / (union + c["smooth"])
                if c["mode"] == "macro":
                    d = (d * cw).sum(1) if kw else d.mean(1)
                return 1 - d.mean()

            # the recorded finding: ignored pixels are counted as targets of class 0
            oh0 = oh.clone()
            oh0[:, 0] += 1 - keep
            close_or_known(y, lambda: dice(oh), lambda: dice(oh0), bool((keep == 0).any()), "dice-ignore")
            return
        with sut(w):
            m = (M.IntersectionOverUnionS2 if w == "iou" else M.AccuracyS2)(H, W, grid=grid, ignore_index=ig, mode=c["mode"], **kw)
            y = m(x, t)
        pred = x.argmax(1)
        po = torch.stack([(pred == k).double() * keep for k in range(K)], 1)
        s = lambda a: (a * A).sum((-1, -2))  # noqa: E731
        kp = keep.unsqueeze(1)
        tp, fp, fn, tn = s(po * oh), s(po * (kp - oh)), s((kp - po) * oh), s((kp - po) * (kp - oh))
        if c["mode"] == "micro":
            r = (lambda a: (a * cw).sum()) if kw else (lambda a: a.mean())
        else:
            r = lambda a: a.mean(0)  # noqa: E731

        def score(tp, fp, fn, tn):
            tp, fp, fn, tn = map(r, (tp, fp, fn, tn))
            num, den = (tp, tp + fp + fn) if w == "iou" else (tp + tn, tp + fp + fn + tn)
            if c["mode"] == "micro" and float(den) < 1e-9:
                raise Discard("nothing to score")
            if c["mode"] == "macro" and bool(((den < 1e-6) & (den > 0)).any() or (w == "acc" and (den < 1e-9).any())):
                raise Discard("a class of rounding size")
            v = torch.where(den < 1e-12, torch.zeros_like(den), num / den.clamp(min=1e-300))
            if c["mode"] == "macro":
                v = (v * cw).sum() if kw else v.mean()
            return v

        # the recorded finding: ignored pixels are counted as true negatives
        ign = s((1 - kp).expand_as(po))
        close_or_known(y, lambda: score(tp, fp, fn, tn), lambda: score(tp, fp, fn, tn + ign), w == "acc" and bool((keep == 0).any()), "metrics-ignore")
        if not kw:
            expect(-1e-5 <= float(y) <= 1 + 1e-5, f"score {float(y)} outside [0, 1]")
        return

    shape = [B, H, W] if w == "normal" else [B, K, H, W]
    p, t = field(shape, c["seed"], dtype=torch.float32), field(shape, c["seed"] + 1, dtype=torch.float32)
    if c["same"] == 0:
        t = p.clone()
    cls = {"l1": L.L1LossS2, "l2sq": L.SquaredL2LossS2, "l2": L.L2LossS2, "w11": L.W11LossS2, "normal": L.NormalLossS2}[w]
    kw = {} if w in ("w11", "normal") else {"normalized": c["normalized"]}
    mask = None
    if c["mask"]:
        mshape = [B, 1, H, W] if w == "normal" else shape
        mask = (torch.rand(mshape, generator=g) < 0.6).float()
        if float(mask.sum((-1, -2)).min()) == 0:
            raise Discard("a sample without any pixel")
    with sut(w):
        y = cls(H, W, grid=grid, **kw)(p, t, mask) if mask is not None else cls(H, W, grid=grid, **kw)(p, t)
    if kw.get("normalized", True) is False:
        A = A * 4 * math.pi
    pd, td = p.double(), t.double()
    if w == "l1":
        e = (pd - td).abs()
    elif w in ("l2", "l2sq"):
        e = (pd - td) ** 2
    else:
        Dp, Dt = _diffmat(W, 2 * math.pi), _diffmat(H, math.pi)
        dphi = lambda a: torch.einsum("ij,...j->...i", Dp, a)  # noqa: E731
        dth = lambda a: torch.einsum("ij,...jw->...iw", Dt, a)  # noqa: E731
        if w == "w11":
            e = dphi(pd - td).abs() + dth(pd - td).abs()
        else:
            nrm = lambda a: torch.nn.functional.normalize(torch.stack([-dphi(a), -dth(a), torch.ones_like(a)], 1), dim=1)  # noqa: E731
            e = 1 - (nrm(pd) * nrm(td)).sum(1, keepdim=True)
    if mask is None:
        r = (e * A).sum((-1, -2))
    else:
        r = (e * mask.double() * A).sum((-1, -2)) / (mask.double() * A).sum((-1, -2))
    if w == "l2":
        r = r.sqrt()
    want = r.mean()
    close(y, want, w, 1e-5, scale=max(scale_of(e) * (1 if kw.get("normalized", True) else 13), 0.1))
    if c["same"] == 0:
        expect(abs(float(y)) <= 1e-5, f"loss of identical fields is {float(y)}")
    if w in ("l1", "l2", "l2sq") and c["same"] == 1:
        with sut("constant difference"):
            y = cls(H, W, grid=grid, **kw)(p, p + 0.5)
        want = {"l1": 0.5, "l2sq": 0.25, "l2": 0.5}[w]
        if not c["normalized"]:
            want = {"l1": 0.5 * 4 * math.pi, "l2sq": 0.25 * 4 * math.pi, "l2": 0.5 * math.sqrt(4 * math.pi)}[w]
        expect(abs(float(y) - want) <= 1e-5 * 13, f"{w} of a constant difference: {float(y)}, expected {want}")
