"""C34: the example models map fields on the sphere to fields on the sphere for every configuration, sample by sample, equivariantly under rotation about the axis, and are fully described by their arguments and state dict."""
import copy

import torch
from hypothesis import strategies as st
from torch_harmonics.examples import models as M

from lib.common import GRIDS3, close, field, scale_of, seeds
from lib.harness import Discard, event, expect, must_raise, sut

RULE = "case = model x image size x internal scale x channels x depth x options x batch x rotation; non-trivial: scale factor above one or rotation not zero"
BUDGET = {"quick": {"shards": 8, "examples": 150, "hang_s": 120}, "thorough": {"shards": 8, "examples": 900, "hang_s": 120}}
ASSUMPTIONS = [
    "evaluation mode (dropout off) unless stated",
    "rotations by a number of steps that is a whole number of steps on every internal grid; configurations with positional embeddings that depend on longitude are exempt from equivariance",
    "image widths divisible by the internal widths, as the layers require",
]
MODELS = ["sfno", "lsno", "transformer", "segformer", "unet"]


def strategy(tier):
    return st.fixed_dictionaries(
        {
            "model": st.sampled_from(MODELS),
            "nlat": st.integers(9, 17),
            "w": st.integers(2, 4),
            "scale": st.integers(1, 3),
            "ci": st.integers(1, 3),
            "co": st.integers(1, 3),
            "embed": st.sampled_from([4, 8]),
            "layers": st.integers(1, 3),
            "grid": st.sampled_from(GRIDS3),
            "gint": st.sampled_from(GRIDS3),
            "act": st.sampled_from(["relu", "gelu", "identity"]),
            "mlp": st.booleans(),
            "norm": st.sampled_from(["none", "layer_norm", "instance_norm"]),
            "res": st.booleans(),
            "bias": st.booleans(),
            "pos": st.sampled_from(["none", "none", "learnable lat", "learnable latlon", "spectral", "sequence"]),
            "att": st.sampled_from(["neighborhood", "global"]),
            "sht_up": st.booleans(),
            "mode": st.sampled_from(["bilinear", "conv"]),
            "frac": st.sampled_from([1.0, 1.0, 0.6]),
            "B": st.integers(1, 3),
            "shift": st.integers(0, 5),
            "drop": st.sampled_from([0.0, 0.2]),
            "bad": st.integers(0, 19),
            "seed": seeds(),
        }
    )


def nontrivial(c):
    return c["scale"] > 1 or c["shift"] > 0


def _args(c):
    """(class, keyword arguments, number of steps after which every internal grid has made a whole step, equivariant)"""
    k, s = c["model"], c["scale"]
    kw = {"grid": c["grid"], "grid_internal": c["gint"], "scale_factor": s, "in_chans": c["ci"], "out_chans": c["co"], "activation_function": c["act"]}
    free = c["pos"] in ("none", "learnable lat")
    if k in ("sfno", "lsno", "transformer"):
        kw["img_size"] = (c["nlat"], 4 * c["w"] * s)
        kw.update(embed_dim=4 if c["pos"] == "spectral" else c["embed"], num_layers=c["layers"], use_mlp=c["mlp"], mlp_ratio=2.0, drop_rate=c["drop"], drop_path_rate=c["drop"], normalization_layer=c["norm"], residual_prediction=c["res"] and (k == "sfno" or c["ci"] == c["co"]), pos_embed=c["pos"], bias=c["bias"], hard_thresholding_fraction=c["frac"])
        if k == "sfno":
            return M.SphericalFourierNeuralOperator, kw, s, free
        kw["upsample_sht"] = c["sht_up"]
        kw["encoder_kernel_shape"] = (3, 3)
        if k == "lsno":
            kw["kernel_shape"] = (2, 2)
            return M.LocalSphericalNeuralOperator, kw, s, free
        kw.update(num_heads=1 + c["shift"] % 2, attention_mode=c["att"])
        return M.SphericalTransformer, kw, s, free
    depth = [1] * (1 + c["layers"] % 2)
    n = len(depth)
    kw["img_size"] = (max(c["nlat"], 4 * s ** n + 1), 4 * c["w"] * s**n)
    kw.update(embed_dims=[4, 8][:n], depths=depth, kernel_shape=(2, 2) if c["mlp"] else (3, 3))
    if k == "segformer":
        kw.update(heads=[1, 2][:n], mlp_ratio=2.0, att_drop_rate=c["drop"], drop_path_rate=c["drop"], attention_mode=c["att"], upsampling_method=c["mode"], bias=c["bias"])
        return M.SphericalSegformer, kw, s**n, True
    kw.update(drop_conv_rate=c["drop"], drop_path_rate=c["drop"], drop_dense_rate=c["drop"], downsampling_mode=c["mode"], upsampling_mode=["bilinear", "conv"][c["shift"] % 2], transform_skip=c["res"])
    return M.SphericalUNet, kw, s**n, True


def check(c):
    cls, kw, step, free = _args(c)
    event(c["model"])
    if c["bad"] < 2:
        name = ["activation_function", "pos_embed"][c["bad"]]
        if name in kw:
            must_raise(f"{cls.__name__} with {name}='no such'", lambda: cls(**{**kw, name: "no such"}), (ValueError, NotImplementedError, KeyError, AssertionError))
            event("rejected " + name)
            return
    torch.manual_seed(c["seed"])
    with sut(f"{cls.__name__}({kw})"):
        m = cls(**kw)
    h, w = kw["img_size"]
    B = c["B"]
    x = field([B, c["ci"], h, w], c["seed"], "normal", torch.float32)
    x0 = x.clone()
    m.train()
    torch.manual_seed(c["seed"])
    xt = x.clone().requires_grad_(True)
    with sut("training forward and backward"):
        y = m(xt)
        (y**2).mean().backward()
    expect(tuple(y.shape) == (B, c["co"], h, w) and y.dtype == x.dtype, f"output {tuple(y.shape)} {y.dtype} for input {tuple(x.shape)}")
    expect(bool(torch.isfinite(y).all()) and bool(torch.isfinite(xt.grad).all()), "training pass is not finite")
    for n, p in m.named_parameters():
        expect(p.grad is None or bool(torch.isfinite(p.grad).all()), f"gradient of {n} is not finite")
    m.eval()
    with torch.no_grad():
        with sut("forward"):
            y = m(x)
        expect(torch.equal(x, x0), "the input was modified")
        expect(tuple(y.shape) == (B, c["co"], h, w), f"output {tuple(y.shape)}")
        s = max(scale_of(y), 1e-3)
        with sut("forward"):
            close(m(x), y, "second evaluation", 1e-5, scale=s)
            for b in range(B):
                close(m(x[b : b + 1]), y[b : b + 1], f"sample {b} alone", 1e-4, scale=s)
            t = c["shift"] * step
            if free and t % w:
                event("rotated")
                close(m(x.roll(t, -1)), y.roll(t, -1), f"rotation by {t} of {w} steps", 2e-3, scale=s)
        with sut("copy and state dict"):
            close(copy.deepcopy(m)(x), y, "copy", 1e-5, scale=s)
            torch.manual_seed(c["seed"] + 1)
            o = cls(**kw)
            o.load_state_dict(m.state_dict(), strict=True)
            o.eval()
            close(o(x), y, "new model with the state dict", 1e-5, scale=s)
