"""Dense double-precision references for global and neighbourhood attention on the sphere."""
import numpy as np
import torch

from lib import disco_oracle as D
from lib import oracles as O
from lib.common import Discard


def quad(shape, grid):
    _, w, _ = O.nodes(shape[0], grid)
    return (2 * np.pi * w / shape[1])[:, None].expand(shape[0], shape[1]).reshape(-1)


def neighbours(in_shape, out_shape, grid_in, grid_out, cutoff):
    """Boolean (n_out, n_in): great-circle distance within the cutoff (enlarged by 0.1 percent)."""
    def pts(shape, grid):
        c, _, _ = O.nodes(shape[0], grid)
        th = np.arccos(np.clip(c.numpy(), -1, 1))[:, None]
        lo = (np.arange(shape[1]) * 2 * np.pi / shape[1])[None]
        return np.stack([np.sin(th) * np.cos(lo), np.sin(th) * np.sin(lo), np.cos(th) + 0 * lo], -1).reshape(-1, 3)

    a, b = pts(out_shape, grid_out), pts(in_shape, grid_in)
    chord = np.linalg.norm(a[:, None] - b[None], axis=-1)
    d = 2 * np.arcsin(np.clip(chord / 2, 0, 1))
    rc = (1 + D.EPS_CUT) * cutoff
    if np.any(np.abs(d - rc) < 1e-6 * max(rc, 1e-3) + 3e-8):
        raise Discard("a grid point lies on the edge of a neighbourhood")
    m = d <= rc
    if not m.any(1).all():
        raise Discard("a query has no neighbour: its softmax is over the empty set")
    return torch.from_numpy(m)


def rms(x, w, eps):
    return x * torch.rsqrt((x * x).mean(-1, keepdim=True) + eps) * (1 + w)


def attention(q, k, v, p, heads, scale, logw, mask, out_shape, eps):
    """q (B,C,Ho,Wo), k/v (B,C,Hi,Wi); p: dict of double parameters; mask (n_out, n_in) or None. Returns output and max |logit|."""
    def proj(x, w, b):
        y = torch.einsum("bcn,oc->bno", x.flatten(2), w.flatten(1))
        return y if b is None else y + b

    B = q.shape[0]
    Q, K, V = proj(q, p["q_weights"], p.get("q_bias")), proj(k, p["k_weights"], p.get("k_bias")), proj(v, p["v_weights"], p.get("v_bias"))
    sp = lambda x: x.reshape(B, x.shape[1], heads, -1).transpose(1, 2)  # noqa: E731
    Q, K, V = sp(Q), sp(K), sp(V)
    if p.get("q_norm_weights") is not None:
        Q, K = rms(Q, p["q_norm_weights"], eps), rms(K, p["k_norm_weights"], eps)
    L = torch.einsum("bhnc,bhmc->bhnm", Q * scale, K)
    top = float(L.detach().abs().max())
    L = L + logw
    if mask is not None:
        L = L.masked_fill(~mask, float("-inf"))
    A = torch.softmax(L, -1)
    Y = torch.einsum("bhnm,bhmc->bhnc", A, V).transpose(1, 2).flatten(2)
    Y = proj(Y.transpose(1, 2), p["proj_weights"], p.get("proj_bias"))
    return Y.transpose(1, 2).reshape(B, -1, *out_shape), top
