"""Dense double-precision references for the DISCO filter bases and convolutions, written from their definitions."""
import functools
import math

import numpy as np
import scipy.special as sp
import torch

from lib import oracles as O
from lib.common import Discard

EPS_CUT = 1e-3


def _hat(d, w):
    return np.clip(1.0 - np.abs(d) / w, 0.0, None)


def _circ(a, b):
    d = np.mod(a - b, 2 * np.pi)
    return np.minimum(d, 2 * np.pi - d)


def norm_shape(basis, ks):
    ks = list(ks) if isinstance(ks, (list, tuple)) else ks
    if basis == "piecewise linear":
        if isinstance(ks, int):
            ks = [ks]
        return [ks[0], 1] if len(ks) == 1 else ks
    if basis in ("harmonic", "morlet", "fourier-bessel"):
        if isinstance(ks, int):
            ks = [ks]
        return [ks[0], ks[0]] if len(ks) == 1 else ks
    return ks if isinstance(ks, int) else ks[0]


def fb_modes(ks):
    nmax, mmax = ks
    amax = sp.jn_zeros(0, nmax)[-1]
    out = []
    for m in range(mmax + 1):
        for a in sp.jn_zeros(m, nmax):
            if a > amax + 1e-12:
                break
            out.append((a, m, "cos"))
            if m:
                out.append((a, m, "sin"))
    out.sort(key=lambda e: e[0])
    return out


def kernel_size(basis, ks):
    ks = norm_shape(basis, ks)
    if basis == "piecewise linear":
        return (ks[0] // 2) * ks[1] + ks[0] % 2
    if basis in ("harmonic", "morlet"):
        return ks[0] * ks[1]
    if basis == "zernike":
        return ks * (ks + 1) // 2
    return len(fb_modes(ks))


def isotropic(basis, ks):
    ks = norm_shape(basis, ks)
    K = kernel_size(basis, ks)
    if basis == "piecewise linear":
        return [ks[1] == 1 or (ks[0] % 2 == 1 and k == 0) for k in range(K)]
    if basis in ("harmonic", "morlet"):
        return [k == 0 for k in range(K)]
    if basis == "zernike":
        return [2 * l == n for n in range(ks) for l in range(n + 1)]
    return [m == 0 for _, m, _ in fb_modes(ks)]


def _harm(k, ks, u, phi):
    n, m = k % ks[1], k // ks[1]
    x, y = u * np.sin(phi), u * np.cos(phi)
    fx, fy = (n + 1) // 2, (m + 1) // 2
    a = np.sin(fx * np.pi * x) if n % 2 else np.cos(fx * np.pi * x)
    b = np.sin(fy * np.pi * y) if m % 2 else np.cos(fy * np.pi * y)
    return np.cos(0.5 * np.pi * u) ** 2 * a * b


@functools.lru_cache(maxsize=256)
def _harm_norm(k, k0, k1):
    nr, nphi = 50, 200
    r = (np.arange(nr) + 0.5) / nr
    p = np.arange(nphi) * 2 * np.pi / nphi
    R, P = np.meshgrid(r, p, indexing="ij")
    v = _harm(k, (k0, k1), R, P)
    return math.sqrt(float((v**2 * R).sum() / nr * 2 * np.pi / nphi))


def zernike_radial(n, m, u):
    m = abs(m)
    out = np.zeros_like(u)
    for k in range((n - m) // 2 + 1):
        c = (-1) ** k * math.factorial(n - k) / (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k))
        out = out + c * u ** (n - 2 * k)
    return out


def basis_values(basis, ks, r, phi, rc):
    """values (K, *r.shape) and support (K, *r.shape) of all basis functions, plus whether support ties occur."""
    ks = norm_shape(basis, ks)
    K = kernel_size(basis, ks)
    disk = r <= rc
    vals = np.zeros((K,) + r.shape)
    supp = np.zeros((K,) + r.shape, bool)
    tie = False
    u = r / rc
    if basis == "piecewise linear":
        nr, nphi = ks
        dr, dphi = 2 * rc / (nr + 1), 2 * np.pi / nphi
        for k in range(K):
            if nphi == 1:
                c = k * dr if nr % 2 else (k + 0.5) * dr
                vals[k] = _hat(r - c, dr) * disk
                supp[k] = (np.abs(r - c) <= dr) & disk
            elif nr % 2:
                if k == 0:
                    vals[k] = _hat(r, dr) * disk
                    supp[k] = (r <= dr) & disk
                else:
                    c, cp = ((k - 1) // nphi + 1) * dr, ((k - 1) % nphi) * dphi - np.pi
                    vals[k] = _hat(r - c, dr) * _hat(_circ(phi, cp), dphi) * disk
                    supp[k] = (np.abs(r - c) <= dr) & (_circ(phi, cp) <= dphi) & disk
            else:
                c, cp = (k // nphi + 0.5) * dr, (k % nphi) * dphi - np.pi
                vals[k] = (_hat(r - c, dr) * _hat(_circ(phi, cp), dphi) + _hat(-r - c, dr) * _hat(_circ(phi - np.pi, cp), dphi)) * disk
                supp[k] = (((np.abs(r - c) <= dr) & (_circ(phi, cp) <= dphi)) | ((np.abs(r + c) <= dr) & (_circ(phi - np.pi, cp) <= dphi))) & disk
        return vals, supp
    for k in range(K):
        supp[k] = disk
        if basis in ("harmonic", "morlet"):
            v = _harm(k, ks, u, phi)
            if basis == "harmonic":
                v = v / max(_harm_norm(k, ks[0], ks[1]), 1e-12)
        elif basis == "zernike":
            n = int((math.sqrt(8 * k + 1) - 1) // 2)
            l = k - n * (n + 1) // 2
            m = 2 * l - n
            v = zernike_radial(n, m, u) * (np.sin(m * phi) if m < 0 else np.cos(m * phi))
            v = v / math.sqrt(math.pi * (2 if m == 0 else 1) / (2 * (n + 1)))
        else:
            a, m, cs = fb_modes(ks)[k]
            v = sp.jv(m, a * u) * (np.cos(m * phi) if cs == "cos" else np.sin(m * phi))
            v = v / (abs(sp.jv(m + 1, a)) / math.sqrt(2) * math.sqrt(2 * np.pi if m == 0 else np.pi))
        vals[k] = v * disk
    return vals, supp


def relative_position(th_out, th_in, lon_in):
    """Angular distance and direction (0 = towards increasing colatitude along the meridian) of input points seen from the output point (th_out, 0).

    Built from the local tangent frame at the output point, not from Euler angles."""
    T, G, B = th_out[:, None, None], th_in[None, :, None], lon_in[None, None, :]
    p = np.stack([np.sin(G) * np.cos(B) + 0 * T, np.sin(G) * np.sin(B) + 0 * T, np.cos(G) + 0 * T + 0 * B])
    n = np.stack([np.sin(T), 0 * T, np.cos(T)]) + 0 * p
    e_th = np.stack([np.cos(T), 0 * T, -np.sin(T)]) + 0 * p
    e_ph = np.stack([0 * T, 0 * T + 1, 0 * T]) + 0 * p
    c = (p * n).sum(0)
    a, b = (p * e_th).sum(0), (p * e_ph).sum(0)
    r = np.arctan2(np.hypot(a, b), c)
    phi = np.mod(np.arctan2(b, a), 2 * np.pi)
    return r, phi


def psi_dense(in_shape, out_shape, basis, ks, grid_in, grid_out, cutoff, mode, transpose=False):
    """(psi (K, nlat_out, nlat_in, nlon_in), good (K,)): the quadrature-weighted filter tensor of a convolution from in_shape to out_shape.

    For transpose=True this is the tensor of the transposed layer's (output -> input) correspondence with normalisation over the layer's
    input points. good[k] is False where the normalisation of kernel k is ill conditioned."""
    cos_i, w_i, _ = O.nodes(in_shape[0], grid_in)
    cos_o, w_o, _ = O.nodes(out_shape[0], grid_out)
    th_i, th_o = np.arccos(np.clip(cos_i.numpy(), -1, 1)), np.arccos(np.clip(cos_o.numpy(), -1, 1))
    lon = np.arange(in_shape[1]) * 2 * np.pi / in_shape[1]
    r, phi = relative_position(th_o, th_i, lon)
    rc = (1 + EPS_CUT) * cutoff
    if np.any(np.abs(r - rc) < 1e-6 * max(rc, 1e-3) + 3e-8):
        raise Discard("a grid point lies on the edge of the support")
    v, supp = basis_values(basis, ks, r, phi, rc)
    K = v.shape[0]
    nks = norm_shape(basis, ks)
    if basis == "piecewise linear" and nks[1] > 1:
        if nks[0] % 2 == 0 and bool(np.any(r < 1e-6)):
            raise Discard("direction undefined at a coincident point")
        if mode in ("support", "modal"):
            raise Discard("support of angular sectors has ties")
    if transpose:
        q = np.broadcast_to((w_o.numpy() / in_shape[1] / 2)[None, :, None, None], v.shape)
        ax = (1, 3)
    else:
        q = np.broadcast_to((w_i.numpy() / in_shape[1] / 2)[None, None, :, None], v.shape)
        ax = (2, 3)
    S = (supp * q).sum(ax, keepdims=True)
    bias = np.zeros_like(S)
    if mode == "modal":
        iso = np.array(isotropic(basis, ks))
        b = (v * q * supp).sum(ax, keepdims=True) / np.maximum(S, 1e-300)
        bias = np.where(iso[:, None, None, None] | (S <= 1e-9), 0.0, b)
    A = (np.abs(v - bias) * q * supp).sum(ax, keepdims=True)
    mx = np.abs(v).max(axis=(1, 2, 3), keepdims=True) + 1e-300
    good = np.ones(K, bool)
    if mode in ("nodal", "modal"):
        bad = (S > 0) & (A < 1e-4 * np.maximum(S * mx, 0) + 1e-8)
        good &= ~bad.any(axis=(1, 2, 3))
        v = np.where(supp, (v - bias) / np.maximum(A, 1e-9), 0)
    elif mode == "mean":
        m = A.mean(axis=(1, 2, 3), keepdims=True)
        good &= ~(m < 1e-8).any(axis=(1, 2, 3))
        v = v / np.maximum(m, 1e-9)
    elif mode == "support":
        good &= ~((S > 0) & (S < 1e-8)).any(axis=(1, 2, 3))
        v = np.where(supp, v / np.maximum(S, 1e-9), 0)
    elif mode == "geometric":
        v = v / max((1 - math.cos(cutoff)) / 4, 1e-9)
    psi = v * q
    if transpose:
        psi = psi * in_shape[1] / out_shape[1]
    return torch.from_numpy(psi), torch.from_numpy(good)


def conv(x, psi, weight, bias, groups, nlon_out):
    """x (B,C,H,W), psi (K,Ho,H,W), weight (Co, C/groups, K)."""
    B, C, H, W = x.shape
    K, Ho = psi.shape[:2]
    step = W // nlon_out
    cols = []
    for q in range(nlon_out):
        xs = torch.roll(x, -q * step, dims=-1)
        cols.append(torch.einsum("bchw,kthw->bckt", xs, psi))
    z = torch.stack(cols, -1)  # B C K Ho Wo
    z = z.reshape(B, groups, C // groups, K, Ho, nlon_out)
    w = weight.reshape(groups, weight.shape[0] // groups, C // groups, K)
    y = torch.einsum("bgcktq,gock->bgotq", z, w).reshape(B, weight.shape[0], Ho, nlon_out)
    return y if bias is None else y + bias[None, :, None, None]


def conv_transpose(x, psi, weight, bias, groups):
    """x (B,C,Hi,Wi) -> (B,Co,H,W); psi (K,Hi,H,W) is the tensor of the opposite direction."""
    B, C, Hi, Wi = x.shape
    K, _, H, W = psi.shape
    step = W // Wi
    w = weight.reshape(groups, weight.shape[0] // groups, C // groups, K)
    z = torch.einsum("bgctq,gock->bgoktq", x.reshape(B, groups, C // groups, Hi, Wi), w).reshape(B, weight.shape[0], K, Hi, Wi)
    y = 0
    for q in range(Wi):
        y = y + torch.roll(torch.einsum("bokt,kthw->bohw", z[..., q], psi), q * step, dims=-1)
    return y if bias is None else y + bias[None, :, None, None]
