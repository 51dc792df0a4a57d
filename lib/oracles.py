"""Independent float64 reference definitions (scipy / closed forms); nothing here calls torch_harmonics."""
import functools
import math

import numpy as np
import scipy.special as sp
import torch


# ---------------------------------------------------------------- grids
@functools.lru_cache(maxsize=512)
def _nodes(n, grid):
    """cos(theta) nodes in increasing colatitude (north to south), weights on [-1, 1]; theta."""
    if grid == "legendre-gauss":
        x, w = sp.roots_legendre(n)
        x, w = x[::-1].copy(), w[::-1].copy()
        th = np.arccos(x)
    elif grid == "lobatto":
        if n == 2:
            x = np.array([1.0, -1.0])
        else:
            xi, _ = sp.roots_jacobi(n - 2, 1.0, 1.0)
            x = np.concatenate([[1.0], xi[::-1], [-1.0]])
        p = sp.eval_legendre(n - 1, x)
        w = 2.0 / (n * (n - 1) * p**2)
        th = np.arccos(x)
    elif grid == "equiangular":
        k = np.arange(n)
        th = np.pi * k / (n - 1)
        x = np.cos(th)
        w = _cc(n)
    elif grid == "equiangular-trapezoidal":
        x = np.linspace(1.0, -1.0, n)
        w = np.full(n, 2.0 / (n - 1))
        w[0] *= 0.5
        w[-1] *= 0.5
        th = np.arccos(x)
    else:
        raise KeyError(grid)
    return x, w, th


def _cc(n):
    """Clenshaw-Curtis weights from the cosine-series definition."""
    N = n - 1
    if N == 1:
        return np.array([1.0, 1.0])
    k = np.arange(n)
    w = np.zeros(n)
    for j in range(0, N // 2 + 1):
        b = 1.0 if (j == 0 or 2 * j == N) else 2.0
        w += b / (1.0 - 4.0 * j * j) * np.cos(2.0 * np.pi * j * k / N)
    w *= 2.0 / N
    w[0] *= 0.5
    w[-1] *= 0.5
    return w


def nodes(n, grid):
    x, w, th = _nodes(n, grid)
    return torch.from_numpy(x.copy()), torch.from_numpy(w.copy()), torch.from_numpy(th.copy())


def lons(n):
    return torch.arange(n, dtype=torch.float64) * (2.0 * math.pi / n)


# ---------------------------------------------------------------- Legendre
def _small_cache(f):
    """Caches small tables only: a run meets many configurations and the large ones would fill the memory."""
    kept = functools.lru_cache(maxsize=256)(f)

    @functools.wraps(f)
    def g(mmax, lmax, n, grid):
        return (kept if mmax * lmax * n < 30000 else f)(mmax, lmax, n, grid)

    return g


@_small_cache
def _plm_np(mmax, lmax, n, grid):
    _, _, th = _nodes(n, grid)
    return plm_theta(mmax, lmax, th)


def plm_theta(mmax, lmax, th):
    """Orthonormal Pbar_l^m(cos th) without Condon-Shortley phase, shape (mmax, lmax, len(th))."""
    th = np.asarray(th, dtype=np.float64)
    if lmax > 48:
        return plm_recursive(mmax, lmax, th)
    out = np.zeros((mmax, lmax, len(th)))
    l = np.arange(lmax)
    for m in range(mmax):
        ok = l >= m
        if not ok.any():
            continue
        v = sp.sph_legendre_p(l[ok][:, None], m, th[None, :])
        v = np.asarray(v)
        out[m, ok] = v * (-1.0) ** m
    return out


def plm_recursive(mmax, lmax, th):
    """The same for large degrees (scipy is cubic there): sectoral terms from logarithms, then upwards in the degree."""
    x, sn = np.cos(th), np.sin(th)
    out = np.zeros((lmax, mmax, len(th)))
    M = min(mmax, lmax)
    m = np.arange(M, dtype=np.float64)
    with np.errstate(divide="ignore"):
        ls = np.log(np.maximum(sn, 0.0))
    # log of the sectoral normalisation: Pbar_mm = sqrt(1/(4 pi) * prod_{k<=m} (2k+1)/(2k)) sin^m
    k = np.arange(1, M, dtype=np.float64)
    lc = -0.5 * np.log(4 * np.pi) + np.concatenate([[0.0], 0.5 * np.cumsum(np.log1p(1.0 / (2 * k)))])
    with np.errstate(invalid="ignore"):
        diag = np.exp(lc[:, None] + np.where(m[:, None] > 0, m[:, None] * ls[None, :], 0.0))
    for l in range(lmax):
        if l < M:
            out[l, l] = diag[l]
        k = min(l, M)  # orders 0..k-1 have m < l
        if k == 0:
            continue
        mm = m[:k]
        a = np.sqrt((4.0 * l * l - 1.0) / (l * l - mm * mm))
        out[l, :k] = a[:, None] * x[None, :] * out[l - 1, :k]
        if l >= 2:
            b = np.sqrt(np.maximum(((l - 1.0) ** 2 - mm * mm) / (4.0 * (l - 1.0) ** 2 - 1.0), 0.0))
            out[l, :k] -= (a * b)[:, None] * out[l - 2, :k]
    return np.ascontiguousarray(out.transpose(1, 0, 2))


def norm_factors(lmax, norm, inverse):
    """Degree factor that turns the orthonormal functions into the convention's analysis / synthesis functions."""
    l = np.arange(lmax)
    if norm == "ortho":
        return np.ones(lmax)
    if norm == "schmidt":
        f = np.sqrt(4 * np.pi / (2 * l + 1))
    else:  # four-pi ("unnorm"): mean square one over the sphere
        f = np.full(lmax, np.sqrt(4 * np.pi))
    return 1.0 / f if inverse else f


def plm(mmax, lmax, n, grid, norm="ortho", inverse=False, csphase=True):
    p = _plm_np(mmax, lmax, n, grid) * norm_factors(lmax, norm, inverse)[None, :, None]
    if csphase:
        p = p * ((-1.0) ** np.arange(mmax))[:, None, None]
    return torch.from_numpy(np.ascontiguousarray(p))


@_small_cache
def _dplm_np(mmax, lmax, n, grid):
    """d/dtheta Pbar and m Pbar / sin(theta), no phase; exact limits at the poles."""
    x, _, th = _nodes(n, grid)
    return dplm_theta(mmax, lmax, th, x, _plm_np(mmax + 1, lmax, n, grid))


def dplm_theta(mmax, lmax, th, x=None, p=None):
    x = np.cos(th) if x is None else x
    p = plm_theta(mmax + 1, lmax, th) if p is None else p
    l = np.arange(lmax)[None, :, None]
    m = np.arange(mmax)[:, None, None]
    s = np.sin(th)
    north, south = th < 1e-9, np.abs(th - np.pi) < 1e-9
    pole = north | south
    s = np.where(pole, 1.0, s)
    q = m * p[:mmax] / s
    # dPbar/dtheta = m cot(theta) Pbar_l^m - sqrt((l-m)(l+m+1)) Pbar_l^(m+1)
    d = m * x / s * p[:mmax] - np.sqrt(np.maximum((l - m) * (l + m + 1.0), 0.0)) * p[1:]
    q[:, :, pole] = 0.0
    d[:, :, pole] = 0.0
    if mmax > 1:
        # Pbar_l^1 ~ c * sin(theta), c = sqrt((2l+1)/(4pi) * l (l+1)) / 2 (times (-1)^(l+1) in the south)
        l1 = np.arange(lmax)
        c = np.sqrt((2 * l1 + 1) / (4 * np.pi) * l1 * (l1 + 1)) / 2.0
        for k in np.nonzero(pole)[0]:
            q[1, :, k] = c if north[k] else c * (-1.0) ** (l1 + 1)
            d[1, :, k] = c if north[k] else c * (-1.0) ** l1
    return d, q


def dplm(mmax, lmax, n, grid, norm="ortho", inverse=False, csphase=True):
    d, q = _dplm_np(mmax, lmax, n, grid)
    f = norm_factors(lmax, norm, inverse)[None, :, None]
    d, q = d * f, q * f
    if csphase:
        ph = ((-1.0) ** np.arange(mmax))[:, None, None]
        d, q = d * ph, q * ph
    return torch.from_numpy(np.ascontiguousarray(d)), torch.from_numpy(np.ascontiguousarray(q))


# ---------------------------------------------------------------- transforms as dense sums
def fourier_modes(x, mmax):
    """(1/nlon) sum_j x_j exp(-i m lon_j), zero above the grid's Nyquist order."""
    n = x.shape[-1]
    m = torch.arange(mmax, dtype=torch.float64)
    e = torch.exp(-1j * m[:, None] * lons(n)[None, :])
    e = torch.where((m <= n // 2)[:, None], e, torch.zeros_like(e))
    return torch.einsum("...j,mj->...m", x.to(torch.complex128), e) / n


def fourier_sum(c, n):
    """sum over |m| <= n/2 of c_m exp(i m lon) for a real signal, c_{-m} = conj c_m."""
    mmax = c.shape[-1]
    m = torch.arange(mmax, dtype=torch.float64)
    f = torch.where(m == 0, 1.0, 2.0).to(torch.float64)
    f = torch.where(m > n // 2, torch.zeros_like(f), f)
    if n % 2 == 0:
        f = torch.where(m == n // 2, torch.ones_like(f) if n > 0 else f, f)
        if n // 2 == 0:
            f[0] = 1.0
    ang = m[:, None] * lons(n)[None, :]
    cr, ci = c.real.to(torch.float64), c.imag.to(torch.float64)
    keep = (m > 0) & ~((m == n // 2) & (n % 2 == 0))
    ci = ci * keep.to(torch.float64)
    return torch.einsum("...m,mj->...j", cr * f, torch.cos(ang)) - torch.einsum("...m,mj->...j", ci * f, torch.sin(ang))


def sht(x, lmax, mmax, grid, norm="ortho", csphase=True):
    nlat = x.shape[-2]
    _, w, _ = nodes(nlat, grid)
    P = plm(mmax, lmax, nlat, grid, norm, False, csphase)
    fm = fourier_modes(x, mmax)
    return 2 * math.pi * torch.einsum("...km,mlk,k->...lm", fm, P.to(torch.complex128), w.to(torch.complex128))


def isht(c, nlat, nlon, grid, norm="ortho", csphase=True):
    lmax, mmax = c.shape[-2:]
    P = plm(mmax, lmax, nlat, grid, norm, True, csphase)
    fm = torch.einsum("...lm,mlk->...km", c.to(torch.complex128), P.to(torch.complex128))
    return fourier_sum(fm, nlon)


def vsht(v, lmax, mmax, grid, norm="ortho", csphase=True):
    """v: (..., 2, nlat, nlon) (colatitude, longitude). Projections onto grad Y and its rotation, over l(l+1)."""
    nlat = v.shape[-2]
    _, w, _ = nodes(nlat, grid)
    D, Q = dplm(mmax, lmax, nlat, grid, norm, False, csphase)
    l = torch.arange(lmax, dtype=torch.float64)
    ll = torch.where(l > 0, 1.0 / torch.clamp(l * (l + 1), min=1.0), torch.zeros_like(l))
    D = (D * w * ll[None, :, None]).to(torch.complex128)
    Q = (Q * w * ll[None, :, None]).to(torch.complex128)
    f = 2 * math.pi * fourier_modes(v, mmax)
    ft, fp = f[..., 0, :, :], f[..., 1, :, :]
    c = lambda a, b: torch.einsum("...km,mlk->...lm", a, b)  # noqa: E731
    # s = <v, grad Y>,   grad Y = (dY/dtheta, i m Y / sin)
    s = c(ft, D) + c(fp, torch.conj(1j * Q))
    # t = <v, r x grad Y>-type component: (-i m Y/sin ... , ) with the library's sign
    t = c(ft, torch.conj(1j * Q)) - c(fp, D)
    return torch.stack([s, t], dim=-3)


def ivsht(c, nlat, nlon, grid, norm="ortho", csphase=True):
    lmax, mmax = c.shape[-2:]
    D, Q = dplm(mmax, lmax, nlat, grid, norm, True, csphase)
    D, Q = D.to(torch.complex128), Q.to(torch.complex128)
    s, t = c[..., 0, :, :].to(torch.complex128), c[..., 1, :, :].to(torch.complex128)
    e = lambda a, b: torch.einsum("...lm,mlk->...km", a, b)  # noqa: E731
    vt = e(s, D) + e(t, 1j * Q)
    vp = e(s, 1j * Q) - e(t, D)
    return fourier_sum(torch.stack([vt, vp], dim=-3), nlon)
