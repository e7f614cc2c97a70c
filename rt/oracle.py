"""Independent evaluation of the specification (closed formulas of the properties) in NumPy.
Nothing here calls /repo.  Pixel transforms use the NumPy reference transforms of s2fft (dependency)."""
import math
from fractions import Fraction
from functools import lru_cache
import numpy as np

PI = math.pi


def jmax(L, lam):
    """smallest J with lam^J >= L, and whether lam^J == L"""
    q, J, x = Fraction(lam), 0, Fraction(1)
    while x < L:
        x *= q
        J += 1
    return J, x == L


def near_integer(L, lam, J):
    """some power of lam needed by the scale helpers lies within rounding distance of an integer without being one"""
    q = Fraction(lam)
    for e in range(0, J + 3):
        x = q ** e
        r = round(x)
        if x != r and abs(float(x - r)) < 1e-9 * max(1, float(x)):
            return True
    return False


def ceil_pow(lam, e):
    return math.ceil(Fraction(lam) ** e)


def Lj(L, j, lam, multi=True):
    return min(ceil_pow(lam, max(j, 1) + 1), L) if multi else L


def scales(L, j, N, lam, multi=True):
    if not multi:
        return L, N, 0
    lj = Lj(L, j, lam)
    nj = min(N, lj)
    nj += (N + nj) % 2
    return lj, nj, min(ceil_pow(lam, max(j - 1, 0)), lj - 1)


def Ls(L, J_min, lam, multi=True):
    return min(ceil_pow(lam, J_min), L) if multi else L


def ntheta(L, s):
    return {"mw": L, "mwss": L + 1, "dh": 2 * L, "gl": L}[s]


def nphi(L, s):
    return {"mw": 2 * L - 1, "mwss": 2 * L, "dh": 2 * L - 1, "gl": 2 * L - 1}[s]


def fw_shape(L, j, N, lam, s, multi=True):
    l, n, _ = scales(L, j, N, lam, multi)
    return (2 * n - 1, ntheta(l, s), nphi(l, s))


def fs_shape(L, J_min, lam, s, multi=True):
    l = Ls(L, J_min, lam, multi)
    return (ntheta(l, s), nphi(l, s))


def integrand(t, lam):
    s = (t - 1 / lam) * (2 * lam / (lam - 1)) - 1
    with np.errstate(all="ignore"):
        v = np.exp(-2.0 / (1.0 - s * s)) / t
    return np.where(np.abs(s) < 1, v, 0.0)


def part(a, b, n, lam):
    if a == b:
        return 0.0
    h = (b - a) / n
    x = a + np.arange(n + 1) * h
    x[-1] = b
    v = integrand(x, lam)
    return float(np.sum((v[1:] + v[:-1]) * h / 2))


@lru_cache(None)
def kval(j, l, lam, n=300):
    lo, hi = Fraction(lam) ** (j - 1), Fraction(lam) ** j
    if l <= lo:
        return 1.0
    if l >= hi:
        return 0.0
    return part(l / float(hi), 1.0, n, lam) / part(1 / lam, 1.0, n, lam)


def k(L, lam, J, n=300):
    return np.array([[kval(j, l, lam, n) for l in range(L)] for j in range(J + 2)])


def axisym(L, J_min, lam, J):
    kk = k(L, lam, J)
    psi = np.zeros((J + 1, L))
    for j in range(J_min, J + 1):
        psi[j] = np.sqrt(np.maximum(kk[j + 1] - kk[j], 0))
    return psi, np.sqrt(kk[J_min])


def direction(L, N):
    s = np.zeros((L, 2 * L - 1), complex)
    nu = 1.0 if N % 2 else 1j
    for l in range(1, L):
        g = min(N - 1, l if (N + l) % 2 else l - 1)
        for m in range(-min(l, N - 1), min(l, N - 1) + 1):
            if (N + m) % 2 and (g - m) % 2 == 0 and abs(m) <= g:
                s[l, L - 1 + m] = nu * math.sqrt(math.comb(g, (g - m) // 2) / 2.0 ** g)
    return s


def spin_factor(l, spin0):
    if spin0 == 0:
        return 1.0
    v = Fraction(math.factorial(l + spin0), math.factorial(l - spin0))
    return (-1) ** spin0 * math.sqrt(v)


@lru_cache(256)
def directional(L, N, J_min, lam, spin, spin0, J):
    ax, sc = axisym(L, J_min, lam, J)
    s = direction(L, N)
    psi = np.zeros((J + 1, L, 2 * L - 1), complex)
    phi = np.zeros(L)
    for l in range(max(abs(spin), abs(spin0)), L):
        f = spin_factor(l, spin0)
        phi[l] = math.sqrt((2 * l + 1) / (4 * PI)) * sc[l] * f
        for j in range(J_min, J + 1):
            psi[j, l] = math.sqrt((2 * l + 1) / (8 * PI * PI)) * ax[j, l] * s[l] * f
    psi.setflags(write=False)
    phi.setflags(write=False)
    return psi, phi


# ---------------------------------------------------------------- signals and transforms
def random_flm(rng, L, spin=0, reality=False):
    flm = np.zeros((L, 2 * L - 1), complex)
    for l in range(abs(spin), L):
        for m in range(-l, l + 1):
            flm[l, L - 1 + m] = rng.standard_normal() + 1j * rng.standard_normal()
    if reality:
        for l in range(L):
            flm[l, L - 1] = flm[l, L - 1].real
            for m in range(1, l + 1):
                flm[l, L - 1 - m] = (-1) ** m * np.conj(flm[l, L - 1 + m])
    return flm


def analysis_coeffs(flm, L, N, J_min, lam, J, psi, phi, multi=True):
    """Wigner coefficients per scale and scaling harmonic coefficients, by the formula"""
    W = []
    for j in range(J_min, J + 1):
        lj, nj, _ = scales(L, j, N, lam, multi)
        w = np.zeros((2 * nj - 1, lj, 2 * lj - 1), complex)
        for l in range(lj):
            for n in range(-nj + 1, nj):
                if abs(n) < L:
                    w[nj - 1 + n, l, :] = 8 * PI * PI / (2 * l + 1) * flm[l, L - lj:L - 1 + lj] * np.conj(psi[j, l, L - 1 + n])
        W.append(w)
    ls = Ls(L, J_min, lam, multi)
    S = np.array([math.sqrt(4 * PI / (2 * l + 1)) * flm[l, L - ls:L - 1 + ls] * phi[l] for l in range(ls)])
    return W, S


def synthesis_flm(W, S, L, N, J_min, lam, J, psi, phi, multi=True):
    flm = np.zeros((L, 2 * L - 1), complex)
    for i, j in enumerate(range(J_min, J + 1)):
        lj, nj, l0 = scales(L, j, N, lam, multi)
        for l in range(l0, lj):
            for n in range(-nj + 1, nj):
                if abs(n) < L:
                    flm[l, L - lj:L - 1 + lj] += psi[j, l, L - 1 + n] * W[i][nj - 1 + n, l]
    ls = Ls(L, J_min, lam, multi)
    for l in range(ls):
        flm[l, L - ls:L - 1 + ls] += math.sqrt(4 * PI / (2 * l + 1)) * phi[l] * S[l]
    return flm
