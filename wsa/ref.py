"""Numerical references, written from the documented equations.

They run on the values of an interpretation (numbers), never on the code of
the repository."""

import cmath
import math


def gaussian(g, c, z, r):
    """Envelope of a Gaussian pulse at the initial time."""
    zr = math.pi*g['w_0']**2/g['l_0']
    D = 1 + 1j*(z - g['xi_c'] - g['z_foc'])/zr
    return (g['a_0']/D*cmath.exp(
        -1j*g['cep_phase'] - r**2/(g['w_0']**2*D)
        - 2*math.log(2)*(z - g['xi_c'])**2/(c*g['tau'])**2))


def spline(shape, d):
    d = abs(d)
    if shape == 'linear':
        return max(0., 1 - d)
    if d < 1:
        return 2/3 - d**2 + d**3/2
    return (2 - d)**3/6 if d < 2 else 0.


def correction(shape, k):
    """Ruyten coefficient of the interval between nodes k-1 and k."""
    if k <= 0:
        return 0.
    if shape == 'linear':
        return -.25/k
    return -239/320 if k == 1 else -.75/k


def deposit(out, parts, z0, dz, dr, shape, ruyten=True):
    """Add particles (z, r, w) to out[nz][nr], cell-centred in r."""
    nz, nr = len(out), len(out[0])
    for z, r, w in parts:
        zc, rc = (z - z0)/dz, r/dr - .5
        if not (0 <= zc <= nz - 1 and r <= nr*dr):
            continue
        k = math.ceil(rc)
        u = rc - k + 1
        fr = {}
        for j in range(k - 2, k + 2):
            s = spline(shape, rc - j)
            if ruyten:
                cf = correction(shape, min(k, nr))*u*(1 - u)
                s += cf*((j == k - 1) - (j == k))
            # what falls off the grid stays in it
            fr[j] = fr.get(j, 0.) + s
        fr = fold(fr, nr, rc)
        m = math.ceil(zc)
        fz = fold({i: spline(shape, zc - i) for i in range(m - 2, m + 2)},
                  nz, zc)
        for i, a in fz.items():
            for j, b in fr.items():
                out[i][j] += w*a*b


def fold(f, n, c):
    """Mirror the contributions to nodes outside of [0, n-1] inwards."""
    out = {}
    for j, s in f.items():
        if j < 0:
            j = -1 - j
        elif j > n - 1:
            j = 2*n - 1 - j
        out[j] = out.get(j, 0.) + s
    return {j: s for j, s in out.items() if s != 0 and 0 <= j < n}


def gradient(a, h):
    """Second-order derivative of equally spaced values."""
    n = len(a)
    d = [0.]*n
    for i in range(1, n - 1):
        d[i] = (a[i+1] - a[i-1])/(2*h)
    d[0] = (-1.5*a[0] + 2*a[1] - .5*a[2])/h
    d[-1] = (1.5*a[-1] - 2*a[-2] + .5*a[-3])/h
    return d


def columns(f):
    return [list(q) for q in zip(*f)]


def bilinear(f, z0, r0, dz, dr, z, r):
    i = min(max(int(math.floor((z - z0)/dz)), 0), len(f) - 2)
    j = min(max(int(math.floor((r - r0)/dr)), 0), len(f[0]) - 2)
    u, w = (z - z0)/dz - i, (r - r0)/dr - j
    return ((1-u)*((1-w)*f[i][j] + w*f[i][j+1])
            + u*((1-w)*f[i+1][j] + w*f[i+1][j+1]))
