"""Independent phase diagrams: binary mixtures (any sizes) and symmetric mixtures."""
import numpy as np
from scipy.optimize import brentq


def logit(x):
    return np.log(x) - np.log1p(-x)


class Binary:
    """Free energy phi ln(phi)/l1 + (1-phi) ln(1-phi)/l2 + chi phi (1-phi)."""

    def __init__(self, chi, l1, l2):
        self.chi, self.l1, self.l2 = float(chi), float(l1), float(l2)
        self.critical = 0.5 * (1 / np.sqrt(l1) + 1 / np.sqrt(l2)) ** 2

    # functions of u = logit(phi), accurate at both ends
    def logs(self, u):
        return -np.logaddexp(0, -u), -np.logaddexp(0, u)  # ln phi, ln(1-phi)

    def slope(self, u):
        a, b = self.logs(u)
        return (a + 1) / self.l1 - (b + 1) / self.l2 + self.chi * (np.exp(b) - np.exp(a))

    def f(self, u):
        a, b = self.logs(u)
        p, q = np.exp(a), np.exp(b)
        return p * a / self.l1 + q * b / self.l2 + self.chi * p * q

    def curv(self, p):
        return 1 / (self.l1 * p) + 1 / (self.l2 * (1 - p)) - 2 * self.chi

    def spinodal(self):
        """The two spinodal fractions, or None."""
        if self.chi <= self.critical:
            return None
        # 1/(l1 p) + 1/(l2 q) = 2 chi
        A, B, C = 2 * self.chi, -(2 * self.chi + 1 / self.l2 - 1 / self.l1), 1 / self.l1
        # (1-p)/l1 + p/l2 - 2 chi p (1-p) = 0  ->  2chi p^2 + (1/l2 - 1/l1 - 2chi) p + 1/l1 = 0
        B = 1 / self.l2 - 1 / self.l1 - 2 * self.chi
        D = B * B - 4 * A * C
        if D <= 0:
            return None
        s = np.sqrt(D)
        q = -0.5 * (B - s) if B < 0 else -0.5 * (B + s)
        r = sorted([q / A, C / q])
        return (r[0], r[1]) if 0 < r[0] < r[1] < 1 else None

    def binodal(self):
        """The two coexisting fractions, or None."""
        sp = self.spinodal()
        if sp is None:
            return None
        ua, ub = logit(sp[0]), logit(sp[1])
        smax, smin = self.slope(ua), self.slope(ub)

        def left(s):
            return brentq(lambda u: self.slope(u) - s, -700, ua, xtol=1e-13, rtol=1e-14)

        def right(s):
            return brentq(lambda u: self.slope(u) - s, ub, 700, xtol=1e-13, rtol=1e-14)

        def gap(s):
            a, b = left(s), right(s)
            return (self.f(b) - s * np.exp(self.logs(b)[0])) - (self.f(a) - s * np.exp(self.logs(a)[0]))

        eps = 1e-9 * (smax - smin)
        lo, hi = smin + eps, smax - eps
        if gap(lo) * gap(hi) > 0:
            return None
        s = brentq(gap, lo, hi, xtol=1e-14, rtol=1e-14)
        return 1 / (1 + np.exp(-left(s))), 1 / (1 + np.exp(-right(s)))


def symmetric(N, chi, size):
    """Fractions (rich, poor) of the coexisting phases of a symmetric mixture; the largest root of
    ln(x/y) = size chi (x - y), y = (1 - x)/(N - 1)."""
    k = chi * size

    def g(t):  # t = ln(x/y)
        y = 1 / (np.exp(t) + N - 1)
        return t - k * (np.exp(t) - 1) * y

    ts = np.linspace(1e-3, k + 1, 4000)
    v = np.array([g(t) for t in ts])
    j = np.where((v[:-1] < 0) & (v[1:] >= 0))[0]
    if len(j) == 0:
        return None
    t = brentq(g, ts[j[-1]], ts[j[-1] + 1], xtol=1e-13)
    y = 1 / (np.exp(t) + N - 1)
    return np.exp(t) * y, y
