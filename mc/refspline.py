"""Exact reference model of splines: piecewise polynomials with rational coefficients.
Convention of the library: pieces are left-open/right-closed, the first one closed."""
from fractions import Fraction as F
from functools import lru_cache
import itertools


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def pev(p, x):
    s = F(0)
    for c in reversed(p):
        s = s * x + c
    return s


class PP(object):
    def __init__(self, br, polys):
        self.br, self.p = list(br), polys

    def piece(self, x):
        for i in range(len(self.p)):
            if x <= self.br[i + 1]:
                return i
        return len(self.p) - 1

    def __call__(self, x):
        x = F(x)
        return pev(self.p[self.piece(x)], x)

    def refine(self, br):
        out = []
        for a, b in zip(br[:-1], br[1:]):
            out.append(self.p[self.piece((a + b) / 2)])
        return out

    def _bin(self, o, f):
        br = sorted(set(self.br) | set(o.br))
        return PP(br, [f(a, b) for a, b in zip(self.refine(br), o.refine(br))])

    def __add__(self, o):
        if not isinstance(o, PP):
            return PP(self.br, [padd(p, [F(o)]) for p in self.p])
        return self._bin(o, padd)

    def __mul__(self, o):
        if not isinstance(o, PP):
            return PP(self.br, [[c * F(o) for c in p] for p in self.p])
        return self._bin(o, pmul)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, PP) else -F(o))

    def deriv(self, n=1):
        q = self
        for _ in range(n):
            q = PP(q.br, [[c * i for i, c in enumerate(p)][1:] for p in q.p])
        return q

    def integral(self):
        """running integral, zero at the left end, continuous"""
        out, acc = [], F(0)
        for (a, b), p in zip(zip(self.br[:-1], self.br[1:]), self.p):
            q = [F(0)] + [c / (i + 1) for i, c in enumerate(p)]
            q[0] = acc - pev(q, a)
            out.append(q)
            acc = pev(q, b)
        return PP(self.br, out)

    def deg(self):
        return max([len(p) for p in self.p]) - 1


@lru_cache(maxsize=None)
def basis_pp(knots, degree):
    k = [F(x) for x in knots]
    br = sorted(set(k))
    n = len(br) - 1
    B = []
    for i in range(len(k) - 1):
        B.append([[F(1)] if (k[i] <= br[j] and br[j + 1] <= k[i + 1]) else [] for j in range(n)])
    for d in range(1, degree + 1):
        N = []
        for i in range(len(k) - d - 1):
            pieces = [[] for _ in range(n)]
            h = k[i + d] - k[i]
            if h:
                for j in range(n):
                    pieces[j] = padd(pieces[j], pmul([-k[i] / h, 1 / h], B[i][j]))
            h = k[i + d + 1] - k[i + 1]
            if h:
                for j in range(n):
                    pieces[j] = padd(pieces[j], pmul([k[i + d + 1] / h, -1 / h], B[i + 1][j]))
            N.append(pieces)
        B = N
    return br, B


def spline_pp(knots, degree, coeffs):
    br, B = basis_pp(tuple(F(x) for x in knots), degree)
    pieces = []
    for j in range(len(br) - 1):
        p = []
        for c, b in zip(coeffs, B):
            if c:
                p = padd(p, [F(c) * x for x in b[j]])
        pieces.append(p)
    return PP(br, pieces)


def nbasis(knots, degree):
    return len(knots) - degree - 1


def clamped(degree, interior, a=0, b=1):
    """interior: list of (knot, multiplicity)"""
    k = [F(a)] * (degree + 1)
    for x, m in interior:
        k += [F(x)] * m
    return tuple(k + [F(b)] * (degree + 1))


def points(brs, per=4, ends=True):
    """sample points: `per` rational interior points per piece (enough to identify a polynomial of degree < per)
    and the break points themselves"""
    br = sorted(set(F(b) for b in brs))
    xs = []
    for a, b in zip(br[:-1], br[1:]):
        xs += [a + (b - a) * F(i, per + 1) for i in range(1, per + 1)]
    if ends:
        xs += br
    return sorted(set(xs))


def coeff_sets(n):
    """unit vectors (a basis of coefficient space: for linear operations they decide all coefficients)
    plus two generic vectors"""
    out = []
    for i in range(n):
        out.append([1 if j == i else 0 for j in range(n)])
    out.append([((7 * j * j + 3 * j + 2) % 11) - 5 for j in range(n)])
    out.append([F(((5 * j + 1) % 7), 2) for j in range(n)])
    return out
