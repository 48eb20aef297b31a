"""Independent description of the shapes of the toolbox: a shape is the convex hull of points, grown by a radius.
spec: tuple (kind, parameters...); build() gives the object of the toolbox, points()/radius() the reference."""
import numpy as np
import omgtools as og

TRI = [[-.3, .4, .1], [-.2, -.1, .35]]


def build(spec):
    k = spec[0]
    if k == 'circle':
        return og.Circle(spec[1])
    if k == 'cylinder':
        from omgtools.basics.shape import Cylinder
        return Cylinder(spec[1])
    if k == 'rect':
        return og.Rectangle(spec[1], spec[2], **(dict(orientation=spec[3]) if len(spec) > 3 else {}))
    if k == 'square':
        return og.Square(spec[1], **(dict(orientation=spec[2]) if len(spec) > 2 else {}))
    if k == 'ufo':
        return og.UFO(spec[1], spec[2])
    if k == 'beam':
        return og.Beam(spec[1], spec[2], **(dict(orientation=spec[3]) if len(spec) > 3 else {}))
    if k == 'reg':
        return og.RegularPolyhedron(spec[1], spec[2], **(dict(orientation=spec[3]) if len(spec) > 3 else {}))
    if k == 'tri':
        return og.Polyhedron(np.array(TRI), **(dict(orientation=spec[1]) if len(spec) > 1 else {}))
    if k == 'sphere':
        return og.Sphere(spec[1])
    if k == 'cuboid':
        return og.Cuboid(spec[1], spec[2], spec[3], **(dict(orientation=list(spec[4])) if len(spec) > 4 else {}))
    if k == 'cube':
        return og.Cube(spec[1])
    if k == 'prism':
        return og.RegularPrisma(spec[1], spec[2], spec[3], **(dict(orientation=list(spec[4])) if len(spec) > 4 else {}))
    if k == 'plate':
        return og.Plate(build(spec[1]), spec[2], **(dict(orientation=list(spec[3])) if len(spec) > 3 else {}))
    raise KeyError(k)


def rot2(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def rot3(o):
    r, p, y = o
    cx, sx, cy, sy, cz, sz = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    X = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Y = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Z = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return Z.dot(Y).dot(X)


def ngon(r, n):
    """regular polygon with a side on top"""
    a = np.pi / 2 - np.pi / n - 2 * np.pi / n * np.arange(n)
    return r * np.vstack([np.cos(a), np.sin(a)])


def box(*h):
    g = np.array(np.meshgrid(*[[-.5 * x, .5 * x] for x in h], indexing='ij')).reshape(len(h), -1)
    return g


def points(spec):
    """points (dim x n) of the reference shape in its own frame"""
    k = spec[0]
    if k in ('circle', 'cylinder'):
        return np.zeros((2, 1))
    if k == 'sphere':
        return np.zeros((3, 1))
    if k in ('rect', 'ufo'):
        return rot2(spec[3] if len(spec) > 3 else 0.).dot(box(spec[1], spec[2]))
    if k == 'square':
        return rot2(spec[2] if len(spec) > 2 else 0.).dot(box(spec[1], spec[1]))
    if k == 'beam':
        return rot2(spec[3] if len(spec) > 3 else 0.).dot(np.array([[.5, -.5], [0., 0.]]) * spec[1])
    if k == 'reg':
        return rot2(spec[3] if len(spec) > 3 else 0.).dot(ngon(spec[1], spec[2]))
    if k == 'tri':
        return rot2(spec[1] if len(spec) > 1 else 0.).dot(np.array(TRI))
    if k == 'cuboid':
        return rot3(spec[4] if len(spec) > 4 else (0, 0, 0)).dot(box(*spec[1:4]))
    if k == 'cube':
        return box(*[spec[1]] * 3)
    if k == 'prism':
        b = ngon(spec[1], spec[3])
        p = np.hstack([np.vstack([b, z * np.ones(spec[3])]) for z in (-.5 * spec[2], .5 * spec[2])])
        return rot3(spec[4] if len(spec) > 4 else (0, 0, 0)).dot(p)
    if k == 'plate':
        b = points(spec[1])
        return rot3(spec[3] if len(spec) > 3 else (0, 0, 0)).dot(np.vstack([b, np.zeros(b.shape[1])]))
    raise KeyError(k)


def radius(spec):
    """radius around the hull of the points that belongs to the shape itself"""
    k = spec[0]
    if k in ('circle', 'cylinder', 'sphere'):
        return spec[1]
    if k == 'beam':
        return .5 * spec[2]
    if k == 'plate':
        return .5 * spec[2]
    return 0.


def solid(spec):
    """the shape itself as points and a radius: a plate is its base extruded along its normal, which the collision
    constraints replace by the points of the middle surface with a radius around them"""
    if spec[0] != 'plate':
        return points(spec), radius(spec)
    n = rot3(spec[3] if len(spec) > 3 else (0, 0, 0)).dot([0., 0., .5 * spec[2]])[:, None]
    return np.hstack([points(spec) + n, points(spec) - n]), 0.


def placed(spec, pos, ang=0., P=None):
    P = points(spec) if P is None else P
    if P.shape[0] == 2 and ang:
        P = rot2(ang).dot(P)
    return P + np.asarray(pos, float)[:P.shape[0], None]


def hull_distance(P, Q):
    """distance between the convex hulls of two point sets, 0 when they overlap (Wolfe's nearest point algorithm on
    the Minkowski difference)"""
    D = (P[:, :, None] - Q[:, None, :]).reshape(P.shape[0], -1).T
    if len(D) == 1:
        return float(np.linalg.norm(D[0]))
    sc = max(1., np.abs(D).max())
    eps = 1e-12 * sc * sc
    S = [int(np.argmin((D * D).sum(1)))]
    w = np.array([1.])
    for _ in range(200):
        x = w.dot(D[S])
        k = int(np.argmin(D.dot(x)))
        if x.dot(x) - D[k].dot(x) <= eps or k in S:
            break
        S.append(k)
        w = np.r_[w, 0.]
        while True:
            # affine minimiser over S
            B = D[S]
            n = len(S)
            M = np.zeros((n + 1, n + 1))
            M[:n, :n] = B.dot(B.T)
            M[:n, n] = M[n, :n] = 1.
            a = np.linalg.lstsq(M, np.r_[np.zeros(n), 1.], rcond=1e-13)[0][:n]
            if (a > 1e-12).all():
                w = a
                break
            neg = a <= 1e-12
            with np.errstate(all='ignore'):
                q = w[neg] / (w[neg] - a[neg])
            th = np.nanmin(q) if np.isfinite(q).any() else 0.
            w = (1 - th) * w + th * a
            keep = w > 1e-12
            keep[int(np.argmin(np.where(neg, w, np.inf)))] = False
            S = [s_ for s_, kk in zip(S, keep) if kk]
            w = w[keep]
            w = w / w.sum()
    x = w.dot(D[S])
    d = float(np.linalg.norm(x))
    return 0. if d < 1e-7 else d


def separation(specP, P, specQ, Q):
    """distance between two placed shapes; negative (at least one radius deep) when they overlap"""
    return hull_distance(P, Q) - radius(specP) - radius(specQ)
