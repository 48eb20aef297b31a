"""C15: shapes and geometric predicates agree with exact geometry.
Every shape of an enumerated set, in every orientation of a grid: vertices, half-planes, checkpoints, limits, drawn
surfaces and rotation against an independent description (hull of points grown by a radius). Every predicate of the
toolbox on exhaustive grids of arguments against exact (rational where possible) geometry; arguments closer than 1e-6 to
the boundary of the answer are left out; arguments must not be altered."""
import itertools
import warnings
from fractions import Fraction as F
import numpy as np
import omgtools as og
from omgtools.basics import geometry as gm
from omgtools.basics.shape import Ring, Cylinder
from mc.core import repo_call
from mc import shapelib as sl

BOUNDS = dict(quick='36 shapes x 7 orientations x directions; predicates on full grids: 6x6 point grids, all pairs of segments of a 4x4 grid, circles of 3 radii on a 9x9 grid around 10 polygons, all pairs of rectangles of a grid',
              thorough='finer grids (5x5 points for segments, 15x15 centres)')
ASSUMPTIONS = ['polyhedra are allowed the numerical radius of 1e-3 of the toolbox', 'answers closer than 1e-6 to the boundary are not judged',
               'a Beam is a segment grown by a radius: it has no half-planes', 'the sign convention of distance_to_rectangle is not judged',
               'point_in_polyhedron with a margin means half-planes shifted by the margin; overlap of obstacles ignores an orientation given in their initial state (bounce supports none)']

ANG = [0., .3, -.7, np.pi / 2, 2.1, np.pi, -3.9]
S2 = [('circle', .4), ('cylinder', 1.3), ('rect', .8, .3), ('rect', .2, 2.), ('square', 1.1), ('ufo', 1., .4), ('beam', 1., .2), ('beam', .3, .8), ('tri',)] + [('reg', .7, n) for n in (3, 4, 5, 6, 9)]
S3 = [('sphere', .6), ('cuboid', .5, .8, 1.3), ('cube', .7), ('plate', ('rect', .6, .4), .1), ('plate', ('reg', .5, 5), .3)] + [('prism', .6, 1.1, n) for n in (3, 4, 5, 6)]
ORI3 = [(0, 0, 0), (.4, 0, 0), (0, .5, 0), (0, 0, -.6), (.3, -.4, .8), (np.pi / 2, 0, 1.), (-2., 1.2, 3.)]
POLY = [('rect', 2., 1.), ('rect', 2., 1., .5), ('rect', 1., 2.2, -.9), ('square', 1.4, np.pi / 4), ('tri',), ('tri', 1.), ('reg', 1., 3), ('reg', 1.1, 5, .3), ('reg', .9, 6, 1.)]


def spec_at(sp, o):
    if sp[0] in ('rect',):
        return sp[:3] + (o,)
    if sp[0] in ('square', 'beam', 'reg', 'tri'):
        n = dict(square=2, beam=3, reg=3, tri=1)[sp[0]]
        return sp[:n] + (o,)
    if sp[0] in ('cuboid', 'prism', 'plate'):
        n = dict(cuboid=4, prism=4, plate=3)[sp[0]]
        return sp[:n] + (o,)
    return sp


def cases(tier):
    for sp in S2:
        for o in (ANG if sp[0] not in ('circle', 'cylinder', 'ufo') else [0.]):
            yield dict(kind='shape', spec=spec_at(sp, o), tier=tier)
    for sp in S3:
        for o in (ORI3 if sp[0] not in ('sphere', 'cube') else [(0, 0, 0)]):
            yield dict(kind='shape', spec=spec_at(sp, o), tier=tier)
    for i in range(4):
        yield dict(kind='segments', part=i, tier=tier)
    yield dict(kind='lines', tier=tier)
    yield dict(kind='points', tier=tier)
    for sp in POLY:
        yield dict(kind='polygon', spec=sp, tier=tier)
    yield dict(kind='rectangle', tier=tier)
    yield dict(kind='rectangles', tier=tier)
    yield dict(kind='overlap', tier=tier)
    yield dict(kind='ring', tier=tier)


def dirs(dim):
    if dim == 2:
        a = np.linspace(0, 2 * np.pi, 49)[:-1]
        return np.vstack([np.cos(a), np.sin(a)])
    g = np.array([x for x in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(x)], float).T
    return g / np.linalg.norm(g, axis=0)


def support(P, r, D):
    return P.T.dot(D).max(axis=0) + r


def same_points(A, B, tol=1e-9):
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.shape[0] != B.shape[0]:
        return False
    d = np.linalg.norm(A[:, :, None] - B[:, None, :], axis=0)
    return d.min(axis=1).max() < tol and d.min(axis=0).max() < tol


_OBS = {}


def obstacle(key, shape, pos):
    """an obstacle with this shape at this position (the objects are reused)"""
    if key not in _OBS:
        _OBS[key] = og.Obstacle(dict(position=[0.] * shape.n_dim), shape, {}, {})
    assert _OBS[key].shape.n_dim == shape.n_dim
    _OBS[key].signals['position'] = np.array(pos, float).reshape(-1, 1)
    return _OBS[key]


def freeze(x):
    return repr(x)


def shape_case(r, case):
    sp = tuple(case['spec'])
    sp = tuple(tuple(x) if isinstance(x, list) else x for x in sp)
    ok, S = repo_call(r, 'shape %s' % (sp,), sl.build, sp)
    if not ok:
        return
    P, rad = sl.points(sp), sl.radius(sp)
    dim = P.shape[0]
    D = dirs(dim)
    tol = 1.1e-3
    exact = sp[0] in ('circle', 'cylinder', 'sphere')
    r.check(S.n_dim == dim, lambda: '%s: n_dim %s' % (sp, S.n_dim))
    if not exact:
        r.check(same_points(S.vertices, P), lambda: '%s: vertices %s instead of %s' % (sp, np.round(S.vertices, 4).tolist(), np.round(P, 4).tolist()))
        r.check(S.n_vert == P.shape[1], lambda: '%s: n_vert %s' % (sp, S.n_vert))
    ref = support(P, rad, D)
    ok, c = repo_call(r, '%s: get_checkpoints' % (sp,), S.get_checkpoints)
    if ok:
        C, R = np.array(c[0], float).T, np.array(c[1], float)
        got = (C.T.dot(D) + R[:, None]).max(axis=0) if C.shape[1] == len(R) else np.full(len(ref), np.inf)
        e = got - ref
        r.check(e.min() > -1e-9 and e.max() < (1e-9 if exact else tol), lambda: '%s: checkpoints with radius do not describe the shape (support off by %.4g..%.4g)' % (sp, e.min(), e.max()))
    ok, L = repo_call(r, '%s: get_canvas_limits' % (sp,), S.get_canvas_limits)
    if ok:
        L = np.array(L, float)
        hi, lo = support(*sl.solid(sp), np.eye(dim)), -support(*sl.solid(sp), -np.eye(dim))
        r.check(L.shape == (dim, 2) and np.abs(L[:, 1] - hi).max() < tol and np.abs(L[:, 0] - lo).max() < tol,
                lambda: '%s: limits %s instead of %s' % (sp, L.tolist(), np.c_[lo, hi].tolist()))
    # rotation and drawn surfaces
    poses = [np.r_[p, o] for p in ([0., 0.], [1., -2.]) for o in (0., .9, -2.2)] if dim == 2 else [np.r_[p, o] for p in ([0., 0., 0.], [1., -2., .5]) for o in ([0, 0, 0], [.3, .2, -.9])]
    for pose in poses:
        Rm = sl.rot2(pose[2]) if dim == 2 else sl.rot3(pose[3:])
        ang = float(pose[2]) if dim == 2 else list(pose[3:])
        ok, q = repo_call(r, '%s: rotate' % (sp,), S.rotate, ang, P)
        if ok:
            r.check(np.allclose(q, Rm.dot(P), atol=1e-12), lambda: '%s: rotate by %s gives %s instead of %s' % (sp, ang, np.round(q, 4).tolist(), np.round(Rm.dot(P), 4).tolist()))
        ok, d = repo_call(r, '%s: draw' % (sp,), S.draw, pose)
        if ok:
            pts = np.hstack([np.asarray(s, float) for s in d[0]])
            base = np.hstack([np.asarray(s, float) for s in S.surfaces])
            r.check(np.allclose(pts, pose[:dim, None] + Rm.dot(base), atol=1e-12), lambda: '%s: drawn at pose %s it is not the shape moved there' % (sp, pose))
            Q = Rm.dot(P) + pose[:dim, None]
            e = support(pts, 0., D) - support(Q, rad, D)
            # circles are drawn as polygons, an UFO only inside of its rectangle, a plate as its middle surface
            low = -.02 * max(rad, .0) - 1e-9
            if sp[0] == 'sphere':
                low = -.06 * rad
            if sp[0] == 'ufo':
                low = -1.
            if sp[0] == 'plate':
                low = -rad - 1e-9
            r.check(e.max() < 1e-9 and e.min() > low, lambda: '%s: the drawn surface is not the shape (off by %.4g..%.4g)' % (sp, e.min(), e.max()))
        r.state()
    # half-planes
    if hasattr(S, 'get_hyperplanes') and sp[0] not in ('beam', 'plate'):
        for pose in poses:
            pos, ang = pose[:dim], (float(pose[2]) if dim == 2 else list(pose[3:]))
            kws = [dict(position=list(pos))]
            try:
                S.get_hyperplanes(position=list(pos), orientation=ang)
                kws.append(dict(position=list(pos), orientation=ang))
            except TypeError:
                pass
            for kw in kws:
                Rm = (sl.rot2(ang) if dim == 2 else sl.rot3(ang)) if 'orientation' in kw else np.eye(dim)
                Q = Rm.dot(P) + np.asarray(pos)[:, None]
                ok, h = repo_call(r, '%s: get_hyperplanes' % (sp,), S.get_hyperplanes, **kw)
                if not ok:
                    return
                A = np.array([np.ravel(x['a']) for x in h.values()], float)
                b = np.array([float(np.ravel(x['b'])[0]) for x in h.values()])
                r.check(np.allclose(np.linalg.norm(A, axis=1), 1.), lambda: '%s: normals are not of unit length' % (sp,))
                # each half-plane supports the shape, and each point outside of it is cut off by one of them
                r.check(np.abs(A.dot(Q).max(axis=1) - b).max() < 1e-9, lambda: '%s %s: a half-plane does not touch the shape' % (sp, kw))
                for x in itertools.product(np.linspace(-1.3, 1.3, 9 if dim == 2 else 5) + .013, repeat=dim):
                    x = np.array(x) + pos
                    d = sl.hull_distance(x[:, None], Q)
                    ins = (A.dot(x) - b).max()
                    if d > 1e-6:
                        if not r.check(ins > 0, lambda: '%s %s: point %s is %.4g outside of the shape but inside of all half-planes' % (sp, kw, x, d)):
                            return
                    elif ins > 1e-6:
                        # inside of the hull but outside of a half-plane contradicts the support check above
                        r.fail('%s %s: point %s of the shape is outside of a half-plane' % (sp, kw, x))
                        return
        r.outcome(sp, 'hp', np.round(A, 6).tolist())
    r.trace()
    r.outcome(sp, np.round(ref, 6).tolist())


def ccw(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def segments_case(r, case):
    n = 4 if case['tier'] == 'quick' else 5
    pts = list(itertools.product(range(n), repeat=2))
    segs = [(a, b) for a in pts for b in pts if a != b]
    if case['tier'] == 'quick':
        left = [s for i, s in enumerate(segs) if i % 4 == case['part']]
    else:
        left = [s for i, s in enumerate(segs) if i % 4 == case['part'] and s[0] < s[1]]
    for s in left:
        for q in segs:
            o = [ccw(s[0], s[1], q[0]), ccw(s[0], s[1], q[1]), ccw(q[0], q[1], s[0]), ccw(q[0], q[1], s[1])]
            if 0 in o:
                continue
            exp = (o[0] > 0) != (o[1] > 0) and (o[2] > 0) != (o[3] > 0)
            got = gm.intersect_line_segments([list(s[0]), list(s[1])], [list(q[0]), list(q[1])])
            if not r.check(bool(got) == exp, lambda: 'segments %s and %s: intersection reported %s' % (s, q, got)):
                return
    for a, b, c in itertools.product(pts, repeat=3):
        o = ccw(a, b, c)
        if o != 0:
            if not r.check(bool(gm.order_is_ccw(list(a), list(b), list(c))) == (o > 0), lambda: 'order of %s %s %s' % (a, b, c)):
                return
    r.state(len(left))
    r.trace()
    r.outcome(case['part'])


def lines_case(r, case):
    n = 4 if case['tier'] == 'quick' else 5
    pts = list(itertools.product(range(n), repeat=2))
    off = F(1, 4)
    for a, b in itertools.combinations(pts, 2):
        for c, d in itertools.permutations(pts, 2):
            a_ = (a[0] + off, a[1] - off)
            b_ = (b[0] + off, b[1] - off)
            den = (a_[0] - b_[0]) * (c[1] - d[1]) - (a_[1] - b_[1]) * (c[0] - d[0])
            args = [[float(x) for x in a_], [float(x) for x in b_]], [[float(x) for x in c], [float(x) for x in d]]
            before = freeze(args)
            got = gm.intersect_lines(*args)
            if den == 0:
                ok = got is None
            else:
                t = F((a_[0] - c[0]) * (c[1] - d[1]) - (a_[1] - c[1]) * (c[0] - d[0])) / den
                p = [float(a_[k] + t * (b_[k] - a_[k])) for k in (0, 1)]
                ok = got is not None and abs(got[0] - p[0]) < 1e-9 and abs(got[1] - p[1]) < 1e-9
            if not r.check(ok and freeze(args) == before, lambda: 'lines %s: intersection %s' % (args, got)):
                return
    r.trace()
    r.state()
    r.outcome('lines')


def points_case(r, case):
    vals = (-1.5, 0., .25, 2.)
    for dim in (1, 2, 3):
        for a in itertools.product(vals, repeat=dim):
            for b in itertools.product(vals, repeat=dim):
                for f in (list, tuple, np.array):
                    d = gm.distance_between_points(f(a), f(b))
                    if not r.check(abs(d - sum((F(x) - F(y)) ** 2 for x, y in zip(a, b)) ** .5) < 1e-9, lambda: 'distance %s %s: %s' % (a, b, d)):
                        return
    try:
        gm.distance_between_points([0., 1.], [0., 1., 2.])
        r.fail('distance between points of different dimension accepted')
    except ValueError:
        r.step()
    for a in itertools.product(vals, repeat=2):
        for b in itertools.product(vals, repeat=2):
            if a == b:
                continue
            for p in itertools.product((-1., .5, 1.), repeat=2):
                got = gm.distance_to_line(list(p), [list(a), list(b)])
                exp = abs(ccw(a, b, p)) / np.hypot(b[0] - a[0], b[1] - a[1])
                if not r.check(abs(got - exp) < 1e-9, lambda: 'distance of %s to the line %s %s: %s instead of %s' % (p, a, b, got, exp)):
                    return
    r.trace()
    r.state()
    r.outcome('points')


def polygon_case(r, case):
    sp = tuple(case['spec'])
    S = sl.build(sp)
    P = sl.points(sp)
    a = np.arctan2(P[1] - P[1].mean(), P[0] - P[0].mean())
    P = P[:, np.argsort(a)]
    n = 9 if case['tier'] == 'quick' else 15
    for pos in ([0., 0.], [2., -1.], [-30.25, 17.5]):
        Q = P + np.array(pos)[:, None]
        E = np.roll(Q, -1, axis=1) - Q
        N = np.vstack([E[1], -E[0]]) / np.linalg.norm(E, axis=0)
        b = (N * Q).sum(axis=0)
        for x in itertools.product(np.linspace(-2., 2., n) + .01, repeat=2):
            p = np.array(x) + pos
            side = N.T.dot(p) - b
            # exact distance to the boundary
            t = np.clip(((p[:, None] - Q) * E).sum(axis=0) / (E ** 2).sum(axis=0), 0., 1.)
            dist = np.linalg.norm(Q + t * E - p[:, None], axis=0).min()
            for m in (0, .3, -.2):
                if np.abs(side - m).min() < 1e-6 and m == 0:
                    continue
                got = gm.point_in_polyhedron(list(p), S, list(pos), margin=m) if m else gm.point_in_polyhedron(list(p), S, list(pos))
                if abs(side.max() - m) < 1e-6:
                    continue
                if not r.check(bool(got) == bool(side.max() <= m), lambda: 'point %s in polygon %s at %s, margin %s: %s' % (p, sp, pos, m, got)):
                    return
            for rad in (.05, .4, 1.1):
                if abs(dist - rad) < 1e-6:
                    continue
                o = obstacle(('c', rad), og.Circle(rad), p)
                v0 = S.vertices.copy()
                ok, got = repo_call(r, 'circle_polyhedron_intersection', gm.circle_polyhedron_intersection, o, S, list(pos))
                if not ok:
                    return
                if not r.check(bool(got) == (dist < rad) and np.array_equal(v0, S.vertices),
                               lambda: 'circle of radius %s at %s and the sides of polygon %s at %s, %.4g apart: intersection reported %s' % (rad, p, sp, pos, dist, got)):
                    return
                # overlap of obstacles, in both directions
                q = obstacle(('s', sp), S, pos)
                exp = dist < rad or side.max() < 0
                if abs(side.max()) < 1e-6:
                    continue
                for u, w in ((o, q), (q, o)):
                    got = u.overlaps_with(w)
                    if not r.check(bool(got) == exp, lambda: 'circle of radius %s at %s and polygon %s at %s: overlap reported %s' % (rad, p, sp, pos, got)):
                        return
            r.state()
    r.trace()
    r.outcome(sp)


def rectangle_case(r, case):
    xs = np.linspace(-2., 3., 6) + .1
    for lim in ([0., 0., 1., 1.], [-1., -1.5, 2., .5], [.35, -2., .85, 2.5]):
        for x, y in itertools.product(xs, repeat=2):
            for d in (0, .2, -.3):
                e = [lim[0] + d < x < lim[2] - d, lim[1] + d < y < lim[3] - d]
                kw = dict(distance=d) if d else {}
                if min(abs(x - lim[0] - d), abs(x - lim[2] + d), abs(y - lim[1] - d), abs(y - lim[3] + d)) < 1e-9:
                    continue
                g1 = gm.point_in_rectangle([x, y], list(lim), **kw)
                g2 = gm.point_in_rectangle([x, y], list(lim), xy_check=True, **kw)
                if not r.check(bool(g1) == all(e) and [bool(z) for z in g2] == e, lambda: 'point %s in rectangle %s with distance %s: %s %s' % ((x, y), lim, d, g1, g2)):
                    return
            for T in (.5, 1., 2.7, 10):
                for v in itertools.product((-3.1, -.4, 0., 1.3, 7.), repeat=2):
                    lo, hi = 0., float(T)
                    for p, u, l, h in ((x, v[0], lim[0], lim[2]), (y, v[1], lim[1], lim[3])):
                        if u == 0:
                            if not l <= p <= h:
                                lo, hi = 1., -1.
                        else:
                            a, b = sorted(((l - p) / u, (h - p) / u))
                            lo, hi = max(lo, a), min(hi, b)
                    if abs(hi - lo) < 1e-6 and not (lo == 1. and hi == -1.):
                        continue
                    got = gm.point_in_rectangle([x, y], list(lim), horizon_time=T, velocity=list(v))
                    if not r.check(bool(got) == (hi >= lo), lambda: 'point %s moving with %s for %s s is %sin the rectangle %s at some time: reported %s' % ((x, y), v, T, '' if hi >= lo else 'not ', lim, got)):
                        return
            r.state()
    for w, h, pos in ((1., 2., [0., 0.]), (3., .5, [2., -1.])):
        for x, y in itertools.product(xs, repeat=2):
            class Rect(object):
                pass
            o = Rect()
            o.shape = og.Rectangle(w, h)
            o.vertices, o.signals = o.shape.vertices, {'position': np.array(pos).reshape(2, 1)}
            v0 = o.shape.vertices.copy()
            exp = [min(abs(x - pos[0] - .5 * w), abs(x - pos[0] + .5 * w)), min(abs(y - pos[1] - .5 * h), abs(y - pos[1] + .5 * h))]
            for i in (1, 2):
                ok, got = repo_call(r, 'distance_to_rectangle', gm.distance_to_rectangle, [x, y], o)
                if not ok:
                    return
                if not r.check(np.allclose(np.abs(got), exp) and np.allclose(o.shape.vertices, v0), lambda: 'distance of %s to the rectangle %s x %s at %s (call %d): %s instead of %s' % ((x, y), w, h, pos, i, got, exp)):
                    return
    r.trace()
    r.outcome('rectangle')


def rectangles_case(r, case):
    sh = [(1., 1.), (3., .5), (.4, 2.)]
    g = [-2.05, -.6, 0., .45, 1.3, 2.1]
    p2 = [.1, -.2]
    for a, b in itertools.product(sh, repeat=2):
        A, B = og.Rectangle(*a), og.Rectangle(*b)
        for p in itertools.product(g, repeat=2):
            gap = [abs(p[k] - p2[k]) - .5 * (a[k] + b[k]) for k in (0, 1)]
            if min(abs(x) for x in gap) < 1e-6:
                continue
            exp = max(gap) < 0
            for args in ((A, list(p), B, list(p2)), (B, list(p2), A, list(p))):
                lim0 = [np.array(s.get_canvas_limits()) for s in (A, B)]
                got = gm.rectangles_overlap(*args)
                ok = bool(got) == exp
                try:
                    c = gm.compute_rectangle_overlap_center(*args)
                    e = [.5 * (max(p[k] - .5 * a[k], p2[k] - .5 * b[k]) + min(p[k] + .5 * a[k], p2[k] + .5 * b[k])) for k in (0, 1)]
                    ok = ok and exp and np.allclose(c, e)
                except RuntimeError:
                    c = None
                    ok = ok and not exp
                if not r.check(ok and all(np.array_equal(x, np.array(s.get_canvas_limits())) for x, s in zip(lim0, (A, B))),
                               lambda: 'rectangles %s at %s and %s at %s: overlap %s, centre %s' % (a, p, b, p2, got, c)):
                    return
            r.state()
    r.trace()
    r.outcome('rectangles')


def overlap_case(r, case):
    g = [-1.3, -.5, 0., .7, 1.6]
    for r1, r2 in itertools.product((.3, .8), repeat=2):
        for p in itertools.product(g, repeat=2):
            q = [.2, -.1]
            d = np.hypot(p[0] - q[0], p[1] - q[1]) - r1 - r2
            a, b = obstacle(('a', r1), og.Circle(r1), p), obstacle(('b', r2), og.Circle(r2), q)
            if abs(d) > 1e-6:
                got = a.overlaps_with(b), b.overlaps_with(a)
                if not r.check(all(bool(x) == (d < 0) for x in got), lambda: 'circles %s %s and %s %s: overlap %s' % (r1, p, r2, q, got)):
                    return
    for a, b in itertools.product([(1., 1.), (2.4, .5), (.4, 2.)], repeat=2):
        for p in itertools.product(g, repeat=2):
            q = [.21, -.13]
            gap = [abs(p[k] - q[k]) - .5 * (a[k] + b[k]) for k in (0, 1)]
            if min(abs(x) for x in gap) < 1e-6:
                continue
            A, B = obstacle(('A', a), og.Rectangle(*a), p), obstacle(('B', b), og.Rectangle(*b), q)
            got = A.overlaps_with(B), B.overlaps_with(A)
            if not r.check(all(bool(x) == (max(gap) < 0) for x in got), lambda: 'rectangles %s at %s and %s at %s: overlap %s' % (a, p, b, q, got)):
                return
            r.state()
    # being outside of a rectangular room
    for sp in [('circle', .4), ('rect', .8, .3), ('rect', .8, .3, .6), ('tri',), ('reg', .5, 5)]:
        P, rad = sl.points(sp), sl.radius(sp)
        for (w, h), pos in (((3., 2.), [0., 0.]), ((1.9, 4.), [2., -5.])):
            for x in itertools.product(np.linspace(-1.6, 1.6, 9) + .007, np.linspace(-2.2, 2.2, 9) + .007):
                o = obstacle(('o', sp), sl.build(sp), [x[0] + pos[0], x[1] + pos[1]])
                over = max(max((P[k] + x[k]).max() + rad - .5 * s, -(P[k] + x[k]).min() + rad - .5 * s) for k, s in ((0, w), (1, h)))
                if abs(over) < 1.2e-3:
                    continue
                room = {'shape': og.Rectangle(w, h), 'position': list(pos)}
                got = o.is_outside_of(room)
                if not r.check(bool(got) == (over > 0), lambda: '%s at %s and a room %s at %s: outside reported %s' % (sp, x, (w, h), pos, got)):
                    return
                r.state()
    r.trace()
    r.outcome('overlap')


def ring_case(r, case):
    D = dirs(2)
    angs = [0., .6, 1.7, np.pi / 2, 3., -.4, -1.5, -2.9]
    for a, b in itertools.product(angs, repeat=2):
        for direction in ('CW', 'CCW'):
            for ri, ro in ((.8, 1.2), (.1, .5)):
                m = .5 * (ri + ro)
                s, e = np.array([m * np.cos(a), m * np.sin(a), 0.]), np.array([m * np.cos(b), m * np.sin(b), 0.])
                if a == b:
                    sweep = 2 * np.pi
                else:
                    sweep = (b - a) % (2 * np.pi) if direction == 'CCW' else (a - b) % (2 * np.pi)
                what = 'ring %s-%s from angle %s to %s %s' % (ri, ro, a, b, direction)
                ok, R = repo_call(r, what, Ring, ri, ro, s.copy(), e.copy(), direction)
                if not ok:
                    return
                t = a + np.linspace(0, 1, 4001) * sweep * (1 if direction == 'CCW' else -1)
                ref = np.hstack([x * np.vstack([np.cos(t), np.sin(t)]) for x in (ri, ro)])
                surf = np.hstack([np.asarray(x, float)[:2] for x in R.surfaces])
                d = support(surf, 0., D) - support(ref, 0., D)
                rr, th = np.hypot(*surf), np.arctan2(surf[1], surf[0])
                rel = (th - a) % (2 * np.pi) if direction == 'CCW' else (a - th) % (2 * np.pi)
                rel = np.where(rel > 2 * np.pi - 1e-6, 0., rel)
                good = np.abs(d).max() < 1e-3 and np.minimum(abs(rr - ri), abs(rr - ro)).max() < 1e-9 and rel.max() < sweep + 1e-6
                if not r.check(good, lambda: '%s: drawn surface is not the ring' % what):
                    return
                for i in range(2):
                    ok, L = repo_call(r, what + ': limits', R.get_canvas_limits)
                    if not ok:
                        return
                    L = np.array(L, float)
                    X = np.c_[ref.min(axis=1), ref.max(axis=1)]
                    if not r.check(L.shape == (2, 2) and np.abs(L - X).max() < 1e-3, lambda: '%s: limits %s instead of %s' % (what, L.tolist(), X.tolist())):
                        return
                r.state()
    r.trace()
    r.outcome('ring')


def run_case(r, case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case['kind'] + '_case'](r, case)
