"""C22: machining rooms enclose the programmed path within the tolerance.
All programs of 1 and 2 motions over an alphabet of lines and arcs x tolerance settings: the rooms the real scheduler builds
are compared with the programmed path by geometry of their own; the real constraints of the machining problem are evaluated
on the programmed path itself and on paths that leave it by more / less than the tolerance, in every segment."""
import copy, itertools
import numpy as np
from scipy.interpolate import BSpline as SciSpline
import omgtools as og
from omgtools.basics.shape import Rectangle, Ring
from omgtools.gui.gcode_block import G00, G01, G02, G03
from omgtools.problems.gcodeschedulerproblem import GCodeSchedulerProblem
from mc.core import repo_call

BOUNDS = dict(quick='63 motions (lines in 12 headings x 2 lengths, 5 with height, arcs of 3 radii x 8 sweeps x start angles) x 2 directions x 10 tolerance settings; all ordered pairs of 14 motions x 4 settings; constraints: 27 motions x 4 settings, 6 programs of 2-3 motions, every segment moved sideways / in height / too fast in turn',
              thorough='all start angles for every arc and setting; all pairs of 32 motions; constraints for all motions')
ASSUMPTIONS = ['arcs lie in the XY-plane', 'rooms may extend over the corners of the tolerance band around the end points of a motion',
               'beyond the ends of a motion the constraints follow its infinite extension (a limitation stated in the code), so only deviations sideways and in height are judged there',
               'halves of a split arc overlap by the tolerance on both sides; arcs so short that this overlap exceeds the part itself are not judged']

# tolerance, small tolerance, split_circle, variable_tolerance, split_length, split_small
SETTINGS = [(.1, 0., False, False, 0., .1), (.1, 0., True, False, 0., .1), (.1, .02, False, True, 0., .1), (.1, .02, True, True, 0., .3),
            (.01, 0., True, False, 0., .1), (.5, .1, False, True, 3., .2), (1e-3, 2e-4, True, True, 0., .1), (.1, .1, True, True, 1.5, .25),
            (.8, 0., False, False, 0., .1), (.8, .3, True, True, 0., .1)]
HEAD = [0, 15, 30, 45, 90, 120, 135, 180, -160, -90, -45, -20]


def motions():
    M = []
    for k, h in enumerate(HEAD):
        for L in (.6, 4.):
            M.append(('line', L * np.cos(np.radians(h)), L * np.sin(np.radians(h)), 0.))
    M += [('line', 0., 0., -1.), ('line', 0., 0., 2.5), ('line', 1.5, 0., -.7), ('line', -2., 3., 1.), ('line', .4, -2.2, 5.)]
    for r in (.3, 1., 12.):
        for k, sw in enumerate((30, 90, 130, 180, 200, 270, 330, 360)):
            for j, a in enumerate((0, 50, 90, 180, -135)):
                M.append(('arc', r, sw, a, j == k % 5))
    return M


MOTIONS = motions()
PAIR = [MOTIONS[i] for i in (0, 3, 6, 9, 14, 17, 19)] + [('line', 0., 0., -1.), ('line', 1.5, 0., -.7)] + \
       [('arc', .3, 180, 0, True), ('arc', 1., 90, 50, True), ('arc', 1., 270, 90, True), ('arc', 1., 360, 180, True), ('arc', 12., 30, -135, True)]


def cases(tier):
    n = 0
    for s in range(len(SETTINGS)):
        for part in range(3):
            yield dict(kind='single', setting=s, part=part, tier=tier)
    for s in (0, 1, 2, 3) if tier == 'quick' else range(len(SETTINGS)):
        for first in range(len(PAIR)):
            yield dict(kind='pair', setting=s, first=first, tier=tier)
    for s in (0, 2, 3, 8) if tier == 'quick' else range(len(SETTINGS)):
        for part in range(4):
            yield dict(kind='constraint', setting=s, part=part, tier=tier)
    for s in (0, 3) if tier == 'quick' else range(len(SETTINGS)):
        for k in range(len(PROGRAMS)):
            yield dict(kind='program', setting=s, program=k, tier=tier)


def run_case(r, case):
    globals()['run_' + case['kind']](r, case)


# ---------------------------------------------------------------------------- programs
class Path(object):
    """the programmed motion: points at arc parameter s in [0, 1], distance of a point to it"""

    def __init__(self, block_type, a, m):
        self.m, self.a = m, np.array(a, float)
        if m[0] == 'line':
            self.b = self.a + np.array(m[1:4])
        else:
            self.r, sw = m[1], np.radians(m[2]) * (-1 if block_type == 'G02' else 1)
            self.th0, self.sw = np.radians(m[3]), sw
            self.c = self.a[:2] - self.r * np.array([np.cos(self.th0), np.sin(self.th0)])
            self.b = self(1.)

    def __call__(self, s):
        if self.m[0] == 'line':
            return self.a + s * (self.b - self.a)
        th = self.th0 + s * self.sw
        return np.array([self.c[0] + self.r * np.cos(th), self.c[1] + self.r * np.sin(th), self.a[2]])

    def length(self):
        return np.linalg.norm(self.b - self.a) if self.m[0] == 'line' else self.r * abs(self.sw)

    def locate(self, p):
        """parameters s of the points of the path (near) p, distance"""
        p = np.asarray(p, float)
        if self.m[0] == 'line':
            d = self.b - self.a
            s = np.clip((p - self.a).dot(d) / d.dot(d), 0, 1)
            return [s], np.linalg.norm(self(s) - p)
        th = np.arctan2(p[1] - self.c[1], p[0] - self.c[0])
        s0 = ((th - self.th0) * np.sign(self.sw)) % (2 * np.pi) / abs(self.sw)
        S = [s for s in (s0, s0 - 2 * np.pi / abs(self.sw)) if -1e-9 <= s <= 1 + 1e-9]
        if not S:
            return [], np.inf
        return S, np.linalg.norm(self(S[0]) - p)

    def distance(self, X):
        """distance in the plane of points X (2 x n), and whether the nearest point is no end of the path"""
        a, b = self.a[:2, None], self.b[:2, None]
        ends = np.minimum(np.linalg.norm(X - a, axis=0), np.linalg.norm(X - b, axis=0))
        if self.m[0] == 'line':
            d = b - a
            n2 = float((d * d).sum())
            if n2 == 0:
                return ends, np.zeros(X.shape[1], bool)
            s = ((X - a) * d).sum(axis=0) / n2
            inn = (s > 1e-9) & (s < 1 - 1e-9)
            return np.where(inn, np.linalg.norm(a + s * d - X, axis=0), ends), inn
        D = X - self.c[:, None]
        s = ((np.arctan2(D[1], D[0]) - self.th0) * np.sign(self.sw)) % (2 * np.pi)
        inn = (s > 1e-9) & (s < abs(self.sw) - 1e-9)
        full = abs(abs(self.sw) - 2 * np.pi) < 1e-9
        return np.where(inn | full, abs(np.linalg.norm(D, axis=0) - self.r), ends), inn | full


def program(ms, codes, origin=(0., 0., 0.)):
    """blocks of the toolbox and the independent paths"""
    B, P, pos = [], [], np.array(origin, float)
    class Start(object):
        X1, Y1, Z1 = [float(x) for x in origin]
    for m, code in zip(ms, codes):
        p = Path(code, pos, m)
        com = dict(X=float(p.b[0]), Y=float(p.b[1]), Z=float(p.b[2]))
        if m[0] == 'arc':
            com.update(I=float(p.c[0] - pos[0]), J=float(p.c[1] - pos[1]))
            if m[2] == 360:
                com.update(X=float(pos[0]), Y=float(pos[1]))
                p.b = pos.copy()
        cls = dict(G00=G00, G01=G01, G02=G02, G03=G03)[code]
        B.append(cls(com, len(B), B[-1] if B else Start))
        P.append(p)
        pos = p.b
    return B, P


def codes_of(m):
    return ('G00', 'G01') if m[0] == 'line' else ('G02', 'G03')


def scheduler(setting):
    tol, small, sc, vt, sl, ss = setting
    s = GCodeSchedulerProblem.__new__(GCodeSchedulerProblem)
    s.split_circle, s.variable_tolerance, s.split_length, s.split_small = sc, vt, sl, ss
    s.n_segments = s._n_segments = 1
    return s, og.Tool(tol, tol_small=small)


def rooms_of(r, setting, blocks, what):
    s, tool = scheduler(setting)
    before = [copy.deepcopy(b.__dict__) for b in blocks]
    ok, env = repo_call(r, what, s.get_environment, blocks, tool)
    if not ok:
        return None
    r.check(all(b.__dict__ == c for b, c in zip(blocks, before)), lambda: '%s: the program changed' % what)
    s, tool = scheduler(setting)
    ok, env2 = repo_call(r, what, s.get_environment, blocks, tool)
    if ok:
        r.check(len(env.room) == len(env2.room) and all(describe(x) == describe(y) for x, y in zip(env.room, env2.room)),
                lambda: '%s: building the rooms a second time gives other rooms' % what)
    return env.room


def describe(R):
    """room as plain numbers"""
    S = R['shape']
    g = ('rect', np.round(S.vertices, 9).tolist()) if isinstance(S, Rectangle) else \
        ('ring', [round(float(x), 9) for x in (S.radius_in, S.radius_out, S.start_angle, S.end_angle)], S.direction)
    return g, np.round(np.array(R['pose'], float), 9).tolist(), np.round(np.array(R['position'], float), 9).tolist(), \
        np.round(np.array(R['start'], float), 9).tolist(), np.round(np.array(R['end'], float), 9).tolist(), R['number']


class Region(object):
    """the room in the plane: depth of a point (distance to its border, negative outside), its extreme points"""

    def __init__(self, R):
        S, self.o = R['shape'], np.array(R['pose'][:2], float)
        self.rect = isinstance(S, Rectangle)
        if self.rect:
            V = S.vertices - S.vertices.mean(axis=1)[:, None]
            self.V = S.vertices + self.o[:, None]
            a = np.argsort(np.arctan2(V[1], V[0]))
            Q = self.V[:, a]
            E = np.roll(Q, -1, axis=1) - Q
            self.N = np.vstack([E[1], -E[0]]) / np.linalg.norm(E, axis=0)
            self.b = (self.N * Q).sum(axis=0)
        else:
            self.ri, self.ro = S.radius_in, S.radius_out
            a0, a1 = S.start_angle, S.end_angle
            self.cw = S.direction == 'CW'
            self.lo, self.w = (a1, a0 - a1) if self.cw else (a0, a1 - a0)

    def depth(self, p):
        p = np.asarray(p, float)[:2]
        if self.rect:
            return (self.b - self.N.T.dot(p)).min()
        d = p - self.o
        rho = np.linalg.norm(d)
        th = (np.arctan2(d[1], d[0]) - self.lo) % (2 * np.pi)
        dep = min(rho - self.ri if self.ri > 0 else np.inf, self.ro - rho)
        if self.w < 2 * np.pi - 1e-9:
            if th > self.w + 1e-12:
                return -rho * np.sin(min(th - self.w, 2 * np.pi - th, np.pi / 2))
            side = min(th, self.w - th)
            dep = min(dep, rho * np.sin(side) if side < np.pi / 2 else rho)
        return dep

    def samples(self):
        if self.rect:
            u = np.linspace(0, 1, 9)
            a = np.argsort(np.arctan2(*(self.V - self.o[:, None])))
            A, B, C, D = self.V[:, a].T
            g = [A + x * (B - A) + y * (D - A) for x in u for y in u]
        else:
            g = [self.o + rho * np.array([np.cos(t), np.sin(t)]) for rho in np.linspace(self.ri, self.ro, 7) for t in self.lo + self.w * np.linspace(0, 1, 41)]
        return np.array(g).T


def judge(r, what, setting, rooms, block, path, number):
    """rooms (of one block) against the programmed path"""
    tol, small, sc, vt, sl, ss = setting
    L2 = np.linalg.norm(path.b[:2] - path.a[:2]) if path.m[0] == 'line' else path.length()
    line = path.m[0] == 'line'
    kind = 'rect' if line else 'ring'
    divided = vt and (not line or (L2 > 1e-9 and np.linalg.norm(path.b - path.a) >= sl))
    n = len(rooms)
    if line:
        nhalf = 1
        okn = n == (3 if divided else 1)
    else:
        nhalf = n // 3 if divided else n
        okn = n in ((3, 6) if divided else (1, 2))
        if sc and abs(path.sw) > 3 * np.pi / 4 + 1e-6:
            okn = okn and nhalf == 2
        elif not sc and abs(path.sw) + 2 * np.arctan2(tol, path.r) < 2 * np.pi - 1e-6:
            okn = okn and nhalf == 1
    if not r.check(okn, lambda: '%s: %d rooms for one motion' % (what, n)):
        return
    r.check([R['number'] for R in rooms] == list(range(number, number + n)), lambda: '%s: rooms numbered %s instead of from %d on' % (what, [R['number'] for R in rooms], number))
    r.check(np.allclose(rooms[0]['start'], block.start, atol=1e-9) and np.allclose(rooms[-1]['end'], block.end, atol=1e-9),
            lambda: '%s: rooms lead from %s to %s instead of from %s to %s' % (what, rooms[0]['start'], rooms[-1]['end'], block.start, block.end))
    if nhalf == 2:
        th, half = np.arctan2(tol, path.r), .5 * abs(path.sw)
        if th > .98 * half or divided and th > .98 * ss * (half + th):
            r.note('split arc shorter than its overlap')
            return
    # places along the path
    S, E = [], []
    for k, R in enumerate(rooms):
        so, ds = path.locate(R['start'])
        eo, de = path.locate(R['end'])
        if not r.check(ds < 1e-9 * (1 + path.length()) and de < 1e-9 * (1 + path.length()), lambda: '%s: room %d leads from %s to %s, off the programmed path by %.3g, %.3g' % (what, k, R['start'], R['end'], ds, de)):
            return
        S.append(min(so) if k == 0 else so[0])
        E.append(max(eo) if k == n - 1 else eo[0])
    S[0], E[-1] = 0., 1.
    join = [0.] + [.5 * (S[k + 1] + E[k]) for k in range(n - 1)] + [1.]
    r.check(all(S[k] < E[k] for k in range(n)) and all(join[k] < join[k + 1] for k in range(n)) and all(S[k + 1] <= E[k] + 1e-9 for k in range(n - 1)),
            lambda: '%s: rooms cover %s of the path, not all of it in order' % (what, np.round(np.c_[S, E], 4).tolist()))
    if divided:
        for j in range(0, n, 3):
            w = E[j + 2] - S[j]
            r.check(np.allclose([(E[j] - S[j]) / w, (E[j + 2] - S[j + 2]) / w], ss, atol=1e-6),
                    lambda: '%s: outer parts cover %.4g and %.4g instead of %g' % (what, (E[j] - S[j]) / w, (E[j + 2] - S[j + 2]) / w, ss))
    for k, R in enumerate(rooms):
        t = small if divided and k % 3 == 1 else tol
        G = Region(R)
        w = '%s: room %d' % (what, k)
        r.check(G.rect == (kind == 'rect') and R.get('draw') is True, lambda: '%s is a %s' % (w, type(R['shape']).__name__))
        r.check(np.allclose(R['position'], R['pose'][:2]) and len(R['pose']) == 6, lambda: '%s: position %s, pose %s' % (w, R['position'], R['pose']))
        if not G.rect:
            r.check(abs(G.ri - max(path.r - t, 0)) < 1e-9 and abs(G.ro - path.r - t) < 1e-9, lambda: '%s: ring from %.6g to %.6g around a path of radius %g, tolerance %g' % (w, G.ri, G.ro, path.r, t))
            r.check(np.allclose(R['pose'][:2], path.c, atol=1e-9) and R['shape'].direction == ('CW' if block.type == 'G02' else 'CCW'),
                    lambda: '%s: ring around %s, %s' % (w, R['pose'][:2], R['shape'].direction))
            need = .7 * min(t, path.r)
        else:
            need = (1 - 1e-9) * t
            mid = path(.5 * (S[k] + E[k]))
            r.check(np.allclose(R['pose'][:3], mid, atol=1e-9), lambda: '%s: pose %s of a part around %s' % (w, R['pose'][:3], mid))
        # the path, with the margin of the tolerance, up to where the next room takes over
        q = np.linspace(join[k], join[k + 1], 25)
        dep = min(G.depth(path(s)) for s in q)
        r.check(dep > need - 1e-9, lambda: '%s: the programmed path is %.4g from its border, tolerance %g' % (w, dep, t))
        X = G.samples()
        d, inner = path.distance(X)
        scale = 1 + path.length()
        r.check(not inner.any() or d[inner].max() < t + 1e-9 * scale, lambda: '%s: contains points %.4g beside the programmed path, tolerance %g' % (w, d[inner].max(), t))
        r.check(d.max() < 1.53 * t + 1e-9 * scale, lambda: '%s: contains points %.4g away from the programmed path, tolerance %g' % (w, d.max(), t))
        r.state()


def name(codes, ms, setting):
    return 'program %s, setting %s' % (' '.join('%s%s' % (c, tuple(np.round(m[1:4], 3).tolist())) for c, m in zip(codes, ms)), setting)


def run_single(r, case):
    setting = SETTINGS[case['setting']]
    for i, m in enumerate(MOTIONS):
        if i % 3 != case['part']:
            continue
        if m[0] == 'arc' and not m[4] and case['tier'] == 'quick' and case['setting'] not in (0, 1, 3):
            continue
        for code in codes_of(m):
            for origin in ((0., 0., 0.), (-3., 20., 5.)):
                B, P = program([m], [code], origin)
                what = name([code], [m], setting)
                R = rooms_of(r, setting, B, what)
                if R is not None:
                    judge(r, what, setting, R, B[0], P[0], 0)
                    r.outcome(m[0], len(R))
                r.trace()


def run_pair(r, case):
    setting = SETTINGS[case['setting']]
    m1 = PAIR[case['first']]
    for m2 in PAIR:
        for c1 in codes_of(m1):
            for c2 in codes_of(m2):
                B, P = program([m1, m2], [c1, c2], (2., -1., 0.))
                what = name([c1, c2], [m1, m2], setting)
                R = rooms_of(r, setting, B, what)
                if R is None:
                    continue
                # rooms of the first motion are those before the start of the second one
                R1 = rooms_of(r, setting, B[:1], what)
                if R1 is None:
                    continue
                n = len(R1)
                judge(r, what + ', first motion', setting, R[:n], B[0], P[0], 0)
                judge(r, what + ', second motion', setting, R[n:], B[1], P[1], n)
                if len(R) > n:
                    G1, G2 = Region(R[n - 1]), Region(R[n])
                    d = min(G1.depth(P[0].b), G2.depth(P[1].a))
                    rad = [p.r for p in P if p.m[0] == 'arc'] + [np.inf]
                    r.check(d > .7 * min([setting[0]] + rad) - 1e-9, lambda: '%s: the rooms around the connection leave %.4g of tolerance %g' % (what, d, setting[0]))
                r.trace()
    r.outcome('pair')


# ---------------------------------------------------------------------------- constraints
PROGRAMS = [[0, 6], [9, ('arc', 1., 90, 50)], [('arc', 1., 200, 0), 5], [('line', 0., 0., -1.), 1, ('arc', .3, 180, 0)], [('line', 1.5, 0., -.7), ('arc', 12., 30, 90), 19], [17, 1, 13]]


def fit(basis, f):
    """coefficients of the spline closest to the curve f on [0, 1] (exact at the ends)"""
    k, d, n = np.asarray(basis.knots, float), basis.degree, len(basis)
    s = .5 - .5 * np.cos(np.pi * np.linspace(0, 1, 20 * n))
    A = SciSpline.design_matrix(np.clip(s, 0, 1 - 1e-14), k, d).toarray()
    W = np.ones(len(s))
    W[[0, -1]] = 1e4
    y = np.array([f(x) for x in s])
    return np.linalg.lstsq(A * W[:, None], y * W[:, None], rcond=None)[0]


class Machine(object):
    """the constraints of the tool in the real machining problem"""

    def __init__(self, r, what, setting, rooms, **options):
        from casadi import Function, vertcat
        import omgtools.basics.optilayer as ol
        from mc.c17_distributed import Dummy
        ol.nlpsol = Dummy
        from omgtools.problems.gcodeproblem import GCodeProblem
        self.tool = og.Tool(setting[0], tol_small=setting[1], options=options, bounds=dict(vmax=2., vmin=-2., amax=20., amin=-20., jmax=400., jmin=-400.))
        self.tool.define_knots(knot_intervals=10)
        self.tool.set_initial_conditions(list(rooms[0]['start']))
        self.tool.set_terminal_conditions(list(rooms[-1]['end']))
        self.n = len(rooms)
        ok, self.prob = repo_call(r, what, lambda: GCodeProblem(self.tool, og.Environment(room=list(rooms)), self.n, options=dict(verbose=0), motion_time_guess=[1.] * self.n))
        if ok:
            ok, _ = repo_call(r, what, self.prob.init)
        self.ok = ok
        if not ok:
            return
        ff = self.ff = self.prob.father
        pd = ff.problem_description
        names = [self.tool._add_label(k) for k in self.tool._constraints]
        self.f = Function('c', [pd['var'], pd['par']], [vertcat(*[pd['con'][k] for k in names])])
        self.lb = np.concatenate([np.array(ff._lb[k]).ravel() for k in names])
        self.ub = np.concatenate([np.array(ff._ub[k]).ravel() for k in names])
        self.par = ff._par_struct(0.)

    def accepted(self, C, T):
        x = self.ff._var_struct(0.)
        for k in range(self.n):
            x[self.tool.label, 'splines_seg%d' % k] = C[k]
            x[self.prob.label, 'T%d' % k] = T[k]
        g = np.array(self.f(x, self.par)).ravel()
        return bool((g >= self.lb - 1e-8).all() and (g <= self.ub + 1e-8).all())


def part(path, room):
    """the curve of the programmed path from start to end of a room"""
    if path.m[0] == 'line':
        a, b = np.array(room['start'], float), np.array(room['end'], float)
        return lambda s: a + s * (b - a)
    s0 = path.locate(room['start'])[0]
    s1 = path.locate(room['end'])[0]
    s0, s1 = min(s0), max(s1)
    return lambda s: path(s0 + s * (s1 - s0))


def normal(path, s0, s1):
    """sideways unit vector at parameter s of the part"""
    if path.m[0] == 'line':
        d = (path.b - path.a)[:2]
        n = np.linalg.norm(d)
        q = np.array([-d[1], d[0], 0.]) / n if n > 1e-12 else np.array([1., 0., 0.])
        return lambda p: q
    return lambda p: np.r_[(p[:2] - path.c) / path.r, 0.]


def bump(s):
    return 64 * s ** 3 * (1 - s) ** 3


def constraint_check(r, what, setting, rooms, paths, opts):
    """paths: for every room the path it belongs to"""
    M = Machine(r, what, setting, rooms, **opts)
    if not M.ok:
        return
    basis = M.tool.basis
    n = len(rooms)
    cur = [part(p, R) for p, R in zip(paths, rooms)]
    nom = [fit(basis, c) for c in cur]
    err = max(np.linalg.norm(SciSpline(np.asarray(basis.knots), c, basis.degree)(min(s, 1 - 1e-12)) - f(s)) for c, f in zip(nom, cur) for s in np.linspace(0, 1, 31))
    tmin = min(setting[0], setting[1] or np.inf)
    if err > .05 * tmin:
        r.note('arc not representable', 1)
        return
    slow = [1e3] * n
    if not r.check(M.accepted(nom, slow), lambda: '%s: the programmed path itself is not accepted' % what):
        return
    for k in range(n):
        R = rooms[k]
        t = .5 * (R['shape'].height if isinstance(R['shape'], Rectangle) else R['shape'].radius_out - R['shape'].radius_in)
        if not isinstance(R['shape'], Rectangle):
            t = R['shape'].radius_out - paths[k].r
        q = normal(paths[k], 0, 1)
        w = '%s, segment %d' % (what, k)
        wide = not isinstance(R['shape'], Rectangle) and paths[k].r <= t
        for sgn in (1, -1):
            if wide and sgn < 0:
                continue
            for size, bad in ((.85, False), (1.15, True), (3., True)):
                c = [x.copy() for x in nom]
                c[k] = fit(basis, lambda s: cur[k](s) + sgn * size * t * q(cur[k](s)))
                if not isinstance(R['shape'], Rectangle) and sgn < 0 and size * t > paths[k].r:
                    continue
                got = M.accepted(c, slow)
                r.check(got != bad, lambda: '%s: a path %.3g tolerances beside the programmed one is %s' % (w, sgn * size, 'accepted' if got else 'not accepted'))
                r.state()
            for size, bad in ((.4, False), (1.3, True), (4., True)):
                c = [x.copy() for x in nom]
                c[k] = fit(basis, lambda s: cur[k](s) + sgn * size * t * bump(s) * q(cur[k](s)))
                if not isinstance(R['shape'], Rectangle) and sgn < 0 and size * t > paths[k].r:
                    continue
                got = M.accepted(c, slow)
                if bad or tmin > 10 * err:
                    r.check(got != bad, lambda: '%s: a path that leaves the programmed one by %.3g tolerances halfway is %s' % (w, sgn * size, 'accepted' if got else 'not accepted'))
                r.state()
            # in height: the tolerance holds in both directions
            flat = abs(R['start'][2] - R['end'][2]) < 1e-12
            for size, bad in ((.8, False), (1.2, True), (3., True)):
                if not flat and not bad:
                    continue
                c = [x.copy() for x in nom]
                zt = setting[0]
                c[k] = fit(basis, lambda s: cur[k](s) + np.array([0, 0, sgn * size * zt]) * (1. if flat or size < 1 else 1.))
                got = M.accepted(c, slow)
                r.check(got != bad, lambda: '%s: a path %.3g tolerances above the programmed one is %s' % (w, sgn * size, 'accepted' if got else 'not accepted'))
                r.state()
        # too fast
        C = SciSpline(np.asarray(basis.knots), nom[k], basis.degree)
        V = C.derivative()(np.linspace(0, 1 - 1e-9, 200))
        v = np.linalg.norm(V[:, :2], axis=1).max() if opts.get('vel_limit') != 'axes' else abs(V[:, :2]).max()
        if v > 1e-9:
            for f, bad in ((1.3, True), (5., True)):
                T = list(slow)
                T[k] = v / (2. * f)
                got = M.accepted(nom, T)
                r.check(got != bad, lambda: '%s: %g times the speed limit is %s' % (w, f, 'accepted' if got else 'not accepted'))
                r.state()
    r.trace()


CON = [i for i, m in enumerate(MOTIONS) if m[0] == 'line' or m[4]]


def run_constraint(r, case):
    setting = SETTINGS[case['setting']]
    idx = [i for k, i in enumerate(CON) if case['tier'] != 'quick' or (k + case['setting']) % 2 == 0]
    for i in idx[case['part']::4]:
        m = MOTIONS[i]
        if m[0] == 'arc' and m[2] > 200 and not setting[2]:
            continue
        for code in codes_of(m)[1:] if m[0] == 'line' else codes_of(m)[i % 2:i % 2 + 1]:
            B, P = program([m], [code], (-1., 2., .5))
            what = name([code], [m], setting)
            R = rooms_of(r, setting, B, what)
            if R is None:
                continue
            constraint_check(r, what, setting, R, P * len(R), dict(vel_limit='axes') if i % 2 else {})
    r.outcome('constraint')


def run_program(r, case):
    setting = SETTINGS[case['setting']]
    ms = [MOTIONS[x] if isinstance(x, int) else x for x in PROGRAMS[case['program']]]
    codes = [codes_of(m)[(j + case['program']) % 2] for j, m in enumerate(ms)]
    B, P = program(ms, codes, (0., 0., 0.))
    what = name(codes, ms, setting)
    R = rooms_of(r, setting, B, what)
    if R is None:
        return
    own = []
    for j in range(len(ms)):
        Rj = rooms_of(r, setting, B[:j + 1], what)
        own += [P[j]] * (len(Rj) - len(own))
    if not r.check(len(own) == len(R), lambda: '%s: %d rooms' % (what, len(R))):
        return
    constraint_check(r, what, setting, R, own, {})
    r.outcome('program', len(R))
