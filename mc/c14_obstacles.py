"""C14: predicted obstacle motion equals simulated obstacle motion.
Three exhaustive explorations of the real obstacles: (sim) every sequence of simulation calls of a set of lengths, for
every kind of obstacle and schedule of changes, each recorded sample against an exact piecewise polynomial model and each
prediction handed to the optimisation problem against that model until the next change; (pred) the motion that the real
optimisation problem assumes (its parameters put into its position/rotation splines) after every such history and offset
in the horizon; (bounce) every combination of room, shape, velocity, declaration of the velocity and pattern of calls."""
import itertools
import warnings
import numpy as np
from casadi import Function, vertcat, DM, symvar, is_equal
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Stub
from mc import shapelib as sl

BOUNDS = dict(quick='24 obstacle kinds x 3 sample times x all sequences of 4 calls of 3 lengths; 12 kinds x 3 problem kinds x 2 offsets; bounce: 3 rooms x 5 shapes x 20 velocities x 3 declarations x 5 call patterns of 40 calls',
              thorough='sequences of 6 calls, 80 calls when bouncing')
ASSUMPTIONS = ['the length of a simulation call is a multiple of the sample time',
               'values of a schedule are changes that add up; a value at time 0 is the initial value',
               'bouncing off the room: checked once per call, so the room may be left by the distance travelled in one call; constant speed, no rotation, rectangular rooms',
               'user supplied simulation models and trajectories given as splines (prediction replaced by the user at every update) are not judged']

P0 = [.5, -.3, .2]
KINDS_ = {
    'static': {},
    'vel': dict(v=[.3, -.2, .1]),
    'acc': dict(v=[.2, .1, -.3], a=[-.4, .3, .2]),
    'acc only': dict(a=[.1, -.3, .2]),
    'jump': dict(v=[.3, 0., .1], tr={'position': ([.35], [[.5, -.4, .3]])}),
    'turn': dict(v=[.3, 0., .1], tr={'velocity': ([.2, .7], [[-.6, .1, .2], [0., .5, -.1]])}),
    'push': dict(tr={'acceleration': ([.15, .55, .9], [[1., -.5, .2], [-2., 0., .1], [1., .5, 0.]])}),
    'all': dict(v=[.1, .2, .3], a=[.2, 0., -.1], tr={'position': ([.4], [[.2, .2, .2]]), 'velocity': ([.4, .6], [[-.3, .1, 0.], [.1, 0., .2]]), 'acceleration': ([.25, .6], [[.5, .5, .1], [-.5, -.7, 0.]])}),
    'from zero': dict(tr={'velocity': ([0, .5], [[.4, -.1, .2], [-.4, .3, .1]])}),
    'from zero 2': dict(v=[1., 1., 1.], tr={'velocity': ([0., .3], [[.4, -.1, .2], [-.4, .3, .1]]), 'position': ([0, .8], [[1., 2., 3.], [.1, .2, .3]])}),
    'start only': dict(tr={'velocity': ([0], [[.4, -.1, .2]])}),
    'pulse': dict(tr={'velocity': ([.52, .53], [[3., -2., 1.], [-3., 2., -1.]])}),
    'kick': dict(v=[.1, .1, .1], tr={'acceleration': ([.41, .44], [[30., -20., 10.], [-30., 20., -10.]])}),
    'late': dict(v=[.1, .1, .1], tr={'velocity': ([1.7], [[.5, -.5, .5]])}),
    'grid': dict(tr={'velocity': ([.1, .2, .3, .6], [[.1, 0., .1], [.2, .3, 0.], [-.3, .1, .1], [.5, -.4, -.2]])}),
    'rot': dict(th=.4, w=1.3, v=[.2, -.1, 0.]),
    'rotback': dict(th=-2., w=-3.5, a=[.2, -.1, 0.]),
    'angle': dict(th=1.1),
    'rotturn': dict(th=.3, w=.2, tr={'velocity': ([.3], [[.4, .4, .1]])}),
}
LEN = dict([(.1, (1, 3, 12)), (.05, (1, 2, 9)), (.01, (1, 15, 70))])


def cases(tier):
    depth = 4 if tier == 'quick' else 6
    for dim in (2, 3):
        for k in sorted(KINDS_):
            if dim == 3 and ('th' in KINDS_[k]):
                continue
            for ts in sorted(LEN):
                if tier == 'quick' and dim == 3 and ts != .1:
                    continue
                yield dict(kind='sim', dim=dim, obs=k, ts=ts, depth=depth, tier=tier)
            if k not in ('rotturn',):
                for mode in ('fixed', 'free', 'frames2', 'frames3'):
                    if 'w' in KINDS_[k] and mode != 'fixed':
                        continue
                    if tier == 'quick' and dim == 3 and mode == 'free':
                        continue
                    yield dict(kind='pred', dim=dim, obs=k, mode=mode, tier=tier)
    for room in range(3):
        for sh in range(5):
            for pat in range(5):
                yield dict(kind='bounce', room=room, shape=sh, pat=pat, n=40 if tier == 'quick' else 80, tier=tier)


def spec(k, dim):
    s = KINDS_[k]
    tr = dict((key, ([t for t in tt], [list(v[:dim]) for v in vv])) for key, (tt, vv) in s.get('tr', {}).items())
    return dict(v=list(s.get('v', [0.] * 3)[:dim]), a=list(s.get('a', [0.] * 3)[:dim]), th=s.get('th', 0.), w=s.get('w', 0.), tr=tr)


class Model(object):
    """exact motion: pieces of constant acceleration"""

    def __init__(self, s, dim):
        x = dict(position=np.array(P0[:dim]), velocity=np.array(s['v']), acceleration=np.array(s['a']))
        ch = {}
        for key, (tt, vv) in s['tr'].items():
            for t, v in zip(tt, vv):
                if t == 0:
                    x[key] = np.array(v, float)
                else:
                    ch.setdefault(t, []).append((key, np.array(v, float)))
        self.pieces = [(0., x['position'], x['velocity'], x['acceleration'])]
        for t in sorted(ch):
            y = self.at_piece(self.pieces[-1], t)
            d = dict(zip(('position', 'velocity', 'acceleration'), y))
            for key, v in ch[t]:
                d[key] = d[key] + v
            self.pieces.append((t, d['position'], d['velocity'], d['acceleration']))
        self.changes = sorted(ch)
        self.th, self.w = s['th'], s['w']

    @staticmethod
    def at_piece(p, t):
        s = t - p[0]
        return p[1] + p[2] * s + .5 * p[3] * s * s, p[2] + p[3] * s, p[3]

    def at(self, t, before=False):
        i = max(j for j, p in enumerate(self.pieces) if p[0] < t or (not before and p[0] <= t) or j == 0)
        return self.at_piece(self.pieces[i], t)

    def next_change(self, t):
        return min([c for c in self.changes if c > t + 1e-7] or [np.inf])

    def near(self, t):
        return any(abs(t - c) < 1e-7 for c in self.changes)

    def both(self, t):
        """values allowed at t: on a change either side of it counts"""
        if self.near(t):
            c = [c for c in self.changes if abs(t - c) < 1e-7][0]
            return [self.at(c, True), self.at(c)]
        return [self.at(t)]


def make(k, dim, init_extra=None, shape=None, **options):
    s = spec(k, dim)
    initial = dict(position=list(P0[:dim]))
    if any(s['v']):
        initial['velocity'] = list(s['v'])
    if any(s['a']):
        initial['acceleration'] = list(s['a'])
    if dim == 2 and s['th']:
        initial['orientation'] = s['th']
    if dim == 2 and s['w']:
        initial['angular_velocity'] = s['w']
    sim = {}
    if s['tr']:
        sim = {'trajectories': dict((key, {'time': list(tt), 'values': [list(v) for v in vv]}) for key, (tt, vv) in s['tr'].items())}
    shape = shape or (og.Rectangle(.4, .2) if dim == 2 else og.Cuboid(.4, .2, .3))
    return og.Obstacle(initial, shape, sim, options), Model(s, dim)


def room(dim):
    return {'shape': og.Square(50.) if dim == 2 else og.Cube(50.)}


def close(a, b, tol):
    return np.abs(np.asarray(a, float).ravel() - np.asarray(b, float).ravel()).max() <= tol


def sim_case(r, case):
    dim, ts = case['dim'], case['ts']
    for seq in itertools.product(LEN[ts], repeat=case['depth']):
        ok, om = repo_call(r, 'obstacle %s' % case['obs'], make, case['obs'], dim)
        if not ok:
            return
        obs, M = om
        env = og.Environment(room=room(dim))
        env.add_obstacle(obs)
        n = 0
        what = lambda: 'obstacle %s (%dD), calls of %s samples of %s s' % (case['obs'], dim, seq[:i + 1], ts)
        for i, k in enumerate(seq):
            ok, _ = repo_call(r, 'simulate', env.simulate, k * ts, ts)
            if not ok:
                return
            n += k
            S = obs.signals
            tt = np.asarray(S['time'], float).ravel()
            names = ['position', 'velocity', 'acceleration'] + (['orientation', 'angular_velocity'] if dim == 2 else [])
            if not r.check(len(tt) == n + 1 and np.abs(tt - ts * np.arange(n + 1)).max() < 1e-8, lambda: '%s: recorded times %s' % (what(), tt[-3:])):
                return
            if not r.check(all(np.shape(S[q])[1] == n + 1 for q in names), lambda: '%s: record not aligned with time: %s' % (what(), [(q, np.shape(S[q])) for q in names])):
                return
            for j in range(n - k, n + 1) if i == len(seq) - 1 or i == 0 else (n,):
                t = j * ts
                rec = [np.asarray(S[q])[:, j] for q in names[:3]]
                tol = 1e-5
                if not r.check(any(all(close(x, y, tol) for x, y in zip(rec, ref)) for ref in M.both(t)),
                               lambda: '%s: at time %.4g position/velocity/acceleration %s instead of %s' % (what(), t, [np.round(x, 5) for x in rec], [np.round(x, 5) for x in M.at(t)])):
                    return
                if dim == 2 and not r.check(abs(S['orientation'][0, j] - M.th - M.w * t) < 1e-6 and abs(S['angular_velocity'][0, j] - M.w) < 1e-9,
                                            lambda: '%s: at time %.4g orientation %s instead of %s' % (what(), t, S['orientation'][:, j], M.th + M.w * t)):
                    return
            # what the optimisation problem is told
            p = obs.set_parameters(n * ts)[obs]
            t = n * ts
            x, v, a = [np.asarray(p[q], float).ravel() for q in 'xva']
            ends = M.next_change(t)
            for s in (0., .3, 1.1):
                if t + s < ends and not M.near(t):
                    if not r.check(close(x + v * s + .5 * a * s * s, M.at(t + s)[0], 2e-5), lambda: '%s: position predicted for time %.4g is %s, simulated %s' % (what(), t + s, x + v * s + .5 * a * s * s, M.at(t + s)[0])):
                        return
            r.outcome(case['obs'], dim, np.round(x, 4), np.round(v, 4))
            r.state()
        r.trace()


def symbols_of(obs):
    out = {}
    for d in ('_symbols', '_parameters'):
        out.update(dict((n, s) for n, s in getattr(obs, d).items()))
    return out


def pred_case(r, case):
    no_solver()
    dim, mode, k = case['dim'], case['mode'], case['obs']
    Ts = {'fixed': [3.], 'free': [2.4], 'frames2': [1.3, 1.9], 'frames3': [.8, 1.1, 1.7]}[mode]
    opt = dict(horizon_time=Ts[0]) if 'w' in KINDS_[k] else {}
    shape = og.Rectangle(.4, .2) if dim == 2 else og.Cuboid(.4, .2, .3)
    ok, om = repo_call(r, 'obstacle', make, k, dim, None, shape, **opt)
    if not ok:
        return
    obs, M = om
    v = og.Holonomic(shapes=og.Circle(.1)) if dim == 2 else og.Holonomic3D(shapes=og.Sphere(.1))
    v.define_knots(knot_intervals=6)
    v.set_initial_conditions([0.] * dim)
    v.set_terminal_conditions([2.] * dim)
    rooms = [room(dim) for _ in Ts]
    env = og.Environment(room=rooms if len(Ts) > 1 else rooms[0])
    env.add_obstacle(obs)
    if mode.startswith('frames'):
        from omgtools.problems.multiframeproblem import MultiFrameProblem
        ok, prob = repo_call(r, 'problem', lambda: MultiFrameProblem(v, env, len(Ts), options=dict(verbose=0)))
    else:
        ok, prob = repo_call(r, 'problem', lambda: og.Point2point(v, env, options=dict(verbose=0, horizon_time=Ts[0]), freeT=mode == 'free'))
    if not ok:
        return
    ok, _ = repo_call(r, 'init of the problem', prob.init)
    if not ok:
        return
    prob.initialize(0.)
    sym = symbols_of(obs)
    ff = prob.father
    seg_basis = obs.pos_spline[0].basis
    exprs = [vertcat(*[q.coeffs for q in obs.pos_spline])]
    rot = dim == 2 and M.w != 0.
    if rot:
        exprs += [vertcat(obs.cos.coeffs, obs.sin.coeffs)]
    known = [(obs, n, q) for n, q in sym.items()] + [(prob, n, q) for d in (prob._variables, prob._parameters, prob._symbols) for n, q in d.items()]
    free = symvar(vertcat(*exprs))
    names = []
    for q in free:
        m = [(o, n) for o, n, z in known if z.shape == q.shape and is_equal(z, q)]
        if not r.check(bool(m), lambda: 'the assumed motion depends on %s' % q):
            return
        names.append(m[0])
    ok, f = repo_call(r, 'prediction', lambda: Function('f', free, exprs))
    if not ok:
        return
    history = [(), (3,), (3, 5), (1, 2, 8), (12, 6)]
    for hist in history:
        obs.prepare_simulation(obs.initial, obs.simulation) if False else None
        ok, om = repo_call(r, 'obstacle', make, k, dim, None, shape, **opt)
        sim = om[0]
        e2 = og.Environment(room=room(dim))
        e2.add_obstacle(sim)
        t = 0.
        for h in hist:
            e2.simulate(h * .1, .1)
            t += h * .1
        if M.near(t):
            continue
        for q in sim.signals:
            obs.signals[q] = np.array(sim.signals[q])
        for off in ((0., .31) if mode == 'fixed' else (0.,)):
            # the problem is solved at time `off` of its horizon, when the clock of the obstacle is t
            ok, par = repo_call(r, 'parameters', ff.set_parameters, off)
            if not ok:
                return
            args = []
            for o, n in names:
                if n == 'T':
                    args.append(Ts[0])
                elif n[0] == 'T' and n[1:].isdigit():
                    args.append(Ts[int(n[1:])])
                elif n == 't':
                    args.append(float(DM(par[prob.label, 't'])))
                else:
                    args.append(np.array(DM(par[o.label, n]), float))
            out = f(*args)
            out = out if isinstance(out, (list, tuple)) else [out]
            cf = np.array(DM(out[0]), float).reshape(dim, -1)
            start = t - off + sum(Ts[:-1])
            from scipy.interpolate import BSpline as SB
            kn, dg = np.asarray(seg_basis.knots, float), seg_basis.degree
            for s in np.linspace(0., 1., 9):
                at = start + s * Ts[-1]
                if at < t - 1e-9 or at >= M.next_change(t) - 1e-9 or any(c <= t + 1e-7 and c > at for c in M.changes):
                    continue
                x = np.array([SB(kn, c, dg, extrapolate=True)(s) for c in cf])
                if not r.check(close(x, M.at(at)[0], 2e-5), lambda: 'obstacle %s (%dD), %s, history %s, %s s into the horizon: the problem assumes %s at time %.4g, the obstacle will be at %s' % (k, dim, mode, hist, off, x, at, M.at(at)[0])):
                    return
                if rot:
                    n = len(obs.cos.basis)
                    cs = np.array(DM(out[1]), float).reshape(2, n)
                    kb, db = np.asarray(obs.cos.basis.knots, float), obs.cos.basis.degree
                    w = obs.gon_weight(s) if not np.isscalar(obs.gon_weight) else obs.gon_weight
                    w = float(np.asarray(DM(w)))
                    z = [float(SB(kb, c, db)(s)) / w for c in cs]
                    th = M.th + M.w * at
                    if not r.check(abs(np.hypot(*z) - 1.) < 1e-6, lambda: 'obstacle %s, history %s: assumed rotation is not a rotation at time %.4g: %s' % (k, hist, at, z)):
                        return
                    # rational quadratic arcs: exact in the middle and at the end of every quarter turn, 0.016 rad off in between
                    tol = 1e-6 if abs(np.sin(4 * M.w * (at - t + off))) < 1e-9 else .018
                    if not r.check(close(z, [np.cos(th), np.sin(th)], tol), lambda: 'obstacle %s, history %s, %s s into the horizon: orientation assumed at time %.4g has cos/sin %s instead of %s' % (k, hist, off, at, z, [np.cos(th), np.sin(th)])):
                        return
                r.state()
            r.outcome(k, dim, mode, hist, off)
        r.trace()


B_ROOMS = [((6., 4.), (0., 0.)), ((3., 8.), (2., -5.)), ((5., 5.), (-3., 1.))]
B_SHAPES = [('circle', .4), ('rect', .8, .3), ('tri',), ('rect', .8, .3, .6), ('reg', .35, 5)]
B_VEL = [np.array([np.cos(x), np.sin(x)]) * v for x in list(np.pi / 4 * np.arange(8)) + [.3, 2.8] for v in (.8, 3.)]
B_VEL = [np.where(abs(v) < 1e-12, 0., v) for v in B_VEL]
PATTERNS = [(1,), (5,), (5, 1), (1, 3, 8), (10, 1, 1, 4)]


def bounce_case(r, case):
    ts = .05
    (w, h), pos = B_ROOMS[case['room']]
    sp = B_SHAPES[case['shape']]
    pat = PATTERNS[case['pat']]
    P = sl.points(sp)
    rad = sl.radius(sp)
    lo = np.array(pos) - .5 * np.array([w, h]) - (P.min(axis=1) - rad)
    hi = np.array(pos) + .5 * np.array([w, h]) - (P.max(axis=1) + rad)
    for vi, (vel, decl, two) in enumerate(itertools.product(B_VEL, ('trajectory', 'initial', 'later'), (False, True))):
        if two and (decl != 'trajectory' or case['shape'] > 1):
            continue
        start = .5 * (lo + hi) + .2 * (hi - lo) * np.array([.6, -.4])
        what = 'bouncing %s in a room %s around %s, velocity %s (%s), calls of %s samples%s' % (sp, (w, h), pos, np.round(vel, 3), decl, pat, ', with a second obstacle' if two else '')
        ini, sim = dict(position=list(start)), {}
        if decl == 'initial':
            ini['velocity'] = list(vel)
        elif decl == 'trajectory':
            sim = {'trajectories': {'velocity': {'time': [0], 'values': [list(vel)]}}}
        else:
            sim = {'trajectories': {'velocity': {'time': [.5], 'values': [list(vel)]}}}
        def go():
            obs = og.Obstacle(ini, sl.build(sp), sim, dict(bounce=True))
            env = og.Environment(room={'shape': og.Rectangle(w, h), 'position': list(pos)})
            env.add_obstacle(obs)
            if two:
                env.add_obstacle(og.Obstacle(dict(position=list(np.array(pos) + [.3 * w, .25 * h])), og.Circle(.3), {}, {}))
            return env, obs
        ok, eo = repo_call(r, what, go)
        if not ok:
            return
        env, obs = eo
        n = 0
        for i in range(case['n']):
            k = pat[i % len(pat)]
            ok, _ = repo_call(r, what, env.simulate, k * ts, ts)
            if not ok:
                return
            n += k
        S = obs.signals
        X, V = np.asarray(S['position']), np.asarray(S['velocity'])
        if not r.check(X.shape == (2, n + 1) and V.shape == (2, n + 1) and np.size(S['time']) == n + 1, lambda: '%s: record not aligned with time' % what):
            return
        # the longest call determines how far it can get before it is noticed
        slack = np.abs(vel) * (max(pat) * ts) + 1e-6
        over = np.maximum(X - hi[:, None], lo[:, None] - X).max(axis=1)
        j = int(np.argmax(np.maximum(X - hi[:, None], lo[:, None] - X).max(axis=0)))
        if not r.check((over <= slack).all(), lambda: '%s: %.3g / %.3g outside of the room at time %.3g' % (what, over[0], over[1], j * ts)):
            return
        m = n if decl != 'later' else n - int(round(.5 / ts)) - 1
        if not r.check(np.abs(np.abs(V[:, n - m + 1:]) - np.abs(vel)[:, None]).max() < 1e-5, lambda: '%s: the speed changed' % what):
            return
        r.check(np.abs(np.diff(X, axis=1)).max() <= np.abs(vel).max() * ts + 1e-5, lambda: '%s: the position jumps' % what)
        r.check(np.linalg.norm(np.abs(np.diff(X[:, n - m + 1:], axis=1)) - np.abs(vel)[:, None] * ts) < 1e-3, lambda: '%s: it does not keep moving' % what)
        r.state(n)
        r.trace()
        r.outcome(case['room'], sp, pat, vi, np.round(X[:, -1], 3))


def run_case(r, case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dict(sim=sim_case, pred=pred_case, bounce=bounce_case)[case['kind']](r, case)
