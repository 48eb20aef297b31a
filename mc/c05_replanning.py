"""C05: replanning shifts the plan in time without moving it.
Every history of update times (up to a depth) of real FixedT / FreeT point-to-point problems, with the
answers of the solver chosen by the explorer; the model is the last plan as a function of absolute time."""
import itertools
import numpy as np
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Stub, Curve, pattern, env, num

BOUNDS = 'fixed T: 9 (horizon, knots) pairs, all sequences of 6 events of depth 3 (quick) / 5 (thorough), 2 start times, 4 fleets; free T: degree<=3 polynomial plans, 4 events, depth 3/5'
ASSUMPTIONS = ['all vehicles of a fixed T problem have the same knot intervals (documented requirement)']
TOL = 1e-6


def vehicles(kind, ki):
    def mk(cls, s0, sT, **k):
        v = cls(**k)
        v.define_knots(knot_intervals=ki)
        v.set_initial_conditions(s0)
        v.set_terminal_conditions(sT)
        return v
    if kind == 'holo':
        return [mk(og.Holonomic, [0., 0.], [1., 2.])]
    if kind == 'holo2':
        return [mk(og.Holonomic, [0., 0.], [1., 2.]), mk(og.Holonomic, [0., 1.], [-1., 2.])]
    if kind == '1d':
        return [mk(og.Holonomic1D, [0.], [2.])]
    if kind == '3d':
        return [mk(og.Holonomic3D, [0., 0., 0.], [1., 2., 1.])]
    if kind == 'quad':
        return [mk(og.Quadrotor, [0., 0., 0., 0., 0.], [1., 2.])]
    raise KeyError(kind)


def environment(kind):
    if kind == '3d':
        return og.Environment(room={'shape': og.Cube(5.)})
    return env()


CONF = [(10., 10), (5., 10), (7., 10), (1., 10), (10., 7), (3., 5), (2.2, 4), (4.06, 4), (10 / 3., 7)]


def cases(tier):
    for kind in ('holo', '1d'):
        yield dict(kind='landings', veh=kind, tier=tier)
    depth = 3 if tier == 'quick' else 5
    for H, ki in CONF:
        kinds = ['holo', 'holo2'] + (['1d', 'quad'] if (H, ki) in CONF[1:3] else [])
        for kind in kinds:
            for start in ((0., 2.3) if kind == 'holo' else (0.,)):
                dd = depth if kind == 'holo' else depth - 1
                for first in range(6):
                    yield dict(kind='fixed', H=H, ki=ki, veh=kind, start=start, depth=dd, first=first)
    for kind in ('holo', 'holo2', '1d', 'quad'):
        for start in (0., 1.7):
            for knots in ('uniform', 'custom'):
                yield dict(kind='free', veh=kind, start=start, depth=depth, knots=knots)
    yield dict(kind='custom')


def run_case(r, case):
    no_solver()
    globals()['run_' + case['kind']](r, case)


def events(knot):
    # (time step, reset the deployer first, solver keeps the guess)
    e = [(0.5 * knot, False, False), (knot, False, False), (1.5 * knot, False, True), (2 * knot, False, False),
         (0.3 * knot, False, True), (0.7 * knot, True, False)]
    return e


class Drive(object):
    def __init__(self, r, veh, ki, opts, freeT, envkind=None):
        self.vs = vehicles(veh, ki)
        self.prob = og.Point2point(self.vs if len(self.vs) > 1 else self.vs[0], environment(veh), options=dict(verbose=0, **opts), freeT=freeT)


def build(veh, ki, opts, freeT, custom=False):
    vs = vehicles(veh, ki)
    if custom:
        for v in vs:
            d = v.degree
            v.define_knots(knots=np.r_[np.zeros(d + 1), [.15, .4, .5, .85], np.ones(d + 1)])
    p = og.Point2point(vs if len(vs) > 1 else vs[0], environment(veh), options=dict(verbose=0, **opts), freeT=freeT)
    p.init()
    return p


def run_fixed(r, case):
    H, ki = case['H'], case['ki']
    knot = H / ki
    ev = events(knot)
    prob = build(case['veh'], ki, {'horizon_time': H}, False)
    for tail in itertools.product(range(len(ev)), repeat=case['depth'] - 1):
        fixed_history(r, prob, case, H, ki, [ev[case['first']]] + [ev[i] for i in tail])


def run_landings(r, case):
    """long histories of updates that land on (or next to) every knot"""
    for H, ki in CONF + [(0.7, 7), (6., 10), (4.2, 6)]:
        for frac in (1., 0.5, 0.25, 0.2, 1. / 3, 0.1) if case.get('tier') != 'quick' else (1., 0.25, 1. / 3):
            step = H / ki * frac
            prob = build(case['veh'], ki, {'horizon_time': H}, False)
            fixed_history(r, prob, dict(start=0., landing=(H, ki, step)), H, ki, [(step, False, i % 3 == 1) for i in range(int(round(12 / frac)))])


def fixed_history(r, prob, case, H, ki, hist):
    knot = H / ki
    vs = prob.vehicles
    state = {}

    def choose(x, par):
        i = state['i']
        if not state['keep']:
            for k, v in enumerate(vs):
                x[v.label, 'splines_seg0'] = pattern(i, v.basis, v.n_spl, k)
    stub = prob.problem = Stub(prob, choose)
    dep = og.Deployer(prob, knot / 10, knot / 2)
    for v in vs:
        for a in ('trajectories', 'signals'):
            if hasattr(v, a):
                delattr(v, a)
        v.options['ideal_prediction'] = True
        v.options['ideal_update'] = True
    now = case['start']
    plans, start, prev_now = None, None, None
    seq = [(0., True, False)] + list(hist)
    tag0 = 'horizon %s, %d knot intervals, start %s, (step, reset, solver keeps guess) %s' % (H, ki, case['start'], hist if len(hist) < 8 else case.get('landing'))
    for i, (dt, reset, keep) in enumerate(seq):
        now = now + dt
        if reset:
            dep.reset()
            start, plans = now, None
        tag = '%s, update %d at %.4f' % (tag0, i, now)
        state.update(i=i, keep=keep)
        n_log = len(stub.log)
        ok, _ = repo_call(r, 'update: ' + tag, dep.update, now, update_time=None if i == 0 else dt)
        if not ok:
            return
        r.check(len(stub.log) == n_log + 1, lambda: '%s: solver called %d times' % (tag, len(stub.log) - n_log))
        var, par = stub.log[-1]
        rel = now - start
        m = int(np.floor(rel / knot + 1e-5))
        hs = start + m * knot
        t = num(par[prob.label, 't']).item()
        r.check(abs(t - (rel - m * knot)) < 2e-6, lambda: '%s: time passed to the solver %s, elapsed since the last knot %s' % (tag, t, rel - m * knot))
        r.check(abs(num(par[prob.label, 'T']).item() - H) < 1e-12, lambda: '%s: horizon passed to the solver' % tag)
        new = []
        for k, v in enumerate(vs):
            g = Curve(v.basis, num(var[v.label, 'splines_seg0']), hs, H)
            if plans is not None:
                ts = np.linspace(hs, hs + H, 41)
                d = np.abs(g(ts) - plans[k](ts)).max()
                sc = max(1., np.abs(plans[k](ts)).max())
                r.check(d < 1e-6 * sc, lambda: '%s: initial guess of vehicle %d is not the last plan: differs by %g' % (tag, k, d))
            x = prob.father.get_variables(v, 'splines_seg0', spline=False)
            want = num(var[v.label, 'splines_seg0']) if keep else pattern(i, v.basis, v.n_spl, k)
            r.check(np.allclose(x, want, atol=1e-12), lambda: '%s: variables after solving differ from the answer of the solver' % tag)
            p = Curve(v.basis, np.array(x), hs, H)
            tr = v.trajectories
            tt = tr['time'].ravel()
            r.check(abs(tt[0] - now) < 1e-9, lambda: '%s: trajectory starts at %s' % (tag, tt[0]))
            d = np.abs(tr['splines'] - p(tt)).max()
            sc = max(1., np.abs(p(tt)).max())
            r.check(d < 1e-5 * sc / min(.1, H), lambda: '%s: stored trajectory of vehicle %d differs from the plan by %g' % (tag, k, d))
            r.check(tt[-1] < hs + H + 1e-6 and tt[-1] > hs + H - knot / 10 - 1e-6, lambda: '%s: stored trajectory ends at %s, horizon at %s' % (tag, tt[-1], hs + H))
            new.append(p)
        plans = new
        r.state()
        r.outcome(m, round(t, 5), keep, reset, i)
    r.trace()


def run_free(r, case):
    prob = build(case['veh'], 6, {}, True, case['knots'] == 'custom')
    vs = prob.vehicles
    ev = [(0.5, False, 4.), (1., False, 6.3), (1., True, 3.), (1.6, False, None)]
    for hist in itertools.product(ev, repeat=case['depth']):
        free_history(r, prob, case, hist)


def poly_plan(v, i, k):
    """coefficients of a cubic polynomial on the basis of the vehicle (Marsden by collocation)"""
    n, d = len(v.basis), v.degree
    kn = np.asarray(v.basis.knots, float)
    s = np.array([kn[j + 1:j + d + 1].mean() for j in range(n)])
    B = np.array([SciEval(kn, d, n, x) for x in s])
    out = np.zeros((n, v.n_spl))
    for j in range(v.n_spl):
        y = (0.3 + i + j) - (1.1 + k) * s + (0.7 * j + .2 * i) * s ** 2 + (1.5 - .3 * i) * s ** 3
        out[:, j] = np.linalg.solve(B, y)
    return out


def SciEval(kn, d, n, x):
    from scipy.interpolate import BSpline
    return [float(BSpline(kn, np.eye(n)[j], d, extrapolate=True)(x)) for j in range(n)]


def free_history(r, prob, case, hist):
    vs = prob.vehicles
    state = {}

    def choose(x, par):
        if state['T'] is not None:
            x[prob.label, 'T'] = state['T']
            for k, v in enumerate(vs):
                x[v.label, 'splines_seg0'] = poly_plan(v, state['i'], k)
    stub = prob.problem = Stub(prob, choose)
    dep = og.Deployer(prob, 0.05, 0.5)
    for v in vs:
        for a in ('trajectories', 'signals'):
            if hasattr(v, a):
                delattr(v, a)
        v.options['ideal_prediction'] = True
    now = case['start']
    plans = None
    tag0 = 'free T, %s knots, start %s, (step, reset, T of the solver) %s' % (case['knots'], case['start'], hist)
    for i, (dt, reset, T) in enumerate([(0., True, 8.)] + list(hist)):
        now = now + dt
        if reset:
            dep.reset()
            plans = None
        tag = '%s, update %d' % (tag0, i)
        state.update(i=i, T=T)
        ok, _ = repo_call(r, 'update: ' + tag, dep.update, now, update_time=None if i == 0 else dt)
        if not ok:
            return
        var, par = stub.log[-1]
        r.check(num(par[prob.label, 't']).item() == 0., lambda: '%s: time passed to the solver' % tag)
        T0 = num(var[prob.label, 'T']).item()
        if plans is not None and plans[0].T >= 2 * dt:      # (near arrival the library uses a heuristic guess)
            r.check(abs(T0 - (plans[0].T - dt)) < 1e-9, lambda: '%s: initial guess for T is %s, remaining time %s' % (tag, T0, plans[0].T - dt))
            for k, v in enumerate(vs):
                g = Curve(v.basis, num(var[v.label, 'splines_seg0']), now, T0)
                ts = np.linspace(now, now + T0, 41)
                d = np.abs(g(ts) - plans[k](ts)).max()
                r.check(d < 1e-6 * max(1., np.abs(plans[k](ts)).max()), lambda: '%s: initial guess of vehicle %d is not the remaining part of the last plan: differs by %g' % (tag, k, d))
        Tn = prob.father.get_variables(prob, 'T')[0][0]
        new = []
        for k, v in enumerate(vs):
            p = Curve(v.basis, np.array(prob.father.get_variables(v, 'splines_seg0', spline=False)), now, Tn)
            tt = v.trajectories['time'].ravel()
            r.check(abs(tt[0] - now) < 1e-9, lambda: '%s: trajectory starts at %s' % (tag, tt[0]))
            d = np.abs(v.trajectories['splines'] - p(tt)).max()
            r.check(d < 1e-8, lambda: '%s: stored trajectory of vehicle %d differs from the plan by %g' % (tag, k, d))
            r.check(now + Tn - 0.05 - 1e-6 < tt[-1] < now + Tn + 1e-6, lambda: '%s: stored trajectory ends at %s, plan at %s' % (tag, tt[-1], now + Tn))
            new.append(p)
        plans = new
        r.state()
        r.outcome(i, dt, T, reset, round(Tn, 4))
    r.trace()


def run_custom(r, case):
    """a fixed T problem cannot follow non-constant knot intervals: it has to refuse them"""
    v = og.Holonomic()
    v.set_initial_conditions([0., 0.])
    v.set_terminal_conditions([1., 1.])
    v.define_knots(knots=np.r_[np.zeros(4), [.15, .4, .5, .85], np.ones(4)])
    try:
        og.Point2point(v, env(), freeT=False)
        r.fail('a fixed T problem silently accepts a vehicle with non-constant knot intervals')
    except ValueError:
        r.trace()
    r.state()
    r.step()
