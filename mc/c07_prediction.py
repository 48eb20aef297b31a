"""C07: the state the planner starts from is the state the vehicle will be in.
All histories (up to a depth) of update intervals, computation delays, disturbances and measured states,
for every vehicle type, driven through the real simulator / deployer with plans chosen by the explorer;
the parameters handed to the solver are compared with the state an independent model says the vehicle has."""
import itertools
import numpy as np
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Stub, Curve, num
from mc.vehlib import KINDS, rk4

BOUNDS = '13 vehicle variants; simulator: all sequences of 3/4 events of {step u, short step, overrule state, sleep}; deployer: all sequences of 3/4 updates with delays {0,1,3,7} samples, with measured, disturbed or no state; 4 sample grids, 2 start times'
ASSUMPTIONS = ['the measured state passed to an update is the one at the current time minus the update time (documented use of the deployer)',
               'update intervals and delays are multiples of the sample time and lie within the horizon of the previous plan']
GRID = [(.05, .2), (.01, .29), (.03, .21), (.1, .3)]


def cases(tier):
    d = 3 if tier == 'quick' else 4
    for name in KINDS:
        if name == 'tool':      # only used with machining problems, see C22
            continue
        for gi in range(len(GRID)):
            if tier == 'quick' and (gi + list(KINDS).index(name)) % 2:
                continue
            for start in (0., 1.7):
                yield dict(kind='deploy', veh=name, grid=gi, start=start, depth=d)
            for mode in ('ideal', 'integrated'):
                yield dict(kind='sim', veh=name, grid=gi, mode=mode, depth=d - 1 if tier == 'quick' and name.startswith('quadrotor3d') else d)
    for form in ('list', 'ints', 'array', 'nested'):
        for n in (1, 2):
            yield dict(kind='forms', form=form, n=n)
    for gi in range(len(GRID)):
        yield dict(kind='fleet', grid=gi)


def run_case(r, case):
    no_solver()
    globals()['run_' + case['kind']](r, case)


H = 6.


class World(object):
    def __init__(self, r, case, ideal):
        self.K = KINDS[case['veh']]
        K = self.K
        self.v = v = K.make(0, 5, ideal_prediction=ideal, ideal_update=ideal)
        vs = [v]
        self.prob = og.Point2point(v, K.environment(), options=dict(verbose=0, horizon_time=H), freeT=False)
        if K.name == 'trailer':
            self.prob.father.add(v.lead_veh)
        ok, _ = repo_call(r, 'init of a problem with %s' % K.name, self.prob.init)
        self.ok = ok
        self.n = 0
        v.problem = self.prob      # asked for by the options of the substitution variants

        def choose(x, par):
            x[v.label, 'splines_seg0'] = self.coeffs()
        self.prob.problem = Stub(self.prob, choose)
        self.stub = self.prob.problem
        self.init = (dict(v.__dict__), dict(v.prediction))

    def coeffs(self):
        self.n += 1
        i = self.n % 3
        return self.K.coeffs(i, self.v, H)

    def reset(self):
        v = self.v
        for k in list(v.__dict__):
            if k not in self.init[0]:
                delattr(v, k)
        if hasattr(v, 'lead_veh') and hasattr(v.lead_veh, 'signals'):
            del v.lead_veh.signals
        v.prediction = dict(self.init[1])
        self.K.conditions(v)
        self.n = 0


def knot_start(now, start):
    k = H / 5
    return start + np.floor((now - start) / k + 1e-6) * k


def compare(r, tag, w, par, x, u, sig):
    K, v = w.K, w.v
    for k, val in K.params(v, x, u, sig).items():
        own = v.lead_veh if K.name == 'trailer' and k not in ('tg_ha_tr0', 'dtg_ha_tr0', 'tg_ha_trT') else v
        try:
            got = num(par[own.label, k]).ravel()
        except Exception:
            r.fail('%s: parameter %s is not part of the problem' % (tag, k))
            continue
        val = np.asarray(val, float).ravel()
        tol = 3e-4 * (1 + np.abs(val).max())
        if K.name in ('trailer',):
            tol = 3e-2
        r.check(got.shape == val.shape and np.abs(got - val).max() < tol, lambda: '%s: the planner starts from %s = %s, the vehicle will be at %s' % (tag, k, got, val))


def run_sim(r, case):
    s, u = GRID[case['grid']]
    w = World(r, case, case['mode'] == 'ideal')
    if not w.ok:
        return
    events = ['step', 'short', 'kick', 'long'] if case['mode'] == 'integrated' else ['step', 'short', 'long']
    for seq in itertools.product(events, repeat=case['depth']):
        sim_history(r, case, w, s, u, seq)
        if len(r.fails) > 5:
            return
    r.trace()


def sim_history(r, case, w, s, u, seq):
    K, v, prob = w.K, w.v, w.prob
    w.reset()
    del w.stub.log[:]
    tag0 = '%s, sample time %s, update time %s, %s model, events %s' % (K.name, s, u, case['mode'], seq)
    sim = og.Simulator(prob, sample_time=s, update_time=u)
    sim.deployer.reset()
    x_true = np.asarray(v.prediction['state'], float).copy()
    u_true = None
    first = True
    for i, e in enumerate(('step',) + tuple(seq)):
        tag = '%s, event %d (%s)' % (tag0, i, e)
        if e == 'kick':
            if i == len(seq) or seq[i:i + 1] == ('kick',):
                pass
            n = v.signals['state'].shape[0]
            d = .02 * (np.arange(n) + 1)
            if K.name in ('quadrotor', 'trailer', 'tool', 'quadrotor3d_simple'):
                d = d * 0.
            x_new = v.signals['state'][:, -1] + d
            ok, _ = repo_call(r, tag, v.overrule_state, x_new)
            if not ok:
                return
            # a disturbance between two updates: the record holds it, planning restarts from it
            sim.deployer.reset()
            x_true, u_true = x_new, v.signals['input'][:, -1].copy()
            continue
        dt = dict(step=u, short=round(2 * s, 6), long=round(u + 3 * s, 6))[e]
        now = sim.current_time
        ok, _ = repo_call(r, tag, sim.step, dt)
        if not ok:
            return
        var, par = w.stub.log[-1]
        if first:
            compare(r, tag + ' first update', w, par, x_true, np.asarray(v.prediction['input'], float) if 'input' in v.prediction else np.zeros(K.n_in), None)
            first = False
            # the first plan is followed from its own beginning
            x_true = np.asarray(v.trajectories['state'], float)[:, 0].copy()
        else:
            sg = dict((k, v.signals[k][:, jprev]) for k in v.signals)
            kick = seq[i - 2:i - 1] == ('kick',) if i > 1 else False
            if not kick:
                compare(r, tag, w, par, x_true, u_true, sg)
            else:
                p = dict(K.params(v, x_true, np.zeros(K.n_in), None))
                pos = [k for k in p if k in ('state0', 'pos0', 'spl0', 'tg_ha0')]
                for k in pos:
                    own = v.lead_veh if K.name == 'trailer' else v
                    got = num(par[own.label, k]).ravel()
                    r.check(np.abs(got - np.asarray(p[k]).ravel()).max() < 1e-6, lambda: '%s: after the disturbance the planner starts from %s = %s instead of %s' % (tag, k, got, p[k]))
        # where is the vehicle now, according to the model?
        tr = v.trajectories
        m = int(round(dt / s))
        # trajectories have to begin where the vehicle is
        ideal = case['mode'] == 'ideal'
        if ideal:
            x_end = tr['state'][:, m]
        else:
            x_end = rk4(lambda a, b: K.ode(v, a, b), x_true, tr['input'], s, m)[:, -1]
        x_sig = v.signals['state'][:, -1]
        tol = 1e-4 * (1 + np.abs(x_end).max())
        r.check(np.abs(x_sig - x_end).max() < tol, lambda: '%s: simulated state %s, the model gives %s' % (tag, x_sig, x_end))
        x_true = x_sig.copy()
        u_true = tr['input'][:, m].copy()
        jprev = v.signals['state'].shape[1] - 1
        if K.name in ('dubins', 'bicycle', 'agv', 'quadrotor3d', 'quadrotor3d_substitution', 'trailer') and not first:
            pass
        r.state()
    r.outcome(seq, np.round(x_true, 3).tolist())
    r.trace()


def run_deploy(r, case):
    s, u = GRID[case['grid']]
    w = World(r, case, False)
    if not w.ok:
        return
    events = [(0, 'exact'), (1, 'exact'), (3, 'off'), (7, 'exact'), (0, 'off')]
    for seq in itertools.product(events, repeat=case['depth'] - 1):
        deploy_history(r, case, w, s, u, seq)
        if len(r.fails) > 5:
            return
    r.trace()


def deploy_history(r, case, w, s, u, seq):
    K, v, prob = w.K, w.v, w.prob
    w.reset()
    del w.stub.log[:]
    dep = og.Deployer(prob, sample_time=s, update_time=u)
    dep.reset()
    now = case['start']
    x = np.asarray(v.prediction['state'], float)
    nu = int(round(u / s))
    tag0 = '%s deployed from %s, sample time %s, update time %s, (delay, measurement) %s' % (K.name, case['start'], s, u, seq)
    ok, tr = repo_call(r, tag0, dep.update, now)
    if not ok:
        return
    compare(r, tag0 + ', first update', w, w.stub.log[-1][1], x, np.asarray(v.prediction['input'], float) if 'input' in v.prediction else np.zeros(K.n_in), None)
    j = [0, 1] if K.name != 'trailer' else [3, 4]
    r.check(K.name not in ('dubins', 'bicycle', 'agv', 'quadrotor3d', 'trailer') or np.abs(np.asarray(tr['state'])[j, 0] - x[j]).max() < 1e-6, lambda: '%s: the first trajectory does not start where the vehicle is' % tag0)
    for i, (d, meas) in enumerate(seq):
        tag = '%s, update %d' % (tag0, i + 1)
        prev = now
        now = round(now + u + d * s, 9) if i % 2 else now + u + d * s
        # the vehicle follows the inputs of the last plan since the last update
        inp = np.asarray(tr['input'])
        xd = np.asarray(tr['state'])[:, d].copy()
        if meas == 'off':
            e = .03 * (np.arange(len(xd)) + 1.) * (-1) ** i
            if K.name == 'trailer':
                e[:] = 0.
            xd = xd + e
        xs = rk4(lambda a, b: K.ode(v, a, b), xd, inp[:, d:], s, nu)[:, -1]
        sig = dict((k, np.asarray(tr[k])[:, d + nu].copy()) for k in tr)
        ui = inp[:, d + nu].copy()
        form = [xd, list(float(q) for q in xd)][i % 2]
        ok, tr = repo_call(r, tag, dep.update, now, form)
        if not ok:
            return
        compare(r, tag, w, w.stub.log[-1][1], xs, ui, sig)
        r.check(abs(tr['time'].ravel()[0] - now) < 1e-9, lambda: '%s: the trajectory starts at %s instead of %s' % (tag, tr['time'].ravel()[0], now))
        if K.name in ('dubins', 'bicycle', 'agv', 'quadrotor3d', 'quadrotor3d_substitution', 'trailer'):
            # these integrate the plan from the position the planner starts from
            j = [0, 1] if K.name != 'trailer' else [3, 4]
            r.check(np.abs(tr['state'][j, 0] - xs[j]).max() < 1e-3, lambda: '%s: the trajectory starts at %s, the vehicle will be at %s' % (tag, tr['state'][j, 0], xs[j]))
        r.state()
    r.outcome(seq, np.round(xs, 3).tolist())
    r.trace()


def run_forms(r, case):
    """ways to pass measured states"""
    n, form = case['n'], case['form']
    K = KINDS['holonomic']
    vs = [K.make(0, 5) for _ in range(n)]
    prob = og.Point2point(vs if n > 1 else vs[0], K.environment(), options=dict(verbose=0, horizon_time=H), freeT=False)
    prob.init()
    for meas in ([1, 2], [0, 0], [-1, 1], [2, -1]):
        for on in ('first', 'later', 'both'):
            def choose(x, par):
                for k, v in enumerate(vs):
                    x[v.label, 'splines_seg0'] = K.coeffs(k, v, H) * .0 + .1 * (k + 1) * np.linspace(0, 1, len(v.basis))[:, None]
            for v in vs:
                for a in ('trajectories', 'signals'):
                    if hasattr(v, a):
                        delattr(v, a)
                K.conditions(v)
            stub = prob.problem = Stub(prob, choose)
            dep = og.Deployer(prob, .05, .2)
            dep.reset()
            st = [[m + k for m in meas] for k in range(n)]
            val = dict(list=lambda q: [float(a) for a in q], ints=lambda q: [int(a) for a in q], array=lambda q: np.array(q, float), nested=lambda q: [float(a) for a in q])[form]
            arg = [val(q) for q in st]
            if n == 1 and form != 'nested':
                arg = arg[0]
            tag = '%d vehicles, measured states %r given at %s update' % (n, arg, on)
            ok, tr = repo_call(r, tag, dep.update, 0., arg if on != 'later' else None)
            if not ok:
                continue
            if on != 'later':
                for k, v in enumerate(vs):
                    got = num(stub.log[-1][1][v.label, 'state0']).ravel()
                    r.check(np.allclose(got, st[k]), lambda: '%s: planner starts from %s' % (tag, got))
            inp = [np.array(v.trajectories['input']) for v in vs]
            if on != 'first':
                ok, tr = repo_call(r, tag, dep.update, .2, arg)
                if not ok:
                    continue
                for k, v in enumerate(vs):
                    want = rk4(lambda a, b: b, np.array(st[k], float), inp[k], .05, 4)[:, -1]
                    got = num(stub.log[-1][1][v.label, 'state0']).ravel()
                    r.check(np.allclose(got, want, atol=1e-5), lambda: '%s: planner starts from %s instead of %s' % (tag, got, want))
            r.state()
            r.outcome(form, n, tuple(meas), on)
    r.trace()


def run_fleet(r, case):
    """distributed problems hand delay and measured states to every vehicle"""
    s, u = GRID[case['grid']]
    K = KINDS['holonomic']
    nu = int(round(u / s))
    for ideal in (True, False):
        for n in (2, 3):
            vs = [K.make(0, 5, ideal_prediction=ideal) for _ in range(n)]
            fleet = og.Fleet(vs)
            fleet.set_configuration([[.2 * k, .1 * k] for k in range(n)])
            fleet.set_initial_conditions([[float(k), 0.] for k in range(n)])
            fleet.set_terminal_conditions([1., 1.])
            prob = og.FormationPoint2point(fleet, K.environment(), options=dict(verbose=0, horizon_time=H))
            for d in (0, 1, 4):
                for measured in (False, True):
                    if measured and ideal:
                        continue
                    tag = '%d vehicles in a distributed problem, delay of %d samples, %s' % (n, d, 'measured states' if measured else 'no measurement')
                    from omgtools.basics.spline import BSpline
                    st = []
                    for k, v in enumerate(vs):
                        for a in ('trajectories', 'signals'):
                            if hasattr(v, a):
                                delattr(v, a)
                        c = K.coeffs(k, v, H)
                        v.store(0., s, [[BSpline(v.basis, c[:, j]) for j in range(2)]], [H])
                        v.signals = dict((kk, np.array(a[:, :d + nu + 1])) for kk, a in v.trajectories.items())
                        st.append([.3 * k + .1, -.2 * k] if measured else None)
                    ok, _ = repo_call(r, tag, prob.predict, u + d * s, u, s, [list(q) if q else None for q in st] if measured else None, None, None, d)
                    if not ok:
                        continue
                    for k, v in enumerate(vs):
                        inp = v.trajectories['input']
                        x0 = np.array(st[k]) if measured else v.trajectories['state'][:, d]
                        want = v.trajectories['state'][:, d + nu] if ideal else rk4(lambda a, b: b, x0, inp[:, d:], s, nu)[:, -1]
                        r.check(np.allclose(v.prediction['state'], want, atol=1e-4), lambda: '%s: vehicle %d is expected at %s instead of %s' % (tag, k, v.prediction['state'], want))
                        r.check(np.allclose(v.prediction['input'], inp[:, d + nu], atol=1e-9), lambda: '%s: vehicle %d has expected input %s instead of %s' % (tag, k, v.prediction['input'], inp[:, d + nu]))
                    r.state()
            r.trace()
