"""C10: initial and terminal conditions are enforced and arrival is reported correctly.
(a) For every vehicle, way of posing the problem and plan, the constraints of the real problem are evaluated with
the plan and with every single deviation from it (start state, start input, goal, motion left at the end).
(b) For every vehicle, goal, tolerance and end state of a lattice around the goal, the real arrival check is
compared with the distance to the goal and the speed; problems with several vehicles with all of their answers."""
import itertools
import numpy as np
from casadi import Function, vertcat
import omgtools as og
from omgtools.problems.point2point import FreeEndPoint2point
from mc.core import repo_call
from mc.p2p import no_solver, Curve, Stub
from mc.vehlib import KINDS, Kind

BOUNDS = dict(quick='13 vehicle variants x 5 ways of posing the problem x 2-3 plans x start offsets x all single deviations; arrival: 6 tolerances x goals x lattice of end states; 1-3 vehicles',
              thorough='as quick with more plans, horizons, offsets and sizes of deviation')
ASSUMPTIONS = ['inputs a vehicle model leaves free at the start (steering rate, rotation rates of the 3D quadrotor) are not judged',
               'end states between "one of position, orientation or speed out of tolerance" and "all of them together within it" are not judged',
               'a free end time problem also stops when less than one update is left: not judged']
NOTFIXED = {'bicycle': {'input': (1,)}, 'agv': {'input': (1,)}, 'quadrotor': {'state': (2, 3, 4), 'input': (0, 1)},
            'quadrotor3d_simple': {'input': (1, 2), 'dspl': range(3), 'ddspl': range(3)}, 'quadrotor3d': {'input': (1, 2)}, 'quadrotor3d_substitution': {'input': (1, 2)},
            'trailer': {'state': (0, 1)}}
INTEGRATED = {'dubins': (0, 1), 'bicycle': (0, 1), 'agv': (0, 1), 'trailer': (3, 4), 'quadrotor3d': (0, 1, 2)}
MODES = ('free', 'soft', 'hard', 'nrest')


def cases(tier):
    for name in KINDS:
        yield dict(kind='arrival', veh=name, tier=tier)
        if name == 'quadrotor3d_substitution':
            continue        # positions are separate variables there: covered by the direct form
        for mode in MODES + (('end',) if name in ('holonomic', 'holonomic3d', 'holonomic1d') else ()):
            for i in range(2 if tier == 'quick' else 6):
                yield dict(kind='plan', veh=name, mode=mode, i=i, tier=tier)
    yield dict(kind='fleet', tier=tier)
    for pair in (('holonomic', 'holonomic'), ('holonomic', 'quadrotor'), ('dubins', 'holonomic'), ('bicycle', 'holonomic'), ('holonomic', 'dubins', 'quadrotor')):
        for mode in ('free', 'soft', 'hard'):
            yield dict(kind='pair', vehs=pair, mode=mode, tier=tier)


# ---------------------------------------------------------------- constraints
def rest_plan(name, K, v, i, T):
    """a plan that ends at rest"""
    c = np.array(K.coeffs(i, v, T), float)
    d = v.degree
    k = len(v.basis)
    if name in ('dubins', 'bicycle', 'agv', 'trailer'):
        j = 1 if name == 'trailer' else 0
        c[k - d - 1:, j] = 0.
        c[k - d - 1:, j + 1] = c[k - d - 1, j + 1]
        if name == 'trailer':
            c[k - d - 1:, 0] = c[k - d - 1, 0]
    elif name == 'quadrotor3d':
        return None
    else:
        c[k - d - 1:] = c[k - d - 1]
    return c


def quad3d_rest_plan(K, v, i, T):
    """thrust and attitude such that the quadrotor is at rest at both ends of the enumerated motion"""
    n = len(v.basis)
    c = np.c_[np.full(n, v.g), np.zeros(n), np.zeros(n)]
    cu = Curve(v.basis, c, 0., T)
    return c


def signals_at(K, v, cu, t, x0, at):
    """state/input/... of the plan at time `at`, the plan being in x0 at time t"""
    if abs(at - t) < 1e-12:
        s = K.signals(v, cu, np.array([t, t + 1e-9]), x0)
        return dict((k, a[:, 0]) for k, a in s.items())
    tt = np.linspace(t, at, 41)
    s = K.signals(v, cu, tt, x0)
    return dict((k, a[:, -1]) for k, a in s.items())


def build(case, name, T):
    K = KINDS[name]
    v = K.make(0, 8 if name == 'trailer' else 10)
    return K, v


def set_start(K, name, v, sig):
    """tell the vehicle where it is, as the user does"""
    if name == 'tool':
        v.set_initial_conditions(sig['state'].copy(), input=sig['input'].copy(), dinput=sig['dinput'].copy())
    elif name == 'trailer':
        v.set_initial_conditions(sig['state'].copy(), sig['input'].copy())
    else:
        v.set_initial_conditions(sig['state'].copy(), sig['input'].copy())
    if 'dspl' in sig:           # quadrotors: as after a prediction
        v.prediction.update(state=sig['state'].copy(), input=sig['input'].copy(), dspl=sig['dspl'].copy(), ddspl=sig['ddspl'].copy())


def set_goal(name, v, sig, dev=None):
    s = sig['state'].copy() if dev is None else sig['state'] + dev
    if name in ('holonomic', 'holonomic1d', 'holonomic3d', 'tool', 'holonomicorient', 'dubins'):
        v.set_terminal_conditions(list(s))
    elif name in ('bicycle', 'agv'):
        v.set_terminal_conditions(list(s[:3]))
    elif name == 'trailer':
        v.lead_veh.set_terminal_conditions(list(s[3:]))
        v.set_terminal_conditions(s[2])
    elif name == 'quadrotor':
        v.set_terminal_conditions(list(s[:2]))
    elif name == 'quadrotor3d_simple':
        v.set_terminal_conditions(list(s[:3]))
    else:
        v.set_terminal_conditions(list(s[:3]), s[6], s[7])


GOAL = {'bicycle': 3, 'agv': 3, 'quadrotor': 2, 'quadrotor3d_simple': 3, 'trailer': 6, 'quadrotor3d': 8}


class Judge(object):
    """evaluates the constraints of the real problem (own ones of the problem, optionally those of the vehicles)"""

    def __init__(self, r, prob, hard):
        self.r, self.prob = r, prob
        ff = prob.father
        self.ff = ff
        pd = ff.problem_description
        names = [prob._add_label(n) for n in prob._constraints]
        for v in prob.vehicles:      # conditions of the vehicle itself (steering angle at standstill): equalities
            for o in [v] + ([v.lead_veh] if hasattr(v, 'lead_veh') else []):
                for n in o._constraints:
                    l = o._add_label(n)
                    a, b = np.array(ff._lb[l]), np.array(ff._ub[l])
                    if np.all(a == b) and a.size == 1:
                        names.append(l)
        self.names = names
        self.fun = Function('c', [pd['var'], pd['par']], [vertcat(*[pd['con'][n] for n in names])])
        self.lb = np.array(vertcat(*[ff._lb[n] for n in names])).ravel()
        self.ub = np.array(vertcat(*[ff._ub[n] for n in names])).ravel()
        self.obj = Function('o', [pd['var'], pd['par']], [pd['obj']])
        self.stub = Stub(prob, lambda x, par: None)
        prob.problem = self.stub

    def slack(self, x, values):
        """fill every variable of the problem that is not a plan: values by size"""

    def violation(self, x, p):
        g = np.array(self.fun(x, p)).ravel()
        return max(0., np.max(g - self.ub), np.max(self.lb - g))


def problem(r, vs, K, mode, H, **opt):
    o = dict(verbose=0, horizon_time=H)
    o.update(opt)
    if mode == 'hard':
        o['hard_term_con'] = True
    if mode == 'nrest':
        o['no_term_con_der'] = True
    if mode == 'end':
        free = opt.pop('free_ind')
        o.pop('free_ind')
        f = lambda: FreeEndPoint2point(vs[0], K.environment(), o, free)
    else:
        f = lambda: og.Point2point(vs if len(vs) > 1 else vs[0], K.environment(), options=o, freeT=mode == 'free')
    ok, prob = repo_call(r, 'problem', f)
    if not ok:
        return None
    for v in vs:
        if isinstance(v, og.Tool):
            v.define_collision_constraints = lambda *a, **k: None
        if hasattr(v, 'lead_veh'):
            prob.father.add(v.lead_veh)
    ok, _ = repo_call(r, 'init of the problem', prob.init)
    return prob if ok else None


def slacks(prob):
    return [n for n in prob._variables if n != 'T' and not n.startswith('conT')]


def run_plan(r, case):
    name, mode, i = case['veh'], case['mode'], case['i']
    grid = ((3., .37), (7.5, 0.)) if case['tier'] == 'quick' else ((3., .37), (3., 0.), (7.5, 0.), (7.5, .9))
    if mode == 'free':
        grid = ((3., 0.), (7.5, 0.))
    for (T, frac), free in itertools.product(grid, (None, [0], 'all') if mode == 'end' else (None,)):
        K, v = build(case, name, T)
        if free == [0] and v.n_spl == 1:
            continue
        nf = v.n_spl if free == 'all' else 1
        opt = {}
        if mode == 'end':
            opt['free_ind'] = None if free is None else {v: list(range(v.n_spl)) if free == 'all' else free}
        prob = problem(r, [v], K, mode, T, **opt)
        if prob is None:
            return
        J = Judge(r, prob, mode)
        what0 = '%s, %s, horizon %s, plan %d' % (name, dict(free='free end time', soft='fixed end time', hard='fixed end time with hard terminal constraints', nrest='fixed end time without terminal rest', end='free end point %s' % free)[mode], T, i)
        if name == 'quadrotor3d':
            c0 = quad3d_rest_plan(K, v, i, T)
        else:
            c0 = rest_plan(name, K, v, i, T)
        t = frac * T / 10. if name != 'trailer' else frac * T / 8.
        for endmove in [None] + list(range(c0.shape[1])):
            c = c0.copy()
            if endmove is not None:
                if name == 'trailer' and endmove == 0:
                    continue
                c[-1, endmove] += .2        # moving at the end
            cu = Curve(v.basis, c, 0., T)
            rng = np.arange(13)
            x0 = np.array([.4, -.3, .2, .5, .15, -.1, .05, -.05])
            if name in ('dubins', 'bicycle', 'agv'):
                x0 = np.array([.4, -.3, 0, 0])
            elif name == 'quadrotor3d':
                x0 = np.array([.4, -.3, .2, 0, 0, 0, 0, 0.])
            start = signals_at(K, v, cu, t, x0, t)
            if 'delta' in start and np.isnan(start['input']).any():
                start['input'][1] = 0.
            x0s = start['state'] if name != 'trailer' else start['state']
            end = signals_at(K, v, cu, t, x0s if name != 'trailer' else np.r_[0, 0, 0, start['state'][3:]], T)
            devs = [('as it is', None, None, 0.)]
            for key in start:
                if key in ('state', 'input', 'dinput', 'dspl', 'ddspl'):
                    for j in range(len(start[key])):
                        if j in NOTFIXED.get(name, {}).get(key, ()):
                            continue
                        if key == 'dinput' and name != 'tool':
                            continue
                        if name in ('bicycle', 'agv') and key == 'state' and j == 3 and start['input'][0] > 1e-3 and False:
                            continue
                        for d in ((.02, -.02) if case['tier'] == 'quick' else (.02, -.02, .5, -.5)):
                            devs.append(('%s[%d] of the vehicle off by %s' % (key, j, d), (key, j), None, d))
            for j in range(GOAL.get(name, v.n_spl)):
                if name == 'trailer' and j < 2 or name == 'quadrotor3d' and 3 <= j < 6:
                    continue
                for d in (.02, -.02):
                    devs.append(('goal[%d] off by %s' % (j, d), None, j, d))
            if endmove is not None:
                devs = devs[:1]
            for txt, sdev, gdev, d in devs:
                s = dict((k, np.array(a, float)) for k, a in start.items())
                if sdev:
                    s[sdev[0]][sdev[1]] += d
                    if name in ('bicycle', 'agv') and sdev == ('input', 0) and (s['input'][0] < 1e-3 or start['input'][0] < 1e-3):
                        if d < 0:
                            continue
                what = '%s, %.3g s after the start of the horizon, %s%s' % (what0, t, '' if endmove is None else 'plan still moving at the end (%d), ' % endmove, txt)
                gd = None
                if gdev is not None:
                    gd = np.zeros(len(end['state']))
                    gd[gdev] = d
                set_start(K, name, v, s)
                set_goal(name, v, end, gd)
                prob.initialize(0.)
                prob.father.init_variables()
                ok, _ = repo_call(r, 'solve (%s)' % what, prob.solve, t, .05)
                if not ok:
                    return
                x, p = J.stub.log[-1]
                J.stub.log[:] = []
                x[v.label, 'splines_seg0'] = c
                if mode == 'free':
                    x[prob.label, 'T'] = T
                soft = mode in ('soft', 'nrest', 'end')
                sl = slacks(prob)
                r.check(bool(sl) == (mode != 'free'), what + ': slack variables %s' % sl)
                # deviation from the goal that the slacks have to allow, per coordinate of the plan's end state
                for g in sl:
                    x[prob.label, g] = 1e3
                if mode == 'end':
                    # the free coordinates: chosen by the solver, here the end of the plan
                    pos = end['state'] if gd is None else end['state']
                    fr = [0] if free == [0] else list(range(v.n_spl))
                    x[prob.label, 'conT0'] = [pos[q] for q in fr]
                viol = J.violation(x, p)
                good = sdev is None and gdev is None and endmove is None
                if endmove is not None and mode == 'nrest':
                    good = True
                if soft and gdev is not None:
                    good = name != 'quadrotor3d' or gdev < 3 or mode == 'nrest'
                if soft and sdev and sdev[0] == 'state' and sdev[1] in INTEGRATED.get(name, ()):
                    good = True
                if name == 'quadrotor3d' and mode == 'nrest' and sdev and sdev[0] == 'state' and 3 <= sdev[1] < 6:
                    good = True
                if good:
                    r.check(viol < 1e-6, '%s: rejected (violation %.3g)' % (what, viol))
                else:
                    r.check(viol > 1e-5, '%s: accepted' % what)
                r.state()
                r.outcome(what, good)
                if soft and good and endmove is None and sl and txt.startswith(('as', 'goal')) and d <= 0:
                    # the slacks must cover the distance between plan and goal at every time, and are what is minimised
                    o0 = float(J.obj(x, p))
                    r.check(abs(o0 - 1e3 * len(sl) * (1 - t / T)) < 1e-6 * o0, '%s: objective %.9g for %d slacks of 1000 over the remaining %.4g of the horizon' % (what, o0, len(sl), 1 - t / T))
                    for g in sl:
                        x[prob.label, g] = -1e-3
                        r.check(J.violation(x, p) > 1e-5, '%s: negative deviation %s accepted' % (what, g))
                        x[prob.label, g] = 1e3
                    if name in ('holonomic', 'holonomic1d', 'holonomic3d', 'tool', 'holonomicorient', 'quadrotor', 'quadrotor3d_simple'):
                        goal = end['state'] + (0 if gd is None else gd)
                        if name == 'holonomicorient':
                            goal = np.r_[goal[:2], np.tan(goal[2] / 2)]
                        if mode == 'end':
                            for q in fr:
                                goal[q] = end['state'][q]
                        need = [np.abs(c[:, j] - goal[j]).max() for j in range(v.n_spl)]
                        curve = [np.abs(cu(np.linspace(0, T, 101))[j] - goal[j]).max() for j in range(v.n_spl)]
                        # assign slacks to coordinates by trying
                        for g in sl:
                            for j, (lo, hi) in enumerate(zip(curve, need)):
                                pass
                        lows = []
                        for g in sl:
                            a, b = 0., 50.
                            for _ in range(26):
                                m = .5 * (a + b)
                                x[prob.label, g] = m
                                a, b = (a, m) if J.violation(x, p) < 1e-9 else (m, b)
                            lows.append(b)
                            x[prob.label, g] = 1e3
                        r.check(len(lows) == v.n_spl and all(l > cv - 1e-6 and l < nd + 1e-6 for l, cv, nd in zip(sorted(lows), sorted(curve), sorted(need))),
                                '%s: allowed deviations %s, plan deviates %s' % (what, np.round(lows, 4), np.round(curve, 4)))
                if len(r.fails) > 10:
                    return
        r.trace()


# ---------------------------------------------------------------- several vehicles in one problem
def run_pair(r, case):
    mode, T = case['mode'], 5.
    Ks = [KINDS[n] for n in case['vehs']]
    vs = [K.make(0, 10) for K in Ks]
    prob = problem(r, vs, Ks[0], mode, T)
    if prob is None:
        return
    J = Judge(r, prob, mode)
    plans, ends = [], []
    for k, (K, v, n) in enumerate(zip(Ks, vs, case['vehs'])):
        c = rest_plan(n, K, v, k, T)
        cu = Curve(v.basis, c, 0., T)
        start = signals_at(K, v, cu, 0., np.array([.4 + k, -.3, 0, 0]), 0.)
        if 'delta' in start and np.isnan(start['input']).any():
            start['input'][1] = 0.
        end = signals_at(K, v, cu, 0., start['state'], T)
        plans.append((c, start, end))
    for bad in range(-1, len(vs)):
        for how in ('start', 'goal', 'move'):
            if bad < 0 and how != 'start':
                continue
            for j in range(2):
                cs = []
                for k, (v, n) in enumerate(zip(vs, case['vehs'])):
                    c, start, end = plans[k]
                    s = dict((q, a.copy()) for q, a in start.items())
                    gd = np.zeros(len(end['state']))
                    c = c.copy()
                    if k == bad:
                        if how == 'start':
                            (s['state'] if j == 0 or n in ('holonomic', 'quadrotor') else s['input'])[j if n in ('holonomic', 'quadrotor') else (2 if j == 0 else 0)] += .03
                        elif how == 'goal':
                            gd[j] = .03
                        else:
                            c[-1, j] += .2
                    set_start(Ks[k], n, v, s)
                    set_goal(n, v, end, gd)
                    cs.append(c)
                prob.initialize(0.)
                prob.father.init_variables()
                ok, _ = repo_call(r, 'solve', prob.solve, 0., .05)
                if not ok:
                    return
                x, p = J.stub.log[-1]
                J.stub.log[:] = []
                for v, c in zip(vs, cs):
                    x[v.label, 'splines_seg0'] = c
                if mode == 'free':
                    x[prob.label, 'T'] = T
                for g in slacks(prob):
                    x[prob.label, g] = 1e3
                viol = J.violation(x, p)
                good = bad < 0 or (mode == 'soft' and how == 'goal')
                what = 'vehicles %s in one problem (%s): %s' % (list(case['vehs']), mode, 'plans as they are' if bad < 0 else '%s of vehicle %d off' % (how, bad))
                if good:
                    r.check(viol < 1e-6, '%s: rejected (violation %.3g)' % (what, viol))
                else:
                    r.check(viol > 1e-5, '%s: accepted' % what)
                r.state()
                r.outcome(what, j)
                if mode != 'free' and bad < 0:
                    # one deviation per vehicle and coordinate
                    sl = slacks(prob)
                    n = sum(len(v.get_terminal_constraints(v.splines[0])[0]) for v in vs)
                    r.check(len(sl) == n, '%s: %d deviations from the goals, but only %d slack variables' % (what, n, len(sl)))
                    o = float(J.obj(x, p))
                    r.check(abs(o - 1e3 * n) < 1e-3, '%s: objective %.6g when every one of %d deviations is 1000' % (what, o, n))
    r.trace()


# ---------------------------------------------------------------- arrival
def rest_state(name, v, goal):
    """(state, input, rest of the signals) standing at the goal"""
    if name in ('holonomic', 'holonomic1d', 'holonomic3d', 'tool', 'holonomicorient', 'dubins'):
        st, u = np.array(goal, float), np.zeros(KINDS[name].n_in)
    elif name in ('bicycle', 'agv'):
        st, u = np.r_[goal, .3], np.zeros(2)
    elif name == 'trailer':
        st, u = np.r_[goal[0] - .6, goal[1], .25, goal], np.zeros(2)
    elif name == 'quadrotor':
        st, u = np.r_[goal[:2], 0, 0, 0.], np.array([v.g, 0.])
    else:
        st, u = np.r_[goal, np.zeros(5)], np.array([v.g, 0., 0.])
    return st, u


GOALS = {1: [[1.], [-.3]], 2: [[1., 2.], [-.3, 0.]], 3: [[1., 2., .4], [-.3, 0., -1.]]}


def run_arrival(r, case):
    name = case['veh']
    K = KINDS[name]
    nd = {'holonomic1d': 1, 'holonomic': 2, 'quadrotor': 2}.get(name, 3)
    for tol, goal in itertools.product((None, 1e-3, .05, .5, 1., 1.7), GOALS[nd]):
        v = K.make(0, 10)
        if tol is not None:
            v.set_options({'stop_tol': tol})
            if name == 'trailer':
                v.lead_veh.set_options({'stop_tol': tol})
            tt = tol
        else:
            tt = v.options['stop_tol']
            if name == 'trailer':
                tt = None
        st, u = rest_state(name, v, goal)
        if name == 'trailer':
            v.lead_veh.set_terminal_conditions(list(goal))
            v.set_terminal_conditions(.25)
        elif name.startswith('quadrotor3d') and name != 'quadrotor3d_simple':
            v.set_terminal_conditions(list(goal), 0., 0.)
        else:
            v.set_terminal_conditions(list(goal))
        K2 = K
        # components: (signal, index, meaning)
        if name == 'trailer':
            comps = [('state', j) for j in (2, 3, 4, 5)]
        elif name in ('bicycle', 'agv', 'dubins', 'holonomicorient', 'holonomic3d', 'tool'):
            comps = [('state', j) for j in range(3)]
        else:
            comps = [('state', j) for j in range(nd)]
        if name.startswith('quad'):
            comps += [('state', nd + j) for j in range(nd)]       # velocity
        elif name in ('dubins', 'bicycle', 'agv', 'trailer'):
            comps += [('input', 0), ('input', 1)]
        else:
            comps += [('input', j) for j in range(len(u))]
        if name == 'quadrotor3d':
            comps += [('input', 0)]
        tols = [tt] if tt is not None else [v.options['stop_tol'], v.lead_veh.options['stop_tol']]
        lo, hi = min(tols), max(tols)
        devs = [()] + [((c, f * s),) for c in comps for f in ('in', 'out', 'far', 'huge') for s in ((1,) if False else (0,))] if False else [()]
        for c in comps:
            for f in (.5 * lo, -.5 * lo, .96 * lo, 1.04 * hi, -1.04 * hi, 3. * hi, -3 * hi, 40.):
                devs.append(((c, f),))
        for c1, c2 in itertools.combinations(comps, 2):
            for f1, f2 in ((.6 * lo, .6 * lo), (.6 * lo, 1.2 * hi), (1.2 * hi, -.6 * lo), (1.2 * hi, 1.2 * hi), (30., .1 * lo), (.1 * lo, 30.)):
                devs.append(((c1, f1), (c2, f2)))
        for dev in devs:
            s, w = st.copy(), u.copy()
            for (key, j), f in dev:
                (s if key == 'state' else w)[j] += f
            sig = dict(state=s, input=w, pose=K.pose(v, s.reshape(-1, 1))[:, 0])
            pos = {'trailer': [3, 4]}.get(name, list(range({'quadrotor': 2, 'holonomic1d': 1, 'holonomic': 2}.get(name, 2 if name in ('bicycle', 'agv', 'dubins', 'holonomicorient') else 3))))
            rot = {'trailer': [2, 5], 'bicycle': [2], 'agv': [2], 'dubins': [2], 'holonomicorient': [2]}.get(name, [])
            if name == 'quadrotor3d_simple' or name == 'quadrotor':
                sig['dspl'] = s[nd:2 * nd]
                sig['ddspl'] = np.zeros(nd)
                speed = s[nd:2 * nd]
            elif name.startswith('quadrotor3d'):
                speed = np.r_[s[3:6], w[0] - v.g]
            else:
                speed = w
            gst = st
            errs = [np.linalg.norm(s[pos] - gst[pos])] + [abs(s[q] - gst[q]) for q in rot] + [np.linalg.norm(speed)]
            far = max(errs) > 1.02 * hi
            near = np.linalg.norm(np.r_[(s - gst)[pos + rot]]) < .98 * lo and np.linalg.norm(speed) < .98 * lo
            if far == near:
                continue
            for before in (0, 1):       # what was recorded before must not matter
                o = dict((k, (a * 0 + 7. if before else a)) for k, a in sig.items())
                if not before:
                    o['state'], o['input'] = st, u
                    o['pose'] = K.pose(v, st.reshape(-1, 1))[:, 0]
                    if 'dspl' in o:
                        o['dspl'] = np.zeros(nd)
                v.signals = dict((k, np.c_[o[k], o[k], sig[k]]) for k in sig)
                if hasattr(v, 'lead_veh'):
                    v.lead_veh.signals = dict(state=v.signals['state'][3:], input=v.signals['input'], pose=v.signals['pose'][3:])
                v.trajectories = v.signals
                ok, res = repo_call(r, '%s: arrival check' % name, v.check_terminal_conditions)
                if not ok:
                    return
                r.check(bool(res) == near, '%s with goal %s and tolerance %s standing at state %s with input %s: arrival reported as %s' % (
                    name, goal, tols, np.round(s, 4), np.round(w, 4), res))
                r.state()
                r.outcome(name, tol, goal, dev)
                if len(r.fails) > 10:
                    return
    r.trace()


def run_fleet(r, case):
    for n in (1, 2, 3):
        for free in (False, True):
            vs = [KINDS['holonomic'].make(0, 10) for _ in range(n)]
            prob = og.Point2point(vs if n > 1 else vs[0], KINDS['holonomic'].environment(), options=dict(verbose=0), freeT=free)
            prob.init()
            prob.father.init_variables()
            if free:
                prob.father.set_variables(5., prob, 'T')
            for answers in itertools.product((0, .1, 3.), repeat=n):
                for v, a in zip(vs, answers):
                    v.set_options({'stop_tol': 1.})
                    v.signals = dict(state=np.array([[1. + a], [2.]]), input=np.zeros((2, 1)), pose=np.array([[1. + a], [2.], [0.]]))
                ok, res = repo_call(r, 'stop criterium', prob.stop_criterium, 3., .5)
                if ok:
                    r.check(bool(res) == all(a < 1. for a in answers), '%d vehicles at distances %s with tolerance 1: stop criterium says %s' % (n, answers, res))
                r.state()
                r.outcome(n, free, answers)
            if free:
                # with enough time left nothing but arrival stops the motion
                for T in (.6, 1., 30.):
                    prob.father.set_variables(T, prob, 'T')
                    for v in vs:
                        v.signals = dict(state=np.array([[4.], [2.]]), input=np.zeros((2, 1)), pose=np.array([[4.], [2.], [0.]]))
                    r.check(not prob.stop_criterium(3., .5), 'motion of %s s left and 3 m to go: stopped' % T)
            r.trace()


def run_case(r, case):
    no_solver()
    {'plan': run_plan, 'pair': run_pair, 'arrival': run_arrival, 'fleet': run_fleet}[case['kind']](r, case)
