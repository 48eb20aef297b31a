"""C16: a fleet keeps its formation definition consistent for every vehicle.
All fleet sizes x interconnections x configuration formats x orientations on the real Fleet (neighbourhood, relative
configurations), and the formation / rendez-vous constraints which the real (central and distributed) problems derive from
them: for every fleet, all single deviations (vehicle x component x coefficient x size) from a formation and all common
motions, decided by the real constraints and by the definition."""
import itertools
import warnings
import numpy as np
from casadi import Function, vertcat, DM, symvar, MX
import omgtools as og
from omgtools.vehicles.fleet import Fleet, get_fleet_vehicles
from omgtools.vehicles.holonomic1d import Holonomic1D
from mc.core import repo_call
from mc.p2p import no_solver

BOUNDS = dict(quick='fleets of 1..6 vehicles x 2 interconnections x 9 configuration formats x 5 orientations; problems: 4 kinds x fleets of 2..5 x 4 vehicle kinds, all single deviations',
              thorough='fleets of 1..9, problems with up to 7 vehicles')
ASSUMPTIONS = ['the sense of the rotation of a configuration is not judged, only that it is a rotation by the given angle which is the same for all vehicles',
               'Dubins vehicles (configuration in their own frame, relaxed by 1e-2) are not judged']

FORMATS = ['list2', 'list1', 'list3', 'dict01', 'dict10', 'dict1', 'dict02', 'dict3', 'mixed', 'npfloat']


def conf(fmt, N, k=0):
    """configuration of N vehicles and the model {index: value} of each"""
    xs = [[round(.7 * np.cos(1 + 2.3 * i + k) + .1 * i, 3), round(.5 * np.sin(.4 + 1.9 * i + k) - .05 * i, 3), round(.3 * np.cos(3.1 * i), 3)] for i in range(N)]
    if fmt == 'list2':
        return [x[:2] for x in xs], [dict(enumerate(x[:2])) for x in xs]
    if fmt == 'npfloat':
        a = np.array([x[:2] for x in xs])
        return [list(x) for x in a], [dict(enumerate(x[:2])) for x in xs]
    if fmt == 'list1':
        return [x[:1] for x in xs], [{0: x[0]} for x in xs]
    if fmt == 'list3':
        return [list(x) for x in xs], [dict(enumerate(x)) for x in xs]
    if fmt == 'dict01':
        return [{0: x[0], 1: x[1]} for x in xs], [{0: x[0], 1: x[1]} for x in xs]
    if fmt == 'dict10':
        return [{1: x[1], 0: x[0]} for x in xs], [{0: x[0], 1: x[1]} for x in xs]
    if fmt == 'dict1':
        return [{1: x[1]} for x in xs], [{1: x[1]} for x in xs]
    if fmt == 'dict02':
        return [{2: x[2], 0: x[0]} for x in xs], [{0: x[0], 2: x[2]} for x in xs]
    if fmt == 'dict3':
        return [{2: x[2], 0: x[0], 1: x[1]} for x in xs], [dict(enumerate(x)) for x in xs]
    if fmt == 'mixed':
        return [{1: x[1]} if i % 2 else x[:1] for i, x in enumerate(xs)], [{1: x[1]} if i % 2 else {0: x[0]} for i, x in enumerate(xs)]


PROB = [('central', 'hard'), ('central', 'soft'), ('central', 'softmax'), ('admm', ''), ('dd', ''), ('rendezvous', '')]
VEH = {'holonomic': ['list2', 'dict10', 'dict1', 'mixed', 'list1'], 'holonomic3d': ['list3', 'list2', 'dict02'], 'quadrotor': ['list2', 'dict1'], 'holonomic1d': ['list1'], 'landing': ['list1']}


def cases(tier):
    for N in range(1, 7 if tier == 'quick' else 10):
        for ic in ('circular', 'full'):
            yield dict(kind='fleet', N=N, ic=ic, tier=tier)
    for p in PROB:
        for v in sorted(VEH):
            for f in VEH[v]:
                for N in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6, 7):
                    for ic in ('circular', 'full'):
                        if tier == 'quick' and N > 3 and (v != 'holonomic' or f != 'list2'):
                            continue
                        if v == 'quadrotor' and p[0] in ('admm', 'dd') and N > 3:
                            continue
                        if v == 'landing' and p[0] != 'rendezvous':
                            continue
                        yield dict(kind='prob', prob=p, veh=v, fmt=f, N=N, ic=ic, tier=tier)


def vehicle(v, i):
    kw = dict(shapes=og.Circle(.1))
    if v == 'landing':
        v = 'holonomic1d' if i == 0 else 'quadrotor'
    if v == 'holonomic':
        o = og.Holonomic(**kw)
    elif v == 'holonomic3d':
        o = og.Holonomic3D(shapes=og.Sphere(.1))
    elif v == 'quadrotor':
        o = og.Quadrotor(radius=.1)
    else:
        o = Holonomic1D(width=.3, height=.2) if False else Holonomic1D()
    o.define_knots(knot_intervals=5)
    n = {'holonomic': 2, 'holonomic3d': 3, 'quadrotor': 2, 'holonomic1d': 1}[v]
    o.set_initial_conditions([.1 * i] * n)
    o.set_terminal_conditions([1. + .1 * i] * n)
    return o


def expected_nghb(N, ic, i):
    if ic == 'full':
        return set(range(N)) - {i}
    return {(i + 1) % N, (i - 1) % N} - {i}


def fleet_case(r, case):
    N, ic = case['N'], case['ic']
    vs = [og.Holonomic(shapes=og.Circle(.1)) for _ in range(N)]
    what = '%d vehicles, %s' % (N, ic)
    ok, F = repo_call(r, what, Fleet, list(vs), interconnection=ic)
    if not ok:
        return
    idx = dict((v, i) for i, v in enumerate(vs))

    def nghb():
        for i, v in enumerate(vs):
            n = [idx.get(x) for x in F.get_neighbors(v)]
            if not r.check(len(n) == len(set(n)) and set(n) == expected_nghb(N, ic, i), lambda: '%s: vehicle %d has neighbours %s instead of %s' % (what, i, n, sorted(expected_nghb(N, ic, i)))):
                return False
        return True
    if not nghb():
        return
    f2, v2 = get_fleet_vehicles(F)
    r.check(f2 is F and list(v2) == vs, '%s: get_fleet_vehicles' % what)
    f3, v3 = get_fleet_vehicles(list(vs))
    r.check([x for x in v3] == vs and [x for x in f3.vehicles] == vs, '%s: get_fleet_vehicles of a list' % what)
    for fmt in FORMATS:
        for o in (0., .4, -1.3, np.pi / 2, np.pi):
            for again in (0, 1):
                c, M = conf(fmt, N, again)
                before = repr(c)
                w = '%s, configuration %s, orientation %s' % (what, fmt, o)
                ok, _ = repo_call(r, w, F.set_configuration, c, **(dict(orientation=o) if o else {}))
                if not ok:
                    return
                r.check(repr(c) == before, lambda: '%s: the configuration of the user was altered' % w)
                got = []
                for i, v in enumerate(vs):
                    g = dict(F.configuration[v])
                    if not r.check(sorted(g) == sorted(M[i]), lambda: '%s: vehicle %d is configured in states %s instead of %s' % (w, i, sorted(g), sorted(M[i]))):
                        return
                    got.append([float(g[k]) for k in sorted(g)])
                    r.check(np.allclose([float(x) for x in v.rel_pos_c], -np.array(got[-1])), lambda: '%s: vehicle %d sees the centre at %s, its configuration is %s' % (w, i, v.rel_pos_c, got[-1]))
                exp = [[m[k] for k in sorted(m)] for m in M]
                good = np.allclose(got, exp)
                if o and fmt in ('list2', 'npfloat'):
                    good = False
                    for s in (1, -1):
                        R = np.array([[np.cos(s * o), -np.sin(s * o)], [np.sin(s * o), np.cos(s * o)]])
                        good = good or np.allclose(got, [R.dot(e) for e in exp])
                elif o and fmt in ('dict01', 'dict10'):
                    for s in (1, -1):
                        R = np.array([[np.cos(s * o), -np.sin(s * o)], [np.sin(s * o), np.cos(s * o)]])
                        good = good or np.allclose(got, [R.dot(e) for e in exp])
                elif o and fmt in ('list3', 'dict3'):
                    for s in (1, -1):
                        R = np.array([[np.cos(s * o), -np.sin(s * o), 0], [np.sin(s * o), np.cos(s * o), 0], [0, 0, 1]])
                        good = good or np.allclose(got, [R.dot(e) for e in exp])
                if not r.check(good, lambda: '%s: configuration %s instead of %s (rotated)' % (w, np.round(got, 4).tolist(), exp)):
                    return
                for i, v in enumerate(vs):
                    rc = F.get_rel_config(v)
                    ks = sorted(idx.get(x, -1) for x in rc)
                    if not r.check(ks == sorted(expected_nghb(N, ic, i)), lambda: '%s: relative configuration of vehicle %d with %s' % (w, i, ks)):
                        return
                    for x, d in rc.items():
                        j = idx[x]
                        d = np.ravel(d)
                        e = F.get_rel_config(x)
                        if not r.check(d.shape == (len(got[i]),) and np.allclose(d, np.array(got[i]) - got[j]) and v in e and np.allclose(np.ravel(e[v]), -d),
                                       lambda: '%s: relative configuration of %d and %d: %s, seen from the other side %s, configured %s' % (w, i, j, d, e.get(v), np.array(got[i]) - got[j])):
                            return
                r.state()
                r.outcome(N, ic, fmt, o, again)
    bad = conf('list2', N + 1)[0]
    try:
        F.set_configuration(bad)
        r.fail('%s: configuration of %d vehicles accepted' % (what, N + 1))
    except ValueError:
        r.step()
    nghb()
    r.trace()



def prob_case(r, case):
    no_solver()
    kind, opt = case['prob']
    N, ic, veh, fmt = case['N'], case['ic'], case['veh'], case['fmt']
    vs = [vehicle(veh, i) for i in range(N)]
    F = Fleet(list(vs), interconnection=ic)
    c, M = conf(fmt, N)
    ok, _ = repo_call(r, 'configuration', F.set_configuration, c)
    if not ok:
        return
    if veh in ('holonomic3d',):
        env = og.Environment(room={'shape': og.Cube(20.)})
    else:
        env = og.Environment(room={'shape': og.Square(20.)})
    o = dict(verbose=0, horizon_time=4., rho=2.)
    what = '%s %s, %d %s, %s, configuration %s' % (kind, opt, N, veh, ic, fmt)
    if kind == 'central':
        from omgtools.problems.formation_central import FormationPoint2pointCentral as P
        o.pop('rho')
        if opt != 'hard':
            o.update(soft_formation=True, soft_formation_weight=7.)
        if opt == 'softmax':
            o.update(max_formation_deviation=.5)
        o['inter_vehicle_avoidance'] = False
    elif kind == 'admm':
        P = og.FormationPoint2point
    elif kind == 'dd':
        from omgtools.problems.formation_dualdec import FormationPoint2pointDualDecomposition as P
    else:
        P = og.RendezVous
    ok, prob = repo_call(r, what, P, F, env, options=o)
    if not ok:
        return
    ok, _ = repo_call(r, what + ': init', prob.init)
    if not ok:
        return
    comp = [sorted(m) for m in M]
    ncomp = len(comp[0])
    if kind == 'central':
        central(r, case, what, prob, vs, M, comp, env, opt)
    else:
        distributed(r, case, what, prob, vs, M, comp, kind)
    r.trace()


def deviations(N, ncomp, L):
    """common motion, then every single deviation"""
    yield None
    for i in range(N):
        for q in range(ncomp):
            for l in sorted(set((0, L // 2, L - 1))):
                for d in (.3, -.02):
                    yield i, q, l, d
            yield i, q, None, .25


def plan(i, M, comp, nspl, L, dev):
    """coefficients of the plan of vehicle i: common curve + its configuration (+ deviation)"""
    g = np.arange(L)
    X = np.array([[np.sin(.7 * l + 2 * k) * .8 for l in g] for k in range(nspl)])
    for q, k in enumerate(comp[i]):
        common = np.sin(.9 * g + 1.3 * q) * .6
        common[-6:] = common[-1]
        X[k] = common + M[i][k]
        if dev is not None and dev[0] == i and dev[1] == q:
            if dev[2] is None:
                X[k] += dev[3]
            else:
                X[k, dev[2]] += dev[3]
    return X.T


def central(r, case, what, prob, vs, M, comp, env, opt):
    ff = prob.father
    pd = ff.problem_description
    N, ncomp = len(vs), len(comp[0])
    names = [prob._add_label(n) for n in prob._constraints]
    # constraints of the problem on the plans that do not concern initial / terminal conditions: those that tie two vehicles
    x0 = ff._var_struct(0.)
    own = np.full(x0.cat.numel(), -1)
    epsn = {}
    for i, v in enumerate(vs):
        z = ff._var_struct(0.)
        z[v.label, 'splines_seg0'] = np.ones(v._variables['splines_seg0'].shape)
        own[np.where(np.array(DM(z.cat)).ravel())[0]] = i
    for n, s in prob._variables.items():
        z = ff._var_struct(0.)
        z[prob.label, n] = np.ones(s.shape)
        epsn[n] = np.where(np.array(DM(z.cat)).ravel())[0]
    con = vertcat(*[pd['con'][n] for n in names])
    lb = np.concatenate([np.array(DM(ff._lb[n]), float).ravel() for n in names])
    ub = np.concatenate([np.array(DM(ff._ub[n]), float).ravel() for n in names])
    f = Function('c', [pd['var'], pd['par']], [con])
    sp = f.sparsity_jac(0, 0) if hasattr(f, 'sparsity_jac') else f.jac_sparsity(0, 0)
    rr, cc = sp.get_triplet()
    J = np.zeros(sp.shape, bool)
    J[rr, cc] = True
    nown = np.array([len(set(own[row]) - {-1}) for row in J])
    eps = [n for n, ix in epsn.items() if any((J[row][ix]).any() for row in np.where(nown > 1)[0])]
    rows = nown > 1
    for n in eps:
        rows |= J[:, epsn[n]].any(axis=1)
    if not r.check(rows.any(), lambda: '%s: no constraint ties the vehicles together' % what):
        return
    prob.initialize(0.)
    ok, p = repo_call(r, what + ': parameters', ff.set_parameters, 0.)
    if not ok:
        return
    fobj = Function('o', [pd['var'], pd['par']], [pd['obj']])

    def at(dev, e=None):
        x = ff._var_struct(0.)
        for i, v in enumerate(vs):
            x[v.label, 'splines_seg0'] = plan(i, M, comp, v.n_spl, len(v.basis), dev)
        x = np.array(DM(x.cat)).ravel()
        if e is not None:
            for n in eps:
                x[epsn[n]] = e[n] if isinstance(e, dict) else e
        return x

    def accepted(x):
        g = np.array(f(DM(x), DM(p.cat))).ravel()
        return bool(((g <= ub + 1e-9) & (g >= lb - 1e-9))[rows].all())
    L = len(vs[0].basis)
    if opt == 'hard':
        r.check(not eps, lambda: '%s: the formation can be softened by %s' % (what, eps))
        for dev in deviations(N, ncomp, L):
            exp = dev is None
            if not r.check(accepted(at(dev)) == exp, lambda: '%s: a formation with deviation %s (vehicle, component, coefficient, size) is %s' % (what, dev, 'rejected' if exp else 'accepted')):
                return
            r.state()
            r.outcome(what, dev)
        return
    base = float(fobj(DM(at(None, 0.)), DM(p.cat)))
    r.check(accepted(at(None, 0.)), lambda: '%s: the exact formation needs softening' % what)
    for dev in deviations(N, ncomp, L):
        if dev is None:
            continue
        a = abs(dev[3])
        if not r.check(not accepted(at(dev, 0.)), lambda: '%s: deviation %s costs no softening' % (what, dev)):
            return
        if not r.check(accepted(at(dev, a)), lambda: '%s: deviation %s is not covered by a softening of %s' % (what, dev, a)):
            return
        # only what concerns this vehicle needs softening: every softening variable alone
        need = []
        for n in eps:
            e = dict((m, 0. if m == n else a) for m in eps)
            if not accepted(at(dev, e)):
                need.append(n)
        i, q = dev[0], dev[1]
        e = dict((m, a if m in need else 0.) for m in eps)
        if not r.check(need and accepted(at(dev, e)), lambda: '%s: deviation %s cannot be covered by the softenings %s that it needs' % (what, dev, need)):
            return
        # each relation has its own softening: a relation between two vehicles that keep their place needs none
        cost = float(fobj(DM(at(dev, e)), DM(p.cat))) - float(fobj(DM(at(dev, 0.)), DM(p.cat)))
        nrel = len(need)
        if not r.check(abs(cost - 7. * a * nrel) < 1e-6 * (1 + cost), lambda: '%s: covering deviation %s with %d softenings costs %.5g instead of %.5g' % (what, dev, nrel, cost, 7. * a * nrel)):
            return
        other = [n for n in eps if n not in need]
        tied = set()
        for n in need:
            for row in np.where(J[:, epsn[n]].any(axis=1))[0]:
                tied |= set(own[J[row]]) - {-1}
        # vehicles in relations needed by this deviation: the vehicle and direct partners only
        rel = sum(1 for n in need)
        for n in need:
            t = set()
            for row in np.where(J[:, epsn[n]].any(axis=1))[0]:
                t |= set(own[J[row]]) - {-1}
            if not r.check(i in t and len(t) == 2, lambda: '%s: the softening %s is shared by the vehicles %s' % (what, n, sorted(t))):
                return
        r.state()
        r.outcome(what, dev, len(need))
    if opt == 'softmax':
        for d, exp in ((.45, True), (.55, False), (-.45, True), (-.55, False)):
            got = accepted(at((0, 0, None, d), abs(d)))
            if not r.check(got == exp, lambda: '%s: deviation %s with a maximum of 0.5 is %s' % (what, d, 'accepted' if got else 'rejected')):
                return


def distributed(r, case, what, prob, vs, M, comp, kind):
    N, ncomp = len(vs), len(comp[0])
    kids = list(vs) + list(prob.problems)
    con = list(prob._constraints.values())
    expr = vertcat(*[c[0] for c in con])
    lb = np.concatenate([np.array(DM(c[1]), float).ravel() * np.ones(c[0].numel()) for c in con])
    ub = np.concatenate([np.array(DM(c[2]), float).ravel() * np.ones(c[0].numel()) for c in con])
    sd = {}
    for ch in kids:
        sd.update(ch.symbol_dict)
    syms = symvar(expr)
    # substitutes by their definitions
    subs_s, subs_e = [], []
    for s in syms:
        ch, n = sd[s.name()]
        if n in ch._substitutes:
            e, q = ch._substitutes[n]
            subs_s.append(s)
            subs_e.append(e)
    from casadi import substitute
    full = substitute([expr], subs_s, subs_e)[0] if subs_s else expr
    syms = symvar(full)
    f = Function('f', syms, [full])
    ok, par = repo_call(r, what + ': parameters', prob.set_parameters, 0.)
    if not ok:
        return

    def at(dev):
        args = []
        for s in syms:
            ch, n = sd[s.name()]
            if n == 'rel_pos_c':
                args.append(DM(par[ch]['rel_pos_c']))
            elif n == 'splines_seg0':
                i = vs.index(ch)
                args.append(DM(plan(i, M, comp, ch.n_spl, len(ch.basis), dev)))
            elif n == 'conT0':
                i = [k for k, q in enumerate(prob.problems) if q is ch][0]
                m = M[i]
                z = [.4 * q - .2 + m[k] + (dev[3] if dev is not None and dev[0] == i and dev[1] == q else 0.) for q, k in enumerate(comp[i])]
                args.append(DM(z))
            else:
                raise KeyError(n)
        g = np.array(f(*args)).ravel()
        return bool(((g <= ub + 1e-9) & (g >= lb - 1e-9)).all())
    L = len(vs[0].basis)
    for dev in deviations(N, ncomp, L):
        if kind == 'rendezvous' and dev is not None and dev[2] is not None:
            continue
        exp = dev is None
        got = at(dev)
        if not r.check(got == exp, lambda: '%s: a formation with deviation %s (vehicle, component, coefficient, size) is %s' % (what, dev, 'accepted' if got else 'rejected')):
            return
        r.state()
        r.outcome(what, dev)
    # the centre must have come to rest at the end
    if kind != 'rendezvous':
        pass
    if kind == 'rendezvous':
        # arrival: all vehicles at their place of the formation at the same time
        for dev in list(deviations(N, ncomp, L)):
            if dev is not None and dev[2] is not None:
                continue
            for i, v in enumerate(vs):
                X = np.full((v.n_spl, 3), .37)
                for q, k in enumerate(comp[i]):
                    X[k] = .4 * q - .2 + M[i][k] + (dev[3] if dev is not None and dev[0] == i and dev[1] == q else 0.)
                v.trajectories = {'splines': X}
            ok, got = repo_call(r, what + ': arrival', prob.stop_criterium, 0., .1)
            if not ok:
                return
            if not r.check(bool(got) == (dev is None), lambda: '%s: with deviation %s the vehicles are said to %shave met' % (what, dev, '' if got else 'not ')):
                return


def run_case(r, case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[case['kind'] + '_case'](r, case)
