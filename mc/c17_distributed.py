"""C17: distributed iterations exchange exactly what the method prescribes.
The real ADMM / dual decomposition problems are driven through every history of updates up to a depth. The local solvers are
stand-ins whose answers (plans of every vehicle) the explorer chooses. Next to it runs a small model of the method written on
curves of absolute time: what a vehicle knows of a neighbour is what that neighbour last sent, consensus copies are the
closed-form minimiser of the augmented objective on the remaining horizon (average of self and neighbours, at rest at the
end), multipliers add the scaled disagreement, residuals are sums over all vehicles. Every quantity of the real updaters is
compared after every step, every objective handed to a local solver is compared with the term prescribed by the method."""
import itertools, warnings
import numpy as np
from casadi import Function, DM, vertcat
from scipy.interpolate import BSpline as SciSpline
import omgtools as og
from mc.core import repo_call
from mc.p2p import pattern

BOUNDS = dict(quick='3 problems (formation by ADMM and by dual decomposition, rendezvous) x fleets of 2-4 x 2 interconnections x 3 vehicle kinds / configurations x 4 (horizon, knots) pairs x all sequences of 2 (quick) update steps out of 6 x 1 or 2 iterations per update x 2 start times x both processing orders',
              thorough='as quick with sequences of 3 update steps and fleets of up to 5')
ASSUMPTIONS = ['vehicles that share a built problem (option separate_build off) are equal up to start, goal and place in the formation',
               'the momentum of the accelerated variants is not judged, only that agreement is a fixed point of them']

TIMES = [(4., 5), (.7, 7), (10., 10), (4.06, 4)]
VEH = ['holonomic', 'gap', 'quadrotor']


def cases(tier):
    for P in ('admm', 'dd', 'rendezvous'):
        for N, ic in ((2, 'circular'), (3, 'circular'), (4, 'circular'), (4, 'full')) + (((5, 'circular'), (5, 'full')) if tier != 'quick' else ()):
            for veh in VEH:
                if veh == 'quadrotor' and (P == 'rendezvous' or N > 3):
                    continue
                for ti in range(len(TIMES)):
                    if tier == 'quick' and (N > 2 and (ti + N + VEH.index(veh) + 2 * (ic == 'full') + (P == 'dd')) % 4 or veh == 'quadrotor' and ti > 1):
                        continue
                    yield dict(prob=P, N=N, ic=ic, veh=veh, time=ti, tier=tier)


class Dummy(object):
    """a built solver; recognised by identity"""
    def __init__(self, *a, **k):
        pass

    def stats(self):
        return {'return_status': 'Solve_Succeeded'}


def build(case, reverse=False, **opt):
    import omgtools.basics.optilayer as ol
    ol.nlpsol = Dummy
    N = case['N']
    H, ki = TIMES[case['time']]
    vs, conf = [], []
    for i in range(N):
        if case['veh'] == 'gap':
            v = og.Holonomic3D(shapes=og.Sphere(.1))
            comp, n = [0, 2], 3
        elif case['veh'] == 'quadrotor':
            v = og.Quadrotor(radius=.1)
            comp, n = [0, 1], 2
        else:
            v = og.Holonomic(shapes=og.Circle(.1))
            comp, n = [0, 1], 2
        v.define_knots(knot_intervals=ki)
        v.set_initial_conditions([.1 * i + .05 * k for k in range(n)])
        v.set_terminal_conditions([1. + .2 * i - .1 * k for k in range(n)])
        vs.append(v)
        conf.append(dict((c, .3 * np.cos(1.7 * i + c)) for c in comp))
    F = og.Fleet(list(vs), interconnection=case['ic'])
    F.set_configuration(conf)
    env = og.Environment(room={'shape': og.Cube(30.) if case['veh'] == 'gap' else og.Square(30.)})
    if case['prob'] == 'admm':
        P = og.FormationPoint2point
    elif case['prob'] == 'dd':
        from omgtools.problems.formation_dualdec import FormationPoint2pointDualDecomposition as P
    else:
        P = og.RendezVous
    o = dict(verbose=0, horizon_time=H, rho=1.7, init_iter=0)
    o.update(opt)
    prob = P(F, env, options=o)
    prob.init()
    return prob, vs, conf, comp


def restrict(basis, t0):
    """coefficients of the same curve when the first knots move to t0"""
    k, d, n = np.asarray(basis.knots, float), basis.degree, len(basis)
    k2 = k.copy()
    k2[:d + 1] = t0
    s = t0 + (1 - t0) * (.5 - .5 * np.cos(np.pi * (np.arange(8 * n) + .5) / (8 * n)))
    B = lambda kk: np.array([SciSpline(kk, np.eye(n)[i], d, extrapolate=True)(s) for i in range(n)]).T
    M = np.linalg.lstsq(B(k2), B(k), rcond=None)[0]
    return np.where(abs(M) < 1e-11, 0., M)


def shifted(basis):
    """coefficients of the same curve on the horizon that starts one knot interval later"""
    k, d, n = np.asarray(basis.knots, float), basis.degree, len(basis)
    h = k[d + 1]
    s = (1 - h) * (.5 - .5 * np.cos(np.pi * (np.arange(8 * n) + .5) / (8 * n)))
    B = lambda x: np.array([SciSpline(k, np.eye(n)[i], d, extrapolate=True)(x) for i in range(n)]).T
    # the new last span is the continuation of the old last span: all spans together determine the curve
    se = np.r_[s, 1. - h + h * (.5 - .5 * np.cos(np.pi * (np.arange(8) + .5) / 8))]
    return np.linalg.lstsq(B(se), B(se + h), rcond=None)[0]


class Model(object):
    """the method, for vehicles 0..N-1; every quantity is a list (per component) of coefficient vectors"""

    def __init__(self, N, nb, basis, rho, method, spl):
        self.N, self.nb, self.rho, self.method = N, nb, rho, method
        self.basis, self.spl = basis, spl
        self.S = shifted(basis) if spl else None
        self.d = basis.degree

    def shift(self, x):
        return self.S.dot(x)


def vec(u, struct, child, names, nghb=None):
    """components as columns"""
    key = (child.label,) if nghb is None else (str(nghb), child.label)
    return np.array([np.array(DM(struct[key + (n,)])).ravel() for n in names]).T


def run_case(r, case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        H, ki = TIMES[case['time']]
        ok, B = repo_call(r, 'building the problem', build, case)
        if not ok:
            return
        if not structure(r, case, *B):
            return
        depth = 2 if case['tier'] == 'quick' else 3
        knot = H / ki
        steps = [.3 * knot, .5 * knot, knot, 1.5 * knot, 2. * knot, .25 * knot]
        n = 0
        for hist in list(itertools.product(steps, repeat=depth)) + ([(knot,) * 8, (.5 * knot,) * 5, (.1 * knot,) * 3] if depth == 2 else [(knot,) * 12, (.5 * knot,) * 9, (.1 * knot,) * 12]):
            n += 1
            for start in (0., 2.3):
                for per in (1, 2):
                    # half of the combinations (quick: a sixth), another half for the next history
                    k = n + 3 * (start > 0) + per
                    if len(hist) == depth and k % (2 if case['tier'] != 'quick' else 7 if case['N'] == 2 else 17):
                        continue
                    if len(hist) > depth and case['tier'] == 'quick' and k % (2 if case['N'] == 2 else 4):
                        continue
                    if not drive(r, case, B, hist, start, per, bool(n % 2)):
                        return
        agreement(r, case)


def names_of(u):
    kids = list(u.q_i.items())
    assert len(kids) == 1, 'one shared child per vehicle'
    return kids[0][0], list(kids[0][1].keys())


def stub_all(prob, choose):
    """the local solvers answer with choose(updater index, variables)"""
    for i, u in enumerate(prob.updaters):
        class Solver(object):
            def __init__(self, i, u):
                self.i, self.u, self.log = i, u, []

            def __call__(self, x0=None, p=None, lbg=None, ubg=None, **k):
                ff = self.u.father_updx
                var, par = ff._var_struct(DM(getattr(x0, 'cat', x0))), ff._par_struct(DM(getattr(p, 'cat', p)))
                x = ff._var_struct(DM(var.cat))
                choose(self.i, x)
                self.log.append((x, par))
                n = DM(getattr(lbg, 'cat', lbg)).numel()
                return {'x': x.cat, 'lam_g': DM.zeros(n), 'f': DM(0.), 'g': DM.zeros(n)}

            def stats(self):
                return {'return_status': 'Solve_Succeeded'}
        s = Solver(i, u)
        if hasattr(u, 'problem_upd_x'):
            u.problem_upd_x = s
        else:
            u.problem_upd_xz = s
        yield s


def solver_of(u):
    return u.problem_upd_x if hasattr(u, 'problem_upd_x') else u.problem_upd_xz


def objective(u):
    pd = u.father_updx.problem_description
    return Function('f', [pd['var'], pd['par']], [pd['obj']]).expand()


def constraints(u):
    pd = u.father_updx.problem_description
    return Function('g', [pd['var'], pd['par']], [vertcat(pd['con'].cat if hasattr(pd['con'], 'cat') else pd['con'])]).expand()


def rows(g, lb, ub):
    """the set of constraints: the order does not matter, nor the sign of what must be zero"""
    if g.shape != lb.shape:
        return np.zeros((0, 3))
    z = (lb == 0) & (ub == 0)
    o = np.array([np.where(z, abs(g), g), np.clip(lb, -1e9, 1e9), np.clip(ub, -1e9, 1e9)]).T
    o[:, 0] /= 1 + abs(g).max()
    o = np.round(o, 7)
    return o[np.lexsort(o.T)]


def structure(r, case, prob, vs, conf, comp):
    """who exchanges with whom; built problems that are shared serve every vehicle they are used for"""
    N = case['N']
    for i, u in enumerate(prob.updaters):
        want = (set(range(N)) - {i}) if case['ic'] == 'full' else ({(i + 1) % N, (i - 1) % N} - {i})
        for q, w in ((u.q_ij, 'receives from'), (u.q_ji, 'sends to')):
            got = set(prob.updaters.index(x) for x in q)
            if not r.check(got == want, lambda: 'vehicle %d of %d (%s) %s %s instead of %s' % (i, N, case['ic'], w, got, want)):
                return False
    # which updater built the problem that updater i uses
    case_owner = []
    first = {}
    for i, u in enumerate(prob.updaters):
        s = solver_of(u)
        first.setdefault(id(s), u)
        case_owner.append(first[id(s)])
    prob.mc_owner = case_owner
    prob.mc_obj = {}
    for u in case_owner:
        if id(u) not in prob.mc_obj:
            prob.mc_obj[id(u)] = objective(u)
    # reference: everything built separately
    p2, _, _, _ = build(case, separate_build=True)
    for i, (u, o) in enumerate(zip(prob.updaters, case_owner)):
        f1, f2 = prob.mc_obj[id(o)], objective(p2.updaters[i])
        g1, g2 = constraints(o), constraints(p2.updaters[i])
        nx, npar = f1.numel_in(0), f1.numel_in(1)
        if not r.check((f2.numel_in(0), f2.numel_in(1)) == (nx, npar), lambda: 'the problem vehicle %d shares has other dimensions than its own' % i):
            return False
        for k in range(3):
            x = np.sin(np.arange(nx) * (1.3 + .1 * k))
            p = np.cos(np.arange(npar) * (.7 + .2 * k)) + 1.5
            a, b = float(f1(x, p)), float(f2(x, p))
            lb, ub = [np.array(DM(getattr(q, 'cat', q))).ravel() for q in u.father_updx.update_bounds(0.)]
            ga, gb = [rows(np.array(g(x, p)).ravel(), lb, ub) for g in (g1, g2)]
            if not r.check(abs(a - b) < 1e-7 * (1 + abs(b)) and ga.shape == gb.shape and abs(ga - gb).max() < 1e-6,
                           lambda: 'the problem vehicle %d of %d (%s) shares with vehicle %d is not its own: objective %s instead of %s, constraints %s' % (
                               i, N, case['ic'], prob.updaters.index(o), a, b, 'the same' if ga.shape == gb.shape and abs(ga - gb).max() < 1e-6 else 'others')):
                return False
    return True


def drive(r, case, B, hist, start, per, reverse, opt=None, agree=None):
    prob, vs, conf, comp = B
    H, ki = TIMES[case['time']]
    knot = H / ki
    N = case['N']
    method = 'dd' if case['prob'] == 'dd' else 'admm'
    spl = case['prob'] != 'rendezvous'
    prob.options['max_iter_per_update'] = per
    rho = prob.options['rho']
    prob.updaters.sort(key=lambda u: vs.index(u.vehicle), reverse=reverse)
    U = sorted(prob.updaters, key=lambda u: vs.index(u.vehicle))
    what = '%s, %d %s (%s), horizon %s, %d knot intervals, start %s, %d iteration(s) per update%s, steps %s' % (
        case['prob'], N, case['veh'], case['ic'], H, ki, start, per, ', processed backwards' if reverse else '', [round(h, 4) for h in hist])
    basis = vs[0].basis
    nc = len(comp)
    cnt = [0]

    def plan(i, it):
        c = pattern(it * 3 + i, basis, vs[i].n_spl, i)
        if spl:
            c[-basis.degree - 1:] = c[-1]
        return c

    def choose(i, x):
        it = cnt[0]
        if it % 4 == 3:
            return          # the solver keeps its guess
        if agree is not None:
            agree(i, x, it)
            return
        x[vs[i].label, 'splines_seg0'] = plan(i, it)
        if not spl:
            x[prob.problems[i].label, 'conT0'] = [np.sin(2. * it + i + k) for k in range(nc)]
        if method == 'dd':
            n = DM(x[U[i].label, 'z_ij']).numel()
            x[U[i].label, 'z_ij'] = np.sin(np.arange(n) * .7 + it + i)
    stubs = list(stub_all_sorted(U, choose))
    names = [names_of(u) for u in U]
    child = [n[0] for n in names]
    nm = [n[1] for n in names]
    nb = [[U.index(x) for x in u.q_ij] for u in U]

    def D(u):
        return u.var_admm if method == 'admm' else u.var_dd
    # forget the previous history
    for u in U:
        for k in list(D(u)):
            D(u)[k] = type(D(u)[k])(0) if False else {'i': u.q_i_struct, 'j': u.q_ij_struct, 'ij': u.q_ij_struct, 'ji': u.q_ji_struct}[k.split('_')[1]](0)
        for a in ('c_res_p', 'alpha'):
            if hasattr(u, a):
                delattr(u, a)
        u.problem.__dict__.pop('current_time_prev', None)
        u.father_updx.init_variables()
        (u.init_var_admm if method == 'admm' else u.init_var_dd)()
    prob.iteration = 0
    prob.residuals = dict((k, []) for k in prob.residuals)
    ok, _ = repo_call(r, what + ': initialize', prob.initialize, start)
    if not ok:
        return False
    R1 = range(N)
    get = lambda i, k, j=None: vec(U[i], D(U[i])[k], child[i if j is None else j], nm[i if j is None else j], None if j is None else U[j])
    getji = lambda i, k, j: vec(U[i], D(U[i])[k], child[i], nm[i], U[j])
    # --- state of the model
    X = [get(i, 'x_i') for i in R1]
    Z = [{} for _ in R1]
    L = [{} for _ in R1]
    Xj = [{} for _ in R1]
    Zji, Lji = [{} for _ in R1], [{} for _ in R1]
    for i in R1:
        for j in nb[i]:
            Z[i][j], L[i][j], Xj[i][j] = get(i, 'z_ij', j), get(i, 'l_ij', j), get(i, 'x_j', j)
            Lji[i][j] = getji(i, 'l_ji', j)
            if method == 'admm':
                Zji[i][j] = getji(i, 'z_ji', j)
                r.check(abs(Zji[i][j] - X[i]).max() < 1e-9, lambda: what + ': before anything is exchanged a neighbour is not assumed to agree')
        if method == 'admm':
            Z[i][i], L[i][i] = get(i, 'z_i'), get(i, 'l_i')
            r.check(abs(Z[i][i] - X[i]).max() < 1e-9, lambda: what + ': consensus copies do not start from the own guess')
        for q in list(L[i].values()) + list(Lji[i].values()):
            r.check(not q.any(), lambda: what + ': multipliers do not start from zero')
    Zp = [dict((k, v.copy()) for k, v in z.items()) for z in Z]
    S = shifted(basis) if spl else None
    now, m_prev = 0., 0
    log = []
    for s in stubs:
        s.log[:] = []
    for step, dt in enumerate((0.,) + tuple(hist)):
        now += dt
        # observe every iteration: the explorer steps the iterations one by one
        m = int(np.floor(now / knot + 1e-6))
        for it in range(per):
            tag = '%s: update %d at %.4f, iteration %d' % (what, step, now, it)
            if it == 0:
                obs = Observer(prob, U, method)
                ok, _ = repo_call(r, tag, obs.solve, start + now, dt)
                if not ok:
                    return False
                if not r.check(len(obs.log) == per, lambda: '%s: %d iterations instead of %d' % (tag, len(obs.log), per)):
                    return False
            o = obs.log[it]
            # 1. knots that were passed
            if it == 0 and spl:
                for _ in range(m - m_prev):
                    for A in (Z, L, Xj, Zp, Zji, Lji):
                        for i in R1:
                            for k in A[i]:
                                A[i][k] = S.dot(A[i][k])
            m_prev = m
            t0 = round(now - m * knot, 6) / H if spl else 0.
            M = restrict(basis, t0) if spl else np.eye(X[0].shape[0])
            # 2. what the local solvers were asked
            for i in R1:
                x, par = stubs[i].log[len(stubs[i].log) - per + it]
                own = prob.mc_owner[i]
                f = prob.mc_obj[id(own)]
                p0 = U[i].father_updx._par_struct(DM(par.cat))
                for q in U[i]._parameters:
                    if q != 'rel_pos_c':
                        p0[U[i].label, q] = 0.
                got = float(f(x.cat, par.cat)) - float(f(x.cat, p0.cat))
                cen = centre(x, vs[i], conf[i], comp) if spl else centre_end(x, prob.problems[i], vs[i], conf[i], comp)
                want = 0.
                xt = M.dot(cen)
                if method == 'admm':
                    for z, l in [(Z[i][i], L[i][i])] + [(Zji[i][j], Lji[i][j]) for j in nb[i]]:
                        e = xt - M.dot(z)
                        want += (M.dot(l) * e).sum() + (0. if prob.options.get('AMA') else .5 * rho * (e ** 2).sum())
                else:
                    zz = U[i].q_ij_struct(x[U[i].label, 'z_ij'])
                    for j in nb[i]:
                        want += (M.dot(Lji[i][j]) * xt).sum()
                        want -= (M.dot(L[i][j]) * M.dot(vec(U[i], zz, child[j], nm[j], U[j]))).sum()
                if not r.check(abs(got - want) < 1e-5 * (1 + abs(want)), lambda: '%s: the exchange adds %.8g to the objective of vehicle %d instead of %.8g' % (tag, got, i, want)):
                    return False
                X[i] = cen
                if not same(r, tag, 'own shared trajectory of vehicle %d' % i, o['x_i'][i], X[i]):
                    return False
                if method == 'dd':
                    for j in nb[i]:
                        Z[i][j] = vec(U[i], zz, child[j], nm[j], U[j])
            # 3. messages, 4. consensus, multipliers, residuals
            pr = dr = 0.
            newZ, newL = [{} for _ in R1], [{} for _ in R1]
            for i in R1:
                for j in nb[i]:
                    Xj[i][j] = X[j]
                pts = dict((j, Xj[i][j]) for j in nb[i])
                if method == 'admm':
                    pts[i] = X[i]
                    w = sum(M.dot(pts[k] + L[i][k] / rho) for k in pts) / len(pts)
                    if spl:
                        d = basis.degree
                        w[-d - 1:] = w[-d - 1:].mean(axis=0)
                    zz = np.linalg.solve(M, w)
                    newZ[i] = dict((k, zz) for k in pts)
                else:
                    newZ[i] = Z[i]
                newL[i] = dict((k, L[i][k] + rho * (pts[k] - newZ[i][k])) for k in pts)
                pr_i = sum((M.dot(pts[k] - newZ[i][k]) ** 2).sum() for k in pts)
                dr_i = rho * sum((M.dot(newZ[i][k] - Z[i][k]) ** 2).sum() for k in pts) if method == 'admm' else 0.
                pr, dr = pr + pr_i, dr + dr_i
            Zp, Z, L = Z, newZ, newL
            for i in R1:
                for k in Z[i]:
                    z = o['z_i'][i] if k == i else o['z_ij'][i][k]
                    l = o['l_i'][i] if k == i else o['l_ij'][i][k]
                    if opt is None and not (same(r, tag, 'copy of vehicle %d for vehicle %d' % (i, k), z, Z[i][k]) and same(r, tag, 'multiplier of vehicle %d for vehicle %d' % (i, k), l, L[i][k])):
                        return False
                for j in nb[i]:
                    if not same(r, tag, 'what vehicle %d knows about vehicle %d' % (i, j), o['x_j'][i][j], X[j]):
                        return False
                    Lji[i][j] = L[j][i]
                    if opt is None and not same(r, tag, 'multiplier vehicle %d receives from vehicle %d' % (i, j), o['l_ji'][i][j], L[j][i]):
                        return False
                    if method == 'admm':
                        Zji[i][j] = Z[j][i]
                        if opt is None and not same(r, tag, 'copy vehicle %d receives from vehicle %d' % (i, j), o['z_ji'][i][j], Z[j][i]):
                            return False
            want = dict(primal=np.sqrt(pr), dual=np.sqrt(dr), combined=rho * pr + dr)
            for k in prob.residuals:
                got = float(o['res'][k])
                if not r.check(abs(got - want[k]) < 1e-5 * (1 + want[k]), lambda: '%s: %s residual %.8g instead of %.8g' % (tag, k, got, want[k])):
                    return False
            cnt[0] += 1
            r.state()
        r.outcome(what, step)
    r.trace()
    return True


def same(r, tag, name, got, want):
    ok = got.shape == want.shape and abs(got - want).max() < 2e-5 * (1 + abs(want).max())
    return r.check(ok, lambda: '%s: %s is %s instead of %s' % (tag, name, np.round(got, 5).tolist(), np.round(want, 5).tolist()))


def centre(x, v, conf, comp):
    c = np.array(DM(x[v.label, 'splines_seg0']))
    return np.array([c[:, k] - conf[k] * REL for k in comp]).T


def centre_end(x, p, v, conf, comp):
    c = np.array(DM(x[p.label, 'conT0'])).ravel()
    return np.array([c[q] - conf[k] * REL for q, k in enumerate(comp)])[:, None]


REL = 1.


def stub_all_sorted(U, choose):
    class P(object):
        updaters = U
    return stub_all(P, choose)


class Observer(object):
    """records the state of every updater after every iteration"""

    def __init__(self, prob, U, method):
        self.prob, self.U, self.method, self.log = prob, U, method, []

    def snap(self):
        U, m = self.U, self.method
        out = {}
        N = range(len(U))
        D = [u.var_admm if m == 'admm' else u.var_dd for u in U]
        kid = [names_of(u) for u in U]
        for k in ('x_i', 'z_i', 'l_i'):
            if k in D[0]:
                out[k] = [vec(U[i], D[i][k], kid[i][0], kid[i][1]) for i in N]
        for k in ('x_j', 'z_ij', 'l_ij'):
            out[k] = [dict((U.index(n), vec(U[i], D[i][k], kid[U.index(n)][0], kid[U.index(n)][1], n)) for n in U[i].q_ij) for i in N]
        for k in ('z_ji', 'l_ji'):
            if k in D[0]:
                out[k] = [dict((U.index(n), vec(U[i], D[i][k], kid[i][0], kid[i][1], n)) for n in U[i].q_ji) for i in N]
        out['res'] = dict((k, v[-1]) for k, v in self.prob.residuals.items())
        self.log.append(out)

    def solve(self, t, dt):
        real = self.prob.dual_update

        def dual_update(*a, **k):
            x = real(*a, **k)
            self.snap()
            return x
        self.prob.dual_update = dual_update
        try:
            self.prob.solve(t, dt)
        finally:
            del self.prob.dual_update


def agreement(r, case):
    """vehicles that agree stay in agreement whatever variant of the method is used"""
    if case['prob'] != 'admm' or case['veh'] != 'holonomic' or case['time'] > 1:
        return
    H, ki = TIMES[case['time']]
    for opt in (dict(nesterov_acceleration=True), dict(nesterov_acceleration=True, nesterov_reset=True), dict(AMA=True), dict(nesterov_acceleration=True, AMA=True)):
        ok, B = repo_call(r, 'building the problem with options %s' % opt, build, case, **opt)
        if not ok:
            return
        prob, vs, conf, comp = B
        basis = vs[0].basis
        n = len(basis)
        c = np.sin(.8 * np.arange(n))[:, None] * np.array([[1., -.6]])
        c[-basis.degree - 1:] = c[-1]
        knot = H / ki
        for dt in (.3 * knot, knot):
            what = '%d vehicles (%s) that agree, options %s, steps of %.3g' % (case['N'], case['ic'], opt, dt)
            state = dict(m=0)

            def choose(i, x):
                x[vs[i].label, 'splines_seg0'] = state['c'] + np.array([conf[i][k] for k in comp])
            stubs = list(stub_all(prob, choose))
            for u in prob.updaters:
                for k in list(u.var_admm):
                    u.var_admm[k] = {'i': u.q_i_struct, 'j': u.q_ij_struct, 'ij': u.q_ij_struct, 'ji': u.q_ji_struct}[k.split('_')[1]](0)
                u.__dict__.pop('c_res_p', None)
                u.__dict__.pop('alpha', None)
                u.problem.__dict__.pop('current_time_prev', None)
            prob.iteration = 0
            prob.residuals = dict((k, []) for k in prob.residuals)
            prob.initialize(0.)
            S = shifted(basis)
            cur, m0 = c, 0
            for k in range(9):
                m = int(np.floor(k * dt / knot + 1e-6))
                for _ in range(m - m0):
                    cur = S.dot(cur)
                m0 = m
                state['c'] = cur
                ok, _ = repo_call(r, what, prob.solve, k * dt, dt)
                if not ok:
                    return
                R = dict((q, float(v[-1])) for q, v in prob.residuals.items())
                if not r.check(R['primal'] < 1e-4 and (k == 0 or R['dual'] < 1e-4), lambda: '%s: residuals after iteration %d: %s' % (what, k + 1, R)):
                    return
                for i, u in enumerate(prob.updaters):
                    kid, nm = names_of(u)
                    z, l = vec(u, u.var_admm['z_i'], kid, nm), vec(u, u.var_admm['l_i'], kid, nm)
                    if not (same(r, what + ', iteration %d' % (k + 1), 'copy of vehicle %d' % i, z, cur) and same(r, what + ', iteration %d' % (k + 1), 'multiplier of vehicle %d' % i, l, 0 * cur)):
                        return
                r.state()
            r.trace()
