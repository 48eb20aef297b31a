"""C04: every combination of declarations over 1-3 modelled objects, assembled by the real optimisation layer;
the assembled problem is evaluated and compared entry by entry with the declared expressions."""
import itertools
import numpy as np
from casadi import MX, Function, inf, DM, vertcat
from mc.core import repo_call
from omgtools.basics.optilayer import OptiFather, OptiChild
from omgtools.basics.spline import BSpline, BSplineBasis

ASSUMPTIONS = ['the assembled problem description (variables, parameters, objective, constraints, bounds) is what is passed to the NLP solver']
BOUNDS = dict(quick='3 objects; every subset of 7 declaration kinds for one object x 4 companions; all label sequences of length 3; segments 0..11',
              thorough='every subset of 9 declaration kinds for two of three objects; all label sequences of length 4')
NOPROB = object()


def cases(tier):
    cs = []
    feats = range(8)
    subs = [s for k in range(0, 9) for s in itertools.combinations(feats, k)]
    comps = [(), (0, 4), (1, 2, 5), (0, 1, 2, 3, 4, 5, 6, 7)]
    if tier != 'quick':
        comps = [s for s in subs if len(s) <= 3] + [tuple(feats)]
    for sub in subs:
        cs.append(dict(kind='assemble', sub=sub, comps=comps, tier=tier))
    cs.append(dict(kind='labels', n=3 if tier == 'quick' else 4))
    cs.append(dict(kind='segments'))
    cs.append(dict(kind='bounds'))
    cs.append(dict(kind='errors'))
    return cs

CHUNK = 8


B2 = BSplineBasis(np.r_[0., 0, 0, .5, 1, 1, 1], 2)
B3 = BSplineBasis(np.r_[0., 0, 0, 0, .25, .5, .75, 1, 1, 1, 1], 3)
B1 = BSplineBasis(np.r_[0., 0, 1, 1], 1)
VAL = iter(())


class Child(OptiChild):
    """records what it declares; `ref` = list of (fun(values) -> list of rows, lb, ub)"""

    def __init__(self, label):
        super(Child, self).__init__(label)
        self.basis = B2
        self.cons, self.objs, self.dv, self.dp = [], [], {}, {}
        self.pset = {}

    def set_parameters(self, time):
        return {self: dict((k, v * (1 + time)) for k, v in self.pset.items())}


class Vals(object):
    """numbers for every declared quantity; V[child.label][name]"""


def declare(ch, feats, k):
    """declare features; returns reference description"""
    D = dict(var={}, par={}, con=[], obj=[])
    x = p = None
    spl = None
    if 0 in feats:      # scalar variable, constrained to a range
        x = ch.define_variable('x', value=0.5 + k)
        D['var']['x'] = (1, 1, np.array([[0.5 + k]]))
        ch.define_constraint(2 * x - 1, -1., 3. + k)
        D['con'].append((lambda v: 2 * v['x'] - 1, [-1.], [3. + k]))
    if 1 in feats:      # matrix parameter with a default value
        p = ch.define_parameter('p', 2, 3, value=np.arange(6).reshape(2, 3) + k)
        D['par']['p'] = (2, 3, np.arange(6.).reshape(2, 3) + k)
    if 2 in feats:      # spline variable with two components
        spl = ch.define_spline_variable('splines_seg0', 2, value=np.arange(8).reshape(4, 2) * 0.1 + k)
        D['var']['splines_seg0'] = (4, 2, np.arange(8).reshape(4, 2) * 0.1 + k)
        ch.define_constraint(spl[0] - 2 * spl[1] + 1, -inf, 4., name='lim')
        D['con'].append((lambda v: v['splines_seg0'][:, 0] - 2 * v['splines_seg0'][:, 1] + 1, [-inf] * 4, [4.] * 4))
        ch.define_constraint(spl[1], 0., inf, skip=[1, 0])
        D['con'].append((lambda v: v['splines_seg0'][1:, 1], [0.] * 3, [inf] * 3))
        ch.define_constraint(spl[1], 0., inf, skip=[0, 1])
        D['con'].append((lambda v: v['splines_seg0'][:-1, 1], [0.] * 3, [inf] * 3))
        ch.define_constraint(spl[0], -1., 1., skip=[1, 2])
        D['con'].append((lambda v: v['splines_seg0'][1:-2, 0], [-1.], [1.]))
        ch.define_constraint(spl[0].derivative(1)(0.5) if False else spl[0](0.), 7., 7.)
        D['con'].append((lambda v: v['splines_seg0'][:1, 0], [7.], [7.]))
    if 3 in feats:      # parameter whose value is provided each time
        q = ch.define_parameter('q', 2)
        D['par']['q'] = (2, 1, None)
        ch.pset['q'] = np.array([1., 2.]) + k
        ch.define_constraint(q + 3, np.array([-5., -6.]), np.array([8., inf]))
        D['con'].append((lambda v: v['q'][:, 0] + 3, [-5., -6.], [8., inf]))
    if 4 in feats:      # symbol defined by another object (the host)
        t = ch.define_symbol('t')
        T = ch.define_symbol('T')
        if x is not None:
            ch.define_constraint(x * t - T, 0., 0.)
            D['con'].append((lambda v: v['x'] * v['HOST']['t'] - v['HOST']['T'], [0.], [0.]))
        ch.define_objective(t * T + k)
        D['obj'].append(lambda v: float(v['HOST']['t'] * v['HOST']['T']) + k)
    if 5 in feats:      # spline parameter and spline of other basis
        w = ch.define_spline_parameter('w', 1, basis=B3)[0]
        D['par']['w'] = (7, 1, np.zeros((7, 1)))
        y = ch.define_spline_variable('y', 1, basis=B3)[0]
        D['var']['y'] = (7, 1, np.zeros((7, 1)))
        ch.define_constraint(3 * y - w, -inf, 0.)
        D['con'].append((lambda v: (3 * v['y'] - v['w'])[:, 0], [-inf] * 7, [0.] * 7))
    if 6 in feats:      # several splines at once (indexed names), matrix variable
        z = ch.define_spline_variable('z', 1, 3, basis=B1)
        for i in range(3):
            D['var']['z%d' % i] = (2, 1, np.zeros((2, 1)))
        m = ch.define_variable('m', 2, 2)
        D['var']['m'] = (2, 2, np.zeros((2, 2)))
        ch.define_constraint(z[0][0] + 2 * z[1][0] - 5 * z[2][0], -2., 9.)
        D['con'].append((lambda v: (v['z0'] + 2 * v['z1'] - 5 * v['z2'])[:, 0], [-2.] * 2, [9.] * 2))
        ch.define_constraint(m[0, 1] - 2 * m[1, 0], -4., 4.)
        D['con'].append((lambda v: [v['m'][0, 1] - 2 * v['m'][1, 0]], [-4.], [4.]))
        ch.define_objective(m[1, 1] ** 2)
        D['obj'].append(lambda v: v['m'][1, 1] ** 2)
        ch.define_constraint(0., -1., 1.)      # a constant imposes nothing
    if 7 in feats and x is not None:      # substitutes
        s = ch.define_substitute('sub', 3 * x + (p[1, 2] if p is not None else 0.))
        D['sub'] = dict(sub=lambda v: 3 * v['x'] + (v['p'][1, 2] if p is not None else 0.))
        if spl is not None:
            ch.define_substitute('ssub', [spl[0] + 2, spl[1] * 3])
            D['sub']['ssub0'] = lambda v: v['splines_seg0'][:, :1] + 2
            D['sub']['ssub1'] = lambda v: v['splines_seg0'][:, 1:] * 3
    return D


def run_case(r, case):
    if case['kind'] == 'assemble':
        for comp in case['comps']:
            for third in (None, (0, 2)):
                assemble(r, tuple(case['sub']), tuple(comp), third)
    else:
        globals()['run_' + case['kind']](r, case)


def assemble(r, fa, fb, fc):
    lst = [('veh', fa), ('obs', fb)] + ([('veh', fc)] if fc is not None else [])
    for hostpos in (0, len(lst)):
        chs = [Child(l) for l, _ in lst]
        Ds = [declare(c, f, i) for i, (c, (_, f)) in enumerate(zip(chs, lst))]
        host = Child('problem')
        host.define_parameter('t')
        host.define_variable('T', value=10.)
        Dh = dict(var={'T': (1, 1, np.array([[10.]]))}, par={'t': (1, 1, np.zeros((1, 1)))}, con=[], obj=[])
        allc = list(zip(chs, Ds))
        allc.insert(hostpos, (host, Dh))
        tag = 'declarations %s' % (lst,)
        ok, father = repo_call(r, 'collecting ' + tag, lambda: OptiFather([c for c, _ in allc]))
        if not ok:
            return
        ok, _ = repo_call(r, 'assembling ' + tag, lambda: father.construct_problem({}, '', NOPROB))
        if not ok:
            return
        r.state()
        pd = father.problem_description
        V, P = pd['var'], pd['par']
        nv = sum(a * b for _, D in allc for a, b, _ in D['var'].values())
        npar = sum(a * b for _, D in allc for a, b, _ in D['par'].values())
        r.check(V.size == nv, lambda: '%s: %d variables for %d declared' % (tag, V.size, nv))
        r.check(P.size == npar, lambda: '%s: %d parameters for %d declared' % (tag, P.size, npar))
        # default values
        for c, D in allc:
            for nm, (a, b, dv) in D['var'].items():
                got = np.array(father.get_variables(c, nm, spline=False), float)
                r.check(np.array_equal(got.reshape(a, b), np.asarray(dv, float).reshape(a, b)), lambda: '%s: initial value of %s.%s is %s' % (tag, c.label, nm, got.tolist()))
        # set values one by one, distinct everywhere, and read back
        cnt = [1]
        vals = {}
        for c, D in allc:
            vals[c.label] = {}
            for nm, (a, b, _) in D['var'].items():
                v = np.array([cnt[0] + i for i in range(a * b)], float).reshape(a, b) * 0.37 + 0.11
                cnt[0] += a * b
                vals[c.label][nm] = v
                repo_call(r, 'set_variables', father.set_variables, v, c, nm)
        for c, D in allc:
            for nm, (a, b, _) in D['var'].items():
                got = np.array(father.get_variables(c, nm, spline=False), float).reshape(a, b)
                r.check(np.array_equal(got, vals[c.label][nm]), lambda: '%s: variable %s.%s reads back %s' % (tag, c.label, nm, got.tolist()))
                if nm in c._splines_prim:
                    spl = father.get_variables(c, nm)
                    r.check(len(spl) == b and all(np.array_equal(np.array(s.coeffs).ravel(), vals[c.label][nm][:, i]) for i, s in enumerate(spl)),
                            lambda: '%s: splines %s.%s differ from the values set' % (tag, c.label, nm))
        # parameters (defaults, overridden values that depend on time)
        for time in (0., 2.5):
            ok, par = repo_call(r, 'set_parameters ' + tag, lambda: father.set_parameters(time))
            if not ok:
                return
            for c, D in allc:
                for nm, (a, b, dv) in D['par'].items():
                    ref = c.pset[nm].reshape(a, b) * (1 + time) if nm in c.pset else np.asarray(dv, float)
                    vals[c.label][nm] = ref
                    got = np.array(father.get_parameters(c, nm, spline=False), float)
                    r.check(np.allclose(got.reshape(a, b), ref, atol=0), lambda: '%s: parameter %s.%s is %s, set to %s' % (tag, c.label, nm, got.tolist(), ref.tolist()))
        # value by a later set_value
        for c, D in allc:
            for nm, (a, b, dv) in D['par'].items():
                if nm not in c.pset:
                    nv_ = np.arange(a * b, dtype=float).reshape(a, b) + 100 * (1 + lst.index(lst[0]))
                    c.set_value(nm, nv_)
                    vals[c.label][nm] = nv_
        par = father.set_parameters(0.)
        for c, D in allc:
            for nm in c.pset:
                vals[c.label][nm] = c.pset[nm].reshape(-1, 1)
        fun = Function('f', [V, P], [pd['obj'], pd['con']])
        o, g = fun(father.get_variables(), par)
        g = np.array(g).ravel()
        lb, ub = np.array(father._lb.cat).ravel(), np.array(father._ub.cat).ravel()
        ok, b = repo_call(r, 'update_bounds', lambda: father.update_bounds(1.))
        if ok:
            r.check(np.array_equal(np.array(b[0].cat).ravel(), lb) and np.array_equal(np.array(b[1].cat).ravel(), ub), 'bounds passed to the solver differ from the declared ones')
        rows, rl, ru = [], [], []
        oref = 0.
        hv = dict((k, v.ravel()[0]) for k, v in vals[host.label].items())
        for c, D in allc:
            v = dict(vals[c.label])
            for k_ in list(v):
                if v[k_].size == 1:
                    v[k_] = v[k_].ravel()[0]
            v['HOST'] = hv
            for f, l, u in D['con']:
                rows += list(np.ravel(f(v)))
                rl += l
                ru += u
            for f in D['obj']:
                oref += float(f(v))
            for nm, f in D.get('sub', {}).items():
                got = np.array(father.get_variables(c, nm, spline=False), float)
                r.check(np.allclose(np.ravel(got), np.ravel(f(v))), lambda: '%s: substitute %s reads %s' % (tag, nm, got.tolist()))
        r.check(len(g) == len(rows) and np.allclose(sorted(zip(g, lb, ub)), sorted(zip(rows, rl, ru)), atol=1e-9),
                lambda: '%s: constraint rows (value, lb, ub) %s, declared %s' % (tag, sorted(zip(g, lb, ub)), sorted(zip(rows, rl, ru))))
        r.check(abs(float(o) - oref) < 1e-9 * max(1, abs(oref)), lambda: '%s: objective %s, declared %s' % (tag, float(o), oref))
        # whole vector round trip
        vec = np.arange(V.size) * 1.5 + 3
        father.set_variables(vec)
        r.check(np.array_equal(np.array(father.get_variables().cat).ravel(), vec), 'variable vector does not read back')
        seen = []
        for c, D in allc:
            for nm, (a, b, _) in D['var'].items():
                seen += list(np.array(father.get_variables(c, nm, spline=False), float).ravel())
        r.check(sorted(seen) == list(vec), lambda: '%s: the entries of the variable vector are not each one declared variable' % tag)
        dual = np.arange(len(g)) * 2. - 1
        if len(g):
            father.set_dual_variables(dual)
            r.check(np.array_equal(np.array(father.get_dual_variables().cat).ravel(), dual), 'dual vector does not read back')
        # building again after a reset gives the same problem
        if hostpos == 0 and fc is None:
            for c, _ in allc:
                c.pset = {}
            ok, _ = repo_call(r, 'reset', father.reset)
            for i, (c, (_, f)) in enumerate(zip(chs, lst)):
                declare(c, f, i)
            host.define_parameter('t')
            host.define_variable('T', value=10.)
            ok, _ = repo_call(r, 'assembling again after a reset ' + tag, lambda: father.construct_problem({}, '', NOPROB))
            if ok:
                pd2 = father.problem_description
                r.check((pd2['var'].size, pd2['par'].size) == (V.size, P.size), 'rebuilt problem has another size: ' + tag)
                vec = (np.arange(V.size) * 7 % 5) * 0.3 + 0.1
                pv = (np.arange(P.size) * 3 % 7) * 0.2 - 0.3
                o2, g2 = Function('f', [pd2['var'], pd2['par']], [pd2['obj'], pd2['con']])(vec, pv)
                o1, g1 = fun(vec, pv)
                r.check(np.array_equal(np.array(g1), np.array(g2)) and float(o1) == float(o2) and np.array_equal(np.array(father._lb.cat).ravel(), lb)
                        and np.array_equal(np.array(father._ub.cat).ravel(), ub), 'rebuilt problem differs: ' + tag)
        r.outcome(len(rows), V.size, P.size, round(oref, 3))
        r.trace()


def run_labels(r, case):
    names = ['veh', 'veh0', 'veh1', 'veh9', 'v1h', 'veh09']
    for seq in itertools.product(names, repeat=case['n']):
        before = list(OptiChild._labels)
        del OptiChild._labels[:]
        got = [OptiChild(n).label for n in seq]
        OptiChild._labels[:] = before
        r.state()
        r.outcome(tuple(got))
        r.check(len(set(got)) == len(got), lambda: 'objects created with labels %s got labels %s' % (seq, got))
        r.trace()


def run_segments(r, case):
    """transforming selected segments touches exactly their splines, each with its own basis"""
    nseg = 12
    shifts = [None, 0, [0], [1], [2], [0, 1], [10], [11], [1, 11], list(range(nseg)), []]
    for sh in shifts:
        for init in (False, True):
            ch = Child('veh')
            ch.basis = B2
            for k in range(nseg):
                ch.define_spline_variable('splines_seg%d' % k, 2, value=np.arange(8).reshape(4, 2) + 10. * k, basis=B2)
            for k in range(nseg):
                ch.define_spline_variable('a_veh0_seg%d_00' % k, 1, value=np.arange(7).reshape(7, 1) + 1000. + k, basis=B3)
            ch.define_spline_parameter('w_seg0', 1)
            ch.define_variable('x', value=3.)
            f = OptiFather([ch])
            f.construct_problem({}, '', NOPROB)
            f.init_transformations((lambda b: len(b)) if init else (lambda b: None), lambda b: None)
            seen = []

            def tf(c, b, T=None):
                seen.append((len(b), T))
                return np.array(c) * 2 + 1
            ok, _ = repo_call(r, 'transform_primal_splines(seg_shift=%s)' % sh, lambda: f.transform_primal_splines(tf) if sh is None else f.transform_primal_splines(tf, seg_shift=sh))
            if not ok:
                continue
            want = [0] if sh is None else (sh if isinstance(sh, list) else [sh])
            r.state()
            for k in range(nseg):
                for nm, v0 in (('splines_seg%d' % k, np.arange(8).reshape(4, 2) + 10. * k), ('a_veh0_seg%d_00' % k, np.arange(7).reshape(7, 1) + 1000. + k)):
                    got = np.array(f.get_variables(ch, nm, spline=False))
                    ref = v0 * 2 + 1 if k in want else v0
                    r.check(np.array_equal(got, ref), lambda: 'seg_shift=%s: spline %s %s' % (sh, nm, 'not transformed' if k in want else 'transformed'))
            r.check(float(np.ravel(f.get_variables(ch, 'x'))[0]) == 3., 'a variable that is no spline was transformed')
            r.check(all((T == n if init else T is None) for n, T in seen), 'transformation called with the data of another basis')
            r.outcome(sh, len(seen))
            r.trace()


def run_bounds(r, case):
    """constraints that are switched off by a condition on time"""
    conds = [False, 't > 2', 't<=1.', '(t > 1) and (t < 3)']
    for a, b in itertools.product(conds, repeat=2):
        ch, ch2 = Child('veh'), Child('obs')
        x = ch.define_variable('x')
        y = ch2.define_variable('x', 2)
        ch.define_constraint(x, -1., 2., shutdown=a, name='c')
        ch2.define_constraint(y, -3., 4., shutdown=b)
        ch2.define_constraint(2 * y[0], -5., 6.)
        f = OptiFather([ch, ch2])
        f.construct_problem({}, '', NOPROB)
        for t in (0., 1., 2., 2.5, 4., 0.5):      # going back in time: no memory of earlier bounds
            ok, bd = repo_call(r, 'update_bounds with shutdown %r/%r' % (a, b), lambda: f.update_bounds(t))
            if not ok:
                continue
            offa, offb = bool(a and eval(a)), bool(b and eval(b))
            rl = ([-inf] if offa else [-1.]) + ([-inf] * 2 if offb else [-3., -3.]) + [-5.]
            ru = ([inf] if offa else [2.]) + ([inf] * 2 if offb else [4., 4.]) + [6.]
            r.state()
            r.check(np.array_equal(np.array(bd[0].cat).ravel(), rl) and np.array_equal(np.array(bd[1].cat).ravel(), ru),
                    lambda: 'shutdown %r/%r at t=%s: bounds %s %s, expected %s %s' % (a, b, t, bd[0].cat, bd[1].cat, rl, ru))
            r.outcome(tuple(rl), tuple(ru))
        r.trace()


def run_errors(r, case):
    """ill-posed declarations are refused, not resolved arbitrarily"""
    def build(kind):
        a, b = Child('veh'), Child('obs')
        s = a.define_symbol('t')
        a.define_constraint(s, 0., 1.)
        if kind in ('ok', 'twice'):
            b.define_parameter('t')
        c = Child('prob')
        if kind == 'twice':
            c.define_variable('t')
        f = OptiFather([a, b, c])
        f.construct_problem({}, '', NOPROB)
        return f
    for kind, bad in (('ok', False), ('missing', True), ('twice', True)):
        try:
            build(kind)
            r.check(not bad, 'a symbol defined %s was accepted' % kind)
        except ValueError:
            r.check(bad, 'a well defined symbol was refused')
        r.state()
    a = Child('veh')
    a.define_substitute('s', a.define_variable('x') * 2)
    try:
        a.define_substitute('s', a.define_variable('y') * 2)
        r.check(False, 'one name was accepted for two substitutes')
    except ValueError:
        r.check(True, '')
    # one parameter provided by two objects
    a, b = Child('veh'), Child('obs')
    a.define_parameter('q')
    a.pset['q'] = np.array([1.])
    b.set_parameters = lambda time: {a: {'q': 2.}}
    f = OptiFather([a, b])
    try:
        f.construct_problem({}, '', NOPROB)
        r.check(False, 'a parameter provided by two objects was accepted')
    except ValueError:
        r.check(True, '')
    r.outcome('errors')
    r.trace()
