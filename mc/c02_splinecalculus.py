"""C02: derivative / integral / evaluation of every basis of the menu, every unit coefficient vector, against exact calculus."""
import numpy as np
import casadi as cas
from fractions import Fraction as F
from mc import refspline as rs
from mc.core import repo_call
from omgtools.basics.spline import BSpline, BSplineBasis
from omgtools.basics.spline_extra import evalspline, running_integral, definite_integral, sample_splines

ASSUMPTIONS = ['derivatives are compared on bases whose interior knots have multiplicity <= degree+1-order (the derivative basis exists)']
BOUNDS = dict(quick='degrees 0..4, 8 interior knot patterns, 4 intervals, all derivative orders, all pairs of integration bounds on a grid of 9+knots',
              thorough='degrees 0..6, 14 interior knot patterns incl. all multiplicities, 6 intervals')
CHUNK = 2


def patterns(tier):
    P = [[], [(F(1, 2), 1)], [(F(1, 4), 1), (F(3, 4), 1)], [(F(1, 2), 2)], [(F(k, 4), 1) for k in (1, 2, 3)], [(F(1, 4), 2), (F(1, 2), 1)],
         [(F(1, 2), 3)], [(F(k, 8), 1) for k in range(1, 8)]]
    if tier != 'quick':
        P += [[(F(1, 2), 4)], [(F(1, 3), 1), (F(2, 3), 2)], [(F(1, 16), 1)], [(F(15, 16), 1)], [(F(k, 10), 1) for k in range(1, 10)], [(F(1, 4), 3), (F(3, 4), 2)]]
    return P


IVQ = [(0, 1), (0, 10), (2, 5), (-1, 1)]
IVT = IVQ + [(0, F(1, 4)), (100, 103)]


def cases(tier):
    cs = []
    for iv in (IVQ if tier == 'quick' else IVT):
        for d in range(0, 5 if tier == 'quick' else 7):
            for i, p in enumerate(patterns(tier)):
                if max([m for _, m in p], default=0) <= d + 1:
                    cs.append(dict(d=d, p=i, iv=[str(v) for v in iv], tier=tier))
    return cs


def run_case(r, case):
    d = case['d']
    a, b = [F(v) for v in case['iv']]
    pat = patterns(case['tier'])[case['p']]
    kn = rs.clamped(d, [(a + (b - a) * x, m) for x, m in pat], a, b)
    fk = np.array([float(x) for x in kn])
    n = rs.nbasis(kn, d)
    xs = rs.points(kn, per=d + 2)
    fx = np.array([float(x) for x in xs])
    mult = max([m for _, m in pat], default=0)
    tag = 'deg %d knots %s' % (d, [str(x) for x in kn])
    basis = BSplineBasis(fk, d)
    grid = sorted(set([a + (b - a) * F(i, 8) for i in range(9)] + list(kn)))
    X = cas.SX.sym('x')
    C = cas.SX.sym('c', n)
    CM = cas.MX.sym('c', n)
    XM = cas.MX.sym('x')
    # symbolic functions, built once per basis
    fs = {}
    for nm, f in [('evalspline SX', lambda: cas.Function('f', [C, X], [evalspline(BSpline(basis, C), X)])),
                  ('evalspline MX', lambda: cas.Function('f', [CM, XM], [evalspline(BSpline(basis, CM), XM)])),
                  ('running_integral SX', lambda: cas.Function('f', [C, X], [evalspline(running_integral(BSpline(basis, C)), X)]))]:
        ok, g = repo_call(r, nm + ' ' + tag, f)
        if ok:
            fs[nm] = g
    A, Bq = cas.SX.sym('a'), cas.SX.sym('b')
    ok, fdef = repo_call(r, 'definite_integral ' + tag, lambda: cas.Function('f', [C, A, Bq], [definite_integral(BSpline(basis, C), A, Bq)]))

    def cmp(got, ref, what, tol=1e-8):
        r.step()
        got = np.asarray(got, float).ravel()
        ref = np.asarray(ref, float).ravel()
        if got.shape != ref.shape or not np.all(np.abs(got - ref) <= tol * max(1., np.max(np.abs(ref)))):
            i = int(np.argmax(np.abs(got - ref))) if got.shape == ref.shape else 0
            r.fail('%s, %s: got %s, exact %s (entry %d)' % (what, tag, got[i:i + 1], ref[i:i + 1], i))

    for ic, c in enumerate(rs.coeff_sets(n)):
        fc = np.array([float(x) for x in c])
        pp = rs.spline_pp(kn, d, c)
        s = BSpline(basis, fc)
        ref = [float(pp(x)) for x in xs]
        r.state()
        r.outcome(tuple(np.round(ref, 6)))
        cmp(s(fx), ref, 'evaluation (array)')
        # same length, other points; then the first again: evaluation may not depend on history
        sh = [(x + (xs[i + 1] if i + 1 < len(xs) else xs[i - 1])) / 2 for i, x in enumerate(xs)]
        cmp(s(np.array([float(x) for x in sh])), [float(pp(x)) for x in sh], 'evaluation at other points')
        cmp(s(fx), ref, 'evaluation (repeated)')
        if ic >= n:
            for x, rf in zip(xs, ref):
                cmp(s(float(x)), [rf], 'evaluation (scalar %s)' % x)
            e2 = fx.copy()
            s(e2)
            e2 += (float(b) - float(a)) / 64
            e2[-1] = float(b)
            ok = e2 <= float(b)
            cmp(s(e2)[ok], [float(pp(F(float(v)))) for v in e2[ok]], 'evaluation after in-place change of the argument')
        # derivatives
        for o in range(1, d + 1):
            if mult > d - o + 1:
                continue
            dp = pp.deriv(o)
            ok, ds = repo_call(r, 'derivative(%d) %s' % (o, tag), lambda: s.derivative(o))
            if ok:
                # derivative of order o may jump at knots: left value by the closed-right convention
                cmp(ds(fx), [float(dp(x)) for x in xs], 'derivative(%d)' % o, 1e-7)
                if ic >= n and o > 1:
                    ok, ds2 = repo_call(r, 'repeated derivative ' + tag, lambda: s.derivative(1).derivative(o - 1))
                    if ok:
                        cmp(ds2(fx), [float(dp(x)) for x in xs], 'derivative(1).derivative(%d)' % (o - 1), 1e-7)
        ok, d0 = repo_call(r, 'derivative(0)', lambda: s.derivative(0))
        if ok:
            cmp(d0(fx), ref, 'derivative(0)')
        # integrals
        ip = pp.integral()
        iref = [float(ip(x)) for x in xs]
        ok, v = repo_call(r, 'integral ' + tag, lambda: s.integral())
        if ok:
            cmp(v, [float(ip(b))], 'integral()')
        ok, ri = repo_call(r, 'running_integral ' + tag, lambda: running_integral(s))
        if ok:
            cmp(ri(fx), iref, 'running integral')
            if d >= 1 or mult <= 1:
                cmp([float(z) for z in sample_splines(ri, fx)], iref, 'sampled running integral')
        if mult <= d:
            cmp(sample_splines(s, fx), ref, 'sample_splines')
            cmp(np.array(sample_splines([s, 2 * s], fx))[1], 2 * np.array(ref), 'sample_splines (list)')
        for nm, f in fs.items():
            tgt = iref if nm.startswith('running') else ref
            cmp([float(f(fc, float(x))) for x in xs], tgt, nm)
        if ic >= n or n <= 4:
            cmp([float(evalspline(s, float(x))) for x in xs], ref, 'evalspline (numeric)')
            for x in grid:
                for y in grid:
                    if x <= y:
                        e = ip(y) - ip(x)
                        if fdef is not None:
                            cmp(float(fdef(fc, float(x), float(y))), [float(e)], 'definite_integral(%s, %s) symbolic' % (x, y))
            for x, y in [(a, b), (a, a), (grid[1], grid[-2]), (grid[2], b)]:
                cmp(float(definite_integral(s, float(x), float(y))), [float(ip(y) - ip(x))], 'definite_integral(%s, %s)' % (x, y))
        # derivative and integral are inverse
        if ok and mult <= d + 1:
            ok2, back = repo_call(r, 'derivative of running integral', lambda: ri.derivative())
            if ok2:
                cmp(back(fx), ref, 'derivative of the running integral')
        # domain change
        for f, sft in [(2., 0), (0.5, 3.), (float(1 / (b - a)), -float(a / (b - a)))]:
            ok3, sc = repo_call(r, 'scale', lambda: s.scale(f, shift=sft))
            if ok3 and ic >= n:
                cmp(sc(np.clip(fx * f + sft, sc.basis.knots[0], sc.basis.knots[-1]))[[i for i, x in enumerate(xs) if x not in kn or x in (a, b)]],
                    [v for x, v in zip(xs, ref) if x not in kn or x in (a, b)], 'scaled domain')
        r.trace()
