"""C03: representation changes of splines preserve the curve. Every basis x every unit coefficient vector x every
knot / shift / crop choice of the grid; joins: every chain of <=3 segments over a menu with every smoothness at the joints."""
import itertools
import numpy as np
import casadi as cas
from fractions import Fraction as F
from mc import refspline as rs
from mc.core import repo_call
from omgtools.basics.spline import BSpline, BSplineBasis
from omgtools.basics import spline_extra as se

ASSUMPTIONS = ['shift over a knot: first and last interior knot have equal multiplicity (the library shifts along an equidistant basis)',
               'shift_spline is documented as inexact when knots move: only cases where the target basis contains the curve are judged',
               'joins: segments either match exactly or jump by more than the solver tolerance used as the join threshold']
BOUNDS = dict(quick='degrees 1..3, 7 interior patterns; joins of 2-3 segments, all smoothness orders, 3 sign patterns',
              thorough='degrees 1..5, 11 interior patterns; joins of 2-4 segments')


def patterns(tier):
    P = [[], [(F(1, 2), 1)], [(F(1, 4), 1), (F(3, 4), 1)], [(F(1, 2), 2)], [(F(k, 4), 1) for k in (1, 2, 3)], [(F(1, 4), 2), (F(1, 2), 1), (F(3, 4), 2)],
         [(F(k, 8), 1) for k in range(1, 8)]]
    if tier != 'quick':
        P += [[(F(1, 8), 1), (F(1, 2), 1)], [(F(k, 4), 2) for k in (1, 2, 3)], [(F(k, 10), 1) for k in range(1, 10)], [(F(k, 4), 3) for k in (1, 2, 3)]]
    return P


def cases(tier):
    cs = []
    D = range(1, 4) if tier == 'quick' else range(1, 6)
    for d in D:
        for i, p in enumerate(patterns(tier)):
            if max([m for _, m in p], default=0) <= d:
                for iv in ((0, 1), (2, 5)):
                    cs.append(dict(kind='basis', d=d, p=i, iv=iv, tier=tier))
    for d in D:
        for nseg in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            for sm in itertools.product(range(-1, d + 1), repeat=nseg - 1):
                for sign in (1, -1, 0):
                    cs.append(dict(kind='join', d=d, nseg=nseg, sm=sm, sign=sign, tier=tier))
    return cs


def ev(knots, d, c, xs):
    """evaluate library result data (knots, coeffs) with the reference evaluator (floats)"""
    from scipy.interpolate import BSpline as SB
    knots = np.asarray(knots, float)
    sp = SB(knots, np.asarray(c, float).ravel(), d)
    xs = np.asarray([float(x) for x in xs])
    out = sp(xs)
    return out


def run_case(r, case):
    (run_basis if case['kind'] == 'basis' else run_join)(r, case)


def run_basis(r, case):
    d = case['d']
    a, b = [F(v) for v in case['iv']]
    L = b - a
    pat = [(a + L * x, m) for x, m in patterns(case['tier'])[case['p']]]
    kn = rs.clamped(d, pat, a, b)
    fk = np.array([float(x) for x in kn])
    n = rs.nbasis(kn, d)
    basis = BSplineBasis(fk, d)
    tag = 'deg %d knots %s' % (d, [str(x) for x in kn])

    def cmp(got, ref, what, tol=1e-7):
        r.step()
        got, ref = np.asarray(got, float).ravel(), np.asarray(ref, float).ravel()
        if got.shape != ref.shape or not np.all(np.abs(got - ref) <= tol * max(1., np.max(np.abs(ref), initial=0))):
            i = int(np.nanargmax(np.abs(got - ref))) if got.shape == ref.shape else 0
            r.fail('%s, %s: got %s, exact %s' % (what, tag, got[i:i + 1], ref[i:i + 1]))
    CF = [(c, np.array([float(x) for x in c]), rs.spline_pp(kn, d, c)) for c in rs.coeff_sets(n)]
    r.outcome(tag)
    grid = [a + L * F(i, 16) for i in range(17)]
    # --- insert_knots: all subsets of size <= 2 of a menu (existing knots included)
    menu = [a + L * F(i, 8) for i in range(1, 8)] + [a + L * F(1, 3)]
    for k in (1, 2):
        for ins in itertools.combinations(menu, k):
            r.state()
            for c, fc, pp in CF if k == 1 else CF[-2:]:
                ok, s = repo_call(r, 'insert_knots', lambda: BSpline(basis, fc).insert_knots([float(x) for x in ins]))
                if ok:
                    xs = [x for x in rs.points(list(kn) + list(ins), per=d + 1)]
                    cmp(s(np.array([float(x) for x in xs])), [float(pp(x)) for x in xs], 'insert_knots(%s)' % (ins,))
                    missing = [x for x in ins if float(x) not in s.basis.knots]
                    r.check(not missing, lambda: 'insert_knots(%s) did not insert %s' % (ins, missing))
    # knot_insertion_T: also repeated knots and unsorted order
    for ins in [(menu[0],), (menu[3],), (menu[5], menu[1]), (menu[7], menu[7])] + ([(menu[2],) * d] if d > 1 else []):
        from collections import Counter
        cnt = Counter(list(kn) + list(ins))
        if max(m for x, m in cnt.items() if a < x < b) > d + 1:
            continue
        ok, res = repo_call(r, 'knot_insertion_T', lambda: se.knot_insertion_T(basis, [float(x) for x in ins]))
        if ok:
            T, k2 = res
            xs = rs.points(list(kn) + list(ins), per=d + 1, ends=False)
            for c, fc, pp in CF:
                cmp(ev(k2, d, T.dot(fc), xs), [float(pp(x)) for x in xs], 'knot_insertion_T(%s)' % (ins,))
    # --- crop
    ints = [x for x, _ in pat]
    e = L / 2048  # points just beside a knot or an end point
    beside = [(x + e, b) for x in ints + [a]] + [(x - e, b) for x in ints] + [(a, x - e) for x in ints + [b]] + \
        [(a, x + e) for x in ints] + [(x - e, x + e) for x in ints] + [(x + e, b - e) for x in ints]
    for x0, x1 in list(itertools.combinations(grid[::2] + [x for x in ints if x not in grid[::2]], 2)) + beside:
        if x0 >= x1:
            x0, x1 = x1, x0
        r.state()
        xs = [x for x in rs.points([x0, x1] + [k for k in kn if x0 <= k <= x1], per=d + 1, ends=False)] + [x1]
        Cs = cas.SX.sym('c', n)
        for j, (c, fc, pp) in enumerate(CF):
            ok, s = repo_call(r, 'crop_spline ' + tag, lambda: se.crop_spline(BSpline(basis, fc), float(x0), float(x1)))
            if ok:
                r.check(abs(s.basis.knots[0] - float(x0)) < 1e-12 and abs(s.basis.knots[-1] - float(x1)) < 1e-12 and
                        np.all(np.abs(s.basis.knots[:d + 1] - float(x0)) < 1e-12), lambda: 'crop domain %s' % s.basis.knots)
                cmp(s(np.array([float(x) for x in xs])), [float(pp(x)) for x in xs], 'crop(%s, %s)' % (x0, x1))
        ok, s = repo_call(r, 'crop_spline symbolic ' + tag, lambda: se.crop_spline(BSpline(basis, Cs), float(x0), float(x1)))
        if ok:
            f = cas.Function('f', [Cs], [s.coeffs])
            c, fc, pp = CF[-1]
            cmp(ev(s.basis.knots, d, np.array(f(fc)), xs), [float(pp(x)) for x in xs], 'symbolic crop(%s, %s)' % (x0, x1))
    # --- extrapolate
    last = kn[-1] - max(k for k in kn if k < kn[-1])
    m = 1 if not pat else pat[-1][1]
    for te in (last, last / 2, last * 2):
        k2 = list(kn[:-d - 1]) + [b] * m + [b + te] * (d + 1)
        if not pat:  # no interior knot: the library inserts as many knots as the start knot has
            ok, T = repo_call(r, 'extrapolate ' + tag, lambda: se.extrapolate_T(basis, float(te)))
            if not ok:
                continue
            mm = T.shape[0] - n
            k2 = list(kn[:-d - 1]) + [b] * mm + [b + te] * (d + 1)
        xs = [x for x in rs.points(kn, per=d + 1, ends=False)] + [b + te * F(i, d + 2) for i in range(1, d + 2)] + [b + te]
        for c, fc, pp in CF:
            r.state()
            ok, c2 = repo_call(r, 'extrapolate ' + tag, lambda: se.extrapolate(fc, float(te), basis))
            if ok:
                ref = [float(pp(x)) if x <= b else float(rs.pev(pp.p[-1], x)) for x in xs]
                cmp(ev(k2, d, c2, xs), ref, 'extrapolate(%s)' % te, 1e-6)
    # --- shift over knot
    if not pat or pat[0][1] == pat[-1][1]:
        m = pat[0][1] if pat else 0
        k1 = pat[0][0] if pat else b
        inner = [k for k in kn if k1 < k < b]
        k2 = [k1] * (d + 1) + inner + [b] * m + [b + last] * (d + 1)
        xs = [x for x in rs.points([k1] + inner + [b], per=d + 1, ends=False)] + [k1] + [b + last * F(i, d + 2) for i in range(1, d + 2)] + [b + last]
        for c, fc, pp in CF:
            ok, c2 = repo_call(r, 'shift_over_knot ' + tag, lambda: se.shift_over_knot(fc, basis))
            if ok:
                def right(x):
                    if x >= b:
                        return rs.pev(pp.p[-1], x)
                    i = max(i for i in range(len(pp.p)) if pp.br[i] <= x)
                    return rs.pev(pp.p[i], x)
                cmp(ev(k2, d, c2, xs), [float(right(x)) for x in xs], 'shift_over_knot', 1e-6)
    # --- shift first knot
    k1 = pat[0][0] if pat else b
    w = k1 - a
    Cs, tS = cas.MX.sym('c', n), cas.MX.sym('t')
    Cx, tX = cas.SX.sym('c', n), cas.SX.sym('t')
    fsym = {}
    for nm, C_, t_, fn in [('fwd MX', Cs, tS, se.shift_knot1_fwd), ('fwd SX', Cx, tX, se.shift_knot1_fwd), ('bwd SX', Cx, tX, se.shift_knot1_bwd), ('bwd MX', Cs, tS, se.shift_knot1_bwd)]:
        ok, e = repo_call(r, 'symbolic shift_knot1 ' + nm + ' ' + tag, lambda: cas.Function('f', [C_, t_], [fn(C_, basis, t_)]))
        if ok:
            fsym[nm] = e
    for i in range(0, 8):
        t = a + w * F(i, 8)
        k2 = [t] * (d + 1) + list(kn[d + 1:])
        xs = rs.points([t] + [k for k in kn if k > t], per=d + 1, ends=False) + [b]
        for c, fc, pp in CF:
            r.state()
            ref = [float(pp(x)) for x in xs]
            ok, c2 = repo_call(r, 'shift_knot1_fwd ' + tag, lambda: se.shift_knot1_fwd(fc, basis, float(t)))
            if not ok:
                continue
            cmp(ev(k2, d, c2, xs), ref, 'shift_knot1_fwd(%s)' % t)
            ok, c3 = repo_call(r, 'shift_knot1_bwd ' + tag, lambda: se.shift_knot1_bwd(np.array(c2), basis, float(t)))
            if ok:
                cmp(c3, fc, 'shift_knot1_bwd(shift_knot1_fwd(%s))' % t, 1e-6)
            c4 = None
            for nm, f in fsym.items():
                if nm.startswith('fwd'):
                    cmp(np.array(f(fc, float(t))).ravel(), np.asarray(c2).ravel(), nm + ' vs numeric')
                else:
                    cmp(np.array(f(np.array(c2), float(t))).ravel(), fc, nm + ' symbolic inverse', 1e-6)
    # --- shift_spline on curves that live in the target space
    for i in range(0, 8):
        t = a + L * F(i, 8)
        # polynomial curves live in every basis; arbitrary ones only for no shift on an equidistant basis
        polys = []
        for q in range(d + 1):
            P = rs.PP(sorted(set(kn)), [[F(0)] * q + [F(1)]] * (len(set(kn)) - 1))
            # coefficients of x^q through the blossom
            cs_ = []
            for j in range(n):
                ks = kn[j + 1:j + d + 1]
                tot = sum((lambda z: __import__('functools').reduce(lambda u, v: u * v, z, F(1)))(z) for z in itertools.combinations(ks, q))
                import math
                cs_.append(tot / math.comb(d, q))
            polys.append((cs_, P))
        todo = polys + ([(c, pp) for c, fc, pp in CF] if i == 0 else [])
        if True:
            k2 = [t + (b - t) * (k - a) / (b - a) for k in kn]      # the basis rescaled to what remains
            xs = rs.points([t] + [k for k in list(kn) + k2 if k > t], per=2, ends=False) + [b]
            for c, pp in todo:
                ok, c2 = repo_call(r, 'shift_spline ' + tag, lambda: se.shift_spline(np.array([float(x) for x in c]), float(t), basis))
                if ok:
                    cmp(ev(k2, d, c2, xs), [float(pp(x)) for x in xs], 'shift_spline(%s)' % t, 1e-6)
    r.trace()


SEGK = [[], [F(1, 2)], [F(1, 4), F(3, 4)], [F(1, 2)]]
TIMES = [F(1), F(2), F(1, 2), F(3)]


def solve(A, y):
    n = len(A)
    M = [list(row) + [v] for row, v in zip(A, y)]
    for i in range(n):
        p = next(j for j in range(i, n) if M[j][i] != 0)
        M[i], M[p] = M[p], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for j in range(n):
            if j != i and M[j][i]:
                M[j] = [u - M[j][i] * w for u, w in zip(M[j], M[i])]
    return [row[-1] for row in M]


def run_join(r, case):
    d, sm, nseg = case['d'], case['sm'], case['nseg']
    off = {1: F(6), -1: F(-6), 0: F(0)}[case['sign']]
    for times in itertools.product(TIMES[:3] if nseg < 4 else TIMES[:2], repeat=nseg):
        segs, pps = [], []
        for k in range(nseg):
            dims = []
            pd = []
            for l in range(2):
                kn = rs.clamped(d, [(x, 1) for x in SEGK[(k + l) % len(SEGK)]])
                n = rs.nbasis(kn, d)
                # generic coefficients; curvature variations keep every derivative away from zero
                c = [F(((3 * j * j + 5 * j + 7 * k + 11 * l + 2) % 13) - 6, 2) + off for j in range(n)]
                if k > 0:
                    prev = pps[k - 1][l]
                    s = sm[k - 1]
                    # derivative o at start of this segment (own unit time) must equal prev's dimensional derivative
                    pr = [prev.deriv(o)(1) / times[k - 1] ** o * times[k] ** o for o in range(d + 1)]
                    E = [[rs.spline_pp(kn, d, [1 if i == j else 0 for i in range(n)]).deriv(o)(0) for j in range(d + 1)] for o in range(d + 1)]
                    tgt = []
                    own = rs.spline_pp(kn, d, c)
                    for o in range(d + 1):
                        if o <= s:
                            tgt.append(pr[o])
                        else:
                            jump = F(3) if o == s + 1 else F(1)
                            if abs(pr[o]) > 2:
                                jump = pr[o]      # doubles the derivative: clearly discontinuous
                            tgt.append(pr[o] + jump * (2 if pr[o] == 0 else 1))
                    c[:d + 1] = solve(E, tgt)
                pd.append(rs.spline_pp(kn, d, c))
                dims.append(BSpline(BSplineBasis(np.array([float(x) for x in kn]), d), np.array([float(x) for x in c])))
            segs.append(dims)
            pps.append(pd)
        r.state()
        ft = [float(t) for t in times]
        variants = [('n_insert=None', None), ('n_insert=degree+1', d + 1)]
        if sm:
            variants.append(('n_insert=%d (the continuity of the data)' % (d - min(sm)), d - min(sm)))
        before = [[s.coeffs.copy() for s in q] for q in segs]
        for nm, ni in variants:
            tag = 'join d=%d smoothness %s times %s offset %s %s' % (d, list(sm), [str(t) for t in times], off, nm)
            ok, out = repo_call(r, tag, lambda: se.concat_splines(segs, ft, n_insert=ni))
            if not ok:
                continue
            r.check(len(out) == 2, 'number of joined splines')
            for l in range(2):
                t0 = F(0)
                for k in range(nseg):
                    xs = rs.points([0] + SEGK[(k + l) % len(SEGK)] + [1], per=d + 1, ends=False)
                    ref = np.array([float(pps[k][l](x)) for x in xs])
                    got = np.array(out[l](np.array([float(t0 + x * times[k]) for x in xs]))).ravel()
                    got2 = np.array(se.sample_splines(out[l], [float(t0 + x * times[k]) for x in xs]))
                    r.step()
                    sc = max(1., np.max(np.abs(ref)))
                    if not np.all(np.abs(got - ref) <= 1e-6 * sc):
                        i = int(np.argmax(np.abs(got - ref)))
                        r.fail('%s: component %d segment %d at %s: joined %s, segment %s' % (tag, l, k, xs[i], got[i], ref[i]), None)
                        break
                    if not np.all(np.abs(got2 - ref) <= 1e-6 * sc):
                        r.fail('%s: sampled joined spline differs' % tag)
                    t0 += times[k]
                r.check(abs(out[l].basis.knots[-1] - float(sum(times))) < 1e-9 and abs(out[l].basis.knots[0]) < 1e-9, 'time span of the join')
            r.check(all(np.array_equal(x, s.coeffs) for q, z in zip(before, segs) for x, s in zip(q, z)), 'join changed its input segments')
            r.trace()
        r.outcome(tuple(sm), times)
