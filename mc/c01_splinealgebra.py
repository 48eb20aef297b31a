"""C01: every pair of bases from the menu, every pair of unit coefficient vectors (bilinearity => all coefficients),
every scalar operand form, and every operation sequence up to the depth, against exact piecewise polynomials."""
import itertools
import numpy as np
import casadi as cas
from fractions import Fraction as F
from mc import refspline as rs
from mc.core import repo_call
from omgtools.basics.spline import BSpline, BSplineBasis

ASSUMPTIONS = ['knots of two operands are equal or at least 1/1000 of the interval apart',
               'degree of a result at most 8 (floating point conditioning of the library representation)']
BOUNDS = dict(quick='degrees 0..3, interior knots on quarters with multiplicity <= 2, sequences of 2 operations',
              thorough='degrees 0..4, interior knots on quarters and thirds, multiplicity <= degree+1, sequences of 3 operations')
CHUNK = 2


def menu(tier):
    quick = tier == 'quick'
    ints = [[], [(F(1, 2), 1)], [(F(1, 4), 1), (F(3, 4), 1)], [(F(1, 2), 2)], [(F(1, 4), 1), (F(1, 2), 1), (F(3, 4), 1)], [(F(1, 4), 2), (F(1, 2), 1)]]
    if not quick:
        ints += [[(F(1, 3), 1), (F(2, 3), 1)], [(F(1, 2), 3)], [(F(3, 4), 1)], [(F(1, 16), 1), (F(15, 16), 2)], [(F(k, 8), 1) for k in range(1, 8)]]
    out = []
    for d in range(0, 4 if quick else 5):
        for i in ints:
            if max([m for _, m in i], default=0) <= d + 1:
                out.append((d, i))
    # knots close to those of the others
    out += [(1, [(F(65, 128), 1)]), (2, [(F(65, 128), 2)]), (3, [(F(65, 128), 1)]), (2, [(F(501, 1000), 1)])]
    return out


IVS = [(0, 1), (0, 10), (2, 5)]


def cases(tier):
    M = menu(tier)
    cs = []
    for iv in IVS:
        for a in range(len(M)):
            if iv == IVS[0] or tier != 'quick':
                bs = list(range(len(M)))
            else:
                bs = [b for b in range(len(M)) if (a + b) % 4 == 0]
            cs.append(dict(kind='pairs', tier=tier, iv=iv, a=a, bs=bs))
    for i, cfg in enumerate([((1, 0), (2, 1)), ((2, 2), (1, 1)), ((0, 1), (2, 3)), ((3, 4), (1, 2))]):
        for iv in IVS[:1] if tier == 'quick' else IVS:
            for first in range(22):
                cs.append(dict(kind='hist', tier=tier, iv=iv, cfg=cfg, first=first, depth=2 if tier == 'quick' else 3))
    return cs


def mk(deg, ints, iv):
    a, b = iv
    L = b - a
    return rs.clamped(deg, [(a + L * F(x), m) for x, m in ints], a, b)


def lib(kn, d, c):
    return BSpline(BSplineBasis(np.array([float(x) for x in kn]), d), np.array([float(x) for x in c]))


def compare(r, s, pp, xs, what, tol=1e-7):
    """value of library spline s at xs against pp; the points avoid breaks of discontinuous results (value there is convention)"""
    try:
        got = np.asarray(s(np.array([float(x) for x in xs])), dtype=float).ravel()
    except Exception as e:
        import sys
        from mc.core import repo_site
        r.fail('%s: evaluation raised %s %s' % (what, type(e).__name__, e))
        return
    ref = np.array([float(pp(x)) for x in xs])
    sc = max(1., np.max(np.abs(ref)))
    r.step()
    if got.shape != ref.shape or not np.all(np.abs(got - ref) <= tol * sc):
        i = int(np.argmax(np.abs(got - ref))) if got.shape == ref.shape else -1
        r.fail('%s: at x=%s value %s, exact %s' % (what, xs[i], got[i] if got.size else got, ref[i]))
    r.outcome(tuple(np.round(ref[:4], 6)))


def run_pairs(r, case):
    M = menu(case['tier'])
    iv = case['iv']
    da, ia = M[case['a']]
    ka = mk(da, ia, iv)
    na = rs.nbasis(ka, da)
    for bi in case['bs']:
        db, ib = M[bi]
        kb = mk(db, ib, iv)
        nb = rs.nbasis(kb, db)
        xs = rs.points(list(ka) + list(kb), per=da + db + 1)
        # at interior breaks discontinuous operands (multiplicity deg+1) are compared by the left-closed convention only
        tag = 'deg %d knots %s / deg %d knots %s' % (da, [str(x) for x in ka], db, [str(x) for x in kb])
        r.state()
        A = [(c, rs.spline_pp(ka, da, c)) for c in rs.coeff_sets(na)]
        B = [(c, rs.spline_pp(kb, db, c)) for c in rs.coeff_sets(nb)]
        for ia_, (ca, pa) in enumerate(A):
            for ib_, (cb, pb) in enumerate(B):
                # sum/difference: linear => one of the two may stay the generic vector
                sa, sb = lib(ka, da, ca), lib(kb, db, cb)
                ops = []
                if ia_ >= na or ib_ >= nb:
                    ops += [('a+b', lambda: sa + sb, lambda: pa + pb), ('a-b', lambda: sa - sb, lambda: pa - pb)]
                if da + db <= 8:
                    ops.append(('a*b', lambda: sa * sb, lambda: pa * pb))
                for nm, f, g in ops:
                    ok, s = repo_call(r, '%s, %s' % (nm, tag), f)
                    if ok:
                        compare(r, s, g(), xs, '%s, %s, coeffs %s %s' % (nm, tag, list(map(str, ca)), list(map(str, cb))))
                if not (np.array_equal(sa.coeffs, [float(x) for x in ca]) and np.array_equal(sb.coeffs, [float(x) for x in cb])
                        and np.array_equal(sa.basis.knots, [float(x) for x in ka]) and np.array_equal(sb.basis.knots, [float(x) for x in kb])):
                    r.fail('operands changed by arithmetic, ' + tag)
        # symbolic coefficients
        for typ in (cas.SX, cas.MX):
            ca, pa = A[-2]
            cb, pb = B[-2]
            xa, xb = typ.sym('a', na), typ.sym('b', nb)
            sa = BSpline(lib(ka, da, ca).basis, xa)
            sb = BSpline(lib(kb, db, cb).basis, xb)
            todo = [('a+b', lambda: sa + sb, pa + pb), ('a-b', lambda: sa - sb, pa - pb)]
            if da + db <= 8:
                todo.append(('a*b', lambda: sa * sb, pa * pb))
            for nm, f, pp in todo:
                ok, s = repo_call(r, 'symbolic %s, %s' % (nm, tag), f)
                if ok:
                    fun = cas.Function('f', [xa, xb], [s.coeffs])
                    cc = np.array(fun([float(x) for x in ca], [float(x) for x in cb])).ravel()
                    compare(r, BSpline(s.basis, cc), pp, xs, 'symbolic(%s) %s, %s' % (typ.__name__, nm, tag))
            # symbolic with numeric operand
            sbn = lib(kb, db, cb)
            for nm, f, pp in [('sym a + num b', lambda: sa + sbn, pa + pb), ('num b - sym a', lambda: sbn - sa, pb - pa)] + ([('sym a * num b', lambda: sa * sbn, pa * pb)] if da + db <= 8 else []):
                ok, s = repo_call(r, nm + ', ' + tag, f)
                if ok:
                    fun = cas.Function('f', [xa], [s.coeffs])
                    cc = np.array(fun([float(x) for x in ca])).ravel()
                    compare(r, BSpline(s.basis, cc), pp, xs, '%s(%s), %s' % (nm, typ.__name__, tag))
    # scalars and powers
    r.state()
    xs = rs.points(ka, per=min(4 * da, 8) + 1)
    for ca in rs.coeff_sets(na):
        pa = rs.spline_pp(ka, da, ca)
        sa = lib(ka, da, ca)
        todo = [('-a', lambda: -sa, -pa)]
        for v in (2, -3, 0, 2.5, np.float64(1.5)):
            fv = F(float(v))
            todo += [('a+%r' % v, lambda v=v: sa + v, pa + fv), ('a-%r' % v, lambda v=v: sa - v, pa - fv),
                     ('a*%r' % v, lambda v=v: sa * v, pa * fv)]
            if not isinstance(v, np.generic):
                todo += [('%r+a' % v, lambda v=v: v + sa, pa + fv), ('%r*a' % v, lambda v=v: v * sa, pa * fv), ('%r-a' % v, lambda v=v: v - sa, (-pa) + fv)]
        p = pa
        for n in (1, 2, 3):
            if n > 1:
                p = p * pa
            if n * da <= 8:
                todo.append(('a**%d' % n, lambda n=n: sa ** n, p))
        for nm, f, pp in todo:
            ok, s = repo_call(r, nm, f)
            if ok:
                compare(r, s, pp, xs, '%s deg %d knots %s coeffs %s' % (nm, da, [str(x) for x in ka], list(map(str, ca))))
        if not np.array_equal(sa.coeffs, [float(x) for x in ca]):
            r.fail('operand changed by scalar arithmetic')


BIN = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b)]
UN = [('neg', lambda a: -a), ('sq', lambda a: a ** 2 if isinstance(a, BSpline) else a * a), ('*2', lambda a: 2 * a if isinstance(a, BSpline) else a * 2),
      ('+1', lambda a: a + 1), ('1-', lambda a: 1 - a if isinstance(a, BSpline) else (-a) + 1)]


def moves(n):
    out = []
    for k, (nm, _) in enumerate(BIN):
        for i in range(n):
            for j in range(n):
                out.append(('b', k, i, j))
    for k, (nm, _) in enumerate(UN):
        for i in range(n):
            out.append(('u', k, i))
    return out


def run_hist(r, case):
    M = menu('thorough')
    iv = case['iv']
    pool = []
    for d, ii in case['cfg']:
        ints = [[], [(F(1, 2), 1)], [(F(1, 4), 1), (F(3, 4), 1)], [(F(1, 2), 2)], [(F(1, 4), 1), (F(1, 2), 1), (F(3, 4), 1)]][ii]
        k = mk(d, ints, iv)
        c = rs.coeff_sets(rs.nbasis(k, d))[-2]
        pool.append((lib(k, d, c), rs.spline_pp(k, d, c)))
    xs = rs.points([iv[0] + (iv[1] - iv[0]) * F(i, 4) for i in range(5)], per=5)
    fx = np.array([float(x) for x in xs])

    def rec(pool, seq, mv):
        if mv[0] == 'b':
            s = lambda: BIN[mv[1]][1](pool[mv[2]][0], pool[mv[3]][0])
            p = lambda: BIN[mv[1]][1](pool[mv[2]][1], pool[mv[3]][1])
            dg = pool[mv[2]][0].basis.degree + pool[mv[3]][0].basis.degree if mv[1] == 2 else 0
        else:
            s = lambda: UN[mv[1]][1](pool[mv[2]][0])
            p = lambda: UN[mv[1]][1](pool[mv[2]][1])
            dg = 2 * pool[mv[2]][0].basis.degree if UN[mv[1]][0] == 'sq' else 0
        if dg > 8:
            r.note('pruned_degree')
            return
        seq = seq + [mv]
        ok, s = repo_call(r, 'sequence %s' % seq, s)
        if not ok:
            return
        p = p()
        ref = np.array([float(p(x)) for x in xs])
        new = pool + [(s, p, ref)]
        r.state()
        for t in new:
            got = np.asarray(t[0](fx), float).ravel()
            rf = t[2] if len(t) > 2 else np.array([float(t[1](x)) for x in xs])
            r.step()
            if not np.all(np.abs(got - rf) <= 1e-6 * max(1., np.max(np.abs(rf)))):
                r.fail('after sequence %s: value %s, exact %s' % (seq, got[:5], rf[:5]))
                return
        if len(seq) < case['depth']:
            for m in moves(len(new)):
                rec(new, seq, m)
        else:
            r.trace()
    pool = [(s, p, np.array([float(p(x)) for x in xs])) for s, p in pool]
    rec(pool, [], moves(2)[case['first']])


def run_case(r, case):
    if case['kind'] == 'pairs':
        run_pairs(r, case)
        r.trace()
    else:
        run_hist(r, case)
