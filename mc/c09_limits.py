"""C09: a plan accepted by the planner respects the physical limits of the vehicle.
For every vehicle variant, set of limits, way of limiting and horizon, the constraints that the vehicle adds to
the real problem are evaluated for every plan of an enumerated family (shapes x directions x amplitudes that run
through the limits) and compared with the limits evaluated on an independent model of the vehicle."""
import itertools
import numpy as np
from casadi import Function, vertcat, DM
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Curve
from mc.vehlib import KINDS, greville, integrate
from scipy.interpolate import BSpline as SciBSpline

BOUNDS = dict(quick='12 vehicle variants x 2-4 limit sets x ways of limiting x fixed/free time x 3 horizons; plans: 6 shapes x directions x amplitudes around every limit',
              thorough='as quick with 3 knot vectors, more directions and amplitudes')
ASSUMPTIONS = ['limits the vehicle classes declare but do not claim to enforce are not claimed: acceleration of Dubins, deceleration of bicycle, AGV and trailer, z velocity of a machining tool in plane mode',
               'the simplified quadrotor limits its rotation rates by a small angle approximation: 25% tolerance on the roll rate']
S = np.linspace(0, 1, 241)

CONF = {
    'holonomic': [({}, {}), (dict(vxmin=-.3, vymin=-.2, vxmax=.5, vymax=.7, axmin=-1.5, aymin=-.4, axmax=.9, aymax=.6), {}), (dict(vmin=-.8, vmax=.4, amin=-.5, amax=2.), {}),
                  (dict(vmax=.6, amax=.8), dict(syslimit='norm_2')), (dict(vmin=-2., vmax=2., amin=-.3, amax=.2), dict(syslimit='norm' + '_inf'))],
    'holonomic1d': [({}, {}), (dict(vmin=-.3, vmax=.7, amin=-.4, amax=.9), {}), (dict(vmin=-3., vmax=3., amin=-.4, amax=.9), {})],
    'holonomic3d': [({}, {}), (dict(vmin=-.3, vmax=.7, amin=-.4, amax=.9), {}), (dict(vmax=.6, amax=.8), dict(syslimit='norm_2')), (dict(vmin=-3., vmax=3., amin=-.4, amax=.9), {}), (dict(vmax=6., amax=.8), dict(syslimit='norm_2'))],
    'tool': [({}, {}), (dict(vxmin=-.3, vymin=-.2, vzmin=-.4, vxmax=.5, vymax=.7, vzmax=.6, axmin=-1.5, aymin=-.4, azmin=-.8, axmax=.9, aymax=.6, azmax=.5, jxmin=-9., jymin=-5., jzmin=-6., jxmax=8., jymax=5.5, jzmax=7.), dict(vel_limit='axes')),
             (dict(vmin=-.8, vmax=.4, amin=-.5, amax=2., jmin=-40., jmax=30.), {}), (dict(vmin=-9., vmax=9., amin=-9., amax=9., jmin=-1., jmax=1.5), dict(vel_limit='axes')), (dict(vxmax=0., vymax=0., vzmax=.6), {})],
    'holonomicorient': [({}, {}), (dict(vmin=-.3, vmax=.7, amin=-.4, amax=.9, wmin=-.3, wmax=.9), {}), (dict(vmax=.6, amax=.8, wmin=-.9, wmax=.5), dict(syslimit='norm_2')), (dict(vmin=-3., vmax=3., amin=-.4, amax=.9), {})],
    'dubins': [({}, {}), (dict(vmax=.9, wmin=-.3, wmax=.8), {}), (dict(vmax=.3, wmin=-1.5, wmax=.6), dict(degree=2))],
    'bicycle': [({}, {}), (dict(vmax=.5, amax=.1, dmin=-.6, dmax=.3, ddmin=-.4, ddmax=.9), {}), (dict(vmax=3., amax=3., dmin=-1., dmax=1.1, ddmin=-.5, ddmax=.2), {})],
    'agv': [({}, {}), (dict(vmax=.5, amax=.1, dmin=-.6, dmax=.3, ddmin=-.4, ddmax=.9), {}), (dict(vmax=3., amax=3., dmin=-1., dmax=1.1, ddmin=-.5, ddmax=.2), {})],
    'trailer': [({}, {}), (dict(tmin=-.3, tmax=.9), {})],
    'quadrotor': [({}, {}), (dict(u1min=8., u1max=11., u2min=-1., u2max=.5), {}), (dict(u1min=1., u1max=40., u2min=-.3, u2max=.6), {})],
    'quadrotor3d': [({}, {}), (dict(u1min=8., u1max=11., u2min=-1., u2max=.5, u3min=-.4, u3max=.9, phimin=-.3, phimax=.6, thetamin=-.5, thetamax=.2), {}), (dict(phimin=-1.2, phimax=1.1, thetamin=-1.1, thetamax=1., u2min=-.3, u2max=.5, u3min=-.6, u3max=.2), {})],
    'quadrotor3d_simple': [({}, {}), (dict(u1min=8., u1max=11., u2min=-1., u2max=.5, u3min=-.4, u3max=.9, phimin=-.3, phimax=.6, thetamin=-.5, thetamax=.2), {}), (dict(phimin=-.6, phimax=.7, thetamin=-.6, thetamax=.5, u2min=-.3, u2max=.5, u3min=-.6, u3max=.2), {})],
}
CLS = dict(holonomic='Holonomic', holonomic1d='Holonomic1D', holonomic3d='Holonomic3D', tool='Tool', holonomicorient='HolonomicOrient', dubins='Dubins', bicycle='Bicycle', agv='AGV', quadrotor='Quadrotor', quadrotor3d='Quadrotor3D', quadrotor3d_simple='SimpleQuadrotor3D')
ARG = dict(holonomic=(), holonomic1d=(), holonomic3d=(og.Sphere(.1),), tool=(.1,), holonomicorient=(), dubins=(), bicycle=(.4,), agv=(.7,), quadrotor=(.2,), quadrotor3d=(.2,), quadrotor3d_simple=(.2,))


def cases(tier):
    for name in CONF:
        for ci in range(len(CONF[name])):
            for mode in ('fixed', 'free'):
                for ki in ((0,) if tier == 'quick' else (0, 1, 2)):
                    yield dict(veh=name, conf=ci, mode=mode, knots=ki, tier=tier)


def make(name, ci, knots):
    b, o = CONF[name][ci]
    K = KINDS[name]
    o = dict(o)
    o['room_constraints'] = False
    b = dict((k, float(v)) for k, v in b.items())
    if name == 'trailer':
        lead = og.Dubins(bounds=dict(vmax=.8, wmin=-.6, wmax=.4), options=dict(room_constraints=False))
        lead.define_knots(knot_intervals=knots)
        v = og.Trailer(lead_veh=lead, shapes=og.Circle(.1), l_hitch=.5, bounds=b, options=o)
        v.define_knots(knot_intervals=knots)
        K.conditions(v)
        return K, v
    if name == 'quadrotor3d':
        o['substitution'] = False
    if name == 'tool':
        v = og.Tool(.1, options=o, bounds=b)
    else:
        v = getattr(og, CLS[name])(*ARG[name], options=o, bounds=b)
    if ci == 2 and name in ('quadrotor', 'quadrotor3d', 'quadrotor3d_simple'):
        v.g = 3.7
    v.define_knots(knot_intervals=knots)
    K.conditions(v)
    return K, v


class Tab(object):
    """declared limits, with the defaults of the documentation"""

    def __init__(self, name, ci):
        self.b, self.o = CONF[name][ci]

    def __call__(self, k, dflt):
        return self.b.get(k, dflt)


def limits(name, ci, v, cu, t):
    """[(what, values, lower, upper)] of the plan at the times t"""
    B, opt = Tab(name, ci), CONF[name][ci][1]
    inf = np.inf
    p, d, dd, ddd = cu(t), cu(t, 1), cu(t, 2), cu(t, 3)
    out = []
    if name in ('holonomic', 'holonomic1d', 'holonomic3d', 'tool', 'holonomicorient'):
        n = dict(holonomic=2, holonomic1d=1, holonomicorient=2).get(name, 3)
        nm = 'xyz'
        if opt.get('syslimit') == 'norm_2':
            out.append(('speed', np.sqrt((d[:n] ** 2).sum(0)), None, B('vmax', .5)))
            out.append(('acceleration', np.sqrt((dd[:n] ** 2).sum(0)), None, B('amax', 1.)))
        else:
            sep = name in ('holonomic', 'tool')

            def lim(q, c, bound, dflt, k):
                if sep and not (q + bound in B.b and (q != 'v' or k < 2)):
                    return B(q + c + bound, dflt)
                return B(q + bound, dflt)
            for k in range(n):
                if name != 'tool' or opt.get('vel_limit') == 'axes':
                    out.append(('v' + nm[k], d[k], lim('v', nm[k], 'min', -.5, k), lim('v', nm[k], 'max', .5, k)))
                out.append(('a' + nm[k], dd[k], lim('a', nm[k], 'min', -1., k), lim('a', nm[k], 'max', 1., k)))
                if name == 'tool':
                    out.append(('j' + nm[k], ddd[k], lim('j', nm[k], 'min', -2., k), lim('j', nm[k], 'max', 2., k)))
            if name == 'tool' and opt.get('vel_limit') != 'axes':
                vm = lim('v', 'x', 'max', .5, 0)
                if vm != 0:
                    out.append(('speed in the plane', np.hypot(d[0], d[1]), None, vm))
                else:
                    out.append(('speed along z', np.abs(d[2]), None, B('vzmax', .5)))
        if name == 'holonomicorient':
            out.append(('turning rate', 2 * d[2] / (1 + p[2] ** 2), B('wmin', -np.pi / 6), B('wmax', np.pi / 6)))
    elif name in ('dubins', 'trailer'):
        k = 1 if name == 'trailer' else 0
        a, b, da, db = p[k], p[k + 1], d[k], d[k + 1]
        V = a * (1 + b * b)
        if name == 'trailer':
            B2 = dict(vmax=.8, wmin=-.6, wmax=.4).__getitem__
            out.append(('angle between vehicle and trailer', 2 * np.arctan(b) - 2 * np.arctan(p[0]), B('tmin', -np.pi / 4), B('tmax', np.pi / 4)))
            rel = 2 * d[0] * v.l_hitch - a * (2 * b * (1 - p[0] ** 2) - (1 - b * b) * 2 * p[0])
            out.append(('hitch relation', rel, -1e-3, 1e-3))
        else:
            B2 = lambda q: B(q, dict(vmax=.5, wmin=-np.pi / 6, wmax=np.pi / 6)[q])
        out.append(('speed', V, 0., B2('vmax')))
        out.append(('turning rate', 2 * db / (1 + b * b), B2('wmin'), B2('wmax')))
    elif name in ('bicycle', 'agv'):
        sg = KINDS[name].sign
        a, b = p
        (da, db), ddb = d, dd[1]
        V, dV = a * (1 + b * b), da * (1 + b * b) + 2 * a * b * db
        w = 2 * db / (1 + b * b)
        dw = 2 * ddb / (1 + b * b) - 4 * b * db ** 2 / (1 + b * b) ** 2
        L = v.length
        out.append(('speed', V, 0., B('vmax', .8 if name == 'bicycle' else .5)))
        out.append(('acceleration', dV, -inf, B('amax', 1.)))
        with np.errstate(all='ignore'):
            go = V > 1e-9
            td = np.where(go, L * w / np.where(go, V, 1), 0.)
            dt = np.where(go, L * (dw * V - w * dV) / np.where(go, V, 1) ** 2, 0.)
        out.append(('steering angle', sg * np.arctan(td), B('dmin', -np.pi / 6), B('dmax', np.pi / 6)))
        out.append(('steering rate', sg * dt / (1 + td ** 2), B('ddmin', -np.pi / 4), B('ddmax', np.pi / 4)))
    else:
        g = v.g
        if name == 'quadrotor':
            ax, az = dd[0], dd[1] + g
            u = np.hypot(ax, az)
            out.append(('thrust', u, B('u1min', 2.), B('u1max', 15.)))
            out.append(('pitch rate', (ddd[0] * az - ax * ddd[1]) / u ** 2, B('u2min', -8.), B('u2max', 8.)))
        else:
            sig = KINDS[name].signals(v, cu, t, np.zeros(8)) if name == 'quadrotor3d_simple' else None
            if sig is None:
                f, q, s = p
                ph, th = 2 * np.arctan(q), 2 * np.arctan(s)
                u = np.array([f * (1 + q * q) * (1 + s * s), 2 * d[1] / (1 + q * q), 2 * d[2] / (1 + s * s)])
            else:
                u, ph, th = sig['input'], sig['state'][6], sig['state'][7]
            out.append(('thrust', u[0], B('u1min', 2.), B('u1max', 15.)))
            k = 1.25 if name == 'quadrotor3d_simple' else 1.
            out.append(('roll rate', u[1], k * B('u2min', -2.), k * B('u2max', 2.)))
            out.append(('pitch rate', u[2], B('u3min', -2.), B('u3max', 2.)))
            out.append(('roll', ph, B('phimin', -np.pi / 6), B('phimax', np.pi / 6)))
            out.append(('pitch', th, B('thetamin', -np.pi / 6), B('thetamax', np.pi / 6)))
    return out


def use(lims):
    """largest utilisation of a limit (1 = at the limit) and which"""
    worst = (0., None)
    for what, val, lo, hi in lims:
        val = np.asarray(val)
        if not np.all(np.isfinite(val)):
            return np.inf, what
        if lo is None or lo == -np.inf:
            u = val.max() / hi
        elif lo == 0.:
            u = val.max() / hi if val.min() >= -1e-12 else np.inf
        elif lo > 0:
            u = (np.abs(val - .5 * (lo + hi)) / (.5 * (hi - lo))).max()
        else:
            u = max((val / hi).max(), (val / lo).max())
        if u > worst[0]:
            worst = (u, what)
    return worst


def fit(basis, f):
    """spline coefficients of a polynomial of degree <= degree"""
    kn, d = np.asarray(basis.knots, float), basis.degree
    g = greville(basis)
    A = np.array([SciBSpline(kn, np.eye(len(basis))[j], d, extrapolate=True)(g) for j in range(len(basis))]).T
    return np.linalg.solve(A, f(g))


POLY = dict(line=lambda s: s, square=lambda s: s * s, bump=lambda s: 4 * s * (1 - s), cube=lambda s: 3 * s * s - 2 * s ** 3, flat=lambda s: 0 * s + 1., back=lambda s: 1 - s)


def shapes(basis):
    for k, f in POLY.items():
        if k == 'cube' and basis.degree < 3:
            continue
        yield k, fit(basis, f)
    n = len(basis)
    yield 'wave', np.sin(1. + 2.4 * np.arange(n))
    yield 'step', (np.arange(n) >= n // 2) * 1.


def dirs(n):
    for d in itertools.product((-1., 0., 1.), repeat=n):
        if any(d):
            yield np.array(d)
    yield np.array([.31, -.87, .4])[:n] if n > 1 else np.array([.5])


def plans(name, v, T, tier):
    """(tag, coefficients as function of the amplitude, exact?, amplitudes or None)"""
    basis = v.basis
    amps0 = np.geomspace(.02, 4., 22 if tier == 'quick' else 60)
    if name in ('holonomic', 'holonomic1d', 'holonomic3d', 'tool', 'holonomicorient'):
        n = v.n_spl
        for sn, c in shapes(basis):
            if sn == 'flat':
                continue
            for d in dirs(min(n, 3)):
                if name == 'holonomicorient':
                    if d[2]:
                        if d[0] and d[1] and tier == 'quick':
                            continue
                        yield 'shape %s direction %s' % (sn, d), (lambda lam, c=c, d=d: np.outer(c, d * np.array([lam, lam, .4 * lam])) + np.array([.1, -.2, .3])), sn in ('line',) and not d[2], amps0 * T
                        continue
                yield 'shape %s direction %s' % (sn, d), (lambda lam, c=c, d=d: lam * np.outer(c, d) + np.array([.1, -.2, .3])[:n]), sn in ('line', 'square') if n else 0, 'linear'
        return
    sh = dict(shapes(basis))
    one = sh['flat']
    amps = np.geomspace(.02, 4., 22 if tier == 'quick' else 60)
    if name in ('dubins', 'bicycle', 'agv'):
        for off in (0., .5, -1.1):
            yield 'speed at heading %s' % off, (lambda lam, off=off: np.c_[lam * one, off * one]), True, amps
            yield 'backwards at heading %s' % off, (lambda lam, off=off: np.c_[-lam * one, off * one]), True, amps
            yield 'accelerating at heading %s' % off, (lambda lam, off=off: np.c_[lam * sh['line'] + 1e-3 * one, off * one]), True, amps
            for sn in ('line', 'square', 'back', 'bump', 'wave', 'step'):
                for sgn in (1., -1.):
                    for sp in (.1, .28):
                        yield 'turning by %s from heading %s at speed %s' % (sn, sgn * off, sp), (lambda lam, c=sh[sn], sgn=sgn, off=off, sp=sp: np.c_[sp * one / (1 + off ** 2), sgn * (lam * c + off * one)]), False, amps
            for sgn in (1., -1.):
                yield 'speeding up and turning from %s' % (sgn * off), (lambda lam, sgn=sgn, off=off: np.c_[.2 * lam * (sh['line'] + .2 * one), sgn * (off * one + .3 * lam * sh['line'])]), False, amps
                yield 'slowing down and turning from %s' % (sgn * off), (lambda lam, sgn=sgn, off=off: np.c_[.2 * lam * (sh['back'] + .2 * one), sgn * (off * one + .3 * lam * sh['bump'])]), False, amps
    elif name == 'trailer':
        for off in (0., .4, -.8):
            yield 'straight at heading %s' % off, (lambda lam, off=off: np.c_[off * one, lam * one, off * one]), True, amps
            for k in (1., -1.):
                yield 'standing with hitch angle around %s' % off, (lambda lam, off=off, k=k: np.c_[np.tan(off - k * lam / 2) * one, 0 * one, np.tan(off + k * lam / 2) * one]), True, amps[amps < .9]
                yield 'standing, trailer turned %s' % off, (lambda lam, off=off, k=k: np.c_[np.tan(off) * one, 0 * one, np.tan(off + k * lam / 2) * one]), True, amps[amps < .9]
                yield 'creeping at heading %s' % off, (lambda lam, off=off, k=k: np.c_[(np.tan(off + k * .05)) * one, 1e-2 * lam * one, (off + 0 * lam) * one]), False, amps
        for sgn in (1., -1.):
            for lam0 in (.01, .03):
                def turn(lam, sgn=sgn, lam0=lam0):
                    c = np.c_[.05 * one, lam0 * one, sgn * lam * sh['line']]
                    return c
                yield 'turning on the spot %s' % sgn, turn, False, amps
    elif name in ('quadrotor', 'quadrotor3d_simple'):
        n = v.n_spl
        up = np.eye(n)[-1]
        for sn in ('line', 'square', 'cube', 'bump', 'wave', 'step'):
            for d in dirs(n):
                yield 'shape %s direction %s' % (sn, d), (lambda lam, c=sh[sn], d=d: lam * np.outer(c, d)), sn == 'line', amps * {'wave': .05, 'step': .1}.get(sn, 1.) * 1.6 * T ** 2
        # falling: thrust through zero
        for d in dirs(n - 1):
            yield 'falling', (lambda lam, d=d: np.outer(sh['square'], -.5 * up * (v.g + lam) * T ** 2) + np.outer(sh['line'], np.r_[d, 0.])), False, amps
        if n == 3:
            for al in (-.8, -.3, .4, 1.):
                yield 'tilted in roll', (lambda lam, al=al: lam * np.outer(sh['square'], .5 * v.g * T ** 2 * np.array([0., 1., 0.])) + np.outer(sh['square'], np.array([0, 0, al * T ** 2]))), False, amps * .3
                yield 'tilted in pitch', (lambda lam, al=al: -lam * np.outer(sh['square'], .5 * v.g * T ** 2 * np.array([1., 0., 0.])) + np.outer(sh['square'], np.array([0, 0, al * T ** 2]))), False, amps * .3
    else:
        g = v.g
        for q, s in ((0., 0.), (.12, -.05), (-.1, .08), (.25, .2), (-.3, -.3)):
            for sgn in (1., -1.):
                yield 'thrust at %s, %s' % (q, s), (lambda lam, q=q, s=s, sgn=sgn: np.c_[g * np.exp(sgn * lam) * one, q * one, s * one]), True, amps
                for k in (1, 2):
                    for sn in ('flat', 'line', 'bump', 'wave'):
                        def f(lam, q=q, s=s, sgn=sgn, k=k, sn=sn):
                            c = np.c_[g * one, q * one, s * one]
                            c[:, k] += sgn * lam * .4 * sh[sn]
                            return c
                        yield '%s rotates by %s from %s, %s' % ('xrp'[k], sn, q, s), f, sn == 'flat', amps


def run_case(r, case):
    no_solver()
    name, ci = case['veh'], case['conf']
    knots = (5, 8, 3)[case['knots']]
    if name == 'trailer' and knots < 5:
        knots = 4
    for H in ((.8, 3., 11.) if case['mode'] == 'fixed' else (3.,)):
        K, v = make(name, ci, knots)
        ok, prob = repo_call(r, 'problem for %s' % name, lambda: og.Point2point(v, K.environment(), options=dict(verbose=0, horizon_time=H), freeT=case['mode'] == 'free'))
        if not ok:
            return
        if name == 'tool':      # has no collision constraints outside machining
            v.define_collision_constraints = lambda *a, **k: None
        if name == 'trailer':
            prob.father.add(v.lead_veh)
        ok, _ = repo_call(r, 'init of a problem with %s' % name, prob.init)
        if not ok:
            return
        ff = prob.father
        pd = ff.problem_description
        own = [v] + ([v.lead_veh] if name == 'trailer' else [])
        names = [o._add_label(nm) for o in own for nm in o._constraints]
        if not r.check(len(names) > 0, 'the vehicle imposes no constraints'):
            return
        fun = Function('c', [pd['var'], pd['par']], [vertcat(*[pd['con'][nm] for nm in names])])
        lb = np.array(vertcat(*[ff._lb[nm] for nm in names])).ravel()
        ub = np.array(vertcat(*[ff._ub[nm] for nm in names])).ravel()
        x, p = ff._var_struct(0.), ff._par_struct(0.)
        for T in ((H,) if case['mode'] == 'fixed' else (.8, 3., 11.)):
            if case['mode'] == 'fixed':
                p[prob.label, 'T'] = T
            else:
                x[prob.label, 'T'] = T
            for par in (o.label for o in own):
                pass
            acc = rej = 0
            for tag, f, exact, amps in plans(name, v, T, case['tier']):
                tag = '%s with limits %s %s, %s time %s, %d knot intervals, %s' % (name, CONF[name][ci][0], CONF[name][ci][1], case['mode'], T, knots, tag)
                ts = S * T
                inside = ts.copy()
                inside[0] += 1e-9 * T
                inside[-1] -= 1e-9 * T

                def look(lam):
                    c = f(lam)
                    return c, limits(name, ci, v, Curve(v.basis, c, 0., T), inside)
                if isinstance(amps, str):
                    # all utilisations grow with the amplitude: run through every limit on its own
                    c, lm = look(1.)
                    ls = set()
                    for l in lm:
                        u = use([l])[0]
                        if u > 1e-5 * use(lm)[0]:       # the rest is rounding of a vanishing derivative
                            ls |= set([1. / u])
                    u1 = use(lm)[0]
                    if u1 < 1e-6:
                        continue
                    lams = sorted(set(m / u1 for m in (.3, .5, .97, 1.03, 1.5)) | set(1.03 * l for l in ls))
                else:
                    lams = list(amps)
                for lam in lams:
                    c, lm = look(lam)
                    u, what = use(lm)
                    x[v.label, 'splines_seg0'] = c
                    g = np.array(fun(x, p)).ravel()
                    sc = 1e-9 * (1 + np.abs(g).max())
                    accepted = bool(np.all(g <= ub + sc) and np.all(g >= lb - sc))
                    if accepted:
                        acc += 1
                        r.check(u <= 1.005, lambda: '%s, amplitude %.4g: accepted, although %s reaches %.4g times its limit' % (tag, lam, what, u))
                    else:
                        rej += 1
                        r.check(u > (.98 if exact else .2 if 'wave' in tag or 'step' in tag else .5), lambda: '%s, amplitude %.4g: rejected, although nothing exceeds %.4g times its limit (%s)' % (tag, lam, u, what))
                    r.state()
                    r.note('accepted' if accepted else 'rejected')
                    r.outcome(name, ci, case['mode'], T, tag, accepted)
                    if len(r.fails) > 8:
                        return
            r.check(acc > 5 and rej > 5, lambda: '%s: only %d plans accepted, %d rejected' % (tag, acc, rej))
            r.trace()
