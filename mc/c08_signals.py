"""C08: state, input and pose signals obey the vehicle model.
Every vehicle type x physical configuration x plan x knots x horizon x start in the horizon x sampling of
the bound is sampled by the real code and compared with an independent model of the vehicle."""
import itertools
import numpy as np
import omgtools as og
from omgtools.basics.spline import BSpline
from mc.core import repo_call
from mc.p2p import Curve
from mc.vehlib import KINDS, rk4

BOUNDS = '13 vehicle variants, 3 physical configurations, 4-8 plans, 3 knot vectors, 3 horizons, 3 starts in the horizon, 2 sample times; ode on a grid of states and inputs'
ASSUMPTIONS = ['plans inside the regular domain of the vehicle (forward motion, thrust > 0)']

KNOTS = [4, 7, [.15, .4, .5, .85]]


def cases(tier):
    for name in KINDS:
        for cfg in range(3):
            if name == 'tool' and cfg:
                continue
            yield dict(veh=name, cfg=cfg, what='grid')
            for ki in range(3):
                if name == 'trailer' and ki == 2:
                    continue
                yield dict(veh=name, cfg=cfg, what='signals', knots=ki, plans=4 if tier == 'quick' else 8)


def run_case(r, case):
    K = KINDS[case['veh']]
    if case['what'] == 'grid':
        return run_grid(r, case, K)
    v = K.make(case['cfg'], KNOTS[case['knots']])
    for i in list(range(case['plans'])) + ([100, 101] if K.name in ('bicycle', 'agv') else []):
        for T in (1., 4., 10.):
            if K.name == 'trailer':
                T *= .5
            for t0, cur, s in ((0., 0., .05), (.3, 1.7, .05), (.62, 40.1, .02)):
                for later in (False, True):
                    one(r, case, K, v, i, T, t0 * T, cur, s * T, later)
                    if len(r.fails) > 6:
                        return
    r.trace()


def one(r, case, K, v, i, T, t0, cur, s, later):
    tag = '%s configuration %d, knots %s, plan %d, horizon %s, elapsed %s at time %s, sample time %s%s' % (K.name, case['cfg'], KNOTS[case['knots']], i, T, t0, cur, s, ', replanned' if later else '')
    K.conditions(v)
    for a in ('signals', 'trajectories'):
        if hasattr(v, a):
            delattr(v, a)
        if hasattr(v, 'lead_veh') and hasattr(v.lead_veh, a):
            delattr(v.lead_veh, a)
    c = K.coeffs(i, v, T)
    cu = Curve(v.basis, c, cur - t0, T)
    x0 = np.asarray(v.prediction['state'], float)
    if later:   # the vehicle was already driving: it is at another place now
        x0 = x0 + (np.arange(len(x0)) + 1) * .1
        if K.name == 'trailer':
            x0[0] = x0[3] - v.l_hitch * np.cos(x0[2])
            x0[1] = x0[4] - v.l_hitch * np.sin(x0[2])
            v.lead_veh.prediction['state'] = x0[3:].copy()
        v.prediction['state'] = x0.copy()
        pose = K.pose(v, x0[:, None])
        v.signals = dict(state=np.c_[x0 - 1., x0], input=np.zeros((K.n_in, 2)), pose=np.c_[pose, pose], time=np.array([[cur - s, cur]]))
    n = int(round((T - t0) / s, 6)) + 1
    axis = np.linspace(t0, t0 + (n - 1) * s, n)
    splines = [BSpline(v.basis, c[:, j].copy()) for j in range(c.shape[1])]
    if K.name.endswith('substitution'):
        o = v.options['substitution']
        v.options['substitution'] = False
    ok, _ = repo_call(r, 'store: ' + tag, v.store, cur, s, [splines], [T], axis)
    if K.name.endswith('substitution'):
        v.options['substitution'] = o
    if not ok:
        return
    for what, tr in (('trajectories', v.trajectories), ('trajectories at the knots', v.trajectories_kn)):
        tt = tr['time'].ravel()
        want = K.signals(v, cu, tt, x0)
        if what == 'trajectories':
            r.check(abs(tt[0] - cur) < 1e-9 and len(tt) == n, lambda: '%s: time axis %s..%s' % (tag, tt[0], tt[-1]))
        for k, w in want.items():
            if k not in tr:
                r.fail('%s: no signal %s' % (tag, k))
                continue
            g = np.asarray(tr[k], float)
            if g.shape != w.shape:
                r.fail('%s: %s of shape %s instead of %s' % (tag, k, g.shape, w.shape))
                continue
            ok = np.isfinite(w)
            d = np.abs(np.where(ok, g - np.where(ok, w, 0), 0.))
            lim = 2e-6 * (1 + np.abs(np.where(ok, w, 0)).max())
            # limits near standstill are taken over from the neighbouring sample by the library
            if K.name in ('bicycle', 'agv') and k in ('state', 'input', 'delta'):
                slow = cu(tt)[0] <= 2e-3
                slow[0] = slow[0] and k != 'state'
                d[-1, slow] = 0.
            if (K.name in ('bicycle', 'agv') and k == 'input') or k == 'ddinput':   # jumps at the knots
                br = K.breaks(v, cu)
                d[:, np.abs(tt[:, None] - br[None, :]).min(1) < 1e-6 * T] = 0.
            r.check(d.max() <= lim, lambda: '%s: %s, signal %s differs by %g from the vehicle model (row %d, t=%s: %s instead of %s)' % (
                tag, what, k, d.max(), np.unravel_index(d.argmax(), d.shape)[0], tt[np.unravel_index(d.argmax(), d.shape)[1]], g.ravel()[d.argmax()], w.ravel()[d.argmax()]))
        if 'v_tot' in tr:
            r.check(np.allclose(tr['v_tot'].ravel(), np.sqrt((want['input'][:3] ** 2).sum(0)) if K.name != 'holonomicorient' else np.hypot(*want['input'][:2]), atol=1e-9), lambda: '%s: v_tot is not the norm of the velocity' % tag)
    tr = v.trajectories
    # the model the simulator integrates
    m = min(12, n - 1)
    u, x = tr['input'], tr['state'][:, 0]
    ok, xs = repo_call(r, 'integrate_ode: ' + tag, v.integrate_ode, x, u, m * s, s)
    if ok:
        w = rk4(lambda a, b: K.ode(v, a, b), x, u, s, m)
        r.check(xs.shape == w.shape and np.abs(xs - w).max() < 1e-4 * (1 + np.abs(w).max()), lambda: '%s: integrating the inputs gives %s instead of %s' % (tag, xs[:, -1], w[:, -1]))
    # pose and drawing
    v.signals = dict((k, np.c_[a]) for k, a in tr.items())
    draw(r, tag, K, v, case)
    r.state()
    r.outcome(case['veh'], i, T, t0, np.round(tr['state'][:, -1], 3).tolist())


def poly_of(shape, pose):
    c, s = np.cos(pose[2]), np.sin(pose[2])
    return np.array([[c, -s], [s, c]]).dot(shape.vertices) + np.array(pose[:2])[:, None]


def same_points(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return all(np.abs(b - a[:, [j]]).max(0).min() < 1e-9 for j in range(a.shape[1])) and all(np.abs(a - b[:, [j]]).max(0).min() < 1e-9 for j in range(b.shape[1]))


def draw(r, tag, K, v, case):
    for t in (0, -1):
        ok, out = repo_call(r, 'draw: ' + tag, v.draw, t)
        if not ok:
            return
        surf, lines = out
        pose = v.signals['pose'][:, t]
        want = []
        if K.name in ('holonomic', 'holonomic1d', 'holonomicorient', 'dubins', 'agv') and not isinstance(v.shapes[0], og.Circle) and K.name != 'agv':
            want = [(v.shapes[0], pose[:3])]
        elif K.name == 'trailer':
            if not isinstance(v.shapes[0], og.Circle):
                want.append((v.shapes[0], pose[:3]))
            if not isinstance(v.lead_veh.shapes[0], og.Circle):
                want.append((v.lead_veh.shapes[0], pose[3:6]))
            r.check(any(np.allclose(l[:, -1], pose[3:5], atol=1e-9) for l in lines), lambda: '%s: the hitch is drawn at %s, the vehicle is at %s' % (tag, [l[:, -1] for l in lines], pose[3:5]))
            veh = [np.abs(np.asarray(x)[:2].mean(1) - pose[3:5]).max() for x in surf]
            r.check(min(veh) < .2, lambda: '%s: no part of the leading vehicle is drawn near its position' % tag)
        elif K.name == 'quadrotor':
            l = np.asarray(lines[0])
            r.check(abs(np.abs(l - pose[:2, None]).max()) <= v.radius * 1.1 and np.allclose(.5 * (l[:, 0] + l[:, 5 if l.shape[1] < 7 else 6]), .5 * (l[:, 0] + l[:, 6]), atol=1e-9), lambda: '%s: drawn away from its position' % tag)
            # the arms are perpendicular to the thrust
            th = v.signals['state'][4, t]
            d = l[:, 2] - l[:, 5]
            r.check(abs(d.dot([np.sin(th), np.cos(th)])) < 1e-9, lambda: '%s: drawn with an attitude that differs from the state (theta %s)' % (tag, th))
        for shape, p in want:
            if isinstance(shape, og.UFO):
                c, s = np.cos(p[2] + shape.orientation), np.sin(p[2] + shape.orientation)
                loc = [np.array([[c, s], [-s, c]]).dot(np.asarray(x) - p[:2, None]) for x in surf]
                r.check(any(np.allclose(np.abs(x).max(1), [shape.width / 2., shape.height / 2.], atol=1e-9) for x in loc), lambda: '%s: %s is not drawn at pose %s' % (tag, type(shape).__name__, p))
                continue
            w = poly_of(shape, p)
            r.check(any(np.asarray(x).shape[0] == 2 and same_points(w, np.asarray(x)) for x in surf), lambda: '%s: %s is not drawn at pose %s' % (tag, type(shape).__name__, p))
        if K.name in ('holonomic', 'dubins', 'bicycle', 'agv') and isinstance(v.shapes[0], og.Circle) and K.name not in ('bicycle',):
            R = v.shapes[0].radius
            r.check(any(np.allclose(np.hypot(*(np.asarray(x) - pose[:2, None])), R, atol=1e-9) for x in surf), lambda: '%s: circle is not drawn at its position' % tag)
        if K.name in ('bicycle', 'agv'):
            c = [np.asarray(x).mean(1) for x in surf]
            r.check(min(np.hypot(*(x - pose[:2])) for x in c) < 1e-9, lambda: '%s: body is not drawn at its position' % tag)


def run_grid(r, case, K):
    v = K.make(case['cfg'])
    vals = [-.7, 0., .4]
    for xs in itertools.product(vals, repeat=min(K.n_state, 3)):
        x = np.resize(np.r_[xs, [.3, -.2, .25]], K.n_state) + .01 * np.arange(K.n_state)
        for us in itertools.product([-1., .5, 2.], repeat=min(K.n_in, 2)):
            u = np.resize(np.r_[us, [.6]], K.n_in)
            ok, d = repo_call(r, '%s.ode' % K.name, v.ode, x, u)
            if ok:
                w = K.ode(v, x, u)
                r.check(np.allclose(np.asarray(d, float), w, atol=1e-9), lambda: '%s configuration %d: ode(%s, %s) = %s instead of %s' % (K.name, case['cfg'], x, u, d, w))
            r.outcome(K.name, np.round(w, 4).tolist())
        ok, p = repo_call(r, '%s.state2pose' % K.name, v.state2pose, x)
        if ok:
            w = K.pose(v, x[:, None])[:, 0]
            r.check(np.shape(p) == w.shape and np.allclose(p, w, atol=1e-12), lambda: '%s: pose %s for state %s' % (K.name, p, x))
        r.state()
    r.trace()
