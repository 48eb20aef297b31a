"""Every vehicle type: how to build it, regular plans for it, and an independent model of what the plan
means (state, input, pose as functions of absolute time; differential equation; initial parameters)."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.interpolate import BSpline as SciBSpline
import omgtools as og
from mc.p2p import Curve

G = 9.81
GL_X, GL_W = np.polynomial.legendre.leggauss(9)


def greville(basis):
    kn, d = np.asarray(basis.knots, float), basis.degree
    return np.array([kn[j + 1:j + d + 1].mean() for j in range(len(basis))])


def integrate(f, br, t, x0):
    """x0 + int_{t[0]}^{t} f, f smooth between the breakpoints br"""
    t = np.asarray(t, float)
    pts = np.unique(np.r_[t, [b for b in br if t[0] < b < t[-1]]])
    out, acc = {pts[0]: x0}, x0
    for a, b in zip(pts[:-1], pts[1:]):
        x = .5 * (b - a) * GL_X + .5 * (a + b)
        acc = acc + .5 * (b - a) * np.dot(GL_W, f(x))
        out[b] = acc
    return np.array([out[x] for x in t])


class Kind(object):
    n_in = n_state = 2
    rest_input = None

    def basis_knots(self, v, knots):
        if isinstance(knots, int):
            v.define_knots(knot_intervals=knots)
        else:
            d = v.degree
            v.define_knots(knots=np.r_[np.zeros(d + 1), knots, np.ones(d + 1)])

    def make(self, cfg=0, knots=5, **options):
        v = self.cls(cfg)
        self.basis_knots(v, knots)
        v.set_options(options)
        self.conditions(v)
        return v

    def conditions(self, v):
        v.set_initial_conditions(list(self.start))
        v.set_terminal_conditions(list(self.goal))

    def breaks(self, v, cu):
        kn = np.asarray(v.basis.knots, float)
        return cu.start + cu.T * np.unique(kn)

    def environment(self):
        return og.Environment(room={'shape': og.Square(50.)})


def wave(i, n, j, amp, off=0.):
    """n smooth-ish distinct numbers, plan i, column j"""
    s = np.linspace(0, 1, n)
    return off + amp * np.sin(1.3 * i + 2.1 * j + (2.2 + .5 * i + .8 * j) * s)


class Holo(Kind):
    name, n_spl = 'holonomic', 2
    start, goal = [0., 0.], [1., 2.]
    nd = 2

    def cls(self, cfg):
        return og.Holonomic(shapes=[og.Circle(.1), og.Rectangle(.4, .2), og.RegularPolyhedron(.2, 3)][cfg])

    def coeffs(self, i, v, T):
        n = len(v.basis)
        return np.array([wave(i, n, j, .8, .3 * j) for j in range(v.n_spl)]).T

    def signals(self, v, cu, t, x0):
        s = cu(t)
        return dict(state=s, input=cu(t, 1), pose=self.pose(v, s))

    def pose(self, v, s):
        return np.vstack([s, np.zeros((3 if s.shape[0] < 3 else 6, s.shape[1]))])[:3 if s.shape[0] < 3 else 6]

    def ode(self, v, x, u):
        return np.asarray(u, float)

    def params(self, v, x, u, sig):
        return dict(state0=x, input0=u)

    def goal_params(self, v):
        return dict(poseT=self.goal)


class Holo1D(Holo):
    name, n_spl, nd = 'holonomic1d', 1, 1
    start, goal = [0.], [2.]
    n_in = n_state = 1

    def cls(self, cfg):
        return og.Holonomic1D(width=[.7, .5, .3][cfg], height=.2)


class Holo3D(Holo):
    name, n_spl, nd = 'holonomic3d', 3, 3
    start, goal = [0., 0., 0.], [1., 2., .5]
    n_in = n_state = 3

    def cls(self, cfg):
        return og.Holonomic3D([og.Sphere(.2), og.Cuboid(.2, .3, .4), og.RegularPrisma(.2, .3, 6)][cfg])

    def environment(self):
        return og.Environment(room={'shape': og.Cube(50.)})


class Tool(Holo3D):
    name = 'tool'

    def cls(self, cfg):
        return og.Tool(0.1)

    environment = Kind.environment      # a tool is a disc, moving in a plane

    def params(self, v, x, u, sig):
        d = dict(state0=x, input0=u)
        if sig is not None:
            d['dinput0'] = sig['dinput']
        return d

    def signals(self, v, cu, t, x0):
        d = Holo.signals(self, v, cu, t, x0)
        d.update(dinput=cu(t, 2), ddinput=cu(t, 3))
        return d


class Orient(Kind):
    name, n_spl = 'holonomicorient', 3
    start, goal = [0., 0., .2], [1., 2., .7]
    n_in = n_state = 3

    def cls(self, cfg):
        return og.HolonomicOrient(shapes=[og.Rectangle(.2, .4), og.Circle(.2), og.UFO(.5, .2)][cfg] if hasattr(og, 'UFO') else [og.Rectangle(.2, .4), og.Circle(.2), og.RegularPolyhedron(.3, 5)][cfg])

    def coeffs(self, i, v, T):
        n = len(v.basis)
        return np.array([wave(i, n, 0, .8), wave(i, n, 1, .8, .3), wave(i, n, 2, .7 if i % 2 else 1.6)]).T

    def signals(self, v, cu, t, x0):
        s, d = cu(t), cu(t, 1)
        th, w = 2 * np.arctan(s[2]), 2 * d[2] / (1 + s[2] ** 2)
        st = np.vstack([s[:2], th])
        return dict(state=st, input=np.vstack([d[:2], w]), pose=st)

    def pose(self, v, s):
        return s

    def ode(self, v, x, u):
        return np.asarray(u, float)

    def params(self, v, x, u, sig):
        return dict(pos0=x[:2], tg_ha0=np.tan(x[2] / 2), vel0=u[:2], dtg_ha0=u[2] / (2 * np.cos(x[2] / 2) ** 2))

    def goal_params(self, v):
        return dict(posT=self.goal[:2], tg_haT=np.tan(self.goal[2] / 2))


class Dubins(Kind):
    name, n_spl = 'dubins', 2
    start, goal = [.3, -.2, .2], [1., 2., .7]
    n_in, n_state = 2, 3

    def cls(self, cfg):
        return og.Dubins(shapes=[og.Circle(.1), og.Rectangle(.4, .2), og.Square(.3)][cfg])

    def coeffs(self, i, v, T):
        n = len(v.basis)
        return np.array([wave(i, n, 0, .1, .25 + .05 * (i % 3)), wave(i, n, 1, .6 if i % 2 else 1.2)]).T

    def vel(self, cu, t):
        a, b = cu(t)
        V, th = a * (1 + b * b), 2 * np.arctan(b)
        return np.array([V * np.cos(th), V * np.sin(th)])

    def signals(self, v, cu, t, x0):
        br = self.breaks(v, cu)
        x = integrate(lambda s: self.vel(cu, s)[0], br, t, x0[0])
        y = integrate(lambda s: self.vel(cu, s)[1], br, t, x0[1])
        a, b = cu(t)
        da, db = cu(t, 1)
        th, V, w = 2 * np.arctan(b), a * (1 + b * b), 2 * db / (1 + b * b)
        st = np.vstack([x, y, th])
        return dict(state=st, input=np.vstack([V, w]), pose=st, acc=np.array([da * (1 + b * b) + 2 * a * b * db]))

    def pose(self, v, s):
        return s[:3]

    def ode(self, v, x, u):
        return np.array([u[0] * np.cos(x[2]), u[0] * np.sin(x[2]), u[1]])

    def params(self, v, x, u, sig):
        return dict(pos0=x[:2], tg_ha0=np.tan(x[2] / 2), v_til0=u[0] * np.cos(x[2] / 2) ** 2, dtg_ha0=u[1] / (2 * np.cos(x[2] / 2) ** 2))

    def goal_params(self, v):
        return dict(posT=self.goal[:2], tg_haT=np.tan(self.goal[2] / 2))


class Bicycle(Dubins):
    name = 'bicycle'
    n_state, sign = 4, 1.
    start, goal = [.3, -.2, .2, .1], [1., 2., .7]

    def cls(self, cfg):
        return og.Bicycle(length=[.4, .7, .25][cfg])

    def coeffs(self, i, v, T):
        n = len(v.basis)
        if i >= 100:       # creeping, at a few cm/s, while steering
            return np.array([.012 + .1 * wave(i, n, 0, .05, .2), .3 * (-1) ** i + .03 * T * np.linspace(0, 1, n) + wave(i, n, 1, .002 * T)]).T
        c = np.array([wave(i, n, 0, .1, .4 + .05 * (i % 3)), wave(i, n, 1, .35)]).T
        if i % 4 == 3:     # from standstill with a steering angle
            c[0, 0] = 0.
            c[1, 0] = .3
            c[1, 1] = c[0, 1]
        return c

    def signals(self, v, cu, t, x0):
        d = Dubins.signals(self, v, cu, t, x0)
        h = 1e-6 * cu.T
        L = v.length
        (a, b), (da, db), (dda, ddb) = cu(t), cu(t, 1), cu(t, 2)
        V, dV = a * (1 + b * b), da * (1 + b * b) + 2 * a * b * db
        w = 2 * db / (1 + b * b)
        dw = 2 * ddb / (1 + b * b) - 4 * b * db ** 2 / (1 + b * b) ** 2
        with np.errstate(all='ignore'):
            td = L * w / V                              # tan(steering angle)
            dtd = L * (dw * V - w * dV) / V ** 2
            rest = np.abs(V) < 1e-9
            td = np.where(rest, L * dw / dV, td)
        delta = self.sign * np.arctan(td)
        dd = self.sign * dtd / (1 + td ** 2)
        dd[rest] = np.nan                               # not defined by the plan
        d['state'] = np.vstack([d['state'], delta])
        d['input'] = np.vstack([d['input'][0], dd])
        d['pose'] = d['state'][:3]
        d['delta'] = np.array([delta])
        d.pop('acc')
        return d

    def ode(self, v, x, u):
        return np.array([u[0] * np.cos(x[2]), u[0] * np.sin(x[2]), self.sign * u[0] / v.length * np.tan(x[3]), u[1]])

    def params(self, v, x, u, sig):
        vt = u[0] * np.cos(x[2] / 2) ** 2
        if vt <= 1e-4:
            return dict(pos0=x[:2], tg_ha0=np.tan(x[2] / 2), v_til0=0., dtg_ha0=0., hop0=1., tdelta0=np.tan(x[3]))
        w = self.sign * u[0] / v.length * np.tan(x[3])
        return dict(pos0=x[:2], tg_ha0=np.tan(x[2] / 2), v_til0=vt, dtg_ha0=w / (2 * np.cos(x[2] / 2) ** 2), hop0=0.)

    def goal_params(self, v):
        return dict(posT=self.goal[:2], tg_haT=np.tan(self.goal[2] / 2), v_tilT=0., dv_tilT=0., dtg_haT=0., ddtg_haT=0.)


class AGV(Bicycle):
    name, sign = 'agv', -1.

    def cls(self, cfg):
        return og.AGV(length=[.4, .7, .25][cfg])


class Trailer(Kind):
    name, n_spl = 'trailer', 3
    n_in, n_state = 2, 6
    veh = Dubins()
    lead_start, start, goal = [0.3, -.2, .2], .1, .3

    def make(self, cfg=0, knots=8, **options):
        knots = knots if isinstance(knots, int) else 8
        lead = og.Dubins(shapes=[og.Circle(.2), og.Rectangle(.4, .2), og.Circle(.1)][cfg])
        lead.define_knots(knot_intervals=knots)
        lead.set_initial_conditions(list(self.lead_start))
        lead.set_terminal_conditions([1., 2., .7])
        v = og.Trailer(lead_veh=lead, shapes=[og.Rectangle(.2, .2), og.Circle(.15), og.Square(.1)][cfg], l_hitch=[.6, .35, .8][cfg])
        v.define_knots(knot_intervals=knots)
        v.set_options(options)
        self.conditions(v)
        return v

    def conditions(self, v):
        v.lead_veh.set_initial_conditions(list(self.lead_start))
        v.lead_veh.set_terminal_conditions([1., 2., .7])
        v.set_initial_conditions(self.start)
        v.set_terminal_conditions(self.goal)

    def coeffs(self, i, v, T, amp=1.):
        lead = v.lead_veh
        n = len(v.basis)
        c = np.array([wave(i, n, 0, amp * .05, .25), wave(i, n, 1, amp * .3)]).T
        cu = Curve(lead.basis, c, 0., T)
        l = v.l_hitch

        def f(t, th):
            a, b = cu(t)
            return [a * (1 + b * b) / l * np.sin(2 * np.arctan(b) - th[0])]
        ts = np.linspace(0, T, 161)
        th = solve_ivp(f, (0, T), [self.start if i == 0 else 2 * np.arctan(c[0, 1]) - amp * .2], t_eval=ts, rtol=1e-9, atol=1e-11).y[0]
        kn, d = np.asarray(v.basis.knots, float), v.degree
        B = np.array([SciBSpline(kn, np.eye(n)[j], d, extrapolate=True)(ts / T) for j in range(n)]).T
        ctr = np.linalg.lstsq(B, np.tan(th / 2), rcond=None)[0]
        return np.c_[ctr, c]

    def signals(self, v, cu, t, x0):
        sub = Curve.__new__(Curve)
        sub.f, sub.start, sub.T = cu.f[1:], cu.start, cu.T
        d = self.veh.signals(v.lead_veh, sub, t, x0[3:])
        th = 2 * np.arctan(cu(t)[0])
        p = d['state']
        st = np.vstack([p[0] - v.l_hitch * np.cos(th), p[1] - v.l_hitch * np.sin(th), th, p])
        return dict(state=st, input=d['input'], pose=st)

    def pose(self, v, s):
        return s

    def ode(self, v, x, u):
        w = u[0] / v.l_hitch * np.sin(x[5] - x[2])
        return np.array([u[0] * np.cos(x[5]) + v.l_hitch * np.sin(x[2]) * w, u[0] * np.sin(x[5]) - v.l_hitch * np.cos(x[2]) * w, w, u[0] * np.cos(x[5]), u[0] * np.sin(x[5]), u[1]])

    def params(self, v, x, u, sig):
        d = self.veh.params(v.lead_veh, x[3:], u, None)
        w = u[0] / v.l_hitch * np.sin(x[5] - x[2])
        d.update(tg_ha_tr0=np.tan(x[2] / 2), dtg_ha_tr0=w / (2 * np.cos(x[2] / 2) ** 2))
        return d

    def goal_params(self, v):
        return dict(posT=[1., 2.], tg_haT=np.tan(.35), tg_ha_trT=np.tan(self.goal / 2))


class Quad(Kind):
    name, n_spl = 'quadrotor', 2
    n_in, n_state = 2, 5
    start, goal = [0., 0., 0., 0., 0.], [1., 2.]

    def cls(self, cfg):
        v = og.Quadrotor([.2, .3, .15][cfg])
        if cfg == 1:
            v.g = 1.62
        return v

    coeffs = Holo.coeffs

    def signals(self, v, cu, t, x0):
        p, d, dd, ddd = cu(t), cu(t, 1), cu(t, 2), cu(t, 3)
        ax, az = dd[0], dd[1] + v.g
        th = np.arctan2(ax, az)
        u1 = np.hypot(ax, az)
        u2 = (ddd[0] * np.cos(th) - ddd[1] * np.sin(th)) / u1
        st = np.vstack([p, d, th])
        return dict(state=st, input=np.vstack([u1, u2]), pose=np.vstack([p, -th]), dspl=d, ddspl=dd)

    def pose(self, v, s):
        return np.vstack([s[:2], -s[4]])

    def ode(self, v, x, u):
        return np.array([x[2], x[3], u[0] * np.sin(x[4]), u[0] * np.cos(x[4]) - v.g, u[1]])

    def params(self, v, x, u, sig):
        d = dict(spl0=x[:2])
        if sig is not None:
            d.update(dspl0=sig['dspl'], ddspl0=sig['ddspl'])
        return d

    def goal_params(self, v):
        return dict(poseT=self.goal)


class Quad3D(Kind):
    name, n_spl = 'quadrotor3d', 3
    n_in, n_state = 3, 8
    start, goal = [0., 0., 0., 0., 0., 0., .05, -.05], [1., 2., .5]
    subst = False

    def cls(self, cfg):
        v = og.Quadrotor3D([.2, .3, .15][cfg])
        if cfg == 1:
            v.g = 1.62
        v.options['substitution'] = self.subst
        return v

    def environment(self):
        return og.Environment(room={'shape': og.Cube(50.)})

    def coeffs(self, i, v, T):
        n = len(v.basis)
        return np.array([wave(i, n, 0, .8, v.g), wave(i, n, 1, .15), wave(i, n, 2, .12)]).T

    def acc(self, v, cu, t):
        f, p, q = cu(t)
        u, ph, th = f * (1 + p * p) * (1 + q * q), 2 * np.arctan(p), 2 * np.arctan(q)
        return np.array([u * np.cos(ph) * np.sin(th), -u * np.sin(ph), u * np.cos(ph) * np.cos(th) - v.g])

    def signals(self, v, cu, t, x0):
        br = self.breaks(v, cu)
        t = np.asarray(t, float)
        vel, pos = [], []
        for j in range(3):
            vj = integrate(lambda s: self.acc(v, cu, s)[j], br, t, x0[3 + j])
            # position by Gauss of the velocity: x(t) = x0 + v0 (t-t0) + int (t-s) a(s) ds
            A = integrate(lambda s: self.acc(v, cu, s)[j], br, t, 0.)
            B = integrate(lambda s: s * self.acc(v, cu, s)[j], br, t, 0.)
            pos.append(x0[j] + x0[3 + j] * (t - t[0]) + t * A - B)
            vel.append(vj)
        (f, p, q), (_, dp, dq) = cu(t), cu(t, 1)
        u, ph, th = f * (1 + p * p) * (1 + q * q), 2 * np.arctan(p), 2 * np.arctan(q)
        st = np.vstack([pos, vel, ph, th])
        return dict(state=st, input=np.vstack([u, 2 * dp / (1 + p * p), 2 * dq / (1 + q * q)]), pose=self.pose(v, st))

    def pose(self, v, s):
        return np.vstack([s[:3], s[6:8], np.zeros(s.shape[1])])

    def ode(self, v, x, u):
        return np.r_[x[3:6], u[0] * np.cos(x[6]) * np.sin(x[7]), -u[0] * np.sin(x[6]), u[0] * np.cos(x[6]) * np.cos(x[7]) - v.g, u[1], u[2]]

    def params(self, v, x, u, sig):
        c = np.cos(x[6] / 2) ** 2, np.cos(x[7] / 2) ** 2
        return dict(pos0=x[:3], dpos0=x[3:6], q_phi0=np.tan(x[6] / 2), q_theta0=np.tan(x[7] / 2), f_til0=u[0] * c[0] * c[1], dq_phi0=u[1] / 2 / c[0], dq_theta0=u[2] / 2 / c[1])

    def goal_params(self, v):
        return dict(posT=self.goal, q_phiT=0., q_thetaT=0.)


class Quad3DSub(Quad3D):
    name, subst = 'quadrotor3d_substitution', True


class Quad3DSimple(Quad3D):
    name = 'quadrotor3d_simple'

    def cls(self, cfg):
        v = og.SimpleQuadrotor3D([.2, .3, .15][cfg])
        if cfg == 1:
            v.g = 1.62
        return v

    coeffs = Holo.coeffs
    start = [0.] * 8

    def signals(self, v, cu, t, x0):
        p, d, dd, ddd = cu(t), cu(t, 1), cu(t, 2), cu(t, 3)
        a = dd + np.array([[0.], [0.], [v.g]])
        u = np.sqrt((a ** 2).sum(0))
        ph, th = -np.arcsin(a[1] / u), np.arctan2(a[0], a[2])
        du = (a * ddd).sum(0) / u
        dph = -(ddd[1] / u - a[1] * du / u ** 2) / np.cos(ph)
        dth = (ddd[0] * np.cos(th) - ddd[2] * np.sin(th)) / np.hypot(a[0], a[2])
        st = np.vstack([p, d, ph, th])
        return dict(state=st, input=np.vstack([u, dph, dth]), pose=self.pose(v, st), dspl=d, ddspl=dd)

    def params(self, v, x, u, sig):
        f, ph, th = u[0], x[6], x[7]
        return dict(spl0=x[:3], dspl0=x[3:6], ddspl0=[f * np.cos(ph) * np.sin(th), -f * np.sin(ph), f * np.cos(ph) * np.cos(th) - v.g])

    def goal_params(self, v):
        return dict(positionT=self.goal)


KINDS = dict((k.name, k) for k in [Holo(), Holo1D(), Holo3D(), Tool(), Orient(), Dubins(), Bicycle(), AGV(), Trailer(), Quad(), Quad3D(), Quad3DSub(), Quad3DSimple()])


def rk4(f, x, u, h, n):
    """integrate n steps of size h with inputs sampled at the steps (linear in between)"""
    out = [np.asarray(x, float)]
    for k in range(n):
        x = out[-1]
        sub = 4
        hh = h / sub
        for q in range(sub):
            ua = lambda s: u[:, k] + (u[:, k + 1] - u[:, k]) * s
            a, b, c = ua(q / sub), ua((q + .5) / sub), ua((q + 1.) / sub)
            k1 = f(x, a)
            k2 = f(x + hh / 2 * k1, b)
            k3 = f(x + hh / 2 * k2, b)
            k4 = f(x + hh * k3, c)
            x = x + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out.append(x)
    return np.array(out).T
