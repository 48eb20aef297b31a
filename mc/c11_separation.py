"""C11: collision constraints imply separation from every obstacle.
For every vehicle and shape x obstacle shape x obstacle motion, the real problem is built once and its collision
constraints are evaluated for every plan, obstacle placement around contact, separating direction (constant, turning,
scaled, wrong way round), offset and softening of an enumerated family; what is accepted must be separated (exact
distance between reference shapes moved along independent models of vehicle and obstacle), and what is far apart
must be accepted for one of the enumerated separating variables."""
import itertools
import numpy as np
from casadi import Function, vertcat, DM
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Curve, Stub
from mc.vehlib import KINDS, greville
from mc import shapelib as sl
from omgtools.basics.spline import BSplineBasis
from mc.c10_conditions import set_start, signals_at

BOUNDS = dict(quick='29 vehicle/shape variants x 6-8 obstacle shapes x 7 kinds of motion (not the full product) x 2 plans x 2 start offsets x 4 x 4-12 placements x 30-90 separating candidates',
              thorough='as quick with more plans, placements, directions')
ASSUMPTIONS = ['three-dimensional shapes keep their orientation (rotation in 3D is not implemented by the toolbox)',
               'a softened safety distance reduces the required distance by the value of its slack',
               'far apart: gap above a margin that covers the convex hull property of B-splines (0.01 when nothing moves, 0.25-0.5 otherwise)']

VEH = [('holonomic', ('circle', .3)), ('holonomic', ('rect', .6, .3)), ('holonomic', ('rect', .6, .3, .5)), ('holonomic', ('reg', .35, 5)),
       ('holonomic', ('beam', .5, .2)), ('holonomic', ('tri',)), ('holonomic', ('ufo', .6, .3)), ('holonomic', ('square', .4, .3)),
       ('holonomicorient', ('rect', .2, .4)), ('holonomicorient', ('tri',)), ('holonomicorient', ('beam', .5, .1)), ('holonomicorient', ('circle', .2)),
       ('dubins', ('circle', .2)), ('dubins', ('rect', .4, .2)), ('dubins', ('tri',)),
       ('bicycle', ('circle', .2)), ('bicycle', ('rect', .5, .2)), ('agv', ('rect', .8, .2)), ('agv', ('circle', .3)),
       ('trailer', ('rect', .2, .3), ('circle', .2)), ('trailer', ('circle', .15), ('rect', .5, .2)),
       ('quadrotor', ('circle', .2)),
       ('holonomic3d', ('sphere', .2)), ('holonomic3d', ('cuboid', .5, .3, .2)), ('holonomic3d', ('prism', .3, .4, 5)), ('holonomic3d', ('plate', ('rect', .5, .3), .1, (.3, -.4, .5))),
       ('holonomic3d', ('cuboid', .5, .3, .2, (.3, -.4, .5))),
       ('quadrotor3d', ('sphere', .2)), ('quadrotor3d_simple', ('sphere', .2))]
OBS2 = [('circle', .4), ('rect', .8, .3), ('rect', .8, .3, -.6), ('reg', .4, 6), ('tri',), ('beam', .6, .2)]
OBS3 = [('sphere', .3), ('cuboid', .6, .3, .2), ('prism', .3, .5, 6, (.2, .3, -.4)), ('plate', ('tri',), .1), ('cylinder', .3), ('rect', .6, .3)]
MOVES = {'static': dict(), 'vel': dict(v=[.15, -.2, .1]), 'acc': dict(v=[-.2, .1, .05], a=[.1, .05, -.06]), 'oriented': dict(th=.9), 'turn': dict(th=.3, w=.7, v=[.1, .1]),
         'back': dict(th=-.4, w=-1.9), 'slow': dict(th=2., w=.11, v=[.1, 0.], a=[0., -.05]), 'spline': dict(spline=True)}


def cases(tier):
    n = 0
    for vi, V in enumerate(VEH):
        three = V[1][0] in ('sphere', 'cuboid', 'prism', 'plate')
        sh = OBS3 if three else OBS2
        todo = [(o, 'static') for o in sh]
        if three:
            todo += [(sh[0], 'vel'), (sh[1], 'acc'), (sh[4], 'acc'), (sh[5], 'turn'), (sh[3], 'vel'), (sh[2], 'spline')]
        else:
            todo += [(sh[0], 'vel'), (sh[4], 'acc'), (sh[1], 'oriented'), (sh[1], 'turn'), (sh[4], 'back'), (sh[2], 'slow'), (sh[3], 'spline')]
            if V[1][0] != 'circle':
                todo.append((sh[5], 'back'))
        for oi, (o, mv) in enumerate(todo):
            n += 1
            for sd in (0., .12):
                for mode in ('fixed', 'free'):
                    if mv in ('turn', 'back', 'slow') and mode == 'free':
                        continue
                    if tier == 'quick':
                        if vi in (27, 28) and oi % 2 == vi % 2:
                            continue
                        k = (sd > 0) + (mode == 'free')
                        if mv in ('turn', 'back', 'slow'):
                            if (oi + vi + k) % 2:
                                continue
                        elif mv in ('static', 'oriented'):
                            if (mv == 'static' and (oi + vi) % 3) or (vi + oi // 2 + k) % 2:
                                continue
                        elif (2 * (sd > 0) + (mode == 'free') + vi + oi) % 4:
                            continue
                    yield dict(veh=vi, obs=o, move=mv, sd=sd, mode=mode, tier=tier)


BIG = dict(vxmin=-1e3, vymin=-1e3, vxmax=1e3, vymax=1e3, axmin=-1e3, aymin=-1e3, axmax=1e3, aymax=1e3, vmin=-1e3, vmax=1e3, amin=-1e3, amax=1e3, wmin=-1e3, wmax=1e3)


def vehicle(V, sd, knots=8):
    name = V[0]
    o = dict(safety_distance=sd, room_constraints=False)
    if name == 'trailer':
        lead = og.Dubins(shapes=sl.build(V[2]), bounds=dict(vmax=1e3, wmin=-1e3, wmax=1e3), options=dict(o))
        lead.define_knots(knot_intervals=knots)
        v = og.Trailer(lead_veh=lead, shapes=sl.build(V[1]), l_hitch=.6, bounds=dict(tmin=-1.5, tmax=1.5), options=dict(o))
    elif name in ('bicycle', 'agv'):
        v = getattr(og, dict(bicycle='Bicycle', agv='AGV')[name])(length=.4, bounds=dict(vmax=1e3, amax=1e3, dmin=-1.5, dmax=1.5, ddmin=-1e3, ddmax=1e3), options=dict(o))
        v.shapes = [sl.build(V[1])]
    elif name == 'quadrotor':
        v = og.Quadrotor(V[1][1], bounds=dict(u1min=.01, u1max=1e3, u2min=-1e3, u2max=1e3), options=dict(o))
    elif name.startswith('quadrotor3d'):
        b = dict(u1min=.01, u1max=1e3, u2min=-1e3, u2max=1e3, u3min=-1e3, u3max=1e3, phimin=-1.4, phimax=1.4, thetamin=-1.4, thetamax=1.4)
        if name == 'quadrotor3d':
            v = og.Quadrotor3D(V[1][1], bounds=b, options=dict(o, substitution=False))
        else:
            v = og.SimpleQuadrotor3D(V[1][1], bounds=b, options=dict(o))
    else:
        cls = dict(holonomic=og.Holonomic, holonomicorient=og.HolonomicOrient, dubins=og.Dubins, holonomic3d=og.Holonomic3D)[name]
        v = cls(shapes=sl.build(V[1]), bounds=dict(BIG), options=dict(o))
    v.define_knots(knot_intervals=knots)
    K = KINDS[name]
    K.conditions(v)
    return K, v


def motion(mv, dim, T):
    """position at time s relative to the position at time t; angle at s"""
    m = MOVES[mv]
    v, a = np.array(m.get('v', [0.] * 3), float), np.array(m.get('a', [0.] * 3), float)
    v, a = np.r_[v, 0][:dim], np.r_[a, 0][:dim]
    th, w = m.get('th', 0.), m.get('w', 0.)
    if m.get('spline'):
        c = np.array([[0., 0., 0.], [.1, .2, .1], [.4, -.1, .3], [.2, .3, .1]])[:, :dim]
        cu = Curve(BSplineBasis([0, 0, 0, .4, 1, 1, 1], 2), c, 0., T)
        return (lambda s, t: cu(s)), (lambda s, t: 0. * s), v, a, th, w, c
    return (lambda s, t: np.outer(v, s - t) + .5 * np.outer(a, (s - t) ** 2)), (lambda s, t: th + w * (s - t)), v, a, th, w, None


def directions(dim, tier):
    if dim == 2:
        n = 6 if tier == 'quick' else 16
        return [np.array([np.cos(x), np.sin(x)]) for x in .23 + 2 * np.pi / n * np.arange(n)]
    g = [np.array(d, float) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
    g = g if tier != 'quick' else [g[i] for i in (0, 5, 9, 16, 20, 22)]
    return [d / np.linalg.norm(d) for d in g]


def turned(d, ang):
    if len(d) == 2:
        return sl.rot2(ang).dot(d)
    return sl.rot3((ang, .7 * ang, ang)).dot(d)


class Collision(object):
    """the constraints of all modelled objects but the problem, and where their variables are"""

    def __init__(self, prob, owners):
        ff = self.ff = prob.father
        pd = ff.problem_description
        names = [(o, o._add_label(nm)) for o in owners for nm in o._constraints]
        names = [(o, nm) for o, nm in names if nm in pd['con'].keys()] if hasattr(pd['con'], 'keys') else names
        self.rows = []
        for o, nm in names:
            self.rows += [o] * int(np.size(np.array(ff._lb[nm])))
        self.rows = np.array([owners.index(o) for o in self.rows])
        f = Function('c', [pd['var'], pd['par']], [vertcat(*[pd['con'][nm] for _, nm in names])])
        self.fun = f
        self.lb = np.array(vertcat(*[ff._lb[nm] for _, nm in names])).ravel()
        self.ub = np.array(vertcat(*[ff._ub[nm] for _, nm in names])).ravel()

    def index(self, obj, name, shape):
        x = self.ff._var_struct(0.)
        n = int(np.prod(shape))
        x[obj.label, name] = DM(np.arange(1., n + 1).reshape(shape, order='F'))
        c = np.array(DM(x.cat)).ravel()
        i = np.argsort(c)[-n:]
        return i.reshape(shape, order='F')

    def __call__(self, X, p):
        """X: nvar x N candidates"""
        return np.array(self.fun(DM(X), DM(p.cat)))

    def accepted(self, X, p):
        G = self(X, p)
        sc = 1e-9
        return np.all((G <= self.ub[:, None] + sc) & (G >= self.lb[:, None] - sc), axis=0)


def sizes(obj):
    return dict((n, (int(s.size1()), int(s.size2()))) for n, s in obj._variables.items())


def run_case(r, case):
    no_solver()
    V = VEH[case['veh']]
    name, sd, tier = V[0], case['sd'], case['tier']
    spec_o = tuple(case['obs'])
    T, knots = 4., 8
    heavy = name in ('trailer', 'quadrotor3d', 'quadrotor3d_simple') and tier == 'quick'
    K, v = vehicle(V, sd, knots)
    dim = v.n_dim
    so = sl.build(spec_o)
    odim = so.n_dim
    rel, ang, ov, oa, oth, ow, ocf = motion(case['move'], odim, T)
    init = dict(position=[0.] * odim, velocity=list(ov), acceleration=list(oa))
    if odim == 2:
        init.update(orientation=oth, angular_velocity=ow)
    opt = {}
    if ow:
        opt['horizon_time'] = T
    if ocf is not None:
        opt = dict(spline_traj=True, spline_params=dict(knots=[0, 0, 0, .4, 1, 1, 1], degree=2, coeffs=ocf.copy()))
    ok, obs = repo_call(r, 'obstacle', og.Obstacle, init, so, options=opt)
    if not ok:
        return
    env = og.Environment(room={'shape': og.Square(50.) if dim == 2 else og.Cube(50.)})
    env.add_obstacle(obs)
    ok, prob = repo_call(r, 'problem', lambda: og.Point2point(v, env, options=dict(verbose=0, horizon_time=T), freeT=case['mode'] == 'free'))
    if not ok:
        return
    parts = [(v, V[1], slice(0, 3) if dim == 2 else slice(0, 6))]
    if name == 'trailer':
        prob.father.add(v.lead_veh)
        parts.append((v.lead_veh, V[2], slice(3, 6)))
    ok, _ = repo_call(r, 'init of the problem', prob.init)
    if not ok:
        return
    owners = [env, obs] + [p[0] for p in parts]
    C = Collision(prob, owners)
    prob.problem = stub = Stub(prob, lambda x, par: None)
    # separating variables and softening of the safety distance
    A, B, E = [], [], []
    for n, s in sizes(env).items():
        (A if s[1] > 1 else B).append((n, s))
    for o, _, _ in parts:
        for n, s in sizes(o).items():
            if not n.startswith('splines_seg'):
                E.append((o, n, s))
    r.check(len(A) == len(B), 'separating variables come in pairs of direction and offset')
    A = [C.index(env, n, s) for n, s in A]
    B = [C.index(env, n, s).ravel() for n, s in B]
    E = [C.index(o, n, s).ravel() for o, n, s in E]
    if not A:
        r.fail('%s: no separating variables for the obstacle' % V[0])
        return
    if not r.check(bool(E) == bool(sd), 'softening variables: %d for safety distance %s' % (len(E), sd)):
        return
    nb = len(B[0])
    tk = np.linspace(0, T, nb)
    s = np.linspace(0, T, 33)
    accn = rejn = 0
    spec_v = [p[1] for p in parts]
    nplan = 2 if tier == 'quick' else 4
    for pi, t in itertools.product(['rest'] + list(range(nplan - 1)), (0., .37 * T / knots) if case['mode'] == 'fixed' else (0.,)):
        moving = pi != 'rest'
        if tier == 'quick' and case['mode'] == 'fixed' and (moving != bool(t)) == bool((case['veh'] + len(str(case['obs'])) + (sd > 0)) % 2):
            continue     # half of the combinations, the other half for the next variant
        c = np.array(K.coeffs(1 if pi == 'rest' else pi, v, T, **(dict(amp=.15 if pi == 1 else .4) if name == 'trailer' else {})), float)
        if pi == 'rest':
            if name in ('dubins', 'bicycle', 'agv', 'trailer'):
                j = 1 if name == 'trailer' else 0
                c[:, j] = 1e-9 if name != 'trailer' else 0.
                c[:, j + 1] = .4
                if name == 'trailer':
                    c[:, 0] = .3
            elif name == 'quadrotor3d':
                c[:] = [v.g, 0., 0.]
            else:
                c[:] = c[3]
        cu = Curve(v.basis, c, 0., T)
        x0 = np.array([.4, -.3, .2, 0, 0, 0, 0, 0.]) if name != 'trailer' else np.array([0, 0, 0, .4, -.3, 0.])
        try:
            tt = np.r_[0., s[1:]]
            sig = K.signals(v, cu, tt, x0)
        except Exception:
            raise
        pose = sig['pose']
        # initial conditions at time t (the plan is x0 at the start of its horizon)
        sg = signals_at(K, v, cu, 0., x0, t) if t else dict((k, a[:, 0]) for k, a in sig.items())
        for k in list(sg):
            sg[k] = np.nan_to_num(np.array(sg[k], float))
        P = []      # P[q][i]: points of part q at time s[i]
        for q, (o, sp, sl_) in enumerate(parts):
            po = pose[sl_]
            P.append([sl.placed(sp, po[:dim, i], po[2, i] if dim == 2 and name != 'quadrotor' else 0.) for i in range(len(s))])
        Rv = [sl.radius(sp) for sp in spec_v]
        Ro = sl.radius(spec_o)
        th = ang(s, t)
        mot = rel(s, t)
        static = not moving and case['move'] in ('static', 'oriented')
        base = sl.points(spec_o)
        O0 = [(sl.rot2(th[i]).dot(base) if odim == 2 else base) + mot[:, [i]] for i in range(len(s))]     # around the unknown position
        si = np.array([np.argmin(abs(s - k)) for k in tk])
        margin = 2 * .001 + .01 if static else .12 + (.45 * np.linalg.norm(base, axis=0).max() if ow else 0.) + .3 * moving
        first = True
        for q, istar, (di, d) in itertools.product(range(len(parts)), (0, 16, 32) if not static else (0,), enumerate(directions(odim, tier))):
            if tier == 'quick' and ((not static and (di + istar // 16) % 3) or (heavy and (di + istar // 16 + q) % 2)):
                continue
            for g in ((-.02, .03, 1.2) if tier == 'quick' else (-.25, -.02, .004, .03, .25, 1.2)):
                # place the obstacle at gap g in direction d of part q at time s[istar]
                vp = P[q][istar][:odim]
                reach = (d.dot(vp)).max() + Rv[q]
                cen = vp.mean(axis=1)
                pos = cen + d * (reach - d.dot(cen) + g + sd * (di % 2) - (d.dot(O0[istar])).min() + Ro)
                pos = pos - (O0[istar].mean(axis=1) - d * d.dot(O0[istar].mean(axis=1)))
                O = [o + pos[:, None] for o in O0]
                what = '%s with %s, obstacle %s %s, safety distance %s, %s time, plan %s, %.3g s after the start of the horizon, gap %s in direction %s of part %d at time %.3g' % (
                    name, V[1:], spec_o, case['move'], sd, case['mode'], pi, t, g, np.round(d, 3), q, s[istar])
                # tell the toolbox
                set_start(K, name, v, sg)
                if ocf is None:
                    st = dict(position=list(pos), velocity=list(ov), acceleration=list(oa))
                    if odim == 2:
                        st.update(orientation=oth, angular_velocity=ow)
                    obs.set_state(st)
                else:
                    obs.options['spline_params']['coeffs'] = ocf + pos[None, :]
                if first:
                    prob.initialize(0.)
                    prob.father.init_variables()
                    ok, _ = repo_call(r, 'solve (%s)' % what, prob.solve, t, .05)
                    if not ok:
                        return
                    guess, first = stub.log[-1][0], False
                ok, p = repo_call(r, 'parameters (%s)' % what, prob.father.set_parameters, t)
                if not ok:
                    return
                x = C.ff._var_struct(DM(guess.cat))
                stub.log[:] = []
                x[v.label, 'splines_seg0'] = c
                if case['mode'] == 'free':
                    x[prob.label, 'T'] = T
                x = np.array(DM(x.cat)).ravel()
                # candidates
                cand = []
                dirs = [('exact', d, d, 1.), ('turned', turned(d, .4), turned(d, .4), 1.), ('turning', turned(d, -.5), turned(d, .4), 1.), ('short', d, d, .5), ('long', d, d, 1.6), ('reverse', -d, -d, 1.)]
                for dn, d0, d1, scale in dirs:
                    al = scale * np.array([d0 + (d1 - d0) * k for k in np.linspace(0, 1, nb)])
                    hv = [np.array([(al[j].dot(P[w][si[j]][:odim])).max() + Rv[w] * np.linalg.norm(al[j]) for j in range(nb)]) for w in range(len(parts))]
                    ho = np.array([(al[j].dot(O[si[j]])).min() - Ro * np.linalg.norm(al[j]) for j in range(nb)])
                    for lam in ((-.3, .02, .5, .98, 1.3) if tier == 'quick' else (-.3, 0., .02, .5, .98, 1., 1.3)):
                        for ep in ((0., .5 * sd, sd) if sd else (0.,)):
                            X = x.copy()
                            for w in range(len(A)):
                                h = hv[min(w, len(parts) - 1)]
                                # offset between the vehicle (with what remains of the safety distance) and the obstacle
                                lo, hi = h + (sd - ep) + .002, ho - .002
                                b = lo + lam * (hi - lo)
                                X[A[w].ravel(order='F')] = al.ravel(order='F')
                                X[B[w]] = b
                            for e in E:
                                X[e] = ep
                            cand.append((dn, lam, ep, X))
                ok, acc = repo_call(r, 'constraints', C.accepted, np.array([z[3] for z in cand]).T, p)
                if not ok:
                    return
                # exact distance at every time from now on
                future = [i for i in range(len(s)) if s[i] >= t - 1e-9]
                if acc.any():
                    hd = np.array([[sl.hull_distance(P[w][i][:odim], O[i]) for i in future] for w in range(len(parts))])
                    dist = (hd - (np.array(Rv)[:, None] + Ro)).min()
                    worst = hd.min()
                    for z, a in zip(cand, acc):
                        if a:
                            need = max(0., sd - z[2])
                            if not r.check(dist > need - 1e-6 and worst > 1e-5, lambda: '%s: accepted with direction %s, offset %s, softening %s, although the distance is %.4g (required %.4g)' % (what, z[0], z[1], z[2], dist, need)):
                                return
                accn += int(acc.sum())
                rejn += int((~acc).sum())
                # gap that a constant direction leaves at all times
                gap = min(min((d.dot(O[i])).min() - (d.dot(P[w][i][:odim])).max() for i in range(len(s))) - Rv[w] - Ro for w in range(len(parts)))
                for ep in ((0., sd) if sd else (0.,)):
                    if gap - sd + ep > margin:
                        if not r.check(any(a for z, a in zip(cand, acc) if z[2] == ep), lambda: '%s: rejected for every separating direction and offset although the gap is %.3g' % (what, gap)):
                            return
                        r.note('far_apart')
                r.state()
                r.step(len(cand))
                r.outcome(V, spec_o, case['move'], sd, pi, di, g, bool(acc.any()))
        r.trace()
    r.note('accepted', accn)
    r.note('rejected', rejn)
    r.check(accn > 20 and rejn > 20, '%s %s: only %d accepted, %d rejected' % (V, spec_o, accn, rejn))
