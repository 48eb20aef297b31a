"""C13: room constraints keep the whole vehicle inside the room.
For every vehicle and shape x room (shape, position, rotation) x problem kind, the real problem is built once and its room
constraints are evaluated for every plan of a family pushed through every wall of the room with every gap of a list, at
rest and moving, contact early and late; what is accepted must be inside the room at every time from now on (exact
support of the reference shape against the walls of a reference room), and what is clearly inside must be accepted."""
import itertools
import numpy as np
from casadi import DM
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Curve, Stub
from mc.vehlib import KINDS
from mc import shapelib as sl
from mc.c11_separation import VEH, vehicle, Collision
from mc.c10_conditions import set_start, signals_at

BOUNDS = dict(quick='31 vehicle/shape variants x 3-5 of 10 (2D) / 6 (3D) rooms x fixed/free time and 2 start offsets, 2-3 segments with different rooms; every wall x 7 gaps x 2 plans',
              thorough='as quick with the full product of vehicles and rooms and more plans')
ASSUMPTIONS = ['rooms are convex polygons or boxes/prisms; circular rooms are not implemented by the toolbox',
               'three-dimensional vehicle shapes keep their orientation',
               'clearly inside: gap above 0.003 at rest, 0.4 when moving (convex hull property of B-splines)']

VEHS = list(VEH) + [('holonomic', ('circle', .3), ('rect', .5, .2)), ('dubins', ('rect', .4, .2), ('circle', .25))]
# specification of the shape, position, orientation of the room
ROOM2 = [(('square', 8.), None, None), (('rect', 9., 7.), (1.3, -.8), None), (('rect', 9., 7., .6), (1.3, -.8), None), (('rect', 9., 7.), (-.7, .4), .5),
         (('reg', 5., 8), (.5, .6), None), (('reg', 6., 3, .4), (-.3, 1.), None), (('poly', 'cw'), (.4, .2), None), (('poly', 'ccw'), (-1., 2.), None),
         (('rect', 7., 9., np.pi / 2), (2., -1.), -.3), (('poly', 'ccw'), (.2, -.3), 1.1)]
ROOM3 = [(('cube', 8.), None, None), (('cuboid', 9., 7., 8.), (1., -2., .5), None), (('cuboid', 9., 7., 8., (.3, -.4, .5)), (1., -2., .5), None),
         (('prism', 5., 7., 6), (.5, .3, -.8), None), (('prism', 6., 8., 3, (.2, .3, -.4)), None, None), (('cuboid', 9., 7., 8.), (-1., 1., .5), (0., .2, .7))]
POLY = np.array([[-4., -3.5, 1., 4.5, 3.], [-3., 2.5, 4.2, 1., -4.]])


def cases(tier):
    for vi, V in enumerate(VEHS):
        three = V[1][0] in ('sphere', 'cuboid', 'prism', 'plate')
        rooms = ROOM3 if three else ROOM2
        for ri in range(len(rooms)):
            for mode in ('fixed', 'free', 'frames2', 'frames3'):
                if mode.startswith('frames') and V[0] not in ('holonomic', 'holonomicorient', 'holonomic3d'):
                    continue
                if tier == 'quick':
                    if mode in ('fixed', 'free') and (ri + vi) % 2 == (mode == 'free'):
                        continue
                    if three and V[0].startswith('quad') and (ri + vi) % 3:
                        continue
                    if not three and vi > 12 and (ri + vi) % 3:
                        continue
                    if mode.startswith('frames') and ((vi + ri) % 5 or ((vi + ri) // 5) % 2 != (mode == 'frames3')):
                        continue
                yield dict(veh=vi, room=ri, mode=mode, tier=tier)


def room_shape(spec):
    if spec[0] == 'poly':
        return og.Polyhedron(POLY[:, ::-1].copy() if spec[1] == 'ccw' else POLY.copy())
    return sl.build(spec)


def room_points(R):
    spec, pos, ori = R
    P = POLY if spec[0] == 'poly' else sl.points(spec)
    d = P.shape[0]
    if ori is not None:
        P = (sl.rot2(ori) if d == 2 else sl.rot3(ori)).dot(P)
    return P + (np.zeros(d) if pos is None else np.array(pos, float))[:, None]


def walls(P):
    """outward unit normals and offsets of the convex hull of P"""
    from scipy.spatial import ConvexHull
    h = ConvexHull(P.T)
    eq = np.unique(np.round(h.equations, 9), axis=0)
    return eq[:, :-1], -eq[:, -1]


def toolbox_room(R):
    d = {'shape': room_shape(R[0])}
    if R[1] is not None:
        d['position'] = list(R[1])
    if R[2] is not None:
        d['orientation'] = R[2] if np.isscalar(R[2]) else list(R[2])
    return d


def run_case(r, case):
    no_solver()
    V = VEHS[case['veh']]
    name, tier = V[0], case['tier']
    frames = int(case['mode'][6:]) if case['mode'].startswith('frames') else 1
    T, knots = 4., 8
    several = case['veh'] >= len(VEH)
    K, v = vehicle((V[0], V[1]) if several else V, 0., knots)
    if several:
        v.shapes = [sl.build(s) for s in V[1:]]
    v.set_options({'room_constraints': True})
    if name == 'trailer':
        v.lead_veh.set_options({'room_constraints': True})
    dim = v.n_dim
    ROOMS = ROOM2 if dim == 2 else ROOM3
    idx = [(case['room'] + 3 * i) % len(ROOMS) for i in range(frames)]
    rooms = [toolbox_room(ROOMS[i]) for i in idx]
    ok, env = repo_call(r, 'environment', og.Environment, rooms if frames > 1 else rooms[0])
    if not ok:
        return
    if frames > 1:
        from omgtools.problems.multiframeproblem import MultiFrameProblem
        ok, prob = repo_call(r, 'problem', lambda: MultiFrameProblem(v, env, frames, options=dict(verbose=0)))
    else:
        ok, prob = repo_call(r, 'problem', lambda: og.Point2point(v, env, options=dict(verbose=0, horizon_time=T), freeT=case['mode'] == 'free'))
    if not ok:
        return
    # parts: list of shape specifications and rows of the pose they follow
    if name == 'trailer':
        prob.father.add(v.lead_veh)
        parts = [(V[1], slice(0, 3)), (V[2], slice(3, 6))]
    else:
        parts = [(s, slice(0, 3) if dim == 2 else slice(0, 6)) for s in V[1:]]
    ok, _ = repo_call(r, 'init of the problem', prob.init)
    if not ok:
        return
    C = Collision(prob, [env, v] + ([v.lead_veh] if name == 'trailer' else []))
    prob.problem = stub = Stub(prob, lambda x, par: None)
    s = np.linspace(0, T, 33)
    W = [walls(room_points(ROOMS[i])) for i in idx]
    cen = [room_points(ROOMS[i]).mean(axis=1) for i in idx]
    integrated = name in ('dubins', 'bicycle', 'agv', 'trailer', 'quadrotor3d')
    accn = rejn = 0
    nplan = 2 if tier == 'quick' else 4
    for pi, t in itertools.product(['rest'] + list(range(nplan - 1)), (0., .37 * T / knots) if case['mode'] == 'fixed' else (0.,)):
        moving = pi != 'rest'
        c = np.array(K.coeffs(1 if pi == 'rest' else pi, v, T, **(dict(amp=.15 if pi == 1 else .4) if name == 'trailer' else {})), float)
        if pi == 'rest':
            if name in ('dubins', 'bicycle', 'agv', 'trailer'):
                j = 1 if name == 'trailer' else 0
                c[:, j] = 1e-9 if name != 'trailer' else 0.
                c[:, j + 1] = .4
                if name == 'trailer':
                    c[:, 0] = .3
            elif name == 'quadrotor3d':
                c[:] = [v.g, 0., 0.]
            else:
                c[:] = c[3]
        x0 = np.zeros(8) if name != 'trailer' else np.array([0, 0, 0, 0, 0, 0.])
        cu = Curve(v.basis, c, 0., T)
        sig = K.signals(v, cu, s, x0)
        # points of the whole vehicle relative to the place where the plan starts
        pts, rad = [], []
        for sp, rows in parts:
            po = sig['pose'][rows]
            P, q = sl.solid(sp)
            for i in range(len(s)):
                pts.append(sl.placed(sp, po[:dim, i], po[2, i] if dim == 2 and name != 'quadrotor' else 0., P))
            rad += [q] * len(s)
        tim = np.concatenate([s] * len(parts))
        late = tim >= t - 1e-9
        def need(n, m):
            """support of the vehicle in direction n over the times of mask m"""
            return max(n.dot(p).max() + q for p, q, k in zip(pts, rad, m) if k)
        margin = .003 if not moving else .4
        first = True
        for fr in range(frames):
            A, B = W[fr]
            # the whole swept vehicle around the centre of the room
            sup = np.array([need(a, late) for a in A])
            al = np.array([need(a, late | True) for a in A])
            mid = cen[fr] - np.array([p.mean(axis=1) for p in pts]).mean(axis=0)
            for w, g in itertools.product(range(len(A)), ((-.8, -.25, -.01, .0045, .03, .5, None) if dim == 2 or tier != 'quick' else (-.25, -.01, .0045, .03, .5, None))):
                n, b = A[w], B[w]
                if g is None and w:
                    continue
                sh = mid if g is None else mid + n * (b - g - sup[w] - n.dot(mid))
                what = '%s with %s, room %s, %s, plan %s, %.3g s after the start of the horizon, gap %s to wall %s%s' % (
                    name, V[1:], ROOMS[idx[fr]], case['mode'], pi, t, g, np.round(n, 3), ' of segment %d' % fr if frames > 1 else '')
                xs = x0.copy()
                cs = c.copy()
                if name == 'trailer':
                    xs[3:5] += sh
                elif integrated:
                    xs[:dim] += sh
                else:
                    cs[:, :dim] += sh
                cus = Curve(v.basis, cs, 0., T)
                if first or integrated:
                    sg = signals_at(K, v, cus, 0., xs, t) if t else dict((k, z[:, 0]) for k, z in K.signals(v, cus, np.array([0., 1e-3]), xs).items())
                    for k in list(sg):
                        sg[k] = np.nan_to_num(np.array(sg[k], float))
                    set_start(K, name, v, sg)
                if first:
                    prob.initialize(0.)
                    prob.father.init_variables()
                    ok, _ = repo_call(r, 'solve (%s)' % what, prob.solve, t, .05)
                    if not ok:
                        return
                    guess = stub.log[-1][0]
                    stub.log[:] = []
                if first or integrated:
                    ok, p = repo_call(r, 'parameters (%s)' % what, prob.father.set_parameters, t)
                    if not ok:
                        return
                first = False
                x = C.ff._var_struct(DM(guess.cat))
                for k in range(frames):
                    q = cs if k == fr else c + (0 if integrated else 1) * np.pad(cen[k] - np.array([z.mean(axis=1) for z in pts]).mean(axis=0), (0, c.shape[1] - dim)) if not integrated else cs
                    x[v.label, 'splines_seg%d' % k] = q
                if case['mode'] == 'free':
                    x[prob.label, 'T'] = T
                if frames > 1:
                    for k in range(frames):
                        x[prob.label, 'T%d' % k] = T
                ok, acc = repo_call(r, 'constraints', C.accepted, np.array(DM(x.cat)), p)
                if not ok:
                    return
                acc = bool(acc[0])
                out = float(max(A.dot(sh) + sup - B))
                outall = float(max(A.dot(sh) + al - B))
                if acc:
                    accn += 1
                    if not r.check(out < 1e-6, lambda: '%s: accepted although a part of the vehicle is %.4g outside the room' % (what, out)):
                        return
                else:
                    rejn += 1
                    if not r.check(outall > -margin, lambda: '%s: rejected although the vehicle keeps %.4g from every wall' % (what, -outall)):
                        return
                r.state()
                r.outcome(V, idx[fr], pi, t, w, g, acc)
        r.trace()
    r.note('accepted', accn)
    r.note('rejected', rejn)
    r.check(accn > 3 and rejn > 3, '%s %s: only %d accepted, %d rejected' % (V, case['room'], accn, rejn))
