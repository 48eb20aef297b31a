"""C12: vehicles in one problem keep clear of each other and of nothing else.
The real problem of every enumerated fleet (vehicle kinds, several shapes per vehicle, obstacles, safety distances, fixed
time / free time / several segments) is built once. From the sparsity of its real constraints it is derived which bodies
each separating variable ties together; then every arrangement of an enumerated family (bodies chained around contact,
at rest and moving, contact early, half way and late) is judged: if every separating pair has an accepted candidate, all
bodies must be apart (exact distance of independent reference shapes), and bodies that are apart must be accepted."""
import itertools
import numpy as np
from casadi import Function, vertcat, DM
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver
from mc.vehlib import KINDS, greville
from mc import shapelib as sl
from mc.c11_separation import BIG
from mc.c10_conditions import set_start

BOUNDS = dict(quick='30 fleets of 1-4 vehicles with 0-3 obstacles; all chained arrangements of 2-5 directions x 3 gaps per link x rest/moving x contact at 3 times x 2 start offsets; 120-240 separating candidates for every pair at once',
              thorough='as quick with more directions, gaps and fleets')
ASSUMPTIONS = ['plans move along straight lines with a constant heading (turning plans are explored by C11)',
               'the safety distances of both vehicles, minus what is softened, bound the distance of a pair from below by the larger of the two']

C, R_, T_ = ('circle', .2), ('rect', .5, .2), ('tri',)
S, CU = ('sphere', .2), ('cuboid', .5, .3, .2)
# fleet: list of (vehicle, shapes, safety distance[, lead shapes]), obstacles: list of (shape, motion, options)
FLEETS = [
    dict(v=[('holonomic', [C], 0.), ('holonomic', [C], 0.)]),
    dict(v=[('holonomic', [R_], .1), ('holonomic', [T_], 0.)]),
    dict(v=[('holonomic', [C, T_], 0.), ('holonomic', [R_], .1)]),
    dict(v=[('holonomic', [C, R_], .1), ('holonomic', [T_, ('circle', .3)], .15)]),
    dict(v=[('holonomic', [C], 0.), ('holonomic', [R_], 0.), ('holonomic', [T_], 0.)]),
    dict(v=[('holonomic', [C], .1), ('holonomic', [R_], .1), ('holonomic', [C], .2)]),
    dict(v=[('holonomic', [C], .1), ('holonomic', [C], .1)], o=[(C, 'static')]),
    dict(v=[('holonomic', [C], 0.), ('holonomic', [C], 0.)], o=[(R_, 'vel'), (C, 'static')]),
    dict(v=[('holonomic', [C], 0.)] * 4),
    dict(v=[('holonomic', [C], 0.), ('holonomic', [C], 0.)], avoid=False, o=[(C, 'static')]),
    dict(v=[('holonomic', [C], .1)] * 3, avoid=False),
    dict(v=[('holonomic', [R_], .1)], o=[(C, 'static'), (R_, 'vel'), (T_, 'acc')]),
    dict(v=[('holonomic', [C, T_], .1)], o=[(C, 'static'), (R_, 'vel')]),
    dict(v=[('holonomic', [C], 0.)], o=[(C, 'static'), (C, 'static', dict(avoid=False))]),
    dict(v=[('holonomicorient', [R_], .1), ('holonomicorient', [T_], .1)]),
    dict(v=[('holonomicorient', [R_, T_], 0.), ('holonomic', [C], .1)], o=[(R_, 'static')]),
    dict(v=[('dubins', [R_], .1), ('dubins', [C], 0.)]),
    dict(v=[('dubins', [C, R_], 0.)], o=[(C, 'vel')]),
    dict(v=[('dubins', [R_, C], .1)], o=[(T_, 'static')]),
    dict(v=[('holonomic', [R_], .1), ('dubins', [R_], .1), ('quadrotor', [C], .05)]),
    dict(v=[('bicycle', [R_, C], 0.), ('agv', [R_], .1)]),
    dict(v=[('agv', [C, R_], .1), ('holonomic', [C], .1)]),
    dict(v=[('trailer', [('rect', .2, .3)], .1, [C]), ('holonomic', [C], 0.)]),
    dict(v=[('trailer', [C], 0., [R_]), ('trailer', [('rect', .2, .3)], .1, [C])]),
    dict(v=[('quadrotor', [C], 0.), ('quadrotor', [('circle', .3)], .1)], o=[(R_, 'vel')]),
    dict(v=[('holonomic3d', [S], 0.), ('holonomic3d', [CU], .1)]),
    dict(v=[('holonomic3d', [S, CU], .1), ('holonomic3d', [S], .1)], o=[(S, 'vel')]),
    dict(v=[('quadrotor3d', [S], .1), ('quadrotor3d_simple', [S], .1)], o=[(R_, 'static')]),
    dict(v=[('holonomic3d', [S], 0.)] * 3),
    dict(v=[('holonomic', [C], .1), ('holonomic', [R_], .1)], knots=[8, 5]),
    dict(v=[('holonomic', [C], .05)] * 12, few=True),
    dict(v=[('holonomic', [C], .02)], o=[(C, 'static')] * 11, few=True),
    dict(v=[('holonomic', [('circle', .05 + .03 * i) for i in range(11)], .02)], o=[(C, 'static')] * 11, few=True),
]
FR = [
    dict(v=[('holonomic', [C], .1)], o=[(C, 'static'), (R_, 'vel'), (C, 'acc')]),
    dict(v=[('holonomic', [R_, C], .1)], o=[(C, 'acc')]),
    dict(v=[('holonomic', [C], .1), ('holonomic', [R_], .1)]),
    dict(v=[('holonomic', [C], 0.), ('holonomic', [T_], .1)], o=[(C, 'vel')]),
    dict(v=[('holonomicorient', [R_], .1)], o=[(R_, 'acc')], rooms=[[0], []]),
    dict(v=[('holonomic', [R_], .1)], o=[(R_, 'vel'), (C, 'acc')], rooms=[[0], [1]]),
    dict(v=[('holonomic3d', [S], .1)], o=[(S, 'acc'), (CU, 'vel')]),
]
MOVES = {'static': ([0., 0., 0.], [0., 0., 0.]), 'vel': ([.15, -.2, .1], [0., 0., 0.]), 'acc': ([-.2, .1, .05], [.12, .06, -.06])}
SPEED = [[.1, .05, .1], [-.2, .15, 0.], [.15, -.25, .1], [.05, .2, -.1]]
TH = [0., .7, -1.1, 2.2]


def cases(tier):
    for i, f in enumerate(FLEETS):
        for mode in ('fixed', 'free'):
            if tier == 'quick' and (f.get('few') and mode == 'free' or sum(len(x[1]) for x in f['v']) * len(f.get('o', [])) > 100):
                continue
            yield dict(fleet=i, mode=mode, tier=tier)
    for i, f in enumerate(FR):
        for n in (2, 3):
            if n == 3 and (tier == 'quick' and i in (0, 3, 6) or f.get('rooms')):
                continue
            yield dict(fleet=i, mode='frames%d' % n, tier=tier)


def make(V, knots):
    name, shapes, sd = V[:3]
    o = dict(safety_distance=sd, room_constraints=False)
    sh = [sl.build(x) for x in shapes]
    if name == 'trailer':
        lead = og.Dubins(shapes=[sl.build(x) for x in V[3]], bounds=dict(vmax=1e3, wmin=-1e3, wmax=1e3), options=dict(o))
        lead.define_knots(knot_intervals=knots)
        v = og.Trailer(lead_veh=lead, shapes=sh, l_hitch=.6, bounds=dict(tmin=-1.5, tmax=1.5), options=dict(o))
    elif name in ('bicycle', 'agv'):
        v = getattr(og, dict(bicycle='Bicycle', agv='AGV')[name])(length=.4, options=dict(o))
        v.shapes = sh
    elif name == 'quadrotor':
        v = og.Quadrotor(shapes[0][1], options=dict(o))
    elif name == 'quadrotor3d':
        v = og.Quadrotor3D(shapes[0][1], options=dict(o, substitution=False))
    elif name == 'quadrotor3d_simple':
        v = og.SimpleQuadrotor3D(shapes[0][1], options=dict(o))
    else:
        v = dict(holonomic=og.Holonomic, holonomicorient=og.HolonomicOrient, dubins=og.Dubins, holonomic3d=og.Holonomic3D)[name](shapes=sh, bounds=dict(BIG), options=dict(o))
    v.define_knots(knot_intervals=knots)
    KINDS[name].conditions(v)
    return v


class Body(object):
    """something with shapes: parts = [(spec, offset along the heading)], moving along p0 + v t + a t^2/2"""

    def __init__(self, label, parts, sd, heading):
        self.labels, self.parts, self.sd, self.th = label, parts, sd, heading
        self.dim = max(sl.points(s).shape[0] for s, _ in parts)

    def base(self):
        out = []
        for s, off in self.parts:
            P = sl.points(s)
            if P.shape[0] == 2:
                P = sl.rot2(self.th).dot(P) + off * np.array([[np.cos(self.th)], [np.sin(self.th)]])
            out.append((P, sl.radius(s)))
        return out

    def path(self, s):
        return self.p0[:, None] + np.outer(self.v, s) + .5 * np.outer(self.a, s ** 2)


class Separators(object):
    """which variables of the real problem separate which bodies"""

    def __init__(self, prob, owners, bodies, env):
        ff = self.ff = prob.father
        pd = ff.problem_description
        names = [o._add_label(nm) for o in owners for nm in o._constraints]
        con = [pd['con'][nm] for nm in names]
        self.fun = Function('c', [pd['var'], pd['par']], [vertcat(*con)]).expand()
        self.lb = np.array(vertcat(*[ff._lb[nm] for nm in names])).ravel()
        self.ub = np.array(vertcat(*[ff._ub[nm] for nm in names])).ravel()
        var, par = ff._var_struct, ff._par_struct
        self.Jv = self.dense(self.fun.jac_sparsity(0, 0))
        Jp = self.dense(self.fun.jac_sparsity(0, 1))
        # who owns which variable / parameter
        self.vown, self.pown = self.own(var, ff, '_variables'), self.own(par, ff, '_parameters')
        bl = dict((l, i) for i, b in enumerate(bodies) for l in b.labels)
        vb = np.zeros((len(self.vown), len(bodies)), bool)
        seg = np.full(len(self.vown), -1)
        spl = np.zeros(len(self.vown), bool)
        for k, (l, n) in enumerate(self.vown):
            if l in bl and n.startswith('splines_seg'):
                vb[k, bl[l]] = True
                seg[k] = int(n[len('splines_seg'):])
                spl[k] = True
        pb = np.zeros((len(self.pown), len(bodies)), bool)
        for k, (l, n) in enumerate(self.pown):
            if l in bl:
                pb[k, bl[l]] = True
        rowb = self.Jv.dot(vb) | Jp.dot(pb)                       # row -> bodies
        self.sep = []
        groups = {}
        for k, (l, n) in enumerate(self.vown):
            if l == env.label:
                groups.setdefault(n, []).append(k)
        sizes = dict((n, s.shape) for n, s in env._variables.items())
        rows = dict((n, self.Jv[:, ix].any(1)) for n, ix in groups.items())
        vecs = [n for n in groups if sizes[n][1] > 1]
        offs = [n for n in groups if sizes[n][1] == 1]
        self.problems = []
        used = set()
        for n in vecs:
            m = [b for b in offs if (rows[b] & rows[n]).any()]
            if len(m) != 1 or m[0] in used:
                self.problems.append('direction variable %s is combined with the offset variables %s' % (n, m))
                continue
            used.add(m[0])
            r = rows[n] | rows[m[0]]
            b = tuple(np.where(rowb[r].any(0))[0])
            # softening: other variables of the bodies in these rows
            ex = [k for k in np.where(self.Jv[r].any(0))[0] if self.vown[k][0] in bl and not spl[k]]
            eps = {}
            for k in ex:
                eps.setdefault(self.vown[k], []).append(k)
            sg = sorted(set(seg[k] for k in np.where(self.Jv[r].any(0))[0] if spl[k]))
            for e in eps.values():
                r = r | self.Jv[:, e].any(1)
            self.sep.append(dict(a=np.array(groups[n]).reshape(sizes[n], order='F'), b=np.array(groups[m[0]]), rows=r, bodies=b, seg=sg, eps=eps, name=n))
        # evaluate only what concerns the separators
        every = np.any([s['rows'] for s in self.sep], 0) if self.sep else np.zeros(len(self.lb), bool)
        ix = np.where(every)[0]
        full = vertcat(*con)
        self.fun = Function('c', [pd['var'], pd['par']], [full[[int(k) for k in ix]] if len(ix) else DM(1, 1)]).expand()
        self.lb, self.ub = self.lb[ix], self.ub[ix]
        for s in self.sep:
            s['rows'] = s['rows'][ix]
        owner = {}
        for i, s in enumerate(self.sep):
            for e in s['eps']:
                if e in owner:
                    self.problems.append('violation %s of the safety distance is shared between the bodies %s and the bodies %s (segments %s, %s)' % (
                        e, self.sep[owner[e]]['bodies'], s['bodies'], self.sep[owner[e]]['seg'], s['seg']))
                owner[e] = i

    @staticmethod
    def dense(sp):
        m = np.zeros(sp.shape, bool)
        r, c = sp.get_triplet()
        m[r, c] = True
        return m

    @staticmethod
    def own(struct, ff, kind):
        x = struct(0.)
        out = [None] * x.cat.numel()
        for label, child in ff.children.items():
            for n, s in getattr(child, kind).items():
                z = struct(0.)
                z[label, n] = np.ones(s.shape)
                for k in np.where(np.array(DM(z.cat)).ravel())[0]:
                    out[k] = (label, n)
        return out

    def accepted(self, X, p):
        """X: nvar x N -> (n separators) x N"""
        G = np.array(self.fun(DM(X), DM(p.cat)))
        ok = (G <= self.ub[:, None] + 1e-9) & (G >= self.lb[:, None] - 1e-9)
        return np.array([ok[s['rows']].all(0) for s in self.sep])


def directions(dim, n):
    if dim == 2:
        return [np.array([np.cos(x), np.sin(x)]) for x in .23 + 2 * np.pi / n * np.arange(n)]
    g = [np.array(d, float) / np.linalg.norm(d) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
    return [g[i] for i in (4, 5, 9, 13, 15, 16, 20, 22, 25, 0)][:n]


def run_case(r, case):
    tier = case['tier']
    no_solver()
    frames = int(case['mode'][6:]) if case['mode'].startswith('frames') else 0
    F = (FR if frames else FLEETS)[case['fleet']]
    kn = F.get('knots', [8] * len(F['v']))
    vs = [make(V, k) for V, k in zip(F['v'], kn)]
    dim = vs[0].n_dim
    room = lambda: {'shape': og.Square(50.) if dim == 2 else og.Cube(50.)}
    avoid = F.get('avoid', True)
    oo = F.get('o', [])
    obs = []
    for o in oo:
        so = sl.build(o[0])
        obs.append(og.Obstacle(dict(position=[0.] * so.n_dim, velocity=[0.] * so.n_dim, acceleration=[0.] * so.n_dim), so, options=dict(o[2]) if len(o) > 2 else {}))
    rooms = [room() for _ in range(max(frames, 1))]
    if 'rooms' in F:
        for q, l in zip(rooms, F['rooms']):
            q['obstacles'] = [obs[i] for i in l]
    env = og.Environment(room=rooms if frames else rooms[0])
    for o in obs:
        env.add_obstacle(o)
    T = 4.
    Ts = [T] if not frames else [[1.5, 2.5], [1., 2., 1.5]][frames - 2]
    t_end = sum(Ts)
    fleet = vs if len(vs) > 1 else vs[0]
    if frames:
        ok, prob = repo_call(r, 'problem', lambda: og.MultiFrameProblem(fleet, env, frames, options=dict(verbose=0, inter_vehicle_avoidance=avoid)) if hasattr(og, 'MultiFrameProblem') else __import__('omgtools.problems.multiframeproblem', fromlist=['x']).MultiFrameProblem(fleet, env, frames, options=dict(verbose=0, inter_vehicle_avoidance=avoid)))
    else:
        ok, prob = repo_call(r, 'problem', lambda: og.Point2point(fleet, env, options=dict(verbose=0, horizon_time=T, inter_vehicle_avoidance=avoid), freeT=case['mode'] == 'free'))
    if not ok:
        return
    owners = [env] + obs + list(vs)
    for v in vs:
        if hasattr(v, 'lead_veh'):
            prob.father.add(v.lead_veh)
            owners.append(v.lead_veh)
    ok, _ = repo_call(r, 'init of the problem', prob.init)
    if not ok:
        return
    bodies = []
    for k, (V, v) in enumerate(zip(F['v'], vs)):
        parts = [(s, -.6 if V[0] == 'trailer' else 0.) for s in V[1]] + ([(s, 0.) for s in V[3]] if V[0] == 'trailer' else [])
        labels = [v.label] + ([v.lead_veh.label] if V[0] == 'trailer' else [])
        b = Body(labels, parts, V[2], TH[k % 4] if V[0] in ('dubins', 'bicycle', 'agv', 'trailer', 'holonomicorient') else 0.)
        b.veh, b.kind, b.avoid = v, V[0], True
        bodies.append(b)
    for o, ob in zip(oo, obs):
        b = Body([ob.label], [(o[0], 0.)], 0., 0.)
        b.veh, b.obs, b.move, b.avoid = None, ob, o[1], (o[2].get('avoid', True) if len(o) > 2 else True)
        bodies.append(b)
    S = Separators(prob, owners, bodies, env)
    for m in S.problems:
        r.fail(m)
    if S.problems:
        return
    # one separator per pair of shapes and segment, nothing else
    nv = len(vs)
    want = {}
    for sg in range(max(frames, 1)):
        for i, j in itertools.combinations(range(len(bodies)), 2):
            n = 0
            if j < nv:
                n = len(bodies[i].parts) * len(bodies[j].parts) if avoid else 0
            elif i < nv and bodies[j].avoid and ('rooms' not in F or j - nv in F['rooms'][sg]):
                n = len(bodies[i].parts)
            want[i, j, sg] = n
    got = {}
    for s in S.sep:
        if len(s['bodies']) != 2 or len(s['seg']) != 1:
            r.fail('the separating variable %s is shared: it ties the bodies %s in segments %s together' % (s['name'], s['bodies'], s['seg']))
            return
        s['seg'] = s['seg'][0]
        got[s['bodies'] + (s['seg'],)] = got.get(s['bodies'] + (s['seg'],), 0) + 1
    for k, n in want.items():
        g = got.get(k, 0)
        if not r.check(g >= n and (n or not g), lambda: 'bodies %d and %d (%d vehicles, then obstacles), segment %d: %d separating pairs instead of %d' % (k[0], k[1], nv, k[2], g, n)):
            return
    r.state()
    explore(r, case, F, S, prob, bodies, nv, Ts, want, avoid, frames)


def explore(r, case, F, S, prob, bodies, nv, Ts, want, avoid, frames):
    tier = case['tier']
    few = F.get('few')
    dim = bodies[0].dim
    t_end = sum(Ts)
    nb = len(bodies)
    cuts = np.r_[0., np.cumsum(Ts)]
    s = np.unique(np.r_[np.linspace(0, t_end, 25), cuts])
    nd, gaps = (5, (-.1, .02, .3)) if nb == 2 else (3, (-.1, .02, .3)) if nb == 3 else (2, (-.1, .02)) if nb < 8 else (1, (.02,))
    if tier != 'quick':
        nd, gaps = (10, (-.3, -.02, .004, .02, .3, 1.2)) if nb == 2 else (5, gaps) if nb == 3 else (3, (-.1, .02)) if nb < 6 else (2, (.02,)) if nb < 8 else (1, (.02,))
    dirs = directions(dim, nd)
    links = list(itertools.product(range(nd), gaps))
    chains = itertools.product(links, repeat=nb - 1) if not few else [tuple((0, g if k == z else .02) for k in range(nb - 1)) for z in range(nb - 1) for g in (-.1, .02)]
    chains = list(chains)
    if tier == 'quick':
        heavy = sum(len(b.parts) for b in bodies) > 4 or any(b.veh is not None and b.kind in ('dubins', 'bicycle', 'agv', 'quadrotor3d') for b in bodies)
        # strides without a factor 2 or 3, so that every gap and direction comes along
        if few:
            chains = chains[1::7]
        elif nb > 2:
            chains = chains[::{(0, 'fixed'): 5, (0, 'free'): 7, (1, 'fixed'): 13, (1, 'free'): 23}.get((int(heavy), case['mode']), 5)]
        else:
            chains = chains[::4 if case['mode'] == 'fixed' else 7]
    cd = directions(dim, 8)
    ff = S.ff
    bases = [b.base() for b in bodies]
    accn = rejn = 0
    t_offs = (0., .4) if case['mode'] == 'fixed' and 'knots' not in F else (0.,)
    for ci, ch in enumerate(chains):
        for moving, istar, t in itertools.product((False, True), (0, len(s) // 2, len(s) - 1), t_offs):
            if not moving and istar:
                continue
            if t and (ci + istar) % 3:
                continue
            if few and moving != bool(ci % 2):
                continue
            # --- arrangement
            st = s[istar]
            for k, b in enumerate(bodies):
                d = 3 if dim == 3 and b.dim == 3 else 2
                b.a = np.zeros(dim)
                if b.veh is None:
                    v, a = MOVES[b.move]
                    b.v, b.a = np.r_[v][:dim] * moving, np.r_[a][:dim] * moving
                else:
                    b.v = np.array(SPEED[k % 4])[:dim] * moving
                    if b.kind in ('dubins', 'bicycle', 'agv', 'trailer'):
                        b.v = (.15 + .05 * k) * moving * np.array([np.cos(b.th), np.sin(b.th)])
                if b.dim == 2 and dim == 3:
                    b.v[2] = b.a[2] = 0.
                rel = b.v * st + .5 * b.a * st ** 2
                if k == 0:
                    b.p0 = np.array([.4, -.3, .2])[:dim] - rel
                else:
                    di, g = ch[k - 1]
                    dd = dirs[di] if b.dim == dim and bodies[k - 1].dim == dim else np.r_[directions(2, 8)[di], 0.]
                    hi = max((dd[:P.shape[0]].dot(P)).max() + R for P, R in bases[k - 1])
                    lo = min((dd[:P.shape[0]].dot(P)).min() - R for P, R in bases[k])
                    safe = (bodies[k - 1].sd + b.sd) * (ci % 2)
                    prev = bodies[k - 1].path(np.array([st]))[:, 0]
                    b.p0 = prev + dd * (hi - lo + g + safe) - rel
            paths = [b.path(s) for b in bodies]
            what = 'fleet %s, obstacles %s, %s time, chain %s, %s, contact at time %.3g, start offset %s' % (F['v'][:4], F.get('o', [])[:4], case['mode'], ch[:4], 'moving' if moving else 'at rest', st, t)
            # --- tell the toolbox
            x = ff._var_struct(0.)
            for k, b in enumerate(bodies):
                if b.veh is None:
                    od = b.dim
                    pos = b.path(np.array([t]))[:od, 0]
                    b.obs.set_state(dict(position=list(pos), velocity=list((b.v + b.a * t)[:od]), acceleration=list(b.a[:od])))
                else:
                    tell(S, x, b, t, Ts)
            prob.initialize(0.)
            ok, p = repo_call(r, 'parameters (%s)' % what, prob.father.set_parameters, t)
            if not ok:
                return
            if case['mode'] == 'free':
                x[prob.label, 'T'] = Ts[0]
            for j in range(frames):
                x[prob.label, 'T%d' % j] = Ts[j]
            x = np.array(DM(x.cat)).ravel()
            # --- candidates: the same list for every separating pair
            cand = [(u, lam, ep) for u in list(range(len(cd))) + ['link', 'track'] for lam in (-.3, .02, .5, .98, 1.3) for ep in ((0, 0), (1, 1), (.5, 0))]
            if few:
                cand = [c for c in cand if c[2] != (.5, 0) and (c[0] in (0, 3, 4, 'link', 'track')) and c[1] in (.02, .5, 1.3)]
            X = np.repeat(x[:, None], len(cand), 1)
            gapc = {}
            for q in S.sep:
                i, j = q['bodies']
                t0, t1 = cuts[q['seg']], cuts[q['seg'] + 1]
                n = q['a'].shape[0]
                # ends of the linear pieces of the separating plane
                kk = [kn for kn in F.get('knots', [8])]
                tk = t0 + (t1 - t0) * (np.linspace(0, 1, n) if len(set(kk)) == 1 else np.unique(np.round(np.concatenate([np.linspace(0, 1, m + 1) for m in kk]), 9)))
                pi, pj = bodies[i].path(tk), bodies[j].path(tk)
                adim = q['a'].shape[1]
                ups = {}
                for u in list(range(len(cd))) + ['link', 'track']:
                    if u == 'link':
                        di = ch[max(i, j) - 1][0]
                        al = np.repeat((dirs[di] if bodies[i].dim == dim and bodies[j].dim == dim else np.r_[directions(2, 8)[di], 0.])[None], n, 0)
                    elif u == 'track':
                        w = (pj - pi).T.copy()
                        w[:, adim:] = 0.
                        al = w / np.maximum(np.linalg.norm(w, axis=1), 1e-9)[:, None]
                    else:
                        al = np.repeat(cd[u][None], n, 0)
                    al = al.copy()
                    al[:, adim:] = 0.
                    al = al / np.maximum(1e-12, np.linalg.norm(al, axis=1))[:, None] * .9999
                    h = [np.max([(al[:, :P.shape[0]].dot(P)).max(1) + R * np.linalg.norm(al, axis=1) for P, R in bases[i]], 0) + (al * pi.T).sum(1)]
                    o = [np.min([(al[:, :P.shape[0]].dot(P)).min(1) - R * np.linalg.norm(al, axis=1) for P, R in bases[j]], 0) + (al * pj.T).sum(1)]
                    ups[u] = al, h[0], o[0]
                sdi, sdj = bodies[i].sd, bodies[j].sd
                en = list(q['eps'])
                for c, (u, lam, ep) in enumerate(cand):
                    al, h, o = ups[u]
                    lo, hi = h + sdi * (1 - ep[0]) + .0015, o - sdj * (1 - ep[1]) - .0015
                    X[q['a'].ravel(order='F'), c] = al[:, :adim].ravel(order='F')
                    X[q['b'], c] = lo + lam * (hi - lo)
                    for e in en:
                        bi = 0 if e[0] in bodies[i].labels else 1
                        X[q['eps'][e], c] = ep[bi] * bodies[(i, j)[bi]].sd
            ok, acc = repo_call(r, 'constraints', S.accepted, X, p)
            if not ok:
                return
            for q, row in zip(S.sep, acc):
                q['acc'] = set(cand[c][2] for c in np.where(row)[0])
                q['who'] = row
            # --- judge
            for (i, j, sg), n in want.items():
                if not n:
                    continue
                t0, t1 = cuts[sg], cuts[sg + 1]
                idx = [k for k in range(len(s)) if t0 - 1e-9 <= s[k] <= t1 + 1e-9 and s[k] >= t - 1e-9]
                seps = [q for q in S.sep if q['bodies'] == (i, j) and q['seg'] == sg]
                di, dj = bases[i], bases[j]
                dd = min(bodies[i].dim, bodies[j].dim)
                for ep in ((0, 0), (.5, 0), (1, 1)):
                    if few and ep == (.5, 0):
                        continue
                    every = all(ep in q['acc'] for q in seps)
                    accn += every
                    rejn += not every
                    need = max(bodies[i].sd * (1 - ep[0]), bodies[j].sd * (1 - ep[1]))
                    if every:
                        # cheap bound first
                        dist = min(sl.hull_distance(P[:dd] + paths[i][:dd, [k]], Q[:dd] + paths[j][:dd, [k]]) - Ra - Rb for k in idx[::1 if moving else len(idx)] for P, Ra in di for Q, Rb in dj)
                        if not r.check(dist > need - 1e-6, lambda: '%s: bodies %d and %d come as close as %.4g (required %.4g) in segment %d although every separating pair between them accepts a candidate' % (what, i, j, dist, need, sg)):
                            return
                    else:
                        g = max(min((d[:dd].dot(Q[:dd])).min() - (d[:dd].dot(P[:dd])).max() - Ra - Rb for P, Ra in di for Q, Rb in dj) + (d[:dd].dot(paths[j][:dd, idx_all(s, t0, t1)] - paths[i][:dd, idx_all(s, t0, t1)])).min() for d in cd if dim == dd)if dim == dd else -1.
                        if g - bodies[i].sd * (1 - ep[0]) - bodies[j].sd * (1 - ep[1]) > (.01 if not moving or not (bodies[i].a.any() or bodies[j].a.any()) else .06):
                            r.fail('%s: bodies %d and %d are %.3g apart in segment %d but some separating pair between them rejects every candidate (softening %s)' % (what, i, j, g, sg, ep))
                            return
                r.step(len(cand))
            r.state()
            r.outcome(F['v'], ch[:6], moving, [int(len(q['acc'])) for q in S.sep][:12])
    r.trace()
    r.note('accepted', accn)
    r.note('rejected', rejn)
    if any(want.values()):
        r.check(accn > 3 and rejn > 3, 'only %d accepted, %d rejected' % (accn, rejn))


def idx_all(s, t0, t1):
    return [k for k in range(len(s)) if t0 - 1e-9 <= s[k] <= t1 + 1e-9]


def tell(S, x, b, t, Ts):
    v, name, th = b.veh, b.kind, b.th
    p = b.path(np.array([t]))[:, 0]
    V = float(np.linalg.norm(b.v))
    t0 = 0.
    for sg, T in enumerate(Ts):
        g = greville(v.basis)
        if name in ('holonomic', 'holonomic3d', 'quadrotor', 'quadrotor3d_simple', 'holonomicorient'):
            c = (b.p0[None, :] + np.outer(t0 + g * T, b.v))
            if name == 'holonomicorient':
                c = np.c_[c, np.full(len(g), np.tan(th / 2))]
        elif name == 'quadrotor3d':
            c = np.tile([v.g, 0., 0.], (len(g), 1))
        else:
            tg = np.tan(th / 2)
            c = np.tile([V / (1 + tg * tg), tg], (len(g), 1))
            if name == 'trailer':
                c = np.c_[np.full(len(g), tg), c]
        x[v.label, 'splines_seg%d' % sg] = c
        t0 += T
    n = 3 if name == 'trailer' else 0
    if name in ('holonomic', 'holonomic3d'):
        sg = dict(state=p, input=b.v)
    elif name == 'holonomicorient':
        sg = dict(state=np.r_[p, th], input=np.r_[b.v, 0.])
    elif name == 'dubins':
        sg = dict(state=np.r_[p, th], input=np.r_[V, 0.])
    elif name in ('bicycle', 'agv'):
        sg = dict(state=np.r_[p, th, 0.], input=np.r_[V, 0.])
    elif name == 'trailer':
        sg = dict(state=np.r_[p - .6 * np.array([np.cos(th), np.sin(th)]), th, p, th], input=np.r_[V, 0.])
    elif name == 'quadrotor':
        sg = dict(state=np.r_[p, b.v, 0.], input=np.r_[v.g, 0.], dspl=b.v, ddspl=0 * b.v)
    elif name == 'quadrotor3d_simple':
        sg = dict(state=np.r_[p, b.v, 0., 0., 0.][:len(np.ravel(v.prediction['state']))], input=np.r_[v.g, 0., 0.], dspl=b.v, ddspl=0 * b.v)
    else:
        sg = dict(state=np.r_[p, b.v, 0., 0.], input=np.r_[v.g, 0., 0.])
    sg = dict((k, np.array(a, float)) for k, a in sg.items())
    set_start(KINDS[name], name, v, sg)
