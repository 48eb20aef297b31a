"""C18: the global planner returns a valid path whenever one exists.
Search: every occupancy pattern of small grids (with every cell shape of a list), every start and goal: the path of the real
planner is compared with breadth-first search on the same grid. Occupancy: for every obstacle of an enumerated family (shapes,
sizes thinner and thicker than a cell, positions, orientations, growth) the blocked cells against the geometry. Snapping:
every point of a lattice against the nearest cells."""
import itertools, math
from collections import deque
import numpy as np
import omgtools as og
from omgtools.problems.globalplanner import AStarPlanner
from mc.core import repo_call
from mc import shapelib as sl

BOUNDS = dict(quick='all 2^9 occupancies of a 3x3 grid x 5 cell shapes x 81 start/goal pairs, all 2^8 of 4x2 and 2x4 grids, every third of the 2^12 of a 4x3 grid for 4 pairs, all single-gap walls of 6x6 and 7x5 grids with pairs of successive queries; 8 obstacle shapes x sizes x 25 positions x 4 grids x growth',
              thorough='as quick with all occupancies of 4x3 and 3x4 grids and all pairs')
ASSUMPTIONS = ['start and goal that fall in the same cell are not judged', 'obstacles that move or turn are not judged', 'the planner may approximate an obstacle by its axis-aligned bounding box',
               'which of the free cells around an occupied one a point is moved to is not judged', 'path length is not judged (the planner uses an inadmissible heuristic)']

DIMS = [(1., 1.), (.5, .5), (2., .5), (.4, 1.3), (.3, .3)]     # cell width, height


def cases(tier):
    for d in range(len(DIMS)):
        for lo in range(0, 512, 128):
            yield dict(kind='search', n=[3, 3], cell=d, lo=lo, hi=lo + 128, step=1, tier=tier)
        for n in ([4, 2], [2, 4]):
            yield dict(kind='search', n=n, cell=d, lo=0, hi=256, step=1, tier=tier)
        for n in ([4, 3], [3, 4]):
            for lo in range(0, 4096, 512):
                yield dict(kind='search', n=n, cell=d, lo=lo, hi=lo + 512, step=5 if tier == 'quick' else 1, tier=tier)
        for n in ([6, 6], [7, 5], [1, 5]):
            yield dict(kind='walls', n=n, cell=d, tier=tier)
    for si in range(len(OBS)):
        for gi in range(len(GRIDS)):
            yield dict(kind='occupancy', shape=si, grid=gi, tier=tier)
    for gi in range(len(GRIDS)):
        yield dict(kind='snap', grid=gi, tier=tier)


def run_case(r, case):
    globals()['run_' + case['kind']](r, case)


# ---------------------------------------------------------------------------- search

def planner(n, cell, pos=(0., 0.), obstacles=(), veh=None):
    w, h = n[0] * cell[0], n[1] * cell[1]
    e = og.Environment(room={'shape': og.Rectangle(width=w, height=h), 'position': list(pos)})
    for o in obstacles:
        e.add_obstacle(o)
    return AStarPlanner(e, list(n), list(pos), list(pos), options={} if veh is None else {'veh_size': veh})


def center(n, cell, c, pos=(0., 0.)):
    return [pos[k] - .5 * n[k] * cell[k] + (c[k] + .5) * cell[k] for k in range(2)]


def cell_of(n, cell, p, pos=(0., 0.)):
    c = [(p[k] - pos[k] + .5 * n[k] * cell[k]) / cell[k] - .5 for k in range(2)]
    q = [int(round(x)) for x in c]
    return (tuple(q), max(abs(a - b) for a, b in zip(c, q)))


def moves(n, occ, c):
    ok = lambda x, y: 0 <= x < n[0] and 0 <= y < n[1] and (x, y) not in occ
    for dx, dy in itertools.product((-1, 0, 1), repeat=2):
        if (dx or dy) and ok(c[0] + dx, c[1] + dy):
            if dx and dy and not (ok(c[0] + dx, c[1]) and ok(c[0], c[1] + dy)):
                continue
            yield (c[0] + dx, c[1] + dy)


def reachable(n, occ, s):
    seen, q = {s}, deque([s])
    while q:
        for m in moves(n, occ, q.popleft()):
            if m not in seen:
                seen.add(m)
                q.append(m)
    return seen


def query(r, what, p, n, cell, occ, s, g, reach, pos=(0., 0.)):
    try:
        path = p.get_path(center(n, cell, s, pos), center(n, cell, g, pos))
    except RuntimeError:
        path = None
    if g not in reach:
        return r.check(path is None, lambda: '%s: from %s to %s a path %s is returned although there is none' % (what, s, g, path))
    if not r.check(path is not None, lambda: '%s: from %s to %s no path is found although there is one' % (what, s, g)):
        return False
    cs = [cell_of(n, cell, q, pos) for q in path]
    if not r.check(all(e < 1e-6 for _, e in cs), lambda: '%s: waypoints of %s are not centers of cells' % (what, path)):
        return False
    cs = [c for c, _ in cs]
    if not r.check(cs[0] == s and cs[-1] == g, lambda: '%s: the path %s does not lead from %s to %s' % (what, cs, s, g)):
        return False
    for a, b in zip(cs[:-1], cs[1:]):
        if not r.check(b in set(moves(n, occ, a)), lambda: '%s: the path %s makes the move %s -> %s that is not allowed' % (what, cs, a, b)):
            return False
    r.check(len(set(cs)) == len(cs), lambda: '%s: the path %s visits a cell twice' % (what, cs))
    return True


def run_search(r, case):
    n, cell = case['n'], DIMS[case['cell']]
    cells = [(x, y) for x in range(n[0]) for y in range(n[1])]
    p = planner(n, cell)
    big = len(cells) > 9
    for m in range(case['lo'], case['hi'], case['step']):
        occ = set(c for k, c in enumerate(cells) if m >> k & 1)
        p.grid.occupied = []
        p.grid.block([list(c) for c in sorted(occ)])
        free = [c for c in cells if c not in occ]
        what = 'grid %s, cells %s, occupied %s' % (n, cell, sorted(occ))
        for s in free[::3] if big else free:
            reach = reachable(n, occ, s)
            for g in free[::-3] if big else free:
                if s != g and not query(r, what, p, n, cell, occ, s, g, reach):
                    return
        r.state()
        r.outcome(case['cell'], n, m)
    r.trace()


def run_walls(r, case):
    n, cell = case['n'], DIMS[case['cell']]
    p = planner(n, cell, (.7, -1.3))
    pos = (.7, -1.3)
    cells = [(x, y) for x in range(n[0]) for y in range(n[1])]
    walls = [[]]
    for x in range(1, n[0] - 1):
        for gap in [None] + list(range(n[1])):
            walls.append([(x, y) for y in range(n[1]) if y != gap])
            for x2 in range(x + 2, n[0] - 1):
                walls.append([(x, y) for y in range(n[1]) if y != gap] + [(x2, y) for y in range(n[1]) if gap is None or y != n[1] - 1 - gap])
    for y in range(1, n[1] - 1):
        for gap in [None] + list(range(n[0])):
            walls.append([(x, y) for x in range(n[0]) if x != gap])
    # diagonal walls: only to be passed by cutting corners
    for k in range(2, n[0] + n[1] - 2):
        walls.append([c for c in cells if c[0] + c[1] == k])
        walls.append([c for c in cells if c[0] - c[1] + n[1] == k])
    corners = [(0, 0), (n[0] - 1, n[1] - 1), (0, n[1] - 1), (n[0] - 1, 0), (n[0] // 2, n[1] // 2)]
    for w in walls:
        occ = set(w)
        p.grid.occupied = []
        p.grid.block([list(c) for c in w])
        what = 'grid %s, cells %s, occupied %s' % (n, cell, sorted(occ))
        ok = [c for i, c in enumerate(corners) if c not in occ and c not in corners[:i]]
        for s in ok:
            reach = reachable(n, occ, s)
            for g in ok:
                # two queries after each other: the second starts afresh
                if s != g and not (query(r, what, p, n, cell, occ, s, g, reach, pos) and query(r, what + ' (second query)', p, n, cell, occ, s, g, reach, pos)):
                    return
        r.state()
        r.outcome(case['cell'], n, str(w))
    r.trace()


# ---------------------------------------------------------------------------- occupancy

GRIDS = [([8, 8], (1., 1.), (0., 0.)), ([10, 6], (.5, .8), (1.2, -.7)), ([5, 9], (.7, .35), (-2., 3.)), ([12, 12], (.3, .3), (.05, .05))]
OBS = [('rect', 1.7, .9), ('rect', 2.6, .12), ('rect', .1, 2.2), ('rect', .05, .05), ('rect', 1.4, .3, .7), ('circle', .6), ('circle', .07), ('tri',), ('beam', 1.5, .2), ('reg', .5, 6),
       ('rect', 1.2, .4, -1.2)]


def bbox(spec, th=0.):
    P = sl.points(spec)
    P = sl.rot2(th).dot(P)
    R = sl.radius(spec) if spec[0] in ('circle', 'beam') else 0.
    return P.min(axis=1) - R, P.max(axis=1) + R, P, R


def overlap(lo, hi, a, b):
    return all(lo[k] < b[k] and a[k] < hi[k] for k in range(2))


def run_occupancy(r, case):
    spec = OBS[case['shape']]
    n, cell, pos = GRIDS[case['grid']]
    w, h = n[0] * cell[0], n[1] * cell[1]
    offs = [(a, b) for a in (0., .13, .5) for b in (0., .21, .5)] if case['tier'] != 'quick' else [(0., 0.), (.25, .5), (.13, .37), (.5, .02), (.4, .25)]
    for veh in (None, [0., 0.], [.15, .15], [.3, .1], [.2], .2):
        grow = (0., 0.) if veh is None else (veh, veh) if isinstance(veh, float) else (veh[0], veh[0]) if len(veh) == 1 else tuple(veh)
        for fx, fy in offs:
            for base in ([n[0] // 2, n[1] // 2], [0, 0], [n[0] - 1, 1]):
                for th in (0., .5) if spec[0] != 'circle' else (0.,):
                    c = center(n, cell, base, pos)
                    c = [c[0] + fx * cell[0], c[1] + fy * cell[1]]
                    many = (fx + fy) < .5
                    obs = [og.Obstacle(dict(position=list(c), orientation=th), shape=sl.build(spec))]
                    boxes = [(spec, c, th)]
                    if many:      # a second one, of another shape, before it
                        c2 = center(n, cell, [1, n[1] - 1], pos)
                        obs.insert(0, og.Obstacle(dict(position=list(c2)), shape=og.Circle(.2)))
                        boxes.append((('circle', .2), c2, 0.))
                    what = 'grid of %s cells of %s at %s, obstacle %s at %s turned %s, vehicle size %s%s' % (n, cell, pos, spec, np.round(c, 4), th, veh, ', and a circle' if many else '')
                    ok, p = repo_call(r, what, planner, n, cell, pos, obs, veh)
                    if not ok:
                        return
                    for x in range(n[0]):
                        for y in range(n[1]):
                            m = center(n, cell, (x, y), pos)
                            a, b = [m[k] - .5 * cell[k] for k in range(2)], [m[k] + .5 * cell[k] for k in range(2)]
                            must = may = False
                            for sp, cc, t in boxes:
                                lo, hi, P, R = bbox(sp, t)
                                lo, hi = lo + cc - np.array(grow), hi + cc + np.array(grow)
                                # the bounding box may be blocked; what really touches the grown obstacle must be
                                may |= overlap(lo - 2e-4, hi + 2e-4, a, b)
                                if overlap(lo + 2e-4, hi - 2e-4, a, b):
                                    must |= touches(P + np.array(cc)[:, None], R, grow, a, b)
                            blocked = not p.grid.free([x, y])
                            if not r.check((blocked or not must) and (may or not blocked), lambda: '%s: cell %s is %s although it %s' % (
                                    what, (x, y), 'blocked' if blocked else 'free', 'touches the grown obstacle' if must else 'is clear of it')):
                                return
                    r.state()
                    r.outcome(what)
    r.trace()


def touches(P, R, grow, a, b):
    """does the box (a, b) come (clearly) within the shape P+disc(R), grown by the box of the vehicle"""
    V = np.array([[a[0], b[0], a[0], b[0]], [a[1], a[1], b[1], b[1]]])
    G = np.array([[-grow[0], grow[0], -grow[0], grow[0]], [-grow[1], -grow[1], grow[1], grow[1]]])
    Q = (P[:, :, None] + G[:, None, :]).reshape(2, -1)
    c = V.mean(axis=1, keepdims=True)
    V = c + (V - c) * (1 - 1e-3)      # clearly
    return sl.hull_distance(V, Q) < R - 1e-3 if R else sl.hull_distance(V, Q) < 1e-9


# ---------------------------------------------------------------------------- snapping

def run_snap(r, case):
    n, cell, pos = GRIDS[case['grid']]
    p = planner(n, cell, pos)
    w, h = n[0] * cell[0], n[1] * cell[1]
    pats = [[], [(0, 0)], [(n[0] - 1, n[1] - 1), (n[0] - 2, n[1] - 1)], [(2, 2), (2, 3), (1, 2)], [(x, y) for x in range(1, 4) for y in range(1, 4)], [(x, 0) for x in range(n[0])],
            [(1, 1), (0, 1), (2, 1), (1, 0), (1, 2), (0, 0), (2, 2), (0, 2)]]
    for occ in pats:
        p.grid.occupied = []
        p.grid.block([list(c) for c in occ])
        for fx in np.linspace(-.6, .6, 31 if case['tier'] == 'quick' else 61):
            for fy in np.linspace(-.6, .6, 29 if case['tier'] == 'quick' else 57):
                q = [pos[0] + fx * w, pos[1] + fy * h]
                c = [(q[k] - pos[k]) / cell[k] + .5 * n[k] - .5 for k in range(2)]
                near = [[int(round(x)) for x in (c[k] - 1e-6, c[k] + 1e-6)] for k in range(2)]
                near = [sorted(set(min(max(v, 0), n[k] - 1) for v in near[k])) for k in range(2)]
                want = set(itertools.product(*near))
                what = 'grid of %s cells of %s at %s with %s occupied, point %s' % (n, cell, pos, occ, q)
                ok, g = repo_call(r, what, p.grid.move_to_gridpoint, list(q))
                if not ok:
                    return
                g = tuple(int(x) for x in g)
                free = [x for x in want if x not in occ]
                if len(free) == len(want):
                    if not r.check(g in want, lambda: '%s is moved to %s instead of %s' % (what, g, want)):
                        return
                else:
                    around = set(m for x in want for m in itertools.product(*[(x[0] - 1, x[0], x[0] + 1), (x[1] - 1, x[1], x[1] + 1)]) if 0 <= m[0] < n[0] and 0 <= m[1] < n[1] and m not in occ)
                    if around:
                        if not r.check(g in around, lambda: '%s is moved to %s instead of one of %s' % (what, g, sorted(around))):
                            return
                    else:
                        r.check(0 <= g[0] < n[0] and 0 <= g[1] < n[1], lambda: '%s is moved to %s, outside the grid' % (what, g))
        r.state()
        r.outcome(case['grid'], str(occ))
    # a point in the middle of occupied cells: there is no path from or to it, or one along free cells
    occ = [(x, y) for x in range(3) for y in range(3)]
    p.grid.occupied = []
    p.grid.block([list(c) for c in occ])
    for s, g in (((1, 1), (n[0] - 1, n[1] - 1)), ((n[0] - 1, n[1] - 1), (1, 1)), ((0, 0), (n[0] - 1, 0))):
        try:
            path = p.get_path(center(n, cell, s, pos), center(n, cell, g, pos))
        except RuntimeError:
            path = []
        cs = [cell_of(n, cell, q, pos)[0] for q in path]
        r.check(not any(c in occ for c in cs), lambda: 'grid of %s cells with %s occupied: the path %s from %s to %s uses occupied cells' % (n, occ, cs, s, g))
    r.trace()
