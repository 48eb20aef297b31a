"""C21: a G-code program is read with the meaning of its commands.
All programs up to a length over an alphabet of lines (motions with every subset of words, arcs of every direction and sweep,
comments, blank lines, line numbers, unsupported words) are read by the real reader and compared with an independent
interpreter of the text: one block per motion, start, end, centre, radius, direction and sweep; division into parts,
connections, re-use of the reader, subfiles, shifting and scaling."""
import io, itertools, math, os, re, shutil, tempfile, builtins
import numpy as np
from omgtools.gui.gcode_reader import GCodeReader
from mc.core import repo_call

BOUNDS = dict(quick='all programs of 1..3 lines over 27 lines (20439), all of 4 lines over 18 of them (104976); 36 subfile layouts x 3 ways to open; 9 shift/scale pairs x 459 programs',
              thorough='all programs of 1..4 lines over 27 lines (551880); as quick otherwise')
ASSUMPTIONS = ['words are separated by white space, commands are spelled G00..G03 and start their line (a line number may precede)', 'arcs lie in the XY-plane',
               'the first command being G00 gives the position where the tool starts (no segment); any other first command starts in the origin',
               'G00/G01 without displacement give no segment', 'feedrate and spindle speed are not judged', 'motions of the main file precede its subfiles']


def f(x):
    return repr(round(x, 6))


def arc(code, off, sweep, words='both'):
    """line for an arc with centre at the current position + off, over sweep degrees"""
    def line(p):
        c = (p[0] + off[0], p[1] + off[1])
        a = math.radians(sweep) * (-1 if code == 'G02' else 1)
        v = (p[0] - c[0], p[1] - c[1])
        e = (c[0] + math.cos(a) * v[0] - math.sin(a) * v[1], c[1] + math.sin(a) * v[0] + math.cos(a) * v[1])
        ij = [w + f(o) for w, o in zip('IJ', off) if o != 0. or words == 'all']
        xy = [] if sweep == 360 else ['X%.9f' % e[0], 'Y%.9f' % e[1]]
        if words == 'swap':
            xy, ij = ij, xy
        return ' '.join([code] + xy + ij)
    return line


def const(t):
    return lambda p: t


LINES = [const('G00 X3 Y4'), const('G01 X10 Y-5'), const('G01 X2.5'), const('G01 Y-.75'), const('G01 Z-1'), const('G00 X0 Y0 Z2.'), const('G01 X+1 Y2 Z-3'), const('G01'),
         arc('G02', (5., 0.), 90, 'both'), arc('G02', (0., -2.), 180), arc('G02', (-3., 4.), 270), arc('G03', (0., 5.), 30), arc('G03', (-1., 0.), 300, 'all'),
         arc('G03', (3., 4.), 360), arc('G02', (0., 1.5), 360), arc('G03', (1., -1.), 180, 'swap'),
         const(''), const('(G01 X99 Y99)'), const('N10 G01 X7 Y7'), const('N20 M03 S30000'), const('G17'), const('G01 X1 Y1 F444 S3000 (move to X20 Y-3 corner)'), const('%'),
         const('G642 BRISK'), const('   N30 G01 G41 Y3 M08  '), const('T1 M6'), const('N40 (G02 arc) G00 X6 (retract) Z5')]
MID = [0, 2, 4, 5, 6, 8, 10, 11, 13, 14, 15, 16, 17, 18, 20, 21, 23, 26]
SMALL = [1, 3, 5, 9, 12, 13, 17, 21]


def programs(sel, n):
    return itertools.product(sel, repeat=n)


def cases(tier):
    for k in range(len(LINES)):
        yield dict(kind='program', first=k, n=3, sel='all', tier=tier)
    for k in range(len(LINES)) if tier != 'quick' else MID:
        yield dict(kind='program', first=k, n=4, sel='all' if tier != 'quick' else 'mid', tier=tier)
    yield dict(kind='reuse', tier=tier)
    yield dict(kind='subfiles', tier=tier)
    for k in range(len(LINES)):
        yield dict(kind='convert', first=k, tier=tier)


def run_case(r, case):
    globals()['run_' + case['kind']](r, case)


# ---------------------------------------------------------------------------- reference interpreter

NUM = re.compile(r'([A-Z])([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))')


def interpret(lines, st):
    """segments of a program; st = [position or None when nothing was commanded yet]"""
    segs = []
    for l in lines:
        t, depth = '', 0
        for ch in l:
            if ch == '(':
                depth = 1
            elif ch == ')' and depth:
                depth = 0
                t += ' '
            elif not depth:
                t += ch
        mode, w = None, {}
        for tok in t.split():
            if tok in ('G00', 'G01', 'G02', 'G03'):
                mode = tok
            m = NUM.fullmatch(tok)
            if m and m.group(1) in 'XYZIJK':
                w[m.group(1)] = float(m.group(2))
        if mode is None:
            continue
        if st[0] is None and mode == 'G00':
            st[0] = [w.get(a, 0.) for a in 'XYZ']
            continue
        p = st[0] or [0., 0., 0.]
        e = [w.get(a, p[k]) for k, a in enumerate('XYZ')]
        st[0] = e
        if mode in ('G00', 'G01'):
            if e != p:
                segs.append(dict(type=mode, start=p, end=e))
        else:
            c = [p[0] + w.get('I', 0.), p[1] + w.get('J', 0.)]
            a0, a1 = math.atan2(p[1] - c[1], p[0] - c[0]), math.atan2(e[1] - c[1], e[0] - c[0])
            d = (a1 - a0) * (-1 if mode == 'G02' else 1)
            while d <= 1e-7:
                d += 2 * math.pi
            while d > 2 * math.pi + 1e-7:
                d -= 2 * math.pi
            segs.append(dict(type=mode, start=p, end=e, center=c, radius=math.hypot(p[0] - c[0], p[1] - c[1]), sweep=d))
    return segs


def near(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= tol for x, y in zip(a, b))


def compare(r, what, blocks, segs):
    if not r.check([b.type for b in blocks] == [s['type'] for s in segs], lambda: '%s: motions %s are read instead of %s' % (what, [b.type for b in blocks], [s['type'] for s in segs])):
        return False
    ok = True
    for k, (b, s) in enumerate(zip(blocks, segs)):
        w = '%s: segment %d' % (what, k)
        ok &= r.check(near([b.X0, b.Y0, b.Z0], s['start']) and near(b.start, s['start']), lambda: '%s starts in %s instead of %s' % (w, b.start, s['start']))
        ok &= r.check(near([b.X1, b.Y1, b.Z1], s['end']) and near(b.end, s['end']), lambda: '%s ends in %s instead of %s' % (w, b.end, s['end']))
        if 'center' in s:
            ok &= r.check(near(b.center[:2], s['center']), lambda: '%s has centre %s instead of %s' % (w, b.center, s['center']))
            ok &= r.check(abs(getattr(b, 'radius', math.nan) - s['radius']) < 1e-6, lambda: '%s has radius %s instead of %s' % (w, getattr(b, 'radius', None), s['radius']))
        if not ok:
            return False
        good, xy = repo_call(r, w + ': get_coordinates', b.get_coordinates)
        if not good:
            return False
        X = np.array(xy, dtype=float)
        ok &= r.check(near(X[0], s['start'], 1e-5) and near(X[-1], s['end'], 1e-5), lambda: '%s: the coordinates lead from %s to %s instead of from %s to %s' % (w, X[0], X[-1], s['start'], s['end']))
        if 'center' in s:
            d = X[:, :2] - s['center']
            ok &= r.check(np.all(np.abs(np.hypot(d[:, 0], d[:, 1]) - s['radius']) < 1e-5), lambda: '%s: coordinates leave the circle' % w)
            a = np.unwrap(np.arctan2(d[:, 1], d[:, 0]))
            sw = (a[-1] - a[0]) * (-1 if s['type'] == 'G02' else 1)
            mono = np.diff(a) * (-1 if s['type'] == 'G02' else 1)
            ok &= r.check(abs(sw - s['sweep']) < 1e-4 and mono.min() > -1e-9, lambda: '%s (%s): the coordinates turn over %.4f instead of %.4f rad' % (w, s['type'], sw, s['sweep']))
            ok &= r.check(abs(getattr(b, 'radius', math.nan) - s['radius']) < 1e-6 and near(b.center[:2], s['center']), lambda: '%s: centre or radius changed' % w)
        if not ok:
            return False
    return ok


def division(r, what, rd, blocks):
    if not blocks:
        return
    ok, parts = repo_call(r, what + ': get_block_division', rd.get_block_division, blocks)
    if ok:
        flat = [b for q in parts for b in q]
        r.check(len(flat) == len(blocks) and all(x is y for x, y in zip(flat, blocks)), lambda: '%s: the division changes the sequence of the blocks' % what)
        isz = lambda b: b.type in ('G00', 'G01') and b.Z0 != b.Z1
        r.check(all(len(q) > 0 for q in parts), lambda: '%s: the division has an empty part' % what)
        r.check(all(len(q) == 1 or not any(isz(b) for b in q) for q in parts), lambda: '%s: a movement in z is combined with other blocks' % what)
        r.check(not any(not isz(p[0]) and not isz(q[0]) for p, q in zip(parts[:-1], parts[1:]) if p and q), lambda: '%s: machining is divided without a movement in z' % what)
    ok, _ = repo_call(r, what + ': get_connections', rd.get_connections)
    if ok:
        C = np.array(rd.connections)
        exp = [b.start for b in blocks] + [blocks[-1].end, blocks[0].start]
        r.check(C.shape == (len(exp), 3) and np.allclose(C, exp, atol=1e-9), lambda: '%s: connections %s instead of %s' % (what, C.tolist(), exp))


def reader():
    rd = GCodeReader.__new__(GCodeReader)     # the constructor only adds a window to choose files
    rd.GCodes = ['G00', 'G01', 'G02', 'G03']
    rd.reset()
    return rd


def parse(r, what, rd, text):
    ok, _ = repo_call(r, what + ': read', rd.read, io.BytesIO(text.encode()))
    if not ok:
        return None
    ok, _ = repo_call(r, what + ': create_blocks', rd.create_blocks)
    return rd.get_gcode() if ok else None


def text_of(prog):
    """text and segments of a sequence of lines (arcs depend on the position reached)"""
    st, lines, segs = [None], [], []
    for k in prog:
        l = LINES[k](st[0] or [0., 0., 0.])
        lines.append(l)
        segs += interpret([l], st)
    return lines, segs


def run_program(r, case):
    sel = dict(all=range(len(LINES)), mid=MID, small=SMALL)[case['sel']]
    k0 = case['first']
    seen = set()
    for n in ([1, 2, 3] if case['n'] == 3 else [case['n']]):
        for rest in itertools.product(sel, repeat=n - 1):
            prog = (k0,) + rest
            lines, segs = text_of(prog)
            eol = '\r\n' if sum(prog) % 2 else '\n'
            what = 'program ' + ' | '.join(lines)
            rd = reader()
            b = parse(r, what, rd, eol.join(lines) + (eol if len(prog) % 2 else ''))
            r.trace()
            if b is None or not compare(r, what, b, segs):
                return
            division(r, what, rd, b)
            if r.fails:
                return
            seen.add(tuple((s['type'],) + tuple(round(x, 5) for x in s['start'] + s['end']) for s in segs))
    r.state(len(seen))
    r.outcome(case['first'], len(seen))


def run_reuse(r, case):
    """a reader that has read a program and was reset reads the next one as a fresh reader does"""
    rd = reader()
    for prog in itertools.product(SMALL, repeat=2):
        lines, segs = text_of(prog)
        what = 'program %s read by a reader that was reset' % ' | '.join(lines)
        rd.reset()
        b = parse(r, what, rd, '\n'.join(lines))
        r.trace()
        r.state()
        if b is None or not compare(r, what, b, segs):
            return


def in_scratch(fun):
    d, cwd = tempfile.mkdtemp(prefix='mc_c21_'), os.getcwd()
    try:
        os.chdir(d)
        return fun(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def run_subfiles(r, case):
    def go(d):
        os.mkdir('part')
        os.mkdir('part/subfiles')
        for nmain in range(3):
            for nsub in range(1, 4):
                for bits in range(4):
                    progs = [[SMALL[(nmain + k) % 8]] for k in range(nmain)]
                    subs = [[SMALL[(2 + 3 * k + bits) % 8], [16, 17, 18, 21][bits], SMALL[(5 + k) % 8]] for k in range(nsub)]
                    st, segs, main = [None], [], []
                    for p in progs:
                        l = LINES[p[0]](st[0] or [0.] * 3)
                        main.append(l)
                        segs += interpret([l], st)
                    for k, s in enumerate(subs):
                        sub = []
                        for q in s:
                            l = LINES[q](st[0] or [0.] * 3)
                            sub.append(l)
                            segs += interpret([l], st)
                        open('part/subfiles/s%d.nc' % k, 'w').write('\n'.join(sub) + '\n')
                        main.append('N%d L s%d.nc' % (10 * k, k))
                        if bits % 2:
                            main.append('')
                    open('part/main.nc', 'w').write('\n'.join(main) + '\n')
                    for name, wd in (('part/main.nc', d), (os.path.join(d, 'part', 'main.nc'), d), ('main.nc', os.path.join(d, 'part'))):
                        what = 'main file %s (opened as %s) with subfiles' % (main, name if name[0] != '/' else 'absolute path')
                        rd = reader()
                        os.chdir(wd)
                        ok, _ = repo_call(r, what + ': load_file', rd.load_file, name)
                        ok = ok and repo_call(r, what + ': read', rd.read)[0]
                        ok = ok and repo_call(r, what + ': create_blocks', rd.create_blocks)[0]
                        os.chdir(d)
                        r.trace()
                        r.state()
                        if not ok or not compare(r, what, rd.get_gcode(), segs):
                            return
    in_scratch(go)


MOTION = [0, 1, 2, 3, 5, 6, 8, 9, 10, 11, 12, 13, 15, 17, 18, 21, 24]


def run_convert(r, case):
    """shifting and scaling: the same program in which every commanded point p becomes (p - offset)*scale"""
    def go(d):
        for second in MOTION:
            prog = [1, case['first'], second]
            lines, segs = text_of(prog)
            for off in ((0., 0.), (2., -1.5), (-4., .25)):
                for sc in (1., 2.5, .5):
                    what = 'program %s shifted by %s and scaled by %s' % (' | '.join(lines), off, sc)
                    open('p.nc', 'w').write('\n'.join(lines) + '\n')
                    rd = reader()
                    answers = iter(['yes', '%s,%s' % off, '%s' % sc])
                    real = builtins.input
                    builtins.input = lambda *a: next(answers)
                    try:
                        ok, _ = repo_call(r, what + ': load_file', rd.load_file, os.path.join(d, 'p.nc'))
                        ok = ok and repo_call(r, what + ': convert', rd.convert)[0]
                    finally:
                        builtins.input = real
                    ok = ok and repo_call(r, what + ': read', rd.read)[0]
                    ok = ok and repo_call(r, what + ': create_blocks', rd.create_blocks)[0]
                    r.trace()
                    if not ok:
                        return
                    b = rd.get_gcode()
                    r.state()
                    if not r.check([x.type for x in b] == [s['type'] for s in segs], lambda: '%s: motions %s instead of %s' % (what, [x.type for x in b], [s['type'] for s in segs])):
                        return
                    for k, (x, s) in enumerate(zip(b, segs)):
                        t = lambda p: [(p[0] - off[0]) * sc, (p[1] - off[1]) * sc]
                        ok = r.check(near(x.end[:2], t(s['end']), 1e-5), lambda: '%s: segment %d ends in %s instead of %s' % (what, k, x.end, t(s['end'])))
                        if k:
                            ok &= r.check(near(x.start[:2], t(s['start']), 1e-5), lambda: '%s: segment %d starts in %s instead of %s' % (what, k, x.start, t(s['start'])))
                            if 'center' in s:
                                ok &= r.check(near(x.center[:2], t(s['center']), 1e-5), lambda: '%s: segment %d has centre %s instead of %s' % (what, k, x.center, t(s['center'])))
                        if not ok:
                            return
    in_scratch(go)
