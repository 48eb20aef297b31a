"""Explorer core: runs every case of a finite case space on the real code, counts what was covered,
writes evidence / replay artefacts, and turns disagreements with the reference model into VIOLATION lines."""
import os, sys, io, json, time, signal, traceback, hashlib, contextlib, multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CASE_TIMEOUT = 400
STOP_AFTER = float(os.environ.get('MC_STOP_AFTER', '20'))   # seconds spent on further violations after the first one


class Hang(Exception):
    pass


class R(object):
    """Result of exploring one case (one configuration: usually a whole bounded sub-space)."""

    def __init__(self, case):
        self.case = case
        self.states = 0          # distinct states visited
        self.trans = 0           # transitions (real operations compared with the model)
        self.traces = 0          # complete model traces replayed on the implementation
        self.outcomes = set()    # distinct observed outcomes
        self.fails = []          # (sig, msg)
        self.notes = {}

    def step(self, n=1):
        self.trans += n

    def state(self, n=1):
        self.states += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *x):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def fail(self, msg, sig=None):
        if len(self.fails) < 40:
            self.fails.append((sig, str(msg)[:1500]))

    def check(self, cond, msg, sig=None):
        self.trans += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, sig)
        return bool(cond)


def innermost_repo(tb):
    """True when the exception comes out of code of /repo (called by the harness)."""
    frames = traceback.extract_tb(tb)
    last_h = max([i for i, f in enumerate(frames) if f.filename.startswith(VERIF)], default=-1)
    return any(f.filename.startswith(REPO + '/') for f in frames[last_h + 1:])


def repo_site(tb):
    fr = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + '/')]
    return '%s:%s' % (os.path.relpath(fr[-1].filename, REPO), fr[-1].name) if fr else '?'


def repo_call(r, what, fun, *a, sig=None, **k):
    """Call code under test; an exception it raises is a violation."""
    try:
        return True, fun(*a, **k)
    except Hang:
        raise
    except Exception as e:
        r.fail('%s raised %s: %s (in %s)' % (what, type(e).__name__, e, repo_site(sys.exc_info()[2])), sig)
        return False, None


def _alarm(signum, frame):
    raise Hang()


_MOD = None


def fresh_labels():
    """names are only unique within a problem: forget those of earlier cases (finding a free one takes quadratic time)"""
    try:
        from omgtools.basics.optilayer import OptiChild
        if isinstance(OptiChild.__dict__.get('_labels'), list):
            OptiChild._labels = []
    except ImportError:
        pass


def run_one(case):
    r = R(case)
    fresh_labels()
    out = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    err = None
    try:
        with contextlib.redirect_stdout(out):
            _MOD.run_case(r, case)
    except Hang:
        r.fail('exploring this case did not terminate within %d s' % CASE_TIMEOUT, 'hang')
    except SystemExit as e:
        r.fail('code under test called sys.exit(%r)' % (e.code,))
    except Exception as e:
        tb = sys.exc_info()[2]
        if innermost_repo(tb):
            r.fail('%s: %s raised in %s\n%s' % (type(e).__name__, e, repo_site(tb), traceback.format_exc(limit=-4)))
        elif isinstance(e, (OSError, MemoryError, ImportError)):
            err = traceback.format_exc()
        else:
            # results of a shape or kind that the oracle cannot read: never happens on a tree where the property holds
            r.fail('the outcome cannot be interpreted: %s: %s\n%s' % (type(e).__name__, str(e)[:200], traceback.format_exc(limit=-4)[-500:]))
    finally:
        signal.alarm(0)
    return (r.case, r.states, r.trans, r.traces, r.outcomes, r.fails, r.notes, err)


def known_findings(prop):
    known = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                assert rest.startswith('sig='), line
                sig, desc = rest[4:].split(' ', 1)
                known[sig] = desc
    return known


def main(prop, mod, tier, seed, replay=None, jobs=None):
    global _MOD
    _MOD = mod
    t0 = time.time()
    known = known_findings(prop)
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = list(mod.cases(tier))
    n = len(cases)
    # the seed rotates the order of exploration only: the explored set never changes
    k = seed % n if n else 0
    order = cases[k:] + cases[:k]
    # same-case replay twice gives determinism evidence
    jobs = jobs or int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    results = []
    stopped = False
    if jobs > 1 and n > 1:
        ctx = mp.get_context('fork')
        chunk = max(1, min(getattr(mod, 'CHUNK', 1), n // jobs or 1))
        with ctx.Pool(min(jobs, n)) as pool:
            first = None
            for x in pool.imap_unordered(run_one, order, chunk):
                results.append(x)
                if any(not (f[0] is not None and f[0] in known) for f in x[5]):
                    first = first or time.time()
                if first and time.time() - first > STOP_AFTER:
                    stopped = True      # the verdict is settled: the remaining cases cannot change it
                    break
    else:
        for c in order:
            results.append(run_one(c))
    S = T = TR = 0
    outs = set()
    fails, errs, notes = [], [], {}
    for case, s, t, tr, o, f, nt, err in results:
        S += s; T += t; TR += tr
        outs |= o
        for sig, msg in f:
            fails.append((json.dumps(case, sort_keys=True), sig, msg, case))
        if err:
            errs.append((case, err))
        for kk, vv in nt.items():
            notes[kk] = notes.get(kk, 0) + vv
    fails.sort(key=lambda x: (len(x[0]), x[0]))
    new = [f for f in fails if not (f[1] is not None and f[1] in known)]
    hit = set(f[1] for f in fails if f[1] in known)
    samples = [cases[i] for i in sorted(set([0, n // 3, (2 * n) // 3, n - 1]))] if n else []
    if not replay:
        doc = dict(property=prop, tier=tier, seed=seed, level='model_checking',
                   coverage=dict(states=S, transitions=T, traces_validated_against_impl=TR, configurations=n,
                                 distinct_outcomes=len(outs), exhaustive=not errs and not stopped, samples=samples,
                                 bounds=getattr(mod, 'BOUNDS', {}).get(tier, '') if isinstance(getattr(mod, 'BOUNDS', ''), dict) else getattr(mod, 'BOUNDS', ''),
                                 known_findings_reproduced=sorted(hit), **{('n_' + a): b for a, b in notes.items()}),
                   assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=len(new), wall_s=round(time.time() - t0, 2))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
    print('%s %s: configurations=%d states=%d transitions=%d traces=%d distinct_outcomes=%d wall=%.1fs %s' % (
        prop, tier, n, S, T, TR, len(outs), time.time() - t0, notes or ''))
    for sig in sorted(known):
        if sig in hit:
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, sig, known[sig]))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, case=new[0][3], message=new[0][2], sig=new[0][1],
                           replay='./check %s --replay %s' % (prop, path), others=[(x[1], x[2], x[3]) for x in new[1:400]]), f, indent=1, default=str)
        seen = set()
        for c, sig, msg, case in new[:200]:
            if (sig, msg[:60]) in seen:
                continue
            seen.add((sig, msg[:60]))
            if len(seen) > 8:
                break
            print('  case %s: [%s] %s' % (c[:300], sig, msg[:600]))
        print('%d disagreement(s) recorded' % len(new))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    if errs:
        print('HARNESS ERROR on %d case(s); first: %s\n%s' % (len(errs), json.dumps(errs[0][0])[:300], errs[0][1]))
        return 2
    if T == 0:
        print('HARNESS ERROR: nothing explored')
        return 2
    return 0
