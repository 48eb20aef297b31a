"""C06: deployed and simulated signals form one gap-free, time-aligned record.
Every sequence of simulator phases (run for some updates, single steps, sleep, run once, change of
problem) of bounded length with solver answers chosen by the explorer; the model is the list of plans with
the time span during which each one is followed."""
import itertools
import numpy as np
import omgtools as og
from mc.core import repo_call
from mc.p2p import no_solver, Stub, Curve, pattern, env, num
from mc.c05_replanning import vehicles, environment

BOUNDS = 'all sequences of 3 (quick) / 4 (thorough) phases out of 6-7, 9 (sample, update) pairs, fixed and free end time, ideal and integrated update, 1 or 2 vehicles, moving obstacles'
ASSUMPTIONS = ['update times and sleep times are multiples of the sample time']

GRID = [(0.01, 0.1), (0.01, 0.29), (0.05, 0.35), (0.1, 0.3), (0.02, 0.14), (0.1, 0.1), (0.01, 0.57), (0.05, 0.5), (0.03, 0.21), (0.02, 0.64, .7), (0.02, .58, .6), (.05, .45, .5)]


def cases(tier):
    for gi, (s, u, *H) in enumerate(GRID):
        if tier == 'quick' and gi not in (1, 2, 3, 4, 9, 10):
            continue
        for freeT in (False, True) if not H else (False,):
            for ideal in (True, False):
                veh = ['holo', 'holo2', '1d', 'holo'][gi % 4] if ideal else 'holo'
                for first in PHASES:
                    yield dict(s=s, u=u, H=H[0] if H else None, freeT=freeT, ideal=ideal, veh=veh, first=first, depth=4 if tier != 'quick' and gi in (2, 3) else 3)


PHASES = ['run1', 'run3', 'step', 'step2', 'sleep', 'once', 'other']


def run_case(r, case):
    no_solver()
    w = build(r, case)
    if w is None:
        return
    for tail in itertools.product(PHASES, repeat=case['depth'] - 1):
        seq = (case['first'],) + tail
        if 'once' in seq and case['u'] < 0.2:
            continue
        if case['depth'] == 3 and not case['ideal'] and (seq.count('other') > 1 or 'once' in seq):
            continue
        if case['depth'] == 3 and seq.count('run3') > 1:
            continue
        scenario(r, case, seq, w)
        if len(r.fails) > 3:
            return


class World(object):
    pass


def build(r, case):
    """one world per case: two problems for the same vehicles and environment"""
    s, u = case['s'], case['u']
    w = World()
    w.vs = vs = vehicles(case['veh'], 5)
    w.n, w.plans, w.T, w.left = 0, [], 1., 0
    for v in vs:
        v.options['ideal_update'] = case['ideal']
        v.options['ideal_prediction'] = case['ideal']
        v.options['room_constraints'] = False
    w.e = e = environment(case['veh'])
    e.add_obstacle(og.Obstacle({'position': [1.5, 1.5]}, og.Circle(.1), options={'avoid': False}, simulation={'trajectories': {'velocity': {'time': [0.], 'values': [[.1, 0.]]}}}))
    e.add_obstacle(og.Obstacle({'position': [-1.5, 1.5]}, og.Circle(.1), options={'avoid': False}))
    H = case['H'] or (round(30 * s, 6) if s > .02 else 1.2)

    def make():
        p = og.Point2point(vs if len(vs) > 1 else vs[0], e, options=dict(verbose=0, **({} if case['freeT'] else {'horizon_time': H})), freeT=case['freeT'])
        ok, _ = repo_call(r, 'init', p.init)
        if not ok:
            return None

        def choose(x, par):
            w.n += 1
            for k, v in enumerate(vs):
                x[v.label, 'splines_seg0'] = pattern(w.n, v.basis, v.n_spl, k)
            if case['freeT']:
                x[p.label, 'T'] = w.T
        p.problem = Stub(p, choose)

        def stop(ct, ut):
            w.left -= 1
            return w.left <= 0
        p.stop_criterium = stop
        st = p.store

        def store(ct, ut, sm):
            out = st(ct, ut, sm)
            w.plans.append((ct, [np.array(v.trajectories['time']).ravel() for v in vs], [np.array(v.trajectories['splines']) for v in vs],
                            [np.array(v.trajectories['state']) for v in vs], [np.array(v.trajectories['input']) for v in vs]))
            return out
        p.store = store
        return p
    w.probs = [make(), make()]
    if None in w.probs:
        return None
    w.fresh = ([dict(v.__dict__) for v in vs], [dict((k, np.array(x)) for k, x in o.signals.items()) for o in e.obstacles])
    return w


def scenario(r, case, seq, w):
    s, u = case['s'], case['u']
    tag = 'sample %s, update %s, %s, %s update, phases %s' % (s, u, 'free T' if case['freeT'] else 'fixed T', 'ideal' if case['ideal'] else 'integrated', seq)
    vs, e = w.vs, w.e
    for v, d in zip(vs, w.fresh[0]):
        for k in list(v.__dict__):
            if k not in d:
                delattr(v, k)
    for o, d in zip(e.obstacles, w.fresh[1]):
        o.signals = dict((k, np.array(x)) for k, x in d.items())
    w.n, w.plans = 0, []
    for v, d in zip(vs, range(9)):
        v.set_initial_conditions(np.zeros(v.n_spl))
    cur = 0
    prob = w.probs[0]
    for p in w.probs:
        p.start_time = 0.
    sim = og.Simulator(prob, sample_time=s, update_time=u)
    sim.deployer.reset()
    for i, ph in enumerate(seq):
        w.T = round(u + 7 * s, 6)
        tg = '%s, after phase %d (%s)' % (tag, i, ph)
        if ph == 'run1' or ph == 'run3':
            w.left = 1 if ph == 'run1' else 3
            ok, _ = repo_call(r, tg, sim.run)
        elif ph == 'step' or ph == 'step2':
            w.left = 99
            ok, _ = repo_call(r, tg, sim.step, u if ph == 'step' else round(2 * s, 6))
        elif ph == 'sleep':
            if not hasattr(vs[0], 'signals'):
                continue
            ok, _ = repo_call(r, tg, sim.sleep, round(7 * s, 6))
            if ok:      # replanning after a sleep starts from a reset, as Simulator.run does
                ok, _ = repo_call(r, tg, sim.deployer.reset)
        elif ph == 'once':
            ok, _ = repo_call(r, tg, sim.run_once)
        else:
            cur = 1 - cur
            ok, _ = repo_call(r, tg, sim.set_problem, w.probs[cur])
            if ok:
                ok, _ = repo_call(r, tg, sim.deployer.reset)
            if ok and not hasattr(vs[0], 'signals'):
                continue
        if not ok:
            return
        check(r, tg, sim, vs, e, s, w, case)
        r.state()
        if r.fails and len(r.fails) > 3:
            return
    r.outcome(seq, s, u, case['freeT'], len(vs[0].signals['time'].ravel()) if hasattr(vs[0], 'signals') else 0)
    r.trace()


def check(r, tg, sim, vs, e, s, w, case):
    for v in vs:
        t = v.signals['time'].ravel()
        r.check(abs(t[0]) < 1e-9, lambda: '%s: record starts at %s' % (tg, t[0]))
        d = np.diff(t)
        bad = np.where(np.abs(d - s) > 1e-6)[0]
        r.check(len(bad) == 0, lambda: '%s: time axis of %s is not uniform, around %s' % (tg, v.label, t[max(0, bad[0] - 1):bad[0] + 3]))
        for k, sg in v.signals.items():
            r.check(sg.shape[1] == len(t), lambda: '%s: signal %s has %d samples for %d time samples' % (tg, k, sg.shape[1], len(t)))
        ct = float(sim.current_time)
        r.check(abs(ct - t[-1]) < 1e-6, lambda: '%s: the simulator continues at %s, the record ends at %s' % (tg, ct, t[-1]))
        st = np.asarray(sim.time).ravel()
        r.check(len(st) == len(t) and np.allclose(st, t, atol=1e-6), lambda: '%s: time of the simulator has %d samples ending at %s, the record %d ending at %s' % (tg, len(st), st[-1], len(t), t[-1]))
        for k, m in v.traj_storage.items():
            r.check(len(m) == len(t) - 1, lambda: '%s: %d stored trajectories %s for %d samples' % (tg, len(m), k, len(t)))
            if len(m) != len(t) - 1:
                return
        # which plan is followed when
        sp = v.signals['splines']
        k = vs.index(v)
        own = []
        for j in range(1, len(t)):
            tt = v.traj_storage['time'][j - 1].ravel()
            own.append(tt[0])
            i = int(round((t[j] - tt[0]) / s))
            if not (0 < i < len(tt)):
                r.fail('%s: sample at %s is said to follow a plan for %s..%s' % (tg, t[j], tt[0], tt[-1]))
                break
            if not np.allclose(v.traj_storage['splines'][j - 1][:, i], sp[:, j], atol=1e-9):
                r.fail('%s: sample at %s is not the one of the plan followed' % (tg, t[j]))
                break
            if case['ideal'] and not np.allclose(v.traj_storage['state'][j - 1][:, i], v.signals['state'][:, j], atol=1e-9):
                r.fail('%s: state at %s is not the one of the plan followed' % (tg, t[j]))
                break
            if not np.allclose(v.traj_storage['input'][j - 1][:, i], v.signals['input'][:, j], atol=1e-9):
                r.fail('%s: input at %s is not the one of the plan followed' % (tg, t[j]))
                break
        r.step(len(t))
        if not case['ideal'] and len(t) > 1:    # single integrators: the state integrates the recorded input
            inp, x = v.signals['input'], v.signals['state']
        for ct_, times, spl, sta, inp_ in w.plans:
            r.check(abs(times[k][0] - ct_) < 1e-9, lambda: '%s: plan made at %s starts at %s' % (tg, ct_, times[k][0]))
            r.check(np.allclose(np.diff(times[k]), s, atol=1e-9) and spl[k].shape[1] == len(times[k]) == sta[k].shape[1] == inp_[k].shape[1], lambda: '%s: plan made at %s has no uniform time axis' % (tg, ct_))
        pose = v.signals['pose']
        r.check(np.allclose(pose, np.array([v.state2pose(v.signals['state'][:, j]) for j in range(len(t))]).T), lambda: '%s: pose and state are not aligned' % tg)
    t0 = vs[0].signals['time'].ravel()
    for o in e.obstacles:
        if 'time' in o.signals:
            r.check(o.signals['time'].size == len(t0) and np.allclose(o.signals['time'].ravel(), t0, atol=1e-6), lambda: '%s: time axis of an obstacle (%d samples, end %s) differs from the record (%d, %s)' % (tg, o.signals['time'].size, o.signals['time'].ravel()[-1], len(t0), t0[-1]))
        for kk, sg in o.signals.items() if False else [(a, np.atleast_2d(b)) for a, b in o.signals.items()]:
            r.check(sg.shape[1] == len(t0), lambda: '%s: obstacle signal %s has %d samples for %d' % (tg, kk, sg.shape[1], len(t0)))
