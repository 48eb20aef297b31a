"""Driving real point-to-point problems with a solver whose answers the explorer chooses."""
import numpy as np
from scipy.interpolate import BSpline as SciSpline
import omgtools as og
from casadi import DM


class Stub(object):
    """Replaces the NLP solver: records what it is given, answers what the explorer chooses."""

    def __init__(self, problem, choose):
        self.father = problem.father
        self.choose = choose
        self.log = []
        self.status = 'Solve_Succeeded'

    def __call__(self, x0=None, p=None, lbg=None, ubg=None, **kw):
        ff = self.father
        var = ff._var_struct(DM(getattr(x0, 'cat', x0)))
        par = ff._par_struct(DM(getattr(p, 'cat', p)))
        self.log.append((var, par))
        x = ff._var_struct(DM(var.cat))
        self.choose(x, par)
        n = DM(getattr(lbg, 'cat', lbg)).numel()
        return {'x': x.cat, 'lam_g': DM.zeros(n), 'f': DM(0.), 'g': DM.zeros(n)}

    def stats(self):
        return {'return_status': self.status}


def num(v):
    return np.array(DM(v), float)


class Curve(object):
    """A plan as a function of absolute time (natural continuation outside its horizon)."""

    def __init__(self, basis, coeffs, start, T):
        knots, deg = np.asarray(basis.knots, float), basis.degree
        c = np.asarray(coeffs, float)
        self.f = [SciSpline(knots, c[:, i], deg, extrapolate=True) for i in range(c.shape[1])]
        self.start, self.T = start, T

    def __call__(self, t, d=0):
        s = (np.asarray(t, float) - self.start) / self.T
        return np.array([f(s, nu=d) for f in self.f]) / self.T ** d


def pattern(i, basis, n_spl, k):
    """distinct plan coefficients, number i, for vehicle number k"""
    n = len(basis)
    c = np.arange(n * n_spl).reshape(n, n_spl)
    return ((c * (3 + 2 * i) + 5 * i + 7 * k) % (11 + i)) * 0.13 - 0.6


def env(room=5., obstacles=()):
    e = og.Environment(room={'shape': og.Square(room)})
    for o in obstacles:
        e.add_obstacle(o)
    return e


def no_solver():
    """the solver is a stand-in or never called: do not spend time on preparing a real one"""
    import omgtools.basics.optilayer as ol
    if hasattr(ol, 'nlpsol'):
        ol.nlpsol = lambda *a, **k: None
