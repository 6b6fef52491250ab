from lib import *
import numpy as np
import oracle as O
from mpmath import mpf, mp


def oscillator(c, kinds=("lor", "drude", "plasma", "zero")):
    kd = c.pick(*kinds)
    wp = c.lu(1e12, 5e16)
    if kd == "lor":
        return (wp, c.lu(1e11, 1e17), c.pick(0, 0, c.lu(1e11, 1e15)))
    if kd == "drude":
        return (wp, 0, c.lu(1e12, 1e15))
    if kd == "plasma":
        return (wp, 0, 0)
    return (0, c.pick(0, c.lu(1e11, 1e17)), c.pick(0, c.lu(1e11, 1e15)))


def osclist(c, nmax=8, kinds=("lor", "drude", "plasma", "zero")):
    n = c.pick(0, 1, 1, 2, 3, c.int(1, nmax))
    o = [oscillator(c, kinds) for _ in range(n)]
    if n >= 2 and c.p(0.2):
        o[-1] = o[0]
    return o


def bprops(c, q=0.5):
    return (c.u(0.2, 6.0), c.lu(1e9, 1e15)) if c.p(q) else ()


class Mat:
    """material given directly by its response functions"""
    is_perfect_conductor = False

    def __init__(self, eps, mu):
        self.e, self.m = eps, mu

    def epsilon(self, k):
        return self.e * np.ones(np.shape(k)) if isinstance(k, np.ndarray) else self.e

    def mu(self, k):
        return self.m * np.ones(np.shape(k)) if isinstance(k, np.ndarray) else self.m

    def __repr__(self):
        return "Mat(eps=%r, mu=%r)" % (self.e, self.m)


class Pec:
    is_perfect_conductor = True
    is_sigma_finite = False
    is_magnetic = False
    is_dielectric = False

    def mu(self, k):
        return np.ones(k.shape)

    def __repr__(self):
        return "Pec()"


def material(c, kinds=("lor", "drude", "plasma"), mag=0.3, pec=0.0):
    """(object, eps(k) mp, mu(k) mp) ; eps None for the perfect conductor"""
    M = need("materials")
    if c.p(pec):
        return M.PerfectConductor, None, (lambda k: mpf(1))
    if c.p(0.35):
        e, m = c.pick(1.0, c.lu(1.0, 100.0)), c.pick(1.0, 1.0, c.lu(0.3, 5.0))
        return Mat(e, m), (lambda k: mpf(e)), (lambda k: mpf(m))
    o, b = osclist(c, 3, kinds), bprops(c, mag)
    L = M.LorentzMaterial(o, b)
    L.__class__.__repr__ = lambda s: "LorentzMaterial(%r, %r)" % (s.e_properties, s.b_properties)
    return L, (lambda k: O.eps_lorentz(o, k)), (lambda k: O.mu_model(b, k))
