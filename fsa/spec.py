"""Closed-form reference expressions the obligations compare with."""
from . import alg, vals
from .alg import *
from .vals import *
from fractions import Fraction as Fr

HALF = num(Fr(1, 2))


def R(name):
    """real input of either sign"""
    return sym(name, pos=False)


def P(name):
    return sym(name)


def NN(name):
    return sym(name, pos=False, nonneg=True)


def CP(name='cp'):
    return sym(name, sq1=True)


def A(name, kind=R):
    e = kind(name)
    return e


def d1d2(F, K, s, t):
    sd = s * sqrt(t)
    d1 = (log(F) - log(K)) / sd + HALF * sd
    return d1, d1 - sd


def black(F, K, s, t, cp, df=num(1)):
    d1, d2 = d1d2(F, K, s, t)
    return df * cp * (F * cdf(cp * d1) - K * cdf(cp * d2))


def gk(S, K, s, t, rd, rf, cp):
    F = S * exp((rd - rf) * t)
    return black(F, K, s, t, cp, exp(-rd * t))


def bachelier(F, K, s, t, cp, df=num(1)):
    sd = s * sqrt(t)
    d = (F - K) / sd
    return df * (cp * (F - K) * cdf(cp * d) + sd * pdf(d))


def pos_part(x):
    return maximum(x, num(0))
