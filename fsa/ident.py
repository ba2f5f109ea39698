"""Identity test of two algebraic normal forms the rewriting rules of fsa.alg cannot relate.

Two formulae that are the same function can have different normal forms (a logarithm split over
a quotient whose sign the algebra does not know, a root distributed over a product, ...).  Before
a difference is reported the two forms are tested for being the same function of their symbols, in
the Schwartz-Zippel manner: elementary functions are interpreted, every other function symbol
(including minimum, maximum, absolute value and rounding) stands for one and the same generic
function, and the forms have to agree wherever they are drawn.  Only formulae are looked at here;
no code of the repository takes part, and the outcome can only withdraw an alarm.
"""
import cmath
import hashlib
import math
from .alg import Expr, ATOMS
from .vals import Tup, vkey

TOL = 1e-9
NEED = 6
TRIES = 48


class Skip(Exception):
    pass


def unit(*key):
    """a number in (0, 1) that depends on the key only"""
    h = hashlib.sha256(repr(key).encode()).digest()
    return (int.from_bytes(h[:7], 'big') + 0.5) / 2 ** 56


def generic(name, vals_):
    """one generic smooth function per name, of any number of arguments"""
    z = 0
    for i, v in enumerate(vals_):
        w = 0.4 + unit(name, 'w', i)
        z += w * cmath.tanh(0.31 * v + unit(name, 's', i)) + 0.013 * w * v
    return 0.35 + unit(name, 'c') + 0.41 * z


def ncdf(x):
    if isinstance(x, complex) and abs(x.imag) > 1e-14 * (1 + abs(x.real)):
        raise Skip
    x = x.real
    return 0.5 * math.erfc(-x / math.sqrt(2))


def ln(x):
    if x == 0:
        raise Skip
    return complex(math.log(abs(x))) if x.imag == 0 else cmath.log(x)       # the algebra fixes the sign under a logarithm or root freely


EVAL = {'exp': cmath.exp, 'log': ln, 'clog': ln, 'cdf': ncdf, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan,
        'sinh': cmath.sinh, 'cosh': cmath.cosh, 'tanh': cmath.tanh, 're': lambda x: x.real, 'im': lambda x: x.imag, 'conj': lambda x: x.conjugate(), 'arctan': cmath.atan}


class Point:
    def __init__(self, k):
        self.k = k
        self.memo = {}

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self._atom(a)
        return r

    def _atom(self, a):
        if a.kind == 'imag':
            return 1j
        if a.kind == 'prime':
            return complex(a.name)
        if a.kind == 'poly':
            return self.expr(a.args[0])
        if a.kind == 'sym':
            u = unit('sym', a.name, self.k)
            if a.sq1:
                return complex(1 if u < .5 else -1)
            if a.pos or a.nonneg:
                return complex(0.15 + 1.7 * u if self.k % 2 else math.exp(5 * u - 2.5))
            return complex((1.8 * u - 0.9) if self.k % 3 else 0.05 + 0.9 * u)
        if a.name == 'pi':
            return complex(math.pi)
        if a.name in EVAL and len(a.args) == 1 and isinstance(a.args[0], Expr):
            return complex(EVAL[a.name](self.expr(a.args[0])))
        out = generic((a.kind, a.name), [self.value(x) for x in a.args])
        if a.pos or a.nonneg:
            out = complex(abs(out) + .1)
        elif a.real:
            out = complex(out.real)
        return out

    def value(self, x):
        if isinstance(x, Expr):
            return self.expr(x)
        if isinstance(x, Tup):
            return generic(('tup', len(x.items)), [self.value(y) for y in x.items])
        if isinstance(x, (tuple, list)):
            return generic(('tuple', len(x)), [self.value(y) for y in x])
        try:
            return complex(2 * unit('leaf', vkey(x)) - 1)
        except Exception:
            return complex(2 * unit('leaf', repr(x)) - 1)

    def expr(self, e):
        s, big = 0, 0.0
        for m, c in e.t.items():
            t = complex(float(c))
            for i, v in m:
                b = self.atom(ATOMS[i])
                if b == 0 and v < 0:
                    raise Skip
                if v.denominator == 1:
                    t *= b ** int(v)
                else:
                    t *= cmath.exp(float(v) * ln(b))
            s += t
            big = max(big, abs(t))
        if not (abs(s) < 1e200 and big < 1e200):
            raise Skip
        if big > 1e7 * abs(s):
            raise Skip                 # too much cancellation to tell
        return s


def identical(a, b):
    """a and b are the same function, as far as generic points can tell"""
    good = 0
    for k in range(TRIES):
        p = Point(k)
        try:
            x, y = p.expr(a), p.expr(b)
        except (Skip, OverflowError, ZeroDivisionError, ValueError):
            continue
        if abs(x - y) > TOL * max(abs(x), abs(y)):
            return False
        good += 1
        if good >= NEED:
            return True
    return False
