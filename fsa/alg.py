"""Exact algebraic normal forms for the value graph.

An Expr is a finite sum of monomials with rational coefficients over interned atoms.
Exponents are rational.  Multi-term polynomials that occur under a division or a root are
interned as 'poly' atoms, so every rational function and every root has a finite normal form;
equality is decided exactly by clearing the poly atoms and comparing coefficients.
"""
from fractions import Fraction as Fr
from math import comb, gcd


PARTS = LIFT = None      # set by interp: gated values


class AlgError(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'real', 'pos', 'nonneg', 'sq1', 'arr', 'meta', 'vec')

    def __init__(self, id, kind, name, args=(), real=True, pos=False, nonneg=False, sq1=False, arr=False):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.real, self.pos, self.nonneg, self.sq1, self.arr = real, pos, nonneg or pos, sq1, arr
        self.meta = None
        self.vec = False        # one-dimensional: an element is a scalar


ATOMS = []
_SYM = {}
_FN = {}      # (kind,name,nargs) -> list of atoms
_FNKEY = {}
_POLY = {}


def _new(kind, name, args=(), **kw):
    a = Atom(len(ATOMS), kind, name, args, **kw)
    ATOMS.append(a)
    return a


def reset():
    _ROOT.clear()
    ATOMS.clear(); _SYM.clear(); _FN.clear(); _FNKEY.clear(); _POLY.clear()
    global I_ATOM
    I_ATOM = _new('imag', 'I', real=False)


I_ATOM = _new('imag', 'I', real=False)


class Expr:
    __slots__ = ('t', '_h', '_cx')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._cx = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __add__(self, o):
        return add(self, lift(o))
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        return add(self, scale(lift(o), -1))

    def __rsub__(self, o):
        return add(lift(o), scale(self, -1))

    def __mul__(self, o):
        return mul(self, lift(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, e):
        return power(self, lift(e))

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fr(0))

    def single(self):
        return len(self.t) == 1


ZERO = Expr({})
ONE = Expr({(): Fr(1)})


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return fn('nan' if v != v else ('inf' if v > 0 else 'ninf'), ())
        f = Fr(str(v)) if 'e' not in repr(v) else Fr(repr(v))
    elif isinstance(v, complex):
        return num(v.real) + num(v.imag) * I()
    else:
        f = Fr(v)
    return Expr({(): f}) if f else ZERO


def lift(v):
    return v if isinstance(v, Expr) else num(v)


def atom_expr(a, e=1):
    return Expr({((a.id, Fr(e)),): Fr(1)})


def I():
    return atom_expr(I_ATOM)


def sym(name, pos=True, nonneg=False, sq1=False, arr=False, real=True, vec=False):
    a = _SYM.get(name)
    if a is not None and a.arr != arr:
        raise AssertionError('symbol %s used with and without elements' % name)
    if a is not None and (a.pos and not (pos and not sq1) or a.nonneg and not (nonneg or pos)):
        raise AssertionError('symbol %s used with two signs' % name)
    if a is None:
        a = _new('sym', name, pos=pos and not sq1, nonneg=nonneg, sq1=sq1, arr=arr, real=real)
        a.vec = vec
        _SYM[name] = a
    return atom_expr(a)


def atoms_of(e):
    s = set()
    for m in e.t:
        for a, _ in m:
            s.add(a)
    return s


def deep_atoms(e, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(e, Expr):
        for x in PARTS(e):
            deep_atoms(x, seen)
        return seen
    for m in e.t:
        for a, _ in m:
            if a not in seen:
                seen.add(a)
                for x in ATOMS[a].args:
                    if isinstance(x, Expr):
                        deep_atoms(x, seen)
    return seen


def is_complex(e):
    if e._cx is None:
        e._cx = any(not ATOMS[a].real for a in atoms_of(e))
    return e._cx


def is_arr(e):
    return any(ATOMS[a].arr for a in deep_atoms(e))


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return Expr(r)


def scale(a, c):
    c = Fr(c)
    if not c:
        return ZERO
    return Expr({m: v * c for m, v in a.t.items()})


MAXTERMS = 60000


def _mono_mul(m1, m2):
    """-> (mono, needs_reduce)"""
    d = dict(m1)
    red = False
    for a, e in m2:
        if a in d:
            n = d[a] + e
            if n:
                d[a] = n
            else:
                del d[a]
                continue
            k = ATOMS[a]
            if k.kind in ('imag', 'poly', 'prime') or k.sq1 or k.kind == 'abs':
                red = True
        else:
            d[a] = e
            if red:
                continue
            k = ATOMS[a].kind
            if (k == 'poly' or k == 'prime') and e >= 1 or k == 'imag' and e not in (0, 1):
                red = True
    return tuple(sorted(d.items())), red


def _reduce_mono(m):
    """mono -> Expr  (applies I^2=-1, s^2=1, prime^n, poly^n expansion, |x|^2=x^2)"""
    coef = Fr(1)
    out = []
    extra = []
    for a, e in m:
        k = ATOMS[a]
        if k.kind == 'imag':
            if e.denominator == 1:
                n = int(e) % 4
                if n in (2, 3):
                    coef = -coef
                if n in (1, 3):
                    out.append((a, Fr(1)))
                continue
        elif k.sq1:
            if e.denominator == 1:
                if int(e) % 2:
                    out.append((a, Fr(1)))
                continue
        elif k.kind == 'prime':
            n = e.numerator // e.denominator
            if n:
                coef *= Fr(k.name) ** n
                e -= n
            if e:
                out.append((a, e))
            continue
        elif k.kind == 'poly':
            n = e.numerator // e.denominator
            if n >= 1:
                extra.append((k.args[0], n))
                e -= n
            if e:
                out.append((a, e))
            continue
        elif k.kind == 'abs' and e.denominator == 1:
            n = int(e) // 2
            if n:
                if n > 0:
                    extra.append((k.args[0], 2 * n))
                    e -= 2 * n
                    if e:
                        out.append((a, e))
                    continue
        out.append((a, e))
    r = Expr({tuple(out): coef})
    for p, n in extra:
        for _ in range(n):
            r = mul(r, p)
    return r


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXTERMS:
        raise AlgError('expression too large')
    r = {}
    later = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            if not m1:
                m, red = _mono_mul((), m2) if len(b.t) == 1 or len(a.t) == 1 else (m2, False)
            elif not m2:
                m, red = m1, False
            else:
                m, red = _mono_mul(m1, m2)
            c = c1 * c2
            if red:
                later.append((m, c))
                continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    out = Expr(r)
    for m, c in later:
        out = add(out, scale(_reduce_mono(m), c))
    return out


def _content(e):
    """split e = c * mono * P with P having leading coefficient +-1 and minimal exponents 0"""
    monos = list(e.t)
    mins = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(mins):
            v = d.get(a, Fr(0))
            if v < mins[a]:
                mins[a] = v
        for a, v in d.items():
            if a not in mins and v < 0:
                mins[a] = v
    # atoms absent from some monomial have exponent 0 there
    for m in monos:
        d = dict(m)
        for a in list(mins):
            if a not in d and mins[a] > 0:
                mins[a] = Fr(0)
    mins = {a: v for a, v in mins.items() if v and ATOMS[a].kind != 'imag' and not ATOMS[a].sq1}
    mono = tuple(sorted(mins.items()))
    inv = tuple((a, -v) for a, v in mono)
    p = {}
    later = ZERO
    for m, c in e.t.items():
        if inv:
            mm, red = _mono_mul(m, inv)
            if red:
                later = add(later, scale(_reduce_mono(mm), c))
                continue
        else:
            mm = m
        p[mm] = p.get(mm, 0) + c
    p = add(Expr({k: v for k, v in p.items() if v}), later)
    if not p.t:
        raise AlgError('content')
    lead = min(p.t)   # deterministic order on monomial tuples
    lead = max(p.t, key=lambda m: (len(m), m))
    c = p.t[lead]
    return c, mono, p


def poly_atom(p):
    k = p.key()
    a = _POLY.get(k)
    if a is None:
        real = not is_complex(p)
        pos = all(c > 0 and all(ATOMS[x].pos or ATOMS[x].nonneg for x, _ in m) for m, c in p.t.items()) and \
            any(all(ATOMS[x].pos for x, _ in m) for m in p.t)
        a = _new('poly', None, (p,), real=real, pos=pos, arr=is_arr(p))
        _POLY[k] = a
    return a


def clear(e):
    """multiply out negative poly powers; returns (numerator, {atom: exponent}) with e = num * prod atom^exp"""
    den = {}
    for _ in range(60):
        polys = {}
        for m in e.t:
            for a, v in m:
                if ATOMS[a].kind == 'poly':
                    polys.setdefault(a, []).append(v)
        target = None
        n = len(e.t)
        for a, vs in polys.items():
            lo = min(vs)
            if len(vs) < n:
                lo = min(lo, Fr(0))
            if lo < 0 or (lo > 0):
                target = (a, lo)
                break
        if target is None:
            # fractional classes with gap >= 1
            return e, den
        a, lo = target
        den[a] = den.get(a, Fr(0)) + lo
        e = mul_mono(e, ((a, -lo),))
        if not e.t:
            return e, den
    raise AlgError('clear did not terminate')


def mul_mono(e, mono):
    return mul(e, Expr({mono: Fr(1)}))


def is_zero(e):
    if not e.t:
        return True
    n, _ = clear(e)
    if not n.t:
        return True
    return False


def equal(a, b):
    if a is b or a.t == b.t:
        return True
    return is_zero(add(a, scale(b, -1)))


def poly_div(n, p):
    """exact division of n by p (both Laurent-free in main var sense) or None"""
    # lexicographic on atom tuple; try simple multivariate long division
    if len(p.t) > len(n.t) * 4 or len(n.t) > 400:
        return None

    def order(m):
        return tuple(sorted(((-a, v) for a, v in m), reverse=True)), len(m)

    allat = sorted(atoms_of(p) | atoms_of(n))

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, Fr(0)) for a in allat)
    lp = max(p.t, key=vec)
    lpv, cp = vec(lp), p.t[lp]
    q = ZERO
    r = n
    for _ in range(2 * len(n.t) + 4):
        if not r.t:
            return q
        lr = max(r.t, key=vec)
        dv = [x - y for x, y in zip(vec(lr), lpv)]
        if any(x < 0 or x.denominator != 1 and x < 0 for x in dv):
            return None
        mono = tuple((a, v) for a, v in zip(allat, dv) if v)
        if any(ATOMS[a].kind in ('imag',) for a, v in mono):
            pass
        t = Expr({mono: r.t[lr] / cp})
        q = add(q, t)
        nr = add(r, scale(mul(t, p), -1))
        if nr.t.get(lr):
            return None
        r = nr
    return None


def simplify(e):
    """put over a common denominator and cancel poly atoms where the division is exact"""
    if not any(ATOMS[a].kind == 'poly' for a in atoms_of(e)):
        return e
    n, den = clear(e)
    if not n.t:
        return ZERO
    out = {}
    for a, v in den.items():
        while v <= -1:
            try:
                q = poly_div(n, ATOMS[a].args[0])
            except AlgError:
                q = None
            if q is None:
                break
            n = q
            v += 1
        if v:
            out[a] = v
    if not out:
        return n
    return mul_mono(n, tuple(sorted(out.items())))


def inv(b):
    if not b.t:
        return fn('div0', ())
    if b.single():
        (m, c), = b.t.items()
        r = Expr({tuple((a, -v) for a, v in m): 1 / c})
        if any(ATOMS[a].kind in ('imag', 'prime', 'poly') or ATOMS[a].sq1 for a, _ in m):
            r = mul(r, ONE) if False else scale(_reduce_mono(next(iter(r.t))), 1 / c)
        return r
    b = simplify(b)
    if b.single():
        return inv(b)
    c, mono, p = _content(b)
    if p.single():
        return inv(mul_mono(scale(p, 1), mono))
    p1 = scale(p, 1 / c)
    pr = perfect_root(p1)
    if pr is not None:
        c2, mono2, p2 = _content(pr[0])
        assert not mono2
        base = Expr({((poly_atom(scale(p2, 1 / c2)).id, Fr(-pr[1])),): 1 / c / c2 ** pr[1]})
    else:
        base = Expr({((poly_atom(p1).id, Fr(-1)),): 1 / c})
    if mono:
        base = mul(base, inv(Expr({mono: Fr(1)})))
    return base


def div(a, b):
    if b.is_const():
        c = b.const()
        if not c:
            return fn('div0', (a,))
        return scale(a, 1 / c)
    r = mul(a, inv(b))
    if not b.single() and len(a.t) > 1:
        s = simplify(r)
        if len(s.t) <= len(r.t):
            return s
    return r


def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def prime(p):
    k = ('prime', p)
    a = _FNKEY.get(k)
    if a is None:
        a = _new('prime', p, pos=True)
        _FNKEY[k] = a
    return a


def num_pow(c, e):
    """rational c > 0 to rational power"""
    if e.denominator == 1:
        return num(c ** int(e))
    r = ONE
    for p, k in list(_primes(c.numerator).items()) + [(p, -k) for p, k in _primes(c.denominator).items()]:
        x = e * k
        n = x.numerator // x.denominator
        r = scale(r, Fr(p) ** n)
        x -= n
        if x:
            r = mul(r, Expr({((prime(p).id, x),): Fr(1)}))
    return r


_ROOT = {}


def perfect_root(p):
    """(q, k) with p = q**k, k > 1 maximal, for a polynomial p with positive leading coefficient; or None"""
    if len(p.t) < 3 or len(p.t) > 400 or is_complex(p):
        return None
    k = p.key()
    if k in _ROOT:
        return _ROOT[k]
    _ROOT[k] = None
    r = _ROOT[k] = _perfect_root(p)
    return r


def _iroot(c, k):
    def one(n):
        x = round(n ** (1.0 / k)) if n < 1 << 900 else 0
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** k == n:
                return y
        return None
    a, b = one(c.numerator), one(c.denominator)
    return None if a is None or b is None else Fr(a, b)


def _perfect_root(p):
    allat = sorted(atoms_of(p))
    for m in p.t:
        for a, v in m:
            if v.denominator != 1 or v < 0 or ATOMS[a].kind == 'imag' or ATOMS[a].sq1:
                return None

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, Fr(0)) for a in allat)

    def mono(v):
        return tuple((a, x) for a, x in zip(allat, v) if x)
    vs = {vec(m): c for m, c in p.t.items()}
    lead, low = max(vs), min(vs)
    g = 0
    for x in lead + low:
        g = gcd(g, int(x))
    k = len(vs) - 1
    if g and g % k == 0 and vs[lead] > 0:      # a power of a binomial has k + 1 terms
        order = sorted(vs, reverse=True)
        c0 = _iroot(vs[lead], k)
        if c0 is not None:
            m0 = tuple(x / k for x in lead)
            m1 = tuple(y - (k - 1) * x for x, y in zip(m0, order[1]))
            if all(x >= 0 and x.denominator == 1 for x in m1):
                c1 = vs[order[1]] / (k * c0 ** (k - 1))
                if all(vs.get(tuple(x * (k - j) + y * j for x, y in zip(m0, m1))) == comb(k, j) * c0 ** (k - j) * c1 ** j for j in range(k + 1)):
                    return Expr({mono(m0): c0, mono(m1): c1}), k
    if len(vs) > 80:
        return None
    for k in range(min(g, 12), 1, -1) if g else ():
        if g % k:
            continue
        if vs[lead] < 0:
            return None
        c0 = _iroot(vs[lead], k)
        if c0 is None or (_iroot(abs(vs[low]), k) is None):
            continue
        l0 = tuple(x / k for x in lead)
        q = {l0: c0}
        ok = False
        lk1 = tuple(x * (k - 1) for x in l0)
        for _ in range(len(vs)):
            Q = Expr({mono(v): c for v, c in q.items()})
            R = p
            w = ONE
            for _i in range(k):
                w = mul(w, Q)
            R = add(p, scale(w, -1))
            if not R.t:
                ok = True
                break
            rv = {vec(m): c for m, c in R.t.items()}
            lr = max(rv)
            d = tuple(x - y for x, y in zip(lr, lk1))
            if any(x < 0 for x in d) or d >= min(q) or len(q) > 12:
                break
            q[d] = rv[lr] / (k * c0 ** (k - 1))
        if ok:
            return Expr({mono(v): c for v, c in q.items()}), k
    return None


def power(b, e):
    if e.is_const():
        q = e.const()
        if q == 0:
            return ONE
        if q == 1:
            return b
        if q.denominator == 1:
            n = int(q)
            if n < 0:
                return inv(power(b, num(-n)))
            if b.single():
                (m, c), = b.t.items()
                mm = tuple((a, v * n) for a, v in m)
                return scale(_reduce_mono(mm), c ** n)
            if n > 12:
                pass
            else:
                r = ONE
                for _ in range(n):
                    r = mul(r, b)
                return r
        if not b.t:
            return ZERO
        b = simplify(b)
        if b.single():
            (m, c), = b.t.items()
            neg = c < 0
            r = num_pow(abs(c), q)
            cx = is_complex(b)
            if cx:
                return mul(r, fn('cpow', (scale(b, 1 / abs(c)), num(q)), real=False))
            if neg:
                if q == Fr(1, 2):
                    r = mul(r, I())
                else:
                    return fn('pow', (b, e))
            out = []
            for a, v in m:
                k = ATOMS[a]
                if k.sq1:
                    return fn('pow', (b, e))
                ne = v * q
                if not (k.pos or k.nonneg) and v.denominator == 1 and int(v) % 2 == 0 and ne.denominator == 1 and int(ne) % 2:
                    ab = absf(Expr({((a, Fr(1)),): Fr(1)}))
                    r = mul(r, power(ab, num(ne)))
                    continue
                out.append((a, ne))
            return mul(r, _reduce_mono(tuple(sorted(out))))
        c, mono, p = _content(b)
        p1 = scale(p, 1 / abs(c))
        pr = perfect_root(p1)
        if pr is not None:
            base, k = pr
            r = mul(num_pow(abs(c), q), power(absf(base) if k % 2 == 0 else base, num(q * k)))
        else:
            a = poly_atom(p1)
            r = mul(num_pow(abs(c), q), _reduce_mono(((a.id, q),)))
        if mono:
            r = mul(r, power(Expr({mono: Fr(1)}), num(q)))
        return r
    if b.is_const() and b.const() == 1:
        return ONE
    return exp(mul(e, log(b)))


def sqrt(b):
    return power(b, num(Fr(1, 2)))


def _fnatom(name, args, real=True, pos=False, nonneg=False, arr=None, kind='fn'):
    k = (kind, name, tuple(a.key() if isinstance(a, Expr) else a for a in args))
    a = _FNKEY.get(k)
    if a is not None:
        return a
    bucket = _FN.setdefault((kind, name, len(args)), [])
    for c in bucket:
        ok = True
        for x, y in zip(c.args, args):
            if isinstance(x, Expr) != isinstance(y, Expr):
                ok = False
                break
            if isinstance(x, Expr):
                try:
                    if not equal(x, y):
                        ok = False
                        break
                except AlgError:
                    ok = False
                    break
            elif x != y:
                ok = False
                break
        if ok:
            _FNKEY[k] = c
            return c
    if arr is None:
        arr = any(isinstance(x, Expr) and is_arr(x) for x in args)
    a = _new(kind, name, tuple(args), real=real, pos=pos, nonneg=nonneg, arr=arr)
    bucket.append(a)
    _FNKEY[k] = a
    return a


def fn(name, args, real=None, pos=False, nonneg=False, arr=None):
    args = tuple(simplify(a) if isinstance(a, Expr) else a for a in args)
    if real is None:
        real = not any(isinstance(a, Expr) and is_complex(a) for a in args)
    return atom_expr(_fnatom(name, args, real=real, pos=pos, nonneg=nonneg, arr=arr))


def exp(e):
    # terms are put over a common denominator only within groups that already share it, so that
    # exp(a + b) and exp(a) * exp(b) have the same form
    groups = {}
    for m, c in e.t.items():
        k = tuple((a, v) for a, v in m if ATOMS[a].kind == 'poly' and v < 0)
        groups.setdefault(k, {})[m] = c
    if len(groups) > 1:
        r = ONE
        for g in groups.values():
            r = mul(r, exp(Expr(g)))
        return r
    e = simplify(e)
    r = ONE
    for m, c in e.t.items():
        if not m:
            a = _fnatom('exp', (ONE,), pos=True)
            r = mul(r, atom_expr(a, c))
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name == 'log':
            r = mul(r, power(ATOMS[m[0][0]].args[0], num(c)))
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == 'clog':
            x = ATOMS[m[0][0]].args[0]
            if c.denominator == 1:
                r = mul(r, power(x, num(c)))
                continue
        t = Expr({m: Fr(1)})
        a = _fnatom('exp', (t,), real=not is_complex(t), pos=not is_complex(t))
        r = mul(r, atom_expr(a, c))
    return r


def log(e):
    e = simplify(e)
    if not e.t:
        return fn('log0', ())
    if is_complex(e):
        if e.is_const():
            return ZERO
        return fn('clog', (e,), real=False)
    if e.single():
        (m, c), = e.t.items()
        r = ZERO
        if c < 0:
            return fn('log', (e,))
        if c != 1:
            for p, k in list(_primes(c.numerator).items()) + [(p, -k) for p, k in _primes(c.denominator).items()]:
                r = add(r, scale(fn('log', (num(p),)), k))
        for a, v in m:
            k = ATOMS[a]
            if k.kind == 'fn' and k.name == 'exp':
                r = add(r, scale(k.args[0], v))
            elif k.kind == 'poly' or k.pos or True:
                r = add(r, scale(atom_expr(_fnatom('log', (atom_expr(k),), arr=k.arr)), v))
        return r
    c, mono, p = _content(e)
    # keep the sign inside the polynomial when the leading coefficient is negative
    p1 = scale(p, 1 / abs(c))
    pr = perfect_root(p1)
    if pr is not None:
        r = scale(log(absf(pr[0]) if pr[1] % 2 == 0 else pr[0]), pr[1])
    else:
        a = poly_atom(p1)
        r = atom_expr(_fnatom('log', (atom_expr(a),), arr=a.arr))
    r = add(r, log(num(abs(c)))) if abs(c) != 1 else r
    if mono:
        r = add(r, log(Expr({mono: Fr(1)})))
    return r


def log1p(e):
    return log(add(e, ONE))


def expm1(e):
    return add(exp(e), num(-1))


def _lead_sign(e):
    lead = max(e.t, key=lambda m: (len(m), m))
    return 1 if e.t[lead] > 0 else -1


def _odd_in(e, aid):
    for m in e.t:
        d = dict(m)
        v = d.get(aid, Fr(0))
        if v.denominator != 1 or int(v) % 2 == 0:
            return False
    return True


def _strip_sq1(e):
    """-> list of sq1 atoms that are odd in every monomial, e with them removed"""
    out = []
    for a in list(atoms_of(e)):
        if ATOMS[a].sq1 and _odd_in(e, a):
            e = mul(e, Expr({((a, Fr(1)),): Fr(1)}))
            out.append(a)
    return out, e


def cdf(u):
    u = simplify(u)
    if not u.t:
        return num(Fr(1, 2))
    s, u = _strip_sq1(u)
    if s:
        g = ONE
        for a in s:
            g = mul(g, atom_expr(ATOMS[a]))
        return add(scale(add(ONE, scale(g, -1)), Fr(1, 2)), mul(g, cdf(u)))
    if _lead_sign(u) < 0:
        return add(ONE, scale(cdf(scale(u, -1)), -1))
    if u.single():
        (m, c), = u.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == 'ppf' and ATOMS[m[0][0]].kind == 'fn':
            return ATOMS[m[0][0]].args[0]
    return fn('cdf', (u,), pos=True)


def ppf(p):
    p = simplify(p)
    if p.is_const() and p.const() == Fr(1, 2):
        return ZERO
    # ppf((1-g)/2 + g x) = g ppf(x), ppf(1-x) = -ppf(x) ; canonical via centred argument
    c = add(p, num(Fr(-1, 2)))
    s, c2 = _strip_sq1(c)
    if s:
        g = ONE
        for a in s:
            g = mul(g, atom_expr(ATOMS[a]))
        return mul(g, ppf(add(c2, num(Fr(1, 2)))))
    if p.single():
        (m, cc), = p.t.items()
        if cc == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == 'cdf' and ATOMS[m[0][0]].kind == 'fn':
            return ATOMS[m[0][0]].args[0]
    if _lead_sign(c) < 0:
        return scale(ppf(add(scale(c, -1), num(Fr(1, 2)))), -1)
    return fn('ppf', (p,))


def pi():
    return sym('@pi')


def pdf(u):
    u = simplify(u)
    s, u = _strip_sq1(u)
    return mul(exp(scale(mul(u, u), Fr(-1, 2))), power(scale(pi(), 2), num(Fr(-1, 2))))


def absf(e):
    e = simplify(e)
    if not e.t:
        return ZERO
    if e.is_const():
        return num(abs(e.const()))
    s, e = _strip_sq1(e)
    c, mono, p = _content(e)
    r = num(abs(c))
    keep = []
    for a, v in mono:
        if ATOMS[a].pos or ATOMS[a].nonneg:
            r = mul(r, Expr({((a, v),): Fr(1)}))
        else:
            r = mul(r, power(_abs_atom(atom_expr(ATOMS[a])), num(v))) if v.denominator == 1 else mul(r, Expr({((a, v),): Fr(1)}))
    p1 = scale(p, 1 / c)
    if p1.is_const():
        return r
    if p1.single():
        (m, cc), = p1.t.items()
        for a, v in m:
            if ATOMS[a].pos or ATOMS[a].nonneg:
                r = mul(r, Expr({((a, v),): Fr(1)}))
            elif ATOMS[a].sq1:
                pass
            else:
                r = mul(r, power(_abs_atom(atom_expr(ATOMS[a])), num(v)))
        return r
    if all(ct > 0 and all(ATOMS[a].nonneg for a, _ in m) for m, ct in p1.t.items()):
        return mul(r, p1)
    if _lead_sign(p1) < 0:
        p1 = scale(p1, -1)
    return mul(r, _abs_atom(p1))


def _abs_atom(e):
    if e.single():
        (m, c), = e.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'abs':
            return e
    k = ('abs', e.key())
    a = _FNKEY.get(k)
    if a is None:
        for c in _FN.setdefault(('abs',), []):
            if equal(c.args[0], e) or equal(c.args[0], scale(e, -1)):
                a = c
                break
        else:
            a = _new('abs', 'abs', (e,), nonneg=True, arr=is_arr(e))
            _FN[('abs',)].append(a)
        _FNKEY[k] = a
    return atom_expr(a)


def maximum(a, b):
    return scale(add(add(a, b), absf(add(a, scale(b, -1)))), Fr(1, 2))


def minimum(a, b):
    return scale(add(add(a, b), scale(absf(add(a, scale(b, -1))), -1)), Fr(1, 2))


def real(e):
    """Re(e), linear over real monomials"""
    e = simplify(e)
    groups = {}
    for m, c in e.t.items():
        rm = tuple((a, v) for a, v in m if ATOMS[a].real)
        cm = tuple((a, v) for a, v in m if not ATOMS[a].real)
        groups.setdefault(cm, []).append((rm, c))
    out = ZERO
    for cm, lst in groups.items():
        ex = ZERO
        for rm, c in lst:
            ex = add(ex, Expr({rm: c}))
        if not cm:
            out = add(out, ex)
        elif len(cm) == 1 and ATOMS[cm[0][0]].kind == 'imag':
            continue
        else:
            out = add(out, mul(ex, fn('re', (Expr({cm: Fr(1)}),), real=True)))
    return out


def diff(e, s):
    """d e / d s, s an Expr that is a single symbol atom"""
    (sm, _), = s.t.items()
    sid = sm[0][0]
    memo = {}

    def datom(aid):
        if aid in memo:
            return memo[aid]
        k = ATOMS[aid]
        if aid == sid:
            r = ONE
        elif k.kind in ('sym', 'prime', 'imag'):
            r = ZERO
        elif k.kind == 'poly':
            r = d(k.args[0])
        elif k.kind == 'abs':
            da = d(k.args[0])
            r = ZERO if not da.t else mul(fn('sign', (k.args[0],)), da)
        elif k.kind == 'fn':
            ds = [d(a) if isinstance(a, Expr) else ZERO for a in k.args]
            if all(not x.t for x in ds):
                r = ZERO
            elif k.name == 'exp':
                r = mul(atom_expr(k), ds[0])
            elif k.name in ('log', 'clog'):
                r = mul(inv(k.args[0]), ds[0])
            elif k.name == 'cdf':
                r = mul(pdf(k.args[0]), ds[0])
            elif k.name == 'sin':
                r = mul(fn('cos', k.args), ds[0])
            elif k.name == 'cos':
                r = scale(mul(fn('sin', k.args), ds[0]), -1)
            elif k.name == 'ppf':
                r = mul(inv(pdf(atom_expr(k))), ds[0])
            else:
                r = ZERO
                for i, x in enumerate(ds):
                    if x.t:
                        r = add(r, mul(fn('D%d:%s' % (i, k.name), k.args), x))
        else:
            raise AlgError('diff of ' + k.kind)
        memo[aid] = r
        return r

    def d(x):
        out = ZERO
        for m, c in x.t.items():
            for i, (a, v) in enumerate(m):
                da = datom(a)
                if not da.t:
                    continue
                rest = list(m)
                if v == 1:
                    rest.pop(i)
                else:
                    rest[i] = (a, v - 1)
                out = add(out, mul(Expr({tuple(rest): c * v}), da))
        return out
    return d(e)


def rebuild(name, args, a=None):
    f = REBUILD.get(name)
    if f:
        return f(*args)
    return fn(name, args, real=None, pos=a.pos if a else False, nonneg=a.nonneg if a else False)


def subst(e, mp, into=None):
    """mp: {atom_id: Expr}; into: restricts the atoms whose arguments are substituted in"""
    if not isinstance(e, Expr):
        return LIFT(lambda x: subst(x, mp, into), e, mp)
    memo = {}

    def satom(aid):
        if aid in memo:
            return memo[aid]
        if aid in mp:
            r = mp[aid]
        else:
            k = ATOMS[aid]
            if not k.args or into is not None and not into(k):
                r = atom_expr(k)
            else:
                na = [s(x) if isinstance(x, Expr) else x for x in k.args]
                if all(x is y or (isinstance(x, Expr) and x.t == y.t) for x, y in zip(na, k.args)):
                    r = atom_expr(k)
                elif k.kind == 'poly':
                    r = na[0]
                elif k.kind == 'abs':
                    r = absf(na[0])
                else:
                    r = rebuild(k.name, tuple(na), k)
        memo[aid] = r
        return r

    def s(x):
        out = ZERO
        for m, c in x.t.items():
            t = num(c)
            for a, v in m:
                t = mul(t, power(satom(a), num(v)))
            out = add(out, t)
        return out
    return s(e)


def sid(e):
    (m, _), = e.t.items()
    return m[0][0]


def sub1(e, **kw):
    return subst(e, {_SYM[k].id: lift(v) for k, v in kw.items() if k in _SYM})


REBUILD = {}
REBUILD.update(exp=exp, log=log, cdf=cdf, ppf=ppf, re=real,
               clog=log, cpow=power, pow=power)


def cos(e):
    e = simplify(e)
    if not e.t:
        return ONE
    if _lead_sign(e) < 0:
        e = scale(e, -1)
    return fn('cos', (e,))


def sin(e):
    e = simplify(e)
    if not e.t:
        return ZERO
    if _lead_sign(e) < 0:
        return scale(fn('sin', (scale(e, -1),)), -1)
    return fn('sin', (e,))


REBUILD.update(sin=sin, cos=cos)


_SHOW = [0]
MAXSHOW = 9


def show_atom(a):
    if _SHOW[0] >= MAXSHOW:
        return '..'
    _SHOW[0] += 1
    try:
        return _show_atom(a)
    finally:
        _SHOW[0] -= 1


def _show_atom(a):
    k = ATOMS[a]
    if k.kind == 'sym':
        return k.name.replace('@', '')
    if k.kind == 'imag':
        return 'i'
    if k.kind == 'prime':
        return str(k.name)
    if k.kind == 'poly':
        return '(' + show(k.args[0]) + ')'
    if k.kind == 'abs':
        return '|' + show(k.args[0]) + '|'
    return '%s(%s)' % (k.name, ', '.join(show(x) if isinstance(x, Expr) else str(x) for x in k.args))


def show(e, limit=700):
    if not e.t:
        return '0'
    parts = []
    for m, c in sorted(e.t.items(), key=lambda x: (len(x[0]), str(x[0]))):
        fs = []
        for a, v in m:
            fs.append(show_atom(a) + ('' if v == 1 else '^%s' % (v if v.denominator == 1 and v > 0 else '(%s)' % v)))
        if c == 1 and fs:
            s = '*'.join(fs)
        elif c == -1 and fs:
            s = '-' + '*'.join(fs)
        else:
            s = '*'.join([str(c)] + fs)
        parts.append(s)
        if sum(map(len, parts)) > (limit if _SHOW[0] < 3 else limit // 4):
            parts.append('...')
            break
    return ' + '.join(parts).replace('+ -', '- ')


def proportional(a, b, free=()):
    """a = q * b with q > 0 known and not involving the atoms of `free`"""
    if equal(a, b):
        return True
    try:
        q = div(a, b)
    except AlgError:
        return False
    if q is None or len(q.t) != 1:
        return False
    if set(free) & atoms_of(q):
        return False
    (m, c), = q.t.items()
    return c > 0 and all(ATOMS[i].pos for i, _ in m)
