"""Gated values: decision diagrams over canonical condition atoms with arbitrary leaves.

A value is a leaf (algebraic Expr, None/str/bool, enum member, tuple, heap reference, function ...)
or a Node(condition, hi, lo).  Merging two branches at a join builds a gate, nothing is enumerated.
"""
import math
from fractions import Fraction as Fr
from . import alg
from .alg import Expr, ATOMS


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()          # content of a masked gather outside its mask / unbound variable


class Native:
    """a known constant of the standard library (a compiled pattern, a match)"""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class EnumMember:
    __slots__ = ('cls', 'name')
    _tab = {}

    def __new__(c, cls, name):
        k = (cls, name)
        m = c._tab.get(k)
        if m is None:
            m = object.__new__(c)
            m.cls, m.name = cls, name
            c._tab[k] = m
        return m

    def __repr__(self):
        return '%s.%s' % (self.cls, self.name)


class Tup:
    __slots__ = ('items', '_k')

    def __init__(self, items):
        self.items = tuple(items)
        self._k = None

    def __repr__(self):
        return 'Tup' + repr(self.items)


class Cols(Tup):
    """a two-dimensional array given by its columns, one row for each row of the frame it was taken from"""
    __slots__ = ()


class Ref:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Ref%d' % self.loc


_DEPTH = [0]


class Node:
    __slots__ = ('var', 'hi', 'lo')

    def __repr__(self):
        if _DEPTH[0] > 12:
            return '(..)'
        _DEPTH[0] += 1
        try:
            return '(%s ? %r : %r)' % (show_cond(self.var), self.hi, self.lo)
        finally:
            _DEPTH[0] -= 1


_UNIQ = {}
_LEAF = {}
CONDS = []       # (kind, payload...)
_CKEY = {}
_KEEP = []


TYPES = {}         # symbol id -> declared kind of value ('ts', 'dti', 'series')


def reset():
    alg.reset()
    RANK.clear(); PRESENT.clear(); LENGTH.clear(); DIGITS.clear()
    _UNIQ.clear(); _LEAF.clear(); CONDS.clear(); _CKEY.clear(); _KEEP.clear(); _NEGV.clear(); TYPES.clear()


_NEGV = {}
DIGITS = {}     # private-use character -> the integer whose digits it stands for
LENGTH = {}     # array atom -> known number of elements
PRESENT = set()  # atoms assumed not to be missing values
RANK = {}       # atom -> place in an assumed order: x - y of two ranked atoms has a known sign


def leafkey(v):
    if isinstance(v, Expr):
        return ('E', v.key())
    if v is None or isinstance(v, (str, bool)):
        return ('C', type(v).__name__, v)
    if isinstance(v, Tup):
        if v._k is None:
            v._k = ('T', tuple(vkey(x) for x in v.items))
        return v._k
    if isinstance(v, Ref):
        return ('R', v.loc)
    k = getattr(v, 'vkey', None)
    if k is not None:
        return ('K', k)
    return ('I', id(v))


def vkey(v):
    if isinstance(v, Node):
        return ('N', id(v))
    return leafkey(v)


def intern(v):
    if isinstance(v, Node):
        return v
    k = leafkey(v)
    r = _LEAF.get(k)
    if r is None:
        _LEAF[k] = v
        _KEEP.append(v)
        return v
    return r


def same(a, b):
    return a is b or vkey(a) == vkey(b)


def mk(var, hi, lo):
    hi, lo = intern(hi), intern(lo)
    if same(hi, lo):
        return hi
    k = (var, vkey(hi), vkey(lo))
    n = _UNIQ.get(k)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo = var, hi, lo
        _UNIQ[k] = n
    return n


def lift1(f, v):
    if not isinstance(v, Node):
        return f(v)
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return f(x)
        r = memo.get(id(x))
        if r is None:
            r = ite(CV(x.var), go(x.hi), go(x.lo))
            memo[id(x)] = r
        return r
    return go(v)


def apply(f, *vs):
    """pointwise lift of a leaf function over gated arguments"""
    if not any(isinstance(v, Node) for v in vs):
        return f(*vs)
    memo = {}

    def go(vs, lits):
        nodes = [v.var for v in vs if isinstance(v, Node)]
        if not nodes:
            return f(*vs)
        k = tuple(vkey(v) for v in vs)
        r = memo.get(k)
        if r is not None:
            return r[0]
        var = min(nodes)
        hi = go(tuple(v.hi if isinstance(v, Node) and v.var == var else v for v in vs), None)
        lo = go(tuple(v.lo if isinstance(v, Node) and v.var == var else v for v in vs), None)
        # leaf results may themselves be gated (conditions created inside f): use ite
        r = ite(CV(var), hi, lo) if (isinstance(hi, Node) and hi.var <= var) or (isinstance(lo, Node) and lo.var <= var) else mk(var, hi, lo)
        memo[k] = (r, vs)
        return r
    return go(tuple(vs), None)


def CV(var):
    return mk(var, True, False)


def b_not(c):
    return b_ite(c, False, True)


def b_ite(c, a, b):
    return ite(c, a, b)


def ite(c, a, b):
    """c: gated boolean"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    memo = {}

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if not isinstance(c, Node):
            raise TypeError('non-boolean gate %r' % (c,))
        if same(a, b):
            return a
        k = (vkey(c), vkey(a), vkey(b))
        r = memo.get(k)
        if r is not None:
            return r[0]
        var = min([x.var for x in (c, a, b) if isinstance(x, Node)])

        def br(x, s):
            if isinstance(x, Node) and x.var == var:
                return x.hi if s else x.lo
            return x
        r = mk(var, go(br(c, 1), br(a, 1), br(b, 1)), go(br(c, 0), br(a, 0), br(b, 0)))
        memo[k] = (r, a, b, c)
        return r
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([ite(c, x, y) for x, y in zip(a.items, b.items)])
    return go(c, a, b)


def b_and(a, b):
    return ite(a, b, False)


def b_or(a, b):
    return ite(a, True, b)


# ---------------------------------------------------------------- condition atoms

def cond(kind, *payload):
    k = (kind,) + tuple(vkey(p) if isinstance(p, (Expr, Tup, Ref, Node, EnumMember)) or p is None else p for p in payload)
    i = _CKEY.get(k)
    if i is None:
        i = len(CONDS)
        CONDS.append((kind,) + payload)
        _CKEY[k] = i
    return CV(i)


def sgn(e):
    """sign knowledge: subset of '-0+' as a string"""
    if not e.t:
        return '0'
    if e.is_const():
        return '+' if e.const() > 0 else '-'
    if RANK and len(e.t) == 2:
        (m1, c1), (m2, c2) = e.t.items()
        if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and m1[0][0] in RANK and m2[0][0] in RANK:
            d = (RANK[m1[0][0]] - RANK[m2[0][0]]) * (1 if c1 > 0 else -1)
            if d:
                return '+' if d > 0 else '-'
    np_ = nn = True
    strict = False
    for m, c in e.t.items():
        ok = True
        pos = True
        for a, v in m:
            k = ATOMS[a]
            even = v.denominator == 1 and int(v) % 2 == 0
            if k.pos:
                continue
            pos = False
            if k.nonneg or (even and k.real):
                continue
            if v.denominator == 2 and k.real and int(v * 2) % 2:   # a root is nonnegative
                continue
            ok = False
        if not ok:
            np_ = nn = False
            break
        if pos:
            strict = True
        if c > 0:
            nn = False
        else:
            np_ = False
    if not np_ and not nn and len(e.t) == 2 and () in e.t:
        # c0 + c1 * Phi(x), 0 < Phi < 1
        c0 = e.t[()]
        (m, c1), = [(m, c) for m, c in e.t.items() if m]
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == 'cdf':
            lo, hi = min(c0, c0 + c1), max(c0, c0 + c1)
            if lo >= 0:
                return '+'
            if hi <= 0:
                return '-'
    # np_ : all terms >= 0 ; nn : all terms <= 0
    if np_:
        return '+' if strict else '0+'
    if nn:
        return '-' if strict else '-0'
    return '-0+'


def _canon(e):
    """e -> (sign, P) P canonical up to positive factors"""
    e = alg.simplify(e)
    s, e2 = 1, e
    if not e.single():
        # multiply out denominators of known positive sign
        try:
            n, den = alg.clear(e)
            ok = all(ATOMS[a].pos or (v.denominator == 1 and int(v) % 2 == 0) for a, v in den.items())
            if ok:
                e2 = n
        except alg.AlgError:
            pass
    c, mono, p = alg._content(e2)
    if p.is_const():
        q = alg.ONE
        s = 1 if p.const() > 0 else -1
        for a, v in mono:
            k = ATOMS[a]
            if k.pos:
                continue
            q = alg.mul(q, Expr({((a, v),): Fr(1)}))
        return s, q
    # drop positive monomial factor
    keep = tuple((a, v) for a, v in mono if not ATOMS[a].pos)
    lead = max(p.t, key=lambda m: (len(m), m))
    c0 = p.t[lead]
    p = alg.scale(p, 1 / c0)
    e3 = p
    if keep:
        e3 = alg.mul(p, Expr({keep: Fr(1)}))
    s = 1 if c0 > 0 else -1
    return s, e3


def _signcond(e):
    """-> (s, P, neg, pos) gated booleans for e<0 and e>0"""
    g = sgn(e)
    if g == '+':
        return False, True
    if g == '-':
        return True, False
    if g == '0':
        return False, False
    st, rest = alg._strip_sq1(alg.simplify(e))
    if len(st) == 1 and sgn(rest) in ('+', '-'):
        q = cond('sq1', st[0])
        neg, pos = b_not(q), q
        if sgn(rest) == '-':
            neg, pos = pos, neg
        return neg, pos
    # sq1 symbol compared with +-1
    sat = [a for a in alg.atoms_of(e) if ATOMS[a].sq1]
    if len(e.t) == 2 and len(sat) == 1 and set(e.t) == {(), ((sat[0], Fr(1)),)}:
        a = sat[0]
        k = e.t[()]
        c = e.t[((a, Fr(1)),)]
        # values at +1 and -1
        q = cond('sq1', a)
        vp, vm = c + k, -c + k
        return ite(q, vp < 0, vm < 0), ite(q, vp > 0, vm > 0)
    ab = [a for a in alg.atoms_of(e) if ATOMS[a].kind == 'abs']
    if len(ab) == 1 and all(v == 1 for m in e.t for a, v in m if a == ab[0]):
        # the sign of an absolute value decides the form
        p = ATOMS[ab[0]].args[0]
        neg, pos = _signcond(p)
        if isinstance(neg, Node) or isinstance(pos, Node):
            at = lambda q: _signcond(alg.simplify(alg.subst(e, {ab[0]: q})))
            (n1, p1), (n2, p2) = at(alg.scale(p, -1)), at(p)
            return ite(neg, n1, n2), ite(neg, p1, p2)
    s, P = _canon(e)
    P = _lookup(P)
    if isinstance(P, tuple):
        s2, P = P
        s *= s2
    g = sgn(P)
    neg = cond('neg', P) if '-' in g else False
    pos = cond('pos', P) if '+' in g else False
    if g == '0+':
        neg = False
    if g == '-0':
        pos = False
    return (neg, pos) if s > 0 else (pos, neg)


_PS = []


def _lookup(P):
    for q in _NEGV.setdefault('list', []):
        if q.t == P.t:
            return q
    for q in _NEGV['list']:
        try:
            if alg.equal(q, P):
                return q
            if alg.equal(q, alg.scale(P, -1)):
                return (-1, q)
        except alg.AlgError:
            pass
    _NEGV['list'].append(P)
    return P


def lt0(e):
    return _signcond(e)[0]


def gt0(e):
    return _signcond(e)[1]


def eq0(e):
    n, p = _signcond(e)
    return b_and(b_not(n), b_not(p))


def show_cond(i):
    c = CONDS[i]
    if c[0] == 'neg':
        return '%s < 0' % alg.show(c[1], 160)
    if c[0] == 'pos':
        return '%s > 0' % alg.show(c[1], 160)
    if c[0] == 'sq1':
        return '%s == 1' % ATOMS[c[1]].name
    return '%s(%s)' % (c[0], ', '.join(alg.show(x, 160) if isinstance(x, Expr) else repr(x) for x in c[1:]))


# ---------------------------------------------------------------- feasibility

def _nonconst(e):
    k = e.t.get((), Fr(0))
    if not k:
        return e, Fr(0)
    d = dict(e.t)
    d.pop(())
    return Expr(d), k


def feasible(lits):
    """lits: dict cond-index -> bool.  Sound pruning only (True when unknown)."""
    lin = {}
    enum = {}
    for i, b in lits.items():
        c = CONDS[i]
        if c[0] in ('neg', 'pos'):
            base, k = _nonconst(c[1])
            # normalise sign of the leading term of base
            lead = max(base.t, key=lambda m: (len(m), m)) if base.t else None
            if lead is None:
                continue
            sc = base.t[lead]
            kb = alg.scale(base, 1 / sc).key()
            # e = sc*(B + k/sc)
            op = c[0] if sc > 0 else ('pos' if c[0] == 'neg' else 'neg')
            t = -k / sc
            # op neg: B < t ; pos: B > t ; negated: B >= t ; B <= t
            lo, hi, los, his, ne = lin.setdefault(kb, [None, None, False, False, None])
            rec = lin[kb]
            if op == 'neg' and b:
                _hi(rec, t, True)
            elif op == 'neg':
                _lo(rec, t, False)
            elif op == 'pos' and b:
                _lo(rec, t, True)
            else:
                _hi(rec, t, False)
            if rec[4] is None:
                rec[4] = alg.scale(base, 1 / sc)
        elif c[0] == 'eqm' and b:
            e = enum.setdefault(vkey(c[1]), c[2])
            if e is not c[2] and not same(e, c[2]):
                return False
        elif c[0] == 'isnone' and b:
            e = enum.setdefault(vkey(c[1]), None)
            if e is not None:
                return False
    for rec in lin.values():
        lo, hi, los, his, B = rec
        g = sgn(B)
        if '-' not in g and (lo is None or lo < 0):
            lo, los = Fr(0), False
        if '+' not in g and (hi is None or hi > 0):
            hi, his = Fr(0), False
        if '0' not in g:
            if '-' not in g and lo == 0:
                los = True
            if '+' not in g and hi == 0:
                his = True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his))):
            return False
    for i, b in lits.items():
        c = CONDS[i]
        if c[0] == 'any' and not b:
            if evalb(c[1], lits) is True:
                return False
        if c[0] == 'any' and b:
            if evalb(c[1], lits) is False and c[2:] == ('scalar',):
                return False
        if c[0] == 'eqm' and not b:
            pass
    for kb, m in enum.items():
        for i, b in lits.items():
            c = CONDS[i]
            if c[0] == 'isnone' and b and m is not None and vkey(c[1]) == kb:
                return False
            if c[0] == 'eqm' and b and m is None and vkey(c[1]) == kb:
                return False
    return True


def _hi(r, t, strict):
    if r[1] is None or t < r[1] or (t == r[1] and strict):
        r[1], r[3] = t, strict


def _lo(r, t, strict):
    if r[0] is None or t > r[0] or (t == r[0] and strict):
        r[0], r[2] = t, strict


def evalb(c, lits):
    while isinstance(c, Node):
        b = lits.get(c.var)
        if b is None:
            h, l = evalb(c.hi, lits), evalb(c.lo, lits)
            return h if h is l else None
        c = c.hi if b else c.lo
    return c


def sat(c, lits=None):
    """is the gated boolean c feasible"""
    def go(c, lits):
        if c is False:
            return False
        if not isinstance(c, Node):
            return True
        for br, val in ((c.hi, True), (c.lo, False)):
            if br is False:
                continue
            l2 = dict(lits)
            l2[c.var] = val
            if feasible(l2) and go(br, l2):
                return True
        return False
    return go(c, lits or {})


def implies(pc, c):
    return not sat(b_and(pc, b_not(c)))


def prune(v, pc=True, limit=4000):
    """drop branches of v that are infeasible under pc"""
    cnt = [0]

    def go(v, pc, lits):
        cnt[0] += 1
        if cnt[0] > limit:
            return v
        if not isinstance(v, Node):
            return v
        if isinstance(pc, Node) and pc.var < v.var:
            h, l = dict(lits), dict(lits)
            h[pc.var] = True
            l[pc.var] = False
            fh = pc.hi is not False and feasible(h)
            fl = pc.lo is not False and feasible(l)
            if fh and not fl:
                return go(v, pc.hi, h)
            if fl and not fh:
                return go(v, pc.lo, l)
            if not fh and not fl:
                return v
            a, b = go(v, pc.hi, h), go(v, pc.lo, l)
            if same(a, b):
                return a
            return mk(pc.var, a, b)
        ph = pc.hi if isinstance(pc, Node) and pc.var == v.var else pc
        pl = pc.lo if isinstance(pc, Node) and pc.var == v.var else pc
        h, l = dict(lits), dict(lits)
        h[v.var] = True
        l[v.var] = False
        fh = ph is not False and feasible(h) and sat(ph, h)
        fl = pl is not False and feasible(l) and sat(pl, l)
        if fh and not fl:
            return go(v.hi, ph, h)
        if fl and not fh:
            return go(v.lo, pl, l)
        if not fh:
            return v
        return mk(v.var, go(v.hi, ph, h), go(v.lo, pl, l))
    return go(v, pc, {})


def leaves(v, pc=True, limit=20000, lits=None):
    """(literals, leaf) for every feasible gate combination"""
    out = []

    def go(v, pc, lits):
        if len(out) > limit:
            raise alg.AlgError('too many gates')
        if pc is False:
            return
        nodes = [x.var for x in (v, pc) if isinstance(x, Node)]
        if not nodes:
            out.append((lits, v))
            return
        var = min(nodes)
        for val in (True, False):
            v2 = (v.hi if val else v.lo) if isinstance(v, Node) and v.var == var else v
            p2 = (pc.hi if val else pc.lo) if isinstance(pc, Node) and pc.var == var else pc
            l2 = dict(lits)
            l2[var] = val
            if p2 is not False and feasible(l2):
                go(v2, p2, l2)
    if lits:
        v, pc = restrict(v, lits), restrict(pc, lits)
    go(v, pc, dict(lits or {}))
    return out


def restrict(v, lits):
    if not isinstance(v, Node):
        return v
    b = lits.get(v.var)
    if b is not None:
        return restrict(v.hi if b else v.lo, lits)
    h, l = restrict(v.hi, lits), restrict(v.lo, lits)
    return h if h is l else mk(v.var, h, l)


def show_lits(l):
    return ' and '.join(('' if b else 'not ') + '[' + show_cond(i) + ']' for i, b in sorted(l.items())) or 'always'


def int_bounds(lits):
    """{calendar-field atom: (low, high)} implied by the literals"""
    lo, hi = {}, {}
    for v, s in lits.items():
        k = CONDS[v]
        if k[0] not in ('neg', 'pos') or not isinstance(k[1], Expr):
            continue
        e = k[1]
        xs = [(m, q) for m, q in e.t.items() if m]
        if len(xs) != 1 or len(xs[0][0]) != 1 or xs[0][0][0][1] != 1:
            continue
        (m, q), = xs
        a = m[0][0]
        if ATOMS[a].name not in ('date.day', 'date.month', 'date.year'):
            continue
        t = -e.t.get((), Fr(0)) / q
        up = (k[0] == 'pos') == (q > 0)
        if s:
            if up:
                lo[a] = max(lo.get(a, -10 ** 9), math.floor(t) + 1)
            else:
                hi[a] = min(hi.get(a, 10 ** 9), math.ceil(t) - 1)
        else:
            if up:
                hi[a] = min(hi.get(a, 10 ** 9), math.floor(t))
            else:
                lo[a] = max(lo.get(a, -10 ** 9), math.ceil(t))
    out = {}
    for a in set(lo) | set(hi):
        l, h = {'date.day': (1, 31), 'date.month': (1, 12)}.get(ATOMS[a].name, (-10 ** 9, 10 ** 9))
        out[a] = max(lo.get(a, l), l), min(hi.get(a, h), h)
    return out


def eq_substs(lits):
    """substitutions implied by equality literals: {atom: Expr}"""
    mp = {a: alg.num(l) for a, (l, h) in int_bounds(lits).items() if l == h}
    byP = {}
    for i, b in lits.items():
        c = CONDS[i]
        if c[0] == 'sq1':
            mp[c[1]] = alg.num(1 if b else -1)
        if c[0] in ('neg', 'pos') and not b:
            byP.setdefault(c[1].key(), [c[1], set()])[1].add(c[0])
    for P, ks in byP.values():
        g = sgn(P)
        need = {'neg', 'pos'}
        if '-' not in g:
            need.discard('neg')
        if '+' not in g:
            need.discard('pos')
        if need <= ks:
            P = alg.subst(P, mp) if mp else P
            # P == 0 : solve for an atom that occurs linearly
            for m, cc in P.t.items():
                K = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                if K is not None and (K.kind == 'sym' and not K.sq1 or K.kind == 'fn' and str(K.name).startswith('date.') and len(P.t) <= 2):
                    a = m[0][0]
                    rest = alg.add(P, alg.scale(Expr({m: Fr(1)}), -cc))
                    if a in alg.deep_atoms(rest) or a in mp:
                        continue
                    mp[a] = alg.scale(rest, -1 / cc)
                    break
            else:
                if P.single():
                    (m, cc), = P.t.items()
                    m = tuple(x for x in m if sgn(alg.atom_expr(ATOMS[x[0]])) != '+') if len(m) > 1 else m
                    if len(m) == 1 and ATOMS[m[0][0]].kind in ('sym', 'abs') and m[0][1] > 0:
                        k = ATOMS[m[0][0]]
                        if k.kind == 'sym':
                            mp[k.id] = alg.ZERO
                for m, cc in P.t.items():
                    K = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                    if K is not None and K.kind == 'fn' and K.name in ('max', 'min') and K.id not in mp:
                        rest = alg.add(P, alg.scale(Expr({m: Fr(1)}), -cc))
                        if K.id not in alg.deep_atoms(rest):
                            mp[K.id] = alg.scale(rest, -1 / cc)
                            break
    for _ in range(3 if len(mp) > 1 else 0):       # a replacement may itself mention a replaced term
        new = {a: alg.subst(x, {b: y for b, y in mp.items() if b != a}) for a, x in mp.items()}
        if any(a in alg.deep_atoms(x) for a, x in new.items()) or all(alg.equal(new[a], mp[a]) for a in mp):
            break
        mp = new
    return mp
