"""P20 day counts and year fractions; P23 tenors."""
from fsa.spec import *
from fsa.chk import ANY, show, summary, Undecided, Mismatch
from fsa.interp import Tup, ArrW, RangeV, Dead, EnumMember
from fsa import models
from .curve import member

DC = 'frm.utils.daycount'
one = num(1)


def typed(name, ty, arr=None):
    x = sym(name, arr=ty in ARRAYS if arr is None else arr, pos=False)
    models.TYPES[sid(x)] = ty
    return x


def length(x):
    return fn('len', (x,), nonneg=True, arr=False)


def ymd(x):
    return [models.date_attr(None, x, n) for n in ('year', 'month', 'day')]


def days(x):
    return models.date_attr(None, x, 'days')


def spec_days(basis, a, b, last):
    """reference day count; last: the end date is the termination date"""
    if basis.startswith('ACT'):
        return days(b - a)
    (y1, m1, D1), (y2, m2, D2) = ymd(a), ymd(b)
    e31 = lambda x: eq0(x - num(31))
    if basis == '_30_360':
        d1 = ite(e31(D1), num(30), D1)
        d2 = ite(b_and(e31(D2), b_or(e31(D1), eq0(D1 - num(30)))), num(30), D2)
    elif basis == '_30E_360':
        d1 = ite(e31(D1), num(30), D1)
        d2 = ite(e31(D2), num(30), D2)
    else:
        d1 = ite(b_or(e31(D1), fb(y1, m1, D1)), num(30), D1)
        d2 = ite(b_or(e31(D2), b_and(fb(y2, m2, D2), b_not(last))), num(30), D2)
    return vals.apply(lambda x, y: num(360) * (y2 - y1) + num(30) * (m2 - m1) + y - x, d1, d2)


def fb(y, m, d):
    """last day of February"""
    return b_and(eq0(m - num(2)), ite_b(vals.cond('isleap', y), eq0(d - num(29)), eq0(d - num(28))))


def ite_b(c, a, b):
    return b_or(b_and(c, a), b_and(b_not(c), b))


def spec_years(basis, a, b, last):
    d = spec_days(basis, a, b, last)
    if basis != 'ACT_ACT':
        n = {'ACT_365': 365, 'ACT_366': 366}.get(basis, 360)
        return vals.lift1(lambda x: x / num(n), d)
    y1, y2 = models.date_attr(None, a, 'year'), models.date_attr(None, b, 'year')
    jan1 = lambda y: fn('date', (y, one, one), arr=alg.is_arr(y))
    n1, n2 = [ite(vals.cond('isleap', y), num(366), num(365)) for y in (y1, y2)]
    return vals.apply(lambda p, q: days(jan1(y1 + one) - a) / p + days(b - jan1(y2)) / q + y2 - y1 - one, n1, n2)


BASES = ('ACT_360', 'ACT_365', 'ACT_366', 'ACT_ACT', '_30_360', '_30E_360', '_30E_360_ISDA')
SHAPES = ('ts/ts', 'ts/dti', 'dti/ts', 'dti/dti', 'dti1/dti1')
KINDS = ('series/series', 'list/list', 'datetime64/datetime64', 'date/date', 'date/series', 'list/datetime64')
ARRAYS = ('dti', 'series', 'list')


def int_range(lits):
    """the literals bound some calendar field to an empty set of integers"""
    return any(l > h for l, h in vals.int_bounds(lits).values())


def inputs(shape):
    s, t = shape.split('/')
    a, b = [typed(n, 'dti' if k == 'dti1' else k) for n, k in (('start', s), ('end', t))]
    pc = True
    for x, ty in ((a, s), (b, t)):
        if ty in ARRAYS:
            pc = b_and(pc, gt0(length(x) - one))
        if ty == 'dti1':
            pc = b_and(pc, eq0(length(x) - one))
    return a, b, pc


def elementwise(v, xs):
    """write elements x[i] as x"""
    mp = {}
    ix = []

    def scan(e):
        for k in alg.deep_atoms(e):
            A = alg.ATOMS[k]
            if A.kind == 'sym' and str(A.name).startswith('@i') and not any(sid(x) == k for x in ix):
                ix.append(alg.atom_expr(A))
            if A.name in ('elem', 'sel') and isinstance(A.args[0], Expr) and any(equal(A.args[0], x) for x in xs):
                mp[k] = A.args[0]
    def walk(v):
        if isinstance(v, Node):
            k = vals.CONDS[v.var]
            for p in k[1:]:
                if isinstance(p, Expr):
                    scan(p)
            walk(v.hi)
            walk(v.lo)
        elif isinstance(v, Expr):
            scan(v)
        elif isinstance(v, Tup):
            for x in v.items:
                walk(x)
    walk(v)
    return mp, ix


def p20(c):
    for basis in BASES:
        for shape in SHAPES + KINDS:
            for what in ('day_count', 'year_frac'):
                def ob(basis=basis, shape=shape, what=what):
                    a, b, pc = inputs(shape)
                    e = c.engine(pc=pc)
                    r = e.call(e.get(DC, what), [], dict(start_date=a, end_date=b, day_count_basis=member(e, 'DayCountBasis', basis)))
                    if isinstance(r, Tup) and len(r.items) == 1:
                        r = r.items[0]
                    mp, ix = elementwise(r, (a, b))
                    first, last_ = [k in ARRAYS for k in shape.split('/')]
                    if last_ and not first:
                        mp[sid(length(a))] = length(b)
                    if first and not last_:
                        mp[sid(length(b))] = length(a)      # broadcast to the length of the other input
                    if shape == 'dti1/dti1':
                        mp[sid(length(a))] = mp[sid(length(b))] = one
                    if first and last_:
                        mp[sid(length(a))] = length(b)      # paired inputs
                    r = e.subst_val(r, mp)
                    ls = [x for x in ix if isinstance(x, Expr) and not x.is_const()]
                    pc = e.subst_val(pc, mp)
                    N = one if not first and not last_ else length(b if last_ else a)
                    if (first or last_) and shape != 'dti1/dti1':
                        for q, o in e.singles:
                            q = e.subst_val(q, mp)
                            c.must(not vals.sat(b_and(q, gt0(N - one))), '%s of %s: a single number is taken out of the results of several pairs' % (what, basis))
                    last = b_not(lt0(ls[0] - N + one)) if ls and (first or last_ or '1' in shape) else True
                    sp = (spec_days if what == 'day_count' else spec_years)(basis, a, b, last)
                    if ls:
                        pc = b_and(pc, b_not(gt0(ls[0] - N + one)))      # an element of the inputs
                    c.eq(r, sp, pc=pc, label='%s of %s' % (what, basis), skip=int_range)
                c.obligation('%s/%s/%s' % (what, basis.strip('_'), shape), 'day count / year fraction is the ISDA definition for every pair of dates', ob)
    for flag in (True, False):
        def ob(flag=flag):
            a, b, pc = inputs('ts/ts')
            e = c.engine(pc=pc)
            for what, sp in (('day_count', spec_days), ('year_frac', spec_years)):
                r = e.call(e.get(DC, what), [], dict(start_date=a, end_date=b, day_count_basis=member(e, 'DayCountBasis', '_30E_360_ISDA'), is_end_date_on_termination=flag))
                if isinstance(r, Tup) and len(r.items) == 1:
                    r = r.items[0]
                mp, ix = elementwise(r, (a, b))
                c.eq(e.subst_val(r, mp), sp('_30E_360_ISDA', a, b, flag), pc=pc, label='%s with the termination flag %s' % (what, flag), skip=int_range)
        c.obligation('termination/%s' % flag, 'the termination-date flag is honoured by 30E/360 ISDA', ob)
    return 60
