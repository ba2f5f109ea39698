"""P15 compounding; P16-P18 zero curve."""
from fsa.spec import *
from fsa.chk import ANY, show, summary, Undecided, Mismatch
from fsa.interp import Tup, ArrW, RangeV, Dead, EnumMember
from fsa import models, interp

EN = 'frm.enums'
one = num(1)
PPY = dict(DAILY=365, WEEKLY=52, MONTHLY=12, QUARTERLY=4, SEMIANNUAL=2, ANNUAL=1)
FREQS = ['SIMPLE', 'CONTINUOUS'] + list(PPY)


def member(e, cls, name):
    return e.attr(e.get(EN, cls), name, None)


def df_of(freq, r, t):
    if freq == 'CONTINUOUS':
        return exp(-r * t)
    if freq == 'SIMPLE':
        return one / (one + r * t)
    n = num(PPY[freq])
    return exp(-n * t * log(one + r / n))


def zr_of(freq, df, t):
    if freq == 'CONTINUOUS':
        return -log(df) / t
    if freq == 'SIMPLE':
        return (one / df - one) / t
    n = num(PPY[freq])
    return n * (exp(-log(df) / (n * t)) - one)


def p15(c):
    for f in FREQS:
        def fwd(f=f):
            e = c.engine()
            m = member(e, 'CompoundingFreq', f)
            t, r = P('years'), P('zero_rate')
            got = e.call_method(m, 'calc_discount_factor_from_zero_rate', [], dict(years=t, zero_rate=r))
            c.eq(got, df_of(f, r, t), label='discount factor of a %s rate' % f.lower())
        c.obligation('df/' + f, 'discount factor of a zero rate is the stated compounding formula', fwd)

        def back(f=f):
            e = c.engine()
            m = member(e, 'CompoundingFreq', f)
            t, d = P('years'), P('discount_factor')
            got = e.call_method(m, 'calc_zero_rate_from_discount_factor', [], dict(years=t, discount_factor=d))
            c.eq(got, zr_of(f, d, t), label='%s zero rate of a discount factor' % f.lower())
        c.obligation('zr/' + f, 'zero rate of a discount factor is the inverse formula', back)
        for g in FREQS:
            def conv(f=f, g=g):
                e = c.engine()
                a, b = member(e, 'CompoundingFreq', f), member(e, 'CompoundingFreq', g)
                r = P('zero_rate')
                got = e.call_method(a, 'convert_rate_to', [], dict(zero_rate=r, target_compounding_freq=b))
                c.eq(got, zr_of(g, df_of(f, r, one), one), label='%s rate converted to %s' % (f.lower(), g.lower()))
            c.obligation('convert/%s/%s' % (f, g), 'conversion keeps the one-year discount factor', conv)
    return 60


ZC = 'frm.term_structures.zero_curve'
DCM = 'frm.utils.daycount'
TN = 'frm.utils.tenor'
INTERP = ('LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR')
FC = 'frm.enums.utils'


def curve_engine(c, pos=True, **kw):
    e = c.engine(**kw)
    yf = summary('YF', ['start_date', 'end_date', 'day_count_basis'], arr=None, pos=pos)

    def years(eng, env):
        r = yf(eng, env)
        if isinstance(r, Expr) and not pos:
            alg.ATOMS[sid(r)].vec = True
        return r
    e.overrides[DCM + '.year_frac'] = years
    e.overrides[DCM + '.day_count'] = summary('DCN', ['start_date', 'end_date', 'day_count_basis'], arr=None)
    e.overrides[TN + '.clean_tenor'] = summary('clean_tenor', ['tenor'], arr=None)
    e.overrides[TN + '.tenor_to_date_offset'] = summary('tenor_offset', ['tenor'], arr=None)
    return e


def tsym(name, ty, arr=None, **kw):
    x = sym(name, arr=ty in ('dti', 'series') if arr is None else arr, pos=False, **kw)
    models.TYPES[sid(x)] = ty
    return x


def concat(e, *ps):
    return e.models.concat_parts(e, list(ps))


class Curve:
    """a symbolically constructed zero curve and the reference for its pillars"""

    def __init__(self, e, xc, yc, im, freq=None, basis='ACT_365', extrap='NONE', after=True):
        self.e, self.im, self.xc, self.yc = e, im, xc, yc
        self.cd = tsym('curve_date', 'ts')
        self.after = after
        self.basis = member(e, 'DayCountBasis', basis)
        self.cal = sym('cal', pos=False)
        if xc == 'years':
            x = sym('years', arr=True, pos=after, nonneg=True, vec=not after)
        elif xc == 'date':
            x = tsym('pillar_dates', 'series')
        else:
            x = sym(xc, arr=True, pos=False)
        y = sym('quotes', arr=True)
        kw = dict(curve_date=self.cd, pillar_df=e.new_df({xc: x, yc: y}), day_count_basis=self.basis, cal=self.cal,
                  interp_method=member(e, 'ZeroCurveInterpMethod', im), extrap_method=member(e, 'ZeroCurveExtrapMethod', extrap))
        if freq:
            kw['compounding_freq'] = member(e, 'CompoundingFreq', freq)
        self.obj = e.call(e.get(ZC, 'ZeroCurve'), [], kw)
        day = sym('@day')
        cd = self.cd
        if xc == 'years':
            self.dates = None
            self.t = x
        else:
            if xc == 'date':
                self.dates = x
            elif xc == 'days':
                self.dates = cd + x * day
            else:
                self.dates = None
                for dt in [v for k, v in self.e.rec(self.leaf(self.e.attr(self.obj, 'pillar_df', None))).f.items() if k == 'date']:
                    ps = models.concat_of(dt)
                    self.dates = ps[-1] if ps is not None else dt
            self.t = self.yf(self.dates)
        t = self.t
        self.df = y if yc == 'discount_factor' else df_of(freq, y, t)
        self.cc = -log(y) / t if yc == 'discount_factor' else (log(one + y * t) / t if freq == 'SIMPLE' else (y if freq == 'CONTINUOUS' else num(PPY[freq]) * log(one + y / num(PPY[freq]))))
        self.first = self.e.models.index(e, t, num(0), None)
        self.pc = True if after else b_and(eq0(self.first), gt0(self.e.models.index(e, t, one, None)))      # the pillars are distinct

    def leaf(self, v):
        return self.e.any_leaf(v)

    def yf(self, d):
        return self.e.opaque('YF', self.cd, d, self.basis, arr=None, pos=self.after)

    def later(self, v):
        """the pillars after the curve date, where the one on it is quoted by its discount factor: that has no zero rate"""
        return v if self.after or self.yc != 'discount_factor' else self.e.models.index(self.e, v, interp.SliceV(one, None, None), None)

    def ln_df(self, t):
        """reference log discount factor at time t"""
        e = self.e
        if self.im == 'CUBIC_SPLINE_ON_CCZR':
            s = fn('spline', (self.later(self.t), self.later(self.cc), num(3)), arr=True)
            return -t * fn('splev', (t, s, num(0)), arr=alg.is_arr(t))
        x, y = self.t, log(self.df)
        if self.after or self.yc == 'discount_factor':
            x, y = [concat(e, Tup([num(0)]), self.later(v)) for v in (x, y)]
        if self.im == 'LINEAR_ON_LN_DISCOUNT':
            return fn('interp', (t, x, y), arr=alg.is_arr(t))
        return fn('splev', (t, fn('spline', (x, y, num(3)), arr=True), num(0)), arr=alg.is_arr(t))


def p16(c):
    quotes = [('discount_factor', None)] + [('zero_rate', f) for f in FREQS]
    for xc in ('years', 'days', 'date', 'tenor'):
        for yc, f in quotes:
            def pillars(after, xc=xc, yc=yc, f=f):
                for im in INTERP:
                    e = curve_engine(c, pos=after)
                    k = Curve(e, xc, yc, im, f, after=after)
                    pc = k.pc if after else b_and(k.pc, gt0(k.t))
                    for lits, leaf in leaves(e.attr(k.obj, 'pillar_df', None), pc):
                        r = e.rec(leaf)
                        if not any(o[0] == 'sort_values' and o[2] is True for o in (r.extra or {}).get('ops', ())):
                            raise Mismatch('pillars given in any order are not put in order of time')
                        for o in (r.extra or {}).get('ops', ()):
                            by = o[1].items[0] if isinstance(o[1], Tup) and o[1].items else o[1]
                            c.must(o[0] != 'sort_values' or by != 'tenor' or len(o) > 3, 'the pillars are put in the order of the text of their tenors')
                        spec = dict(years=k.t, discount_factor=k.df, cczr=k.cc)
                        if xc != 'years':
                            spec['date'] = k.dates
                        head = dict(years=num(0), discount_factor=num(1), date=k.cd, cczr=e.models.index(e, k.later(k.cc), num(0), None))
                        if im == 'CUBIC_SPLINE_ON_CCZR':
                            head['cczr'] = fn('splev', (num(0), fn('spline', (k.later(k.t), k.later(k.cc), num(3)), arr=True), num(0)), arr=False)
                        if im == 'CUBIC_SPLINE_ON_LN_DISCOUNT':
                            head['cczr'] = -k.ln_df(num('0.000001')) / num('0.000001')
                        new = after or yc == 'discount_factor'
                        for col, sp in spec.items():
                            if col not in r.f:
                                raise Mismatch('the pillar table has no column %s' % col)
                            c.eq(r.f[col], concat(e, Tup([head[col]]), k.later(sp)) if new else sp, pc=pc, label='pillar column %s (%s quoted by %s, first pillar %s the curve date)' % (col, xc, yc, 'after' if after else 'on'))
            for after in (True, False):
                c.obligation('pillars/%s/%s%s' % (xc, f or 'df', '' if after else '/from-curve-date'), 'pillar table: times, discount factors and continuous zero rates agree with the quotes', lambda after=after, pillars=pillars: pillars(after))
    for im in INTERP:
        for yc, f in (('discount_factor', None), ('zero_rate', 'ANNUAL')):
            def lookups(after, im=im, yc=yc, f=f):
                for xc in ('years', 'date'):
                    e = curve_engine(c, pos=after)
                    k = Curve(e, xc, yc, im, f, after=after)
                    pc = k.pc
                    for arr in (True, False):
                        t = sym('t' if arr else 't0', arr=arr)
                        L = k.ln_df(t)
                        got = e.call_method(k.obj, 'get_discount_factors', [], dict(years=t))
                        c.eq(got, exp(L), pc=pc, label='discount factor at a time')
                        for g in FREQS:
                            got = e.call_method(k.obj, 'get_zero_rates', [], dict(years=t, compounding_freq=member(e, 'CompoundingFreq', g)))
                            c.eq(got, zr_of(g, exp(L), t), pc=pc, label='%s zero rate at a time' % g.lower())
            for after in (True, False):
                c.obligation('times/%s/%s%s' % (im, f or 'df', '' if after else '/from-curve-date'), 'discount factor at a time is the interpolated one and the zero rate belongs to it', lambda after=after, lookups=lookups: lookups(after))
            def daily(after, im=im, yc=yc, f=f):
                for xc, ex in (('years', 'NONE'), ('date', 'NONE'), ('years', 'FLAT'), ('date', 'FLAT')):
                    e = curve_engine(c, pos=after)
                    k = Curve(e, xc, yc, im, f, extrap=ex, after=after)
                    pc = k.pc
                    for lits, leaf in leaves(e.attr(k.obj, 'daily_df', None), pc):
                        r = e.rec(leaf)
                        d = vals.restrict(r.f['date'], lits)
                        c.need(isinstance(d, Expr), 'dates of the daily table %s' % show(d))
                        A = alg.ATOMS[sid(d)]
                        if A.name != 'date_range' or not equal(A.args[0], k.cd) or A.args[2] != 'D':
                            raise Mismatch('the daily table does not hold every calendar day from the curve date: %s' % show(d))
                        if xc == 'date':
                            c.eq(A.args[1], fn('max', (concat(e, Tup([k.cd]), k.later(k.dates)),), arr=False), pc=pc, label='last day of the daily table', cmp=lambda a, b, lits: show(a) in (show(b), 'max(%s)' % show(k.dates)))
                        t = k.yf(d)
                        L = k.ln_df(t)
                        c.eq(r.f['years'], t, pc=pc, label='years of the daily table')
                        c.eq(r.f['discount_factor'], exp(L), pc=pc, label='discount factor of a day')
                        c.eq(r.f['cczr'], -L / t, pc=pc, label='zero rate of a day')
            for after in (True, False):
                c.obligation('daily/%s/%s%s' % (im, f or 'df', '' if after else '/from-curve-date'), 'each day has the discount factor and zero rate of its year fraction', lambda after=after, daily=daily: daily(after))
    for im in INTERP:
        for xc in ('years', 'date'):
            def shift(im=im, xc=xc):
                e = curve_engine(c)
                k = Curve(e, xc, 'discount_factor', im, extrap='FLAT')
                made = []
                e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: made.append(dict(env))
                bp = sym('basis_points', pos=False)
                z = e.call_method(k.obj, 'flat_shift', [], dict(basis_points=bp))
                c.must(made, 'flat_shift does not build a new curve')
                for a in ('curve_date', 'day_count_basis', 'cal', 'interp_method', 'extrap_method'):
                    c.eq(e.attr(z, a, None), e.attr(k.obj, a, None), label='%s of the shifted curve' % a)
                for lits, leaf in leaves(e.attr(z, 'pillar_df', None), True):
                    r = e.rec(leaf)
                    later = gt0(concat(e, Tup([num(0)]), k.t))
                    c.must(set(r.f) == {xc, 'discount_factor'}, 'shifted pillars are given by %s' % sorted(r.f))
                    for col, sp, full in ((xc, k.t if xc == 'years' else k.dates, concat(e, Tup([num(0) if xc == 'years' else k.cd]), k.t if xc == 'years' else k.dates)),
                                          ('discount_factor', k.df * exp(-bp * k.t / num(10000)), concat(e, Tup([num(1)]), k.df) * exp(-bp * concat(e, Tup([num(0)]), k.t) / num(10000)))):
                        c.eq(r.f[col], full, pc=later, label='shifted pillar column %s' % col, cmp=lambda a, b, lits, sp=sp: equal(a, sp) if isinstance(a, Expr) else None)
            c.obligation('shift/%s/%s' % (im, xc), 'a flat shift multiplies each pillar discount factor by exp(-shift*time) and keeps the conventions', shift)
    return 50


def in_grid(e, v, lo, hi):
    """values read from a day grid [lo, hi] are the grid's function of the day; days off the grid have no value"""
    def one(x):
        if not isinstance(x, Expr):
            return x
        for k in alg.deep_atoms(x):
            A = alg.ATOMS[k]
            if A.name == 'lookup':
                key, keys, val = A.args
                at = e.subst_val(val, {sid(keys): key})
                if any(k in alg.deep_atoms(q) for _, q in leaves(e.subst_val(x, {k: at}), True) if isinstance(q, Expr)):
                    raise Mismatch('the value at a date also depends on the values at other dates: %s' % show(x))
                return vals.lift1(one, ite(b_or(lt0(key - lo), gt0(key - hi)), e.subst_val(x, {k: fn('nan', ())}), e.subst_val(x, {k: at})))
        return x
    return vals.lift1(lambda x: one(x), v)


def nan_leaf(v):
    """any expression of nan is nan"""
    return vals.lift1(lambda x: fn('nan', ()) if isinstance(x, Expr) and any(alg.ATOMS[a].name == 'nan' for a in alg.deep_atoms(x)) else x, v)


def p18(c):
    for im in INTERP:
        for ex in ('NONE', 'FLAT'):
            for ty in ('dti', 'series', 'ts', 'days'):
                def ob(im=im, ex=ex, ty=ty):
                    e = curve_engine(c)
                    k = Curve(e, 'date', 'discount_factor', im, None, extrap=ex)
                    grid = e.rec(e.any_leaf(e.attr(k.obj, 'daily_df', None))).f['date']
                    hi = alg.ATOMS[sid(grid)].args[1]
                    lo = k.cd
                    if ty == 'days':
                        x = sym('days_ahead', arr=False, pos=False)
                        arg, d = dict(days=x), k.cd + x * sym('@day')
                    else:
                        d = tsym('dates_' + ty, ty)
                        arg = dict(dates=d)
                    pc = b_not(lt0(hi - lo))
                    if ex == 'FLAT':
                        dd = ite(lt0(d - lo), lo, ite(gt0(d - hi), hi, d))
                    else:
                        dd = d
                    L = vals.lift1(lambda q: k.ln_df(k.yf(q)), dd)
                    T = vals.lift1(k.yf, dd)
                    out = b_or(lt0(d - lo), gt0(d - hi))
                    spec = lambda v: v if ex == 'FLAT' else ite(out, fn('nan', ()), v)
                    fin = lambda v: nan_leaf(in_grid(e, v, lo, hi))
                    got = e.call_method(k.obj, 'get_discount_factors', [], arg)
                    c.eq(fin(got), spec(vals.lift1(exp, L)), pc=pc, label='discount factor at a date', skip=days_order)
                    for g in FREQS:
                        got = e.call_method(k.obj, 'get_zero_rates', [], dict(arg, compounding_freq=member(e, 'CompoundingFreq', g)))
                        c.eq(fin(got), spec(vals.apply(lambda l, t: zr_of(g, exp(l), t), L, T)), pc=pc, label='%s zero rate at a date' % g.lower(), skip=days_order)
                c.obligation('%s/%s/%s' % (im, ex, ty), 'a date look-up is the time look-up at its year fraction; dates off the curve give NaN or the curve end', ob)
    def last(ex):
        e = curve_engine(c)
        k = Curve(e, 'years', 'discount_factor', INTERP[0], extrap=ex)
        for lits, leaf in leaves(e.attr(k.obj, 'daily_df', None), True):
            d = e.rec(leaf).f['date']
            c.need(alg.ATOMS[sid(d)].name == 'date_range', 'daily table %s' % show(d))
            end = alg.ATOMS[sid(d)].args[1]
            lp = [l for l in e.loops if l.kind == 'while' and isinstance(l.cond, Node) and any(equal(o[2] - o[1], sym('@day')) for o in l.state.values())]
            c.need(len(lp) == 1, 'last day %s' % show(end))
            (init, s, nxt), = lp[0].state.values()
            c.need(equal(end - init, end - init) and alg.sid(s) not in alg.deep_atoms(end - init), 'last day %s' % show(end))
            d0 = init - k.cd
            names = {str(alg.ATOMS[a].name).split(':')[-1].split('.')[-1] for a in alg.deep_atoms(d0)}
            c.must(not names & {'round', 'around', 'rint', 'ceil'}, 'the daily table starts to grow at %s, which may lie beyond the last pillar' % show(init))
            if d0.t:
                (m0, k0), = list(d0.t.items())[:1]
                A = alg.ATOMS[m0[0][0]] if m0 else None
                c.need(d0.single() and k0 == 1 and len(m0) == 1 and A.name == 'months', 'daily table grows from %s' % show(init))
                years = A.args[0] / num(12)
                low = [x for x in ('int', 'floor') for a in alg.atoms_of(years) if str(alg.ATOMS[a].name).split(':')[-1].split('.')[-1] == x]
                c.need(len(low) == 1 and len(alg.atoms_of(years)) == 1, 'daily table grows from %s' % show(init))
                a, = alg.atoms_of(years)
                more = years - alg.atom_expr(alg.ATOMS[a])
                c.need(more.is_const(), 'daily table grows from %s' % show(init))
                c.must(more.const() <= 0, 'the daily table starts to grow at %s, which may lie beyond the last pillar' % show(init))
            T = fn('max', (concat(e, Tup([num(0)]), k.t),), arr=False)
            at_end = fn('sel', (k.t, num(-1)), arr=False)      # the pillars are in time order
            c.eq(e.subst_val(lp[0].cond, {sid(at_end): T}), lt0(k.yf(s) - T), label='condition to extend the daily table by a day')
    for ex in ('NONE', 'FLAT'):
        c.obligation('last-day/' + ex, 'the daily table reaches the last pillar of a curve given pillars by years', lambda ex=ex: last(ex))
    for n, kw in (('none', {}), ('two', dict(years=1, days=1))):
        def ob(kw=kw):
            e = curve_engine(c)
            k = Curve(e, 'date', 'discount_factor', INTERP[0])
            try:
                e.call_method(k.obj, 'index_daily_data', [], {a: num(b) for a, b in kw.items()})
            except Dead:
                return
            raise Mismatch('a look-up given %s of dates, days and years is not rejected' % ('several' if kw else 'none'))
        c.obligation('one-of/' + n, 'exactly one of dates, days and years is accepted', ob)
    return 20


def whole_days(lits):
    """as days_order, for dates without a time of day"""
    return days_order(lits, True)


def days_order(lits, whole=False):
    """sums of the ordering literals are contradictory (dates are linearly ordered; a day is positive)"""
    import itertools
    day = sym('@day')
    ineq = []          # (expr, strict): expr > 0 or expr >= 0
    for v, s in lits.items():
        k = vals.CONDS[v]
        if k[0] not in ('neg', 'pos') or not isinstance(k[1], Expr):
            continue
        x = k[1] if (k[0] == 'pos') == bool(s) else -k[1]
        ineq.append((x, bool(s)))
        ineq.append((x * day, bool(s)))
    for n in (2, 3):
        for t in itertools.combinations(ineq, n):
            z = t[0][0]
            for y in t[1:]:
                z = z + y[0]
            if z.is_const() and (z.const() < 0 or z.const() == 0 and any(y[1] for y in t)):
                return True
            if whole and alg.sid(day) in alg.atoms_of(z):
                n_ = z / day
                if n_.is_const() and n_.const() < sum(1 for y in t if y[1]):
                    return True
    return False


def p17(c):
    gdf = ZC + '.ZeroCurve.get_discount_factors'
    def setup(im=INTERP[0], basis='ACT_365'):
        e = curve_engine(c)
        k = Curve(e, 'date', 'discount_factor', im, basis=basis)
        e.overrides[gdf] = lambda eng, env: eng.opaque('DF', env['dates'], arr=None, pos=True) if env.get('dates') is not None and env.get('days') is None and env.get('years') is None else NotImplemented
        return e, k
    for cls, kind in (('TermRate', 'SIMPLE'), ('TermRate', 'CONTINUOUS'), ('TermRate', 'ANNUAL'), ('RFRFixingCalcMethod', 'DAILY_COMPOUNDED')):
        for ty in ('dti', 'series', 'ts'):
            def ob(cls=cls, kind=kind, ty=ty):
                e, k = setup()
                a, b = tsym('start_' + ty, ty), tsym('end_' + ty, ty)
                got = e.call_method(k.obj, 'get_forward_rates', [], dict(period_start=a, period_end=b, forward_rate_type=member(e, cls, kind)))
                if isinstance(got, Tup) and len(got.items) == 1:
                    got = got.items[0]
                D = lambda x: e.opaque('DF', x, arr=None, pos=True)
                y = e.opaque('YF', a, b, k.basis, arr=None, pos=True)
                r = D(a) / D(b)
                sp = log(r) / y if kind == 'CONTINUOUS' else exp(log(r) / y) - one if kind == 'ANNUAL' else (r - one) / y
                c.eq(untup(e, got), sp, label='%s forward rate' % kind.lower())
            c.obligation('forward/%s/%s' % (kind, ty), 'forward rate is the one implied by the two discount factors over the year fraction of the period', ob)
    for kind in ('WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE'):
        for basis in ('ACT_365', 'ACT_360', 'ACT_ACT'):
            def ob(kind=kind, basis=basis):
                e, k = setup(basis=basis)
                a, b = tsym('start', 'dti'), tsym('end', 'dti')
                got = e.call_method(k.obj, 'get_forward_rates', [], dict(period_start=a, period_end=b, forward_rate_type=member(e, 'RFRFixingCalcMethod', kind)))
                D = e.models.E['pandas.date_range'](e, [], dict(start=fn('min', (a,), arr=False), end=fn('max', (b,), arr=False), freq='D'), None)
                nx = e.models.shift(e, D, num(1))
                df = e.opaque('DF', D, arr=None, pos=True)
                f = df / e.models.shift(e, df, num(1)) - one
                n = {'ACT_365': 365, 'ACT_360': 360}.get(basis)
                daily = f * num(n) if n else f / e.opaque('YF', D, nx, k.basis, arr=None, pos=True)
                m = b_and(b_not(lt0(D - a)), lt0(D - b))
                if kind == 'SIMPLE_AVERAGE':
                    m = b_and(m, e.models.E['numpy.is_busday'](e, [D], dict(busdaycal=k.cal), None))
                c.eq(got, ite(m, models.lin_sum('mean', daily, None), UNDEF), label='%s of daily forward rates' % kind.lower(), cmp=undef_both)
            c.obligation('average/%s/%s' % (kind, basis), 'averaged forward rate is the mean daily forward over the (business) days of the period', ob)
    for im in INTERP[1:]:
        def ob(im=im):
            e, k = setup(im)
            t = P('t')
            got = e.call_method(k.obj, 'get_instantaneous_forward_rate', [], dict(years=t))
            L = k.ln_df(t)
            c.eq(untup(e, got), untup(e, -diff(L, t)), label='instantaneous forward')
        c.obligation('instantaneous/' + im, 'instantaneous forward rate is minus the slope of the log discount factor', ob)
    return 10


def untup(e, v):
    """one-element arrays stand for their element; a slope of a spline evaluation is its derivative evaluation"""
    for _ in range(8):
        mp = {}

        def scan(x):
            if isinstance(x, Expr):
                for k in alg.deep_atoms(x):
                    A = alg.ATOMS[k]
                    if A.name == 'tup' and len(A.args) == 1:
                        mp[k] = A.args[0]
                    elif A.name == 'D0:splev':
                        mp[k] = fn('splev', (A.args[0], A.args[1], A.args[2] + num(1)), arr=A.arr)
            return x
        vals.lift1(scan, v)
        if not mp:
            break
        v = e.subst_val(v, mp)
    return v


def undef_both(a, b, lits):
    return a is UNDEF and b is UNDEF
