"""P36, P37: requests that cannot be served are refused"""
import ast
from fractions import Fraction
from fsa.spec import *
from fsa.chk import ANY, show, summary, Undecided, Mismatch
from fsa.interp import Tup, Dead, EnumMember
from fsa import interp, models
from checks.curve import Curve, curve_engine, INTERP, ZC, member, one, tsym
from checks.hw1f import Model, HW, O1
from checks.fixings import HF, SW
from checks.refused import settled, refused, served

PE = 'frm.pricing_engine.'
GK = PE + 'garman_kohlhagen'
HE = PE + 'heston'
MC = PE + 'monte_carlo_generic'
DC = 'frm.utils.daycount'
SC = 'frm.utils.schedule'
FXH = 'frm.term_structures.fx_helpers'


P = lambda n: sym(n)
R = lambda n: sym(n, pos=False)
OTHERS = ('other', '', None)
HESTON = ('heston_1993', 'heston_cosine', 'heston_lipton', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons')
DELTA = ('regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward')


BASES = ('_30_360', '_30E_360', '_30E_360_ISDA', 'ACT_360', 'ACT_365', 'ACT_ACT', 'ACT_366')
FORWARDS = [('TermRate', n) for n in ('SIMPLE', 'CONTINUOUS', 'ANNUAL')] + [('RFRFixingCalcMethod', n) for n in ('DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE')]
ELSEWHERE = [('CompoundingFreq', n) for n in ('SIMPLE', 'CONTINUOUS', 'DAILY', 'ANNUAL')] + FORWARDS + [('PeriodFreq', 'ANNUAL'), ('DayCountBasis', 'ACT_365'), ('DayRoll', 'EOM'), ('RollConv', 'FOLLOWING'),
                                                                                               ('TimingConvention', 'IN_ARREARS'), ('Stub', 'DEFAULT')]


def strangers(*own):
    """members of other enumerations"""
    return [m for m in ELSEWHERE if m[0] not in own]


def near(*known):
    """what is like a documented choice, but is none: another spelling, a part of it, more than it"""
    out = [None, '', 'other', 0, 1, True, False]
    for k in known:
        if isinstance(k, str):
            w = k.split('_')
            out += [k.upper(), k.title(), k.replace('_', ' '), k + 's', 'x' + k, k + '_x', 'x_' + k, k[:-1], k[1:], ' ' + k, k + ' ']
            out += [j for i in range(len(w)) for j in ('_'.join(w[:i]), '_'.join(w[i:]), w[i])]
        else:
            out += [m(k) for m in (lambda k: k.name, lambda k: k.name.lower(), lambda k: k.name.strip('_'))]
    seen = []
    for v in out:
        if not any(v == x and type(v) is type(x) for x in seen + list(known)):
            seen.append(v)
    return [num(int(v)) if type(v) is int else v for v in seen]


def words(c, mod, *known):
    """the text constants of a module that are not among the choices"""
    out = {n.value for n in ast.walk(c.world.mod(mod).tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 60 and '\n' not in n.value}
    return sorted(out - set(known))


def fx_market(**kw):
    d = dict(S0=P('S0'), tau=P('tau'), r_d=R('r_d'), r_f=R('r_f'), cp=num(1), K=P('K'), vol=P('vol'))
    d.update(kw)
    return d


def delta_market(**kw):
    d = dict(S0=P('S0'), tau=P('tau'), r_d=R('r_d'), r_f=R('r_f'), vol=P('vol'), signed_delta=num(Fraction(1, 4)), delta_convention='regular_spot')
    d.update(kw)
    return d


def heston_market(**kw):
    d = dict(S0=P('S0'), tau=P('tau'), r=R('r'), q=R('q'), cp=num(1), K=P('K'), var0=P('var0'), vv=P('vv'), kappa=P('kappa'), theta=P('theta'), rho=R('rho'))
    d.update(kw)
    return d


def smile(**kw):
    d = dict(volatility_quotes=sym('V', arr=True), delta_of_quotes=sym('D', arr=True, pos=False), S0=P('S0'), tau=P('tau'), r=R('r'), q=R('q'), cp=sym('cp', sq1=True, arr=True),
             delta_convention='regular_spot', pricing_method='heston_1993')
    d.update(kw)
    return d


def one_bad(good, bad):
    """a good one and a bad one, in either order"""
    return [Tup([good, bad]), Tup([bad, good])]


def say(b):
    return ', '.join('%s=%s' % (k, show(v, 60) if not isinstance(v, str) else repr(v)) for k, v in b.items())


def whole(e):
    """the largest, smallest, sum, mean and product of one number are itself"""
    for n in ('max', 'min', 'amax', 'amin', 'sum', 'mean', 'prod', 'nanmax', 'nanmin'):
        def f(eng, a, k, node, n=n):
            if len(a) == 1 and not set(k) - {'axis'} and isinstance(a[0], Expr) and not alg.is_arr(a[0]):
                return a[0]
            return NotImplemented
        e.overrides['ext:numpy.' + n] = f


def each(c, key, rule, target, base, bads, prep=None):
    """every one of the requests `bads()` is refused by the function"""
    def ob():
        for b in bads():
            e = c.engine()
            whole(e)
            if prep:
                prep(e)
            refused(e, lambda: e.call(e.get(*target), [], base(**b)), say(b))
    c.obligation(key, rule, ob)


def curve_of(e, **kw):
    return Curve(e, 'date', 'discount_factor', kw.pop('im', INTERP[0]), **kw)


def calibrate(e):
    """the parts of the calibration: they refuse what is not positive themselves"""
    e.overrides['ext:numpy.isnan'] = lambda eng, a, k, node: False

    def part(eng, env):
        for n in ('S0', 'tau'):
            if isinstance(env[n], Expr):
                eng.raise_when(b_not(gt0(env[n])), 'AssertionError', None, 'AssertionError')
        return eng.opaque('res', env['S0'], arr=True)
    for n in ('garman_kohlhagen_solve_implied_vol', 'garman_kohlhagen_solve_strike_from_delta'):
        e.overrides[GK + '.' + n] = part


def p36(c):
    RULE = 'a choice that does not exist is refused: no path of the call returns'
    each(c, 'heston price/method', RULE, (HE, 'heston_price_vanilla_european'), lambda **b: heston_market(lambda_=num(0), **b), lambda: [dict(pricing_method=m) for m in near(*HESTON) + words(c, HE, *HESTON)])
    each(c, 'heston price/carr-madan option type', RULE, (HE, 'heston_carr_madan_price_vanilla_european'), lambda **b: heston_market(integration_method=num(0), **b), lambda: [dict(cp=num(n)) for n in (0, 2, -2)])

    each(c, 'heston calibration/method', RULE, (HE, 'heston_calibrate_vanilla_smile'), smile, lambda: [dict(pricing_method=m) for m in near(*HESTON) + words(c, HE, *HESTON)], calibrate)
    each(c, 'strike from delta/convention', RULE, (GK, 'garman_kohlhagen_solve_strike_from_delta'), delta_market, lambda: [dict(delta_convention=m) for m in near(*DELTA) + words(c, GK, *DELTA)])
    each(c, 'strike from delta/at the money convention', RULE, (GK, 'garman_kohlhagen_solve_strike_from_delta'), delta_market, lambda: [dict(atm_delta_convention=m, signed_delta=num(Fraction(d, 4))) for m in near('forward', 'per_delta_convention') + words(c, GK, 'forward', 'per_delta_convention') for d in (1, 2)])

    def forward():
        for k in near(*[EnumMember(*m) for m in FORWARDS]) + strangers('TermRate', 'RFRFixingCalcMethod'):
            e = curve_engine(c)
            z = curve_of(e)
            e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', env['dates'], arr=None, pos=True)
            k = member(e, *k) if isinstance(k, tuple) else k
            refused(e, lambda: e.call_method(z.obj, 'get_forward_rates', [], dict(period_start=tsym('start', 'dti'), period_end=tsym('end', 'dti'), forward_rate_type=k)), 'a forward rate of type %s' % (k,))
    c.obligation('forward rate/type', RULE, forward)

    def inst():
        e = curve_engine(c)
        z = curve_of(e)
        refused(e, lambda: e.call_method(z.obj, 'get_instantaneous_forward_rate', [], dict(years=P('t'))), 'the instantaneous forward rate of a linear curve')
    c.obligation('instantaneous forward/interpolation', 'no slope is reported for a curve whose interpolation has none', inst)

    for fname in ('day_count', 'year_frac'):
        each(c, '%s/basis' % fname, RULE, (DC, fname), lambda **b: dict(start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), **b), lambda: [dict(day_count_basis=m) for m in near(*[EnumMember('DayCountBasis', n) for n in BASES]) + [EnumMember(*m) for m in strangers('DayCountBasis')]])
        each(c, '%s/type of date' % fname, 'what is not a date is refused', (DC, fname), lambda **b: dict(dict(start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), day_count_basis=EnumMember('DayCountBasis', 'ACT_365')), **b),
             lambda: [dict(start_date=v) for v in (num(3), 'tomorrow', None)] + [dict(end_date=v) for v in (num(3), 'tomorrow', None)])

    def average():
        e = c.engine()
        h = fixings_on(e, ('date', 'fixing'), 'ACT_365', 'RFRFixings')
        e.call_method(h, 'get_coupon_rates', [], dict(period_start=tsym('start', 'dti'), period_end=tsym('end', 'dti'), cpn_calc_method=member(e, 'RFRFixingCalcMethod', 'SIMPLE_AVERAGE')))
        covered = True
        for r in e.raises:
            covered = b_and(covered, b_not(r[0]))
        for m in near(*[EnumMember('RFRFixingCalcMethod', n) for n in ('DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE', 'SIMPLE_AVERAGE')]) + [EnumMember(*m) for m in strangers('RFRFixingCalcMethod')]:
            e = c.engine()
            h = fixings_on(e, ('date', 'fixing'), 'ACT_365', 'RFRFixings')
            e.st.pc = covered
            refused(e, lambda: e.call_method(h, 'get_coupon_rates', [], dict(period_start=tsym('start', 'dti'), period_end=tsym('end', 'dti'), cpn_calc_method=m)), 'an overnight coupon by the method %s' % (m,))
    c.obligation('overnight coupon/method', RULE, average)
    each(c, 'schedule/direction', RULE, (SC, 'generate_date_schedule'), lambda **b: dict(start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), freq=EnumMember('PeriodFreq', 'MONTHLY'), **b),
         lambda: [dict(direction=m) for m in near('forward', 'backward') + ['both'] + [EnumMember(*m) for m in strangers('')]], lambda e: setattr(e.st, 'pc', lt0(tsym('start', 'ts') - tsym('end', 'ts'))))

    def timing():
        for m in near(*[EnumMember('TimingConvention', n) for n in ('IN_ADVANCE', 'IN_ARREARS')]) + [EnumMember(*m) for m in strangers('TimingConvention')]:
            e = c.engine()
            e.overrides[SC + '.make_schedule'] = lambda eng, env: eng.new_df({'period_start': tsym('PS', 'series'), 'period_end': tsym('PE', 'series')})
            o = e.call(e.get(SC, 'BaseSchedule'), [], dict(start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), freq=member(e, 'PeriodFreq', 'QUARTERLY'), cal=sym('cal', pos=False)))
            refused(e, lambda: e.call_method(o, 'add_payment_dates', [], dict(payment_timing=m)), 'payment timing %r' % (m,))
    c.obligation('schedule/payment timing', RULE, timing)
    frame = lambda e: e.new_df({'fixing_date': tsym('X', 'series'), 'delivery_date': tsym('Z', 'series'), 'fx_forward_rate': sym('Y', arr=True)})

    def dates():
        for d, t in ((tsym('when', 'ts'), 'a date'), (Tup([tsym('d1', 'ts'), tsym('d2', 'ts')]), 'a list'), (None, 'no date'), (num(5), 'a number')):
            e = c.engine()
            refused(e, lambda: e.call(e.get(FXH, 'interp_fx_forward_curve_df'), [], dict(fx_forward_curve_df=frame(e), dates=e.new_list(d.items) if isinstance(d, Tup) else d, date_type='fixing_date')), 'forwards for %s' % t)
    c.obligation('fx forward/dates', 'forwards are only given for a series or index of dates', dates)

    def sims():
        for m in near('euler', 'rk4', 'exact'):
            mdl = Model(c)
            refused(mdl.e, lambda: mdl.call('simulate', tau=P('tau'), nb_steps=P('n'), method=m), 'simulation method %r' % (m,))
    c.obligation('hull-white simulation/method', RULE, sims)
    for f in ('heston_simulate', 'heston_simulate_scalar'):
        each(c, '%s/method' % f, RULE, (HE, f), lambda **b: dict(S0=P('S0'), mu=R('mu'), var0=P('var0'), vv=P('vv'), kappa=P('kappa'), theta=P('theta'), rho=R('rho'), tau=P('tau'), rand_nbs=sym('Z', arr=True, pos=False), **b),
             lambda: [dict(method=m) for m in near('quadratic_exponential', 'euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process')])

    def late():
        mdl = Model(c)
        refused(mdl.e, lambda: mdl.call('price_zero_coupon_bond_option', expiry_years=P('T'), maturity_years=P('S'), K=P('K'), cp=num(1), t0=P('t')), 'a bond option valued in the future')
    c.obligation('hull-white bond option/time', 'a bond option is only valued as of now', late)
    return 9


def p37(c):
    RULE = 'data outside the domain is refused: no path of the call returns for it'
    exact = lambda e: setattr(e, 'exact_shapes', True)
    price = lambda key, bads, prep=None: each(c, 'fx price/' + key, RULE, (GK, 'garman_kohlhagen_price'), fx_market, bads, prep)
    x = lambda: -P('x')
    price('spot', lambda: [dict(S0=x()), dict(S0=num(0))] + [dict(S0=v) for v in one_bad(P('S0'), x())])
    price('forward', lambda: [dict(F=x()), dict(F=num(0))] + [dict(F=v) for v in one_bad(P('F'), x())])
    price('expiry', lambda: [dict(tau=x())] + [dict(tau=v) for v in one_bad(P('tau'), x())])
    price('option type', lambda: [dict(cp=num(n)) for n in (0, 2, -2, Fraction(1, 2), Fraction(5, 4), Fraction(-5, 4))] + [dict(cp=v, K=Tup([P('K1'), P('K2')]), vol=Tup([P('v1'), P('v2')])) for v in one_bad(one, num(0))])
    price('lengths', lambda: [dict(K=Tup([P('K1'), P('K2')])), dict(vol=Tup([P('v1'), P('v2')])), dict(cp=Tup([one, -one]))], exact)
    strike = lambda key, bads, prep=None: each(c, 'strike from delta/' + key, RULE, (GK, 'garman_kohlhagen_solve_strike_from_delta'), delta_market, bads, prep)
    for nm, k in (('spot', 'S0'), ('expiry', 'tau'), ('forward', 'F')):
        strike(nm, lambda k=k: [{k: x()}, {k: num(0)}] + [{k: v} for v in one_bad(P(k), x())])
    q = num(Fraction(1, 4))
    strike('volatility', lambda: [dict(vol=x()), dict(vol=num(0))] + [dict(vol=v, signed_delta=Tup([q, -q])) for v in one_bad(P('vol'), x())])
    h = num(Fraction(1, 2))
    strike('delta', lambda: [dict(signed_delta=h + P('x')), dict(signed_delta=-h - P('x'))] + [dict(signed_delta=v, vol=Tup([P('v1'), P('v2')])) for s in (1, -1) for v in one_bad(q, num(s) * (h + P('x')))])
    strike('lengths', lambda: [dict(vol=Tup([P('v1'), P('v2')])), dict(signed_delta=Tup([q, -q]))], exact)

    cal = lambda key, bads: each(c, 'heston calibration/' + key, RULE, (HE, 'heston_calibrate_vanilla_smile'), smile, bads, calibrate)
    cal('spot', lambda: [dict(S0=x()), dict(S0=num(0))])
    cal('expiry', lambda: [dict(tau=x()), dict(tau=num(0))])
    cal('option type', lambda: [dict(cp=v) for v in one_bad(one, num(0)) + one_bad(one, num(2))])

    def curve(cols, **kw):
        def ob():
            e = curve_engine(c)
            v = dict(date=tsym('pillar_dates', 'series'), days=sym('days', arr=True), years=sym('years', arr=True), tenor=sym('tenor', arr=True, pos=False),
                     discount_factor=sym('quotes', arr=True), zero_rate=sym('rates', arr=True), other=sym('others', arr=True))
            refused(e, lambda: e.call(e.get(ZC, 'ZeroCurve'), [], dict(kw, curve_date=tsym('curve_date', 'ts'), pillar_df=e.new_df({k: v[k] for k in cols}))), 'a curve quoted by %s' % ', '.join(cols))
        return ob
    for X in ('date', 'days', 'years', 'tenor'):
        c.obligation('curve/zero rates without compounding/' + X, 'zero rates without a compounding frequency are refused', curve([X, 'zero_rate']))
        Y = [z for z in ('date', 'days', 'years', 'tenor') if z != X]
        c.obligation('curve/several dates/' + X, 'a curve is quoted by exactly one kind of date and one kind of rate', lambda X=X, Y=Y: [curve(k)() for z in Y for k in ([X, z, 'discount_factor'], [X, z])])
        for n, cols in (('both rates', [X, 'discount_factor', 'zero_rate']), ('no rates', [X]), ('other rates', [X, 'other']), ('extra column', [X, 'discount_factor', 'other'])):
            c.obligation('curve/%s/%s' % (n, X), 'a curve is quoted by exactly one kind of date and one kind of rate', curve(cols, compounding_freq=EnumMember('CompoundingFreq', 'CONTINUOUS')))
    c.obligation('curve/no date', 'a curve is quoted by exactly one kind of date and one kind of rate', lambda: [curve(k, compounding_freq=EnumMember('CompoundingFreq', 'CONTINUOUS'))() for k in (['discount_factor'], ['other', 'discount_factor'], ['discount_factor', 'zero_rate'])])

    def forward(what):
        def ob():
            for cls, m in (('TermRate', 'SIMPLE'), ('TermRate', 'CONTINUOUS'), ('TermRate', 'ANNUAL'), ('RFRFixingCalcMethod', 'DAILY_COMPOUNDED'), ('RFRFixingCalcMethod', 'SIMPLE_AVERAGE'), ('RFRFixingCalcMethod', 'WEIGHTED_AVERAGE')):
                e = curve_engine(c)
                z = curve_of(e)
                e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', env['dates'], arr=None, pos=True)
                a, b = tsym('start', 'ts'), tsym('end', 'ts')

                def accrual(eng, env):
                    x, y = [v.items[0] if isinstance(v, Tup) and len(v.items) == 1 else v for v in (env['start_date'], env['end_date'])]
                    if isinstance(x, Expr) and isinstance(y, Expr):
                        eng.raise_when(models.any_of(eng, lt0(y - x)) if alg.is_arr(y - x) else lt0(y - x), 'AssertionError', None, 'AssertionError')
                    return eng.opaque('YF', env['start_date'], env['end_date'], env['day_count_basis'], arr=None, pos=True)
                e.overrides['frm.utils.daycount.year_frac'] = accrual
                if what == 'before':
                    e.st.pc = b_and(lt0(a - z.cd), lt0(z.cd - b))
                elif what == 'reversed':
                    e.st.pc = b_and(lt0(z.cd - b), lt0(b - a))
                else:
                    a, b = tsym('starts', 'dti'), tsym('ends', 'dti')
                    e.st.pc = b_not(eq0(e.models.length(e, a) - e.models.length(e, b)))
                    for v in (a - z.cd, b - a):
                        e.st.pc = b_and(e.st.pc, b_not(models.any_of(e, lt0(v))))
                refused(e, lambda: e.call_method(z.obj, 'get_forward_rates', [], dict(period_start=a, period_end=b, forward_rate_type=member(e, cls, m))), 'a %s forward rate of a period %s' % (m, {'before': 'before the curve date', 'reversed': 'ending before it starts', 'unequal': 'without an end'}[what]))
            if what == 'unequal':
                return
            for bad in (0, 1):
                e = curve_engine(c)
                z = curve_of(e)
                e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', env['dates'], arr=None, pos=True)
                e.overrides['frm.utils.daycount.year_frac'] = lambda eng, env: eng.opaque('YF', env['start_date'], env['end_date'], env['day_count_basis'], arr=None, pos=True)
                s, t = [tsym('start%d' % i, 'ts') for i in (0, 1)], [tsym('end%d' % i, 'ts') for i in (0, 1)]
                good = 1 - bad
                pc = b_and(lt0(z.cd - s[good]), lt0(s[good] - t[good]))
                pc = b_and(pc, b_and(lt0(s[bad] - z.cd), lt0(z.cd - t[bad])) if what == 'before' else b_and(lt0(z.cd - t[bad]), lt0(t[bad] - s[bad])))
                e.st.pc = pc
                refused(e, lambda: e.call_method(z.obj, 'get_forward_rates', [], dict(period_start=Tup(s), period_end=Tup(t), forward_rate_type=member(e, 'TermRate', 'SIMPLE'))),
                        'a forward rate of two periods, number %d %s' % (bad, {'before': 'before the curve date'}.get(what, what)))
        c.obligation('forward rate/' + what, 'a forward rate is given for a period on the curve, from its start to its end', ob)
    forward('before')
    forward('reversed')
    forward('unequal')
    for fname in ('day_count', 'year_frac'):
        for basis in ('ACT_360', 'ACT_365', 'ACT_366', 'ACT_ACT', '_30_360', '_30E_360', '_30E_360_ISDA'):
            each(c, '%s/reversed/%s' % (fname, basis), 'a period ending before it starts is refused', (DC, fname), lambda **b: dict(start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), day_count_basis=EnumMember('DayCountBasis', basis)),
                 lambda: [{}], lambda e: setattr(e.st, 'pc', lt0(tsym('end', 'ts') - tsym('start', 'ts'))))

    def several(fname, basis):
        def ob():
            for bad in (0, 1):
                e = c.engine()
                s, t = [tsym('start%d' % i, 'ts') for i in (0, 1)], [tsym('end%d' % i, 'ts') for i in (0, 1)]
                e.st.pc = b_and(lt0(t[bad] - s[bad]), lt0(s[1 - bad] - t[1 - bad]))
                refused(e, lambda: e.call(e.get(DC, fname), [], dict(start_date=e.new_list(s), end_date=e.new_list(t), day_count_basis=EnumMember('DayCountBasis', basis))), 'period %d of two, reversed' % bad)
        return ob
    for fname in ('day_count', 'year_frac'):
        for basis in ('ACT_365', 'ACT_ACT', '_30E_360_ISDA'):
            c.obligation('%s/reversed/several/%s' % (fname, basis), 'a period ending before it starts is refused', several(fname, basis))

    def columns(cls):
        def ob():
            for cols in (('date',), ('fixing',), ('date', 'other'), ('date', 'fixing', 'other')):
                e = c.engine()
                refused(e, lambda: fixings_on(e, cols, 'ACT_365', cls), 'fixings with the columns %s' % (cols,))
            for b in OTHERS + (EnumMember('TermRate', 'SIMPLE'),):
                e = c.engine()
                refused(e, lambda: fixings_on(e, ('date', 'fixing'), b, cls), 'fixings of day count %s' % (b,))
        return ob
    for cls in ('RFRFixings', 'TermFixings'):
        c.obligation('fixings/columns/' + cls, 'fixings have dates, fixings and a day count', columns(cls))

    def bases(cls, fx):
        def ob():
            for a, b in [(a, b) for a in BASES for b in BASES]:
                e = c.engine()
                e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: None
                h = fixings_on(e, ('date', 'fixing'), a, fx)
                z = e.call(e.get(ZC, 'ZeroCurve'), [], dict(curve_date=tsym('curve_date', 'ts'), pillar_df=e.new_df({}), day_count_basis=member(e, 'DayCountBasis', b)))
                (served if a == b else refused)(e, lambda: e.call(e.get(SW, cls), [], dict(zero_curve=z, historical_fixings=h)), 'a %s curve with %s fixings' % (b, a))
        return ob
    c.obligation('swap curve/day count/term', 'history and curve of an index share its day count', bases('TermSwapCurve', 'TermFixings'))
    c.obligation('swap curve/day count/overnight', 'history and curve of an index share its day count', bases('RFRSwapCurve', 'RFRFixings'))

    def linear():
        for im in [n for n in INTERP if 'LINEAR' in n]:
            e = c.engine()
            e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: None
            z = e.call(e.get(ZC, 'ZeroCurve'), [], dict(curve_date=tsym('curve_date', 'ts'), pillar_df=e.new_df({}), interp_method=member(e, 'ZeroCurveInterpMethod', im)))
            refused(e, lambda: e.call(e.get(HW, 'HullWhite1Factor'), [], dict(zero_curve=z, mean_rev_lvl=P('alpha'), vol=P('sigma'), dt=P('dt'))), 'a Hull-White model on a %s curve' % im)
    c.obligation('hull-white/curve', 'the model needs a curve with smooth forwards', linear)

    def swaption(T, y, TN, what, ok=False):
        def ob(which):
            mdl = Model(c)

            def bond(eng, env):
                for T in env['t2'].items if isinstance(env['t2'], Tup) else [env['t2']]:
                    eng.raise_when(b_not(gt0(T - env['t1'])), 'AssertionError', None, 'AssertionError')
                return eng.opaque('PB', env['t1'], env['t2'], env['r_t1'], arr=None, pos=True)
            mdl.e.overrides[O1] = bond
            t = [P('T0')]
            for i in (1, 2, 3):
                t.append(t[-1] + P('d%d' % i))
            tt, yy = [t[i] for i in T], [P('y%d' % i) for i in range(y)]
            (served if ok else refused)(mdl.e, lambda: mdl.call(which, swaption_expiry=t[0], coupon_payment_times=mdl.e.new_list(tt), coupon_year_fractions=mdl.e.new_list(yy), notional_payment_time=t[TN], fixed_rate=P('c'), **(dict(is_payer=True, notional=P('N')) if which == 'price_swaption' else {})), what)
        for which in ('price_swaption', 'jamshidian_decomposition'):
            c.obligation(('edge/' if ok else '') + ('swaption/' if which == 'price_swaption' else 'swaption strikes/') + what, 'coupons are one year fraction each, in order, and the notional not before the last but one',
                         lambda which=which: ob(which))
    swaption([1, 2, 3], 2, 3, 'fewer year fractions than coupons')
    swaption([1, 2, 3], 1, 3, 'one year fraction for all coupons')
    swaption([1, 2], 3, 2, 'more year fractions than coupons')
    swaption([1, 3, 2], 3, 3, 'coupons out of order')
    swaption([2, 1, 3], 3, 3, 'coupons out of order at the start')
    swaption([1, 2, 2], 3, 3, 'two coupons at one time')
    swaption([1, 2, 3], 3, 1, 'notional before the last but one coupon')
    rand = lambda **b: dict(dict(nb_steps=num(3), nb_rand_vars=num(2), nb_simulations=num(4), apply_antithetic_variates=False), **b)
    g = lambda key, bads: each(c, 'random numbers/' + key, 'as many numbers as make sense are drawn', (MC, 'generate_rand_nbs'), rand, bads)
    for k in ('nb_steps', 'nb_rand_vars', 'nb_simulations'):
        g(k, lambda k=k: [{k: num(0), 'apply_antithetic_variates': a} for a in (False, True)] + [{k: num(-1)}, {k: num(Fraction(5, 2))}, {k: 'many'}])
    g('antithetic', lambda: [dict(nb_simulations=one, nb_steps=num(n), nb_rand_vars=num(m), apply_antithetic_variates=True) for n in (1, 3) for m in (1, 2)] + [dict(apply_antithetic_variates=None), dict(apply_antithetic_variates='yes')])
    g('too many', lambda: [dict(nb_steps=num(10 ** 5), nb_simulations=num(10 ** 5), apply_antithetic_variates=a) for a in (False, True)])
    EDGE = 'what lies on the edge of the domain is served'

    def edge(key, target, base, goods, prep=None):
        def ob():
            for b in goods():
                e = c.engine()
                if prep:
                    prep(e)
                served(e, lambda: e.call(e.get(*target), [], base(**b)), say(b))
        c.obligation('edge/' + key, EDGE, ob)
    edge('fx price', (GK, 'garman_kohlhagen_price'), fx_market, lambda: [{}, dict(tau=num(0)), dict(cp=-one), dict(F=P('F'))])
    edge('strike from delta', (GK, 'garman_kohlhagen_solve_strike_from_delta'), delta_market, lambda: [{}, dict(signed_delta=h), dict(signed_delta=-h), dict(F=P('F')), dict(atm_delta_convention='per_delta_convention')])
    edge('random numbers', (MC, 'generate_rand_nbs'), rand, lambda: [dict(nb_steps=one, nb_rand_vars=one, nb_simulations=one), dict(nb_simulations=num(2), apply_antithetic_variates=True)])
    edge('random numbers/many', (MC, 'generate_rand_nbs'), rand, lambda: [dict(nb_steps=one, nb_simulations=c.engine().get(MC, 'MAX_SIMULATIONS_PER_LOOP'))])
    edge('heston calibration', (HE, 'heston_calibrate_vanilla_smile'), smile, lambda: [{}, dict(cp=Tup([one, -one]))], calibrate)

    def start():
        e = curve_engine(c)
        z = curve_of(e)
        e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', env['dates'], arr=None, pos=True)
        for m in ('SIMPLE', 'CONTINUOUS', 'ANNUAL'):
            served(e, lambda: e.call_method(z.obj, 'get_forward_rates', [], dict(period_start=z.cd, period_end=z.cd + sym('@day'), forward_rate_type=member(e, 'TermRate', m))), 'a %s forward rate from the curve date' % m)
    c.obligation('edge/forward rate', EDGE, start)
    swaption([1, 2, 3], 3, 2, 'notional with the last but one coupon', True)
    swaption([1, 2], 2, 3, 'notional after the last coupon', True)
    return 55


def fixings_on(e, cols, basis, cls):
    v = {'date': tsym('fixing_dates', 'series'), 'fixing': sym('fixings', arr=True), 'other': sym('others', arr=True)}
    df = e.new_df({k: v[k] for k in cols})
    return e.call(e.get(HF, cls), [], dict(fixings=df, day_count_basis=member(e, 'DayCountBasis', basis) if basis in BASES else basis))
