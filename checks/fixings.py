"""P19: swap index fixings, historical and forward"""
from checks.curve import *

SW = 'frm.term_structures.swap_curve'
HF = 'frm.term_structures.historical_swap_index_fixings'


def p19(c):
    def base(cls, hist=True, basis='ACT_365'):
        e = c.engine()
        e.overrides[DCM + '.year_frac'] = summary('YF', ['start_date', 'end_date', 'day_count_basis'], arr=None, pos=True)
        e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: None
        e.overrides[ZC + '.ZeroCurve.get_forward_rates'] = summary('FWD', ['period_start', 'period_end', 'forward_rate_type'], arr=True)
        if hist:
            e.overrides[HF + '.RFRFixings.get_coupon_rates'] = summary('HIST', ['period_start', 'period_end', 'cpn_calc_method'], arr=True)
            e.overrides[HF + '.TermFixings.index_historical_fixings'] = summary('HISTT', ['fixing_dates'], arr=True)
        basis = member(e, 'DayCountBasis', basis)
        cd = tsym('curve_date', 'ts')
        z = e.call(e.get(ZC, 'ZeroCurve'), [], dict(curve_date=cd, pillar_df=e.new_df({}), day_count_basis=basis))
        fx = e.new_df({'date': tsym('fixing_dates', 'series'), 'fixing': sym('fixings', arr=True)})
        h = e.call(e.get(HF, cls), [], dict(fixings=fx, day_count_basis=basis))
        return e, z, h, cd, basis
    for kind in ('SIMPLE', 'CONTINUOUS', 'ANNUAL'):
        def ob(kind=kind):
            e, z, h, cd, basis = base('TermFixings')
            t = e.call(e.get(SW, 'TermSwapCurve'), [], dict(zero_curve=z, historical_fixings=h))
            a, b = tsym('start', 'dti'), tsym('end', 'dti')
            k = member(e, 'TermRate', kind)
            got = e.call_method(t, 'get_fixings', [], dict(period_start=a, period_end=b, fixing_freq=member(e, 'PeriodFreq', 'QUARTERLY'), cpn_calc_method=k))
            c.eq(got, ite(lt0(a - cd), e.opaque('HISTT', a, arr=True), e.opaque('FWD', a, b, k, arr=True)), label='term fixing')
        c.obligation('term/' + kind, 'periods starting before the curve date take the historical fixing, the others the forward rate', ob)
    for kind in ('DAILY_COMPOUNDED', 'SIMPLE_AVERAGE', 'WEIGHTED_AVERAGE'):
        def ob(kind=kind):
            e, z, h, cd, basis = base('RFRFixings')
            t = e.call(e.get(SW, 'RFRSwapCurve'), [], dict(zero_curve=z, historical_fixings=h))
            a, b = tsym('start', 'dti'), tsym('end', 'dti')
            k = member(e, 'RFRFixingCalcMethod', kind)
            got = e.call_method(t, 'get_fixings', [], dict(period_start=a, period_end=b, cpn_calc_method=k))
            H = lambda x, y: e.opaque('HIST', x, y, k, arr=True)
            F = lambda x, y: e.opaque('FWD', x, y, k, arr=True)
            y1, y2 = e.opaque('YF', a, cd, basis, arr=None, pos=True), e.opaque('YF', cd, b, basis, arr=None, pos=True)
            u, v = H(a, cd) * y1, F(cd, b) * y2
            mix = (((one + u) * (one + v) - one) if kind == 'DAILY_COMPOUNDED' else u + v) / (y1 + y2)
            c.eq(got, ite(lt0(a - cd), ite(gt0(b - cd), mix, H(a, b)), F(a, b)), label='overnight fixing', pc=lt0(a - b), skip=days_order)
        c.obligation('rfr/' + kind, 'past periods take historical, future ones forward fixings, and a period over the curve date accrues one after the other', ob)
    def usual():
        """the kind of rate that is taken where none is asked for"""
        for cls, cv, enum, kind, kw in (('TermFixings', 'TermSwapCurve', 'TermRate', 'SIMPLE', {'fixing_freq': ('PeriodFreq', 'QUARTERLY')}), ('RFRFixings', 'RFRSwapCurve', 'RFRFixingCalcMethod', 'DAILY_COMPOUNDED', {})):
            got = []
            e, z, h, cd, basis = base(cls)
            t = e.call(e.get(SW, cv), [], dict(zero_curve=z, historical_fixings=h))
            for x in ({}, {'cpn_calc_method': member(e, enum, kind)}):
                got.append(e.call_method(t, 'get_fixings', [], dict(period_start=tsym('start', 'dti'), period_end=tsym('end', 'dti'), **x, **{k: member(e, *v) for k, v in kw.items()})))
            c.eq(got[0], got[1], label='fixing where no kind of rate is asked for', pc=lt0(tsym('start', 'dti') - tsym('end', 'dti')), skip=days_order)
    c.obligation('default', 'a term fixing is a simple rate, an overnight coupon is daily compounded, unless asked otherwise', usual)

    def discount():
        e, z, h, cd, basis = base('RFRFixings')
        t = e.call(e.get(SW, 'RFRSwapCurve'), [], dict(zero_curve=z, historical_fixings=h))
        e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', *[env.get(k) for k in ('dates', 'days', 'years')], arr=None, pos=True)
        for ty in ('dti', 'ts', 'series'):
            d = tsym('when_' + ty, ty)
            c.eq(e.call_method(t, 'get_discount_factors', [], dict(dates=d)), e.opaque('DF', d, None, None, arr=None, pos=True), label='discount factor of the swap curve')
    c.obligation('discount', 'the discount factors of an overnight swap curve are those of its zero curve', discount)
    for basis in ('ACT_365', 'ACT_360'):
        for kind in ('DAILY_COMPOUNDED', 'SIMPLE_AVERAGE', 'WEIGHTED_AVERAGE'):
            def ob(kind=kind, basis=basis):
                e, z, h, cd, bs = base('RFRFixings', hist=False, basis=basis)
                a, b = tsym('start', 'dti'), tsym('end', 'dti')
                k = member(e, 'RFRFixingCalcMethod', kind)
                got = e.call_method(h, 'get_coupon_rates', [], dict(period_start=a, period_end=b, cpn_calc_method=k))
                day = sym('@day')
                dates, fix = e.rec(e.attr(h, 'fixings', None)).f['date'], sym('fixings', arr=True)
                if kind == 'SIMPLE_AVERAGE':
                    m = b_and(b_not(lt0(dates - a)), lt0(dates - b))
                    return c.eq(got, ite(m, models.lin_sum('mean', fix, None), UNDEF), label='average of the fixings of the period', cmp=undef_both, skip=whole_days)
                D = e.models.E['pandas.date_range'](e, [], dict(start=a, end=b - day, freq='D'), None)
                daily = models.asof(e, D, dates, fix, ('backward', True))
                c.must(all(x[0] for x in e.asof), 'as-of join of days that are not in order')
                c.must(all(x[1] for x in e.asof), 'as-of join on fixings that are not in order')
                if kind == 'WEIGHTED_AVERAGE':
                    return c.eq(got, models.lin_sum('mean', daily, None), label='average over the days of the period')
                n = num(int(basis[-3:]))
                L = e.models.length(e, D)
                pr = e.models.E['numpy.prod'](e, [one + daily / n], {}, None)
                c.eq(got, (pr - one) * n / L, label='daily compounded coupon')
            c.obligation('coupon/%s/%s' % (kind, basis), 'historical overnight coupon is the average or daily compounding of the latest fixing on each day of the period', ob)
    for where in ('before', 'after'):
        def ob(where=where):
            e, z, h, cd, bs = base('RFRFixings', hist=False)
            a, b = tsym('start', 'dti'), tsym('end', 'dti')
            dates = e.rec(e.attr(h, 'fixings', None)).f['date']
            mx, mn = [lambda x, nm=nm: e.models.E['numpy.' + nm](e, [x], {}, None) for nm in ('max', 'min')]
            e.st.pc = lt0(mx(dates) - mx(b - sym('@day'))) if where == 'after' else lt0(mn(a) - mn(dates))
            try:
                got = e.call_method(h, 'get_coupon_rates', [], dict(period_start=a, period_end=b, cpn_calc_method=member(e, 'RFRFixingCalcMethod', 'SIMPLE_AVERAGE')))
            except Dead:
                return
            raise Mismatch('a period reaching %s the available fixings is not rejected' % where)
        c.obligation('coverage/' + where, 'periods the fixings do not cover are rejected', ob)

    def exact():
        for kind in ('SIMPLE_AVERAGE', 'DAILY_COMPOUNDED', 'WEIGHTED_AVERAGE'):
            e, z, h, cd, bs = base('RFRFixings', hist=False)
            a, b = tsym('start', 'dti'), tsym('end', 'dti')
            dates = e.rec(e.attr(h, 'fixings', None)).f['date']
            mx, mn = [lambda x, nm=nm: e.models.E['numpy.' + nm](e, [x], {}, None) for nm in ('max', 'min')]
            same = lambda x, y: b_and(b_not(lt0(x - y)), b_not(lt0(y - x)))
            e.st.pc = b_and(same(mx(dates), mx(b - sym('@day'))), same(mn(dates), mn(a)))
            try:
                e.call_method(h, 'get_coupon_rates', [], dict(period_start=a, period_end=b, cpn_calc_method=member(e, 'RFRFixingCalcMethod', kind)))
            except Dead:
                raise Mismatch('periods are refused when their days run from the first fixing to the last')
    c.obligation('coverage/exact', 'periods whose days run from the first fixing to the last are covered', exact)

    def ob():
        e, z, h, cd, bs = base('TermFixings', hist=False)
        a = tsym('start', 'dti')
        got = e.call_method(h, 'index_historical_fixings', [], dict(fixing_dates=a))
        dates, fix = e.rec(e.attr(h, 'fixings', None)).f['date'], sym('fixings', arr=True)
        c.eq(got, models.asof(e, a, dates, fix, ('backward', True)), label='historical term fixing')
        c.must(all(x[0] for x in e.asof), 'as-of join of dates that are not in order')
        fr = [r for r in e.st.store.values() if r.kind == 'df' and any(vals.vkey(v) == vals.vkey(got) for v in r.f.values())]
        c.must(not fr or any((r.extra or {}).get('order', '0') == '0' for r in fr), 'fixings are not returned in the order of the requested dates')
    c.obligation('term-history', 'a historical term fixing is the latest one on or before the date, in the order requested', ob)
    return 13
