"""P29-P33: FX dates, quotes, forward curve and volatility surface"""
from checks.curve import *
from fsa import models, interp
from checks.schedule import tsym

FX = 'frm.term_structures.fx_helpers'
TN = 'frm.utils.tenor'


def nan():
    return fn('nan', ())


def offs(e, x, n, roll, cal):
    return models.E['numpy.busday_offset'](e, [x, n], {'roll': roll, 'busdaycal': cal}, None)


def known(x, rank=None):
    """a date that is there (not missing), at a place in an assumed order"""
    vals.PRESENT.add(alg.sid(x))
    if rank is not None:
        vals.RANK[alg.sid(x)] = rank
    return x


TENORS = {'1m': lambda cd: cd + fn('months', (num(1),)), '2W': lambda cd: cd + num(14) * sym('@day'), 'sp': lambda cd: cd, '1 Year': lambda cd: cd + fn('months', (num(12),)),
          '1y6m': lambda cd: cd + fn('months', (num(18),)), 'o/n': lambda cd: cd + sym('@day')}
CLEAN = {'1m': '1m', '2W': '2w', 'sp': 'sp', '1 Year': '1y', '1y6m': '1y6m', 'o/n': 'on'}
for _n, _d in (('tn', 2), ('sn', 1), ('sw', 5), ('1d', 1), ('3d', 3), ('1w', 7), ('3w', 21), ('6w', 42), ('13w', 91), ('53w', 371), ('400d', 400)):
    TENORS[_n] = lambda cd, d=_d: cd + num(d) * sym('@day')
    CLEAN[_n] = _n
for _n, _m in (('2m', 2), ('3m', 3), ('6m', 6), ('9m', 9), ('11m', 11), ('12m', 12), ('13m', 13), ('15m', 15), ('18m', 18), ('24m', 24), ('1y', 12), ('2y', 24), ('3y', 36), ('5y', 60), ('7y', 84), ('10y', 120), ('15y', 180), ('30y', 360),
               ('2y3m', 27), ('10y11m', 131)):
    TENORS[_n] = lambda cd, m=_m: cd + fn('months', (num(m),))
    CLEAN[_n] = _n


def p29(c):
    def setup():
        e = c.engine()
        e.exact_shapes = True
        return e, sym('cal', pos=False), NN('spot_offset'), known(tsym('curve_date', 'ts'))

    def helper(e, kind, df, cd, off, cal):
        if kind == 'curve':
            return e.call(e.get(FX, 'fx_forward_curve_helper'), [], dict(fx_forward_curve_df=df, curve_date=cd, spot_offset=off, cal=cal)), 'fixing_date'
        rs = 'expiry_date' if kind == 'quotes' else 'fixing_date'
        return e.call(e.get(FX, 'fx_term_structure_helper'), [], dict(df=df, curve_date=cd, spot_offset=off, cal=cal, rate_set_date_str=rs)), rs

    def expected(e, row, cd, off, cal):
        d, r, t = row
        if d is not None:
            return d, (r if r is not None else offs(e, d, -off, 'preceding', cal))
        if r is not None:
            return offs(e, r, off, 'following', cal), r
        x = TENORS[t](cd)
        return offs(e, x, off, 'following', cal), offs(e, x, num(0), 'following', cal)

    def check(e, rec, col, want, what):
        c.must(col in rec.f, 'no column %s' % col)
        v = rec.f[col]
        v = v if isinstance(v, Tup) else Tup([v] * len(want))
        c.must(len(v.items) == len(want), '%d rows, expected %d' % (len(v.items), len(want)))
        for g, w in zip(v.items, want):
            c.eq(g, w, label=what)

    def run(kind, rows, cols, extra=()):
        e, cal, off, cd = setup()
        rs = 'expiry_date' if kind == 'quotes' else 'fixing_date'
        q = [sym('quote%d' % i) for i in range(len(rows))]
        f = {'fx_forward_rate': Tup(q)}
        pick = {'delivery_date': 0, rs: 1, 'tenor': 2}
        for col in cols:
            k = rs if col == 'rate' else col
            f[k] = Tup([nan() if r[pick[k]] is None else r[pick[k]] for r in rows])
        df = e.new_df(f)
        before = dict(e.rec(df).f)
        out, rs = helper(e, kind, df, cd, off, cal)
        rec = e.rec(out)
        c.need(rec.kind == 'df' and models.frame_rows(e, rec) is not None, 'rows of the result')
        c.must(models.frame_rows(e, rec) == len(rows), '%s rows come back for %d' % (models.frame_rows(e, rec), len(rows)))
        exp = [expected(e, r, cd, off, cal) for r in rows]
        place = models.place_of([x for x, _ in exp]) if len(rows) > 1 else [0]
        c.need(place is not None, 'order of the delivery dates')
        check(e, rec, 'delivery_date', [exp[j][0] for j in place], 'delivery date')
        check(e, rec, rs, [exp[j][1] for j in place], rs.replace('_', ' '))
        check(e, rec, 'fx_forward_rate', [q[j] for j in place], 'quote of the row')
        if 'tenor' in cols:
            check(e, rec, 'tenor', [nan() if rows[j][2] is None else CLEAN[rows[j][2]] for j in place], 'tenor')
        now = e.rec(df).f
        c.must(set(now) == set(before) and all(vals.vkey(now[k]) == vals.vkey(before[k]) for k in before), 'the frame passed in is changed')
    D, R_ = (lambda i, rank=None: known(tsym('delivery%d' % i, 'ts'), rank)), (lambda i: known(tsym('rateset%d' % i, 'ts')))
    for kind in ('curve', 'quotes', 'fixings'):
        for given in ('d', 'r', 't', 'dr', 'dt', 'rt', 'drt'):
            cols = [{'d': 'delivery_date', 'r': 'rate', 't': 'tenor'}[x] for x in given]
            for miss in ('', 'd', 'r', 't', 'dr', 'dt', 'rt'):
                if not set(miss) < set(given):
                    continue
                for t in (TENORS if given == 't' else ['1m']):
                    def ob(kind=kind, cols=cols, given=given, miss=miss, t=t):
                        has = lambda x: x in given and x not in miss
                        run(kind, [(D(0) if has('d') else None, R_(0) if has('r') else None, t if has('t') else None)], cols)
                    c.obligation('row/%s/%s%s/%s' % (kind, given, '-' + miss if miss else '', t),
                                 'the dates of a row come from its delivery date, else its rate-set date, else its tenor, on the given calendar and spot offset', ob)

        def several(ts, kind=kind):
            def ob():
                e, cal, off, cd = setup()
                for t in ts:
                    x = offs(e, TENORS[t](cd), off, 'following', cal)
                    c.need(isinstance(x, Expr) and x.single(), 'delivery date of a tenor')
                    known(x, ts[t])
                run(kind, [(None, None, t) for t in ts] + [(D(0, 30), None, '1m')], ['tenor', 'delivery_date', 'rate'])
            c.obligation('several/%s/%s' % (kind, ' '.join(ts)), 'each row takes its own tenor from the curve date, whatever tenors came before', ob)
        several({'1y6m': 20, 'o/n': 1, 'sp': 3, 'tn': 2, '2W': 5, 'sw': 4, '3m': 8})
        several({'sp': 3, '1m': 6, '1 Year': 12, 'sn': 4})
        several({'o/n': 1, '1d': 0, '1m': 6})

        def ties(kind=kind):
            run(kind, [(D(0, 3), R_(0), '1m'), (D(1, 1), R_(1), '1m'), (D(0, 3), R_(2), '2W'), (D(1, 1), None, None), (D(2, 0), None, None)], ['tenor', 'delivery_date', 'rate'])
        c.obligation('same/%s' % kind, 'rows of the same delivery date all come back', ties)

        def mixed(kind=kind):
            run(kind, [(D(0, 3), None, None), (D(1, 1), R_(1), '1m'), (D(2, 2), None, '1y6m'), (D(3, 0), R_(3), None)], ['tenor', 'delivery_date', 'rate'])
        c.obligation('sort/%s' % kind, 'rows come back in order of their delivery dates, each with its own quote', mixed)

        def many(kind=kind):
            order = [7, 2, 13, 0, 9, 4, 11, 6, 1, 12, 3, 8, 5, 10]
            run(kind, [(D(i, k), R_(i) if i % 3 == 1 else None, '1m' if i % 3 == 2 else None) for i, k in enumerate(order)], ['tenor', 'delivery_date', 'rate'])
        c.obligation('sort/many/%s' % kind, 'however many rows there are, all come back in order of their delivery dates, each with its own quote', many)

        def mixed2(kind=kind):
            e, cal, off, cd = setup()
            a = offs(e, TENORS['1m'](cd), off, 'following', cal)
            r = R_(1)
            b = offs(e, r, off, 'following', cal)
            vals.RANK[alg.sid(a)], vals.RANK[alg.sid(b)] = 2, 0
            return run(kind, [(None, None, '1m'), (None, r, None), (D(2, 1), None, None)], ['tenor', 'delivery_date', 'rate'])
        c.obligation('mixed/%s' % kind, 'each row uses what it has; the order is by the resulting delivery dates', mixed2)

        def nothing(kind=kind):
            for cols in (['tenor', 'delivery_date', 'rate'], ['delivery_date'], ['rate']):
                try:
                    run(kind, [(None, None, None)], cols)
                except Dead:
                    continue
                except KeyError as x:        # the call returned and its rows were to be compared
                    if x.args != (None,):
                        raise
                raise Mismatch('a row without any date or tenor is not rejected')
        c.obligation('nothing/%s' % kind, 'a row without delivery date, rate-set date and tenor is rejected', nothing)

    def dates(given):
        def ob():
            e, cal, off, cd = setup()
            e.exact_shapes = False
            sd = known(tsym('spot_date', 'ts'))
            e.overrides[TN + '.calc_implied_business_day_offset'] = summary('IMPLIED', ['date', 'offset_date', 'cal'], arr=False)
            imp = e.opaque('IMPLIED', cd, sd, cal, arr=False)
            kw = dict(ccy_pair='audusd', cal=cal)
            if 'c' in given:
                kw['curve_date'] = cd
            if 's' in given:
                kw['spot_date'] = sd
            if 'o' in given:
                kw['spot_offset'] = off
            off = off if 'o' in given else imp if 'c' in given and 's' in given else num(2)
            r = e.call(e.get(TN, 'resolve_fx_curve_dates'), [], kw)
            want = Tup([cd if 'c' in given else offs(e, sd, -off, 'preceding', cal), off, sd if 's' in given else offs(e, cd, off, 'following', cal)])
            c.eq(r, want, label='curve date, spot offset and spot date', pc=vals.eq0(off - imp) if given == 'cso' else True)
            if given == 'cso':
                e.st.pc = vals.b_not(vals.eq0(off - imp))
                try:
                    e.call(e.get(TN, 'resolve_fx_curve_dates'), [], kw)
                except Dead:
                    return
                raise Mismatch('a spot date inconsistent with the curve date and offset is not rejected')
        return ob
    for g in ('c', 's', 'co', 'so', 'cs', 'cso'):
        c.obligation('spot/' + g, 'whichever of curve date, spot date and offset is missing follows from the others; contradictions are rejected', dates(g))

    def implied():
        e, cal, off, cd = setup()
        e.exact_shapes = False
        day1 = sym('@day')
        sd = known(tsym('spot_date', 'ts'))
        got = e.call(e.get(TN, 'calc_implied_business_day_offset'), [cd, sd, cal], {})
        ok = [models.E['numpy.busday_count'](e, [x, y], {'busdaycal': cal}, None) for x, y in ((cd, sd), (cd + day1, sd + day1))]
        if any(vals.same(got, w) for w in ok):
            return
        c.need(len(e.loops) == 1, 'neither a business day count nor a loop')
        lp = e.loops[0]
        st = {n: v for n, v in lp.state.items() if all(isinstance(x, Expr) for x in v)}
        cnt = [n for n, (i0, s, nx) in st.items() if vals.same(nx - s, one)]
        dts = [n for n, (i0, s, nx) in st.items() if n not in cnt]
        c.need(len(cnt) == 1 and len(dts) == 1, 'state of the loop')
        i0, s, nx = st[dts[0]]
        c.eq(i0, cd, label='the count starts from')
        c.eq(nx, offs(e, s + day1, num(0), 'following', cal), label='next business day')
        c.eq(vals.ite(lp.cond, one, num(0)), vals.ite(lt0(s - sd), one, num(0)), label='counting goes on until the date')
        c.eq(st[cnt[0]][0], num(0), label='count before the first day')
        c.must(not lp.breaks, 'the count stops early')
        c.must(isinstance(got, Expr), 'result %s' % show(got))
        c.eq(got, e.sum_over(lp, one), label='number of business days')
    c.obligation('implied', 'the implied offset counts the business days from one date to the other', implied)

    def conv():
        e = c.engine()
        f = e.get(TN, 'get_fx_spot_day_offset')
        ccys = ['usd', 'cad', 'php', 'rub', 'try', 'aud', 'eur', 'gbp', 'jpy', 'nzd', 'chf', 'mxn', 'sgd', 'sek']
        T1 = {'cad', 'php', 'rub', 'try'}
        for a in ccys:
            for b in ccys:
                if a != b:
                    w = 1 if (a == 'usd' and b in T1) or (b == 'usd' and a in T1) else 2
                    c.eq(e.call(f, [a + b], {}), num(w), label='spot days of %s' % (a + b))
    c.obligation('convention', 'spot is T+1 for USD against CAD, PHP, RUB and TRY either way round, T+2 otherwise', conv)

    def pair():
        e = c.engine()
        f = e.get(FX, 'validate_ccy_pair')
        for s in ('AUDUSD', 'audusd', 'aud/usd', ' AUD/usd ', 'EUR/GBP', 'usdjpy'):
            t = s.replace('/', '').strip().lower()
            c.eq(e.call(f, [s], {}), Tup([t, t[3:], t[:3]]), label='currencies of %r' % s)
        for s in ('audus', 'aud', '', 'audusdx'):
            try:
                e.call(f, [s], {})
            except Dead:
                e.st = type(e.st)() if e.st is None else e.st
                e = c.engine()
                f = e.get(FX, 'validate_ccy_pair')
                continue
            raise Mismatch('%r is accepted as a currency pair' % s)
    c.obligation('pair', 'the first currency of a pair is the foreign, the second the domestic one, whatever the spelling', pair)

    def work(kind):
        def ob():
            e, cal, off, cd = setup()
            e.exact_shapes = False
            x = tsym('dates', kind)
            n = sym('offset', pos=False)
            c.eq(e.call(e.get(TN, 'workday'), [x, n, cal], {}), offs(e, x, n, 'following', cal), label='work day')
        return ob
    for k in ('ts', 'dti'):
        c.obligation('workday/' + k, 'dates are rolled forward and moved by the business days of the calendar', work(k))
    return 70


def p30(c):
    NUMS = ['1', '5', '05', '10', '15', '20', '25', '30', '35', '40', '45', '49']

    def rename(cols, want):
        e = c.engine()
        f = {k: sym('v%d' % i, arr=True) for i, k in enumerate(cols)}
        r = e.call(e.get(FX, 'clean_vol_quotes_column_names'), [e.new_df(f)], {})
        got = e.rec(r).f
        c.need(e.rec(r).base is None, 'frame of unknown columns')
        for k, w in zip(cols, want):
            c.must(w in got, 'column %r does not become %r (columns are then %s)' % (k, w, sorted(got)))
            c.eq(got[w], f[k], label='quotes of %r' % k)
        c.must(len(got) == len(cols), 'columns are lost or added: %s' % sorted(got))

    def names(kind, spellings):
        def ob():
            for n in NUMS:
                for d in ('delta', 'Δ'):
                    for s1 in ('_', ' ', ''):
                        for s2 in ('_', ' ', ''):
                            for sp in spellings:
                                rename(['tenor', n + s1 + d + s2 + sp, 'delta_convention'], ['tenor', n + '_delta_' + kind, 'delta_convention'])
        return ob
    for kind, sp in (('call', ['call', 'c']), ('put', ['put', 'p']), ('riskreversal', ['rr', 'riskreversal', 'risk_reversal', 'risk reversal']), ('butterfly', ['bf', 'butterfly'])):
        for s in sp:
            c.obligation('name/%s/%s' % (kind, s), 'each spelling of a quote column becomes its one canonical name and keeps its quotes', names(kind, [s]))

    def atm():
        for a in ('atm', 'at the money', 'at_the_money', 'atthemoney'):
            for s in ('_', ' ', ''):
                for d in ('delta', 'Δ'):
                    for s2 in ('_', ' ', ''):
                        rename(['tenor', a + s + d + s2 + 'neutral'], ['tenor', 'atm_delta_neutral'])
                for f in ('f', 'fwd', 'forward'):
                    rename([a + s + f, 'tenor'], ['atm_forward', 'tenor'])
    c.obligation('name/atm', 'at the money columns get their canonical name', atm)

    def others():
        rename(['tenor', 'expiry_date', 'delivery_date', 'delta_convention', 'warnings', 'atm', 'delta', '25_delta', 'comment'],
               ['tenor', 'expiry_date', 'delivery_date', 'delta_convention', 'warnings', 'atm', 'delta', '25_delta', 'comment'])
        rename(['25 delta rr', 'tenor', '10Δc', '25 delta bf', 'atm delta neutral', '10 delta put'],
               ['25_delta_riskreversal', 'tenor', '10_delta_call', '25_delta_butterfly', 'atm_delta_neutral', '10_delta_put'])
    def long():
        ks = [(n, k) for n in NUMS for k in ('call', 'put', 'riskreversal', 'butterfly')]
        rename(['tenor', 'atm delta neutral'] + ['%s delta %s' % x for x in ks], ['tenor', 'atm_delta_neutral'] + ['%s_delta_%s' % x for x in ks])
    c.obligation('name/many', 'every quote column is named, however many there are', long)
    c.obligation('name/others', 'columns that are no quotes keep their name; several quote columns are named independently', others)

    def solve(deltas, given=()):
        def ob():
            e = c.engine()
            A = lambda n: sym(n, pos=False, arr=True)
            f = {'tenor': sym('tenor', arr=True), 'atm_delta_neutral': A('atm')}
            for d in deltas:
                f['%s_delta_riskreversal' % d] = A('rr' + d)
                f['%s_delta_butterfly' % d] = A('bf' + d)
            for d, k in given:
                f['%s_delta_%s' % (d, k)] = A(k + d)
            r = e.rec(e.call(e.get(FX, 'solve_call_put_quotes_from_strategy_quotes'), [e.new_df(dict(f))], {}))
            want = {'tenor': f['tenor'], 'atm_delta_neutral': A('atm')}
            for d in deltas:
                want['%s_delta_call' % d] = A('atm') + A('bf' + d) + HALF * A('rr' + d)
                want['%s_delta_put' % d] = A('atm') + A('bf' + d) - HALF * A('rr' + d)
            for d, k in given:
                want['%s_delta_%s' % (d, k)] = A(k + d)
            for k in want:
                c.must(k in r.f, 'no %s quote' % k)
                c.eq(r.f[k], want[k], label=k)
            c.must(set(r.f) == set(want), 'columns %s, expected %s' % (sorted(r.f), sorted(want)))
        return ob
    for deltas, given in ((['25'], ()), (['10', '25'], ()), (['25', '10', '05'], ()), ([], (('25', 'call'), ('25', 'put'))), (['25'], (('10', 'call'), ('10', 'put'))),
                          (['25'], (('25', 'call'),)), (['10', '25'], (('25', 'put'),)), (['25'], (('25', 'call'), ('25', 'put'))),
                          (['05', '10', '15', '20', '25', '30', '35', '40', '45'], ()), (['5', '25'], ()), (['25', '1', '10', '5'], ())):
        c.obligation('solve/%s/%s' % ('-'.join(deltas) or 'none', '-'.join(d + k for d, k in given) or 'none'),
                     'call and put vols are at the money plus butterfly plus and minus half the risk reversal; vols quoted directly are kept; strategy columns go', solve(deltas, given))

    def unmatched():
        for cols in (['atm_delta_neutral', '25_delta_riskreversal'], ['atm_delta_neutral', '25_delta_butterfly'], ['25_delta_riskreversal', '25_delta_butterfly'],
                     ['atm_delta_neutral', '25_delta_riskreversal', '10_delta_butterfly']):
            e = c.engine()
            try:
                e.call(e.get(FX, 'solve_call_put_quotes_from_strategy_quotes'), [e.new_df({k: sym(k, arr=True) for k in cols})], {})
            except Dead:
                continue
            raise Mismatch('columns %s are accepted' % cols)
    c.obligation('solve/reject', 'a strategy quote without its counterpart or without an at the money quote is rejected', unmatched)

    def details(cols):
        def ob():
            e = c.engine()
            e.exact_shapes = True
            r = e.rec(e.call(e.get(FX, 'get_delta_smile_quote_details'), [e.new_df({k: sym('v%d' % i, arr=True) for i, k in enumerate(cols)})], {}))

            def pos(k):      # by strike: puts from the furthest out of the money, at the money, calls
                return num(0) if k == 'atm_delta_neutral' else num(100 - int(k.split('_')[0])) * num(-1 if 'put' in k else 1)
            q = sorted([k for k in cols if k == 'atm_delta_neutral' or k.endswith(('_call', '_put'))], key=lambda k: pos(k).const())
            half = num(1) / num(2)
            want = {'quotes_column_names': Tup(q), 'quotes_call_put_flag': Tup([num(-1 if 'put' in k else 1) for k in q]),
                    'quotes_signed_delta': Tup([half if k == 'atm_delta_neutral' else num(-1 if 'put' in k else 1) * num(int(k.split('_')[0])) / num(100) for k in q])}
            for k, w in want.items():
                c.must(k in r.f, 'no column %s' % k)
                c.eq(r.f[k], w, label=k.replace('_', ' '))
        return ob
    for i, cols in enumerate((['tenor', 'atm_delta_neutral', '25_delta_call', '10_delta_call', '25_delta_put', '10_delta_put', 'delta_convention'],
                              ['10_delta_put', '25_delta_put', 'atm_delta_neutral', '25_delta_call', '10_delta_call', 'warnings'],
                              ['25_delta_call', '25_delta_put', 'expiry_date', 'atm_delta_neutral', 'atm_forward'],
                              [x for n in ('10', '40', '05', '25', '35', '15', '45', '20', '30') for x in (n + '_delta_call', n + '_delta_put')] + ['tenor', 'atm_delta_neutral'],
                              ['05_delta_call', '45_delta_put', 'atm_delta_neutral', '30_delta_call', '15_delta_put', '1_delta_put', '49_delta_call'])):
        c.obligation('details/%d' % i, 'quotes are listed from the lowest strike to the highest with their signed delta and option type', details(cols))

    def conv(pair, market):
        def ob():
            e = c.engine()
            e.exact_shapes = True
            convs = ['regular_spot', 'premium_adjusted_spot', 'regular_forward', 'premium_adjusted_forward']
            df = e.new_df({'tenor': Tup(['1m', '2m', '3m', '4m']), 'delta_convention': Tup(convs), 'warnings': Tup([''] * 4), 'vol': Tup([sym('q%d' % i) for i in range(4)])})
            r = e.rec(e.call(e.get(FX, 'check_delta_convention'), [df, pair], {}))
            w = r.f['warnings']
            c.need(isinstance(w, Tup) and all(isinstance(x, str) for x in w.items), 'warnings %s' % show(w))
            for x, k in zip(w.items, convs):
                off = market is not None and not k.startswith(market)
                c.must(bool(x) == off, '%s quotes of %s are %sflagged' % (k, pair, '' if x else 'not '))
            c.eq(r.f['vol'], Tup([sym('q%d' % i) for i in range(4)]), label='quotes')
            c.eq(r.f['delta_convention'], Tup(convs), label='delta convention')
        return ob
    for p, m in (('audusd', 'regular'), ('eurusd', 'regular'), ('gbpusd', 'regular'), ('nzdusd', 'regular'), ('usdjpy', 'premium_adjusted'), ('usdcad', 'premium_adjusted'), ('cadusd', 'premium_adjusted'),
                 ('eurgbp', None), ('audnzd', None)):
        c.obligation('convention/' + p, 'quotes whose delta convention is not the market one of the pair are flagged, and only those', conv(p, m))
    return 25


def p31(c):
    def run(kind, typ, flat):
        def ob():
            e = c.engine()
            X, Z, Y = tsym('fixing_dates', 'series'), tsym('delivery_dates', 'series'), sym('forwards', arr=True)
            df = e.new_df({'tenor': sym('tenors', arr=True), 'fixing_date': X, 'delivery_date': Z, 'fx_forward_rate': Y})
            before = dict(e.rec(df).f)
            D = tsym('dates', typ)
            kw = dict(fx_forward_curve_df=df, dates=D, date_type=kind)
            if flat is not None:
                kw['flat_extrapolation'] = flat
            got = e.call(e.get(FX, 'interp_fx_forward_curve_df'), [], kw)
            nn = nan()
            opt = {} if flat is not False else {'left': nn, 'right': nn}
            c.eq(got, models.E['numpy.interp'](e, [D, X if kind == 'fixing_date' else Z, Y], opt, None), label='forward rate', cmp=lambda a, b, l: set_opts(a, b))
            now = e.rec(df).f
            c.must(set(now) == set(before) and all(vals.vkey(now[k]) == vals.vkey(before[k]) for k in before), 'the curve passed in is changed')
        return ob

    def set_opts(a, b):
        p, q = models.atom_named(a, 'interp'), models.atom_named(b, 'interp')
        return p is not None and q is not None and all(vals.same(x, y) for x, y in zip(p.args[:3], q.args[:3])) and {vals.vkey(x) for x in p.args[3:]} == {vals.vkey(x) for x in q.args[3:]}
    for kind in ('fixing_date', 'delivery_date'):
        for typ in ('series', 'dti'):
            for flat in (None, True, False):
                c.obligation('interp/%s/%s/%s' % (kind, typ, flat), 'each requested date, in the order requested, gets the forward linear in calendar time between the quoted dates of the given type, flat outside (nothing without extrapolation)', run(kind, typ, flat))

    def bad():
        for kw in (dict(date_type='tenor'), dict(date_type=None)):
            e = c.engine()
            df = e.new_df({'fixing_date': tsym('X', 'series'), 'delivery_date': tsym('Z', 'series'), 'fx_forward_rate': sym('Y', arr=True)})
            try:
                e.call(e.get(FX, 'interp_fx_forward_curve_df'), [], dict(kw, fx_forward_curve_df=df, dates=tsym('D', 'dti')))
            except Dead:
                continue
            raise Mismatch('dates of unknown type are accepted')
    c.obligation('reject', 'an unknown kind of date is rejected', bad)
    return 10


VS = 'frm.term_structures.fx_volatility_surface'
GKM = 'frm.pricing_engine.garman_kohlhagen'
SOLVE = ['S0', 'tau', 'r_d', 'r_f', 'vol', 'signed_delta', 'delta_convention', 'F', 'atm_delta_convention']


def spread(eng, tag, args, over):
    """a summary that works date by date"""
    if isinstance(args[over], Tup):
        return Tup([eng.opaque(tag, *args[:over], x, *args[over + 1:], arr=False) for x in args[over].items])
    return eng.opaque(tag, *args, arr=None)


class Surface:
    """an engine with the curves a surface is built from"""

    def __init__(self, c, n=3):
        e = self.e = c.engine()
        e.exact_shapes = True
        self.c = c
        self.cal = sym('cal', pos=False)
        self.cd = known(tsym('curve_date', 'ts'), -5)
        self.n = n
        self.calls = {}
        yf = e.overrides[DCM + '.year_frac'] = lambda eng, env: spread(eng, 'YF', [env['start_date'], env['end_date'], env['day_count_basis']], 1)
        e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: None
        e.overrides[ZC + '.ZeroCurve.get_zero_rates'] = lambda eng, env: spread(eng, 'ZR', [eng.attr(env['self'], 'tag', None), env['dates'] if env['dates'] is not None else Tup([env['years']]), env['compounding_freq']], 1)
        e.overrides[FX + '.interp_fx_forward_curve_df'] = lambda eng, env: spread(eng, 'INTERP', [eng.attr(env['fx_forward_curve_df'], 'fx_forward_rate', None), env['dates'], env['date_type'], env['flat_extrapolation']], 1)
        e.overrides['frm.pricing_engine.volatility_generic.flat_forward_interp'] = self.ffi
        e.overrides[GKM + '.garman_kohlhagen_solve_strike_from_delta'] = lambda eng, env: Tup([self.strike(j, [env[k] for k in SOLVE]) for j in range(self.width(env))])
        for n in ('fx_forward_curve_helper', 'check_delta_convention', 'fx_term_structure_helper'):
            e.overrides[FX + '.' + n] = self.note(n)

    def width(self, env):
        v = env['vol']
        self.c.need(isinstance(v, Tup), 'volatilities %s' % show(v))
        return len(v.items)

    def note(self, n):
        def f(eng, env):
            self.calls[n] = dict(env)
            return env['fx_forward_curve_df'] if 'fx_forward_curve_df' in env else env['df']
        return f

    def ffi(self, eng, env):
        """volatility at t between two pillars, column by column"""
        a = [env[k] for k in ('t1', 'vol_t1', 't2', 'vol_t2', 't')]
        if isinstance(a[1], vals.Cols) or isinstance(a[3], vals.Cols):
            self.c.must(isinstance(a[1], vals.Cols) and isinstance(a[3], vals.Cols) and len(a[1].items) == len(a[3].items), 'the volatilities either side of a date have different shapes')
            for i in (0, 2, 4):
                ax = set()
                for k in (alg.atoms_of(a[i]) if isinstance(a[i], Expr) else ()):
                    ax |= eng.axes.get(k, set())
                self.c.must(ax == {0}, 'times are not laid out by row against volatilities laid out by row and quote')
            return vals.Cols([eng.opaque('FFI', a[0], x, a[2], y, a[4], arr=True) for x, y in zip(a[1].items, a[3].items)])
        return eng.opaque('FFI', *a, arr=True)

    def strike(self, j, args):
        args = [x.items[0] if isinstance(x, Tup) and len(x.items) == 1 and i not in (4, 5) else x for i, x in enumerate(args)]     # one value, as a number or an array of one
        return self.e.opaque('STRIKE', num(j), *args, arr=False)

    def curve(self, tag, date):
        e = self.e
        k = ('dom', 'for').index(tag) if tag in ('dom', 'for') else 0          # the curves differ in everything but their date
        z = e.call(e.get(ZC, 'ZeroCurve'), [], dict(curve_date=date, pillar_df=e.new_df({}), day_count_basis=member(e, 'DayCountBasis', ('ACT_360', 'ACT_ACT')[k]), cal=sym('cal_' + tag, pos=False),
                                                     interp_method=member(e, 'ZeroCurveInterpMethod', ('LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT')[k]),
                                                     extrap_method=member(e, 'ZeroCurveExtrapMethod', ('NONE', 'FLAT')[k])))
        e.rec(z).f['tag'] = sym(tag, pos=False)
        return z

    def basis(self):
        return member(self.e, 'DayCountBasis', 'ACT_365')

    def dates(self, n, k=0, rows=None):
        return Tup([known(tsym(n + str(i), 'ts'), k + 10 * i) for i in range(rows or self.n)])

    def tenors(self):
        return ['1m', '3m', '1y', '2y', '3y', '4y', '5y', '6y', '7y', '8y', '9y', '10y', '11y'][:self.n]

    def nums(self, n, rows=None):
        return Tup([P(n + str(i)) for i in range(rows or self.n)])

    def args(self, ftenors=('on', 'sp', '1m'), quotes=('atm delta neutral', '25 delta call', '25 delta put'), **kw):
        e = self.e
        self.fwd = e.new_df({'tenor': Tup(list(ftenors)), 'delivery_date': self.dates('fdel', 3, len(ftenors)), 'fixing_date': self.dates('ffix', 2, len(ftenors)), 'fx_forward_rate': self.nums('fwd', len(ftenors))})
        self.convs = (['regular_spot', 'regular_forward', 'premium_adjusted_spot'] * 5)[:self.n]
        f = {'tenor': Tup(self.tenors()), 'delivery_date': self.dates('qdel', 1), 'expiry_date': self.dates('qex'), 'delta_convention': Tup(self.convs)}
        for q in quotes:
            f[q] = self.nums('v_' + q.replace(' ', '_'))
        self.quotes = e.new_df(f)
        return dict(dict(domestic_ccy='usd', foreign_ccy='aud', fx_forward_curve_df=self.fwd, domestic_zero_curve=self.curve('dom', self.cd), foreign_zero_curve=self.curve('for', self.cd), vol_quotes=self.quotes,
                         curve_date=self.cd, cal=self.cal, day_count_basis=self.basis()), **kw)

    def build(self, **kw):
        e = self.e
        self.s = e.call(e.get(VS, 'FXVolatilitySurface'), [], self.args(**kw))
        return self.s

    def frame(self, name):
        r = self.e.attr(self.s, name, None)
        self.c.need(isinstance(r, Ref), '%s is %s' % (name, show(r)))
        return self.e.rec(r).f

    def at(self, tag, x, *rest):
        """the summary at a date or a range of dates"""
        return self.e.opaque(tag, *rest[:rest[-1]], x, *rest[rest[-1]:-1], arr=None)


QN = ['25_delta_put', 'atm_delta_neutral', '25_delta_call']


def p32(c):
    cont = lambda e: member(e, 'CompoundingFreq', 'CONTINUOUS')

    def rows(x, n):
        return x.items if isinstance(x, Tup) else [x] * n

    def market(w, f, dates, what):
        """forwards and zero rates at the expiry dates"""
        e, col = w.e, e_col(w)
        for k, tag, args in (('fx_forward_rate', 'INTERP', lambda d: [col, d, 'fixing_date', True]), ('domestic_zero_rate', 'ZR', lambda d: [sym('dom', pos=False), d, cont(e)]),
                             ('foreign_zero_rate', 'ZR', lambda d: [sym('for', pos=False), d, cont(e)]), ('expiry_years', 'YF', lambda d: [w.cd, d, w.basis()])):
            c.must(k in f, 'no column %s' % k)
            want = Tup([e.opaque(tag, *args(d), arr=False) for d in dates.items]) if isinstance(dates, Tup) else e.opaque(tag, *args(dates), arr=None)
            c.eq(f[k], want, label='%s %s' % (what, k.replace('_', ' ')))

    def e_col(w):
        return w.e.rec(w.fwd).f['fx_forward_rate']

    def pillar(kw, n=3):
        def ob():
            w = Surface(c, n)
            w.build(**kw)
            f = w.frame('vol_smile_pillar_df')
            ex = Tup([tsym('qex%d' % i, 'ts') for i in range(w.n)])
            for k, v in (('expiry_date', ex), ('delivery_date', Tup([tsym('qdel%d' % i, 'ts') for i in range(w.n)])), ('tenor', Tup(w.tenors())), ('delta_convention', Tup(w.convs))):
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], v, label=k.replace('_', ' '))
            market(w, f, ex, 'pillar')
            for k in QN:
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], Tup([P('v_%s%d' % (k if k.startswith('atm') else '25_delta_' + k.split('_')[-1], i)) for i in range(w.n)]), label='pillar volatility ' + k)
        return ob

    def daily(kw, n=3):
        def ob():
            w = Surface(c, n)
            w.build(**kw)
            e = w.e
            f = w.frame('vol_smile_daily_df')
            ex = Tup([tsym('qex%d' % i, 'ts') for i in range(w.n)])
            yrs = Tup([e.opaque('YF', w.cd, d, w.basis(), arr=False) for d in ex.items])
            days = models.call_ext(e, 'pandas.date_range', [ex.items[0], ex.items[-1]], {'freq': 'D'}, None)
            c.eq(f['expiry_date'], days, label='daily expiry dates')
            market(w, f, days, 'daily')
            pick = lambda v, way: models.asof(e, days, ex, v, (way, True))
            c.eq(f['delta_convention'], pick(Tup(w.convs), 'forward'), label='daily delta convention')
            t = e.opaque('YF', w.cd, days, w.basis(), arr=None)
            for k in QN:
                v = Tup([P('v_%s%d' % (k, i)) for i in range(w.n)])
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], e.opaque('FFI', pick(yrs, 'backward'), pick(v, 'backward'), pick(yrs, 'forward'), pick(v, 'forward'), t, arr=True), label='daily volatility ' + k)
        return ob

    def strikes(kw, n=3):
        def ob():
            w = Surface(c, n)
            w.build(**kw)
            e, col = w.e, e_col(w)
            f = w.frame('strike_pillar_df')
            sd = Tup([num(-1) / num(4), num(1) / num(2), num(1) / num(4)])
            for j, k in enumerate(QN):
                want = []
                for i in range(w.n):
                    d = tsym('qex%d' % i, 'ts')
                    want.append(w.strike(j, [P('fwd1'), e.opaque('YF', w.cd, d, w.basis(), arr=False), e.opaque('ZR', sym('dom', pos=False), d, cont(e), arr=False), e.opaque('ZR', sym('for', pos=False), d, cont(e), arr=False),
                                             Tup([P('v_%s%d' % (q, i)) for q in QN]), sd, w.convs[i], e.opaque('INTERP', col, d, 'fixing_date', True, arr=False), 'forward']))
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], Tup(want), label='pillar strike ' + k)
            p = w.frame('vol_smile_pillar_df')
            for k in QN:
                c.eq(p[k], Tup([P('v_%s%d' % (k, i)) for i in range(w.n)]), label='pillar volatility after the strikes are solved')
        return ob

    def spot(tenors, i):
        def ob():
            w = Surface(c)
            w.build(ftenors=tenors)
            c.eq(w.e.attr(w.s, 'fx_spot_rate', None), P('fwd%d' % i), label='spot rate')
        return ob

    def wired(kw):
        def ob():
            w = Surface(c)
            w.build(**kw)
            e = w.e
            off = e.attr(w.s, 'spot_offset', None)
            for n, want in (('fx_forward_curve_helper', dict(fx_forward_curve_df=w.fwd, curve_date=w.cd, spot_offset=off, cal=w.cal)),
                            ('fx_term_structure_helper', dict(curve_date=w.cd, spot_offset=off, cal=w.cal, rate_set_date_str='expiry_date')), ('check_delta_convention', dict(ccy_pair='audusd'))):
                c.must(n in w.calls, '%s is not applied' % n)
                for k, v in want.items():
                    c.eq(w.calls[n].get(k), v, label='%s of %s' % (k, n))
            q = e.attr(w.s, 'quotes_column_names', None)
            c.eq(q, Tup(QN), label='quotes')
            c.eq(e.attr(w.s, 'quotes_call_put_flag', None), Tup([num(-1), num(1), num(1)]), label='option types')
            c.eq(e.attr(w.s, 'quotes_signed_delta', None), Tup([num(-1) / num(4), num(1) / num(2), num(1) / num(4)]), label='signed deltas')
        return ob

    def dates():
        for which in ('domestic_zero_curve', 'foreign_zero_curve'):
            w = Surface(c)
            other = known(tsym('other_date', 'ts'), -7)
            z = w.curve('dom' if which.startswith('dom') else 'for', other)
            try:
                w.build(**{which: z})
            except Dead:
                continue
            raise Mismatch('a %s of another date is accepted' % which.replace('_', ' '))

    variants = {'calls-and-puts': {}, 'order': dict(quotes=('25 delta put', '25 delta call', 'atm delta neutral'))}
    for n, kw in variants.items():
        c.obligation('pillar/' + n, 'each pillar takes its own year fraction, forward and zero rates at its expiry date and keeps its quotes', pillar(kw))
        c.obligation('daily/' + n, 'each calendar day from the first to the last expiry has its own market data and each quote interpolated flat-forward between the pillars either side of it', daily(kw))
        c.obligation('strikes/' + n, 'the strike of a pillar quote is solved from that pillar\'s own volatility, delta, rates and forward', strikes(kw))
        c.obligation('wired/' + n, 'the surface dates its forwards and its quotes from the same curve date, spot offset and calendar', wired(kw))
    for what, f, rule in (('pillar', pillar, 'each pillar takes its own market data and keeps its quotes, however many pillars there are'), ('daily', daily, 'every calendar day lies between the pillars either side of it, however many there are'),
                          ('strikes', strikes, 'every pillar has its own strikes, however many there are')):
        c.obligation(what + '/many', rule, f({}, 12))
    for tn, i in ((('on', 'sp', '1m'), 1), (('sp', '1m', '2m'), 0), (('1y', '1m', 'sp'), 2)):
        c.obligation('spot/' + '-'.join(tn), 'the spot rate is the forward curve\'s rate for the spot tenor', spot(tn, i))
    c.obligation('curve-dates', 'a surface is not built on zero curves of another date', dates)
    return 10


HESTON = ['HESTON_1993', 'HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE', 'HESTON_CARR_MADAN_FFT_W_SIMPSONS', 'HESTON_COSINE', 'HESTON_LIPTON']
CAL = ['volatility_quotes', 'delta_of_quotes', 'S0', 'r', 'q', 'tau', 'cp', 'delta_convention', 'pricing_method']
FIT = ['var0', 'vv', 'kappa', 'theta', 'rho', 'lambda_', 'IV', 'SSE']
HP = ['S0', 'tau', 'r', 'q', 'cp', 'K', 'var0', 'vv', 'kappa', 'theta', 'rho', 'lambda_', 'pricing_method']
HM = 'frm.pricing_engine.heston'


def alone(x):
    """one number given as itself or as an array of one"""
    return x.items[0] if isinstance(x, Tup) and len(x.items) == 1 else x


class Smile(Surface):
    """a surface whose daily smiles are known rows"""

    def __init__(self, c, method, quotes=('25_delta_put', 'atm_delta_neutral', '25_delta_call')):
        super().__init__(c)
        e = self.e
        e.overrides[VS + '.FXVolatilitySurface.__post_init__'] = lambda eng, env: None
        self.gk = []
        e.overrides[GKM + '.garman_kohlhagen_price'] = self.price
        e.overrides[GKM + '.garman_kohlhagen_solve_implied_vol'] = lambda eng, env: eng.opaque('IVOL', *[alone(env[k]) for k in ('S0', 'tau', 'r_d', 'r_f', 'cp', 'K', 'X')], arr=False)
        e.overrides[HM + '.heston_calibrate_vanilla_smile'] = self.fit
        e.overrides[HM + '.heston_price_vanilla_european'] = lambda eng, env: eng.opaque('HP', *[alone(env[k]) for k in HP], arr=False)
        self.method = member(e, 'FXSmileInterpolationMethod', method)
        s = self.s = e.call(e.get(VS, 'FXVolatilitySurface'), [], dict(
            domestic_ccy='usd', foreign_ccy='aud', fx_forward_curve_df=e.new_df({}), domestic_zero_curve=None, foreign_zero_curve=None, vol_quotes=e.new_df({}), curve_date=self.cd, cal=self.cal,
            day_count_basis=self.basis(), smile_interpolation_method=self.method))
        self.q = list(quotes)
        self.ex = Tup([known(tsym('ex%d' % i, 'ts'), 10 * i) for i in range(3)])
        self.convs = ['regular_spot', 'regular_forward', 'premium_adjusted_spot']
        f = {'expiry_date': self.ex}
        for n in ('expiry_years', 'fx_forward_rate'):
            f[n] = self.nums(n)
        for n in ('domestic_zero_rate', 'foreign_zero_rate'):
            f[n] = Tup([R('%s%d' % (n, i)) for i in range(3)])
        f['delta_convention'] = Tup(self.convs)
        for n in self.q:
            f[n] = self.nums('v_' + n)
        self.rows = dict(f)
        F = e.rec(s).f
        F['vol_smile_daily_df'] = e.new_df(f)
        F['vol_smile_daily_func'] = e.new_dict([])
        F['fx_spot_rate'] = P('S')
        self.cps = Tup([num(0 if n.startswith('atm') else 1) * 0 + num(-1 if n.endswith('put') else 1) for n in self.q])
        self.sd = Tup([num(1) / num(2) if n.startswith('atm') else num(int(n.split('_')[0])) / num(100) * num(-1 if n.endswith('put') else 1) for n in self.q])
        F['quotes_column_names'], F['quotes_signed_delta'], F['quotes_call_put_flag'] = Tup(self.q), self.sd, self.cps

    def price(self, eng, env):
        self.gk.append(dict(env))
        return eng.new_dict([('market_value', sym('gkp', arr=True))])

    def fit(self, eng, env):
        a = [alone(env[k]) if k in ('r', 'q', 'S0', 'tau') else env[k] for k in CAL]
        return Tup([eng.opaque('FIT:' + k, *a, arr=False, pos=k == 'var0') for k in FIT])

    def fitted(self, k, i):
        return self.e.opaque('FIT:' + k, *self.fit_args(i), arr=False, pos=k == 'var0')

    def quote_vols(self, i):
        return Tup([self.rows[n].items[i] for n in self.q])

    def drift(self, i):
        """the domestic rate that, with the foreign rate, gives the market forward"""
        tau, rf, F = (self.rows[n].items[i] for n in ('expiry_years', 'foreign_zero_rate', 'fx_forward_rate'))
        return models.E['numpy.log'](self.e, [F / P('S')], {}, None) / tau + rf

    def fit_args(self, i):
        return [self.quote_vols(i), self.sd, P('S'), self.drift(i), self.rows['foreign_zero_rate'].items[i], self.rows['expiry_years'].items[i], self.cps, self.convs[i],
                self.e.attr(self.method, 'value', None)]

    def strikes(self, i):
        r = {n: self.rows[n].items[i] for n in ('expiry_years', 'domestic_zero_rate', 'foreign_zero_rate', 'fx_forward_rate')}
        return Tup([self.strike(j, [P('S'), r['expiry_years'], r['domestic_zero_rate'], r['foreign_zero_rate'], self.quote_vols(i), self.sd, self.convs[i], r['fx_forward_rate'], 'forward']) for j in range(len(self.q))])


def p33(c):
    Q5 = ('10_delta_put', '25_delta_put', 'atm_delta_neutral', '25_delta_call', '10_delta_call')
    Q4 = ('25_delta_put', 'atm_delta_neutral', '25_delta_call', '10_delta_call')
    Q3 = ('25_delta_put', 'atm_delta_neutral', '25_delta_call')

    def ask(w, rows):
        return Tup([w.ex.items[j] for j in rows]), Tup([P('K%d' % i) for i in range(len(rows))]), Tup([num(1 if i % 2 else -1) for i in range(len(rows))])

    def vols(w, rows, K, cp):
        e, m = w.e, w.method.name
        out = []
        for i, j in enumerate(rows):
            if m in HESTON:
                p = {k: w.fitted(k, j) for k in FIT}
                tau, rf = w.rows['expiry_years'].items[j], w.rows['foreign_zero_rate'].items[j]
                X = e.opaque('HP', P('S'), tau, w.drift(j), rf, cp.items[i], K.items[i], *[p[k] for k in FIT[:6]], e.attr(w.method, 'value', None), arr=False)
                out.append(e.opaque('IVOL', P('S'), tau, w.drift(j), rf, cp.items[i], K.items[i], X, arr=False))
            else:
                cls, opt = ('CubicSpline', {}) if m == 'CUBIC_SPLINE' else ('InterpolatedUnivariateSpline', {'k': num(min(3, max(2, len(w.q) - 1)))})
                f = models.call_ext(e, 'scipy.interpolate.' + cls, [], dict(opt, x=w.strikes(j), y=w.quote_vols(j)), None)
                out.append(e.call(f, [K.items[i]], {}))
        return Tup(out)

    def smile(method, quotes, rows):
        def ob():
            w = Smile(c, method, quotes)
            e = w.e
            ex, K, cp = ask(w, rows)
            before = {k: vals.vkey(v) for k, v in w.frame('vol_smile_daily_df').items()}
            f = e.rec(e.call_method(w.s, 'interp_vol_surface', [], dict(expiry_dates=ex, K=K, cp=cp))).f
            for k, v in (('vol', vols(w, rows, K, cp)), ('expiry_date', ex), ('K', K), ('cp', cp)):
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], v, label=k)
            for k in ('expiry_years', 'fx_forward_rate', 'domestic_zero_rate', 'foreign_zero_rate'):
                c.must(k in f, 'no column %s' % k)
                c.eq(f[k], Tup([w.rows[k].items[j] for j in rows]), label=k)
            now = {k: vals.vkey(v) for k, v in w.frame('vol_smile_daily_df').items()}
            c.must(now == before, 'asking for volatilities changes the daily smiles')
            # asking again, for other expiries, finds the same smiles
            rows2 = (2, rows[0])
            ex, K, cp = ask(w, rows2)
            f = e.rec(e.call_method(w.s, 'interp_vol_surface', [], dict(expiry_dates=ex, K=K, cp=cp))).f
            c.eq(f['vol'], vols(w, rows2, K, cp), label='volatility asked for after other expiries')
        return ob

    def priced(method, rows, flags):
        def ob():
            w = Smile(c, method)
            e = w.e
            ex, K, cp = ask(w, rows)
            r = e.call_method(w.s, 'price_vanilla_european', [], dict(expiry_dates=ex, K=K, cp=cp, **flags))
            c.must(len(w.gk) == 1, 'the options are priced %d times' % len(w.gk))
            g = w.gk[0]
            V = vols(w, rows, K, cp)
            at = lambda n: Tup([w.rows[n].items[j] for j in rows])
            want = dict(S0=P('S'), tau=at('expiry_years'), r_d=at('domestic_zero_rate'), r_f=at('foreign_zero_rate'), F=at('fx_forward_rate'), cp=cp, K=K, vol=V,
                        analytical_greeks=flags.get('analytical_greeks_flag', False), numerical_greeks=flags.get('numerical_greeks_flag', False), intrinsic_time_split=flags.get('intrinsic_time_split_flag', False))
            for k, v in want.items():
                c.eq(g[k], v, label=k.replace('_', ' ') + ' priced with')
            d = {k: v for k, v in ((k if isinstance(k, str) else k[-1], v[1] if isinstance(v, tuple) else v) for k, v in e.rec(r).f.items())}
            c.must('market_value' in d, 'no market value')
            c.eq(d['market_value'], sym('gkp', arr=True), label='market value')
            c.must('market_data_inputs' in d, 'no market data inputs')
            m = e.rec(d['market_data_inputs']).f
            for k, v in (('vol', V), ('r_d', want['r_d']), ('r_f', want['r_f']), ('F', want['F'])):
                c.must(k in m, 'no %s among the market data inputs' % k)
                c.eq(m[k], v, label='reported ' + k)
        return ob

    def few(method, quotes):
        def ob():
            w = Smile(c, method, quotes)
            ex, K, cp = ask(w, (1,))
            try:
                e = w.e
                e.call_method(w.s, 'interp_vol_surface', [], dict(expiry_dates=ex, K=K, cp=cp))
            except Dead:
                return
            raise Mismatch('a smile of %d points is accepted by %s' % (len(quotes), method))
        return ob

    def shapes():
        for what in ('K', 'cp'):
            for m in ('interp_vol_surface', 'price_vanilla_european'):
                w = Smile(c, 'UNIVARIATE_SPLINE')
                ex, K, cp = ask(w, (1, 0))
                a = dict(expiry_dates=ex, K=K, cp=cp)
                a[what] = Tup(list(a[what].items) + [P('extra') if what == 'K' else num(1)])
                try:
                    w.e.call_method(w.s, m, [], a)
                except Dead:
                    continue
                raise Mismatch('%s takes expiries and %s of different lengths' % (m, what))

    def gate():
        w = Smile(c, 'HESTON_COSINE')
        e = w.e
        ex, K, cp = ask(w, (1,))
        e.call_method(w.s, 'interp_vol_surface', [], dict(expiry_dates=ex, K=K, cp=cp))
        sse = w.fitted('SSE', 1)
        bad = vals.b_not(lt0(sse - num(1) / num(1000)))
        hit = [r for r in e.raises if r[3] == 'ValueError' and vals.same(r[0], bad)]
        c.need(e.raises, 'nothing is raised')
        c.must(hit, 'a fit with squared error of 0.001 or more is not rejected: %s' % [show(r[0], 200) for r in e.raises])

    for m in ['UNIVARIATE_SPLINE', 'CUBIC_SPLINE'] + HESTON:
        for q in (Q3, Q4, Q5) if m == 'UNIVARIATE_SPLINE' else (Q4, Q5) if m == 'CUBIC_SPLINE' else (Q3, Q5):
            c.obligation('smile/%s/%d' % (m, len(q)), 'each option takes its volatility at its strike from the smile of its own expiry, fitted to that day\'s quotes, rates and forward', smile(m, q, (1, 0, 1)))
    for m in ('UNIVARIATE_SPLINE', 'HESTON_LIPTON'):
        for i, fl in enumerate(({}, dict(analytical_greeks_flag=True), dict(numerical_greeks_flag=True), dict(intrinsic_time_split_flag=True))):
            c.obligation('price/%s/%d' % (m, i), 'options are priced with the spot, rates, forward, time and smile volatility of their own expiry, which are reported', priced(m, (2, 0, 2), fl))
        for nm, rows in (('one', (1,)), ('same', (1,) * 5), ('mixed', (2, 0, 1, 0, 2, 1)), ('many', (1, 2, 0, 0, 1, 2, 2, 1, 0, 1, 1, 0, 2, 0))):
            c.obligation('smile/%s/rows/%s' % (m, nm), 'however many options are asked for, and whether or not they share an expiry, each has its own volatility', smile(m, Q5, rows))
            c.obligation('price/%s/rows/%s' % (m, nm), 'however many options are asked for, and whether or not they share an expiry, each is priced with its own data', priced(m, rows, {}))
    c.obligation('few/UNIVARIATE_SPLINE', 'too few quotes are rejected', few('UNIVARIATE_SPLINE', ('atm_delta_neutral', '25_delta_call')))
    c.obligation('few/CUBIC_SPLINE', 'too few quotes are rejected', few('CUBIC_SPLINE', Q3))
    c.obligation('lengths', 'expiries, strikes and option types of different lengths are rejected', shapes)
    c.obligation('fit', 'a poor Heston fit is rejected', gate)
    return 30
