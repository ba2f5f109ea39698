"""P26 tenors; P27 enumerations; P28 calendars"""
from checks.curve import *
from fsa import models, interp
from checks.schedule import tsym
import ast

TN = 'frm.utils.tenor'
UNITS = {'d': ['d', 'day', 'days'], 'w': ['w', 'week', 'weeks'], 'm': ['m', 'mon', 'month', 'months'], 'y': ['y', 'yr', 'yrs', 'year', 'years']}
NAMED = {'on': ['on', 'o/n', 'overnight'], 'tn': ['tn', 't/n', 'tomnext', 'tom/next', 'tom next', 'tomorrow next', 'tomorrownext'],
         'sn': ['sn', 's/n', 'spot next', 'spotnext', 'spot/next'], 'sw': ['sw', 's/w', 'spot week', 'spotweek', 'spot/week'], 'sp': ['sp', 'spot']}
NAMED_DAYS = {'on': 1, 'tn': 2, 'sp': 0, 'sn': 1, 'sw': 5}


RULE26 = 'tenor text gives the canonical tenor and exactly its calendar offset'


def period(u, n):
    return {'d': lambda: n * sym('@day'), 'w': lambda: num(7) * n * sym('@day'), 'm': lambda: fn('months', (n,)), 'y': lambda: fn('months', (num(12) * n,))}[u]()


def typings(s):
    return sorted({s, s.upper(), s.title(), ' ' + s + ' ', s + '\n', '\r\n' + s.upper(), s.replace('/', '')})


def p26(c):
    def clean(e, s):
        r = e.call(e.get(TN, 'clean_tenor'), [s], {})
        return r

    def same_text(r, want, s):
        if r != want:
            if not isinstance(r, str):
                raise Undecided('clean_tenor(%r) is %s' % (show_text(s), show(r)))
            raise Mismatch('clean_tenor(%r) gives %r, expected %r' % (show_text(s), show_text(r), show_text(want)))

    def show_text(s):
        return ''.join('<n%d>' % (ord(ch) - 0xe000) if models.has_digits(ch) else ch for ch in s)

    def unit(u, word, number):
        e = c.engine()
        for sp in ('', ' ', '\u00a0'):
            for ty in (str, str.upper, str.title):
                n = models.digits('n')[0] if number is None and not vals.DIGITS else next(iter(vals.DIGITS)) if number is None else str(number)
                for s in (n + sp + ty(word), ' ' + n + sp + ty(word) + ' ', n + sp + ty(word) + '\r\n'):
                    same_text(clean(e, s), n + u, s)

    def compound(yw, mw, number):
        e = c.engine()
        if number is None:
            a, b = models.digits('n')[0], models.digits('m')[0]
        else:
            a, b = str(number), '7'
        for s in ('%s%s%s%s' % (a, yw, b, mw), '%s %s %s %s' % (a, yw.upper(), b, mw.title())):
            same_text(clean(e, s), a + 'y' + b + 'm', s)

    def named(k, word):
        e = c.engine()
        for s in typings(word):
            same_text(clean(e, s), k, s)

    def offset(u, number):
        e = c.engine()
        ch, n = models.digits('n') if number is None else (str(number), num(number))
        got = e.call(e.get(TN, 'tenor_to_date_offset'), [ch + u], {})
        c.eq(got, period(u, n), label='offset of <n>%s' % u)

    def offset2(number):
        e = c.engine()
        (a, n), (b, m) = (models.digits('n'), models.digits('m')) if number is None else ((str(number), num(number)), ('7', num(7)))
        got = e.call(e.get(TN, 'tenor_to_date_offset'), [a + 'y' + b + 'm'], {})
        c.eq(got, fn('months', (num(12) * n + m,)), label='offset of <n>y<m>m')

    def offset_named(k):
        e = c.engine()
        got = e.call(e.get(TN, 'tenor_to_date_offset'), [k], {})
        c.eq(got, num(NAMED_DAYS[k]) * sym('@day'), label='offset of %s' % k)

    def rejected(s, fname='tenor_to_date_offset'):
        e = c.engine()
        if isinstance(s, tuple):
            ch = models.digits('n')[0]
            s = s[0].replace('#', ch)
        try:
            r = e.call(e.get(TN, fname), [s], {})
        except Dead:
            r = vals.UNDEF
        if r is not vals.UNDEF:
            raise Mismatch('%s(%r) is accepted and gives %s' % (fname, s, show(r)))
        c.must(any(x[3] in ('ValueError', 'TypeError') for x in e.raises), 'raises %s' % [x[1:] for x in e.raises])

    def refused_clean(s):
        """text that names no tenor is not made one by the cleaning"""
        e = c.engine()
        if isinstance(s, tuple):
            s = s[0].replace('#', models.digits('n')[0])
        try:
            t = clean(e, s)
        except Dead:
            return
        if t is vals.UNDEF:
            return
        if not isinstance(t, str):
            raise Undecided('clean_tenor(%r) is %s' % (s, show(t)))
        rejected(t)

    for u, words in UNITS.items():
        for w in words:
            for n in (None, 1, 18, 360):
                c.obligation('clean/%s/%s' % (w, 'n' if n is None else n), RULE26, lambda: unit(u, w, n))
    for yw in UNITS['y']:
        for mw in UNITS['m']:
            for n in (None, 1, 10):
                c.obligation('clean/%s %s/%s' % (yw, mw, 'n' if n is None else n), RULE26, lambda: compound(yw, mw, n))
    for k, words in NAMED.items():
        for w in words:
            c.obligation('clean/named/' + w, RULE26, lambda: named(k, w))
        c.obligation('offset/named/' + k, RULE26, lambda: offset_named(k))
    for n in (None, 1, 2, 12, 18, 104, 1000):
        for u in UNITS:
            c.obligation('offset/%s%s' % ('n' if n is None else n, u), RULE26, lambda: offset(u, n))
        c.obligation('offset/%sym' % ('n' if n is None else n), RULE26, lambda: offset2(n))
    for s in ('', 'd', 'xyz', '1', '1x', '-1m', '1.5y', '1m1y', '1y1', 'y1m', '1m2', 'x1m', '1mx', ('#',), ('#x',), ('-#m',), ('#m#y',), ('x#m',), ('#mx',), ('#.#y',), ('#y#',),
              ('#mo',), ('#da',), ('#wk',), ('#ye',), ('#yea',), ('#wee',), ('#b',), ('#bd',), ('#q',), ('#h',), ('#s',), ('#w#d',), ('#w#m',), ('#m#d',), ('#y#w',), ('#y#m#d',), ('#d#',), ('# m m',), ('#,#y',), ('+#m',)):
        c.obligation('rejected/%s' % (s[0] if isinstance(s, tuple) else s), RULE26, lambda: (rejected(s), refused_clean(s)))
    c.obligation('rejected/type', RULE26, lambda: rejected(num(3)))
    c.obligation('rejected/clean/type', RULE26, lambda: rejected(num(3), 'clean_tenor'))


EU, ET = 'frm.enums.utils', 'frm.enums.term_structures'
RULE27 = 'text is parsed to the member it names, and every member carries the constants its name says'
# members and the text that stands for them (beyond their own values)
PERIODS = {'DAILY': ['daily', 'd', 'day', 'days', '1d', '1day', '1days'], 'WEEKLY': ['weekly', 'w', 'week', 'weeks', 'wk', '1w', '1wk', '1week', '1weeks'],
           '_28_DAYS': ['28days', '28d', '28day', '28 days', '28_days'], 'MONTHLY': ['monthly', 'm', 'month', 'months', 'mon', '1m', '1mo', '1month', '1months', 'per month'],
           'QUARTERLY': ['quarterly', 'q', 'quarter', 'quarters', 'quart', '3m', '3mo', '3month', '3months', 'per quarter'],
           'SEMIANNUAL': ['semiannual', 'semiannually', 'semi_annual', 'semi', 's', 'sa', 's/a', '6m', '6mo', '6month', '6months'],
           'ANNUAL': ['annual', 'annually', 'a', 'year', 'years', 'yr', 'yrs', '1y', '1yr', '1year', '1years', 'per year'],
           'ZERO_COUPON': ['zerocoupon', 'zero_coupon', 'zc', 'z', 'zero', 'Zero/Coupon']}
BASIS = {'_30_360': ['30/360', '30360'], '_30E_360': ['30e/360', '30e360', '30E/360'], '_30E_360_ISDA': ['30e/360_isda', '30e/360 ISDA', '30E360 ISDA'],
         'ACT_360': ['act/360', 'actual/360', 'act360', 'Actual/360'], 'ACT_365': ['act/365', 'actual/365', 'act365', 'act/365fixed', 'Actual/365Fixed', 'ACT/365'],
         'ACT_ACT': ['act/act', 'actual/actual', 'actact', 'Actual/Actual'], 'ACT_366': ['act/366', 'actual/366', 'act366']}
ENUMS = {   # class -> (member -> accepted text, default for a missing value)
    'ZeroCurveInterpMethod': ({k: [k.lower(), k.lower().replace('_', ' ')] for k in ('LINEAR_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_LN_DISCOUNT', 'CUBIC_SPLINE_ON_CCZR')}, 'LINEAR_ON_LN_DISCOUNT'),
    'ZeroCurveExtrapMethod': ({'NONE': ['none'], 'FLAT': ['flat']}, 'NONE'),
    'PayRcv': ({'PAY': ['pay'], 'RCV': ['rcv']}, None), 'BuySell': ({'BUY': ['buy'], 'SELL': ['sell']}, None),
    'DayCountBasis': (BASIS, 'ACT_ACT'),
    'CompoundingFreq': ({k: [k.lower()] for k in ('SIMPLE', 'CONTINUOUS', 'DAILY', 'WEEKLY', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL')}, None),
    'PeriodFreq': (PERIODS, None),
    'DayRoll': (dict({'_%d' % i: [str(i)] for i in range(1, 32)}, UNADJUSTED=['unadjusted'], EOM=['eom']), 'UNADJUSTED'),
    'RollConv': ({'UNADJUSTED': ['unadjusted'], 'FOLLOWING': ['following'], 'PRECEDING': ['preceding'], 'MODIFIED_FOLLOWING': ['modifiedfollowing'],
                  'MODIFIED_PRECEDING': ['modifiedpreceding']}, 'MODIFIED_FOLLOWING'),
    'TimingConvention': ({'IN_ARREARS': ['in_arrears', 'in arrears'], 'IN_ADVANCE': ['in_advance', 'in advance']}, None),
    'Stub': ({k: [k.lower(), k.lower().replace('_', ' ')] for k in ('NONE', 'SHORT', 'LONG', 'DEFAULT', 'DEFINED_PER_FIRST_PERIOD_END_DATE', 'DEFINED_PER_LAST_PERIOD_START_DATE')}, 'DEFAULT'),
    'ExchangeNotionals': ({k: [k.lower()] for k in ('START', 'END', 'BOTH', 'NEITHER')}, 'NEITHER')}
# (class, attribute) -> member -> value
CONSTANTS = {('PayRcv', 'multiplier'): {'PAY': -1, 'RCV': 1}, ('BuySell', 'multiplier'): {'BUY': 1, 'SELL': -1},
             ('DayCountBasis', 'days_per_year'): {'_30_360': 360, '_30E_360': 360, '_30E_360_ISDA': 360, 'ACT_360': 360, 'ACT_365': 365, 'ACT_366': 366},
             ('CompoundingFreq', 'periods_per_year'): {'SIMPLE': None, 'CONTINUOUS': None, 'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}}
FREQ_OFFSET = {'DAILY': ('d', 1), 'WEEKLY': ('w', 1), '_28_DAYS': ('d', 28), 'MONTHLY': ('m', 1), 'QUARTERLY': ('m', 3), 'SEMIANNUAL': ('m', 6), 'ANNUAL': ('y', 1)}


def p27(c):
    def cls(e, name):
        return e.get(ET if name == 'RFRFixingCalcMethod' else EU, name)

    def value(x):
        return '%s.%s' % (x.cls, x.name) if isinstance(x, EnumMember) else show(x)

    def parse(name, m, text):
        e = c.engine()
        for s in sorted({text, text.upper(), text.title(), '  ' + text + ' ', text.replace('_', ' ')}):
            got = e.call_method(cls(e, name), 'from_value', [s], {})
            c.must(got == EnumMember(name, m), '%s.from_value(%r) gives %s, expected %s' % (name, s, value(got), m))

    def own(name):
        """a member's own value is valid and stands for the member; the members are those documented"""
        e = c.engine()
        k = cls(e, name)
        members = [n for n, _ in k.members()]
        c.must(set(ENUMS[name][0]) <= set(members), '%s has the members %s' % (name, members))
        for m in members:
            v = e.attr(EnumMember(name, m), 'value', None)
            got = e.call_method(k, 'from_value', [v], {})
            c.must(got == EnumMember(name, m), '%s.from_value(%s) gives %s, expected %s' % (name, show(v), value(got), m))
            for s in ([v, v.upper(), ' ' + v.title() + ' '] if isinstance(v, str) else [v]):
                ok = e.call_method(k, 'is_valid', [s], {})
                c.must(ok is True, '%s.is_valid(%s) is %s' % (name, show(s), show(ok)))

    def missing(name, d):
        for x in (None, fn('nan', ())):
            e = c.engine()
            got = e.call_method(cls(e, name), 'from_value', [x], {})
            c.must(got == EnumMember(name, d), '%s.from_value(%s) gives %s, expected %s' % (name, show(x), value(got), d))

    def other(name, text):
        e = c.engine()
        ok = e.call_method(cls(e, name), 'is_valid', [text], {})
        c.must(ok is False, '%s.is_valid(%r) is %s' % (name, text, show(ok)))
        e = c.engine()
        try:
            got = e.call_method(cls(e, name), 'from_value', [text], {})
        except Dead:
            got = vals.UNDEF
        c.must(got is vals.UNDEF, '%s.from_value(%r) gives %s' % (name, text, value(got)))
        c.must(any(x[3] == 'ValueError' for x in e.raises), '%s.from_value(%r) raises %s' % (name, text, [x[1] for x in e.raises]))

    def constant(name, attr):
        e = c.engine()
        for m, v in CONSTANTS[name, attr].items():
            got = e.attr(EnumMember(name, m), attr, None)
            if v is None:
                c.must(got is None, '%s.%s.%s is %s' % (name, m, attr, show(got)))
            else:
                c.eq(got, num(v), label='%s.%s.%s' % (name, m, attr))

    def period_offset(m):
        e = c.engine()
        u, n = FREQ_OFFSET[m]
        c.eq(e.attr(EnumMember('PeriodFreq', m), 'date_offset', None), period(u, num(n)), label='offset of one period')
        j = sym('j', pos=False)
        c.eq(e.call_method(EnumMember('PeriodFreq', m), 'multiply_date_offset', [j], {}), period(u, num(n) * j), label='offset of j periods')

    def no_offset():
        e = c.engine()
        z = EnumMember('PeriodFreq', 'ZERO_COUPON')
        c.must(e.attr(z, 'date_offset', None) is None, 'zero coupon has the offset %s' % show(e.attr(z, 'date_offset', None)))
        c.must(e.call_method(z, 'multiply_date_offset', [sym('j', pos=False)], {}) is None, 'zero coupon has an offset')

    def timing_defaults():
        e = c.engine()
        for f, m in (('fixing_default', 'IN_ADVANCE'), ('payment_default', 'IN_ARREARS')):
            got = e.call_method(e.get(EU, 'TimingConvention'), f, [], {})
            c.must(got == EnumMember('TimingConvention', m), 'TimingConvention.%s() is %s' % (f, value(got)))
        got = e.call_method(e.get(EU, 'Stub'), 'market_convention', [], {})
        c.must(got == EnumMember('Stub', 'SHORT'), 'Stub.market_convention() is %s' % value(got))

    norm = lambda t: ''.join(ch for ch in str(t).lower().replace('actual', 'act') if ch not in ' _/')

    def taken(name, text):
        """the member a text is taken for, None when it is rejected"""
        e = c.engine()
        try:
            got = e.call_method(cls(e, name), 'from_value', [text], {})
        except Dead:
            return None
        return got.name if isinstance(got, EnumMember) else None

    def counts(unit, words):
        """a whole number of days, weeks, months or years only stands for a frequency of that length"""
        length = {('d', 1): 'DAILY', ('d', 7): 'WEEKLY', ('w', 1): 'WEEKLY', ('d', 28): '_28_DAYS', ('w', 4): '_28_DAYS', ('m', 1): 'MONTHLY', ('m', 3): 'QUARTERLY', ('m', 6): 'SEMIANNUAL',
                  ('m', 12): 'ANNUAL', ('y', 1): 'ANNUAL'}
        for w in words:
            for n in list(range(0, 37)) + [48, 52, 60, 90, 91, 100, 182, 252, 360, 365, 366]:
                for sep in ('', ' ') if n < 13 else ('',):
                    got = taken('PeriodFreq', '%d%s%s' % (n, sep, w))
                    c.must(got is None or got == length.get((unit, n)), 'PeriodFreq.from_value(%r) gives %s' % ('%d%s%s' % (n, sep, w), got))

    def numbers(name):
        """numbers are days of the month only; a basis with another number of days is no basis"""
        texts = [str(n) for n in list(range(-2, 45)) + [100, 131, 360, 365, 366]]
        if name == 'DayCountBasis':
            texts = ['%s/%s' % (a, b) for a in ('act', 'actual', '30', '30e', '30u', '31', 'nl', 'bus') for b in ('act', 'actual', '360', '364', '365', '366', '365.25', '365l', '252', '30', '3')]
        for t in texts:
            got = taken(name, t)
            want = next((m for m, ts in ENUMS[name][0].items() if norm(t) in {norm(x) for x in ts}), None)
            c.must(got is None or got == want, '%s.from_value(%r) gives %s' % (name, t, got))

    def literals():
        """the text constants of the modules that define the enumerations"""
        out = set()
        for mod in (EU, ET, 'frm.enums.helper'):
            out |= {n.value for n in ast.walk(c.world.mod(mod).tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 40 and '\n' not in n.value}
        return sorted(out)

    def others_text(name):
        """text that stands for a member of another enumeration, or occurs as a constant next to them, is not taken for a member with another name"""
        mine = {norm(t): m for m, ts in ENUMS[name][0].items() for t in list(ts) + [m]}
        far = {}
        for k, (ms, _) in ENUMS.items():
            if k != name:
                for m, ts in ms.items():
                    for t in list(ts) + [m]:
                        far.setdefault(norm(t), set()).add(m)
        for t in sorted(set(literals()) | {t for k, (ms, _) in ENUMS.items() if k != name for ts in ms.values() for t in ts}):
            got = taken(name, t)
            if got is None:
                continue
            if norm(t) in mine:
                c.must(got == mine[norm(t)], '%s.from_value(%r) gives %s' % (name, t, got))
            elif norm(t) in far:
                c.must(got in far[norm(t)], '%s.from_value(%r) gives %s' % (name, t, got))

    def near_misses(name):
        """text that differs in a character from the text of a member is not taken for it"""
        mine = {norm(t) for m, ts in ENUMS[name][0].items() for t in list(ts) + [m]}
        mine |= {'per' + w for w in ('months', 'quarters', 'years')} | {'28day'} if name == 'PeriodFreq' else set()
        for m, ts in ENUMS[name][0].items():
            for x in list(ts) + [m.lower()]:
                for y in (x + 'x', 'x' + x, x[:-1], x[1:], x.replace('_', '-'), x.replace(' ', '-'), x.replace('_', '.'), x + 's', x + '.', x + x):
                    if y and norm(y) not in mine:
                        got = taken(name, y)
                        c.must(got is None, '%s.from_value(%r) gives %s' % (name, y, got))

    for name, (members, d) in ENUMS.items():
        c.obligation('near/' + name, RULE27, lambda: near_misses(name))
        c.obligation('others/' + name, RULE27, lambda: others_text(name))
    for u, ws in (('d', ('d', 'day', 'days')), ('w', ('w', 'wk', 'week', 'weeks')), ('m', ('m', 'mo', 'mon', 'month', 'months')), ('y', ('y', 'yr', 'yrs', 'year', 'years'))):
        c.obligation('counts/' + u, RULE27, lambda: counts(u, ws))
    for name in ENUMS:
        if name != 'PeriodFreq':
            c.obligation('numbers/' + name, RULE27, lambda: numbers(name))

    for name, (members, d) in ENUMS.items():
        c.obligation('own/' + name, RULE27, lambda: own(name))
        for m, texts in members.items():
            for t in texts:
                c.obligation('parse/%s/%s/%s' % (name, m, t), RULE27, lambda: parse(name, m, t))
        if d is not None:
            c.obligation('missing/' + name, RULE27, lambda: missing(name, d))
        for t in ('\u00a7', 'unknown', '99', '0', '', 'x', num(0), num(-7)):
            c.obligation('other/%s/%s' % (name, show(t) if isinstance(t, Expr) else t), RULE27, lambda: other(name, t))
    for k in CONSTANTS:
        c.obligation('constant/%s.%s' % k, RULE27, lambda: constant(*k))
    for m in FREQ_OFFSET:
        c.obligation('offset/' + m, RULE27, lambda: period_offset(m))
    c.obligation('offset/ZERO_COUPON', RULE27, no_offset)
    c.obligation('defaults', RULE27, timing_defaults)


BC = 'frm.utils.business_day_calendar'
RULE28 = 'the calendar has the holidays and weekend days of every requested currency and locale and no others'
# stand-ins for the stored holiday sets: key -> (weekend days, dates); a date may be a holiday of several
CCY = {'USD': ((5, 6), ('u1', 'u2', 'shared')), 'GBP': ((5, 6), ('g1', 'shared')), 'ILS': ((4, 5), ('i1',)), 'EUR': ((5, 6), ()), 'AED': ((6,), ('a1', 'u1'))}
LOC = {'UK-LONDON': ((5, 6), ('l1', 'g1')), 'IL-TEL_AVIV': ((4, 5), ('t1',)), 'European_Central_Bank': ((5, 6), ('e1',)), 'New_York_Stock_Exchange': ((5, 6), ('n1', 'u1'))}


def p28(c):
    def engine():
        e = c.engine()

        def stored(eng, table):
            out = []
            for k, (wk, hs) in table.items():
                d = eng.new_dict([(tsym(h, 'ts'), 'name of ' + h) for h in hs])
                r = eng.rec(d).copy()
                r.extra = dict(r.extra or {})
                r.extra['attr', 'weekend'] = eng.alloc(interp.Rec('set', items=[num(w) for w in wk]))
                eng.put(d, r)
                out.append((k, d))
            return eng.new_dict(out)

        def load(eng, a, k, node):
            t = show(eng.tok(a[0]))
            c.need(('CCY_HOLIDAY' in t) != ('LOCALE_HOLIDAY' in t), 'holidays are loaded from %s' % t)
            return stored(eng, CCY if 'CCY_HOLIDAY' in t else LOC)
        e.overrides['ext:dill.load'] = load
        e.overrides['ext:pickle.load'] = load
        return e

    def expected(e, keys):
        up = {k.upper(): v for k, v in list(LOC.items()) + list(CCY.items())}
        wk, hs = set(), set()
        for k in keys:
            wk |= set(up[k.upper()][0])
            hs |= set(up[k.upper()][1])
        return fn('busdaycal', (''.join('0' if i in wk else '1' for i in range(7)),) + tuple(x for _, x in sorted((repr(tsym(h, 'ts')), tsym(h, 'ts')) for h in hs)), arr=False)

    def calendar(keys, spell):
        e = engine()
        arg = spell(keys[0]) if len(keys) == 1 and not isinstance(spell, tuple) else e.new_list([spell[i % len(spell)](k) for i, k in enumerate(keys)])
        got = e.call(e.get(BC, 'get_busdaycal'), [arg], {})
        c.eq(got, expected(e, keys), label='calendar of %s' % ', '.join(keys))

    def none():
        e = engine()
        c.eq(e.call(e.get(BC, 'get_busdaycal'), [None], {}), fn('busdaycal', ('1111100',), arr=False), label='calendar of None')

    def unknown(keys):
        e = engine()
        arg = keys if isinstance(keys, str) else e.new_list(list(keys))
        try:
            got = e.call(e.get(BC, 'get_busdaycal'), [arg], {})
        except Dead:
            got = vals.UNDEF
        c.must(got is vals.UNDEF, 'get_busdaycal(%s) gives %s' % (keys, show(got)))
        c.must(any(x[3] == 'ValueError' for x in e.raises), 'get_busdaycal(%s) raises %s' % (keys, [x[1] for x in e.raises]))

    same, low, up = (lambda s: s), str.lower, str.upper
    for k in list(CCY) + list(LOC):
        for nm, f in (('', same), ('lower', low), ('upper', up)):
            c.obligation('one/%s/%s' % (k, nm), RULE28, lambda: calendar([k], f))
            c.obligation('list/%s/%s' % (k, nm), RULE28, lambda: calendar([k], (f,)))
    for ks in (['USD', 'GBP'], ['GBP', 'USD'], ['USD', 'USD'], ['USD', 'ILS'], ['ILS', 'EUR'], ['USD', 'GBP', 'ILS'], ['AED', 'USD', 'UK-LONDON'], ['UK-LONDON', 'IL-TEL_AVIV'], ['EUR', 'New_York_Stock_Exchange'],
               list(CCY) + list(LOC), list(LOC) + list(CCY) + list(LOC)):
        for nm, f in (('', (same,)), ('lower', (low,)), ('mixed', (low, up))):
            c.obligation('list/%s/%s' % ('+'.join(ks), nm), RULE28, lambda: calendar(ks, f))
    c.obligation('none', RULE28, none)
    for ks in ('XXX', ('USD', 'XXX'), ('XXX', 'USD'), '', 'US'):
        c.obligation('unknown/%s' % (ks,), RULE28, lambda: unknown(ks))
