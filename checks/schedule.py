"""P22-P24: schedules"""
from checks.curve import *
from fsa import interp
from fsa.vals import Node

SC = 'frm.utils.schedule'
STEP = {'DAILY': ('d', 1), 'WEEKLY': ('d', 7), '_28_DAYS': ('d', 28), 'MONTHLY': ('m', 1), 'QUARTERLY': ('m', 3), 'SEMIANNUAL': ('m', 6), 'ANNUAL': ('m', 12)}
ROLL = {'UNADJUSTED': None, 'FOLLOWING': 'following', 'PRECEDING': 'preceding', 'MODIFIED_FOLLOWING': 'modifiedfollowing', 'MODIFIED_PRECEDING': 'modifiedpreceding'}
DAYS = ['UNADJUSTED', 'EOM'] + ['_%d' % i for i in range(1, 32)]
day = sym('@day')


def offset(freq, j):
    """j periods as one offset (not j times one period: month ends would drift)"""
    u, n = STEP[freq]
    return fn('months', (num(n) * j,)) if u == 'm' else num(n) * j * sym('@day')


def roller(e, conv, cal):
    r = ROLL[conv]
    return (lambda x: x) if r is None else (lambda x: models.E['numpy.busday_offset'](e, [x, num(0)], {'roll': r, 'busdaycal': cal}, None))


def day_roller(e, dr):
    if dr == 'UNADJUSTED':
        return lambda x: x
    end = lambda x: x + models.call_ext(e, 'pandas.offsets.MonthEnd', [num(0)], {}, None)
    if dr == 'EOM':
        return end
    d = int(dr[1:])

    def f(x):
        r = fn('replace', (x, 'day', num(d)), arr=alg.is_arr(x))
        if d < 28:
            return r
        n = models.month_days(models.date_attr(e, x, 'year'), models.date_attr(e, x, 'month'))
        return vals.lift1(lambda n: vals.ite(gt0(n - num(d)) if d > 28 else vals.b_not(eq0(n - num(d))), r, end(x)), n)
    return f


def progress(lp):
    """state symbol -> value at iteration k for the states that advance by a constant"""
    k = lp.var
    out = {}
    for nm, (i0, s, nxt) in lp.state.items():
        if isinstance(i0, Expr) and isinstance(s, Expr) and isinstance(nxt, Expr):
            d = alg.simplify(nxt - s)
            if d.is_const():
                out[alg.sid(s)] = i0 + d * k
    return out


def element(c, e, seg):
    """(first element or None, element at iteration k >= 1 or any k, loop) of an appended segment"""
    c.need(isinstance(seg, interp.MapSeg), 'a part of the schedule is %s' % show(e.tok(seg)))
    c.need(seg.guard is True, 'dates are appended conditionally')
    lp = seg.loop
    pr = progress(lp)
    sub = lambda v: e.subst_val(v, pr)
    for nm, (i0, s, nxt) in lp.state.items():
        if isinstance(seg.val, Expr) and isinstance(s, Expr) and seg.val.t == s.t:
            # element k+1 is the next state computed at iteration k
            return i0, e.subst_val(sub(nxt), {alg.sid(lp.var): lp.var - one}), lp, s
    return None, sub(seg.val), lp, None


def p22(c):
    def gen(freq, direction, conv='FOLLOWING', dr='UNADJUSTED', flag=False):
        e = c.engine()
        start, end, cal = tsym('start', 'ts'), tsym('end', 'ts'), sym('cal', pos=False)
        r = e.call(e.get(SC, 'generate_date_schedule'), [start, end, member(e, 'PeriodFreq', freq), direction],
                   dict(roll_conv=member(e, 'RollConv', conv), day_roll=member(e, 'DayRoll', dr), roll_user_specified_dates=flag, cal=cal))
        c.need(isinstance(r, Tup) and len(r.items) == 2, 'result %s' % show(r))
        roll, dr_ = roller(e, conv, cal), day_roller(e, dr)
        s1, e1 = (roll(start), roll(end)) if flag else (start, end)
        items = []
        for x in r.items:
            rec = e.rec(x) if isinstance(x, vals.Ref) else None
            c.must(rec is not None or isinstance(x, (Node, Expr, Tup)), 'not a list of dates: %s' % show(x))
            c.need(rec is not None and rec.kind == 'list' and rec.base is None and len(rec.items) == 2, 'list of dates %s' % show(e.tok(x)))
            items.append(list(rec.items))
        (a0, aseg), (bseg, b1) = items
        segs = (interp.MapSeg, interp.RevSeg)
        c.must(not isinstance(a0, segs), 'the first period does not start on the start date: the generated dates come first')
        c.must(not isinstance(b1, segs), 'the last period does not end on the end date: the generated dates come last')
        c.need(isinstance(aseg, (interp.MapSeg, interp.RevSeg)) and isinstance(bseg, (interp.MapSeg, interp.RevSeg)), 'order of the dates')
        c.eq(a0, s1, label='first period start')
        c.eq(b1, e1, label='last period end')
        back = direction == 'backward'
        anchor, sign = (end, -one) if back else (start, one)
        G = lambda j: vals.lift1(roll, vals.lift1(dr_, anchor + sign * offset(freq, j)))
        for seg, what in ((aseg, 'period starts'), (bseg, 'period ends')):
            c.must(isinstance(seg, interp.RevSeg) == back, '%s are not in date order' % what)
            m = seg.seg if back else seg
            i0, v, lp, s = element(c, e, m)
            k = lp.var
            inside = gt0(end - start)
            if i0 is not None:
                c.eq(i0, G(one), pc=inside, label='first date of the %s' % what)
            c.eq(v, G(k + one), pc=vals.b_and(inside, lp.cond), label='date number k+1 of the %s' % what)
            c.need(getattr(lp, 'cond', None) is not None, 'loop without a condition')
            x = s if s is not None else v
            c.eq(vals.ite(lp.cond, one, num(0)), vals.ite(gt0(x - start) if back else lt0(x - end), one, num(0)), pc=inside, label='generation continues while the date is inside the term')
    for d in ('forward', 'backward'):
        for f in STEP:
            c.obligation('generate/%s/%s' % (d, f), 'interior dates are the rolled whole multiples of the period from the anchor, strictly inside the term; each is the end of one period and the start of the next', lambda d=d, f=f: gen(f, d))
            for q, r, flag in (('_20', 'UNADJUSTED', False), ('EOM', 'MODIFIED_FOLLOWING', True), ('_31', 'PRECEDING', True)):
                c.obligation('generate/%s/%s/%s' % (d, f, q), 'the same, with dates moved to a day of the month', lambda d=d, f=f, q=q, r=r, flag=flag: gen(f, d, conv=r, dr=q, flag=flag))
        for r in ROLL:
            c.obligation('roll/%s/%s' % (d, r), 'dates are rolled by the given convention on the given calendar', lambda d=d, r=r: gen('QUARTERLY', d, conv=r, flag=True))
        for q in DAYS:
            c.obligation('day/%s/%s' % (d, q), 'dates fall on the given day of the month, or its last day', lambda d=d, q=q: gen('MONTHLY', d, dr=q))

    def bad():
        for a, b, d in ((P('t') * 0 + tsym('s', 'ts'), tsym('s', 'ts'), 'forward'), (tsym('s', 'ts') + sym('@day'), tsym('s', 'ts'), 'backward'), (tsym('s', 'ts'), tsym('s', 'ts') + sym('@day'), 'sideways')):
            e = c.engine()
            try:
                e.call(e.get(SC, 'generate_date_schedule'), [a, b, member(e, 'PeriodFreq', 'MONTHLY'), d], {})
            except Dead:
                continue
            raise Mismatch('dates in the wrong order or an unknown direction are not rejected')
    c.obligation('reject', 'an end not after the start and an unknown direction are rejected', bad)
    return 100


NP = {'backward': 'b', 'forward': 'f'}


class Gen:
    """stands for generate_date_schedule: n periods of unknown (but named) dates between the two given ones"""

    def __init__(self, c, counts, same=False):
        self.c, self.counts, self.same, self.calls = c, counts, same, []

    def dates(self, e, a, b, direction, n, roll):
        d = 'g' if self.same else NP[direction]
        base = '%s(%s,%s)' % (d, show(a), show(b))
        mid = [fn('date:' + base, (num(j),), arr=False) for j in (range(1, n) if direction == 'forward' else range(n - 1, 0, -1))]
        for x in mid:
            models.TYPES[sid(x)] = 'ts'
        return [a] + [roll(x) for x in mid] + [b]

    def __call__(self, e, env):
        c = self.c
        a, b = env['start_date'], env['end_date']
        d = env['direction']
        c.need(d in NP, 'direction %s' % show(d))
        self.calls.append((a, b, d, dict(env)))
        n = self.counts(a, b, d)
        bs = self.dates(e, a, b, d, n, self.rollmid)
        lo, hi = [self.rolluser(x) for x in (a, b)]
        return Tup([e.new_list([lo] + bs[1:-1]), e.new_list(bs[1:-1] + [hi])])


def merge_first(bs):
    return bs[:1] + bs[2:] if len(bs) > 2 else bs


def merge_last(bs):
    return bs[:-2] + bs[-1:] if len(bs) > 2 else bs


def p23(c):
    start, end, cal = 'start', 'end', 'cal'

    def run(first, last, fpe, lps, nb, nf, ni, same=False, flag=False, conv=None, freq=None, dr=None):
        """fpe, lps: None | 'free' | ('f'|'b', index)  ->  (list of boundaries (starts, ends) | None when rejected, Gen, boundaries fns)"""
        k = nb + 2 * nf + ni       # the other options vary along
        conv = conv or ('FOLLOWING', 'MODIFIED_FOLLOWING', 'PRECEDING', 'UNADJUSTED', 'MODIFIED_PRECEDING')[k % 5]
        freq = freq or ('QUARTERLY', 'MONTHLY', 'ANNUAL', 'SEMIANNUAL')[k % 4]
        dr = dr or ('UNADJUSTED', 'EOM', '_15')[k % 3]
        e = c.engine()
        S, T, C = tsym(start, 'ts'), tsym(end, 'ts'), sym(cal, pos=False)
        g = Gen(c, lambda a, b, d: (nf if d == 'forward' else nb) if (same_(a, S) and same_(b, T)) else ni, same)
        roll = roller(e, conv, C)
        g.rollmid = roll
        g.rolluser = roll if flag else (lambda x: x)
        B = {'b': g.dates(e, S, T, 'backward', nb, roll), 'f': g.dates(e, S, T, 'forward', nf, roll)}

        def date(spec, nm):
            if spec is None:
                return None
            if spec == 'free':
                return tsym(nm, 'ts')
            return B[spec[0]][spec[1]]
        F, L = date(fpe, 'fpe'), date(lps, 'lps')
        # the order of the dates is assumed; no other relation between them is known
        rk = {}
        for k, sh in (('b', 3), ('f', 6)):
            for j, x in enumerate(B[k]):
                rk.setdefault(sid(x), 10 * j if same else 0 if j == 0 else 1000 if j == len(B[k]) - 1 else 10 * j - sh)
        rk[sid(T)] = 1000
        if flag:
            rk.update({sid(roll(S)): 1, sid(roll(T)): 1001})
        if F is not None:
            rk.setdefault(sid(F), 11)
        if L is not None:
            rk.setdefault(sid(L), 500)
        vals.RANK.update(rk)
        e = c.engine()
        e.overrides[SC + '.generate_date_schedule'] = g
        args = dict(start_date=S, end_date=T, freq=member(e, 'PeriodFreq', freq), roll_conv=member(e, 'RollConv', conv), day_roll=member(e, 'DayRoll', dr),
                    first_period_end=F, last_period_start=L, roll_user_specified_dates=flag, cal=C)
        if first is not None:
            args['first_stub'] = member(e, 'Stub', first)
        if last is not None:
            args['last_stub'] = member(e, 'Stub', last)
        try:
            df = e.call(e.get(SC, 'make_schedule'), [], args)
        except Dead:
            return None, g, (S, T, F, L, roll, B, e)
        for a, b, d, env in g.calls:
            c.must(same_member(env.get('freq'), freq), 'dates are not generated with the given frequency')
            c.must(same_member(env.get('roll_conv'), conv), 'dates are not generated with the given roll convention')
            c.must(same_member(env.get('day_roll'), dr), 'dates are not generated with the given day roll')
            c.must(vals.same(env.get('cal'), C), 'dates are not generated on the given calendar')
        rec = e.rec(df)
        cols = []
        for nm in ('period_start', 'period_end'):
            c.need(nm in rec.f, 'no column %s' % nm)
            col = models.seq(e, rec.f[nm])
            c.need(isinstance(col, Tup), 'column %s = %s' % (nm, show(col)))
            cols.append(list(col.items))
        c.must(len(cols[0]) == len(cols[1]), 'columns of different lengths')
        return cols, g, (S, T, F, L, roll, B, e)

    def accept(r, alts, flag, may_raise=False, what=''):
        cols, g, (S, T, F, L, roll, B, e) = r
        if cols is None:
            c.must(may_raise, '%s: a valid schedule is rejected' % what)
            return
        user = roll if flag else (lambda x: x)
        alts = [[user(x) if flag else x for x in bs] for bs in alts]
        for bs in alts:
            if len(bs) - 1 == len(cols[0]) and all(vals.same(x, y) for x, y in zip(cols[0], bs[:-1])) and all(vals.same(x, y) for x, y in zip(cols[1], bs[1:])):
                return
        f = lambda xs: '[' + ', '.join(show(x) for x in xs) + ']'
        raise Mismatch('%s: period starts %s, period ends %s; required boundaries %s' % (what, f(cols[0]), f(cols[1]), ' or '.join(f(b) for b in alts)))

    STUBS = [None, 'DEFAULT', 'NONE', 'SHORT', 'LONG']
    eff = lambda s: s or 'DEFAULT'

    def nodates(first, last, flag):
        for nb, nf in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4)):
            r = run(first, last, None, None, nb, nf, 1, flag=flag)
            B = r[2][5]
            f, l = eff(first), eff(last)
            if l in ('DEFAULT', 'NONE'):
                bs = merge_first(B['b']) if f == 'LONG' else B['b']
            elif f in ('DEFAULT', 'NONE'):
                bs = merge_last(B['f']) if l == 'LONG' else B['f']
            else:
                c.must(r[0] is None, 'two stubs without their dates are not rejected')
                continue
            accept(r, [bs], flag, what='%d backward / %d forward periods' % (nb, nf))

    def dates(fpe, lps, first, last, flag):
        n = 0
        for nb, nf in ((2, 2), (3, 3), (2, 3), (3, 2), (4, 4)):
            for same in ((False, True) if nb == nf else (False,)):
                for ni in (1, 2, 3):
                    ok = True
                    for sp in (fpe, lps):
                        if sp not in (None, 'free'):
                            m = nb if sp[0] == 'b' else nf
                            i = sp[1] if sp[1] > 0 else m + 1 + sp[1]
                            ok = ok and 0 < i < m
                    if not ok:
                        continue
                    if fpe not in (None, 'free') and lps not in (None, 'free'):
                        pos = [(sp[1] if sp[1] > 0 else (nb if sp[0] == 'b' else nf) + 1 + sp[1]) for sp in (fpe, lps)]
                        if pos[0] > pos[1]:
                            continue
                    r = run(first, last, fpe, lps, nb, nf, ni, same=same, flag=flag)
                    n += 1
                    g, (S, T, F, L, roll, B, e) = r[1], r[2]
                    lo, hi = F if F is not None else S, L if L is not None else T
                    what = 'first period end %s, last period start %s, %d backward / %d forward / %d other periods%s' % (show(F), show(L), nb, nf, ni, ', regular' if same else '')
                    alts, may_raise = [], False
                    f, l = eff(first), eff(last)
                    mf = lambda b: merge_first(b) if f == 'LONG' else b
                    ml = lambda b: merge_last(b) if l == 'LONG' else b
                    if F is not None and L is not None:
                        if same_(F, L):
                            alts.append([S, F, T])
                        else:
                            for d in ('forward', 'backward'):
                                bs = g.dates(e, lo, hi, d, ni, roll)
                                alts.append([S] + bs + [T])
                            for b in (B['b'], B['f']):
                                for v in (b, merge_first(b), merge_last(b)):
                                    if same_(v[1], F) and same_(v[-2], L):
                                        alts.append(v)
                            if any(len(v) > len(alts[0]) for v in alts) or not any(same_(x, F) or same_(x, L) for x in B['b'] + B['f']):
                                pass
                    elif F is not None:
                        hits = [v for v in (B['f'], B['b'], merge_first(B['b'])) if same_(v[1], F)]
                        if same_(B['f'][1], F):
                            alts.append(keep(ml, B['f'], F))
                            if same:
                                alts.append(keep(ml, B['b'], F))
                        elif hits:
                            alts.append(hits[0])
                            may_raise = l in ('SHORT', 'LONG')
                        else:
                            alts.append(keep(ml, [S] + g.dates(e, F, T, 'forward', ni, roll), F))
                    else:
                        hits = [v for v in (B['b'], B['f'], merge_last(B['f'])) if same_(v[-2], L)]
                        if same_(B['b'][-2], L):
                            alts.append(keep(mf, B['b'], None, L))
                            if same:
                                alts.append(keep(mf, B['f'], None, L))
                        elif hits:
                            alts.append(hits[0])
                            may_raise = f in ('SHORT', 'LONG')
                        else:
                            alts.append(keep(mf, g.dates(e, S, L, 'backward', ni, roll) + [T], None, L))
                    accept(r, alts, flag, may_raise, what)
        c.need(n > 0, 'no case')

    for flag in (False, True):
        nm = '/rolled' if flag else ''
        for f in STUBS:
            for l in STUBS:
                c.obligation('stubs/%s/%s%s' % (f, l, nm), 'generated from the end (first stub) or the start (last stub); a long stub merges the two periods at that end', lambda f=f, l=l, flag=flag: nodates(f, l, flag))
        for fpe in (None, 'free', ('f', 1), ('b', 1), ('b', 2)):
            for lps in (None, 'free', ('b', -2), ('f', -2), ('f', -3)):
                if fpe is None and lps is None:
                    continue
                for st in ((None, None), ('DEFAULT', 'LONG'), ('LONG', 'DEFAULT'), ('NONE', 'NONE'), ('SHORT', 'SHORT')):
                    if st == ('LONG', 'DEFAULT') and lps is None or st == ('DEFAULT', 'LONG') and fpe is None:
                        continue
                    f, l = st
                    # the stub a date is given for is ignored; only the other one counts
                    if fpe is not None and lps is not None and st[0] is not None:
                        continue
                    c.obligation('dates/%s/%s/%s%s' % (fpe, lps, st, nm), 'the first period ends / the last one starts on the given date; periods are contiguous', lambda a=(fpe, lps, f, l, flag): dates(*a))

    def single(flag):
        for kw, fq in (({'first_period_end': 'end'}, 'QUARTERLY'), ({'last_period_start': 'start'}, 'QUARTERLY'), ({}, 'ZERO_COUPON')):
            for first, last in ((None, None), ('LONG', None), (None, 'LONG')):
                S, T, C = tsym('start', 'ts'), tsym('end', 'ts'), sym('cal', pos=False)
                e = c.engine(pc=gt0(T - S))
                roll = roller(e, 'FOLLOWING', C)
                a = dict(start_date=S, end_date=T, freq=member(e, 'PeriodFreq', fq), roll_conv=member(e, 'RollConv', 'FOLLOWING'), roll_user_specified_dates=flag, cal=C)
                a.update({k: {'start': S, 'end': T}[v] for k, v in kw.items()})
                for k, v in (('first_stub', first), ('last_stub', last)):
                    if v:
                        a[k] = member(e, 'Stub', v)
                df = e.call(e.get(SC, 'make_schedule'), [], a)
                for nm, x in (('period_start', S), ('period_end', T)):
                    col = models.seq(e, e.rec(df).f[nm])
                    c.must(isinstance(col, Tup) and len(col.items) == 1, 'not a single period')
                    c.eq(col.items[0], roll(x) if flag else x, pc=gt0(T - S), label=nm)
    for flag in (False, True):
        c.obligation('single%s' % ('/rolled' if flag else ''), 'zero coupon schedules and schedules of one period by their stub dates are a single period', lambda flag=flag: single(flag))

    def reject():
        S = tsym('start', 'ts')
        day = sym('@day')
        d = lambda n: S + day * num(n)
        E = lambda e, n: member(e, 'Stub', n)
        for a, b, kw, st in ((0, 0, {}, {}), (1, 0, {}, {}), (0, 100, {'first_period_end': 101}, {}), (0, 100, {'first_period_end': 0}, {}), (0, 100, {'first_period_end': -1}, {}),
                             (0, 100, {'last_period_start': -1}, {}), (0, 100, {'last_period_start': 100}, {}), (0, 100, {'last_period_start': 101}, {}),
                             (0, 100, {}, {'first_stub': 'DEFINED_PER_FIRST_PERIOD_END_DATE'}), (0, 100, {}, {'last_stub': 'DEFINED_PER_LAST_PERIOD_START_DATE'})):
            e = c.engine()
            args = dict(start_date=d(a), end_date=d(b), freq=member(e, 'PeriodFreq', 'MONTHLY'))
            args.update({k: d(v) for k, v in kw.items()})
            args.update({k: E(e, v) for k, v in st.items()})
            try:
                e.call(e.get(SC, 'make_schedule'), [], args)
            except Dead:
                continue
            raise Mismatch('start %s, end %s, %s %s is not rejected' % (a, b, kw, st))
    c.obligation('reject', 'dates out of order, stub dates outside the term and stubs by a missing date are rejected', reject)
    return 100


def same_(a, b):
    return vals.same(a, b)


def same_member(v, name):
    return isinstance(v, EnumMember) and v.name == name


def keep(f, bs, F=None, L=None):
    """f(bs) unless it would drop a date given by the user"""
    r = f(bs)
    return r if (F is None or same_(r[1], F)) and (L is None or same_(r[-2], L)) else bs


def p24(c):
    from fsa.vals import cond

    def sched(e, cls, PS, PE, **kw):
        got = {}

        def made(eng, env):
            got.update(env)
            return eng.new_df({'period_start': PS, 'period_end': PE})
        e.overrides[SC + '.make_schedule'] = made
        S, T, C = tsym('start', 'ts'), tsym('end', 'ts'), sym('cal', pos=False)
        a = dict(start_date=S, end_date=T, freq=member(e, 'PeriodFreq', 'QUARTERLY'), cal=C)
        a.update(kw)
        return e.call(e.get(SC, cls), [], a), got, C

    def series(e):
        return tsym('PS', 'series'), tsym('PE', 'series')

    def rows(n):
        out = [Tup([tsym('%s%d' % (x, i), 'ts') for i in range(n)]) for x in ('s', 'e')]
        vals.PRESENT.update(sid(x) for y in out for x in y.items)
        return out

    def frame(e, o):
        v = e.attr(o, 'df', None)
        if isinstance(v, Node):
            n = {models.frame_rows(e, e.rec(x)) for _, x in vals.leaves(v, e.st.pc) if isinstance(x, Ref)}
            c.need(None not in n, 'rows of the schedule')
            c.must(len(n) < 2, 'a schedule of the same periods has %s rows depending on the values given: %s' % (' or '.join(map(str, sorted(n))), show(v, 200)))
            raise Undecided('schedule %s' % show(v, 150))
        return e.rec(v)

    def col(e, o, nm, n=None):
        rec = frame(e, o)
        c.must(nm in rec.f, 'no column %s' % nm)
        v = rec.f[nm]
        if n is not None:
            v = models.seq(e, v)
            if isinstance(v, Expr) and not alg.is_arr(v):
                v = Tup([v] * n)
            c.need(isinstance(v, Tup), 'column %s = %s' % (nm, show(v)))
            c.must(len(v.items) == n, 'column %s has %d rows, not %d' % (nm, len(v.items), n))
        return v

    def missing(v):
        return isinstance(v, Expr) and any(alg.ATOMS[i].kind == 'fn' and (alg.ATOMS[i].name in ('nan', 'nat') or 'astype' in alg.ATOMS[i].name) for i in alg.atoms_of(v)) or v == 'NaT'

    def options():
        e = c.engine()
        PS, PE = rows(2)
        F, L = tsym('fpe', 'ts'), tsym('lps', 'ts')
        kw = dict(roll_conv=member(e, 'RollConv', 'PRECEDING'), day_roll=member(e, 'DayRoll', 'EOM'), first_period_end=F, last_period_start=L, first_stub=member(e, 'Stub', 'LONG'), last_stub=member(e, 'Stub', 'SHORT'))
        for flag in (False, True):
            o, got, C = sched(e, 'BaseSchedule', PS, PE, roll_user_specified_dates=flag, **kw)
            want = dict(kw, start_date=tsym('start', 'ts'), end_date=tsym('end', 'ts'), freq=member(e, 'PeriodFreq', 'QUARTERLY'), cal=C, roll_user_specified_dates=flag)
            for k, v in want.items():
                c.must(k in got and vals.same(got[k], v), 'option %s reaches make_schedule as %s' % (k, show(got.get(k))))
            c.eq(e.attr(o, 'start_date', None), PS.items[0] if flag else want['start_date'], label='start_date')
            c.eq(e.attr(o, 'end_date', None), PE.items[-1] if flag else want['end_date'], label='end_date')
            for nm, x in (('period_start', PS), ('period_end', PE)):
                c.eq(col(e, o, nm, 2), x, label=nm)
    c.obligation('options', 'every option of the schedule reaches its construction', options)

    def pay(conv, timing, delay, name):
        e = c.engine()
        PS, PE = series(e)
        o, got, C = sched(e, 'BaseSchedule', PS, PE, roll_conv=member(e, 'RollConv', conv))
        args = {'payment_timing': member(e, 'TimingConvention', timing), 'payment_delay': delay}
        if name:
            args['col_name'] = name
        e.call_method(o, 'add_payment_dates', [], args)
        D = PE if timing == 'IN_ARREARS' else PS
        r = ROLL[conv]
        spec = models.E['numpy.busday_offset'](e, [D, delay], {'roll': r or 'following', 'busdaycal': C}, None)
        x = col(e, o, name or 'payment_date')
        pc = vals.b_not(models._isnan_leaf(e, D))
        if r is None:
            spec = ite(eq0(delay), D, spec)
        c.eq(x, spec, pc=pc, label='payment date')
        for _, v in leaves(x, models._isnan_leaf(e, D)):
            c.must(missing(v), 'payment date of a row without a period is %s' % show(v))
    for conv in ROLL:
        for t in ('IN_ARREARS', 'IN_ADVANCE'):
            for dl in ('zero', 'any'):
                c.obligation('payment/%s/%s/%s' % (conv, t, dl), 'payments fall the delay in business days after the period start (in advance) or end (in arrears), rolled on the calendar',
                             lambda conv=conv, t=t, dl=dl: pay(conv, t, num(0) if dl == 'zero' else sym('delay', pos=False, arr=False), 'x' if dl == 'any' else None))

    def length_cols(order, basis):
        e = c.engine()
        PS, PE = series(e)
        e.overrides['frm.utils.schedule.day_count'] = e.overrides['frm.utils.daycount.day_count'] = summary('PB:day_count', ('start_date', 'end_date', 'day_count_basis'), None)
        e.overrides['frm.utils.schedule.year_frac'] = e.overrides['frm.utils.daycount.year_frac'] = summary('PB:year_frac', ('start_date', 'end_date', 'day_count_basis'), None)
        o, got, C = sched(e, 'BaseSchedule', PS, PE)
        for m in order:
            e.call_method(o, 'add_period_' + m, [member(e, 'DayCountBasis', basis)], {})
        B = member(e, 'DayCountBasis', basis)
        pc = b_and(vals.b_not(models._isnan_leaf(e, PS)), vals.b_not(models._isnan_leaf(e, PE)))
        for m, f in (('daycount', 'day_count'), ('yearfrac', 'year_frac')):
            if m in order:
                x = col(e, o, 'period_' + m)
                spec = e.call(e.get('frm.utils.daycount', f), [PS, PE, B], {})
                c.eq(x, spec, pc=pc, label='period_' + m)
                for who in (PS, PE):
                    for _, v in leaves(x, models._isnan_leaf(e, who)):
                        c.must(missing(v), 'period_%s of a row without a period is %s' % (m, show(v)))
        names = [k for k in frame(e, o).f if not k.startswith('@')]
        c.must(set(names) == {'period_start', 'period_end'} | {'period_' + m for m in order}, 'columns %s' % names)
    for order in (('daycount',), ('yearfrac',), ('daycount', 'yearfrac'), ('yearfrac', 'daycount'), ('daycount', 'daycount'), ('yearfrac', 'yearfrac', 'daycount'), ('daycount', 'yearfrac', 'daycount')):
        for basis in ('ACT_360', 'ACT_365', '_30E_360'):
            c.obligation('length/%s/%s' % ('+'.join(order), basis), 'day counts and year fractions are those of each period in the given basis', lambda order=order, basis=basis: length_cols(order, basis))

    def notional(ex, n, vector, delay, timing, initial, cls, conv='MODIFIED_FOLLOWING'):
        e = c.engine()
        e.exact_shapes = True
        PS, PE = rows(n)
        N = [sym('N%d' % i, pos=False, arr=False) for i in range(n)] if vector else [sym('N', pos=False, arr=False)] * n
        I0 = tsym('initial', 'ts') if initial else None
        if initial:
            vals.PRESENT.add(sid(I0))
        kw = dict(notional_amount=Tup(N) if vector else N[0], exchange_notionals=member(e, 'ExchangeNotionals', ex), notional_payment_delay=num(delay),
                  notional_payment_timing=member(e, 'TimingConvention', timing), initial_notional_exchange_date=I0, roll_conv=member(e, 'RollConv', conv))
        if cls == 'CouponSchedule':
            kw.update(coupon_payment_delay=num(3), coupon_payment_timing=member(e, 'TimingConvention', 'IN_ADVANCE'))
        o, got, C = sched(e, cls, PS, PE, **kw)
        pre = 1 if ex in ('START', 'BOTH') else 0
        roll = lambda xs, d: [models.E['numpy.busday_offset'](e, [x, num(d)], {'roll': ROLL[conv], 'busdaycal': C}, None) for x in xs]
        D = PE.items if timing == 'IN_ARREARS' else PS.items
        want = {'period_start': PS.items, 'period_end': PE.items, 'notional': N, 'notional_payment': [N[i] - N[i + 1] for i in range(n - 1)] + [N[-1] if ex in ('END', 'BOTH') else num(0)],
                'notional_payment_date': roll(D, delay)}
        if cls == 'CouponSchedule':
            want['coupon_payment_date'] = roll(PS.items, 3)
        first = {'notional': num(0), 'notional_payment': -N[0], 'notional_payment_date': I0 if initial else PS.items[0]}
        for nm, v in want.items():
            x = col(e, o, nm, n + pre)
            c.eq(Tup(x.items[pre:]), Tup(v), label=nm)
            if pre and nm in first:
                c.eq(x.items[0], first[nm], label=nm + ' of the initial exchange')
            elif pre:
                c.must(missing(x.items[0]), '%s of the initial exchange is %s' % (nm, show(x.items[0])))
        if cls == 'CouponSchedule':
            r = e.call_method(o, 'determine_valid_shapes_for_coupon_param', [], {})
            ix, sh = r.items
            c.eq(models.seq(e, ix), Tup([num(i) for i in range(pre, n + pre)]), label='rows with a coupon')
            c.eq(models.seq(e, sh), Tup([Tup([num(1)]), Tup([num(n)])]), label='shapes of a coupon parameter')
    k = 0
    for ex in ('NEITHER', 'START', 'END', 'BOTH'):
        for n in (1, 2, 3, 13, 26, 41):
            for vec in (False, True):
                for initial in ((False, True) if ex in ('START', 'BOTH') else (False,)):
                    k += 1
                    c.obligation('notional/%s/%d/%s%s' % (ex, n, 'vector' if vec else 'scalar', '/initial' if initial else ''), 'principal is paid out at the start, repaid at the end as asked, and amortised in between',
                                 lambda a=(ex, n, vec, (0, 2)[k % 2], ('IN_ARREARS', 'IN_ADVANCE')[k // 2 % 2], initial, ('NotionalSchedule', 'CouponSchedule')[n % 2]): notional(*a))

    def shape():
        for n, m in ((3, 2), (2, 3)):
            e = c.engine()
            e.exact_shapes = True
            PS, PE = rows(n)
            try:
                sched(e, 'NotionalSchedule', PS, PE, notional_amount=Tup([sym('N%d' % i, arr=False) for i in range(m)]))
            except Dead:
                continue
            raise Mismatch('%d notionals for %d periods are not rejected' % (m, n))
    c.obligation('notional/shape', 'a notional for each period or one for all', shape)
    return 60


def members(c, x):
    """(set of the dates in an index, sorted, free of duplicates)"""
    if isinstance(x, Tup):
        parts = [members(c, y) for y in x.items]
        return {k: v for p in parts for k, v in p[0].items()}, False, False
    a = None
    if isinstance(x, Expr) and len(x.t) == 1:
        (m, k), = x.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            a = alg.ATOMS[m[0][0]]
    nm = a.name.split(':')[-1].split('.')[-1] if a is not None and a.kind == 'fn' else None
    if nm in ('sort_values', 'drop_duplicates', 'unique', 'sort', 'union', 'append', 'concat', 'concatenate', 'tup') and not any(isinstance(y, str) for y in a.args):
        parts = [members(c, y) for y in a.args]
        out = {k: v for p in parts for k, v in p[0].items()}
        return out, nm in ('sort_values', 'unique', 'sort', 'union') or nm == 'drop_duplicates' and parts[0][1], nm in ('drop_duplicates', 'unique', 'union') or nm in ('sort_values', 'sort') and parts[0][2]
    c.need(isinstance(x, Expr), 'grid of %s' % show(x))
    return {x.key(): x}, False, False


def p25(c):
    FQ = {'1d': 'DAILY', '1w': 'WEEKLY', '1m': 'MONTHLY', '3m': 'QUARTERLY', '6m': 'SEMIANNUAL', '12m': 'ANNUAL'}

    def grid(fq, pv, last, after):
        e = c.engine()
        got = []

        def gen(eng, env):
            got.append(env)
            return Tup([eng.new_list([env['start_date'], tsym('g1', 'ts')]), eng.new_list([tsym('g1', 'ts'), env['end_date']])])
        e.overrides[SC + '.generate_date_schedule'] = gen
        V, D, G = tsym('val', 'ts'), tsym('deliv', 'dti'), tsym('pillars', 'dti')
        kw = dict(payments_on_value_date_have_value=pv, include_last_day_of_value=last, include_day_after_last_day_of_value=after)
        if fq is None:
            kw['date_grid_pillar'] = G
        else:
            kw['sampling_freq'] = fq
        r = e.call(e.get(SC, 'create_date_grid_for_fx_exposures'), [V, D], kw)
        day = sym('@day')
        uniq = e.models.E['numpy.unique'](e, [D], {}, None) if 'numpy.unique' in e.models.E else models.call_ext(e, 'numpy.unique', [D], {}, None)
        un = lambda x: alg.subst(x, {sid(uniq): D})
        last_ = models.call_ext(e, 'numpy.max', [D], {}, None)
        if fq is not None:
            c.must(len(got) >= 1 and all(same_member(g['freq'], FQ[fq]) for g in got), 'the grid does not have the sampling frequency')
            c.must(all(g['direction'] == 'forward' for g in got), 'the grid is not generated forward from the curve date')
            for g in got:
                c.eq(g['start_date'], V, label='start of the grid')
                c.eq(un(g['end_date']), last_, label='end of the grid')
        parts = leaves(r)
        c.need(any(x is not vals.UNDEF for _, x in parts), 'no grid')
        for lits, x in parts:
            c.must(x is not vals.UNDEF, 'the grid lacks dates where %s' % vals.show_lits(lits))
            s, srt, dd = members(c, x)
            c.must(srt, 'the grid is not sorted')
            c.must(dd, 'the grid has duplicates')
            s = {un(y).key(): un(y) for y in s.values()}
            want = [G] if fq is None else [V, tsym('g1', 'ts'), last_]
            if last:
                want.append(D if pv else D - day)
            if after:
                want.append(D + day if pv else D)
            w = {y.key(): y for y in want}
            for k in s:
                c.must(k in w, 'the grid has the dates %s' % show(s[k]))
            for k in w:
                c.must(k in s, 'the grid lacks the dates %s' % show(w[k]))
    for fq in (None, *FQ):
        for pv in (False, True):
            for last in (False, True):
                for after in (False, True):
                    if fq in (None, '1m') or (pv and last and not after):
                        c.obligation('grid/%s/%s%s%s' % (fq or 'pillars', 'value/' if pv else '', 'last' if last else '', 'after' if after else ''),
                                     'the grid is the sampled dates and the last days of value and the days after as asked, sorted and unique', lambda a=(fq, pv, last, after): grid(*a))

    def reject():
        for kw in ({}, {'sampling_freq': '2m'}):
            e = c.engine()
            try:
                e.call(e.get(SC, 'create_date_grid_for_fx_exposures'), [tsym('val', 'ts'), tsym('deliv', 'dti')], kw)
            except Dead:
                continue
            raise Mismatch('%s is not rejected' % (kw or 'a grid without frequency or pillars'))
    c.obligation('reject', 'an unknown frequency, or none, is rejected', reject)
    return 15
