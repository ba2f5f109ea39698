"""P13: Hull-White one-factor model"""
from checks.curve import *
from fsa import interp
from checks.mc import recurrence, span, row0, atom_of, progression

HW = 'frm.pricing_engine.hw1f'
CL = HW + '.HullWhite1Factor'


class Model:
    def __init__(self, c, post=False, pos=True, override=(), years=None):
        e = self.e = c.engine()
        e.overrides[ZC + '.ZeroCurve.__post_init__'] = lambda eng, env: None
        op = lambda tag, pos=False: (lambda eng, env: eng.opaque(tag, env['years'], arr=None, pos=pos))
        e.overrides[ZC + '.ZeroCurve.get_discount_factors'] = lambda eng, env: eng.opaque('DF', env['years'], arr=None, pos=True) if env.get('dates') is None and env.get('days') is None else NotImplemented
        e.overrides[ZC + '.ZeroCurve.get_instantaneous_forward_rate'] = op('FW')
        e.overrides[ZC + '.ZeroCurve.get_zero_rates'] = lambda eng, env: eng.opaque('ZR', env['years'], env['compounding_freq'], arr=None)
        self.al, self.si = P('alpha'), P('sigma')
        self.r0 = sym('r0', pos=False)
        self.sp = sym('theta_spline', pos=False, arr=True)
        if not post:
            def pi(eng, env):
                eng.set_attr(env['self'], 'r0', self.r0, None)
                eng.set_attr(env['self'], 'theta_spline', self.sp, None)
            e.overrides[CL + '.__post_init__'] = pi
        self.years, self.cczr = sym('pillar_years', arr=True, nonneg=True, pos=False) if years is None else Tup(years), sym('pillar_cczr', arr=True, pos=False)
        self.curve = e.call(e.get(ZC, 'ZeroCurve'), [], dict(curve_date=tsym('curve_date', 'ts'), pillar_df=e.new_df({'years': self.years, 'cczr': self.cczr}),
                            interp_method=member(e, 'ZeroCurveInterpMethod', 'CUBIC_SPLINE_ON_LN_DISCOUNT')))
        self.dt = P('dt')
        self.m = e.call(e.get(HW, 'HullWhite1Factor'), [], dict(zero_curve=self.curve, mean_rev_lvl=self.al, vol=self.si, dt=self.dt))

    def call(self, name, **kw):
        return self.e.call_method(self.m, name, [], kw)

    def DF(self, t):
        return self.e.opaque('DF', t, arr=None, pos=True)

    def FW(self, t):
        return self.e.opaque('FW', t, arr=None)

    def B(self, t, T):
        return (one - exp(-self.al * (T - t))) / self.al


PX = CL + '.price_zero_coupon_bond_option'
O1 = CL + '.calc_discount_factor_by_solving_ode_1'
from fractions import Fraction
HALF_ = num(Fraction(1, 2))


def cdf(x):
    return fn('cdf', (x,), arr=alg.is_arr(x))


def zbo_ref(m, T, S, K, cp):
    v = m.si * sqrt((one - exp(num(-2) * m.al * T)) / (num(2) * m.al)) * m.B(T, S)
    h = log(m.DF(S) / (K * m.DF(T))) / v + HALF_ * v
    N = models.E['scipy.stats.norm.cdf']
    n = lambda x: N(m.e, [x], {}, None)
    return cp * (m.DF(S) * n(cp * h) - K * m.DF(T) * n(cp * (h - v)))


def p13(c):
    def mk(**kw):
        m = Model(c, **kw)
        m.e.overrides[CL + '.calc_b'] = lambda eng, env: vals.apply(m.B, env['t1'], env['t2'])
        return m

    def theta():
        for arr in (True, False):
            m = Model(c)
            t = sym('t' if arr else 't0', arr=arr, nonneg=True, pos=False)
            got = m.call('get_thetas', years=t)
            spec = (m.FW(t + m.dt) - m.FW(t - m.dt)) / (num(2) * m.dt) + m.al * m.FW(t) + m.si ** 2 / (num(2) * m.al) * (one - exp(num(-2) * m.al * t))
            c.eq(got, spec, label='theta')
    c.obligation('theta', 'theta(t) = f\'(t) + a f(t) + sigma^2/(2a) (1 - exp(-2at)) with a central difference for the slope', theta)

    def b():
        m = Model(c)
        t, d = NN('t'), P('d')
        got = m.call('calc_b', t1=t, t2=t + d)
        c.eq(got, m.B(t, t + d), pc=b_not(lt0(m.al - num(Fraction(1, 10 ** 6)))), label='b(t, T)')
        c.eq(got, d, pc=lt0(m.al - num(Fraction(1, 10 ** 12))), label='b(t, T) without mean reversion')
    c.obligation('b', 'b(t, T) = (1 - exp(-a (T - t)))/a', b)

    def ode(n):
        m = mk()
        e = m.e
        for now in (False, True):
            t = num(0) if now else P('t')
            T = t + P('d')
            r = sym('r', pos=False)
            got = m.call('calc_discount_factor_by_solving_ode_%d' % n, **dict(dict(t1=t, t2=T), **({} if now else {'r_t1': r})))
            r = m.r0 if now else r
            B = m.B(t, T)
            if n == 2:
                spec = m.DF(T) / m.DF(t) * exp(B * m.FW(t) - m.si ** 2 / (num(4) * m.al) * (one - exp(num(-2) * m.al * t)) * B ** 2) * exp(-B * r)
                c.eq(got, spec, label='zero-coupon bond price')
            else:
                quad = lambda f: e.models.E['scipy.integrate.quad'](e, [interp.PyFn(lambda e2, aa, kk, nd: f(aa[0]), 'integrand'), t, T], {}, None).items[0]
                i1 = quad(lambda s: m.B(s, T) ** 2)
                i2 = quad(lambda s: fn('splev', (s, m.sp, num(0)), arr=False) * m.B(s, T))
                c.eq(got, exp(HALF_ * m.si ** 2 * i1 - i2 - r * B), label='zero-coupon bond price')
        for t1, t2 in ((P('t') + P('d'), P('t')), (P('t'), P('t'))):
            m = mk()
            try:
                m.call('calc_discount_factor_by_solving_ode_%d' % n, t1=t1, t2=t2, r_t1=sym('r', pos=False))
            except Dead:
                continue
            raise Mismatch('a maturity not after the valuation time is not rejected')
    c.obligation('bond/theta', 'bond price exp(a - b r) with a from the theta spline', lambda: ode(1))
    c.obligation('bond/curve', 'bond price from the initial curve (Brigo-Mercurio 3.39)', lambda: ode(2))

    def zbo(arr, cpv, case):
        m = mk()
        T = sym('T', arr=arr)
        d = sym('d', arr=arr)
        K = sym('K', arr=arr)
        S = T + d
        if case == 'expired':
            T, S = num(0), d
        elif case == 'reversed':
            T, S = S, T
        elif case == 'same':
            S = T
        got = m.call('price_zero_coupon_bond_option', expiry_years=T, maturity_years=S, K=K, cp=num(cpv))
        if isinstance(got, Tup) and len(got.items) == 1:
            got = got.items[0]
        cp = num(cpv)
        spec = zbo_ref(m, T, S, K, cp) if case == 'live' else num(0) if case == 'reversed' else alg.maximum(cp * (m.DF(S) - K * m.DF(T)), num(0))
        v = m.si * sqrt((one - exp(num(-2) * m.al * T)) / (num(2) * m.al)) * m.B(T, S)
        c.eq(got, spec, label='bond option', pc=gt0(v) if case == 'live' else None)
    for case in ('live', 'expired', 'reversed', 'same'):
        for cpv in (1, -1):
            for arr in (True, False):
                c.obligation('bond-option/%s/%s/%s' % (case, cpv, 'arrays' if arr else 'scalars'), 'zero-coupon bond option (Brigo-Mercurio 3.40/3.41), its intrinsic value without variance, nothing after maturity', lambda a=arr, b=cpv, d=case: zbo(a, b, d))

    def optl(cpv):
        m = Model(c)
        m.e.overrides[PX] = summary('ZBO', ['expiry_years', 'maturity_years', 'K', 'cp', 't0'])
        T, S, K = P('T'), P('T') + P('d'), P('K')
        got = m.call('price_optionlet', effective_years=T, termination_years=S, K=K, cp=num(cpv))
        k = one / (one + K * (S - T))
        c.eq(got, m.e.opaque('ZBO', T, S, k, num(-cpv), num(0), arr=True) / k, label='optionlet')
    for cpv in (1, -1):
        c.obligation('optionlet/%d' % cpv, 'a caplet is 1 + K tau puts on the bond struck at 1/(1 + K tau), a floorlet the calls', lambda x=cpv: optl(x))

    def caps():
        m = Model(c)
        e = m.e
        e.exact_shapes = True
        row = lambda x, i: (x.items[i if len(x.items) > 1 else 0] if isinstance(x, Tup) else x)
        names = ['expiry_years', 'maturity_years', 'K', 'cp', 't0']
        px = lambda env, i: e.opaque('ZBO', *[row(env[n], i) for n in names], arr=False)
        e.overrides[PX] = lambda eng, env: Tup([px(env, i) for i in range(max(len(env[n].items) if isinstance(env[n], Tup) else 1 for n in names))])
        T, d, K, cps = [P('T%d' % i) for i in (0, 1, 2)], [P('d%d' % i) for i in (0, 1, 2)], [P('K%d' % i) for i in (0, 1, 2)], [num(1), num(-1), num(1)]
        got = c.items(e, m.call('price_optionlet', effective_years=Tup(T), termination_years=Tup([a + b for a, b in zip(T, d)]), K=Tup(K), cp=Tup(cps)))
        c.need(got is not None and len(got) == 3, 'one price per optionlet')
        for i in range(3):
            k = one / (one + K[i] * d[i])
            c.eq(got[i], e.opaque('ZBO', T[i], T[i] + d[i], k, -cps[i], num(0), arr=False) / k, label='optionlet %d of several' % i)
    c.obligation('optionlet/several', 'each of several caplets and floorlets has its own price', caps)

    def swpt(payer):
        m = Model(c)
        e = m.e
        e.overrides[PX] = summary('ZBO', ['expiry_years', 'maturity_years', 'K', 'cp', 't0'])
        e.overrides[O1] = summary('PB', ['t1', 't2', 'r_t1'], arr=None, pos=True)
        T, y, T0, TN, cc, N = sym('times', arr=True, vec=True), sym('accr', arr=True, vec=True), P('T0'), P('TN'), P('c'), P('N')
        got = m.call('price_swaption', swaption_expiry=T0, coupon_payment_times=T, coupon_year_fractions=y, notional_payment_time=TN, fixed_rate=cc, is_payer=payer, notional=N)
        c.need(len(e.solvers) == 1, '%d root searches' % len(e.solvers))
        s = e.solvers[0]
        Pb = lambda t, r: e.opaque('PB', T0, t, r, arr=None, pos=True)
        x = s['at']
        c.eq(s['body'], Pb(TN, x) + cc * c.total(y * Pb(T, x)) - one, label='value of the underlying fixed leg less par')
        br = c.items(e, s['args']['bracket']) if s['args'].get('bracket') is not None else [s['args'].get('a'), s['args'].get('b')]
        if all(isinstance(z, Expr) and z.is_const() for z in br):
            c.must(br[0].const() <= Fraction(-1, 10) and br[1].const() >= Fraction(1, 2), 'the par short rate is only looked for between %s and %s' % (br[0].const(), br[1].const()))
        for n in ('xtol', 'rtol', 'tol'):
            z = s['args'].get(n)
            if isinstance(z, Expr) and z.is_const():
                c.must(z.const() <= Fraction(1, 10 ** 6), 'the par short rate is only found to %s' % show(z))
        r = s['result']
        cp = num(-1 if payer else 1)
        Z = lambda t, k: e.opaque('ZBO', T0, t, k, cp, num(0), arr=True)
        last = e.models.index(e, T, num(-1), None)
        full = lambda zn: N * (cc * c.total(y * Z(T, Pb(T, r))) + zn)

        def same_last(a, b, lits):
            # the notional is paid with the last coupon: its strike is that of the last coupon
            return isinstance(a, Expr) and any(equal(a, full(z)) for z in notional(Pb(last, r))) and 2 == sum(not b and vals.CONDS[i][0] == 'neg' and equal(vals.CONDS[i][1], v) for i, b in lits.items() for v in (TN - last, last - TN))

        def notional(k):
            return [Z(TN, k), e.models.index(e, Z(TN, k), num(0), None), fn('sel', (Z(TN, k), num(0)), arr=True)]
        c.eq(got, full(notional(Pb(TN, r))[1]), label='swaption', cmp=lambda a, b, lits: same_last(a, b, lits) or isinstance(a, Expr) and any(equal(a, full(z)) for z in notional(Pb(TN, r))))
    for payer in (True, False):
        c.obligation('swaption/%s' % ('payer' if payer else 'receiver'), 'Jamshidian: the coupon-weighted bond options at the strikes where the fixed leg is at par', lambda p=payer: swpt(p))

    def r0():
        m = Model(c, post=True)
        e = m.e
        T0 = fn('min', (m.years,), arr=False)
        first = e.models.index(e, m.years, num(0), None)             # the pillars are in order of time
        r = e.attr(m.m, 'r0', None)
        mp = {min(alg.atoms_of(first)): T0} if atom_of(first) is not None else {}
        r = e.subst_val(r, mp)
        c.eq(r, e.opaque('ZR', num(Fraction(1, 10 ** 8)), member(e, 'CompoundingFreq', 'CONTINUOUS'), arr=None), pc=gt0(T0), label='initial short rate')
        c.eq(r, e.models.index(e, m.cczr, num(0), None), pc=b_not(gt0(T0)), label='initial short rate', skip=lambda l: any(vals.CONDS[i] == ('neg', T0) or vals.CONDS[i][0] == 'neg' and equal(vals.CONDS[i][1], T0) and b for i, b in l.items()))
    c.obligation('r0', 'the initial short rate is the continuous zero rate at time 0', r0)

    def fit():
        m = Model(c)
        e = m.e
        seen = []
        st = lambda: tuple(vals.vkey(e.attr(m.m, a, None)) for a in ('dt', 'num'))
        e.overrides[CL + '.setup_theta'] = lambda eng, env: seen.append(st())
        e.overrides[CL + '.calc_error_for_theta_fit'] = lambda eng, env: eng.opaque('ERR', eng.attr(m.m, 'dt', None), eng.attr(m.m, 'num', None))
        m.call('fit_theta', dts=Tup([P('dt1')]), nums=Tup([P('n1'), P('n2')]))
        c.must(seen and seen[-1] == st(), 'the theta spline is not set up again with the chosen setting')
        d, ns = P('dt1'), [P('n1'), P('n2')]
        err = [e.opaque('ERR', d, q) for q in ns]
        c.eq(e.attr(m.m, 'dt', None), d, label='chosen time step')
        for q, other, r, z in ((ns[0], ns[1], err[0], err[1]), (ns[1], ns[0], err[1], err[0])):
            c.eq(e.attr(m.m, 'num', None), q, pc=lt0(r - z), label='chosen granularity', skip=lambda lits: any(vals.CONDS[i][0] == 'neg' and (equal(vals.CONDS[i][1], z - r) and b) for i, b in lits.items()))
    c.obligation('fit', 'the fitted setting is the one with the least error, which the theta spline is set up with', fit)

    def fiterr():
        m = Model(c)
        e = m.e
        e.overrides[O1] = summary('BOND', ['t1', 't2', 'r_t1'], arr=None, pos=True)
        got = m.call('calc_error_for_theta_fit')
        y, z = m.years, m.cczr
        mean = models.E['numpy.mean']
        diffs = z + log(e.opaque('BOND', num(0), y, None, arr=None, pos=True)) / y
        ref = num(10000) * sqrt(mean(e, [diffs * diffs], {}, None))
        c.eq(got, ref, pc=gt0(y), label='fit error')
    c.obligation('fit/error', 'the error of a fit is the root mean square difference, in basis points, of the pillar zero rates recalculated from bonds', fiterr)

    def thsp():
        m = Model(c)
        e = m.e
        e.overrides[CL + '.get_thetas'] = summary('TH', ['years'], arr=None)
        g = sym('grid', arr=True)
        m.call('setup_theta', years_grid=g)
        c.eq(e.attr(m.m, 'theta_spline', None), fn('spline', (g, e.opaque('TH', g, arr=None), num(3)), arr=True), label='theta spline')
    c.obligation('spline', 'the theta spline interpolates theta on its grid', thsp)

    def integral():
        m = Model(c)
        e = m.e
        t, T = sym('t', arr=False, nonneg=True, pos=False), P('T')
        ref = models.E['scipy.integrate.quad'](e, [interp.PyFn(lambda e2, aa, kk, nd: m.FW(aa[0]), 'integrand'), t, T], {}, None).items[0]
        c.eq(m.call('get_forward_rate_by_integration', t=t, T=T), ref, label='integral of the forward rate')
    c.obligation('integral', 'the integrated forward rate is the integral of the instantaneous forward rate between the times', integral)

    def grid(given):
        m = Model(c, years=[P('y%d' % i) for i in range(3)])
        e = m.e
        e.exact_shapes = True
        e.overrides[CL + '.get_thetas'] = summary('TH', ['years'], arr=None)
        n = P('num_points') if given else m.e.attr(m.m, 'num', None)
        m.call('setup_theta', **(dict(num=n) if given else {}))
        space = models.E['numpy.linspace']
        ps = [space(e, [P('y%d' % i), P('y%d' % (i + 1))], dict(num=n, endpoint=False), None) for i in range(2)]
        g = concat(e, *ps)
        c.eq(e.attr(m.m, 'theta_spline', None), fn('spline', (g, e.opaque('TH', g, arr=None), num(3)), arr=True), label='theta spline')
    for given in (True, False):
        c.obligation('grid/%s' % ('given' if given else 'own'), 'theta is sampled at the same number of equally spaced times from each pillar to the next', lambda given=given: grid(given))
    return 24


def p21(c):
    def sim(meth):
        m = Model(c)
        e = m.e
        e.overrides['frm.pricing_engine.monte_carlo_generic.generate_rand_nbs'] = summary('RAND', ['nb_steps', 'nb_rand_vars', 'nb_simulations', 'apply_antithetic_variates', 'random_seed'])
        e.overrides[CL + '.get_thetas'] = summary('TH', ['years'], arr=None)
        tau, n, N = P('tau'), P('n'), P('N')
        anti, seed = sym('anti', pos=False), P('seed')
        got = m.call('simulate', tau=tau, nb_steps=n, nb_simulations=N, flag_apply_antithetic_variates=anti, random_seed=seed, method=meth)
        res = {k[2]: v[1] for k, v in e.rec(got).f.items()}
        h = tau / n
        grid = res['years_grid']
        pr = progression(grid)
        c.need(pr is not None, 'time grid %s' % show(grid))
        c.must(not pr[0].t and equal(pr[1], h) and equal(pr[2], n + one), 'time grid starts at %s, step %s, %s points' % tuple(show(q) for q in pr))
        R = res['R']
        init, v, prev, w, lp, rest, sh = recurrence(c, R, 'short rate')
        row0(c, init, m.r0, 'short rate')
        a, b = span(c, lp, sh)
        c.must(equal(a, one) and equal(b, n), 'steps fill rows %s to %s of the simulated rates' % (show(a), show(b)))
        th = e.opaque('TH', grid, arr=None)
        thw = e.models.index(e, th, w - one, None)
        rn = e.opaque('RAND', n, one, N, anti, seed, arr=True)
        dr = {}
        for x in alg.deep_atoms(v):
            A = alg.ATOMS[x]
            if A.name == 'sel' and isinstance(A.args[0], Expr) and equal(A.args[0], rn) and len(A.args) == 3 and isinstance(A.args[2], Expr) and not A.args[2].t:
                dr[x] = fn('sel', A.args[:2], arr=True)
        v = e.subst_val(v, dr)
        z = e.models.index(e, rn, w - one, None)
        drift = lambda x: thw - m.al * x
        if meth == 'euler':
            spec = prev + drift(prev) * h + m.si * sqrt(h) * z
        elif meth == 'rk4':
            k1 = h * drift(prev)
            k2 = h * drift(prev + k1 / num(2))
            k3 = h * drift(prev + k2 / num(2))
            k4 = h * drift(prev + k3)
            spec = prev + (k1 + num(2) * k2 + num(2) * k3 + k4) / num(6) + m.si * sqrt(h) * z
        else:
            t0, t1 = e.models.index(e, grid, w - one, None), e.models.index(e, grid, w, None)
            f = lambda s: fn('interp', (s, grid, th), arr=False) * exp(-m.al * (t1 - s))
            q = e.models.E['scipy.integrate.quad'](e, [interp.PyFn(lambda e2, aa, kk, nd: f(aa[0]), 'integrand'), t0, t1], {}, None).items[0]
            spec = prev * exp(-m.al * h) + q + sqrt(m.si ** 2 / (num(2) * m.al) * (one - exp(num(-2) * m.al * h))) * z
        c.eq(v, spec, label='%s step of the short rate' % meth)
        # discount factors along the path
        D = res['sim_dsc_factor']
        steps = [x for x in D.writes if x[2] is not None]
        c.need(len(steps) == 1, 'discount factors are not accumulated in one loop')
        lp = steps[0][2]
        row = steps[0][0][0]
        RR = lambda i: e.models.index(e, R, i, None)
        half = h / num(2)
        first = {int(x[0][0].const()): x[1] for x in D.writes if x[2] is None and isinstance(x[0][0], Expr) and x[0][0].is_const()}
        c.must(0 in first, 'the discount factor at time 0 is never set')
        c.eq(first[0], one, label='discount factor at time 0')
        start, end = span(c, lp, int((row - lp.var).const()))
        c.must(equal(end, n), 'discount factors are filled up to step %s of %s' % (show(end), show(n)))
        for j in range(1, int(start.const())):
            c.must(j in first, 'discount factor of step %d is never set' % j)
            c.eq(first[j], exp(-half * sum((RR(num(i - 1)) + RR(num(i)) for i in range(1, j + 1)), num(0))), label='discount factor of step %d' % j)
        # induction: D = exp(-I) on the rows set before the loop and by each iteration
        inv = {}
        for nm, (i0, s, nxt) in lp.state.items():
            if isinstance(s, Expr) and isinstance(i0, ArrW):
                inv[nm] = (s, i0, [x for x in nxt.writes] if isinstance(nxt, ArrW) else [])
        Dp = P('@Dprev')

        def back(x):
            mp = {}
            for k in alg.deep_atoms(x):
                A = alg.ATOMS[k]
                if A.name == 'sel' and isinstance(A.args[0], Expr) and len(A.args) == 2:
                    for nm, (s, i0, ws) in inv.items():
                        if equal(A.args[0], s):
                            c.must(isinstance(A.args[1], Expr) and equal(A.args[1], row - one), 'the discount factor of a step is accumulated from row %s' % show(A.args[1]))
                            i1 = e.models.index(e, i0, start - one, None)
                            if isinstance(i1, Expr) and equal(i1, first[int(start.const()) - 1]):
                                mp[k] = Dp
                            elif isinstance(i1, Expr) and equal(exp(-i1), first[int(start.const()) - 1]):
                                mp[k] = -log(Dp)
                            else:
                                raise Undecided('state of the discounting loop: %s' % show(i1))
            return subst(x, mp)
        spec = Dp * exp(-half * (RR(row - one) + RR(row)))
        c.eq(back(steps[0][1]), spec, label='discount factor of a step from the preceding one')
        for nm, (s, i0, ws) in inv.items():
            for ix, val, _ in ws:
                got_ = back(val)
                c.must(equal(got_, spec) or equal(exp(-got_), spec), 'accumulated integral of the short rate: %s' % show(got_))
        c.eq(res['sim_cczr'], -log(e.num_leaf(D)) / grid, label='simulated zero rates')
        av = e.rec(res['averages_df']).f
        mean = e.models.E['numpy.mean'](e, [e.num_leaf(D)], {'axis': one}, None)
        c.eq(av['years'], grid, label='times of the averages')
        c.eq(av['discount_factor'], mean, label='average discount factor')
        c.eq(av['cczr'], -log(mean) / grid, label='zero rate of the average discount factor')
    for meth in ('euler', 'rk4', 'exact'):
        c.obligation('simulate/' + meth, 'each simulated rate follows the scheme from the preceding one, discount factors accumulate the rates, averages are over the simulations', lambda meth=meth: sim(meth))

    def bad():
        m = Model(c)
        try:
            m.call('simulate', tau=P('tau'), nb_steps=P('n'), method='other')
        except Dead:
            return
        raise Mismatch('an unknown simulation method is not rejected')
    c.obligation('simulate/unknown', 'an unknown simulation method is rejected', bad)
    return 4
