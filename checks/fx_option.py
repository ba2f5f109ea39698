"""P01-P03, P05 (FX part): Garman-Kohlhagen pricing, greeks, strike from delta, implied volatility."""
from fsa.spec import *
from fsa.chk import ANY, show
from fsa.interp import Tup, PyFn

M = 'frm.pricing_engine.garman_kohlhagen'


def world(t='tau'):
    d = dict(S0=sym('S0', arr=True), tau=sym('tau', arr=True) if t == 'tau' else sym('tau0', pos=False, nonneg=True, arr=True),
             r_d=sym('r_d', pos=False, arr=True), r_f=sym('r_f', pos=False, arr=True), cp=sym('cp', sq1=True, arr=True),
             K=sym('K', arr=True), vol=sym('vol', arr=True))
    return d


def run(c, d, **kw):
    e = c.engine()
    f = e.get(M, 'garman_kohlhagen_price')
    r = e.call(f, [], dict(d, **kw))
    return e, r


def item(e, r, k, c):
    rec = e.rec(r)
    for kk, v in rec.f.values():
        if kk == k:
            return v
    c.need(False, 'result has no entry %r' % k)


def spec_rate(d, F):
    """domestic rate used: market forward, when given, implies it"""
    if F is None:
        return d['r_d']
    return (log(F) - log(d['S0'])) / d['tau'] + d['r_f']


def p01(c):
    for withF in (False, True):
        tag = 'forward-given' if withF else 'spot-carry'

        def base(d):
            return dict(F=sym('F', arr=True)) if withF else {}

        def price_pos():
            d = world()
            e, r = run(c, d, **base(d))
            rd = spec_rate(d, base(d).get('F'))
            c.eq(item(e, r, 'price', c), gk(d['S0'], d['K'], d['vol'], d['tau'], rd, d['r_f'], d['cp']), label='option price with time to expiry > 0')
        c.obligation('price/%s' % tag, 'value equals the Garman-Kohlhagen closed form', price_pos)

        def parity():
            d = world()
            x = {}
            for s in (1, -1):
                e, r = run(c, dict(d, cp=num(s)), **base(d))
                x[s] = item(e, r, 'price', c)
            rd = spec_rate(d, base(d).get('F'))
            got = vals.apply(lambda a, b: a - b, x[1], x[-1])
            c.eq(got, d['S0'] * exp(-d['r_f'] * d['tau']) - d['K'] * exp(-rd * d['tau']), label='call minus put')
        c.obligation('parity/%s' % tag, 'call - put = discounted forward - discounted strike', parity)

        def split():
            d = world()
            e, r = run(c, d, intrinsic_time_split=True, **base(d))
            rd = spec_rate(d, base(d).get('F'))
            i = pos_part(d['cp'] * (d['S0'] * exp(-d['r_f'] * d['tau']) - d['K'] * exp(-rd * d['tau'])))
            c.eq(item(e, r, 'intrinsic', c), i, label='intrinsic value')
            tot = vals.apply(lambda a, b: a + b, item(e, r, 'intrinsic', c), item(e, r, 'time', c))
            c.eq(tot, item(e, r, 'price', c), label='intrinsic + time value')
            c.eq(item(e, r, 'price', c), gk(d['S0'], d['K'], d['vol'], d['tau'], rd, d['r_f'], d['cp']), label='price when the split is requested')
        c.obligation('split/%s' % tag, 'intrinsic is the discounted forward payoff; intrinsic + time = price', split)

    def expiry():
        d = world('tau0')
        e, r = run(c, d, intrinsic_time_split=True)
        t0 = vals.b_not(gt0(d['tau']))
        pay = pos_part(d['cp'] * (d['S0'] - d['K']))
        c.eq(item(e, r, 'price', c), pay, pc=t0, label='price at expiry')
        c.eq(item(e, r, 'intrinsic', c), pay, pc=t0, label='intrinsic at expiry')
        c.eq(item(e, r, 'time', c), num(0), pc=t0, label='time value at expiry')
        pos = gt0(d['tau'])
        rd = d['r_d']
        c.eq(item(e, r, 'price', c), gk(d['S0'], d['K'], d['vol'], d['tau'], rd, d['r_f'], d['cp']), pc=pos, label='price before expiry')
    c.obligation('expiry/spot-carry', 'at expiry the value is the undiscounted payoff, all intrinsic', expiry)

    def expiryF():
        d = world('tau0')
        d = dict(d, tau=num(0))
        e, r = run(c, d, F=sym('F', arr=True), intrinsic_time_split=True)
        pay = pos_part(d['cp'] * (d['S0'] - d['K']))
        c.eq(item(e, r, 'price', c), pay, label='price at expiry (forward given)')
    c.obligation('expiry/forward-given', 'at expiry the value is the undiscounted payoff', expiryF)

    def flags():
        d = world()
        e, r = run(c, d)
        base = item(e, r, 'price', c)
        for k in ('analytical_greeks', 'intrinsic_time_split', 'numerical_greeks'):
            e, r = run(c, d, **{k: True})
            c.eq(item(e, r, 'price', c), base, label='price with %s' % k)
    c.obligation('flags', 'requesting greeks or the split does not change the price', flags)
    return 8


def greek(e, r, table, name, c):
    t = item(e, r, table, c)
    rec = e.rec(t)
    c.need(name in rec.f, 'no column %r in %s' % (name, table))
    return rec.f[name]


def p02(c):
    YEAR = num(Fr(36525, 100))
    for withF in (False, True):
        tag = 'forward-given' if withF else 'spot-carry'
        names = ['spot_delta', 'forward_delta', 'vega', 'gamma', 'theta', 'rho']

        def mk(name):
            def go():
                d = world()
                kw = dict(F=sym('F', arr=True)) if withF else {}
                e, r = run(c, d, analytical_greeks=True, **kw)
                got = greek(e, r, 'analytical_greeks', name, c)
                rd = sym('rr', pos=False)
                S, K, s, t, rf, cp = (d[k] for k in ('S0', 'K', 'vol', 'tau', 'r_f', 'cp'))
                X = gk(S, K, s, t, rd, rf, cp)
                if name == 'spot_delta':
                    spec = diff(X, S)
                elif name == 'forward_delta':
                    spec = diff(X, S) * exp(rf * t)
                elif name == 'vega':
                    spec = diff(X, s) * num(Fr(1, 100))
                elif name == 'gamma':
                    spec = diff(diff(X, S), S) * S * num(Fr(1, 100))
                elif name == 'theta':
                    spec = -diff(X, t) / YEAR
                else:
                    spec = diff(X, rd) * num(Fr(1, 100))
                spec = subst(spec, {sid(rd): spec_rate(d, kw.get('F'))})
                c.eq(got, spec, label='analytical %s' % name)
            c.obligation('analytical/%s/%s' % (name, tag), 'greek equals the scaled partial derivative of the price formula', go)
        for n in names:
            mk(n)

        def mkn(name):
            def go():
                d = world()
                kw = dict(F=sym('F', arr=True)) if withF else {}
                e, r = run(c, d, numerical_greeks=True, **kw)
                got = greek(e, r, 'numerical_greeks', name, c)
                S, K, s, t, rf, cp = (d[k] for k in ('S0', 'K', 'vol', 'tau', 'r_f', 'cp'))
                F = kw.get('F')

                def X(S=S, s=s, t=t, F=F, bump=num(0)):
                    if F is None:
                        rd = d['r_d'] + bump
                    else:
                        rd = (log(F) - log(S)) / t + rf + bump
                    return gk(S, K, s, t, rd, rf, cp)
                h = num(Fr(1, 100))
                up, dn = num(1) + h, num(1) - h
                fb = lambda x: None if F is None else F * x
                if name == 'spot_delta':
                    spec = (X(S=S * up, F=fb(up)) - X(S=S * dn, F=fb(dn))) / (num(2) * S * h)
                elif name == 'forward_delta':
                    spec = (X(S=S * up, F=fb(up)) - X(S=S * dn, F=fb(dn))) / (num(2) * S * h) * exp(rf * t)
                elif name == 'vega':
                    spec = (X(s=s + h) - X(s=s - h)) / num(2)
                elif name == 'theta':
                    day = num(1) / YEAR
                    spec = (X(t=t - day) - X(t=t + day)) / num(2)
                elif name == 'gamma':
                    def dl(x):
                        S1 = S * x
                        rr = sym('rr', pos=False)
                        dd = diff(gk(S, K, s, t, rr, rf, cp), S)
                        rd = d['r_d'] if F is None else (log(F * x) - log(S1)) / t + rf
                        return subst(dd, {sid(rr): rd, sid(S): S1})
                    spec = (dl(up) - dl(dn)) / num(2)
                else:
                    spec = (X(bump=h) - X(bump=-h)) / num(2)
                # the one-day theta bump needs more than one day to expiry
                c.eq(got, spec, pc=gt0(t - num(1) / YEAR) if name == 'theta' else True, label='numerical %s' % name)
            c.obligation('numerical/%s/%s' % (name, tag), 'bumped greek is the symmetric difference of the price in the bumped variable alone', go)
        for n in names:
            mkn(n)
    return 24


SF = 'garman_kohlhagen_solve_strike_from_delta'


def p03(c):
    def setup(conv, atm, F, delta=None, **over):
        e = c.engine()
        f = e.get(M, SF)
        d = dict(S0=sym('S0'), tau=sym('tau'), r_d=sym('r_d', pos=False), r_f=sym('r_f', pos=False), vol=sym('vol', arr=True),
                 signed_delta=delta if delta is not None else sym('delta', pos=False, arr=True))
        d.update(over)
        kw = {}
        if F:
            d['F'] = sym('F')
        if atm is not None:
            kw['atm_delta_convention'] = atm
        r = e.call(f, [], dict(d, delta_convention=conv, **kw))
        F_ = d.get('F') or d['S0'] * exp((d['r_d'] - d['r_f']) * d['tau'])
        return e, r, d, F_

    n = 0
    for withF in (False, True):
        ft = 'forward-given' if withF else 'spot-carry'
        for conv in ('regular_spot', 'regular_forward'):
            for atm in (None, 'forward', 'per_delta_convention'):
                for s in (1, -1):
                    def go(conv=conv, atm=atm, s=s, withF=withF):
                        dl = sym('absdelta', arr=True)
                        e, r, d, F = setup(conv, atm, withF, delta=dl * s)
                        # delta of the returned strike, inverted in closed form
                        q = dl * exp(d['r_f'] * d['tau']) if conv == 'regular_spot' else dl
                        K = F * exp(num(-s) * ppf(q) * d['vol'] * sqrt(d['tau']) + HALF * d['vol'] ** 2 * d['tau'])
                        half = vals.b_not(vals.b_or(lt0(dl - HALF), gt0(dl - HALF)))
                        if atm == 'per_delta_convention':
                            spec = K
                        else:
                            spec = ite(half, F * exp(HALF * d['vol'] ** 2 * d['tau']), K)
                        c.eq(r, spec, pc=lt0(dl - HALF) if False else vals.b_not(gt0(dl - HALF)), label='strike for a %s delta' % conv)
                        # round trip through the option delta
                        d2 = dict(S0=d['S0'], tau=d['tau'], r_d=d['r_d'], r_f=d['r_f'], cp=num(s), vol=d['vol'])
                        if withF:
                            d2['F'] = d['F']
                        Ksym = sym('Kq', arr=True)
                        e2, r2 = run(c, dict(d2, K=Ksym), analytical_greeks=True)
                        g = greek(e2, r2, 'analytical_greeks', 'spot_delta' if conv == 'regular_spot' else 'forward_delta', c)
                        back = vals.lift1(lambda x: subst(x, {sid(Ksym): K}), g)
                        c.eq(back, dl * s, label='option delta at the returned strike')
                    c.obligation('regular/%s/%s/%s/%s' % (conv, atm or 'default', 'call' if s > 0 else 'put', ft),
                                 'strike inverts the quoted delta of the pricing function', go)
                    n += 1
        for conv in ('premium_adjusted_spot', 'premium_adjusted_forward'):
            for s in (1, -1):
                def go(conv=conv, s=s, withF=withF):
                    dl = sym('absdelta', arr=True)
                    e, r, d, F = setup(conv, None, withF, delta=dl * s)
                    lo = lt0(dl - HALF)
                    sols = [x for x in e.solvers]
                    c.need(sols, 'no numerical solve found')
                    # the returned strike away from the money is the root of delta(K) - quoted delta
                    ok = 0
                    mult = exp(-d['r_f'] * d['tau']) if conv == 'premium_adjusted_spot' else num(1)
                    q = dl * exp(d['r_f'] * d['tau']) if conv == 'premium_adjusted_spot' else dl
                    kmax = F * exp(num(-s) * ppf(q) * d['vol'] * sqrt(d['tau']) + HALF * d['vol'] ** 2 * d['tau'])
                    sg = d['vol'] * sqrt(d['tau'])
                    for lits, leaf in vals.leaves(r, lo):
                        x, body, br = root_of(c, leaf)
                        d2 = (log(F) - log(x)) / sg - HALF * sg
                        same_equation(c, body, mult * s * x / F * cdf(num(s) * d2) - dl * s, 'premium-adjusted delta equation solved for the strike')
                        # bracket: K_max is the strike of the same delta without premium adjustment; K_min (calls) maximises the delta
                        c.must(len(br) == 2, 'the solve for the premium-adjusted strike is not bracketed')
                        c.eq(br[1], kmax, label='upper strike bound')
                        if s > 0:
                            y, b0, br0 = root_of(c, br[0])
                            dd = (log(F) - log(y)) / sg - HALF * sg
                            same_equation(c, b0, sg * cdf(dd) - pdf(dd), 'first-order condition of the lower strike bound')
                        ok += 1
                    c.need(ok, 'no solved leaf')
                c.obligation('premium/%s/%s/%s' % (conv, 'call' if s > 0 else 'put', ft), 'strike is the bracketed root of the premium-adjusted delta equation', go)
                n += 1

                def atm(conv=conv, s=s, withF=withF):
                    dl = sym('absdelta', arr=True)
                    e, r, d, F = setup(conv, None, withF, delta=dl * s)
                    half = vals.b_not(vals.b_or(lt0(dl - HALF), gt0(dl - HALF)))
                    c.eq(r, F * exp(-HALF * d['vol'] ** 2 * d['tau']), pc=half, label='delta-neutral strike')
                c.obligation('premium-atm/%s/%s/%s' % (conv, 'call' if s > 0 else 'put', ft), 'at-the-money premium-adjusted strike is delta neutral', atm)
                n += 1
    return n


def root_of(c, leaf):
    """(unknown, equation, bracket) of a value that is the root found by a numerical solver"""
    c.need(isinstance(leaf, Expr), 'not a number: %r' % (leaf,))
    a = alg.ATOMS[alg.sid(leaf)] if len(leaf.t) == 1 and len(alg.atoms_of(leaf)) == 1 and equal(leaf, alg.atom_expr(alg.ATOMS[list(alg.atoms_of(leaf))[0]])) else None
    c.must(a is not None and a.kind == 'fn' and str(a.name).startswith('root:'), 'value is not the root of a numerical solve: %s' % show(leaf))
    return sym('@x', pos=False), a.args[0], a.args[1:]


def same_equation(c, got, spec, label):
    """got = 0 and spec = 0 are the same equation"""
    if c.leaf_equal(got, spec) or c.leaf_equal(got, -spec):
        return
    c.eq(got, spec, label=label)
