"""P04, P05: Black-76 / Bachelier pricing and greeks; implied-volatility solves and volatility conversions reprice."""
from fsa.spec import *
from fsa.chk import ANY, show
from fsa.interp import Tup, Ref
from checks.fx_option import item, greek, root_of, same_equation, M as GK

M = 'frm.pricing_engine.black76_bachelier'


def inputs(kind, scalar=False):
    def arr(n, **k):
        return sym(n, arr=not scalar, **k)
    d = dict(F=arr('F', pos=False) if kind == 'bachelier' else arr('Fraw', pos=False), tau=arr('tau'), cp=sym('cp', sq1=True, arr=not scalar),
             annuity_factor=arr('A'))
    if kind == 'bachelier':
        d['K'] = arr('K', pos=False)
        d['vol_n'] = arr('vol')
        return d, None
    # shifted forward / strike are positive: F = Fs - shift
    Fs, Ks, sh = arr('Fs'), arr('Ks'), arr('shift', pos=False)
    d.update(F=Fs - sh, K=Ks - sh, ln_shift=sh, vol_sln=arr('vol'))
    return d, (Fs, Ks)


def run(c, kind, d, **kw):
    e = c.engine()
    f = e.get(M, 'black76_price' if kind == 'black76' else 'bachelier_price')
    return e, e.call(f, [], dict(d, **kw))


def ref(kind, d, sh, F=None, s=None, K=None, cp=None):
    if kind == 'black76':
        return black(F if F is not None else sh[0], sh[1], s if s is not None else d['vol_sln'], d['tau'], cp if cp is not None else d['cp'], d['annuity_factor'])
    return bachelier(F if F is not None else d['F'], d['K'], s if s is not None else d['vol_n'], d['tau'], cp if cp is not None else d['cp'], d['annuity_factor'])


def p04(c):
    for kind in ('black76', 'bachelier'):
        def price():
            d, sh = inputs(kind)
            e, r = run(c, kind, d)
            c.eq(item(e, r, 'price', c), ref(kind, d, sh), label='%s price' % kind)
        c.obligation('price/' + kind, 'value equals the closed form scaled by the annuity', price)

        def parity():
            d, sh = inputs(kind)
            x = {}
            for s in (1, -1):
                e, r = run(c, kind, dict(d, cp=num(s)))
                x[s] = item(e, r, 'price', c)
            c.eq(vals.apply(lambda a, b: a - b, x[1], x[-1]), d['annuity_factor'] * (d['F'] - d['K']), label='payer minus receiver')
        c.obligation('parity/' + kind, 'call - put = annuity * (forward - strike)', parity)

        def split():
            d, sh = inputs(kind)
            e, r = run(c, kind, d, intrinsic_time_split=True)
            i = d['annuity_factor'] * pos_part(d['cp'] * (d['F'] - d['K']))
            c.eq(item(e, r, 'intrinsic', c), i, label='intrinsic')
            tot = vals.apply(lambda a, b: a + b, item(e, r, 'intrinsic', c), item(e, r, 'time', c))
            c.eq(tot, item(e, r, 'price', c), label='intrinsic + time')
        c.obligation('split/' + kind, 'intrinsic is the annuity-scaled payoff; intrinsic + time = price', split)

        def scale():
            d, sh = inputs(kind)
            k = sym('k', arr=True)
            e, r = run(c, kind, d)
            p1 = item(e, r, 'price', c)
            e, r = run(c, kind, dict(d, annuity_factor=d['annuity_factor'] * k))
            c.eq(item(e, r, 'price', c), vals.lift1(lambda x: x * k, p1), label='price with a scaled annuity')
            d2 = {k_: v for k_, v in d.items() if k_ != 'annuity_factor'}
            e, r = run(c, kind, d2)
            c.eq(item(e, r, 'price', c), vals.lift1(lambda x: subst(x, {sid(d['annuity_factor']): num(1)}), p1), label='price with the default annuity')
        c.obligation('annuity/' + kind, 'price is linear in the annuity factor (default 1)', scale)

        def flags():
            d, sh = inputs(kind)
            for k in ('analytical_greeks', 'numerical_greeks', 'intrinsic_time_split'):
                e, r = run(c, kind, d, **{k: True})
                c.eq(item(e, r, 'price', c), ref(kind, d, sh), label='price with %s' % k)
        c.obligation('flags/' + kind, 'requesting greeks or the split does not change the price', flags)

        names = ['delta', 'vega'] + (['theta'] if kind == 'bachelier' else [])
        for name in names:
            def an(name=name):
                d, sh = inputs(kind)
                e, r = run(c, kind, d, analytical_greeks=True)
                X = ref(kind, d, sh)
                Fx, v = (sh[0], d['vol_sln']) if sh else (d['F'], d['vol_n'])
                if name == 'delta':
                    spec = diff(X, Fx)
                elif name == 'vega':
                    spec = diff(X, v) * num(Fr(1, 100) if sh else Fr(1, 10000))
                else:
                    spec = -diff(X, d['tau']) / num(Fr(36525, 100))
                c.eq(greek(e, r, 'analytical_greeks', name, c), spec, label='analytical %s' % name)
            c.obligation('analytical/%s/%s' % (name, kind), 'greek equals the scaled partial derivative of the price formula', an)
        if kind == 'black76':
            for name in ('delta', 'vega'):
                def nu(name=name):
                    d, sh = inputs(kind)
                    e, r = run(c, kind, d, numerical_greeks=True)
                    h = num(Fr(1, 100))
                    if name == 'delta':
                        spec = (ref(kind, d, sh, F=sh[0] * (num(1) + h)) - ref(kind, d, sh, F=sh[0] * (num(1) - h))) / (num(2) * sh[0] * h)
                    else:
                        spec = (ref(kind, d, sh, s=d['vol_sln'] + h) - ref(kind, d, sh, s=d['vol_sln'] - h)) / num(2)
                    c.eq(greek(e, r, 'numerical_greeks', name, c), spec, label='numerical %s' % name)
                c.obligation('numerical/%s/%s' % (name, kind), 'bumped greek is the symmetric difference of the price in the bumped variable alone', nu)
    return 15


# ------------------------------------------------------------------------------------------------- P05

def noexc(lits):
    return any(vals.CONDS[i][0] == 'exc' and b for i, b in lits.items())


def p05(c):
    def fx():
        e = c.engine()
        f = e.get(GK, 'garman_kohlhagen_solve_implied_vol')
        d = dict(S0=P('S0'), tau=P('tau'), r_d=R('r_d'), r_f=R('r_f'), cp=CP(), K=P('K'))
        X = P('X')
        r = e.call(f, [], dict(d, X=X, vol_guess=P('guess')))
        n = 0
        for lits, leaf in vals.leaves(r):
            if isinstance(leaf, Expr) and equal(leaf, fn('inf', ())):
                continue
            if isinstance(leaf, Expr) and any(alg.ATOMS[a].name == 'inf' for a in alg.atoms_of(leaf)):
                continue
            x, body, br = root_of(c, leaf)
            same_equation(c, body, gk(d['S0'], d['K'], x, d['tau'], d['r_d'], d['r_f'], d['cp']) - X, 'implied volatility equation')
            n += 1
        c.need(n >= 1, 'no solved volatility')
    c.obligation('fx-implied-vol', 'every returned volatility is a root of price(vol) = observed price', fx)

    def obj(c, kind, target, e, r, d, sh, X, label):
        """every returned value reprices: root of a multiple of price - target, or the point at which the solver stopped early"""
        n = 0
        for lits, leaf in vals.leaves(r):
            if leaf is UNDEF:
                continue
            if isinstance(leaf, Expr) and any(str(alg.ATOMS[a].name).startswith(('excvalue', 'item')) for a in alg.atoms_of(leaf)):
                continue
            yield root_of(c, leaf)

    def solve(kind):
        def go():
            e = c.engine()
            d, sh = inputs(kind, scalar=True)
            d = {k: v for k, v in d.items() if k not in ('vol_sln', 'vol_n')}
            f = e.get(M, 'black76_solve_implied_vol' if kind == 'black76' else 'bachelier_solve_implied_vol')
            X = P('X')
            r = e.call(f, [], dict(d, X=X))
            x = sym('@x', pos=False)
            dd = dict(d, vol_sln=x, vol_n=x)
            want = fn('total', (ref(kind, dd, sh),))
            seen = 0
            for k in e.solvers:
                seen += 1
                pw = 2 if k['kind'] == 'minimize' else 1
                body = k['body']
                xx = k['at'].items[0] if isinstance(k['at'], Tup) else k['at']
                for lits, b in vals.leaves(body):
                    if b is UNDEF:
                        continue
                    dd = dict(d, vol_sln=xx, vol_n=xx)
                    spec = ((ref(kind, dd, sh) - X) / X) ** pw
                    c.eq(single(b), spec, label='objective of the %s solve' % k['kind'])
                    early_stop(c, k, xx, spec, pw)
                precise(c, e, k, Fr(1, 10 ** 5))
            c.need(seen >= 2, 'expected a bracketed solve and a fallback')
            accepted(c, r)
        return go

    for kind in ('black76', 'bachelier'):
        c.obligation('implied-vol/' + kind, 'the volatility solved for reprices the observed price', solve(kind))

    def strip(kind):
        """several options quoted with one price: the price is that of all of them together"""
        e = c.engine()
        e.exact_shapes = True
        F = [P('Fs%d' % i) if kind == 'black76' else R('F%d' % i) for i in (0, 1)]
        K = [P('Ks%d' % i) if kind == 'black76' else R('K%d' % i) for i in (0, 1)]
        s = R('shift') if kind == 'black76' else num(0)
        t, A, cp, X = [P('tau0'), P('tau1')], [P('A0'), P('A1')], CP(), P('X')
        kw = dict(F=Tup([f - s for f in F]), K=Tup([k - s for k in K]), tau=Tup(t), annuity_factor=Tup(A), cp=Tup([cp, cp]), X=X)
        if kind == 'black76':
            kw['ln_shift'] = Tup([s])
        e.call(e.get(M, 'black76_solve_implied_vol' if kind == 'black76' else 'bachelier_solve_implied_vol'), [], kw)
        c.need(len(e.solvers) >= 2, 'expected a bracketed solve and a fallback')
        for k in e.solvers:
            x = k['at'].items[0] if isinstance(k['at'], Tup) else k['at']
            pw = 2 if k['kind'] == 'minimize' else 1
            tot = num(0)
            for i in (0, 1):
                d = dict(F=F[i], K=K[i], tau=t[i], annuity_factor=A[i], cp=cp, vol_sln=x, vol_n=x)
                tot = tot + ref(kind, d, (F[i], K[i]) if kind == 'black76' else None)
            for lits, b in vals.leaves(k['body']):
                if b is not UNDEF:
                    c.eq(b, ((tot - X) / X) ** pw, label='objective of the %s solve for two options priced together' % k['kind'])
    for kind in ('black76', 'bachelier'):
        c.obligation('implied-vol-strip/' + kind, 'one volatility for several options reprices their total', lambda kind=kind: strip(kind))

    near = lambda F, K: lt0(absf(F - K) - num(Fr(1, 10 ** 10)))

    def shift():
        e = c.engine()
        f = e.get(M, 'shift_black76_vol')
        F, K, a, b, t, v = P('Fs'), P('Ks'), R('a'), R('dab'), P('tau'), P('vol')
        # forward and strike under the first shift are Fs, Ks > 0; under the second Fs + d, Ks + d, also > 0
        r = e.call(f, [], dict(F=F - a, tau=t, K=K - a, vol_sln=v, from_ln_shift=a, to_ln_shift=a + b))
        px = black(F, K, v, t, num(1))
        k = only(c, e.solvers, ('minimize',))
        x = k['at'].items[0] if isinstance(k['at'], Tup) else k['at']
        px2 = black(F + b, K + b, x, t, num(1))
        same_equation(c, single(k['body']), ((px2 - px) / px) ** 2, 'repricing error minimised')
        precise(c, e, k)
        accepted(c, r)
    c.obligation('convert/shift', 'volatility under the new shift reprices the option under the old shift', shift)

    def atm_formula(F, t, v):
        return num(2) / sqrt(t) * ppf((v * sqrt(t) * pdf(num(0)) + F) / (num(2) * F))

    def n2ln():
        e = c.engine()
        f = e.get(M, 'normal_vol_to_black76_sln')
        F, K, sh, t, v = P('Fs'), P('Ks'), R('shift'), P('tau'), P('vol')
        r = e.call(f, [], dict(F=F - sh, tau=t, K=K - sh, vol_n=v, ln_shift=sh))
        atm = near(F, K)
        c.eq(r, atm_formula(F, t, v), pc=atm, label='at-the-money log-normal volatility')
        k = only(c, e.solvers, ('minimize',))
        x = k['at'].items[0] if isinstance(k['at'], Tup) else k['at']
        px = bachelier(F, K, v, t, num(1))
        same_equation(c, single(k['body']), ((px - black(F, K, x, t, num(1))) / px) ** 2, 'repricing error minimised')
        precise(c, e, k)
        accepted(c, vals.prune(r, vals.b_not(atm)))
    c.obligation('convert/normal-to-lognormal', 'converted volatility reprices; at the money the closed form is used', n2ln)

    def atm():
        e = c.engine()
        f = e.get(M, 'normal_vol_atm_to_black76_sln_atm')
        F, sh, t, v = P('Fs'), R('shift'), P('tau'), P('vol')
        r = e.call(f, [], dict(F=F - sh, tau=t, vol_n_atm=v, ln_shift=sh))
        c.eq(r, atm_formula(F, t, v), label='at-the-money conversion')
        # it equates the two at-the-money prices
        back = black(F, F, atm_formula(F, t, v), t, num(1))
        c.eq(back, bachelier(F, F, v, t, num(1)), label='Black price at the converted volatility')
    c.obligation('convert/atm', 'the closed form equates the two at-the-money prices', atm)

    def ln2n():
        e = c.engine()
        f = e.get(M, 'black76_sln_to_normal_vol')
        F, K, sh, t, v = P('Fs'), P('Ks'), R('shift'), P('tau'), P('vol')
        r = e.call(f, [], dict(F=F - sh, tau=t, K=K - sh, vol_sln=v, ln_shift=sh))
        at = near(F, K)
        # Bachelier at the money: sigma sqrt(t) pdf(0) = Black price
        c.eq(r, black(F, F, v, t, num(1)) / (sqrt(t) * pdf(num(0))), pc=at, label='at-the-money normal volatility')
        target = black(F, K, v, t, num(1))
        n = 0
        for k in e.solvers:
            pw = 2 if k['kind'] == 'minimize' else 1
            x = k['at'].items[0] if isinstance(k['at'], Tup) else k['at']
            for lits, b in vals.leaves(k['body']):
                if b is UNDEF:
                    continue
                same_equation(c, single(b), ((bachelier(F - sh, K - sh, x, t, num(1)) - target) / target) ** pw, 'repricing error of the %s solve' % k['kind'])
                n += 1
        c.need(n, 'no solve')
        accepted(c, vals.prune(r, vals.b_not(at)))
    c.obligation('convert/lognormal-to-normal', 'converted volatility reprices; at the money the closed form is used', ln2n)

    def analytic():
        e = c.engine()
        f = e.get(M, 'black76_sln_to_normal_vol_analytical')
        F, K, sh, t, v = P('Fs'), P('Ks'), R('shift'), P('tau'), P('vol')
        r = e.call(f, [], dict(F=F - sh, tau=t, K=K - sh, vol_sln=v, ln_shift=sh))
        x = log(F) - log(K)
        one = num(1)
        spec = v * sqrt(F * K) * (one + x ** 2 / num(24) + x ** 4 / num(1920)) / (one + (one - x ** 2 / num(120)) * v ** 2 * t / num(24) + v ** 4 * t ** 2 / num(5760))
        c.eq(r, spec, label='Hagan et al. (2002) B.64')
    c.obligation('convert/analytical', 'closed-form approximation is equation B.64', analytic)
    return 8


def single(v):
    """one option: sums over the batch have a single term"""
    one = {}
    for a in range(len(alg.ATOMS)):
        k = alg.ATOMS[a]
        if k.kind == 'fn' and k.name == 'total' and isinstance(k.args[0], Expr) and equal(k.args[0], num(1)):
            one[a] = num(1)
    return vals.lift1(lambda x: subst(x, one) if isinstance(x, Expr) else x, v)


def early_stop(c, k, x, spec, pw):
    """the objective may stop the solver only at a point whose relative error is below tolerance, and must hand that point over"""
    for r in k.get('craises', ()):
        if r[3] != 'StopIteration':
            continue
        pc = r[0]
        got = r[5][0] if len(r) > 5 and r[5] else None
        c.must(got is not None and c.leaf_equal(got.items[0] if isinstance(got, Tup) else got, x), 'early stop does not hand over the point reached (%s)' % r[2])
        tol = num(Fr(1, 10 ** 5)) ** pw
        pc1 = single_cond(pc)
        forms = [absf(spec) - tol] + ([spec - tol] if pw == 2 else [])
        c.must(any(not vals.sat(vals.b_and(pc1, gt0(f))) for f in forms), 'solver stops early although the relative price error can exceed 1e-5 (%s): %s' % (r[2], pc1))


def single_cond(pc):
    from fsa.interp import subst_cond
    one = {}
    for a in range(len(alg.ATOMS)):
        k = alg.ATOMS[a]
        if k.kind == 'fn' and k.name == 'total' and isinstance(k.args[0], Expr) and equal(k.args[0], num(1)):
            one[a] = num(1)
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return x
        if id(x) not in memo:
            memo[id(x)] = ite(subst_cond(x.var, one), go(x.hi), go(x.lo))
        return memo[id(x)]
    return go(pc)


def precise(c, e, k, least=Fr(1, 10 ** 8)):
    """the tolerances of a solve leave the price at most about 1e-4 away"""
    limit = least if k['kind'].startswith('minimize') else Fr(1, 10 ** 5)      # least squares: squares of errors
    tols = [(n, k['args'].get(n)) for n in ('tol', 'xtol')]
    for _, o in vals.leaves(k['args'].get('options')):
        if isinstance(o, Ref) and e.rec(o).kind == 'dict':
            tols += [(n, v) for n, v in e.rec(o).f.values() if n in ('ftol', 'fatol', 'tol')]
    for n, v in tols:
        if isinstance(v, Expr) and v.is_const():
            c.must(v.const() <= limit, 'the solve may stop with %s = %s, a price that is visibly off' % (n, show(v)))


def accepted(c, r):
    """every returned value is the solver's solution or the point handed over by an early stop"""
    n = 0
    for lits, leaf in vals.leaves(r):
        if leaf is UNDEF:
            continue
        if isinstance(leaf, Expr) and len(leaf.t) == 1:
            nm = show(leaf)
            at = [alg.ATOMS[a] for a in alg.atoms_of(leaf)]
            if len(at) == 1 and equal(leaf, alg.atom_expr(at[0])):
                a = at[0]
                if a.name in ('@x', '@x0') or str(a.name).startswith('root:'):
                    n += 1
                    continue
                if a.name == 'sel' and isinstance(a.args[0], Expr) and 'root:' in show(a.args[0])[:5]:
                    n += 1
                    continue
        c.must(False, 'returns something other than the solution of the solve: %s' % show(leaf))
    c.need(n > 0, 'no solution is returned')


def only(c, sols, kinds):
    ks = [k for k in sols if k['kind'] in kinds]
    c.need(len(ks) == 1, 'expected one numerical solve, found %d' % len(ks))
    return ks[0]
