"""P06: SABR smile formula, alpha inversion, smile fit."""
from fsa.spec import *
from fsa.chk import ANY, show, summary
from fsa.interp import Tup
from checks.rates_option import only

M = 'frm.pricing_engine.sabr'
one = num(1)


def terms(F, K, al, be, rho, nu, t):
    mid = (F * K) ** ((one - be) * HALF)
    corr = one + (((one - be) ** 2 / num(24)) * al ** 2 / mid ** 2 + HALF * HALF * rho * be * nu * al / mid
                  + (num(2) - num(3) * rho ** 2) * nu ** 2 / num(24)) * t
    return mid, corr


def hagan(F, K, al, be, rho, nu, t):
    mid, corr = terms(F, K, al, be, rho, nu, t)
    L = log(F) - log(K)
    z = nu / al * mid * L
    x = log((sqrt(one - num(2) * rho * z + z ** 2) + z - rho) / (one - rho))
    den = mid * (one + (one - be) ** 2 / num(24) * L ** 2 + (one - be) ** 4 / num(1920) * L ** 4)
    return al / den * (z / x) * corr


def hagan_atm(F, al, be, rho, nu, t):
    """(2.18): strike = forward"""
    mid, corr = terms(F, F, al, be, rho, nu, t)
    return al / mid * corr


def params(arr):
    k = dict(arr=arr)
    return dict(tau=sym('tau', **k), F=sym('Fs', **k), al=sym('alpha', **k), be=sym('beta', pos=False, **k), rho=sym('rho', pos=False, **k), nu=sym('nu', **k))


def unquoted(lits):
    return any(vals.CONDS[i][0] == 'close' and not b for i, b in lits.items())


def p06(c):
    def call(p, K, sh, arr=True):
        e = c.engine()
        f = e.get(M, 'calc_sln_vol_for_strike_from_sabr_params')
        return e, e.call(f, [], dict(tau=p['tau'], F=p['F'] - sh, alpha=p['al'], beta=p['be'], rho=p['rho'], volvol=p['nu'], K=K - sh, ln_shift=sh))

    for arr in (True, False):
        tag = 'arrays' if arr else 'scalars'

        def smile(arr=arr):
            p, K, sh = params(arr), sym('Ks', arr=arr), sym('shift', pos=False)
            e, r = call(p, K, sh)
            atm = lt0(absf(log(p['F']) - log(K)) - num(Fr(1, 10 ** 6)))
            c.eq(r, hagan(p['F'], K, p['al'], p['be'], p['rho'], p['nu'], p['tau']), pc=vals.b_not(atm), label='volatility away from the money')
            c.eq(r, hagan_atm(p['F'], p['al'], p['be'], p['rho'], p['nu'], p['tau']), pc=atm, label='volatility at the money',
                 cmp=lambda a, b, lits: isinstance(a, Expr) and equal(subst(a, {sid(K): p['F']}), b))
        c.obligation('smile/' + tag, 'Hagan et al. (2002) (2.17) away from the money, (2.18) at the money', smile)

    def shift():
        p, K, s1, s2 = params(True), sym('Ks', arr=True), sym('s1', pos=False), sym('s2', pos=False)
        e, r1 = call(p, K, s1)
        e, r2 = call(p, K, s2)
        c.eq(r1, r2, label='volatility for equal shifted forward and strike')
    c.obligation('shift-invariant', 'the volatility depends on forward and strike only through their shifted values', shift)

    def alpha():
        e = c.engine()
        f = e.get(M, 'solve_alpha_from_sln_vol')
        p, sh, v = params(False), sym('shift', pos=False), sym('vol')
        r = e.call(f, [], dict(tau=p['tau'], F=p['F'] - sh, beta=p['be'], rho=p['rho'], volvol=p['nu'], vol_sln_atm=v, ln_shift=sh))
        n = 0
        for k in e.polys:
            x = sym('@alpha')
            y = num(0)
            for co in k['coeffs']:
                y = y * x + co
            mid, corr = terms(p['F'], p['F'], x, p['be'], p['rho'], p['nu'], p['tau'])
            want = x / mid * corr - v          # ATM volatility minus the target
            x0 = sym('@alpha0')
            at0 = lambda z: subst(z, {sid(x): x0})
            # proportional as functions of alpha: y(a) want(a0) = want(a) y(a0)
            c.must(equal(y * at0(want), want * at0(y)), 'alpha polynomial is not a multiple of (ATM volatility - target): %s' % show(y))
            n += 1
        c.need(n == 1, 'no polynomial solve')
        root, guess = e.polys[0]['result'], v * p['F'] ** (one - p['be'])
        for lits, leaf in vals.leaves(r):
            at = [alg.ATOMS[a] for a in alg.atoms_of(leaf)]
            pick = at[0] if len(at) == 1 and at[0].name == 'sel' and equal(leaf, alg.atom_expr(at[0])) else None
            c.must('polyroots' in show(leaf, 10 ** 6), 'returned alpha is not a root of the polynomial: %s' % show(leaf))
            c.need(pick is not None, 'how the root is chosen is not recognised: %s' % show(leaf))
            base, idx = pick.args
            c.must(alg.atoms_of(root) <= alg.deep_atoms(base) or equal(base, root), 'alpha is not taken from the roots')
            want = absf(base - guess)
            ia = [alg.ATOMS[a] for a in alg.atoms_of(idx)] if isinstance(idx, Expr) else []
            nearest = len(ia) == 1 and ia[0].name == 'np.argmin'
            if equal(base, root) or nearest and equal(base, fn('real', (root,), arr=True)):
                if nearest and isinstance(ia[0].args[0], Expr) and any(alg.ATOMS[a].name == 'gate' for a in alg.deep_atoms(ia[0].args[0])):
                    raise Undecided('the distance of the roots to the at-the-money level is taken case by case: %s' % show(idx))
                c.must(not (nearest and alg.proportional(ia[0].args[0], want, alg.atoms_of(base))), 'the nearest root is chosen without setting the complex roots aside')
            c.must(len(ia) == 1 and ia[0].name == 'np.argmin' and alg.proportional(ia[0].args[0], want, alg.atoms_of(base)),
                   'chosen root is not the one nearest the at-the-money level vol*F^(1-beta): index %s' % show(idx))
    c.obligation('alpha', 'alpha solves the at-the-money equation', alpha)

    def unshifted():
        p, v = params(False), sym('vol')
        seen = []
        for kw in ({}, dict(ln_shift=num(0))):
            e = c.engine()
            e.call(e.get(M, 'solve_alpha_from_sln_vol'), [], dict(tau=p['tau'], F=p['F'], beta=p['be'], rho=p['rho'], volvol=p['nu'], vol_sln_atm=v, **kw))
            seen.append([x for k in e.polys for x in k['coeffs']])
        c.need(seen[0] and len(seen[0]) == len(seen[1]), 'the equation for alpha was not recognised')
        for a, b in zip(*seen):
            c.eq(a, b, label='equation for alpha where no shift is given')
        f = [dict(tau=P('tau'), F=R('F'), K=sym('K', pos=False, arr=True), vols_sln=sym('vols', arr=True), beta_overide=sym('beta', pos=False), **kw) for kw in ({}, dict(ln_shift=num(0)))]
        body = []
        for kw in f:
            e = c.engine(overrides={
                M + '.solve_alpha_from_sln_vol': summary('alpha', ['tau', 'F', 'beta', 'rho', 'volvol', 'vol_sln_atm', 'ln_shift'], arr=False),
                M + '.calc_sln_vol_for_strike_from_sabr_params': summary('smile', ['tau', 'F', 'alpha', 'beta', 'rho', 'volvol', 'K', 'ln_shift'])})
            e.call(e.get(M, 'fit_sabr_params_to_sln_smile'), [], kw)
            body.append(only(c, e.solvers, ('minimize',))['body'])
        c.eq(body[0], body[1], pc=cond('close', absf(f[0]['K'] - f[0]['F'])), label='calibration objective where no shift is given', skip=unquoted)
    c.obligation('no-shift', 'alpha and fit are unshifted where no shift is given', unshifted)

    for fixed in (True, False):
        def fit(fixed=fixed):
            e = c.engine(overrides={
                M + '.solve_alpha_from_sln_vol': summary('alpha', ['tau', 'F', 'beta', 'rho', 'volvol', 'vol_sln_atm', 'ln_shift'], arr=False),
                M + '.calc_sln_vol_for_strike_from_sabr_params': summary('smile', ['tau', 'F', 'alpha', 'beta', 'rho', 'volvol', 'K', 'ln_shift'])})
            f = e.get(M, 'fit_sabr_params_to_sln_smile')
            t, F, K, sh, vols, be = P('tau'), R('F'), sym('K', pos=False, arr=True), R('shift'), sym('vols', arr=True), sym('beta', pos=False)
            r = e.call(f, [], dict(tau=t, F=F, K=K, vols_sln=vols, ln_shift=sh, beta_overide=be if fixed else None))
            k = only(c, e.solvers, ('minimize',))
            x = k['at'].items
            c.need(len(x) == (2 if fixed else 3), 'unexpected number of fitted parameters')
            b, rho, nu = (be, x[0], x[1]) if fixed else x
            al = lambda b, rho, nu: fn('alpha', (t, F, b, rho, nu, vols, sh))
            err = vols - fn('smile', (t, F, al(b, rho, nu), b, rho, nu, K, sh), arr=True)
            quoted = cond('close', absf(K - F))
            c.eq(k['body'], c.total(err ** 2), pc=quoted, label='calibration objective', skip=unquoted)
            pars = r.items[0] if isinstance(r, Tup) else None
            c.need(isinstance(pars, Tup) and len(pars.items) == 4, 'result is not ((alpha, beta, rho, volvol), solution)')
            root = k['result']
            sol = {sid(v): fn('sel', (root, num(i)), arr=False) for i, v in enumerate(x)}
            for i, (nm, v) in enumerate((('alpha', al(b, rho, nu)), ('beta', b), ('rho', rho), ('volvol', nu))):
                c.eq(pars.items[i], subst(v, sol), pc=quoted, label='fitted %s' % nm, skip=unquoted)
            bd = c.items(e, k['args'].get('bounds'))
            c.must(bd is not None and len(bd) == len(x), 'fitted parameters are not bounded: %s' % (bd,))
            rng = ([] if fixed else [('beta', 0, 1)]) + [('rho', -1, 1), ('volvol', 0, None)]
            for (nm, lo, hi), q in zip(rng, bd):
                q = c.items(e, q)
                c.need(q is not None and len(q) == 2, 'bounds not recognised')
                ok = isinstance(q[0], Expr) and q[0].is_const() and q[0].const() >= lo
                ok = ok and (hi is None or isinstance(q[1], Expr) and q[1].is_const() and q[1].const() <= hi)
                c.must(ok, 'search range of %s is %s, outside its valid range [%s, %s]' % (nm, q, lo, hi))
        c.obligation('fit/' + ('beta-given' if fixed else 'beta-solved'), 'fit minimises the squared smile error inside the valid parameter ranges; alpha reprices the at-the-money quote', fit)
    return 6
