"""P07 Heston characteristic functions; P08 Heston pricing methods; P09 Heston simulation."""
from fsa.spec import *
from fsa.chk import ANY, show, summary, Undecided, Mismatch
from fsa.interp import Tup, ArrW, RangeV, Dead
from .mc import recurrence, span, row0, sel, atom_of

H = 'frm.pricing_engine.heston'
one = num(1)
I = alg.I


def chf(u, drift, t, v0, s, k, th, rho, kth=None):
    """E[exp(iu X)], X = drift + Heston log-return without carry (second, numerically stable form)"""
    W = k - rho * s * I() * u
    D = sqrt(W ** 2 + s ** 2 * (I() * u + u ** 2))
    g = (W - D) / (W + D)
    E = exp(-D * t)
    A = (k * th if kth is None else kth) / s ** 2 * ((W - D) * t - num(2) * log((one - g * E) / (one - g)))
    B = v0 / s ** 2 * (W - D) * (one - E) / (one - g * E)
    return exp(I() * u * drift + A + B)


def prm():
    return dict(tau=P('tau'), r=R('r'), q=R('q'), var0=P('var0'), vv=P('vv'), kappa=P('kappa'), theta=P('theta'), rho=R('rho'))


def sp(p):
    return p['tau'], p['var0'], p['vv'], p['kappa'], p['theta'], p['rho']


def p07(c):
    def alb():
        e = c.engine()
        p = prm()
        u, x = sym('u', pos=False, real=False), R('logS')
        r = e.call(e.get(H, 'chf_heston_albrecher2007'), [], dict(u=u, log_S0=x, **p))
        c.eq(r, chf(u, x + (p['r'] - p['q']) * p['tau'], *sp(p)), label='characteristic function of log price')
    c.obligation('chf/log-price', 'characteristic function equals the published stable form', alb)

    def fang():
        e = c.engine()
        p = prm()
        u = sym('u', pos=False, real=False)
        r = e.call(e.get(H, 'chf_heston_fang2008'), [], dict(u=u, **p))
        c.eq(r, chf(u, (p['r'] - p['q']) * p['tau'], *sp(p)), label='characteristic function of log return')
    c.obligation('chf/log-return', 'characteristic function equals the published stable form', fang)

    def lip():
        e = c.engine()
        p = prm()
        S, K, v = P('S'), P('K'), P('v')
        r = e.call(e.get(H, 'heston_lipton_vanilla_european_integral'), [], dict(v=v, S0=S, K=K, **p))
        u = -v - I() * HALF
        X = log(S / K) + (p['r'] - p['q']) * p['tau']
        c.eq(r, real(chf(u, X, *sp(p))) / (v ** 2 + num(Fr(1, 4))), label='Lewis-Lipton integrand')
    c.obligation('lipton/integrand', 'integrand equals the published one', lip)

    for m in (1, 2):
        def h93(m=m):
            e = c.engine()
            p = prm()
            S, K, v, lam = P('S'), P('K'), P('v'), P('lam')
            r = e.call(e.get(H, 'heston_1993_vanilla_european_integral'), [], dict(φ=v, m=num(m), S0=S, K=K, lambda_=lam, **p))
            mu = (p['r'] - p['q']) * p['tau']
            u = v - I() if m == 1 else v
            # mean reversion kappa + lambda towards kappa theta / (kappa + lambda)
            f = chf(u, log(S) + mu, *sp(dict(p, kappa=p['kappa'] + lam)), kth=p['kappa'] * p['theta'])
            if m == 1:
                f = f / (S * exp(mu))
            c.eq(r, real(exp(-I() * v * log(K)) * f / (I() * v)), label='P%d integrand' % m)
        c.obligation('1993/P%d' % m, 'integrand equals the published one, with the price of volatility risk absorbed in the mean reversion', h93)
    return 5


def opts():
    p = prm()
    p.update(S0=P('S'), K=P('K'))
    return p


HP = ['tau', 'r', 'q', 'var0', 'vv', 'kappa', 'theta', 'rho']
inf = lambda: fn('inf', ())


def integral(body, q):
    return fn('integral', (body, q, num(0), inf()), real=True, arr=False)


def p08(c):
    q0 = lambda: sym('@q0', pos=False)

    def f93():
        e = c.engine()
        names = ['φ', 'm', 'S0', 'K'] + HP + ['lambda_']
        e.overrides[H + '.heston_1993_vanilla_european_integral'] = summary('h93', names)
        cp, o, lam = CP(), opts(), R('lam')
        r = e.call(e.get(H, 'heston1993_price_vanilla_european'), [], dict(cp=cp, lambda_=lam, **o))
        z = q0()

        def pj(m):
            a = dict(o, φ=z, m=num(m), lambda_=lam)
            return HALF + integral(fn('h93', tuple(a[n] for n in names), arr=True), z) / pi()
        call = o['S0'] * exp(-o['q'] * o['tau']) * pj(1) - o['K'] * exp(-o['r'] * o['tau']) * pj(2)
        put = call - o['S0'] * exp(-o['q'] * o['tau']) + o['K'] * exp(-o['r'] * o['tau'])
        c.eq(r, ite(vals.gt0(cp), call, put), label='Heston (1993) price')
    c.obligation('1993/price', 'call = S e^-qT P1 - K e^-rT P2 with P_j = 1/2 + 1/pi * integral; put by parity', f93)

    def lip():
        e = c.engine()
        names = ['v', 'S0', 'K'] + HP
        e.overrides[H + '.heston_lipton_vanilla_european_integral'] = summary('lip', names)
        cp, o = CP(), opts()
        r = e.call(e.get(H, 'heston_lipton_price_vanilla_european'), [], dict(cp=cp, **o))
        z = q0()
        Q = integral(fn('lip', tuple(dict(o, v=z)[n] for n in names), arr=True), z)
        S, K = o['S0'] * exp(-o['q'] * o['tau']), o['K'] * exp(-o['r'] * o['tau'])
        call = S - K / pi() * Q
        c.eq(r, ite(vals.gt0(cp), call, call - S + K), label='Lewis-Lipton price')
    c.obligation('lipton/price', 'call = S e^-qT - K e^-rT / pi * integral; put by parity', lip)

    names = ['u', 'log_S0'] + HP
    for cpv in (1, -1):
        def cm(cpv=cpv):
            e = c.engine()
            e.overrides[H + '.chf_heston_albrecher2007'] = summary('chf', names)
            o = opts()
            r = e.call(e.get(H, 'heston_carr_madan_price_vanilla_european'), [], dict(cp=num(cpv), integration_method=num(0), **o))
            for _, r in vals.leaves(r):
                one_case(r, o)

        def one_case(r, o):
            c.need(isinstance(r, Expr) and r.single(), 'Carr-Madan price not recognised')
            (m, _), = r.t.items()
            al = num(0) - num(sum((v for a, v in m if a == sid(o['K'])), Fr(0)))     # K^(-damping)
            dmp = al.const()
            c.must(dmp > 0 if cpv == 1 else dmp < -1, 'damping exponent %s is outside the range in which the transform exists' % dmp)
            z = q0()
            f = cmf(z, al, o, names)
            c.eq(r, exp(-al * log(o['K'])) / pi() * integral(real(exp(-I() * z * log(o['K'])) * f), z), label='Carr-Madan price')
        c.obligation('carr-madan/quadrature/%d' % cpv, 'damped Fourier inversion of the discounted characteristic function', cm)

        def fft(cpv=cpv):
            e = c.engine()
            e.overrides[H + '.chf_heston_albrecher2007'] = summary('chf', names)
            e.overrides['ext:scipy.fft.fft'] = lambda eng, a, k, node: (rec.append(a[0]), sym('@fft', pos=False, real=False, arr=True))[1]
            rec = []
            o = opts()
            r = e.call(e.get(H, 'heston_carr_madan_price_vanilla_european'), [], dict(cp=num(cpv), integration_method=num(1), **o))
            c.need(len(rec) == 1, '%d transforms' % len(rec))
            for lits, r in vals.leaves(r):
                one_fft(e, o, r, vals.restrict(rec[0], lits))

        def one_fft(e, o, r, x):
            A = atom_of(r)
            c.need(A is not None and A.name == 'interp' and len(A.args) >= 3, 'price is not interpolated from the transform: %s' % show(r))
            at, ku, val = A.args[:3]
            c.eq(at, log(o['K']), label='interpolation point')
            ar = [a for a in alg.deep_atoms(ku) if alg.ATOMS[a].name == 'arange']
            c.need(len(ar) == 1, 'log-strike grid %s' % show(ku))
            j = alg.atom_expr(alg.ATOMS[ar[0]])
            N = alg.ATOMS[ar[0]].args[1]
            lam = diff(ku, j)
            b = -subst(ku, {ar[0]: num(0)})
            eta = num(2) * pi() / (N * lam)
            c.must(eta.is_const(), 'strike spacing %s is not matched to a constant frequency spacing' % show(lam))
            c.eq(b, N * lam / num(2), label='first log strike of the grid')
            if N.is_const():
                c.must(0 < eta.const() <= Fr(1, 2) and N.const() * eta.const() >= 100, 'the transform takes %s frequencies %s apart: too few or too far apart to recover the price' % (N.const(), eta.const()))
            v = j * eta
            n = atom_n(val)
            c.need(n is not None, 'damping of the transform not recognised: %s' % show(val))
            al = -diff(n[0], j) * num(n[1]) / lam
            c.need(al.is_const(), 'damping exponent %s' % show(al))
            c.must(al.const() > 0 if cpv == 1 else al.const() < -1, 'damping exponent %s' % al.const())
            c.eq(val, exp(-al * ku) * real(sym('@fft', pos=False, real=False, arr=True)) / pi(), label='option values on the grid')
            items = c.items(e, x)
            c.need(items is not None and num(len(items)) == N or items is not None and len(items) == int(N.const()), 'transform input not recognised')
            base = exp(I() * b * v) * cmf(v, al, o, names) * eta / num(3)
            for i, it in enumerate(items[:-1]):
                w = 1 if i == 0 else (4 if i % 2 else 2)
                c.eq(it, base * num(w), label='transform input %d' % i)
        c.obligation('carr-madan/fft/%d' % cpv, 'Carr-Madan grid, Simpson weights and damping', fft)

    for par in (True, False):
        def cosm(par=par):
            e = c.engine()
            un = ['u'] + HP
            a, b = R('a'), R('b')
            e.overrides[H + '.chf_heston_fang2008'] = summary('chf', un)
            e.overrides[H + '.calculate_Uk_european_options'] = summary('Uk', ['cp', 'a', 'b', 'k'])
            rng = []
            e.overrides['frm.pricing_engine.cosine_method_generic.get_cos_truncation_range'] = lambda eng, env: (rng.append(env), Tup([a, b]))[1]
            o = opts()
            cp = CP('cp')
            alg.ATOMS[sid(cp)].arr = True
            r = e.call(e.get(H, 'heston_cosine_price_vanilla_european'), [], dict(cp=cp, N=sym('N'), L=P('L'), calculate_via_put_call_parity=par, **o))
            c.need(len(rng) == 1, 'truncation range computed %d times' % len(rng))
            d = rng[0]
            k = fn('arange', (num(0), sym('N'), num(1)), nonneg=True, arr=True)
            f = real(fn('chf', tuple(dict(o, u=k * pi() / (b - a))[n] for n in un), arr=True, real=False)
                     * exp(I() * k * pi() * (log(o['S0'] / o['K']) - a) / (b - a)))
            disc = exp(-o['r'] * o['tau'])
            j1 = one + NN('j')
            seen = []

            def px(s):
                return o['K'] * disc * sym('series%d' % s, pos=False)
            call, put = px(1), px(-1)
            if par:
                call = put + o['S0'] * exp(-o['q'] * o['tau']) - o['K'] * disc

            def leaf(x):
                # each series is compared term by term: k = 0 (half weight) and every k >= 1
                if not isinstance(x, Expr):
                    return x
                mp = {}
                for n in alg.deep_atoms(x):
                    A = alg.ATOMS[n]
                    if A.name != 'total':
                        continue
                    for s in (1, -1):
                        ok = True
                        for j, w in ((num(0), HALF), (j1, one)):
                            got = e.models.index(e, A.args[0], j, None)
                            want = e.models.index(e, f * fn('Uk', (num(s), a, b, k), arr=True), j, None) * w
                            ok = ok and isinstance(got, Expr) and equal(got, want)
                        if ok:
                            # the expansion index lies along the axis that is summed
                            at, ax = e.axes.get(sid(k), set()), A.args[1]
                            if len(at) == 1:
                                over = {0: 0, 1: 1, -1: 1, -2: 0}.get(int(ax.const()) if isinstance(ax, Expr) and ax.is_const() else None)
                                c.must(over in at, 'the series is summed over axis %s, the expansion index is on axis %d' % (show(ax), *at))
                            mp[n] = sym('series%d' % s, pos=False)
                            seen.append(s)
                return subst(x, mp)
            r = vals.lift1(leaf, r)
            c.eq(r, ite(vals.gt0(cp), call, put), label='COS price')
            c.need(seen, 'no cosine series found')
        c.obligation('cosine/%s' % ('parity' if par else 'direct'), 'cosine expansion: K e^-rT times the sum, first term halved, of Re(chf * phase) * payoff coefficient', cosm)

    def fine():
        e = c.engine()
        un = ['u'] + HP
        a, b = R('a'), R('b')
        e.overrides[H + '.chf_heston_fang2008'] = summary('chf', un)
        us = []
        e.overrides[H + '.calculate_Uk_european_options'] = lambda eng, env: (us.append(env['k']), fn('Uk', (env['k'],), arr=True))[1]
        rng = []
        e.overrides['frm.pricing_engine.cosine_method_generic.get_cos_truncation_range'] = lambda eng, env: (rng.append(env), Tup([a, b]))[1]
        cp = CP('cp')
        alg.ATOMS[sid(cp)].arr = True
        e.call(e.get(H, 'heston_cosine_price_vanilla_european'), [], dict(cp=cp, **opts()))
        c.need(len(rng) == 1 and us, 'truncation range computed %d times' % len(rng))
        L, k = rng[0].get('L'), atom_of(us[0])
        c.need(isinstance(L, Expr) and L.is_const() and k is not None and k.name == 'arange' and k.args[1].is_const(), 'default accuracy of the expansion not recognised: %s' % show(us[0]))
        N = k.args[1].const()
        c.must(L.const() >= 6 and N >= 10 * L.const(), 'by default %s terms are taken on %s standard deviations: too few to recover the price' % (N, L.const()))
    c.obligation('cosine/default-accuracy', 'the default range and number of terms recover the price', fine)

    for par in (True, False):
        def strikes(par=par):
            e = c.engine()
            e.exact_shapes = True
            over = lambda f, x: Tup([over(f, y) for y in x.items]) if isinstance(x, Tup) else vals.apply(f, x)
            un = ['u'] + HP
            a, b = R('a'), R('b')
            e.overrides[H + '.chf_heston_fang2008'] = lambda eng, env: over(lambda u: fn('chf', tuple(dict(env, u=u)[n] for n in un), arr=False, real=False), env['u'])
            e.overrides[H + '.calculate_Uk_european_options'] = lambda eng, env: over(lambda k: fn('Uk', (env['cp'], k), arr=False), env['k'])
            e.overrides['frm.pricing_engine.cosine_method_generic.get_cos_truncation_range'] = lambda eng, env: Tup([a, b])
            o = {k: v for k, v in opts().items() if k != 'K'}
            K = [P('K%d' % i) for i in range(3)]
            cps = [1, -1, 1]
            r = e.call(e.get(H, 'heston_cosine_price_vanilla_european'), [], dict(cp=Tup([num(x) for x in cps]), K=Tup(K), N=num(2), L=P('L'), calculate_via_put_call_parity=par, **o))
            r = c.items(e, r)
            c.need(r is not None and len(r) == 3, 'one price per strike')
            for i, (s, k) in enumerate(zip(cps, K)):
                t = -1 if par else s
                disc = exp(-o['r'] * o['tau'])
                x = num(0)
                for j in (0, 1):
                    u = num(j) * pi() / (b - a)
                    ch = fn('chf', tuple(dict(o, u=u)[n] for n in un), arr=False, real=False)
                    x = x + num(Fr(1, 2) if j == 0 else 1) * real(ch * exp(I() * u * (log(o['S0'] / k) - a))) * fn('Uk', (num(t), num(j)), arr=False)
                px = k * disc * x
                if par and s == 1:
                    px = px + o['S0'] * exp(-o['q'] * o['tau']) - k * disc
                c.eq(r[i], px, label='price at strike %d of several' % i)
        c.obligation('cosine/strikes/%s' % ('parity' if par else 'direct'), 'each of several strikes has its own price', strikes)

    for cpv in (1, -1):
        def uk(cpv=cpv):
            e = c.engine()
            a, b = R('a'), R('b')
            k = fn('arange', (num(0), P('N'), num(1)), nonneg=True, arr=True)
            r = e.call(e.get(H, 'calculate_Uk_european_options'), [], dict(cp=num(cpv), a=a, b=b, k=k))
            lo, hi = (num(0), b) if cpv == 1 else (a, num(0))
            j1 = one + NN('j')
            mp = {}
            s = atom_of(alg.sin(j1 * pi()))
            for j in (num(0), j1):
                t = lambda x: j * pi() * (x - a) / (b - a)
                w = j * pi() / (b - a)
                chi = (alg.cos(t(hi)) * exp(hi) - alg.cos(t(lo)) * exp(lo) + w * (alg.sin(t(hi)) * exp(hi) - alg.sin(t(lo)) * exp(lo))) / (one + w ** 2)
                psi = hi - lo if not j.t else (alg.sin(t(hi)) - alg.sin(t(lo))) / w
                want = num(2) / (b - a) * num(cpv) * (chi - psi)
                got = e.models.index(e, r, j, None)
                c.need(isinstance(got, Expr), 'coefficient %s not recognised' % show(got))
                z = {s.id: num(0)}                  # sin(j pi) for integer j
                c.eq(subst(got, z), subst(want, z), label='payoff coefficient %s' % ('0' if not j.t else 'k >= 1'))
        c.obligation('cosine/payoff/%d' % cpv, 'cosine coefficients of the payoff, k = 0 and k >= 1', uk)

    def trunc():
        e = c.engine()
        T, mu, u0, s, k, ub, rho, L = P('tau'), R('mu'), P('v0'), P('vv'), P('kappa'), P('theta'), R('rho'), P('L')
        g = e.get('frm.pricing_engine.cosine_method_generic', 'get_cos_truncation_range')
        mp = e.new_dict([('tau', T), ('mu', mu), ('var0', u0), ('vv', s), ('kappa', k), ('theta', ub), ('rho', rho)])
        r = e.call(g, [], dict(model='heston', L=L, model_param=mp))
        its = c.items(e, r)
        c.need(its is not None and len(its) == 2, 'range %s' % show(r))
        E = exp(-k * T)
        c1 = mu * T + (one - E) * (ub - u0) / (num(2) * k) - HALF * ub * T
        c2 = (s * T * k * E * (u0 - ub) * (num(8) * k * rho - num(4) * s) + k * rho * s * (one - E) * (num(16) * ub - num(8) * u0)
              + num(2) * ub * k * T * (-num(4) * k * rho * s + s ** 2 + num(4) * k ** 2)
              + s ** 2 * ((ub - num(2) * u0) * E ** 2 + ub * (num(6) * E - num(7)) + num(2) * u0)
              + num(8) * k ** 2 * (u0 - ub) * (one - E)) / (num(8) * k ** 3)
        h = L * sqrt(absf(c2))
        c.eq(its[0], c1 - h, label='lower truncation bound')
        c.eq(its[1], c1 + h, label='upper truncation bound')
    c.obligation('cosine/truncation', 'truncation range from the first two cumulants of the log return', trunc)

    def passed():
        e = c.engine()
        o = opts()
        rng = []
        e.overrides['frm.pricing_engine.cosine_method_generic.get_cos_truncation_range'] = lambda eng, env: (rng.append(env), Tup([R('a'), R('b')]))[1]
        e.call(e.get(H, 'heston_cosine_price_vanilla_european'), [], dict(cp=num(1), L=P('L'), **o))
        c.need(len(rng) == 1, 'truncation range')
        d = rng[0]
        c.must(d.get('model') == 'heston', 'truncation range of model %r' % (d.get('model'),))
        c.eq(d['L'], P('L'), label='width of the truncation range')
        rec = e.rec(d['model_param'])
        for n in ('tau', 'var0', 'vv', 'kappa', 'theta', 'rho'):
            c.eq(rec.f[vals.vkey(n)][1], o[n], label='model parameter %s of the truncation range' % n)
        c.eq(rec.f[vals.vkey('mu')][1], o['r'] - o['q'], label='drift of the truncation range')
    c.obligation('cosine/truncation-args', 'truncation range computed for the model being priced', passed)

    pr = {'heston_cosine': ('heston_cosine_price_vanilla_european', []),
          'heston_1993': ('heston1993_price_vanilla_european', [('lambda_', 'lam')]),
          'heston_carr_madan_gauss_kronrod_quadrature': ('heston_carr_madan_price_vanilla_european', [('integration_method', 0)]),
          'heston_carr_madan_fft_w_simpsons': ('heston_carr_madan_price_vanilla_european', [('integration_method', 1)]),
          'heston_lipton': ('heston_lipton_price_vanilla_european', [])}
    base = ['S0', 'tau', 'r', 'q', 'cp', 'K', 'var0', 'vv', 'kappa', 'theta', 'rho']
    for meth, (fname, extra) in sorted(pr.items()):
        def disp(meth=meth, fname=fname, extra=extra):
            e = c.engine()
            o = opts()
            o['cp'] = CP()
            for f, x in pr.values():
                ns = base + [n for n, _ in x]
                if H + '.' + f not in e.overrides:
                    e.overrides[H + '.' + f] = summary(f, ns)
            r = e.call(e.get(H, 'heston_price_vanilla_european'), [], dict(o, lambda_=R('lam'), pricing_method=meth))
            want = fn(fname, tuple(o[n] for n in base) + tuple(R('lam') if v == 'lam' else num(v) for _, v in extra), arr=True)
            c.eq(r, want, label='method %r' % meth)
        c.obligation('dispatch/%s' % meth, 'every documented method reaches its own pricer with the caller\'s arguments', disp)
    return 17


def atom_n(val):
    """log-derivative of the damping: val = exp(-al * ku) * ..., returns al (constant)"""
    if not (isinstance(val, Expr) and val.single()):
        return None
    (m, _), = val.t.items()
    for a, v in m:
        k = alg.ATOMS[a]
        if k.name == 'exp' and any(alg.ATOMS[x].name == 'arange' for x in alg.deep_atoms(k.args[0])):
            ar = [x for x in alg.deep_atoms(k.args[0]) if alg.ATOMS[x].name == 'arange'][0]
            return k.args[0], v
    return None


def cmf(v, al, o, names):
    """transform of the damped discounted payoff, al the signed damping exponent"""
    a = dict(o, u=v - (al + one) * I(), log_S0=log(o['S0']))
    ch = fn('chf', tuple(a[n] for n in names), arr=True, real=False)
    return ch * exp(-o['r'] * o['tau']) / (al ** 2 + al - v ** 2 + I() * (num(2) * al + one) * v)


def p09(c):
    CORR = 'frm.pricing_engine.monte_carlo_generic.normal_corr'

    def run(fname, meth):
        e = c.engine()
        e.overrides[CORR] = summary('corr', ['C', 'rand_nbs'])
        Z = sym('Z', arr=True, pos=False)
        p = dict(S0=P('S0'), mu=R('mu'), var0=P('var0'), vv=P('vv'), kappa=P('kappa'), theta=P('theta'), rho=R('rho'), tau=P('tau'))
        r = e.call(e.get(H, fname), [], dict(p, rand_nbs=Z, method=meth))
        c.need(isinstance(r, ArrW), 'paths are not built row by row')
        loops = [w for w in r.writes if w[2] is not None]
        c.need(loops and len({id(w[2]) for w in loops}) == 1, 'time stepping loop not recognised')
        lp = loops[0][2]
        k0 = min(i for i, w in enumerate(r.writes) if w[2] is not None)
        k1 = max(i for i, w in enumerate(r.writes) if w[2] is not None)
        pre, post = ArrW(r.base, r.writes[:k0]), r.writes[k1 + 1:]
        c.need(all(w[2] is not None for w in r.writes[k0:k1 + 1]), 'time stepping loop not recognised')
        for comp, want in ((0, p['S0'] if meth[0] == 'e' else log(p['S0'])), (1, p['var0'])):
            c.eq(e.models.index(e, pre, Tup([num(0), num(comp)]), None), want, label='row 0, component %d' % comp)
        w = sym('@w', pos=False, nonneg=True)          # row being produced: w + 1 from w
        lo = lp.iter.lo if isinstance(lp.iter, RangeV) else None
        c.need(lo is not None and equal(lp.iter.step, one), 'range of the time stepping loop')
        prev = [R('@p0'), NN('@p1') if meth[0] == 'q' else R('@p1')]
        out = {}
        shift = None
        for ix, v, _ in loops:
            c.need(len(ix) == 2 and isinstance(ix[0], Expr) and isinstance(ix[1], Expr), 'written element %s' % (ix,))
            d = ix[0] - lp.var
            c.need(d.is_const(), 'written row')
            out.setdefault(int(d.const()), {})[int(ix[1].const())] = v
        top = max(out)
        c.must(set(out[top]) == {0, 1}, 'a time step does not update both price and variance')
        c.must(equal(lp.iter.lo + (num(top) - lo), num(top)) and equal(num(top) + lp.iter.hi - lp.iter.lo - one, fn('len', (Z,), nonneg=True, arr=False)) and top == 1,
               'rows written by the time steps are %s to %s' % (top, show(num(top) + lp.iter.hi - lp.iter.lo - one)))

        def norm(v):
            def leaf(x):
                if not isinstance(x, Expr):
                    return x
                x = subst(x, {sid(lp.var): w})
                mp = {}
                for a in alg.deep_atoms(x):
                    A = alg.ATOMS[a]
                    if A.name == 'sel' and isinstance(A.args[0], Expr):
                        b = atom_of(A.args[0])
                        if b is not None and b.kind == 'sym' and str(b.name).startswith('@S%d.' % lp.id):
                            if equal(A.args[1], w):
                                mp[a] = prev[int(A.args[2].const())]
                return subst(x, mp)
            return map_all(v, leaf)
        return e, p, Z, w, prev, {k: norm(v) for k, v in out[top].items()}, out, post, ArrW(r.base, r.writes[:k1 + 1]), norm

    for fname in ('heston_simulate', 'heston_simulate_scalar'):
        def qe(fname=fname):
            e, p, Z, w, prev, step, out, post, full, norm = run(fname, 'quadratic_exponential')
            x, v = prev
            dt = p['tau'] / fn('len', (Z,), nonneg=True, arr=False)
            zs, zv = sel(Z, w, num(0)), sel(Z, w, num(1))
            k, th, s, rho = p['kappa'], p['theta'], p['vv'], p['rho']
            E = exp(-k * dt)
            m = th + (v - th) * E
            s2 = v * s ** 2 * E / k * (one - E) + th * s ** 2 / (num(2) * k) * (one - E) ** 2
            phi = s2 / m ** 2
            b2 = num(2) / phi - one + sqrt(num(2) / phi * (num(2) / phi - one))
            quad = m / (one + b2) * (sqrt(b2) + zv) ** 2
            pr = (phi - one) / (phi + one)
            beta = (one - pr) / m
            U = cdf(zv)
            expo = ite(vals.gt0(U - pr), log((one - pr) / (one - U)) / beta, num(0))
            nv = ite(vals.gt0(phi - num(Fr(3, 2))), expo, quad)
            c.eq(step[1], nv, label='variance')
            g = HALF * dt

            def price(v2):
                return x + p['mu'] * dt - rho * k * th / s * dt + (g * (k * rho / s - HALF) - rho / s) * v + (g * (k * rho / s - HALF) + rho / s) * v2 \
                    + sqrt(g * (one - rho ** 2) * (v + v2)) * zs
            c.eq(step[0], vals.lift1(price, step[1]), label='log price')
            c.need(len(post) == 1 and len(post[0][0]) >= 1, 'conversion of log price to price not recognised')
            ix, val, _ = post[0]
            from fsa.interp import SliceV
            c.must(len(ix) == 2 and isinstance(ix[1], Expr) and not ix[1].t, 'conversion to price applies to component %s' % (ix[1:],))
            col = e.models.index(e, full, Tup([SliceV(None, None, None), num(0)]), None)
            c.eq(val, exp(col), label='price path')
        c.obligation('qe/%s' % fname, 'Andersen quadratic-exponential variance step (switch at psi = 1.5) and central log-price step', qe)
        for meth in ('euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process'):
            def eu(fname=fname, meth=meth):
                e, p, Z, w, prev, step, out, post, full, norm = run(fname, meth)
                x, v = prev
                dt = p['tau'] / fn('len', (Z,), nonneg=True, arr=False)
                C = Tup([Tup([one, p['rho']]), Tup([p['rho'], one])])
                u = e.opaque('corr', C, Z, arr=True)
                f = maximum(v, num(0)) if 'absorption' in meth else absf(v)
                us, uv = sel(u, w, num(0)) * sqrt(dt), sel(u, w, num(1)) * sqrt(dt)
                c.eq(step[1], f + p['kappa'] * (p['theta'] - f) * dt + p['vv'] * sqrt(f) * uv, label='variance')
                c.eq(step[0], x * (one + p['mu'] * dt + sqrt(f) * us), label='price')
                c.need(not post, 'paths are changed after the time steps')
                if 0 in out:
                    if 0 in out[0]:
                        c.eq(norm(out[0][0]), x, label='price before the step')
                    if 1 not in out[0]:
                        return
                    c.eq(norm(out[0].get(1)), f, label='variance after absorption/reflection')
            c.obligation('%s/%s' % (meth[:15].replace('_with_', '-'), fname), 'Euler step with correlated increments and full truncation or reflection of the variance', eu)

        def unknown(fname=fname):
            e = c.engine()
            Z = sym('Z', arr=True, pos=False)
            p = dict(S0=P('S0'), mu=R('mu'), var0=P('var0'), vv=P('vv'), kappa=P('kappa'), theta=P('theta'), rho=R('rho'), tau=P('tau'))
            for m in ('milstein', 'euler', 'euler_with_truncation'):
                e = c.engine()
                try:
                    e.call(e.get(H, fname), [], dict(p, rand_nbs=Z, method=m))
                except Dead:
                    continue
                c.must(False, 'method %r is accepted' % m)
        c.obligation('unknown/%s' % fname, 'an unknown method is rejected', unknown)
    return 8


def map_all(v, leaf):
    """apply leaf to every expression of a gated value, conditions included"""
    from fsa.interp import map_cond
    memo = {}

    def go(x):
        if not isinstance(x, vals.Node):
            return leaf(x) if isinstance(x, Expr) else x
        r = memo.get(id(x))
        if r is None:
            r = vals.ite(map_cond(x.var, leaf), go(x.hi), go(x.lo))
            memo[id(x)] = r
        return r
    return go(v)


def p10(c):
    G = 'frm.pricing_engine.garman_kohlhagen.'
    for meth in ('heston_cosine', 'heston_1993', 'heston_lipton', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons'):
        def cal(meth=meth):
            e = c.engine()
            on = ['S0', 'tau', 'r', 'q', 'cp', 'K', 'var0', 'vv', 'kappa', 'theta', 'rho']
            inn = ['S0', 'tau', 'r_d', 'r_f', 'cp', 'K', 'X']
            sn = ['S0', 'tau', 'r_d', 'r_f', 'vol', 'signed_delta', 'delta_convention']

            def general(eng, env):
                # the general pricer with the cosine method is the cosine pricer (P08)
                if env['pricing_method'] == 'heston_cosine':
                    return eng.opaque('heston_cosine', *[env[n] for n in on], arr=True)
                return eng.opaque(str(env['pricing_method']), *[env[n] for n in on + ['lambda_']], arr=True)
            e.overrides[H + '.heston_price_vanilla_european'] = general
            e.overrides[H + '.heston_cosine_price_vanilla_european'] = summary('heston_cosine', on)
            e.overrides[G + 'garman_kohlhagen_solve_implied_vol'] = summary('iv', inn)
            e.overrides[G + 'garman_kohlhagen_solve_strike_from_delta'] = summary('strike', sn)
            e.overrides['ext:numpy.isnan'] = lambda eng, a, k, node: False
            V, D, cp = sym('V', arr=True), sym('D', arr=True, pos=False), sym('cp', sq1=True, arr=True)
            a = dict(volatility_quotes=V, delta_of_quotes=D, S0=P('S0'), r=R('r'), q=R('q'), tau=P('tau'), cp=cp, delta_convention='regular_spot', pricing_method=meth)
            r = e.call(e.get(H, 'heston_calibrate_vanilla_smile'), [], a)
            c.need(len(e.solvers) == 1, '%d minimisations' % len(e.solvers))
            s = e.solvers[0]
            K = e.opaque('strike', a['S0'], a['tau'], a['r'], a['q'], V, D, 'regular_spot', arr=True)
            x = c.items(e, s['at'])
            c.need(x is not None and len(x) == 3, 'the minimised vector has %s components' % (x and len(x)))
            kap = None
            for lits, leaf in vals.leaves(r):
                its = c.items(e, leaf)
                if its is not None:
                    c.must(len(its) == 8, '%d results' % len(its))
                    kap = its[2] if kap is None else kap
                    res = its
            c.need(kap is not None and kap.is_const(), 'mean reversion speed not recognised')
            mid = sel(V, fn('floordiv', (fn('len', (K,), nonneg=True, arr=False), num(2)), arr=False))
            # the returned parameters identify which component of the minimised vector is which
            root = [alg.ATOMS[n] for n in alg.deep_atoms(res[1])]
            order = {}
            for nm, val in (('vv', res[1]), ('theta', res[3]), ('rho', res[4])):
                A = atom_of(val)
                c.need(A is not None and A.name == 'sel' and A.args[1].is_const(), 'returned %s is not a component of the solution: %s' % (nm, show(val)))
                order[nm] = int(A.args[1].const())
            c.must(sorted(order.values()) == [0, 1, 2], 'returned parameters do not use every component of the solution once: %s' % order)
            vv, th, rho = (x[order[n]] for n in ('vv', 'theta', 'rho'))

            def fit(vv, th, rho):
                o = dict(S0=a['S0'], tau=a['tau'], r=a['r'], q=a['q'], cp=cp, K=K, var0=res[0], vv=vv, kappa=kap, theta=th, rho=rho)
                px = e.opaque(meth, *[o[n] for n in on] + ([] if meth == 'heston_cosine' else [res[5]]), arr=True)
                iv = ite(vals.lt0(px), num(-1), e.opaque('iv', a['S0'], a['tau'], a['r'], a['q'], cp, K, px, arr=True))
                return iv, vals.lift1(lambda y: c.total((V - y) ** 2), iv)
            iv, sse = fit(vv, th, rho)
            valid = vals.b_and(vals.b_not(vals.lt0(vv)), vals.b_and(vals.b_not(vals.lt0(th)), vals.b_not(vals.gt0(absf(rho) - one))))
            c.eq(s['body'], sse, pc=valid, label='objective at (vv, theta, rho)')
            c.eq(res[0], mid ** 2, label='initial variance')
            back = {sid(x[order[n]]): v for n, v in (('vv', res[1]), ('theta', res[3]), ('rho', res[4]))}
            n = 0
            iv1, sse1, ok = e.subst_val(iv, back), e.subst_val(sse, back), e.subst_val(valid, back)
            c.eq(vals.lift1(lambda t: c.items(e, t)[6] if c.items(e, t) is not None else ANY, r), iv1, pc=ok, label='reported implied volatilities', cmp=lambda p, q, l: p is ANY)
            c.eq(vals.lift1(lambda t: c.items(e, t)[7] if c.items(e, t) is not None else ANY, r), sse1, pc=ok, label='reported sum of squared errors', cmp=lambda p, q, l: p is ANY)
        c.obligation('calibrate/%s' % meth, 'least squares over (vol of vol, long-run variance, correlation); the reported fit is that of the returned parameters', cal)
    return 5
