"""P11 GBM paths, random numbers, correlation; P12 Clewlow-Strickland; P14 forward volatility."""
from fsa.spec import *
from fsa.chk import ANY, show, summary, Undecided, Mismatch
from fsa import interp
from fsa.interp import Tup, ArrW, RangeV, Dead
from checks.refused import refused

PE = 'frm.pricing_engine.'
one = num(1)


def atom_of(e):
    """the atom e consists of, or None"""
    if isinstance(e, Expr) and len(e.t) == 1:
        (m, k), = e.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return alg.ATOMS[m[0][0]]
    return None


def sel(a, *ix):
    return fn('sel', (a,) + ix, arr=True)


def const_shift(e, v):
    """e = v + c"""
    d = e - v
    return d.const() if d.is_const() else None


def recurrence(c, arr, what):
    """loop-written array: (write at row 0, [step as function of row w], prev symbol, w, loop)

    the step is the value stored into row w of the array, with the read of row w-1 replaced by `prev`"""
    c.need(isinstance(arr, ArrW), '%s is not built row by row' % what)
    init, steps = [], []
    for ix, v, lp in arr.writes:
        (init if lp is None else steps).append((ix, v, lp))
    c.need(len(steps) == 1, '%s: %d loop writes' % (what, len(steps)))
    ix, v, lp = steps[0]
    k = const_shift(ix[0], lp.var)
    c.need(k is not None, '%s: written row %s' % (what, ix))
    w = sym('@w%d' % lp.id, pos=False)
    back = {sid(lp.var): w - num(k)}
    prev = sym('@prev', pos=False, arr=True)

    def one_leaf(x):
        if not isinstance(x, Expr):
            return x
        x = subst(x, back)
        mp = {}
        for a in alg.deep_atoms(x):
            A = alg.ATOMS[a]
            if A.name == 'sel' and isinstance(A.args[0], Expr):
                b = atom_of(A.args[0])
                if b is not None and b.kind == 'sym' and str(b.name).startswith('@S%d.' % lp.id):
                    r = A.args[1]
                    c.must(isinstance(r, Expr) and equal(r, w - one), '%s: row w is computed from row %s instead of the preceding row' % (what, show(r)))
                    mp[a] = prev
        return subst(x, mp)
    return init, vals.lift1(one_leaf, v), prev, w, lp, ix[1:], k


def span(c, lp, k):
    """first and last row written when iteration number i writes row i + k"""
    it = lp.iter
    if isinstance(it, Expr) or isinstance(it, interp.IterV) and it.kind in ('enumerate', 'zip'):
        e = c.engines[-1]
        n = {e.models.length(e, p) for p in (it.parts if isinstance(it, interp.IterV) else [it])}
        whole = not any(isinstance(p, Expr) and any(equal(p, q) for q in e.trimmed) for p in (it.parts if isinstance(it, interp.IterV) else [it]))
        c.need(len(n) == 1 and isinstance(min(n, key=id), Expr) and whole, 'loop range not recognised')
        return num(k), num(k) + n.pop() - one
    c.need(isinstance(it, RangeV), 'loop range not recognised')
    st = it.step if it.step is not None else one
    c.need(equal(st, one), 'loop step %s' % show(st))
    return num(k), num(k) + it.hi - it.lo - one


def row0(c, init, want, what):
    for ix, v, _ in init:
        if ix and isinstance(ix[0], Expr) and not ix[0].t:
            c.eq(v, want, label='%s, row 0' % what)
            return
    c.must(False, '%s: row 0 is never set' % what)


def arr(n, **k):
    return sym(n, arr=True, pos=k.pop('pos', False), **k)


def p11(c):
    def gbm():
        e = c.engine()
        f = e.get(PE + 'geometric_brownian_motion', 'simulate_gbm_path')
        S0, mu, vol, dt, Z = arr('S0', pos=True), arr('mu'), arr('vol', pos=True), arr('dt', pos=True), arr('Z')
        r = e.call(f, [], dict(initial_px=S0, drift=mu, forward_volatility=vol, timestep_length=dt, rand_nbs=Z))
        init, step, prev, w, lp, rest, k = recurrence(c, r, 'path')
        row0(c, init, S0, 'path')
        i = w - one
        d, v, m, z = sel(dt, i), sel(vol, i), sel(mu, i), sel(Z, i)
        c.eq(step, prev * exp((m - HALF * v ** 2) * d + v * sqrt(sub_pos(d)) * z), label='path, row w from row w-1 (period w-1)')
        first, last = span(c, lp, k)
        c.must(equal(first, one), 'the first step written is row %s' % show(first))
        c.must(any(equal(last, fn(x, (dt,), nonneg=True)) for x in ('len', 'size')), 'steps are written up to row %s' % show(last))
    c.obligation('gbm', 'exact log-normal step: each row is the preceding row times exp((mu - vol^2/2) dt + vol sqrt(dt) z) of that period', gbm)

    for n in (2, 3):
        def corr(n=n):
            e = c.engine()
            f = e.get(PE + 'monte_carlo_generic', 'normal_corr')
            rho = {}
            C = []
            for i in range(n):
                C.append(Tup([num(1) if i == j else rho.setdefault(frozenset((i, j)), sym('rho%d%d' % (min(i, j), max(i, j)), pos=False)) for j in range(n)]))
            z = [sym('z%d' % i, pos=False) for i in range(n)]
            r = e.call(f, [], dict(C=Tup(C), rand_nbs=Tup(z)))
            its = c.items(e, r)
            c.need(its is not None and len(its) == n, 'result is not a vector of %d variates: %s' % (n, show(r)))
            co = [[diff(x, y) for y in z] for x in its]
            for i in range(n):
                rest = its[i]
                for j in range(n):
                    rest = rest - co[i][j] * z[j]
                c.must(equal(rest, num(0)), 'variate %d is not linear in the draws' % i)
                for j in range(i + 1):
                    cov = num(0)
                    for k in range(n):
                        cov = cov + co[i][k] * co[j][k]
                    want = C[i].items[j]
                    c.must(equal(cov, want), 'covariance of variates %d and %d is %s, not %s' % (i, j, show(cov), show(want)))
        c.obligation('correlation/%d' % n, 'variates built from independent draws have exactly the requested correlation matrix', corr)

    def draws():
        e = c.engine()
        f = e.get(PE + 'monte_carlo_generic', 'generate_rand_nbs')
        ns, nv, n = sym('ns'), sym('nv'), sym('n')
        r = e.call(f, [], dict(nb_steps=ns, nb_rand_vars=nv, nb_simulations=n, apply_antithetic_variates=False, random_seed=sym('seed')))
        a = atom_of(r)
        c.need(a is not None, 'draws not recognised: %s' % show(r))
        std_normal(c, a, [ns, nv, n])
    c.obligation('draws', 'independent standard normal draws of shape (steps, variables, simulations)', draws)

    def anti():
        e = c.engine()
        f = e.get(PE + 'monte_carlo_generic', 'generate_rand_nbs')
        ns, nv, n = sym('ns'), sym('nv'), sym('n')
        r = e.call(f, [], dict(nb_steps=ns, nb_rand_vars=nv, nb_simulations=n, apply_antithetic_variates=True, random_seed=sym('seed')))
        half = fn('floordiv', (n, num(2)))
        a = atom_of(r)
        idx = None
        if a is not None and a.name == 'sel':
            idx = a.args[-1]
            c.must(all(x == ':' for x in a.args[1:-1]), 'antithetic reindexing is not along the simulation axis')
            a = atom_of(a.args[0])
        c.need(a is not None and a.name == 'concat' and len(a.args) == 3 and a.args[2].is_const() and a.args[2].const() in (2, -1), 'antithetic construction not recognised: %s' % show(r))
        Z, mirror = a.args[0], a.args[1]
        z = atom_of(Z)
        c.need(z is not None, 'draws not recognised')
        m = -mirror
        ma = atom_of(m)
        c.must(equal(m, Z) or ma is not None and ma.name == 'sel' and equal(ma.args[0], Z), 'the second half is not the negative of the first draws: %s' % show(mirror))
        first = z.args[-1]
        nz = e.rec_items(first)[-1] if hasattr(e, 'rec_items') else atom_of(first).args[-1]
        std_normal(c, z, [ns, nv, nz])
        if equal(m, Z):
            nm = nz
        else:
            c.must(all(x == ':' for x in ma.args[1:-1]), 'antithetic part is not taken along the simulation axis')
            lo, hi, st = atom_of(ma.args[-1]).args
            c.must(lo is None or not lo.t, 'antithetic part does not start at the first draw')
            nm = hi
        c.must(equal(nz + nm, n), 'number of simulations produced is %s, not %s' % (show(nz + nm), show(n)))
        c.must(equal(nm, half), 'number of mirrored simulations is %s' % show(nm))
        if idx is not None:
            reidx(c, idx, nz, nm, n)
    c.obligation('antithetic', 'every mirrored simulation is the exact negative of a drawn one; count of simulations as requested', anti)
    return 5


def reidx(c, idx, nz, nm, n):
    """index = columns (0..nm-1 | nz..nz+nm-1), then the unpaired draws nm..nz-1"""
    a = atom_of(idx)
    tail = None
    if a is not None and a.name == 'concat' and len(a.args) == 2:
        tail = a.args[1]
        a = atom_of(a.args[0])
    c.need(a is not None and a.name == 'column_stack' and len(a.args) == 2, 'reindexing not recognised: %s' % show(idx))
    ar = fn('arange', (num(0), nm, one), arr=True)
    c.must(equal(a.args[0], ar) and equal(a.args[1], ar + nz), 'reindexing does not pair draw i with its mirror image: %s' % show(idx))
    c.must(tail is not None, 'the unpaired draw of an odd number of simulations is dropped')
    c.must(equal(tail, fn('arange', (num(0), nz - nm, one), arr=True) + nm), 'unpaired draws: %s' % show(tail))


def std_normal(c, a, shape):
    c.must(a.name == 'rand.normal' and len(a.args) == 4, 'not a normal draw: %s' % a.name)
    c.must(equal(a.args[1], num(0)) and equal(a.args[2], num(1)), 'draws are not standard normal: mean %s, deviation %s' % (show(a.args[1]), show(a.args[2])))
    sh = atom_of(a.args[3])
    c.need(sh is not None and sh.name == 'tup', 'shape not recognised')
    c.must(len(sh.args) == len(shape) and all(isinstance(x, Expr) and equal(x, y) for x, y in zip(sh.args, shape)), 'shape of the draws is %s' % show(a.args[3]))


def sub_pos(d):
    """period length read from a positive array"""
    return d


def progression(e):
    """a*arange(lo,hi,st)+b -> (start, step, count)"""
    for a in alg.atoms_of(e):
        A = alg.ATOMS[a]
        if A.name == 'arange':
            x = alg.atom_expr(A)
            k = diff_lin(e, a)
            if k is None:
                return None
            b = e - k * x
            if a in alg.deep_atoms(b):
                return None
            lo, hi, st = A.args
            return lo * k + b, st * k, (hi - lo) / st
    return None


def diff_lin(e, a):
    out = {}
    for m, k in e.t.items():
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None
            d.pop(a)
            out[tuple(sorted(d.items()))] = k
    return Expr(out)


def p12(c):
    P1 = lambda n: sym(n)
    seg, T, al, sg, n = sym('seg'), sym('T'), sym('alpha'), sym('sigma'), sym('n')

    def run():
        e = c.engine()
        f = e.get(PE + 'clewlow_strickland_1_factor', 'clewlow_strickland_1_factor_simulate')
        s = dict(fc=sym('fc', arr=True), seg=sym('seg'), T=sym('T'), al=sym('alpha', pos=False), sg=sym('sigma'), n=sym('n'))
        r = e.call(f, [], dict(forward_curve=s['fc'], nb_simulations=s['n'], segments_per_day=s['seg'], T=s['T'], alpha=s['al'], sigma=s['sg']))
        return e, r, s

    def inner(e):
        """the time-stepping loop: the innermost loop writing an array from its preceding row"""
        out = []
        for lp in e.loops:
            for k, (init, s, nxt) in lp.state.items():
                if isinstance(nxt, ArrW) and len(nxt.writes) == 1 and nxt.base is not None and isinstance(nxt.base, Expr) and isinstance(s, Expr) and equal(nxt.base, s) \
                        and any(isinstance(x, Expr) and alg.sid(s) in alg.deep_atoms(x) for _, x in vals.leaves(nxt.writes[0][1])):
                    ix, v, l2 = nxt.writes[0]
                    if l2 is None and isinstance(ix[0], Expr) and const_shift(ix[0], lp.var) is not None:
                        out.append((lp, k, ArrW(nxt.base, [(ix, v, lp)]), init))
        c.need(len(out) >= 1, 'no time-stepping loop')
        return out[-1]

    def curve(s):
        nseg = fn('int', (s['seg'],), pos=True)
        return nseg

    def step():
        e, r, s = run()
        lp, k, a, init = inner(e)
        _, v, prev, w, lp, rest, sh = recurrence(c, a, 'log spot')
        nseg = fn('int', (s['seg'],), pos=True)
        dt = one / nseg
        vs = [x for _, x in vals.leaves(v) if isinstance(x, Expr)]
        its = [alg.ATOMS[x] for x in sorted(set().union(*(alg.deep_atoms(y) for y in vs))) if str(alg.ATOMS[x].name).startswith('interp')]
        c.must(len(set(x.id for x in its)) == 1, 'the forward curve is not read from a single interpolation')
        F = its[0]
        fc = s['fc']
        c.must('linear' in F.name and equal(F.args[1], sel(fc, ':', num(0))) and equal(F.args[2], sel(fc, ':', one)), 'forward curve is interpolated as %s' % show(alg.atom_expr(F)))
        pr = progression(F.args[0])
        c.need(pr is not None, 'time grid not recognised: %s' % show(F.args[0]))
        c.must(not pr[0].t and equal(pr[1], dt), 'time grid starts at %s with step %s, not 0 and 1/segments' % (show(pr[0]), show(pr[1])))
        Fx = alg.atom_expr(F)
        f0, f1, t0 = log(sel(Fx, w - one)), log(sel(Fx, w)), (w - one) * dt
        zs = [alg.ATOMS[x] for x in sorted(set().union(*(alg.atoms_of(y) for y in vs))) if alg.ATOMS[x].name == 'sel' and 'rand.normal' in show(alg.ATOMS[x].args[0])]
        c.must(len(zs) == 1, 'the step does not use exactly one random draw')
        z = zs[0]
        c.must(equal(z.args[1], w - one), 'row w uses the draw of step %s' % show(z.args[1]))
        zz = alg.atom_expr(z)
        spec = prev + (f1 - f0) + (s['al'] * (f0 - prev) - num(Fr(1, 4)) * s['sg'] ** 2 * (one + exp(num(-2) * s['al'] * t0))) * dt + s['sg'] * sqrt(dt) * zz
        c.eq(v, spec, label='log spot, row w from row w-1')
        first, last = span(c, lp, sh)
        c.must(equal(first, one), 'first simulated row is %s' % show(first))
        st = atom_of(last + one)
        whole = st is not None and st.name in ('len', 'size') and str(getattr(atom_of(st.args[0]), 'name', '')).startswith('@S')
        c.must(whole or equal(last + one, pr[2]), 'rows simulated up to %s but the time grid has %s points' % (show(last), show(pr[2])))
    def seeds():
        e = c.engine()
        seen = []
        e.overrides[PE + 'monte_carlo_generic.generate_rand_nbs'] = lambda eng, env: (seen.append(env['random_seed']), NotImplemented)[1]
        e.call(e.get(PE + 'clewlow_strickland_1_factor', 'clewlow_strickland_1_factor_simulate'), [], dict(forward_curve=sym('fc', arr=True), nb_simulations=sym('n'), segments_per_day=sym('seg'), T=sym('T'), alpha=sym('alpha', pos=False), sigma=sym('sigma')))
        for s in seen:
            if s is None:
                continue
            js = {alg.sid(l.var): l.var for l in e.loops if isinstance(l.var, Expr)}
            at = [v for _, leaf in vals.leaves(s) for v in js if isinstance(leaf, Expr) and v in alg.deep_atoms(leaf)]
            c.must(at, 'every batch of simulations draws the same numbers: seed %s' % show(s))
            got = [e.subst_val(s, {at[0]: num(k)}) for k in range(12)]
            c.need(all(isinstance(x, Expr) for x in got), 'seed %s' % show(s))
            c.must(not any(alg.equal(got[i], got[k]) for i in range(12) for k in range(i)), 'two batches of simulations draw the same numbers: seed %s' % show(s))
    c.obligation('batches', 'simulations of different batches draw different numbers', seeds)
    c.obligation('step', 'Clewlow-Strickland log-spot step: forward-curve drift, mean reversion, variance correction, sigma sqrt(dt) noise', step)

    def out():
        e, r, s = run()
        lp, k, a, init = inner(e)
        nseg = fn('int', (s['seg'],), pos=True)
        # initial row
        outer = [l for l in e.loops if any(isinstance(st[0], ArrW) and k2 == k for k2, st in l.state.items())]
        c.need(outer, 'no initial row')
        w0 = outer[0].state[k][0].writes[0]
        F = [alg.atom_expr(alg.ATOMS[x]) for x in alg.deep_atoms(w0[1]) if str(alg.ATOMS[x].name).startswith('interp')]
        c.must(len(F) == 1 and isinstance(w0[0][0], Expr) and not w0[0][0].t and equal(w0[1], log(sel(F[0], num(0)))), 'path does not start at the log of the spot end of the forward curve: %s' % show(w0[1]))
        seen = 0
        for l in e.loops:
            for nm, (i0, st, nxt) in l.state.items():
                for lits, leaf in vals.leaves(nxt):
                    if not isinstance(leaf, ArrW) or nm == k:
                        continue
                    for ix, v, _ in leaf.writes:
                        for l2, x in vals.leaves(v):
                            if x is UNDEF or not isinstance(x, Expr):
                                continue
                            y = atom_of(log(x))
                            c.must(y is not None and y.name == 'sel' and 'arrw' in show(y.args[0]), 'reported prices are not the exponential of the simulated log spot: %s' % show(x))
                            pr = progression(y.args[1]) if isinstance(y.args[1], Expr) else None
                            c.need(pr is not None, 'reported rows not recognised: %s' % show(y.args[1]) if isinstance(y.args[1], Expr) else 'reported rows not recognised')
                            c.must(not pr[0].t and equal(pr[1], nseg) and equal(pr[2], s['T'] + one), 'reported rows start %s, step %s, count %s' % tuple(show(q) for q in pr))
                            seen += 1
        c.need(seen >= 1, 'no reported prices')
    c.obligation('output', 'one row per day 0..T: the exponential of the simulated log spot at that day, starting at the spot price', out)
    return 2


def p14(c):
    G = PE + 'volatility_generic'

    def v(n, arr_):
        return sym(n, arr=arr_)
    def one_of(what, bad, n, at):
        def ob():
            e = c.engine()
            e.exact_shapes = True
            rows = [bad if i == at else (one, num(Fr(1, 5)), num(2), num(Fr(3, 10))) for i in range(n)]
            a = [Tup(list(x)) for x in zip(*rows)]
            refused(e, lambda: e.call(e.get(G, 'forward_volatility'), [], dict(zip(('t1', 'vol_t1', 't2', 'vol_t2'), a))), '%s in place %d of %d' % (what, at, n))
        c.obligation('one/%s/%d-%d' % (what, at, n), 'one second time before the first, or one negative forward variance, among valid ones is rejected', ob)
    for n, at in ((2, 0), (2, 1), (3, 1), (5, 4)):
        one_of('decreasing', (num(2), num(Fr(1, 5)), one, num(Fr(2, 5))), n, at)
        one_of('earlier', (num(2), num(Fr(2, 5)), one, num(Fr(1, 5))), n, at)
        one_of('negative', (one, num(Fr(1, 2)), num(2), num(Fr(1, 10))), n, at)
    for ar in (True, False):
        tag = 'arrays' if ar else 'scalars'

        def fwd(ar=ar):
            e = c.engine()
            f = e.get(G, 'forward_volatility')
            t1, d, v1, v2 = v('t1', ar), v('d', ar), v('v1', ar), v('v2', ar)
            r = e.call(f, [], dict(t1=t1, vol_t1=v1, t2=t1 + d, vol_t2=v2))
            c.eq(vals.lift1(lambda x: x ** 2 * d + v1 ** 2 * t1, r), v2 ** 2 * (t1 + d), label='total variance of the first period plus forward variance')
            var = v2 ** 2 * (t1 + d) - v1 ** 2 * t1
            ok = any(not vals.sat(vals.b_and(lt0(var), vals.b_not(unany(x[0])))) for x in e.raises)
            c.must(ok, 'a negative forward variance is not rejected')
        c.obligation('forward/' + tag, 'variance is additive in time; a negative forward variance is rejected', fwd)

        def order(ar=ar):
            e = c.engine()
            f = e.get(G, 'forward_volatility')
            t1, d, v1, v2 = v('t1', ar), v('d', ar), v('v1', ar), v('v2', ar)
            try:
                r = e.call(f, [], dict(t1=t1 + d, vol_t1=v1, t2=t1, vol_t2=v2))
            except Dead:
                return
            dead = True
            for x in e.raises:
                if vals.sat(unany(x[0])) and not vals.sat(vals.b_not(unany(x[0]))):
                    return
            c.must(False, 'decreasing times are not rejected: returns %s' % show(r))
        c.obligation('decreasing/' + tag, 'second time before first is rejected', order)

        def same(ar=ar):
            e = c.engine()
            f = e.get(G, 'forward_volatility')
            t1, v1, v2 = v('t1', ar), v('v1', ar), v('v2', ar)
            r = e.call(f, [], dict(t1=t1, vol_t1=v1, t2=t1, vol_t2=v2))
            for lits, leaf in vals.leaves(r):
                c.must(isinstance(leaf, Expr) and any(alg.ATOMS[a].name == 'nan' for a in alg.deep_atoms(leaf)), 'equal times give %s, not NaN' % show(leaf))
        c.obligation('equal/' + tag, 'equal times give NaN', same)

        def interp(ar=ar):
            e = c.engine()
            f = e.get(G, 'flat_forward_interp')
            t1, d, v1, v2, t = v('t1', ar), v('d', ar), v('v1', ar), v('v2', ar), v('t', ar)
            r = e.call(f, [], dict(t1=t1, vol_t1=v1, t2=t1 + d, vol_t2=v2, t=t))
            w1, w2 = v1 ** 2 * t1, v2 ** 2 * (t1 + d)
            c.eq(vals.lift1(lambda x: x ** 2 * t, r), w1 + (w2 - w1) * (t - t1) / d, label='interpolated total variance')
            c.eq(vals.lift1(lambda x: subst(x, {sid(t): t1}), r), v1, label='interpolated volatility at the first pillar')
            c.eq(vals.lift1(lambda x: subst(x, {sid(t): t1 + d}), r), v2, label='interpolated volatility at the second pillar')
        c.obligation('interp/' + tag, 'total variance is linear in time between the pillars and reproduces both', interp)

        def flat(ar=ar):
            e = c.engine()
            f = e.get(G, 'flat_forward_interp')
            t1, v1 = v('t1', ar), v('v1', ar)
            r = e.call(f, [], dict(t1=t1, vol_t1=v1, t2=t1, vol_t2=v1, t=t1))
            c.eq(r, v1, label='volatility on a pillar')
        c.obligation('pillar/' + tag, 'a date on a pillar takes the pillar volatility', flat)
    return 10


def unany(x):
    """condition with element-wise any(...) read at one element"""
    if not isinstance(x, Node):
        return x
    k = vals.CONDS[x.var] if isinstance(x.var, int) else x.var
    hi, lo = unany(x.hi), unany(x.lo)
    if isinstance(k, tuple) and k[0] == 'any':
        inner = getattr(k[1], 'node', k[1])
        return ite(inner, hi, lo) if isinstance(inner, Node) else x
    return ite(vals.CV(x.var), hi, lo)
