"""P38: density and distribution from a characteristic function by a cosine series"""
from fractions import Fraction as Fr
from fsa.spec import *
from fsa.chk import show, Undecided, Mismatch
from fsa.interp import Tup, PyFn
from fsa import models
from checks.refuse import refused, served, say

CM = 'frm.pricing_engine.cosine_method_generic'
I = alg.I
# bounds, step, point asked (between two points, on a point, at either bound), number of terms
CASES = {'between points': (Fr(-1, 3), Fr(7, 6), Fr(1, 2), Fr(1, 4), 3), 'on a point': (Fr(-1, 3), Fr(7, 6), Fr(1, 2), Fr(2, 3), 3), 'lower bound': (Fr(1, 5), Fr(7, 5), Fr(3, 5), Fr(1, 5), 2),
         'upper bound': (Fr(-2), Fr(-1, 2), Fr(3, 4), Fr(-1, 2), 4), 'one step': (Fr(-1, 7), Fr(2, 7), Fr(3, 7), Fr(1, 7), 1), 'uneven step': (Fr(0), Fr(1), Fr(2, 5), Fr(3, 4), 2), 'many terms': (Fr(-1, 9), Fr(5, 9), Fr(2, 3), Fr(-1, 9), 640), 'unless asked otherwise': (Fr(-1, 9), Fr(5, 9), Fr(2, 3), Fr(5, 9), None)}


def call(e, a, b, dt, p, N=None):
    e.exact_shapes = True

    def cf(eng, args, kw, node):
        return eng.arith(lambda u: fn('cf', (u,), real=False), [args[0] if args else next(iter(kw.values()))], node)
    kw = dict(p=p, cf=PyFn(cf, 'cf'), dt=dt, a=a, b=b)
    if N is not None:
        kw['N'] = num(N)
    return e.call(e.get(CM, 'cos_method'), [], kw)


def density(e, a, b, x, N):
    """half of the first and all of the further terms of the cosine series on [a, b]"""
    pi = alg.pi()
    s = num(0)
    for k in range(N + 1):
        u = num(k) * pi / (b - a)
        s = s + (HALF if k == 0 else num(1)) * num(2) / (b - a) * real(fn('cf', (u,), real=False) * exp(-I() * u * a)) * fn('cos', (u * (x - a),)) if k else s + HALF * num(2) / (b - a) * real(fn('cf', (num(0),), real=False))
    return s


def p38(c):
    def series(a, b, dt, p, N):
        def ob():
            e = c.engine()
            r = call(e, num(a), num(b), num(dt), num(p), N)
            terms = 160 if N is None else N
            its = c.items(e, r)
            c.must(its is not None and len(its) == 5, '%s results' % (its and len(its)))
            at, cdf, pdf, total, pts = its
            n = -(-(b + dt - a) // dt)
            xs = sorted({a + i * dt for i in range(int(n))} | {p})
            seqs = []
            for v, what in ((pts, 'points'), (pdf, 'densities'), (cdf, 'distribution')):
                s = models.seq(e, v)
                c.need(isinstance(s, Tup), '%s: %s' % (what, show(s, 150)))
                c.must(len(s.items) == len(xs), '%d %s for the %d points' % (len(s.items), what, len(xs)))
                seqs.append(s.items)
            run = num(0)
            want = None
            for i, x in enumerate(xs):
                c.eq(seqs[0][i], num(x), label='point %d' % i)
                f = density(e, num(a), num(b), num(x), terms)
                c.eq(seqs[1][i], f, label='density at point %d' % i)
                run = run + f * num(xs[i + 1] - x if i + 1 < len(xs) else dt)
                c.eq(seqs[2][i], run, label='distribution at point %d' % i)
                if x == p:
                    want = run
            c.eq(total, run, label='total')
            c.eq(at, want, label='distribution at the point asked')
            low = lt0(total - N_(num(5)))        # the total was found equal to the running sum
            for pc, txt, where, exc, _, _ in e.raises:
                if vals.sat(b_and(pc, b_not(low))):
                    raise Mismatch('refused at %s when %s' % (where, show(pc, 200)))
            if vals.sat(b_and(low, e.st.pc)):
                raise Mismatch('a density whose total is below that of five standard deviations is accepted')
        return ob
    N_ = lambda x: fn('cdf', (x,))
    for k, v in CASES.items():
        c.obligation('series/' + k, 'densities are the cosine series at every step and at the point asked, the distribution their running sum', series(*v))

    def bad(what, **kw):
        def ob():
            e = c.engine()
            z = num(0)
            d = dict(dict(a=z, b=num(2), dt=HALF, p=num(1)), **kw)
            refused(e, lambda: call(e, d['a'], d['b'], d['dt'], d['p'], 2), say(kw), ('cf(',))
        c.obligation('refused/' + what, 'the step is positive and fits between the bounds, the point asked lies between them', ob)
    bad('step of zero', dt=num(0))
    bad('negative step', dt=-HALF)
    bad('step beyond the bounds', dt=num(3))
    bad('point below the lower bound', p=-HALF)
    bad('point above the upper bound', p=num(Fr(9, 4)))
    bad('bounds exchanged', a=num(2), b=num(0))

    def gbm():
        e = c.engine()
        mu, s, T, L = sym('mu', pos=False), sym('s'), sym('T'), sym('L')
        r = c.items(e, e.call(e.get(CM, 'get_cos_truncation_range'), [], dict(model='geomentric_brownion_motion', L=L, model_param=Tup([mu, s, T]))))
        c.must(r is not None and len(r) == 2, 'not a pair of bounds')
        c.eq(r[0], mu * T - L * s * sqrt(T), label='lower bound')
        c.eq(r[1], mu * T + L * s * sqrt(T), label='upper bound')
    c.obligation('truncation/gbm', 'the range of a Brownian motion is its mean and L standard deviations either way', gbm)
    return 7
