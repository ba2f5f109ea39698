"""whether a call is refused or served"""
from fsa.spec import *
from fsa.chk import show, Undecided, Mismatch
from fsa.interp import Dead
from fsa import models


def settled(v, seen=None):
    """a condition on the signs of input values alone"""
    seen = set() if seen is None else seen
    if not isinstance(v, Node) or id(v) in seen:
        return True
    seen.add(id(v))
    k = vals.CONDS[v.var]
    plain = k[0] in ('neg', 'pos') and all(alg.ATOMS[a].kind != 'fn' for a in alg.deep_atoms(k[1]))
    if k[0] == 'truth' and isinstance(k[1], Expr) and models.atom_named(k[1], 'ext:numpy.isscalar') is not None:
        plain = True        # one value or an array of one
    if k[0] == 'any' and isinstance(k[1], Node):
        plain = settled(k[1], seen)
    return plain and settled(v.hi, seen) and settled(v.lo, seen)


def refused(e, run, what, chance=()):
    """no path of the call returns; a refusal that turns on a value of one of the functions named in `chance`, which may be anything, does not count"""
    n, m, left = len(e.raises), len(e.asserts), e.st.pc
    try:
        got = run()
    except Dead:
        return
    for r in e.raises[n:]:
        left = b_and(left, b_not(r[0]))
    for pc, t, _ in e.asserts[m:]:
        if isinstance(t, (bool, Node)):
            left = b_and(left, b_not(b_and(pc, b_not(t))))
    if not vals.sat(left):
        return
    for r in e.raises[n:]:
        if vals.sat(r[0]) and not settled(r[0]) and not any(s in show(r[0], 10 ** 6) for s in chance):
            raise Undecided('whether %s is refused depends on %s' % (what, show(r[0], 200)))
    raise Mismatch('%s is answered: %s' % (what, show(got, 200)))


def served(e, run, what):
    """no path of the call is cut off by the signs of the input values alone"""
    n = len(e.raises)
    try:
        run()
    except Dead:
        raise Mismatch('%s is refused: %s' % (what, [(r[1], r[2]) for r in e.raises[n:]][-2:]))
    for r in e.raises[n:]:
        if vals.sat(r[0]) and settled(r[0]):
            raise Mismatch('%s is refused when %s: %s' % (what, show(r[0], 120), r[1:3]))
