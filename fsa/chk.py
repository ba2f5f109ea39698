"""Check driver: obligations over the analysed source, reports, known findings, evidence."""
import json
import os
import re
import sys
import ctypes
import threading
import time
import traceback

from . import alg, vals, ident, interp as IP
from .alg import Expr, AlgError
from .vals import Node, UNDEF, Tup, Ref, EnumMember, leaves, show_lits, eq_substs
from .interp import Engine, World, Unsupported, AnchorMissing, CallError, Dead

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSA_REPO', '/repo')


OBLIGATION_TIME = 150           # seconds for one obligation
CHECK_TIME = 600                # seconds for all obligations of a property


class TooLong(BaseException):
    """an obligation whose analysis does not end in the time allowed: never a verdict"""


class Watch:
    """raises TooLong in the analysing thread when the time is up"""

    def __init__(self, seconds):
        self.tid, self.lock, self.on = threading.get_ident(), threading.Lock(), True
        self.timer = threading.Timer(max(seconds, 0.01), self.fire)
        self.timer.daemon = True

    def fire(self):
        with self.lock:
            if self.on:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(TooLong))

    def __enter__(self):
        self.timer.start()

    def __exit__(self, *a):
        with self.lock:
            self.on = False
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), None)
        self.timer.cancel()


def has_unsup(v):
    if isinstance(v, Expr):
        for a in alg.deep_atoms(v):
            if alg.ATOMS[a].name and str(alg.ATOMS[a].name).startswith('unsup:'):
                return True
    if isinstance(v, Node):
        return has_unsup(v.hi) or has_unsup(v.lo)
    if isinstance(v, Tup):
        return any(has_unsup(x) for x in v.items)
    return False


def show(v, n=600):
    s = alg.show(v) if isinstance(v, Expr) else repr(v)
    return s if len(s) <= n else s[:n] + ' ...'


def aligned(v):
    """x[:-1] next to x[1:] (or a difference) is x element by element: both have the length of the result"""
    names = {alg.ATOMS[x].name for x in alg.deep_atoms(v) if alg.ATOMS[x].kind == 'fn'}
    if 'head' in names and names & {'sh', 'diff'}:
        return alg.subst(v, {x: alg.ATOMS[x].args[0] for x in alg.deep_atoms(v) if alg.ATOMS[x].kind == 'fn' and alg.ATOMS[x].name == 'head'})
    return v


class Undecided(Exception):
    pass


class Mismatch(Exception):
    def __init__(self, msg):
        self.msg = msg


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []            # (key, status, text)
        self.viol = []           # (key, text)
        self.known_hit = []      # (key, text)
        self.undecided = []
        self.functions = set()
        self.sites = 0
        self.rules = {}
        self.known = self.load_known()
        self.world = World(REPO)
        self.assumptions = []
        self.tested = 0             # equalities settled by the identity test
        self.samples = []

    # -------------------------------------------------------- known findings
    def load_known(self):
        out = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    # -------------------------------------------------------- engines
    def engine(self, **kw):
        e = Engine(self.world, **kw)
        self.engines.append(e)
        return e

    def obligation(self, key, rule, thunk, aligned=False):
        """run one obligation: thunk() returns None (holds) or raises Mismatch"""
        left = CHECK_TIME - (time.time() - self.t0)
        try:
            with Watch(min(OBLIGATION_TIME, left)):
                self.decide(key, rule, thunk, aligned)
        except TooLong:
            IP.EXACT_TRIMS, IP.FORCE = False, {}
            if not any(k == key for k, _, _ in self.obl):
                self.undecided.append((key, 'not decided in the time allowed'))
                self.obl.append((key, 'undecided', rule))

    def decide(self, key, rule, thunk, aligned=False):
        alg.reset()
        vals.reset()
        self.world.fresh()
        self.engines = []
        IP.FORKS.clear()
        self.cur = key
        self.aligned = aligned
        try:
            if os.environ.get('FSA_ONLY') and not re.search(os.environ['FSA_ONLY'], key):
                return
            r = thunk()
            if not aligned and any(e.trimmed for e in self.engines):
                self.trims(thunk)
            for e in self.engines:
                for cut, where in e.cuts:
                    raise Mismatch('only the elements [%s:%s] are used at %s' % ('' if cut[0] is None else cut[0], '' if cut[1] is None else cut[1], where))
            self.obl.append((key, 'ok', rule))
            if isinstance(r, str):
                self.samples.append('%s: %s' % (key, r))
        except Mismatch as m:
            self.obl.append((key, 'fail', rule))
            self.report(key, rule, m.msg)
        except CallError as x:
            self.obl.append((key, 'fail', rule))
            self.report(key, rule, 'the analysed path always raises: %s' % x)
        except Dead:
            self.obl.append((key, 'fail', rule))
            rs = self.engines[-1].raises[-3:] if self.engines else []
            asr = self.engines[-1].asserts[-1:] if self.engines else []
            self.report(key, rule, 'every path of the analysed function raises for inputs in the documented domain: %s %s' % (
                [(t, w) for _, t, w in [r[:3] for r in rs]], [a[-1] for a in asr]))
        except (Undecided, Unsupported, AnchorMissing, AlgError, RecursionError) as x:
            unbound = [r for e in self.engines for r in e.raises if r[3] == 'NameError' and vals.sat(r[0])]
            if unbound:       # the code analysed reads a name that nothing binds
                self.obl.append((key, 'fail', rule))
                self.report(key, rule, 'reads an unbound name: %s at %s' % unbound[0][1:3])
                return
            if self.one_size(key, rule, thunk):
                return
            self.undecided.append((key, '%s: %s' % (type(x).__name__, x)))
            self.obl.append((key, 'undecided', rule))
            if os.environ.get('FSA_DEBUG'):
                traceback.print_exc()
        except Exception as x:          # analysis failure: never a verdict
            if self.one_size(key, rule, thunk):
                return
            self.undecided.append((key, '%s: %s' % (type(x).__name__, x)))
            self.obl.append((key, 'undecided', rule))
            if os.environ.get('FSA_DEBUG'):
                traceback.print_exc()
        if os.environ.get('FSA_NAMES'):
            for e in self.engines:
                for r in e.raises:
                    if r[3] in ('NameError',):
                        print('NAME', key, r[1:3])
        for e in self.engines:
            self.functions |= e.functions
            self.sites += len(e.calls)

    def trims(self, thunk):
        """the obligation again, with x[:-k] kept apart from x: a result that drops elements is not the required one"""
        IP.EXACT_TRIMS = True
        es = self.engines
        try:
            alg.reset()
            vals.reset()
            self.world.fresh()
            self.engines = []
            thunk()
        except Mismatch:
            raise
        except Exception:
            if os.environ.get('FSA_DEBUG'):
                traceback.print_exc()
        finally:
            IP.EXACT_TRIMS = False
            self.engines = es + self.engines

    def one_size(self, key, rule, thunk):
        """an obligation left open, for inputs on one side of a test of their size only"""
        for w in sorted(IP.FORKS, key=str)[:6]:
            for side in (True, False):
                IP.FORCE = {w: side}
                es = self.engines
                try:
                    alg.reset()
                    vals.reset()
                    self.world.fresh()
                    self.engines = []
                    thunk()
                    if any(e.trimmed for e in self.engines):
                        self.trims(thunk)
                except Mismatch as m:
                    self.obl.append((key, 'fail', rule))
                    self.report(key, rule, 'where the test at %s is %s: %s' % (w, side, m.msg))
                    return True
                except Exception:
                    if os.environ.get('FSA_DEBUG'):
                        traceback.print_exc()
                finally:
                    IP.FORCE = {}
                    self.engines = es + self.engines
        return False

    def report(self, key, rule, msg):
        if key in self.known:
            self.known_hit.append((key, self.known[key]))
            return
        self.viol.append((key, rule, msg))

    # -------------------------------------------------------- comparisons
    def eq(self, got, spec, pc=True, label='', skip=None, at='', cmp=None):
        """got == spec on every feasible gate combination under pc; raises Mismatch"""
        def pair(a, b):
            return Tup([a, b]) if not (isinstance(a, Node) or isinstance(b, Node)) else None
        both = vals.apply(lambda a, b: _Pair(a, b), got, spec)
        n = 0
        for lits, leaf in leaves(both, pc):
            if skip is not None and skip(lits) or IP.EXACT_TRIMS and 'head(' in show_lits(lits):
                continue
            n += 1
            a, b = leaf.a, leaf.b
            if b is ANY:
                continue
            mp = eq_substs(lits)
            if a is UNDEF and b is not UNDEF and not isinstance(b, Node):
                raise Mismatch('%s%s is never assigned when %s; expected %s' % (at, label, show_lits(lits), show(b)))
            if not self.leaf_equal(a, b, mp):
                if cmp is not None and cmp(a, b, lits):
                    continue
                if self.by_cases(a, b, lits, skip):
                    continue
                if has_unsup(a) or has_unsup(b) or isinstance(a, IP.ArrW):
                    raise Undecided('%s contains a construct the analysis does not model: %s' % (label, show(a)))
                raise Mismatch('%s%s when %s:\n      computed %s\n      required %s' % (at, label, show_lits(lits), show(a), show(b)))
        if n == 0:
            raise Undecided('no feasible case for %s' % label)
        return n

    def by_cases(self, a, b, lits, skip, depth=0):
        """equal for every feasible sign of the absolute values (so also of minima and maxima) they contain"""
        if not isinstance(a, Expr) or not isinstance(b, Expr) or depth > 4:
            return False
        for x in sorted(alg.deep_atoms(a) | alg.deep_atoms(b)):
            k = alg.ATOMS[x]
            if k.kind != 'abs':
                continue
            neg = vals.lt0(k.args[0])
            if not isinstance(neg, Node):
                continue
            for l2, n in leaves(neg, True, lits=lits):
                if skip is not None and skip(l2):
                    continue
                v = alg.scale(k.args[0], -1) if n else k.args[0]
                p, q = [alg.subst(y, {x: v}) for y in (a, b)]
                mp = eq_substs(l2)
                if not self.leaf_equal(p, q, mp) and not self.by_cases(p, q, l2, skip, depth + 1):
                    return False
            return True
        return False

    def leaf_equal(self, a, b, mp=None):
        if isinstance(a, Expr) and isinstance(b, Expr):
            if IP.EXACT_TRIMS:
                a = aligned(a)
            if mp:
                a, b = alg.subst(a, mp), alg.subst(b, mp)
            if alg.equal(a, b):
                return True
            if ident.identical(a, b):
                self.tested += 1
                return True
            return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.leaf_equal(x, y, mp) for x, y in zip(a.items, b.items))
        if isinstance(a, IP.Opaque) and isinstance(b, IP.Opaque):
            return a.name == b.name
        if isinstance(a, (bool, str, int, float)) or isinstance(b, (bool, str, int, float)):
            return type(a) == type(b) and a == b
        try:
            return vals.vkey(a) == vals.vkey(b)
        except Exception:
            return a is b

    def items(self, e, v):
        """elements of a tuple / list value, or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and e.rec(v).kind == 'list':
            return e.rec(v).items
        return None

    def total(self, x):
        """sum over the elements of a vector"""
        from .models import lin_sum
        return lin_sum('sum', x, None)

    def must(self, c, msg):
        if not c:
            raise Mismatch(msg)

    def need(self, c, msg):
        if not c:
            raise Undecided(msg)

    # -------------------------------------------------------- finish
    def finish(self, minimum=1, explanation=''):
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ok = sum(1 for o in self.obl if o[1] == 'ok')
        n = len(self.obl)
        code = 0
        edir = os.environ.get('FSA_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        rep = os.path.join(edir, '%s.report.txt' % self.pid)
        lines = []
        for k, d in self.known_hit:
            lines.append('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, d, k))
        for k, why in self.undecided:
            lines.append('UNDECIDED property=%s obligation=%s %s' % (self.pid, k, why))
        if n < minimum and not os.environ.get('FSA_ONLY'):
            self.undecided.append(('count', 'only %d rule instances, at least %d expected' % (n, minimum)))
            lines.append('UNDECIDED property=%s only %d rule instances, at least %d expected' % (self.pid, n, minimum))
        for k, r, m in self.viol:
            lines.append('VIOLATION property=%s replay=%s' % (self.pid, rep))
            lines.append('    obligation %s [%s]\n    %s' % (k, r, m))
        lines.append('%s: %d obligations, %d discharged, %d violated, %d known, %d undecided; %d functions, %d in-repo call sites analysed; %.1fs' % (
            self.pid, n, ok, len(self.viol), len(self.known_hit), len(self.undecided), len(self.functions), self.sites, time.time() - self.t0))
        txt = '\n'.join(lines)
        print(txt)
        with open(rep, 'w', encoding='utf-8') as f:
            f.write(txt + '\n')
        if self.viol:
            code = 1
        elif self.undecided and (os.environ.get('FSA_STRICT') or 2 * ok < n or n < minimum):
            code = 2        # no answer; with most rule instances discharged the rest are listed as not explored
        rules = {}
        for k, s, r in self.obl:
            rules.setdefault(r, [0, 0])
            rules[r][0] += 1
            rules[r][1] += s == 'ok'
        ev = {
            'property': self.pid, 'tier': os.environ.get('VERIF_TIER', self.tier) if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else self.tier,
            'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'obligations': n, 'discharged': ok,
                'rules': {r: {'instances': a, 'discharged': b} for r, (a, b) in rules.items()},
                'obligation_keys': [k for k, _, _ in self.obl],
                'functions_analysed': sorted(self.functions),
                'in_repo_call_sites': self.sites,
                'identities_tested': self.tested,
                'samples': self.samples[:6],
                'known_findings': [k for k, _ in self.known_hit],
                'undecided': [list(u) for u in self.undecided],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(self.viol),
        }
        with open(os.path.join(edir, '%s.json' % self.pid), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        return code


class _Any:
    def __repr__(self):
        return 'ANY'


ANY = _Any()


class _Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.vkey = ('pair', vals.leafkey(a), vals.leafkey(b))

    def __repr__(self):
        return '(%s | %s)' % (self.a, self.b)


def summary(tag, params, arr=True, defaults=None, pos=False):
    """treat a callee, whose own contract is decided elsewhere, as an uninterpreted function of its parameters"""
    def f(eng, env):
        args = []
        for p in params:
            if p not in env:
                raise AnchorMissing('parameter %s of %s' % (p, tag))
            args.append(env[p])
        return eng.opaque(tag, *args, arr=arr, pos=pos)
    return f
