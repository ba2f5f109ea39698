"""Interprocedural abstract interpretation of Python source into the gated value graph.

Branches are joined (gated), loops over unknown ranges are summarised, calls inside /repo are
resolved and analysed in context.  No code of /repo is ever executed.
"""
import ast
import os
import re
from fractions import Fraction as Fr
from . import alg, vals
from .alg import Expr, ATOMS, num, fn, sym
from .vals import (UNDEF, EnumMember, Tup, Ref, Node, lift1, apply, ite, b_not, b_and, b_or, cond,
                   lt0, gt0, eq0, sat, implies, prune, same, vkey)

REPO = os.environ.get('FSA_REPO', '/repo')


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    pass


class Opaque:
    """non numeric tagged leaf (external module/function, builtin)"""
    __slots__ = ('kind', 'name', 'vkey')

    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.vkey = (kind, name)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


_EXT = {}


def Ext(name):
    r = _EXT.get(name)
    if r is None:
        r = _EXT[name] = Opaque('ext', name)
    return r


class Func:
    def __init__(self, node, mod, chain, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.mod, self.chain, self.name, self.cls = node, mod, chain, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.vkey = ('func', id(node), chain)

    def __repr__(self):
        return '<fn %s.%s>' % (self.mod.name, self.name)


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_
        self.vkey = ('bound', vkey(f), vkey(self_))


class PyFn:
    """callable implemented by the analyser (models, overrides)"""

    def __init__(self, f, name):
        self.f, self.name = f, name
        self.vkey = ('pyfn', name, id(f))


class Cls:
    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name
        self.vkey = ('cls', mod.name, name)
        self.bases = [ast.unparse(b).split('.')[-1] for b in node.bases]
        self.deco = [ast.unparse(d) for d in node.decorator_list]

    @property
    def is_enum(self):
        return any(b in ('Enum', 'IntEnum', 'StrEnum', 'Flag') for b in self.bases)

    def find(self, name):
        for s in self.node.body:
            if isinstance(s, (ast.FunctionDef,)) and s.name == name:
                return s
        return None

    def members(self):
        out = []
        for s in self.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and not t.id.startswith('__') and not (t.id.startswith('_') and t.id.endswith('_')):
                        out.append((t.id, s.value))
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.vkey = ('slice', vkey(lo), vkey(hi), vkey(step))

    def full(self):
        return self.lo is None and self.hi is None and self.step is None


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self.vkey = ('range', vkey(lo), vkey(hi), vkey(step))


class EllipsisV:
    vkey = ('ellipsis',)


ELL = EllipsisV()


class ArrW:
    """array with explicit indexed writes on top of a base"""

    def __init__(self, base, writes):
        self.base, self.writes = base, tuple(writes)   # write: (idx tuple, value, loop|None)
        self.vkey = ('arrw', vkey(base), tuple((tuple(vkey(i) for i in ix), vkey(v), lp.id if lp else None) for ix, v, lp in writes))


class Rec:
    __slots__ = ('kind', 'f', 'base', 'cls', 'items', 'extra')

    def __init__(self, kind, f=None, base=None, cls=None, items=None, extra=None):
        self.kind, self.f, self.base, self.cls, self.items, self.extra = kind, f or {}, base, cls, items, extra

    def copy(self):
        return Rec(self.kind, dict(self.f), self.base, self.cls, list(self.items) if self.items is not None else None,
                   dict(self.extra) if self.extra is not None else None)


class MapSeg:
    """elements produced by a summarised loop"""

    def __init__(self, loop, val, guard):
        self.loop, self.val, self.guard = loop, val, guard
        self.vkey = ('map', loop.id, vkey(val), vkey(guard))


class RevSeg:
    """the elements of a segment in reverse order"""

    def __init__(self, seg):
        self.seg = seg
        self.vkey = ('rev', seg.vkey)


class Loop:
    n = 0

    def __init__(self, it, var, node, where):
        Loop.n += 1
        self.id = Loop.n
        self.iter, self.var, self.node, self.where = it, var, node, where
        self.state = {}      # name -> (init, statesym, next)
        self.writes = []     # (array name, idx, value, guard)
        self.breaks = []
        self.kind = 'for'


class State:
    __slots__ = ('envs', 'store', 'pc', 'exact')

    def __init__(self, envs, store, pc):
        self.envs, self.store, self.pc = envs, store, pc

    def copy(self):
        return State({k: dict(e) for k, e in self.envs.items()}, dict(self.store), self.pc)


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.vkey = ('mod', name)
        with open(path, encoding='utf-8') as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src, path)
        self.defs = {}
        self.cache = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.defs[a.asname or a.name] = ('from', s.module if not s.level else self.rel(s), a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', s.value)
                    elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                        for k, x in enumerate(t.elts):
                            self.defs[x.id] = ('item', s.value, k)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.If):
                t = s.test
                if isinstance(t, ast.Compare) and any(isinstance(q, ast.Name) and q.id == "__name__" for q in [t.left] + t.comparators):
                    continue
                self.scan(s.body)
                self.scan(s.orelse)
            elif isinstance(s, ast.Try):
                self.scan(s.body)
            elif isinstance(s, ast.With):
                before = dict(self.defs)
                self.scan(s.body)
                for nm, d in self.defs.items():
                    if d is not before.get(nm) and isinstance(d, tuple) and d[0] in ('expr', 'item'):
                        self.defs[nm] = ('with', s.items, d)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = ('dynamic',)
            elif isinstance(s, (ast.For, ast.While)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.defs[n.id] = ('dynamic',)

    def rel(self, s):
        parts = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))


class World:
    """parsed modules of /repo"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.offsets = {}

    def fresh(self):
        for m in self.mods.values():
            m.cache = {}
        self.offsets = {}

    def path(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def mod(self, dotted):
        m = self.mods.get(dotted)
        if m is None:
            p = self.path(dotted)
            if p is None:
                return None
            m = self.mods[dotted] = Mod(dotted, p)
        return m


class Frame:
    def __init__(self, fid, func, mod):
        self.fid, self.func, self.mod = fid, func, mod
        self.exits = []
        self.inplace = set()       # names whose array was written through
        self.globals = set()
        self.nonlocals = set()
        self.loops = []


ELEMENTWISE = {'exp', 'log', 'clog', 'cpow', 'pow', 'cdf', 'ppf', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'floor', 'ceil', 'sign', 're',
               'im', 'int', 'gamma', 'mod', 'conj', 'angle', 'tanh', 'sinh', 'cosh', 'isnan', 'round', 'floordiv', 'gate', 'yfrac', 'days', 'PB'}


FORKS = set()                   # places where the code branches on how large a scalar input is
FORCE = {}                      # place -> the only side to be followed there


def size_test(c):
    """one comparison of a scalar with a number beyond 1"""
    if not isinstance(c, Node) or isinstance(c.hi, Node) or isinstance(c.lo, Node):
        return False
    k = vals.CONDS[c.var]
    return k[0] in ('neg', 'pos') and len(k[1].t) == 2 and abs(k[1].t.get((), 0)) > 1 and len(alg.atoms_of(k[1])) == 1 and not any(alg.ATOMS[x].arr for x in alg.atoms_of(k[1]))


EXACT_TRIMS = False             # x[:-k] stands for the trimmed array, not for x element by element


class Engine:
    MAXUNROLL = 80

    def __init__(self, world=None, pc=True, overrides=None, maxdepth=60):
        self.w = world or World()
        self.st = State({}, {}, pc)
        self.frames = []
        self.nloc = 0
        self.modstore = {}
        for m in world.mods.values():
            m.cache = {}
        self.nfid = 0
        self.loops = []
        self.raises = []        # (pc, text, where)
        self.asserts = []       # (pc, cond, where)
        self.solvers = []
        self.polys = []       # recorded numerical solver calls
        self.calls = []         # in-repo calls (qualname, bound args)
        self.axes = {}          # atom -> axes it was given by x[:, None] (0) or x[None, :] (1)
        self.singles = []       # (path, array) of every x.item()
        self.trimmed = []       # arrays that were read without their last elements
        self.extcalls = []      # external calls (dotted, args, kwargs, pc, where)
        self.asof = []
        self.unsup = []
        self.overrides = overrides or {}
        self.cuts = []                 # constant bounds that a longer array would exceed
        self.exact_shapes = False      # scalars are told from one-element arrays, rows are counted
        self.maxdepth = maxdepth
        self.steps = 0
        self.reads = {}
        self.functions = set()
        from . import models
        self.models = models
        self.trace_calls = set()
        self.cur = None

    # ------------------------------------------------------------ helpers
    def where(self, node):
        f = self.frames[-1] if self.frames else None
        return '%s:%s %s' % (os.path.relpath(f.mod.path, self.w.root) if f else '?', getattr(node, 'lineno', '?'),
                             f.func.name if f and f.func else '<module>')

    def alloc(self, rec):
        self.nloc += 1
        self.st.store[self.nloc] = rec
        return Ref(self.nloc)

    def rec(self, r):
        x = self.st.store.get(r.loc)
        return x if x is not None else self.modstore[r.loc]

    def put(self, r, rec):
        self.st.store[r.loc] = rec

    def new_list(self, items):
        return self.alloc(Rec('list', items=list(items)))

    def new_dict(self, pairs):
        r = Rec('dict')
        for k, v in pairs:
            r.f[vkey(k)] = (k, v)
        return self.alloc(r)

    def new_obj(self, cls, fields, base=None):
        return self.alloc(Rec('obj', f=dict(fields), cls=cls, base=base))

    def new_df(self, cols=None, base=None):
        return self.alloc(Rec('df', f=dict(cols or {}), base=base))

    def unsupported(self, what, node=None, *args):
        self.unsup.append('%s at %s' % (what, self.where(node) if node is not None else '?'))
        toks = [self.tok(a) for a in args]
        return fn('unsup:' + what, tuple(toks), arr=True)

    def tok(self, v):
        """canonical argument of an opaque term: an Expr or a hashable constant"""
        if isinstance(v, (Expr, str)) or v is None or isinstance(v, (bool, EnumMember)):
            return v
        if isinstance(v, Tup):
            return fn('tup', tuple(self.tok(x) for x in v.items), arr=True)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind in ('list', 'set') and r.items is not None:
                lifted = self.maplift(v)
                if not isinstance(lifted, Ref):
                    return self.tok(lifted)
                if r.base is not None and not r.items:
                    return r.base
                its = [self.tok(x) for x in r.items]
                if r.kind == 'set':
                    its = sorted(its, key=lambda t: str(_hashable(t)) if not isinstance(t, Expr) else alg.show(t))
                if r.base is not None:
                    its = [r.base] + its
                return fn('tup' if r.kind == 'list' else 'set', tuple(its), arr=True)
            if r.kind == 'dict':
                its = []
                for k, x in r.f.values():
                    its += [self.tok(k), self.tok(x)]
                if r.base is not None:
                    its.append(r.base)
                return fn('dict', tuple(its), arr=True)
            if r.base is not None and not r.f:
                return r.base
            its = [r.base]
            for k in sorted(r.f, key=str):
                x = r.f[k]
                its += [str(k), self.tok(x[1] if isinstance(x, tuple) else x)]
            return fn('rec:' + (r.cls.name if r.cls is not None else r.kind), tuple(its), arr=True)
        if isinstance(v, Node):
            return fn('gate', (CondTok(vals.CV(v.var)), self.tok(v.hi), self.tok(v.lo)), arr=True)
        if isinstance(v, ArrW):
            return self.num_leaf(v)
        if isinstance(v, MapSeg):
            return fn('map', (self.tok(v.val), v.loop.var, self.tok_iter(v.loop.iter), self.tok(v.guard)), arr=True)
        if isinstance(v, RevSeg):
            return fn('reversed', (self.tok(v.seg),), arr=True)
        if isinstance(v, GuardItem):
            return fn('gi', (self.tok(v.guard), self.tok(v.val)), arr=True)
        if isinstance(v, IterV):
            return v.tok(self)
        if isinstance(v, RangeV):
            return fn('rangev', (self.tok(v.lo), self.tok(v.hi), self.tok(v.step)), arr=True)
        if isinstance(v, SliceV):
            return fn('slice', (self.tok(v.lo), self.tok(v.hi), self.tok(v.step)))
        return KeyTok(getattr(v, 'vkey', ('I', id(v))))

    def opaque(self, name, *args, **kw):
        """opaque function of gated arguments"""
        def f(*a):
            return fn(name, tuple(self.tok(x) for x in a), **kw)
        return apply(f, *args)

    def const(self, v):
        return num(v)

    # ------------------------------------------------------------ module level names
    def lookup_mod(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        d = mod.defs.get(name)
        if d is None:
            return None
        mod.cache[name] = None
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = self.make_func(d, mod, ())
        elif isinstance(d, ast.ClassDef):
            v = Cls(d, mod, d.name)
        elif d[0] == 'import':
            m = self.w.mod(d[1]) if d[1].split('.')[0] == 'frm' else None
            v = m if m is not None else Ext(d[1])
        elif d[0] == 'from':
            v = self.from_import(d[1], d[2])
        else:
            if d[0] == 'dynamic':
                del mod.cache[name]
                raise Unsupported('module variable %s.%s' % (mod.name, name))
            fr = Frame(-1, None, mod)
            self.frames.append(fr)
            n0 = self.nloc
            env = self.st.envs.get(-1)
            try:
                if d[0] == 'with':
                    self.st.envs[-1] = {}
                    for it in d[1]:
                        cv = self.ev(it.context_expr)
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, cv)
                    d = d[2]
                v = self.ev(d[1])
                if d[0] == 'item':
                    v = self.index(v, num(d[2]), d[1])
            finally:
                self.frames.pop()
                if self.st is not None:
                    if env is None:
                        self.st.envs.pop(-1, None)
                    else:
                        self.st.envs[-1] = env
            # module objects exist on every path, whichever path looked them up first
            for loc in range(n0 + 1, self.nloc + 1):
                if loc in self.st.store:
                    self.modstore[loc] = self.st.store[loc]
        mod.cache[name] = v
        return v

    def from_import(self, module, name):
        if module and module.split('.')[0] == 'frm':
            m = self.w.mod(module)
            if m is not None:
                v = self.lookup_mod(m, name)
                if v is not None or name in m.defs:
                    return v
                # star imports in packages
                for s in m.tree.body:
                    if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                        sub = s.module if not s.level else m.rel(s)
                        v = self.from_import(sub, name)
                        if v is not None and not (isinstance(v, Opaque)):
                            return v
                sm = self.w.mod(module + '.' + name)
                if sm is not None:
                    return sm
            else:
                return Ext(module + '.' + name)
            return Ext(module + '.' + name)
        return Ext((module or '') + '.' + name)

    def get(self, dotted, name):
        m = self.w.mod(dotted)
        if m is None:
            raise AnchorMissing('module %s not found' % dotted)
        parts = name.split('.')
        v = self.lookup_mod(m, parts[0])
        if v is None:
            v2 = self.from_import(dotted, parts[0])
            if isinstance(v2, Opaque):
                raise AnchorMissing('%s.%s not found' % (dotted, name))
            v = v2
        for p in parts[1:]:
            if isinstance(v, Cls):
                v = self.cls_attr(v, p)
            else:
                v = None
            if v is None:
                raise AnchorMissing('%s.%s not found' % (dotted, name))
        return v

    def make_func(self, node, mod, chain, cls=None):
        a = node.args
        defaults = [None] * 0
        ds, kds = [], {}
        for d in a.defaults:
            ds.append(d)
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kds[k.arg] = d
        f = Func(node, mod, chain, getattr(node, 'name', '<lambda>'), cls)
        # default values are evaluated at definition time
        if chain and self.frames:
            f.defaults = [self.ev(d) for d in ds]
            f.kwdefaults = {k: self.ev(d) for k, d in kds.items()}
        else:
            f.defaults = [('lazy', d) for d in ds]
            f.kwdefaults = {k: ('lazy', d) for k, d in kds.items()}
        return f

    # ------------------------------------------------------------ calls
    def bind(self, f, args, kwargs, node=None):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for n in pos:
            if args:
                env[n] = args.pop(0)
        if args:
            if a.vararg:
                env[a.vararg.arg] = Tup(args)
            else:
                raise CallError('too many positional arguments to %s' % f.name)
        elif a.vararg:
            env[a.vararg.arg] = Tup(())
        kwl = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in pos and k not in [x.arg for x in a.posonlyargs] or k in kwl:
                if k in env:
                    raise CallError('multiple values for %s in call to %s' % (k, f.name))
                env[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                raise CallError('unexpected keyword argument %s in call to %s' % (k, f.name))
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(extra)

        def dv(d):
            if isinstance(d, tuple) and d[0] == 'lazy':
                fr = Frame(-1, None, f.mod)
                self.frames.append(fr)
                try:
                    return self.ev(d[1])
                finally:
                    self.frames.pop()
            return d
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = dv(f.defaults[j])
                else:
                    raise CallError('missing argument %s in call to %s' % (n, f.name))
        for n in kwl:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = dv(f.kwdefaults[n])
                else:
                    raise CallError('missing argument %s in call to %s' % (n, f.name))
        return env

    def call_func(self, f, args, kwargs, node=None):
        q = '%s.%s' % (f.mod.name, (f.cls.name + '.' if f.cls else '') + f.name)
        ov = self.overrides.get(q) or self.overrides.get(q.split('.', 1)[-1]) or self.overrides.get((f.cls.name + '.' if f.cls else '') + f.name)
        env = self.bind(f, args, kwargs, node)
        if q.startswith('frm.'):
            self.calls.append((q, env, self.st.pc, self.where(node) if node is not None and self.frames else '<entry>'))
        if ov is not None and not isinstance(f.node, ast.Lambda):
            r = ov(self, env)
            if r is not NotImplemented:
                return r
        self.functions.add(q)
        if len(self.frames) > self.maxdepth:
            raise Unsupported('call depth at ' + q)
        self.nfid += 1
        fid = self.nfid
        fr = Frame(fid, f, f.mod)
        fr.chain = f.chain
        self.st.envs[fid] = env
        entry, written = dict(env), []
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                return v
            entry_pc = self.st.pc
            is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
            if is_gen:
                return self.unsupported('generator', f.node)
            self.block(f.node.body)
            exits = fr.exits
            if self.st is not None:
                exits.append((self.st, None))
            if not exits:
                # every path raises
                raise Dead()
            self.st, v = self.join_exits(exits, entry_pc)
            written = [(p, self.st.envs[fid].get(p, UNDEF)) for p in sorted(fr.inplace) if p in entry and p not in self.rebound(f.node)]
            written = [(p, x) for p, x in written if x is not UNDEF and not same(x, entry[p])]
            return v
        finally:
            self.frames.pop()
            if self.st is not None and not self.captures(f.node):
                self.st.envs.pop(fid, None)
            if self.st is not None and written and isinstance(node, ast.Call):
                self.write_back(f, args, node, written)

    def rebound(self, node):
        """names a function binds again: no longer the caller's object"""
        c = getattr(node, '_rebound', None)
        if c is None:
            c = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            node._rebound = c
        return c

    def write_back(self, f, args, node, written):
        """a callee that wrote into its array arguments wrote into the caller's arrays"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        off = len(args) - len(node.args)
        if off not in (0, 1) or any(isinstance(x, ast.Starred) for x in node.args):
            return
        for p, v in written:
            i = pos.index(p) - off if p in pos else -1
            t = node.args[i] if 0 <= i < len(node.args) else next((k.value for k in node.keywords if k.arg == p), None)
            if isinstance(t, ast.Name):
                self.frames[-1].inplace.add(t.id)
                self.assign(t, v)
            elif isinstance(t, ast.Attribute):
                self.assign(t, v)
            elif isinstance(t, ast.Subscript):
                parts = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                if all(isinstance(x, (ast.Slice, ast.Constant)) or isinstance(y, Expr) and not alg.is_arr(y) for x in parts for y in [None if isinstance(x, ast.Slice) else self.ev(x)]):
                    self.store_sub(t, v)

    def captures(self, node):
        c = getattr(node, '_captures', None)
        if c is None:
            c = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
            node._captures = c
        return c

    def join_exits(self, exits, entry_pc):
        st, v = exits[-1]
        v = v
        for s2, v2 in reversed(exits[:-1]):
            c = s2.pc
            v = self.merge_val(c, v2, v, s2, st)
            st = self.merge_state(c, s2, st)
        if len(exits) > 1 and isinstance(v, Node) and isinstance(st.pc, Node):
            v = prune(v, st.pc)
        return st, v

    def call(self, fv, args, kwargs, node=None):
        if isinstance(fv, Node):
            # distribute over gated callee
            def one(g):
                return self.call(g, args, kwargs, node)
            return lift1(one, fv)
        if isinstance(fv, Func):
            return self.call_func(fv, args, kwargs, node)
        if isinstance(fv, Bound):
            return self.call(fv.f, [fv.self_] + list(args), kwargs, node)
        if isinstance(fv, PyFn):
            return fv.f(self, list(args), kwargs, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv, args, kwargs, node)
        if isinstance(fv, Opaque):
            return self.models.call_ext(self, fv.name, list(args), kwargs, node)
        if isinstance(fv, Ref):
            r = self.rec(fv)
            if r.cls is not None and hasattr(r.cls, 'find') and r.cls.find('__call__'):
                return self.call_method(fv, '__call__', args, kwargs, node)
        if isinstance(fv, Expr):
            return self.opaque('apply', fv, *list(args) + [Tup([k, v]) for k, v in sorted(kwargs.items())], arr=True)
        return self.unsupported('call', node, fv, *args)

    def call_method(self, obj, name, args, kwargs, node=None):
        f = self.attr(obj, name, node)
        return self.call(f, args, kwargs, node)

    def instantiate(self, c, args, kwargs, node):
        if c.is_enum:
            return self.models.enum_lookup(self, c, args[0] if args else kwargs.get('value'), node)
        q = c.mod.name + '.' + c.name
        ov = self.overrides.get(q) or self.overrides.get(c.name)
        if ov is not None:
            r = ov(self, dict(kwargs, _args=args))
            if r is not NotImplemented:
                return r
        if 'NamedTuple' in c.bases:
            return self.unsupported('namedtuple', node)
        obj = self.new_obj(c, {})
        init = self.find_method(c, '__init__')
        if init is not None:
            self.call_func(init, [obj] + list(args), kwargs, node)
            return obj
        fields = self.dc_fields(c)
        names = [n for n, d, i in fields if i]
        vals_ = dict(zip(names, args))
        if len(args) > len(names):
            raise CallError('too many arguments to %s' % c.name)
        for k, v in kwargs.items():
            if k not in names:
                raise CallError('unexpected keyword argument %s in call to %s' % (k, c.name))
            vals_[k] = v
        rec = self.rec(obj).copy()
        post = []
        for n, d, i in fields:
            if n in vals_:
                v = vals_[n]
            elif d is not None:
                v = self.eval_in(c.mod, d)
            elif not i:
                continue
            else:
                raise CallError('missing argument %s in call to %s' % (n, c.name))
            if i == 'var':
                post.append(v)
            else:
                rec.f[n] = v
        self.put(obj, rec)
        self.calls.append((q + '.__init__', dict(rec.f), self.st.pc, self.where(node) if node is not None else '<entry>'))
        pi = self.find_method(c, '__post_init__')
        if pi is not None:
            self.call_func(pi, [obj] + post, {}, node)
        return obj

    def eval_in(self, mod, d):
        fr = Frame(-1, None, mod)
        self.frames.append(fr)
        try:
            return self.ev(d)
        finally:
            self.frames.pop()

    def dc_fields(self, c):
        out = []
        for b in self.base_classes(c):
            out.extend(self.dc_fields(b))
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                d, init = s.value, True
                if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'field':
                    dd = None
                    for k in d.keywords:
                        if k.arg == 'default':
                            dd = k.value
                        elif k.arg == 'default_factory':
                            dd = ast.copy_location(ast.Call(k.value, [], []), d)
                            ast.fix_missing_locations(dd)
                        elif k.arg == 'init' and isinstance(k.value, ast.Constant):
                            init = bool(k.value.value)
                    d = dd
                if 'ClassVar' in ast.unparse(s.annotation):
                    continue
                out = [x for x in out if x[0] != s.target.id]
                out.append((s.target.id, d, 'var' if 'InitVar' in ast.unparse(s.annotation) else init))
        return out

    def base_classes(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                v = self.lookup_mod(c.mod, b.id)
                if isinstance(v, Cls):
                    out.append(v)
        return out

    def find_method(self, c, name):
        n = c.find(name)
        if n is not None:
            f = getattr(n, '_func', None)
            if f is None or f.mod is not c.mod:
                f = self.make_func(n, c.mod, (), c)
                n._func = f
            return f
        for b in self.base_classes(c):
            f = self.find_method(b, name)
            if f is not None:
                return f
        return None

    def cls_attr(self, c, name, node=None):
        if c.is_enum:
            for n, v in c.members():
                if n == name:
                    return EnumMember(c.name, name)
        f = self.find_method(c, name)
        if f is not None:
            deco = [ast.unparse(d) for d in f.node.decorator_list]
            if 'classmethod' in deco:
                return Bound(f, c)
            return f
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return self.eval_in(c.mod, s.value)
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                return self.eval_in(c.mod, s.value)
        return None

    # ------------------------------------------------------------ state merging
    def merge_val(self, c, a, b, sa=None, sb=None):
        if same(a, b):
            return a
        if isinstance(a, ArrW) or isinstance(b, ArrW):
            r = self.merge_arrw(c, a, b)
            if r is not None:
                return r
        return ite(c, a, b)

    def merge_arrw(self, c, a, b):
        """arrays written on two branches on top of a common array: one array with conditional elements"""
        if isinstance(a, Expr):
            a = ArrW(a, ())
        if isinstance(b, Expr):
            b = ArrW(b, ())
        if not isinstance(a, ArrW) or not isinstance(b, ArrW) or not same(a.base, b.base):
            return None
        n = 0
        while n < min(len(a.writes), len(b.writes)):
            (ia, va, la), (ib, vb, lb) = a.writes[n], b.writes[n]
            if la is not lb or len(ia) != len(ib) or vkey(va) != vkey(vb) or tuple(vkey(x) for x in ia) != tuple(vkey(x) for x in ib):
                break
            n += 1
        pre = ArrW(a.base, a.writes[:n])
        ra, rb = a.writes[n:], b.writes[n:]
        if not ra and not rb or any(l is not None for _, _, l in ra + rb):
            return None
        idx = []
        for ix, _, _ in ra + rb:
            if any(isinstance(x, SliceV) for x in ix):
                return None
            for jx in idx:
                t = self.models.idx_cmp(ix, jx)
                if t == 'eq' and len(ix) == len(jx):
                    break
                if t != 'ne':
                    return None
            else:
                idx.append(ix)
        out = list(pre.writes)
        for ix in idx:
            def last(ws):
                for jx, v, _ in reversed(ws):
                    if self.models.idx_cmp(jx, ix) == 'eq':
                        return v
                return self.models.arrw_read(self, pre, ix)
            out.append((ix, ite(c, last(ra), last(rb)), None))
        return ArrW(a.base, out)

    def merge_state(self, c, a, b):
        """state under c is a, otherwise b"""
        out = State({}, {}, True)
        out.pc = b_or(a.pc, b.pc)
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                out.envs[fid] = dict(ea or eb)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k, UNDEF), eb.get(k, UNDEF)
                e[k] = va if va is vb else self.merge_val(c, va, vb)
            out.envs[fid] = e
        for loc in set(a.store) | set(b.store):
            ra, rb = a.store.get(loc), b.store.get(loc)
            if ra is rb or rb is None:
                out.store[loc] = ra
            elif ra is None:
                out.store[loc] = rb
            else:
                out.store[loc] = self.merge_rec(c, ra, rb)
        return out

    def merge_rec(self, c, a, b):
        r = a.copy()
        if a.kind in ('list', 'set') and a.items is not None:
            fa, fb = (a.extra or {}).get('front', ()), (b.extra or {}).get('front', ())
            if a.base is not b.base and not (a.base is not None and b.base is not None and same(a.base, b.base)) or b.items is None or len(fa) != len(fb):
                r.base = fn('gate', (CondTok(c), self.tok(fn('list', (a.base,) + tuple(map(self.tok, fa)) + tuple(map(self.tok, a.items)), arr=True)),
                                     self.tok(fn('list', (b.base,) + tuple(map(self.tok, fb)) + tuple(map(self.tok, b.items or ())), arr=True))), arr=True)
                r.items, r.extra = [], None
            elif len(a.items) == len(b.items):
                if fa:
                    r.extra['front'] = tuple(ite(c, x, y) for x, y in zip(fa, fb))
                r.items = [ite(c, x, y) if not isinstance(x, MapSeg) and not isinstance(y, MapSeg) else x for x, y in zip(a.items, b.items)]
            else:
                n = 0
                while n < min(len(a.items), len(b.items)) and same(a.items[n], b.items[n]):
                    n += 1
                r.items = list(a.items[:n])
                for x in a.items[n:]:
                    r.items.append(GuardItem(c, x))
                for x in b.items[n:]:
                    r.items.append(GuardItem(b_not(c), x))
        f = {}
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            x, y = a.f.get(k, UNDEF), b.f.get(k, UNDEF)
            if isinstance(x, tuple) or isinstance(y, tuple):
                kk = x[0] if isinstance(x, tuple) else y[0]
                xv = x[1] if isinstance(x, tuple) else UNDEF
                yv = y[1] if isinstance(y, tuple) else UNDEF
                f[k] = (kk, ite(c, xv, yv))
            else:
                if x is UNDEF and a.base is not None and a.kind == 'df':
                    x = self.df_missing(a, k)
                elif x is UNDEF and a.base is not None and a.kind == 'obj':
                    x = fn('attr:' + str(k), (a.base,), arr=True)
                if y is UNDEF and b.base is not None and b.kind == 'df':
                    y = self.df_missing(b, k)
                elif y is UNDEF and b.base is not None and b.kind == 'obj':
                    y = fn('attr:' + str(k), (b.base,), arr=True)
                f[k] = ite(c, x, y)
        r.f = f
        if a.extra != b.extra:
            r.extra = dict(b.extra or {}, **(a.extra or {}))
        return r

    def df_missing(self, rec, col):
        return fn('col', (rec.base, col if isinstance(col, str) else self.tok(col)), arr=True)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, self.where(s)))
        try:
            m(s)
        except Dead:
            self.st = None
        except CallError as e:
            self.do_raise('TypeError: %s' % e, s, exc='TypeError', implicit=True)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        env = self.env()
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            env[nm] = (self.w.mod(full) if full.split('.')[0] == 'frm' else None) or Ext(full)

    def s_ImportFrom(self, s):
        env = self.env()
        mod = self.frames[-1].mod
        for a in s.names:
            env[a.asname or a.name] = self.from_import(s.module if not s.level else mod.rel(s), a.name)

    def s_Global(self, s):
        self.frames[-1].globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env().pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                if isinstance(o, Ref) and self.rec(o).kind == 'list':
                    r = self.rec(o).copy()
                    plain = self.plain_items(o)
                    if plain and isinstance(k, Expr) and k.is_const() and -len(r.items) <= k.const() < len(r.items):
                        del r.items[int(k.const())]
                    elif plain and isinstance(k, SliceV) and all(x is None or isinstance(x, Expr) and x.is_const() for x in (k.lo, k.hi, k.step)):
                        del r.items[slice(*[None if x is None else int(x.const()) for x in (k.lo, k.hi, k.step)])]
                    elif not plain and r.base is None and isinstance(k, Expr) and k.is_const() and k.const() in (0, -1) and r.items and not isinstance(r.items[int(k.const())], (MapSeg, GuardItem, RevSeg)):
                        del r.items[int(k.const())]
                    else:
                        r.base = fn('list.del', (self.tok(o), self.tok(k)), arr=True)
                        r.items, r.extra = [], None
                    self.put(o, r)
                elif isinstance(o, Ref):
                    r = self.rec(o).copy()
                    kk = vkey(k) if r.kind == 'dict' else (k if isinstance(k, str) else vkey(k))
                    r.f.pop(kk, None)
                    self.put(o, r)

    def env(self):
        return self.st.envs.setdefault(self.frames[-1].fid, {})

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        f = self.make_func(s, fr.mod, (fr.fid,) + tuple(getattr(fr, 'chain', ())))
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if isinstance(dv, Opaque):
                continue
            v = self.call(dv, [v], {}, s)
        self.env()[s.name] = v

    def s_ClassDef(self, s):
        self.env()[s.name] = Cls(s, self.frames[-1].mod, s.name)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frames[-1].exits.append((self.st, v))
        self.st = None

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, s)
        elif isinstance(s.target, ast.Attribute):
            cur = self.attr(self.ev(s.target.value), s.target.attr, s)
        else:
            cur = self.index(self.ev(s.target.value), self.ev_index(s.target.slice), s)
        rhs = self.ev(s.value)
        if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and self.rec(cur).kind == 'list':
            self.models.list_extend(self, cur, rhs, s)
            return
        self.assign(s.target, self.binop(s.op, cur, rhs, s))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals:
                fr.mod.cache[t.id] = v
                return
            if t.id in fr.nonlocals:
                for fid in fr.chain:
                    if t.id in self.st.envs.get(fid, {}):
                        self.st.envs[fid][t.id] = v
                        return
            self.env()[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = self.unpack(v, len(t.elts), t, star[0] if star else None)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.set_attr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, node, star=None):
        if isinstance(v, Node):
            parts = [self.unpack_leafwise(v, i, n, node, star) for i in range(n)]
            return parts
        if isinstance(v, Tup):
            its = list(v.items)
        elif isinstance(v, Ref) and self.rec(v).items is not None and self.plain_items(v):
            its = list(self.rec(v).items)
        else:
            if star is None:
                return [self.index(v, num(i), node) for i in range(n)]
            return [self.unsupported('star unpack', node, v)] * n
        if star is not None:
            k = len(its) - (n - 1)
            mid = its[star:star + k]
            return its[:star] + [self.new_list(mid)] + its[star + k:]
        if len(its) != n:
            self.do_raise('ValueError: unpack %d values into %d' % (len(its), n), node, exc='ValueError', implicit=True)
            raise Dead()
        return its

    def unpack_leafwise(self, v, i, n, node, star):
        def f(x):
            if x is UNDEF:
                return UNDEF
            return self.unpack(x, n, node, star)[i]
        return lift1(f, v)

    def plain_items(self, ref):
        r = self.rec(ref)
        return r.items is not None and r.base is None and not any(isinstance(x, (MapSeg, GuardItem, RevSeg)) for x in r.items)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test), s)
        self.asserts.append((self.st.pc, c, self.where(s)))
        if c is False:
            self.raises.append((self.st.pc, 'AssertionError', self.where(s), 'AssertionError', ast.unparse(s.test)))
            self.st = None
            return
        if isinstance(c, Node) and not self.cfg_ignore_assert(c):
            self.raises.append((b_and(self.st.pc, b_not(c)), 'AssertionError', self.where(s), 'AssertionError', ast.unparse(s.test)))
            npc = b_and(self.st.pc, c)
            if npc is not False:
                self.st.pc = npc

    def cfg_ignore_assert(self, c):
        """assertions on shapes/types of symbolic inputs are not turned into gates"""
        seen = set()

        def bad(x):
            if not isinstance(x, Node) or id(x) in seen:
                return False
            seen.add(id(x))
            k = vals.CONDS[x.var]
            if k[0] in ('neg', 'pos'):
                ats = alg.deep_atoms(k[1])
                if any(ATOMS[a].kind == 'fn' and (ATOMS[a].name.startswith(('shape', 'ndim', 'size', 'len', 'unsup', 'type', 'call', 'attr'))) for a in ats):
                    return True
            elif k[0] not in ('any', 'sq1', 'eqm'):
                return True
            return bad(x.hi) or bad(x.lo)
        return bad(c)

    def s_Raise(self, s):
        txt = ast.unparse(s.exc) if s.exc is not None else 're-raise'
        exc = None
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(n).split('.')[-1]
            if isinstance(s.exc, ast.Call):
                try:
                    args = [self.ev(a) for a in s.exc.args]
                except (Unsupported, Dead):
                    args = []
                if self.st is None:      # building the exception raised another one
                    return
            else:
                args = []
        else:
            args = []
        self.do_raise(txt, s, exc, args=args)

    def do_raise(self, txt, node, exc=None, args=(), implicit=False):
        self.raises.append((self.st.pc, txt, self.where(node), exc, None, list(args)))
        if self.tries:
            self.tries[-1].append((self.st, exc, list(args)))
        self.st = None

    tries = ()

    def raise_when(self, c, txt, node, exc):
        """the modelled call raises exc exactly when c"""
        if c is False:
            return
        pc = b_and(self.st.pc, c)
        if pc is False:
            return
        st = self.st.copy()
        st.pc = pc
        self.raises.append((pc, txt, self.where(node), exc, None, []))
        if self.tries:
            st.exact = True
            self.tries[-1].append((st, exc, []))
        self.st.pc = b_and(self.st.pc, b_not(c))
        if self.st.pc is False:
            self.st = None
            raise Dead()

    def s_If(self, s):
        c = self.truth(self.ev(s.test), s)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse), s)

    def branch(self, c, fa, fb, node=None):
        pc = self.st.pc
        if c is not True and c is not False:
            c = prune(c, pc)
            if node is not None and size_test(c):
                w = self.where(node)
                FORKS.add(w)
                if w in FORCE:
                    if FORCE[w]:
                        self.st.pc = b_and(pc, c)
                        fa()
                    else:
                        self.st.pc = b_and(pc, b_not(c))
                        fb()
                    return
        if c is True:
            fa()
            return
        if c is False:
            fb()
            return
        pa, pb = b_and(pc, c), b_and(pc, b_not(c))
        sa_ok, sb_ok = sat(pa), sat(pb)
        if not sa_ok:
            fb()
            return
        if not sb_ok:
            fa()
            return
        base = self.st
        a = base.copy()
        b = base
        a.pc, b.pc = pa, pb
        self.st = a
        fa()
        a = self.st
        self.st = b
        fb()
        b = self.st
        if a is None:
            self.st = b
        elif b is None:
            self.st = a
        else:
            cc = c
            self.st = self.merge_state(cc, a, b)
            if same(a.pc, pa) and same(b.pc, pb):
                self.st.pc = pc

    def s_Match(self, s):
        subj = self.ev(s.subject)

        def go(cases):
            if not cases:
                return
            cs = cases[0]
            c, binds = self.pattern(cs.pattern, subj, s)

            def yes():
                for k, v in binds.items():
                    self.env()[k] = v
                if cs.guard is not None:
                    g = self.truth(self.ev(cs.guard), s)
                    self.branch(g, lambda: self.block(cs.body), lambda: go(cases[1:]))
                else:
                    self.block(cs.body)
            self.branch(c, yes, lambda: go(cases[1:]))
        go(s.cases)

    def pattern(self, p, subj, node):
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), subj, self.ev(p.value), node), {}
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), subj, p.value, node), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True, ({p.name: subj} if p.name else {})
            c, b = self.pattern(p.pattern, subj, node)
            if p.name:
                b = dict(b, **{p.name: subj})
            return c, b
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c2, _ = self.pattern(q, subj, node)
                c = b_or(c, c2)
            return c, {}
        if isinstance(p, ast.MatchSequence) and isinstance(subj, Tup) and len(p.patterns) == len(subj.items):
            c, b = True, {}
            for q, x in zip(p.patterns, subj.items):
                c2, b2 = self.pattern(q, x, node)
                c = b_and(c, c2)
                b.update(b2)
            return c, b
        raise Unsupported('match pattern at ' + self.where(node))

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        saved = self.st.copy()
        old = self.tries
        mine = []
        self.tries = list(old) + [mine]
        nr = len(self.raises)
        try:
            self.block(s.body)
        finally:
            self.tries = old
        if self.st is not None and s.orelse:
            self.block(s.orelse)
        ok = self.st
        results = []
        if ok is not None:
            results.append((None, ok))
        # explicit raises inside the body
        exact = set()
        for (rst, exc, args) in mine:
            h = self.match_handler(s, exc)
            if h is None:
                if self.tries:
                    self.tries[-1].append((rst, exc, args))
                continue
            self.raises = [r for i, r in enumerate(self.raises) if not (i >= nr and r[0] is rst.pc)]
            if getattr(rst, 'exact', False):
                exact.add(id(h))
            self.st = rst
            self.run_handler(h, exc, args)
            if self.st is not None:
                results.append((rst.pc, self.st))
        # implicit exceptions: nondeterministic gate
        for k, h in enumerate(s.handlers):
            if id(h) in exact:
                continue            # the calls that raise it say when
            if isinstance(h.type, ast.Call):
                continue            # an instance is not an exception class: the handler itself raises TypeError
            if h.type is not None and ast.unparse(h.type) == 'StopIteration' and not any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next' for b in s.body for x in ast.walk(b)):
                continue            # nothing in the body raises it implicitly
            # locals assigned in the body are unknown on this edge; keep the pre-state
            stx = saved.copy()
            g = cond('exc', self.excname(s, h), k)
            stx.pc = b_and(saved.pc, g)
            if stx.pc is False:
                continue
            self.st = stx
            self.run_handler(h, ast.unparse(h.type) if h.type is not None else 'Exception', [])
            if self.st is not None:
                results.append((g, self.st))
        if not results:
            self.st = None
        else:
            cur = results[0][1]
            for c, stt in results[1:]:
                cur = self.merge_state(stt.pc if c is None else c, stt, cur)
            if ok is not None and len(results) > 1:
                cur.pc = saved.pc if not mine else cur.pc
            self.st = cur
        if s.finalbody and self.st is not None:
            self.block(s.finalbody)

    s_TryStar = s_Try

    def excname(self, s, h):
        # position independent identity of the protected computation: function + ordinal of the try
        f = self.frames[-1].func
        node = f.node if f else None
        o = 0
        if node is not None:
            for x in ast.walk(node):
                if isinstance(x, ast.Try):
                    if x is s:
                        break
                    o += 1
        return '%s#%d@%d' % (f.name if f else 'mod', o, len(self.frames))

    def match_handler(self, s, exc):
        for h in s.handlers:
            if h.type is None:
                return h
            if isinstance(h.type, ast.Call):
                return None
            names = [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if exc in names or 'Exception' in names or 'BaseException' in names:
                return h
        return None

    def run_handler(self, h, exc, args):
        if h.name:
            self.env()[h.name] = self.new_obj(None, {'value': args[0] if args else fn('excvalue', (str(exc),)), 'args': Tup(args)})
        self.block(h.body)

    def s_Break(self, s):
        lp = self.frames[-1].loops[-1]
        lp['breaks'].append(self.st)
        self.st = None

    def s_Continue(self, s):
        lp = self.frames[-1].loops[-1]
        lp['continues'].append(self.st)
        self.st = None

    # ------------------------------------------------------------ loops
    def join_states(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        cur = sts[-1]
        for s in reversed(sts[:-1]):
            cur = self.merge_state(s.pc, s, cur)
        return cur

    def known_iter(self, it):
        """list of element values or None"""
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, RangeV):
            if all(isinstance(x, Expr) and x.is_const() for x in (it.lo, it.hi, it.step)):
                lo, hi, stp = (int(x.const()) for x in (it.lo, it.hi, it.step))
                r = range(lo, hi, stp)
                if len(r) <= self.MAXUNROLL:
                    return [num(i) for i in r]
            return None
        if isinstance(it, Ref):
            r = self.rec(it)
            if r.kind in ('list', 'set', 'tuple') and self.plain_items(it):
                return list(r.items)
            if r.kind == 'dict' and r.base is None:
                return [k for k, v in r.f.values()]
        if isinstance(it, Cls) and it.is_enum:
            return [EnumMember(it.name, n) for n, _ in it.members()]
        if isinstance(it, str):
            return list(it) if len(it) < 40 else None
        if isinstance(it, IterV) and it.kind == 'iterrows' and self.exact_shapes:
            return it.extra
        return None

    def s_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(s, s.target, it, s.body, s.orelse)

    def for_loop(self, node, target, it, body, orelse=()):
        if isinstance(it, Node):
            it = prune(it, self.st.pc)
        if isinstance(it, Node):
            lv = it
            # gated iterable: split
            var = it.var
            c = vals.CV(var)
            self.branch(c, lambda: self.for_loop(node, target, it.hi, body, orelse), lambda: self.for_loop(node, target, it.lo, body, orelse))
            return
        m = self.places(it)
        if m is not None and isinstance(target, ast.Name):
            # for i in flatnonzero(mask): the places where the mask holds
            self.env()['@mask'] = m[0]
            test = ast.Subscript(value=ast.Name(id='@mask', ctx=ast.Load()), slice=ast.Name(id=target.id, ctx=ast.Load()), ctx=ast.Load())
            body = [ast.If(test=test, body=list(body), orelse=[])]
            for x in ast.walk(body[0]):
                ast.copy_location(x, node) if not hasattr(x, 'lineno') else None
            it = RangeV(num(0), m[1], num(1))
        ks = self.known_iter(it)
        fr = self.frames[-1]
        if ks is not None and len(ks) <= self.MAXUNROLL:
            ctx = {'breaks': [], 'continues': []}
            fr.loops.append(ctx)
            for v in ks:
                if self.st is None:
                    break
                self.assign(target, v)
                ctx['continues'] = []
                self.block(body)
                if ctx['continues']:
                    self.st = self.join_states(ctx['continues'] + [self.st])
            fr.loops.pop()
            if self.st is not None and orelse:
                self.block(orelse)
            if ctx['breaks']:
                self.st = self.join_states(ctx['breaks'] + [self.st])
            return
        self.summarise(node, target, it, body, orelse)

    def places(self, it):
        """(mask, its length) when it is the places at which a mask holds"""
        m = next(iter(it.t)) if isinstance(it, Expr) and it.single() else ()
        a = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 and it.t[m] == 1 else None
        if a is None or a.name != 'nonzero' or not isinstance(a.args[0], CondTok):
            return None
        m = a.args[0].node
        ns = {}
        for x in _parts(m):
            if alg.is_arr(x):
                n = self.models.length(self, x)
                if isinstance(n, Expr):
                    ns[n.key()] = n
        return (m, next(iter(ns.values()))) if len(ns) == 1 else None

    def iter_elem(self, it, lp):
        """symbolic element of an iterable inside a summarised loop"""
        i = lp.var
        if isinstance(it, RangeV):
            return alg.add(it.lo, alg.mul(it.step, i))
        if isinstance(it, Expr):
            return self.index(it, i, None)
        if isinstance(it, IterV):
            return it.elem(self, lp)
        if isinstance(it, Ref):
            r = self.rec(it)
            if r.kind == 'list' and r.items is not None and r.base is None and len(r.items) == 1 and isinstance(r.items[0], MapSeg):
                m = r.items[0]
                return self.reindex(m.val, m.loop.var, i)
            return self.index(it, i, None)
        return self.opaque('elem', it if it is not None else 'none', i)

    def reindex(self, v, a, b):
        if same(a, b):
            return v
        mp = {alg.sid(a): b}

        def f(x):
            if isinstance(x, Expr):
                return alg.subst(x, mp)
            if isinstance(x, Tup):
                return Tup([lift1(f, y) for y in x.items])
            return x
        return self.subst_val(v, mp)

    def subst_val(self, v, mp):
        if isinstance(v, Expr):
            return alg.subst(v, mp)
        if isinstance(v, Tup):
            return Tup([self.subst_val(y, mp) for y in v.items])
        if isinstance(v, Node):
            memo = {}

            def go(x):
                if not isinstance(x, Node):
                    return self.subst_val(x, mp)
                r = memo.get(id(x))
                if r is None:
                    r = ite(subst_cond(x.var, mp), go(x.hi), go(x.lo))
                    memo[id(x)] = r
                return r
            return go(v)
        return v

    def range_sym(self, it):
        """canonical index symbol for this iteration space"""
        depth = sum(1 for f in self.frames for l in f.loops)
        return sym('@i%d' % depth, pos=False, nonneg=True)

    def summarise(self, node, target, it, body, orelse, cond_node=None):
        fr = self.frames[-1]
        lp = Loop(it, None, node, self.where(node))
        lp.var = self.range_sym(it)
        lp.kind = 'for' if cond_node is None else 'while'
        self.loops.append(lp)
        base = self.st
        fid = fr.fid
        pc0 = base.pc
        havoc_env, havoc_loc = {}, {}
        snap = (len(self.raises), len(self.asserts), len(self.calls), len(self.solvers), len(self.extcalls), len(self.loops), len(self.unsup), len(fr.exits))
        nloc0 = self.nloc
        for round_ in range(6):
            for lst, n in zip((self.raises, self.asserts, self.calls, self.solvers, self.extcalls, self.loops, self.unsup, fr.exits), snap):
                del lst[n:]
            st = base.copy()
            self.st = st
            for (f2, k), v in havoc_env.items():
                st.envs[f2][k] = v
            for loc, r in havoc_loc.items():
                st.store[loc] = r
            ctx = {'breaks': [], 'continues': []}
            fr.loops.append(ctx)
            self.writes = []
            start_pc = st.pc
            if cond_node is not None:
                c = self.truth(self.ev(cond_node), node)
                lp.cond = c
                npc = b_and(self.st.pc, c)
                if npc is not False:
                    self.st.pc = npc
            else:
                self.assign(target, self.iter_elem(it, lp))
            start = self.st.copy()
            self.block(body)
            fr.loops.pop()
            end = self.join_states(ctx['continues'] + [self.st])
            allends = [e for e in ctx['breaks'] + [end] if e is not None]
            new = False
            for e in allends:
                for f2, env in e.envs.items():
                    if f2 not in base.envs:
                        continue
                    for k, v in env.items():
                        if (f2, k) in havoc_env:
                            continue
                        b0 = start.envs.get(f2, {}).get(k, UNDEF)
                        if k in start.envs.get(f2, {}) and not same(v, b0) and not (isinstance(target, ast.AST) and k in target_names(target)):
                            havoc_env[(f2, k)] = self.havoc_value(b0, lp, len(havoc_env))
                            new = True
                for loc, r in e.store.items():
                    if loc in base.store and r is not start.store.get(loc) and loc not in havoc_loc:
                        if self.rec_changed(start.store.get(loc), r):
                            havoc_loc[loc] = self.havoc_rec(base.store[loc], r, lp, len(havoc_loc))
                            new = True
            if not new:
                break
        if cond_node is not None:
            lp.iter = Tup(['while', CondTok(lp.cond)])
        lp.guard = None
        lp.start_pc = start_pc
        lp.breaks = [(b.pc) for b in ctx['breaks']]
        lp.end_pc = end.pc if end is not None else False
        # build the post state
        post = base.copy()
        post.pc = pc0
        fin = end if end is not None else (allends[0] if allends else None)
        if fin is None:
            # every iteration leaves (return/raise)
            self.st = post
            if orelse:
                self.block(orelse)
            return
        merged = self.join_states(allends) if len(allends) > 1 else fin
        tn = target_names(target) if target is not None else set()
        for (f2, k), stsym in havoc_env.items():
            init = base.envs[f2].get(k, UNDEF)
            nxt = merged.envs[f2].get(k, UNDEF)
            lp.state[k] = (init, stsym, nxt)
            post.envs[f2][k] = self.loop_result(lp, k, init, stsym, nxt, bool(ctx['breaks']))
        for k, v in merged.envs.get(fid, {}).items():
            if k not in base.envs.get(fid, {}) or k in tn:
                post.envs.setdefault(fid, {})[k] = v      # value of the last iteration
        for loc, hr in havoc_loc.items():
            nr = merged.store[loc]
            post.store[loc] = self.loop_rec(lp, loc, base.store[loc], hr, nr, merged.pc, start_pc)
        for loc, r in merged.store.items():
            if loc not in base.store:
                post.store[loc] = r
        self.st = post
        if orelse:
            self.block(orelse)

    def rec_changed(self, a, b):
        if a is None:
            return False
        if a.kind in ('list', 'set'):
            if (a.extra or {}).get('front') != (b.extra or {}).get('front') or a.base is not b.base:
                return True
            if len(a.items or ()) != len(b.items or ()) or any(not same(x, y) for x, y in zip(a.items or (), b.items or ())):
                return True
        for k in set(a.f) | set(b.f):
            x, y = a.f.get(k, UNDEF), b.f.get(k, UNDEF)
            if isinstance(x, tuple):
                x = x[1]
            if isinstance(y, tuple):
                y = y[1]
            if not same(x, y):
                return True
        return False

    def havoc_value(self, v, lp, k):
        if isinstance(v, ArrW) or (isinstance(v, Expr) and alg.is_arr(v)):
            return sym('@S%d.%d' % (self.loopdepth(lp), k), pos=False, arr=True)
        if isinstance(v, Tup):
            return Tup([self.havoc_value(x, lp, '%s.%d' % (k, j)) for j, x in enumerate(v.items)])
        if isinstance(v, Ref):
            return v
        return sym('@S%d.%s' % (self.loopdepth(lp), k), pos=False, arr=True)

    def loopdepth(self, lp):
        return lp.id

    def havoc_rec(self, r0, r1, lp, k):
        r = r0.copy()
        if r.kind in ('list', 'set'):
            if r.items is not None and (r1.items is None or len(r1.items) != len(r0.items) or r1.base is not r0.base or (r1.extra or {}).get('front')):
                r.items = []
                r.base = sym('@L%d.%s' % (lp.id, k), pos=False, arr=True)
                r.extra = {'loop': lp.id}
            elif r.items is not None:
                r.items = [self.havoc_value(x, lp, '%s_%d' % (k, j)) if not same(x, r1.items[j]) else x for j, x in enumerate(r0.items)]
            return r
        for f in set(r0.f) | set(r1.f):
            x, y = r0.f.get(f, UNDEF), r1.f.get(f, UNDEF)
            if isinstance(y, tuple):
                xv = x[1] if isinstance(x, tuple) else UNDEF
                if not same(xv, y[1]):
                    r.f[f] = (y[0], sym('@R%d.%s.%s' % (lp.id, k, f), pos=False, arr=True))
            elif not same(x, y):
                r.f[f] = sym('@R%d.%s.%s' % (lp.id, k, f), pos=False, arr=True) if not isinstance(x, Ref) else x
        return r

    def loop_rec(self, lp, loc, r0, hr, nr, pc_end, pc_start):
        r = r0.copy()
        if r0.kind in ('list', 'set') and r0.items is not None and hr.base is not None and hr.base is not r0.base:
            added = nr.items
            out = list(r0.items)
            front = (nr.extra or {}).get('front', ())
            if nr.base is not hr.base or len(front) > 1 or any(isinstance(x, GuardItem) for x in front):
                r.base = self.opaque('loopout:%d:list' % lp.id, fn('loopctx', (self.tok_iter(lp.iter),)), arr=True)
                r.items = []
                return r
            out = [RevSeg(MapSeg(lp, x, True)) for x in front] + out
            if not any(isinstance(x, (GuardItem, MapSeg, RevSeg)) for x in list(added) + list(r0.items)):
                n = fn('len', (hr.base,), nonneg=True, arr=False)
                lp.state['len.%s' % loc] = (num(len(r0.items)), n, n + num(len(added) + len(front)))
            for x in added:
                if isinstance(x, GuardItem):
                    out.append(MapSeg(lp, x.val, x.guard))
                else:
                    out.append(MapSeg(lp, x, True))
            r.items = out
            return r
        if r0.kind in ('list', 'set') and r0.items is not None:
            r.items = [y if same(x, y) else self.loop_result(lp, 'item%d' % j, x, hr.items[j], y, False)
                       for j, (x, y) in enumerate(zip(r0.items, nr.items))]
            return r
        for f in set(r0.f) | set(nr.f):
            x, y, h = r0.f.get(f, UNDEF), nr.f.get(f, UNDEF), hr.f.get(f, UNDEF)
            if isinstance(y, tuple):
                xv = x[1] if isinstance(x, tuple) else UNDEF
                hv = h[1] if isinstance(h, tuple) else h
                r.f[f] = (y[0], self.loop_result(lp, str(f), xv, hv, y[1], False)) if not same(xv, y[1]) else y
                if not same(xv, y[1]):
                    lp.state['%s.%s' % (loc, f)] = (xv, hv, y[1])
            elif not same(x, y):
                r.f[f] = self.loop_result(lp, str(f), x, h, y, False)
                lp.state['%s.%s' % (loc, f)] = (x, h, y)
        return r

    def loop_result(self, lp, k, init, s, nxt, broke):
        """value of a loop-carried variable after the loop"""
        if isinstance(init, Tup) and isinstance(nxt, Tup):
            return Tup([self.loop_result(lp, '%s.%d' % (k, j), a, b, c, broke) for j, (a, b, c) in enumerate(zip(init.items, s.items, nxt.items))])
        if isinstance(nxt, Node) and isinstance(s, Expr):
            r = self.guarded_sweep(lp, k, init, s, nxt)
            if r is not None:
                return r
        if isinstance(nxt, ArrW) and isinstance(nxt.base, Expr) and isinstance(s, Expr) and nxt.base.t == s.t:
            ws = []
            for ix, v, l2 in nxt.writes:
                ws.append((ix, v, l2 or lp))
                lp.writes.append((k, ix, v))
            # a pointwise sweep over the whole array is a lifted assignment
            if len(ws) == 1 and len(ws[0][0]) == 1 and isinstance(ws[0][0][0], Expr) and ws[0][0][0].t == lp.var.t and self.sweeps(lp, init):
                return self.unsel(ws[0][1], lp.var, s, init)
            if isinstance(init, ArrW):
                return ArrW(init.base, list(init.writes) + ws)
            return ArrW(init, ws)
        if isinstance(nxt, Expr) and isinstance(s, Expr) and isinstance(init, Expr) and not broke and len(s.t) == 1:
            sid_ = alg.sid(s)
            d = alg.add(nxt, alg.scale(s, -1))
            if sid_ not in alg.deep_atoms(d) and not self.other_state(d, lp):
                return alg.add(init, self.sum_over(lp, d))
            if sid_ in alg.atoms_of(nxt):
                q = alg.simplify(alg.div(nxt, s)) if nxt.t else nxt
                if sid_ not in alg.deep_atoms(q) and not self.other_state(q, lp):
                    r = self.elementwise(lp, q)
                    if r is not None:
                        return alg.mul(init, self.models.opaque_np(self, 'prod', [r], {}, None))
                    return alg.mul(init, fn('prod', (q, lp.var, self.tok_iter(lp.iter)), arr=True))
        return self.opaque('loopout:%d:%s' % (lp.id, k), fn('loopctx', (self.tok_iter(lp.iter),)), arr=True)

    def guarded_sweep(self, lp, k, init, s, nxt):
        """a[i] = v under a condition, for every i: an elementwise conditional assignment"""
        if not self.sweeps(lp, init):
            return None
        ok = [True]

        def one(x):
            if isinstance(x, Expr) and x.t == s.t:
                return x
            if isinstance(x, ArrW) and isinstance(x.base, Expr) and x.base.t == s.t and len(x.writes) == 1:
                ix, v, l2 = x.writes[0]
                if l2 is None and len(ix) == 1 and isinstance(ix[0], Expr) and ix[0].t == lp.var.t:
                    lp.writes.append((k, ix, v))
                    return v
            ok[0] = False
            return x
        el = lift1(one, nxt)
        if not ok[0]:
            return None
        return self.unsel(el, lp.var, s, init)

    def other_state(self, e, lp):
        return any(ATOMS[a].kind == 'sym' and str(ATOMS[a].name).startswith(('@S%d.' % lp.id, '@R%d.' % lp.id)) for a in alg.deep_atoms(e))

    def tok_iter(self, it):
        return self.tok(it) if not isinstance(it, IterV) else it.tok(self)

    def elementwise(self, lp, d):
        """the array whose elements a loop over whole arrays sums or multiplies, or None"""
        if not isinstance(lp.iter, Expr) and not self.sweeps(lp, None):
            return None
        r = self.unsel(d, lp.var, None, None)
        return r if isinstance(r, Expr) and not r.t == d.t and alg.sid(lp.var) not in alg.deep_atoms(r) else None

    def sum_over(self, lp, d):
        r = self.elementwise(lp, d)
        if r is not None:
            return self.models.lin_sum('sum', r, None)
        return fn('sum', (d, lp.var, self.tok_iter(lp.iter)), arr=True)

    def sweeps(self, lp, arr):
        it = lp.iter
        if isinstance(it, IterV):
            return it.kind in ('enumerate', 'zip')
        if isinstance(it, RangeV):
            if not (isinstance(it.lo, Expr) and not it.lo.t):
                return False
            h = it.hi
            if isinstance(h, Expr) and h.single():
                (m, c), = h.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name in ('len', 'size'):
                    return True
                if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym' and ATOMS[m[0][0]].name.startswith('@n'):
                    return True
        return False

    def unsel(self, v, i, s, init):
        """turn an element expression at index i back into a lifted array"""
        iid = alg.sid(i)

        def leaf(x):
            if not isinstance(x, Expr):
                return x
            mp = {}
            for a in alg.deep_atoms(x):
                k = ATOMS[a]
                if k.kind == 'fn' and k.name == 'sel' and len(k.args) == 2 and isinstance(k.args[1], Expr) and k.args[1].t == i.t:
                    mp[a] = k.args[0]
            if isinstance(s, Expr) and s.single():
                pass
            return alg.subst(x, mp)
        out = self.map_conds(v, leaf)

        def back(x):
            if isinstance(x, Expr) and isinstance(s, Expr) and x.t == s.t:
                return init
            if isinstance(x, Expr) and isinstance(s, Expr) and alg.sid(s) in alg.deep_atoms(x):
                return alg.subst(x, {alg.sid(s): init}) if isinstance(init, Expr) else x
            return x
        return lift1(back, out) if isinstance(out, Node) else back(out)

    def map_conds(self, v, leaf):
        if not isinstance(v, Node):
            return leaf(v)
        memo = {}

        def go(x):
            if not isinstance(x, Node):
                return leaf(x)
            r = memo.get(id(x))
            if r is None:
                r = ite(map_cond(x.var, leaf), go(x.hi), go(x.lo))
                memo[id(x)] = r
            return r
        return go(v)

    def counted(self, s):
        """(counter, range call) of a loop `while i < n: ...; i += 1` that only counts, or None"""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or s.orelse or not s.body:
            return None
        lo, hi, op = t.left, t.comparators[0], type(t.ops[0])
        if not isinstance(lo, ast.Name) or op not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            lo, hi, op = hi, lo, {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}.get(op)
        last = s.body[-1]
        if not isinstance(lo, ast.Name) or op is None:
            return None
        i, step = lo.id, None
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1:
            step = 1 if isinstance(last.op, ast.Add) else -1 if isinstance(last.op, ast.Sub) else None
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp):
            b = last.value
            if isinstance(b.left, ast.Name) and b.left.id == i and isinstance(b.right, ast.Constant) and b.right.value == 1:
                step = 1 if isinstance(b.op, ast.Add) else -1 if isinstance(b.op, ast.Sub) else None
            elif isinstance(b.right, ast.Name) and b.right.id == i and isinstance(b.left, ast.Constant) and b.left.value == 1 and isinstance(b.op, ast.Add):
                step = 1
        if step is None or (step == 1) != (op in (ast.Lt, ast.LtE)):
            return None
        stored, called, other = set(), set(), False
        own = {id(n) for x in s.body for f in ast.walk(x) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(f) if n is not f}
        for x in s.body[:-1]:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    stored.add(n.id)
                elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    other = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    called.add(n.func.value.id)
                elif isinstance(n, (ast.Nonlocal, ast.Global)) or isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.Yield)) and id(n) not in own:
                    return None
        if i in stored:
            return None
        names = {n.id for n in ast.walk(hi) if isinstance(n, ast.Name)}
        if names & (stored | called | {i}) or other and any(isinstance(n, ast.Attribute) for n in ast.walk(hi)):
            return None
        if any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'int', 'min', 'max')) for n in ast.walk(hi)):
            return None
        if op in (ast.LtE, ast.GtE):
            hi = ast.BinOp(hi, ast.Add() if step == 1 else ast.Sub(), ast.Constant(1))
        r = ast.Call(ast.Name('range', ast.Load()), [ast.Name(i, ast.Load()), hi] + ([ast.UnaryOp(ast.USub(), ast.Constant(1))] if step == -1 else []), [])
        end = ast.Assign([ast.Name(i, ast.Store())], ast.Call(ast.Name('max' if step == 1 else 'min', ast.Load()), [ast.Name(i, ast.Load()), hi], []))
        for x in (r, end):
            for n in ast.walk(x):
                ast.copy_location(n, s)
        return i, r, end

    def rotated(self, s):
        """(statements before the loop, equivalent loop) of `while True: A; if c: break; R` or of `while t: if c: break; R`"""
        if s.orelse:
            return None

        def own(x, kinds):
            if isinstance(x, kinds):
                return True
            if isinstance(x, (ast.For, ast.While)):
                return any(own(y, kinds) for y in x.orelse)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                return False
            return any(own(y, kinds) for y in ast.iter_child_nodes(x))
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for j, x in enumerate(s.body):
            if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Break):
                rest = x.orelse + s.body[j + 1:]
                head = s.body[:j]
                if head and any(own(y, ast.Continue) for y in rest):
                    return None
                go = ast.UnaryOp(ast.Not(), x.test)
                t = go if forever else ast.BoolOp(ast.And(), [s.test, go])
                if not forever and head:
                    return None
                w = ast.While(t, (rest + head) or [ast.Pass()], [])
                for n in (go, t, w):
                    ast.copy_location(n, s)
                for n in w.body[:1]:
                    if isinstance(n, ast.Pass):
                        ast.copy_location(n, s)
                return head, w
            if own(x, (ast.Break, ast.Continue)):
                return None
        return None

    def s_While(self, s):
        k = self.rotated(s)
        if k is not None:
            self.block(k[0])
            if self.st is not None:
                self.s_While(k[1])
            return
        # a loop whose condition is decided is unrolled
        k = self.counted(s)
        if k is not None:
            i, r, end = k
            start = self.ev(ast.copy_location(ast.Name(i, ast.Load()), s))
            if isinstance(start, Expr):
                it = self.ev(r)
                self.for_loop(s, ast.copy_location(ast.Name(i, ast.Store()), s), it, s.body[:-1])
                if self.st is not None:
                    self.assign(end.targets[0], start)
                    self.block([end])
                return
        fr = self.frames[-1]
        n = 0
        ctx = {'breaks': [], 'continues': []}
        snapshot = self.st.copy()
        marks = (len(self.raises), len(self.asserts), len(self.calls), len(self.solvers), len(self.extcalls), len(self.loops), len(self.unsup), len(fr.exits))
        while True:
            if self.st is None:
                break
            c = self.truth(self.ev(s.test), s)
            c = prune(c, self.st.pc)
            if c is False:
                break
            if c is not True or n > self.MAXUNROLL or (isinstance(s.test, ast.Constant)):
                self.st = snapshot
                for lst, k in zip((self.raises, self.asserts, self.calls, self.solvers, self.extcalls, self.loops, self.unsup, fr.exits), marks):
                    del lst[k:]
                self.summarise(s, None, Tup(['while']), s.body, s.orelse, cond_node=s.test)
                return
            fr.loops.append(ctx)
            ctx['continues'] = []
            self.block(s.body)
            fr.loops.pop()
            if ctx['continues']:
                self.st = self.join_states(ctx['continues'] + [self.st])
            n += 1
        if ctx['breaks']:
            self.st = self.join_states(ctx['breaks'] + [self.st])

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (type(n).__name__, self.where(n)))
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float, complex)):
            if isinstance(v, float):
                # use the literal's decimal text, not its binary expansion
                return num(v)
            return num(v)
        if v is Ellipsis:
            return ELL
        if isinstance(v, bytes):
            return repr(v)
        raise Unsupported('constant')

    def e_Name(self, n):
        return self.name(n.id, n)

    def name(self, name, node):
        fr = self.frames[-1]
        v = self.st.envs.get(fr.fid, {}).get(name, None)
        e = self.st.envs.get(fr.fid, {})
        if name in e and name not in fr.globals:
            v = e[name]
            if v is UNDEF:
                self.do_raise('UnboundLocalError: ' + name, node, 'UnboundLocalError', implicit=True)
                raise Dead()
            return v
        for fid in getattr(fr, 'chain', ()):
            e = self.st.envs.get(fid, {})
            if name in e:
                return e[name]
        m = fr.mod
        if name in m.defs:
            return self.lookup_mod(m, name)
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                v = self.from_import(s.module if not s.level else m.rel(s), name)
                if v is not None and not isinstance(v, Opaque):
                    return v
        if name in self.models.BUILTINS:
            return Ext('builtins.' + name)
        if name == '__name__':
            return m.name
        if name == '__file__':
            return m.path
        self.do_raise('NameError: ' + name, node, 'NameError', implicit=True)
        raise Dead()

    def e_Tuple(self, n):
        return Tup(self.elts(n.elts))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                ks = self.known_iter(v)
                if ks is None:
                    out.append(self.unsupported('star', x, v))
                else:
                    out.extend(ks)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            parts, ok = [], True
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = self.models.seq(self, self.maplift(self.ev(x.value)))
                    ks = self.known_iter(v)
                    if ks is not None:
                        parts.append(Tup(ks))
                    elif isinstance(v, Expr):
                        parts.append(v)
                        ok = False
                    else:
                        return self.new_list([self.unsupported('star', x, v)])
                else:
                    parts.append(Tup([self.ev(x)]))
            if ok:
                return self.new_list([y for p in parts for y in p.items])
            return self.models.concat_parts(self, parts)
        return self.new_list(self.elts(n.elts))

    def e_Set(self, n):
        return self.alloc(Rec('set', items=self.elts(n.elts)))

    def e_Dict(self, n):
        pairs = []
        r = Rec('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v)
                if isinstance(d, Ref):
                    r.f.update(self.rec(d).f)
                continue
            kv = self.ev(k)
            r.f[vkey(kv)] = (kv, self.ev(v))
        return self.alloc(r)

    def e_Lambda(self, n):
        fr = self.frames[-1]
        return self.make_func(n, fr.mod, (fr.fid,) + tuple(getattr(fr, 'chain', ())))

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test), n)
        return self.gated(c, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def gated(self, c, fa, fb):
        pc = self.st.pc
        if isinstance(c, Node):
            c = prune(c, pc)
        if c is True:
            return fa()
        if c is False:
            return fb()
        res = [UNDEF, UNDEF]

        def a():
            try:
                res[0] = fa()
            except Dead:
                self.st = None

        def b():
            try:
                res[1] = fb()
            except Dead:
                self.st = None
        self.branch(c, a, b)
        if self.st is None:
            raise Dead()
        return ite(c, res[0], res[1])

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vs):
            v = self.ev(vs[0])
            if len(vs) == 1:
                return v
            t = self.truth(v, n)
            if isand:
                return self.gated(t, lambda: go(vs[1:]), lambda: v if not isinstance(v, Node) or t is not v else False)
            return self.gated(t, lambda: v if not (t is v) else True, lambda: go(vs[1:]))
        return go(n.values)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return b_not(self.truth(v, n))
        if isinstance(n.op, ast.Invert):
            def inv(x):
                if isinstance(x, bool):
                    return not x
                if self.models.mask_tup(x):
                    return Tup([b_not(y) for y in x.items])
                return self.opaque('invert', x)
            return lift1(inv, v)
        if isinstance(n.op, ast.USub):
            return self.arith(lambda a: alg.scale(a, -1), [v], n)
        return v

    def num_leaf(self, x, node=None):
        """leaf -> Expr or UNDEF"""
        if isinstance(x, Expr):
            return x
        if isinstance(x, bool):
            return num(int(x))
        if x is UNDEF:
            return x
        if isinstance(x, ArrW):
            a = fn('arrw', (x.vkey,), arr=True)
            ATOMS[alg.sid(a)].meta = x
            return a
        if isinstance(x, Ref):
            r = self.rec(x)
            if r.kind == 'list' and r.items is not None and len(r.items) == 1 and isinstance(r.items[0], MapSeg) and r.items[0].guard is True:
                return None
            if r.kind in ('list', 'tuple') and self.plain_items(x):
                return Tup(r.items)
            if r.base is not None and not r.f and not r.items:
                return r.base
            return None
        if isinstance(x, Tup):
            return x
        return None

    def arith(self, f, vs, node):
        def g(*xs):
            ys = []
            for x in xs:
                y = self.num_leaf(x, node)
                if y is UNDEF:
                    return UNDEF
                if y is None:
                    return self.unsupported('arith', node, *xs)
                ys.append(y)
            return self.vec(f, ys, node)
        return apply(g, *vs)

    def vec(self, f, ys, node):
        tl = [len(y.items) for y in ys if isinstance(y, Tup)]
        if tl and self.exact_shapes:
            dims = [0 if not isinstance(y, Tup) else 2 if y.items and all(isinstance(i, Tup) for i in y.items) else 1 for y in ys]
            if 2 in dims and 1 in dims:      # the axes of arrays are matched from the last one
                ys = [Tup([y]) if d == 1 else y for y, d in zip(ys, dims)]
                tl = [len(y.items) for y in ys if isinstance(y, Tup)]
        if tl:
            n = max(tl)
            out = []
            for i in range(n):
                args = []
                for y in ys:
                    if isinstance(y, Tup):
                        args.append(y.items[i] if len(y.items) == n else (y.items[0] if len(y.items) == 1 else UNDEF))
                    else:
                        args.append(y)
                out.append(self.arith(f, args, node))
            return Tup(out)
        try:
            return f(*ys)
        except alg.AlgError as e:
            return self.unsupported('alg:%s' % e, node)

    OPS = {ast.Add: alg.add, ast.Sub: lambda a, b: alg.add(a, alg.scale(b, -1)), ast.Mult: alg.mul, ast.Div: alg.div,
           ast.Pow: alg.power}

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, node):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            def g(x, y):
                if isinstance(x, bool) and isinstance(y, bool):
                    return (x and y) if isinstance(op, ast.BitAnd) else (x or y) if isinstance(op, ast.BitOr) else (x != y)
                if isinstance(x, Ref) and isinstance(y, Ref):
                    return self.models.set_op(self, op, x, y, node)
                if self.models.mask_tup(x) and self.models.mask_tup(y) and len(x.items) == len(y.items):
                    f = {ast.BitAnd: b_and, ast.BitOr: b_or, ast.BitXor: lambda p, q: ite(p, b_not(q), q)}[type(op)]
                    return Tup([f(p, q) for p, q in zip(x.items, y.items)])
                if isinstance(op, ast.BitAnd) and (x is False or y is False):
                    return False
                if isinstance(op, ast.BitOr) and (x is True or y is True):
                    return True
                if isinstance(op, ast.BitAnd) and x is True or isinstance(op, ast.BitOr) and x is False:
                    return y
                if isinstance(op, ast.BitAnd) and y is True or isinstance(op, ast.BitOr) and y is False:
                    return x
                x1, y1 = self.as_bool(x), self.as_bool(y)
                if x1 is not None and y1 is not None:
                    return ite(x1, y1, False) if isinstance(op, ast.BitAnd) else ite(x1, True, y1) if isinstance(op, ast.BitOr) else ite(x1, b_not(y1), y1)
                return self.opaque('bitop', x, y)
            return apply(g, a, b)
        if isinstance(op, ast.Add):
            r = self.seq_add(a, b, node)
            if r is not None:
                return r
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return fn('fmt', (a, self.tok(b)))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(y, Node) and self.rec(x).kind == 'list' and isinstance(self.any_leaf(y), Expr):
                    return lift1(lambda q: self.binop(op, x, q, node), y)
                if isinstance(x, Ref) and self.rec(x).kind == 'list':
                    if isinstance(y, Expr) and y.is_const() and self.plain_items(x):
                        return self.new_list(self.rec(x).items * int(y.const()))
                    if isinstance(y, Expr) and self.plain_items(x) and len(self.rec(x).items) == 1:
                        return self.alloc(Rec('list', items=[MapSeg(self.rep_loop(y), self.rec(x).items[0], True)]))
                if isinstance(x, str):
                    if isinstance(y, Expr) and y.is_const():
                        return x * int(y.const())
        if isinstance(op, ast.MatMult):
            return self.models.matmul(self, a, b, node)
        if isinstance(op, ast.FloorDiv):
            return self.arith(self.models.floordiv, [a, b], node)
        if isinstance(op, ast.Mod):
            return self.arith(self.models.mod, [a, b], node)
        if isinstance(op, (ast.Sub,)) and isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == 'set':
            return self.models.set_op(self, op, a, b, node)
        f = self.OPS.get(type(op))
        if f is None:
            return self.unsupported('operator', node, a, b)
        return self.arith(f, [self.maplift(a), self.maplift(b)], node)

    def as_bool(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, Expr) and x.single():
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0][0]].meta is not None and isinstance(ATOMS[m[0][0]].meta, Node):
                return ATOMS[m[0][0]].meta
        if isinstance(x, Expr):
            return cond('truth', x)
        return None

    def rep_loop(self, n):
        lp = Loop(RangeV(num(0), n, num(1)), self.range_sym(None), None, 'rep')
        return lp

    def maplift(self, v):
        """a list built elementwise over one iteration space is the lifted array of its elements"""
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == 'list' and r.items is not None and r.base is None and len(r.items) == 1 and isinstance(r.items[0], MapSeg) and r.items[0].guard is True:
                return self.lift_map(r.items[0])
            if r.kind == 'list' and r.items is not None and r.base is None and len(r.items) == 1 and isinstance(r.items[0], RevSeg) and r.items[0].seg.guard is True:
                return self.index(self.lift_map(r.items[0].seg), SliceV(None, None, num(-1)), None)
        return v

    def lift_map(self, m):
        return self.unsel(m.val, m.loop.var, None, None)

    def seq_add(self, a, b, node):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, Tup) and isinstance(b, Tup) and not isinstance(node, ast.BinOp):
            return None
        if isinstance(a, Ref) and isinstance(b, Ref) and self.rec(a).kind == 'list' and self.rec(b).kind == 'list':
            if self.rec(b).base is not None and (self.rec(a).items or self.rec(a).base is not None):
                return self.models.concat_parts(self, [self.tok(a), self.tok(b)])
            return self.alloc(Rec('list', items=list(self.rec(a).items or []) + list(self.rec(b).items or []), base=self.rec(a).base if self.rec(a).base is not None else self.rec(b).base))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and self.rec(x).kind == 'list' and self.plain_items(x) and isinstance(self.any_leaf(y), Expr) and alg.is_arr(self.any_leaf(y)) \
                    and isinstance(node, (ast.BinOp, ast.AugAssign)):
                # list + list of unknown length
                t = Tup(self.rec(x).items)
                return lift1(lambda z: self.models.concat_parts(self, [t, z] if x is a else [z, t]), y)
        if isinstance(a, str) or isinstance(b, str):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and all(isinstance(z, str) for z in x.items):
                    return Tup([z + y if x is a else y + z for z in x.items])
            def f(x, y):
                if isinstance(x, str) and isinstance(y, str):
                    return x + y
                return fn('strcat', (self.tok(x), self.tok(y)))
            return apply(f, a, b)
        if isinstance(a, Node) or isinstance(b, Node):
            al, bl = self.any_leaf(a), self.any_leaf(b)
            if isinstance(al, str) or isinstance(bl, str):
                def f(x, y):
                    if isinstance(x, str) and isinstance(y, str):
                        return x + y
                    return fn('strcat', (self.tok(x), self.tok(y)))
                return apply(f, a, b)
        return None

    def any_leaf(self, v):
        while isinstance(v, Node):
            v = v.hi if v.hi is not UNDEF else v.lo
        return v

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            r = self.compare(op, left, right, n)
            res = b_and(res, r) if res is not True else r
            left = right
        return res

    def compare(self, op, a, b, node):
        def g(x, y):
            return self.cmp_leaf(op, x, y, node)
        if isinstance(op, (ast.In, ast.NotIn)):
            def h(x, y):
                return self.contains(x, y, node)
            r = apply(h, a, b)
            return b_not(r) if isinstance(op, ast.NotIn) else r
        return apply(g, a, b)

    def cmp_leaf(self, op, x, y, node):
        if x is UNDEF or y is UNDEF:
            return cond('undefcmp', 0)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_leaf(x, y)
            return b_not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(x, Expr) and isinstance(y, Expr) and any(ATOMS[i].kind == 'fn' and ATOMS[i].name == 'nan' for z in (x, y) for i in alg.atoms_of(z)):
            return isinstance(op, ast.NotEq)        # nan is neither less than, equal to nor greater than anything
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_leaf(x, y, node)
            return (Tup([b_not(i) for i in r.items]) if isinstance(r, Tup) else b_not(r)) if isinstance(op, ast.NotEq) else r
        x, y = self.num_leaf(x), self.num_leaf(y)
        if isinstance(x, Tup) and not isinstance(y, Tup) and y is not None:
            return Tup([self.compare(op, i, y, node) for i in x.items])
        if isinstance(y, Tup) and not isinstance(x, Tup) and x is not None:
            return Tup([self.compare(op, x, i, node) for i in y.items])
        if isinstance(x, Tup) and isinstance(y, Tup) and (len(x.items) == len(y.items) == 1 or len(x.items) == len(y.items) and all(isinstance(i, Expr) and self.models.datelike(i) for i in x.items + y.items)):
            return Tup([self.compare(op, i, j, node) for i, j in zip(x.items, y.items)])
        if not isinstance(x, Expr) or not isinstance(y, Expr):
            return self.cond_opaque('cmp:' + type(op).__name__, x, y)
        d = alg.add(x, alg.scale(y, -1))
        if isinstance(op, ast.Lt):
            return lt0(d)
        if isinstance(op, ast.Gt):
            return gt0(d)
        if isinstance(op, ast.LtE):
            return b_not(gt0(d))
        return b_not(lt0(d))

    def cond_opaque(self, name, *args):
        return cond(name, *[Tup([self._t(a) for a in args])])

    def _t(self, a):
        return a

    def is_symbolic(self, x):
        return isinstance(x, Expr) and not x.is_const()

    def is_leaf(self, x, y):
        if y is None or x is None:
            o = x if y is None else y
            if o is None:
                return True
            if isinstance(o, Expr) and o.single():
                (m, c), = o.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    k = ATOMS[m[0][0]]
                    if k.kind == 'sym' and k.name.startswith('?'):     # optional symbol
                        return cond('isnone', o)
                    if k.kind == 'fn' and (k.name.startswith(('attr:', 'call:', 'ext:', 'apply', 'dictget', 'loopout', 'unsup', 'item'))):
                        return cond('isnone', o)
            return False
        return self.eq_leaf(x, y, None)

    def eq_leaf(self, x, y, node):
        if isinstance(x, Expr) and isinstance(y, Expr):
            return eq0(alg.add(x, alg.scale(y, -1)))
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        if isinstance(x, (bool,)) and isinstance(y, Expr) or isinstance(y, bool) and isinstance(x, Expr):
            e, b = (x, y) if isinstance(x, Expr) else (y, x)
            if e.is_const():
                return e.const() == int(b)
            t = cond('truth', e)
            return t if b else b_not(t)
        cx, cy = isinstance(x, (str, EnumMember, bool)) or x is None, isinstance(y, (str, EnumMember, bool)) or y is None
        if cx and cy:
            return x is y or (type(x) is type(y) and x == y)
        if isinstance(x, Expr) and cy or isinstance(y, Expr) and cx:
            e, c = (x, y) if isinstance(x, Expr) else (y, x)
            if e.is_const():
                return False
            if c is None:
                return self.is_leaf(e, None)
            return cond('eqm', e, c)
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return False
            r = True
            for i, j in zip(x.items, y.items):
                r = b_and(r, self.compare(ast.Eq(), i, j, node))
            return r
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.loc == y.loc:
                return True
            rx, ry = self.rec(x), self.rec(y)
            if rx.kind in ('list', 'set') and ry.kind == rx.kind and self.plain_items(x) and self.plain_items(y):
                if rx.kind == 'set':
                    sx, sy = {vkey(i) for i in rx.items}, {vkey(i) for i in ry.items}
                    return sx == sy
                return self.eq_leaf(Tup(rx.items), Tup(ry.items), node)
        if same(x, y):
            return True
        if self.exact_shapes and isinstance(x, Tup) != isinstance(y, Tup):
            a, b = (x, y) if isinstance(x, Tup) else (y, x)
            if isinstance(b, (Expr, str, EnumMember)):     # an array against one value
                return Tup([self.compare(ast.Eq(), i, b, node) for i in a.items])
        if isinstance(x, (Ref, Tup)) and isinstance(y, Expr) or isinstance(y, (Ref, Tup)) and isinstance(x, Expr):
            a, b = (x, y) if isinstance(x, (Ref, Tup)) else (y, x)
            if isinstance(a, Ref) and self.rec(a).kind in ('list',) and self.plain_items(a):
                a = Tup(self.rec(a).items)
            if isinstance(a, Tup) and len(a.items) == 1 and isinstance(b, Expr) and isinstance(a.items[0], (Expr, Node)) and self.models.datelike(a.items[0]):
                return self.compare(ast.Eq(), a.items[0], b, node)
            if isinstance(a, Tup) and isinstance(b, Expr) and b.is_const():
                return Tup([self.compare(ast.Eq(), i, b, node) for i in a.items]) if False else False
        if (cx or cy) and (isinstance(x, Ref) or isinstance(y, Ref) or isinstance(x, (Cls, Func, Opaque, Tup)) or isinstance(y, (Cls, Func, Opaque, Tup))):
            return False
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.name.startswith(('builtins.', 'pandas.')) and y.name.startswith(('builtins.', 'pandas.')):
            return False
        return cond('eq', Tup([self._k(x), self._k(y)]))

    def _k(self, x):
        return x

    def contains(self, x, y, node):
        if isinstance(y, str) and isinstance(x, str):
            return x in y
        if isinstance(y, str) and (x is None or isinstance(x, (bool, EnumMember)) or isinstance(x, Expr) and x.is_const()):
            self.raise_when(True, 'TypeError', node, 'TypeError')
        ks = self.known_iter(y) if isinstance(y, (Tup, Ref, Cls)) else None
        if ks is not None and not (isinstance(y, Ref) and self.rec(y).base is not None):
            r = False
            for k in ks:
                r = b_or(r, self.compare(ast.Eq(), x, k, node))
            return r
        if isinstance(y, Ref):
            rec = self.rec(y)
            if rec.kind == 'dict' and vkey(x) in rec.f:
                v = rec.f[vkey(x)][1]
                if isinstance(v, Node):
                    return lift1(lambda z: z is not UNDEF, v)
                return v is not UNDEF
            if rec.kind == 'df' and isinstance(x, str) and x in rec.f:
                return True
        return cond('in', Tup([self.tokv(x), self.tokv(y)]))

    def tokv(self, x):
        t = self.tok(x)
        return x if isinstance(x, (Expr, str)) or x is None else TokLeaf(t)

    def truth(self, v, node=None):
        def f(x):
            if isinstance(x, bool):
                return x
            if x is None:
                return False
            if isinstance(x, str):
                return bool(x)
            if isinstance(x, Expr):
                if x.is_const():
                    return bool(x.t)
                if x.single():
                    (m, c), = x.t.items()
                    k = ATOMS[m[0][0]]
                    if len(m) == 1 and isinstance(k.meta, Node):
                        return k.meta
                    if len(m) == 1 and k.kind == 'sym' and k.name.startswith('?'):
                        return cond('truth', x)
                if all(ATOMS[a].kind in ('sym', 'poly', 'prime') for a in alg.atoms_of(x)):
                    return b_not(eq0(x))
                return cond('truth', x)
            if isinstance(x, Tup):
                if len(x.items) == 1:
                    return self.truth(x.items[0])
                return len(x.items) > 0
            if isinstance(x, Ref):
                r = self.rec(x)
                if r.kind in ('list', 'set') and self.plain_items(x):
                    return len(r.items) > 0
                if r.kind == 'dict' and r.base is None:
                    return len(r.f) > 0
                if r.kind == 'obj':
                    return True
                return cond('truth', TokLeaf(self.tok(x)))
            if x is UNDEF:
                return cond('truthundef', 0)
            return True
        return lift1(f, v)

    def e_Attribute(self, n):
        return self.attr(self.ev(n.value), n.attr, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.ev(p.value))
                if p.format_spec is not None or p.conversion not in (-1,):
                    parts[-1] = fn('fmt', (self.tok(parts[-1]), ast.unparse(p)[-20:])) if not isinstance(parts[-1], Node) else parts[-1]

        def f(*xs):
            out = []
            for x in xs:
                if isinstance(x, str):
                    s = x
                elif isinstance(x, EnumMember):
                    s = '%s.%s' % (x.cls, x.name)
                elif x is None or isinstance(x, bool):
                    s = str(x)
                elif isinstance(x, Expr) and x.is_const() and x.const().denominator == 1:
                    s = str(int(x.const()))
                else:
                    s = None
                if s is not None and out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s if s is not None else x)
            if len(out) == 1 and isinstance(out[0], str):
                return out[0]
            if len(out) == 2 and isinstance(out[0], Expr) and re.fullmatch(r'-\d\d-\d\d', str(out[1])):
                return fn('isodate', (out[0], alg.num(int(out[1][1:3])), alg.num(int(out[1][4:]))))
            return fn('fstr', tuple(self.tok(o) for o in out))
        return apply(f, *parts) if parts else ''

    def e_FormattedValue(self, n):
        return self.ev(n.value)

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Slice(self, n):
        return SliceV(self.ev(n.lower) if n.lower else None, self.ev(n.upper) if n.upper else None, self.ev(n.step) if n.step else None)

    def ev_index(self, n):
        return self.ev(n)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.ev_index(n.slice)
        return self.index(o, k, n)

    def e_Await(self, n):
        return self.ev(n.value)

    # comprehensions
    def comp(self, n, kind):
        fr = self.frames[-1]
        out = self.alloc(Rec('list', items=[]))
        saved = {}
        names = set()
        for g in n.generators:
            names |= target_names(g.target)
        env = self.env()
        for k in names:
            saved[k] = env.get(k, UNDEF) if k in env else None
        has = {k: k in env for k in names}

        if kind == 'dict':
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            elt = n.elt
        call = _Append(out, elt)

        def build(gens):
            if not gens:
                return [call]
            g = gens[0]
            body = build(gens[1:])
            for c in reversed(g.ifs):
                i = ast.If(c, body, [])
                ast.copy_location(i, n)
                body = [i]
            f = ast.For(g.target, g.iter, body, [])
            ast.copy_location(f, n)
            return [f]
        self.block(build(n.generators))
        if self.st is None:
            raise Dead()
        env = self.env()
        for k in names:
            if has[k]:
                env[k] = saved[k]
            else:
                env.pop(k, None)
        if kind == 'dict':
            items = self.rec(out).items
            if any(isinstance(x, (MapSeg, GuardItem, RevSeg)) for x in items):
                r = Rec('dict', base=fn('dictcomp', (self.tok(out),), arr=True))
                return self.alloc(r)
            return self.new_dict([(x.items[0], x.items[1]) for x in items])
        if kind == 'set':
            r = self.rec(out).copy()
            r.kind = 'set'
            seen = {}
            if all(not isinstance(x, (MapSeg, GuardItem, RevSeg)) for x in r.items):
                for x in r.items:
                    seen[vkey(x)] = x
                r.items = list(seen.values())
            self.put(out, r)
        return out

    def s__Append(self, s):
        v = self.ev(s.elt)
        r = self.rec(s.out).copy()
        r.items.append(v)
        self.put(s.out, r)

    def e_ListComp(self, n):
        return self.comp(n, 'list')

    def e_GeneratorExp(self, n):
        return self.comp(n, 'list')

    def e_SetComp(self, n):
        return self.comp(n, 'set')

    def e_DictComp(self, n):
        return self.comp(n, 'dict')

    def e_Call(self, n):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                ks = self.known_iter(v) if not isinstance(v, Node) else None
                if ks is None:
                    args.append(self.unsupported('star-args', n, v))
                else:
                    args.extend(ks)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and self.rec(v).kind == 'dict':
                    for kk, vv in self.rec(v).f.values():
                        kwargs[kk] = vv
                else:
                    self.unsupported('star-kwargs', n, v)
            else:
                kwargs[k.arg] = v
        # method calls on values
        if isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                f = self.frames[-1].func
                for b in self.base_classes(f.cls):
                    m = self.find_method(b, n.func.attr)
                    if m is not None:
                        return self.call(Bound(m, self.name(f.node.args.args[0].arg, n)), args, kwargs, n)
                return None
            o = self.ev(n.func.value)
            return self.method(o, n.func.attr, args, kwargs, n)
        f = self.ev(n.func)
        return self.call(f, args, kwargs, n)

    def method(self, o, name, args, kwargs, node):
        if isinstance(o, Node):
            def one(x):
                if x is UNDEF:
                    return UNDEF
                return self.method(x, name, args, kwargs, node)
            r = self.models.gated_method(self, o, name, args, kwargs, node)
            if r is not NotImplemented:
                return r
            # side effecting methods on gated receivers are analysed per receiver
            return self.lift_effect(o, one)
        if isinstance(o, (Cls, Mod, Opaque, Func, Bound, PyFn)):
            return self.call(self.attr(o, name, node), args, kwargs, node)
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.cls is not None and isinstance(r.cls, Cls):
                f = self.find_method(r.cls, name)
                if f is not None:
                    deco = [ast.unparse(d) for d in f.node.decorator_list]
                    if 'staticmethod' in deco:
                        return self.call(f, args, kwargs, node)
                    if 'classmethod' in deco:
                        return self.call(Bound(f, r.cls), args, kwargs, node)
                    if 'property' not in deco and 'cached_property' not in [d.split('.')[-1] for d in deco]:
                        return self.call(Bound(f, o), args, kwargs, node)
                if name in r.f:
                    return self.call(r.f[name], args, kwargs, node)
                key = '%s.%s' % (r.cls.name, name)
                if key in self.overrides:
                    return self.overrides[key](self, {'self': o, 'args': args, 'kwargs': kwargs})
            elif r.kind == 'obj' and name in r.f and isinstance(r.f[name], (Func, Bound, PyFn, Node)):
                return self.call(r.f[name], args, kwargs, node)
        if isinstance(o, EnumMember):
            return self.models.enum_method(self, o, name, args, kwargs, node)
        return self.models.method(self, o, name, args, kwargs, node)

    def lift_effect(self, o, one):
        if not isinstance(o, Node):
            return one(o)
        return self.gated(vals.CV(o.var), lambda: self.lift_effect(o.hi, one), lambda: self.lift_effect(o.lo, one))

    def attr(self, o, name, node=None):
        if isinstance(o, Node):
            def f(x):
                if x is UNDEF:
                    return UNDEF
                return self.attr(x, name, node)
            return lift1(f, o)
        if isinstance(o, Opaque):
            return self.models.ext_attr(self, o.name + '.' + name, node)
        if isinstance(o, Mod):
            v = self.lookup_mod(o, name)
            if v is None:
                v = self.from_import(o.name, name)
            return v
        if isinstance(o, Cls):
            v = self.cls_attr(o, name, node)
            if v is None:
                if name == '__name__':
                    return o.name
                if name == '__members__' and o.is_enum:
                    return self.new_dict([(m, EnumMember(o.name, m)) for m, _ in o.members()])
                self.do_raise('AttributeError: %s.%s' % (o.name, name), node, 'AttributeError', implicit=True)
                raise Dead()
            return v
        if isinstance(o, EnumMember):
            return self.models.enum_attr(self, o, name, node)
        if isinstance(o, Ref):
            r = self.rec(o)
            if name in r.f and r.kind in ('obj',):
                return r.f[name]
            if r.extra and ('attr', name) in r.extra:
                return r.extra['attr', name]
            if r.cls is not None and isinstance(r.cls, Cls):
                f = self.find_method(r.cls, name)
                if f is not None:
                    deco = [ast.unparse(d).split('.')[-1] for d in f.node.decorator_list]
                    if 'property' in deco or 'cached_property' in deco:
                        return self.call(Bound(f, o), [], {}, node)
                    if 'staticmethod' in deco:
                        return f
                    return Bound(f, o)
                v = self.cls_attr(r.cls, name)
                if v is not None:
                    return v
            if r.kind == 'obj' and r.base is not None:
                v = fn('attr:' + name, (r.base,), arr=True)
                return v
            return self.models.attr(self, o, name, node)
        if isinstance(o, (Func, Bound)):
            if name == '__name__':
                return (o.f if isinstance(o, Bound) else o).name
            return fn('attr:' + name, (self.tok(o),))
        return self.models.attr(self, o, name, node)

    def set_attr(self, o, name, v, node):
        if isinstance(o, Node):
            def one(x):
                self.set_attr(x, name, v, node)
            self.lift_effect(o, one)
            return
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == 'df' and name in ('columns', 'index'):
                self.models.df_set_attr(self, o, name, v, node)
                return
            r = r.copy()
            r.f[name] = v
            self.put(o, r)
            return
        if isinstance(o, Cls):
            return
        if name == 'name' and isinstance(v, str) and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Attribute) and node.value.attr == 'index':
            f = self.ev(node.value.value)         # frame.index.name = ...
            if isinstance(f, Ref) and self.rec(f).kind == 'df' and 'index' in (self.rec(f).extra or {}):
                r = self.rec(f).copy()
                r.extra = dict(r.extra, index_name=v)
                self.put(f, r)
                return
        self.unsup.append('attribute store on %r at %s' % (type(o).__name__, self.where(node)))

    # ------------------------------------------------------------ subscripts
    def index(self, o, k, node):
        return self.models.index(self, o, k, node)

    def store_sub(self, t, v):
        """a[k] = v : functional update, then rebind the base lvalue"""
        k = self.ev_index(t.slice)
        tv = t.value
        if isinstance(tv, ast.Attribute) and tv.attr in ('loc', 'iloc', 'at', 'iat'):
            o = self.ev(tv.value)
            if isinstance(o, (Ref,)) and self.rec(o).kind == 'df':
                self.models.df_store(self, o, tv.attr, k, v, t)
                return
            nv = self.models.store(self, o, k, v, t)
            self.assign(tv.value, nv)
            return
        o = self.ev(tv)
        if isinstance(o, Node) and any(isinstance(l, Ref) for _, l in vals.leaves(o)):
            def one(x):
                if isinstance(x, Ref):
                    self.models.store(self, x, k, v, t)
            self.lift_effect(o, one)
            return
        if isinstance(o, Ref):
            self.models.store(self, o, k, v, t)
            return
        nv = self.models.store(self, o, k, v, t)
        if isinstance(tv, ast.Name):
            fr = self.frames[-1]
            fr.inplace.add(tv.id)
            if tv.id not in self.env() and tv.id not in fr.globals:
                for fid in fr.chain:           # a nested function writing into an enclosing array
                    if tv.id in self.st.envs.get(fid, {}):
                        self.st.envs[fid][tv.id] = nv
                        return
        if isinstance(tv, (ast.Name, ast.Attribute, ast.Subscript)):
            self.assign(tv, nv)
        else:
            self.unsup.append('store target at ' + self.where(t))


class _Append(ast.stmt):
    _fields = ()

    def __init__(self, out, elt):
        self.out, self.elt = out, elt
        self.lineno = getattr(elt, 'lineno', 0)
        self.col_offset = 0


class GuardItem:
    def __init__(self, guard, val):
        self.guard, self.val = guard, val
        self.vkey = ('gi', vkey(guard), vkey(val))


class TokLeaf:
    def __init__(self, t):
        self.t = t
        self.vkey = ('tok', _hashable(t))


def _hashable(t):
    if isinstance(t, tuple):
        return tuple(_hashable(x) for x in t)
    if isinstance(t, Expr):
        return t.key()
    if isinstance(t, (str, bool, int)) or t is None:
        return t
    return getattr(t, 'vkey', None) or repr(t)


class CondTok:
    def __init__(self, node):
        self.node = node
        self.vkey = ('condtok', id(node))

    def __eq__(self, o):
        return isinstance(o, CondTok) and o.node is self.node

    def __hash__(self):
        return id(self.node)


class IterV:
    """symbolic iterables: zip, enumerate, iterrows, items ..."""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra
        self.vkey = ('iter', kind, tuple(vkey(p) for p in parts))

    def elem(self, eng, lp):
        i = lp.var
        if self.kind == 'enumerate':
            st = self.extra if self.extra is not None else num(0)
            return Tup([alg.add(i, st), eng.iter_elem(self.parts[0], lp)])
        if self.kind == 'zip':
            n = [p for p in self.parts if not isinstance(p, ArrW)]
            n = eng.models.length(eng, n[0]) if n else None
            return Tup([(eng.models.arrw_item(eng, p, i, n) if isinstance(p, ArrW) and isinstance(n, Expr) else None) or eng.iter_elem(p, lp) for p in self.parts])
        if self.kind == 'iterrows':
            row = eng.models.df_row(eng, self.parts[0], i)
            return Tup([fn('rowlabel', (eng.tok(self.parts[0]), i)), row])
        if self.kind == 'itertuples':
            return eng.models.df_row(eng, self.parts[0], i)
        if self.kind == 'items':
            d = self.parts[0]
            return Tup([fn('dictkey', (eng.tok(d), i)), fn('dictval', (eng.tok(d), i), arr=True)])
        if self.kind == 'reversed':
            return eng.index(self.parts[0], alg.add(eng.models.length(eng, self.parts[0]), alg.add(alg.scale(i, -1), num(-1))), None)
        return fn('elem', (eng.tok(self), i), arr=True)

    def tok(self, eng):
        return fn('iter:' + self.kind, tuple(eng.tok(p) for p in self.parts), arr=True)


class KeyTok:
    def __init__(self, k):
        self.vkey = k

    def __eq__(self, o):
        return isinstance(o, KeyTok) and o.vkey == self.vkey

    def __hash__(self):
        return hash(self.vkey)

    def __repr__(self):
        return 'K' + repr(self.vkey)[:40]


class CallError(Exception):
    pass


class Dead(Exception):
    """evaluation reached a point from which no normal continuation exists"""


def target_names(t):
    out = set()
    if t is None:
        return out
    for x in ast.walk(t):
        if isinstance(x, ast.Name):
            out.add(x.id)
    return out


def map_cond(var, leaf):
    c = vals.CONDS[var]
    if c[0] in ('neg', 'pos'):
        e = leaf(c[1])
        if e is c[1] or (isinstance(e, Expr) and e.t == c[1].t):
            return vals.CV(var)
        return lt0(e) if c[0] == 'neg' else gt0(e)
    if c[0] in ('truth', 'isnone') and isinstance(c[1], Expr):
        return cond(c[0], leaf(c[1]))
    if c[0] == 'eqm':
        return cond('eqm', leaf(c[1]), c[2])
    if c[0] in ('isleap', 'exc'):
        return cond(c[0], *[leaf(x) if isinstance(x, Expr) else x for x in c[1:]])
    return vals.CV(var)


def subst_cond(var, mp):
    def leaf(x):
        if isinstance(x, Expr) and any(a in mp for a in alg.deep_atoms(x)):
            return alg.subst(x, mp)
        return x
    return map_cond(var, leaf)


def _parts(v):
    """the expressions a gated value is made of, those of its conditions included"""
    seen, out = set(), []

    def go(x):
        if isinstance(x, Expr):
            out.append(x)
        elif isinstance(x, Tup):
            for y in x.items:
                go(y)
        elif isinstance(x, Node) and id(x) not in seen:
            seen.add(id(x))
            map_cond(x.var, lambda y: (out.append(y) if isinstance(y, Expr) else None, y)[1])
            go(x.hi)
            go(x.lo)
    go(v)
    return out


def _lift_subst(f, v, mp):
    memo = {}

    def go(x):
        if isinstance(x, Expr):
            return f(x)
        if isinstance(x, Tup):
            return Tup([go(y) for y in x.items])
        if isinstance(x, Node):
            if id(x) not in memo:
                memo[id(x)] = ite(subst_cond(x.var, mp), go(x.hi), go(x.lo))
            return memo[id(x)]
        return x
    return go(v)


alg.PARTS = _parts
alg.LIFT = _lift_subst
