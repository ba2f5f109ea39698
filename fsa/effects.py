"""In-place changes of caller-owned values.

A flow-sensitive alias analysis over the syntax tree, with a summary per function computed to a
fixpoint over the call graph: which parameters may a call change in place, and which may the result
share storage with.  A value is abstracted as (self roots, inner roots): the caller-owned objects it
may be (or be a view of) and those it may contain.
"""
import ast
import os

NONE = (frozenset(), frozenset())
# results that share storage with the receiver
VIEW_METH = {'ravel', 'reshape', 'squeeze', 'transpose', 'view', 'swapaxes', 'to_numpy', '__array__', 'items', 'values', 'get', 'itertuples', 'pipe', 'iterrows', 'setdefault', 'pop', 'groupby', 'diagonal', '__iter__', '__getitem__', 'keys'}
VIEW_ATTR = {'values', 'T', 'loc', 'iloc', 'at', 'iat', 'array', 'real', 'imag', 'flat', 'base', 'data'}
# numbers, names, types, calendar fields and accessors that make new values
PLAIN_ATTR = {'size', 'shape', 'ndim', 'dtype', 'dtypes', 'index', 'columns', 'name', 'names', 'empty', 'days', 'year', 'month', 'day', 'weekday', 'dt', 'str', 'start', 'stop', 'step', 'x', 'fun', 'success', 'message', 'root', 'converged',
              'kwds', 'n', 'value', 'is_month_end', 'dayofweek', 'is_leap_year', 'freq', 'args'}
VIEW_FUNC = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.expand_dims', 'numpy.broadcast_to', 'numpy.transpose',
             'numpy.swapaxes', 'numpy.moveaxis', 'numpy.ascontiguousarray', 'numpy.flip', 'numpy.diagonal', 'numpy.real', 'numpy.imag', 'builtins.iter', 'builtins.reversed', 'builtins.next', 'numpy.nditer', 'typing.cast',
             'pandas.Series', 'pandas.DataFrame'}
HOLD_FUNC = {'numpy.broadcast_arrays', 'builtins.list', 'builtins.tuple', 'builtins.zip', 'builtins.enumerate', 'builtins.dict', 'builtins.set', 'builtins.sorted', 'builtins.map', 'builtins.filter', 'builtins.vars'}
MUT_METH = {'append', 'extend', 'insert', 'remove', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'fill', 'put', 'partition', 'resize', 'itemset', 'setfield', 'byteswap', 'pop', 'set_flags', 'setflags',
            '__setitem__', '__delitem__', '__setattr__'}
RNG = 'unseeded random numbers'
UNSEEDED = (frozenset(['unseeded']), frozenset())
MUT_FUNC = {'numpy.put': 0, 'numpy.place': 0, 'numpy.copyto': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'numpy.put_along_axis': 0, 'numpy.random.shuffle': 0, 'random.shuffle': 0, 'builtins.setattr': 0, 'builtins.delattr': 0, 'heapq.heapify': 0}
SCALAR = {'int', 'float', 'str', 'bool', 'Timestamp', 'pd.Timestamp', 'datetime', 'date', 'complex', 'datetime.date', 'datetime.datetime', 'np.datetime64'}


def scalar_ann(a):
    if a is None:
        return False
    t = ast.unparse(a).replace('Optional[', '').replace('Union[', '').replace('[', '').replace(']', '').replace('|', ',')
    parts = [p.strip().strip('"\'') for p in t.split(',')]
    return all(p in SCALAR or p in ('None',) for p in parts if p) and bool([p for p in parts if p])


class Fn:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = (cls.name + '.' if cls else '') + node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.scalar = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if scalar_ann(x.annotation)}
        dflt = list(zip(([None] * len(self.pos) + list(a.defaults))[-len(self.pos):] if self.pos else [], self.pos)) + [(d, x.arg) for d, x in zip(a.kw_defaults, a.kwonlyargs)]
        self.kept = {x for d, x in dflt if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp, ast.Name, ast.Attribute))}    # one object for all calls
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        self.mut = {}              # root -> [(line, text)]
        self.ret = NONE
        self.fields = {}           # self fields assigned: name -> value
        self.eff = {}              # effect -> {(line, text)}: what else a result may depend on
        self.reseeds = False       # the random number generator is seeded on every path through it
        self.calls = 0             # call sites looked at
        self.stores = 0            # stores and other in-place changes looked at


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.data = any('dataclass' in ast.unparse(d) for d in node.decorator_list)
        self.meths = {}
        self.init_fields = []
        self.initvars = []
        for n in node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                ann = ast.unparse(n.annotation)
                if 'ClassVar' in ann:
                    continue
                v = n.value
                if isinstance(v, ast.Call) and any(k.arg == 'init' and isinstance(k.value, ast.Constant) and k.value.value is False for k in v.keywords):
                    continue
                (self.initvars if 'InitVar' in ann else self.init_fields).append(n.target.id)
        self.bases = [ast.unparse(b) for b in node.bases]
        self.shared = {t.id for n in node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)} | {n.target.id for n in node.body if isinstance(n, ast.AnnAssign) and n.value is not None and 'ClassVar' in ast.unparse(n.annotation)}
        self.scalar = {n.target.id for n in node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and scalar_ann(n.annotation)}
        self.state = {}            # field -> value after construction and any method


class Program:
    def __init__(self, root, skip=()):
        self.mods, self.fns, self.classes, self.globals, self.by_method = {}, {}, {}, set(), {}
        for d, ds, fs in os.walk(os.path.join(root, 'frm')):
            ds[:] = sorted(x for x in ds if x not in ('archive', '__pycache__'))
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                q = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if q.endswith('.__init__'):
                    q = q[:-9]
                if any(q.startswith(s) for s in skip):
                    continue
                try:
                    t = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError:
                    continue
                self.mods[q] = t
        self.names = {q: {} for q in self.mods}
        for q, t in self.mods.items():
            for n in ast.walk(t):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.names[q][a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        self.names[q][a.asname or a.name] = n.module + '.' + a.name
            self.top(q, t.body)
        self.order = list(self.fns.values())
        for c in self.classes.values():
            for n, m in c.meths.items():
                if not n.startswith('__'):
                    self.by_method.setdefault(n, []).append(m)

    def top(self, q, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.add(q + '.' + n.name, Fn(q, n))
                self.names[q][n.name] = q + '.' + n.name
            elif isinstance(n, ast.ClassDef):
                c = Cls(q, n)
                self.classes[q + '.' + n.name] = c
                self.names[q][n.name] = q + '.' + n.name
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        f = Fn(q, m, c)
                        c.meths[m.name] = f
                        self.add(q + '.' + n.name + '.' + m.name, f)
            elif isinstance(n, ast.If):
                self.top(q, n.body)
                self.top(q, n.orelse)
            elif isinstance(n, (ast.Try, ast.With, ast.For, ast.While)) or type(n).__name__ == 'TryStar':
                for b in ('body', 'orelse', 'finalbody'):
                    self.top(q, getattr(n, b, []))
                for h in getattr(n, 'handlers', []):
                    self.top(q, h.body)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in [y for x in (n.targets if isinstance(n, ast.Assign) else [n.target]) for y in ast.walk(x)]:
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.globals.add(q + '.' + t.id)
                        self.names[q].setdefault(t.id, q + '.' + t.id)

    def add(self, name, f):
        f.qual = name
        self.fns[name] = f

    def resolve(self, mod, dotted):
        """a dotted name used in a module -> its defining place"""
        head, _, rest = dotted.partition('.')
        q = self.names.get(mod, {}).get(head)
        if q is None:
            return 'builtins.' + dotted if not rest else dotted
        return self.chase(q + ('.' + rest if rest else ''))

    def chase(self, q, n=0):
        if q in self.fns or q in self.classes or n > 8:
            return q
        m, _, a = q.rpartition('.')
        if m in self.names and a in self.names[m] and self.names[m][a] != q:
            return self.chase(self.names[m][a], n + 1)
        return q

    def given(self, c, depth=0):
        """constructor fields of a dataclass, inherited ones first, and those that cannot be changed in place"""
        names, scalar = [], set()
        for b in c.bases if depth < 5 else ():
            q = self.resolve(c.mod, b)
            if q in self.classes:
                n, s = self.given(self.classes[q], depth + 1)
                names += [x for x in n if x not in names]
                scalar |= s
        names += [x for x in c.init_fields if x not in names]
        return names, scalar | c.scalar

    def method(self, c, name, depth=0):
        if name in c.meths:
            return c.meths[name]
        for b in c.bases if depth < 5 else ():
            q = self.resolve(c.mod, b)
            if q in self.classes:
                m = self.method(self.classes[q], name, depth + 1)
                if m is not None:
                    return m

    def analyse(self):
        for i in range(12):
            changed = False
            for f in self.order:
                before = (sorted(f.mut), sorted(f.eff), f.ret, f.reseeds)
                An(self, f).run()
                changed |= before != (sorted(f.mut), sorted(f.eff), f.ret, f.reseeds)
            for c in self.classes.values():
                before = dict(c.state)
                self.build(c)
                changed |= before != c.state
            if not changed:
                return self
        return self

    def build(self, c):
        """the state of a freshly constructed object, in terms of the constructor's parameters"""
        st = {}
        if c.data:
            names, scalar = self.given(c)
            for n in names:
                st[n] = (frozenset([n]), frozenset([n])) if n not in scalar else NONE
        f = self.method(c, '__post_init__') or self.method(c, '__init__')
        if f is not None:
            for n, v in f.fields.items():
                st[n] = v
        for m in c.meths.values():
            if m is not f:
                for n, v in m.fields.items():
                    if An.assigns(None, m, n):
                        w = frozenset(r for r in v[0] if r.startswith('ctor:')), frozenset(r for r in v[1] if r.startswith('ctor:'))
                        st[n] = join(st.get(n, NONE), (frozenset(r[5:] for r in w[0]), frozenset(r[5:] for r in w[1])))
        names = [x.attr for m in c.meths.values() for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == (m.params or [''])[0]]
        for n in names:
            if n not in c.meths:
                st.setdefault(n, NONE)
        c.state = st


def join(a, b):
    return a[0] | b[0], a[1] | b[1]


def both(a):
    return a[0] | a[1]


def joined(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = join(out[k], v) if k in out else v
    return out


class An:
    """one pass over one function: roots are parameter names; a field of self is 'self.<field>' (or, while the object is built, the constructor parameter it was given)"""

    def __init__(self, prog, f, outer=None):
        self.p, self.f = prog, f
        self.outer = outer
        self.env = {}
        self.masks = set()
        self.elems = set()
        self.parts = set()
        self.ret = NONE
        self.local = {}
        self.dead = False

    def run(self):
        f = self.f
        self.ctor = f.cls is not None and f.node.name in ('__post_init__', '__init__')
        for x in f.params:
            self.env[x] = (frozenset([x]), frozenset([x])) if x not in f.scalar else NONE
        if f.cls is not None and not f.static and f.params:
            self.selfname = f.params[0]
            self.env[self.selfname] = (frozenset(['self']), frozenset())
            for n in f.cls.shared:
                r = frozenset(['global:%s.%s.%s' % (f.mod, f.cls.name, n)])
                self.env['self.' + n] = (r, r)
            if f.cls.data and f.node.name == '__post_init__':
                names, scalar = self.p.given(f.cls)
                for n in names:
                    self.env['self.' + n] = (frozenset([n]), frozenset([n])) if n not in scalar else NONE
                for i, n in enumerate(f.cls.initvars):
                    if i + 1 < len(f.pos):
                        self.env[f.pos[i + 1]] = (frozenset([n]), frozenset([n]))
            elif not self.ctor:
                for n, v in f.cls.state.items():
                    if n in f.cls.shared and v == NONE:
                        continue
                    own = frozenset(['self.' + n])
                    self.env['self.' + n] = (frozenset('ctor:' + r for r in v[0]) | own, frozenset('ctor:' + r for r in v[1]) | own)
        else:
            self.selfname = None
        f.mut, f.eff, f.calls, f.stores = {}, {}, 0, 0
        self.globals = {n for s in ast.walk(f.node) if isinstance(s, ast.Global) for n in s.names}
        self.env[' rng'] = UNSEEDED                       # joined like any other state: unseeded on some path
        self.exits = frozenset()
        for d in f.node.args.defaults + [x for x in f.node.args.kw_defaults if x is not None]:
            self.expr(d)
        self.block(f.node.body)
        for d in f.node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            q = self.p.resolve(f.mod, dotted(d) or '')
            if q in ('functools.lru_cache', 'functools.cache', 'functools.cached_property'):
                if f.cls is not None and not f.static:
                    self.effect('what was asked before (results are kept on the object)', d)
                else:
                    r = frozenset(['global:results kept by %s' % f.qual])     # one object for all callers
                    self.ret = join(self.ret, (r, r))
        f.ret = self.ret
        f.reseeds = not (self.exits | (frozenset() if self.dead else self.env.get(' rng', NONE)[0]))
        if f.cls is not None:
            f.fields = {k[5:]: v for k, v in self.env.items() if k.startswith('self.')}
        return self

    # ------------------------------------------------------------ statements
    def block(self, body):
        for s in body:
            if self.dead:
                return
            self.stmt(s)

    def stmt(self, s):
        t = type(s)
        if t is ast.Assign:
            v = self.expr(s.value)
            for x in s.targets:
                self.store(x, v, s.value)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.store(s.target, self.expr(s.value), s.value)
        elif t is ast.AugAssign:
            v = self.expr(s.value)
            if isinstance(s.target, ast.Name):
                # an element of an array, or a part of an object, may well be a number
                if s.target.id not in self.elems and (s.target.id not in self.parts or isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor))):
                    self.mutate(self.env.get(s.target.id, NONE)[0], s)
                if s.target.id in self.globals:
                    self.mutate(['global:' + self.f.mod + '.' + s.target.id], s)
                if isinstance(s.op, ast.Add):
                    old = self.env.get(s.target.id, NONE)
                    self.env[s.target.id] = (old[0], old[1])
            else:
                if isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == self.selfname:
                    self.mutate(self.env.get('self.' + s.target.attr, NONE)[0] | (frozenset() if self.ctor else frozenset(['self.' + s.target.attr])), s)
                else:
                    self.mutate(self.expr(s.target.value)[0], s)
        elif t in (ast.Return,):
            if s.value is not None:
                self.ret = join(self.ret, self.expr(s.value))
            self.exits |= self.env.get(' rng', NONE)[0]
            self.dead = True
        elif t is ast.Raise:
            if s.exc is not None:
                self.expr(s.exc)
            self.dead = True
        elif t in (ast.Continue, ast.Break):
            pass
        elif t is ast.Expr:
            self.expr(s.value)
        elif t is ast.If:
            self.expr(s.test)
            self.branch([s.body, s.orelse])
        elif t in (ast.For, ast.AsyncFor):
            it = self.expr(s.iter)
            for _ in range(2):
                e0, d0 = dict(self.env), self.dead
                v = both(it)
                self.store(s.target, (v, v) if not self.copies(s.iter) else NONE, None)
                self.block(s.body)
                self.env, self.dead = joined(e0, self.env), d0
            self.block(s.orelse)
        elif t is ast.While:
            for _ in range(2):
                self.expr(s.test)
                e0, d0 = dict(self.env), self.dead
                self.block(s.body)
                self.env, self.dead = joined(e0, self.env), d0
            self.block(s.orelse)
        elif t is ast.Try or t.__name__ == 'TryStar':
            e0, d0 = dict(self.env), self.dead
            self.block(s.body)
            self.block(s.orelse)
            e1, d1 = self.env, self.dead
            live = [] if d1 else [e1]
            for h in s.handlers:
                self.env, self.dead = joined(e0, e1), d0
                self.block(h.body)
                if not self.dead:
                    live.append(self.env)
            self.dead = not live
            self.env = live[0] if live else e1
            for x in live[1:]:
                self.env = joined(self.env, x)
            if s.finalbody:
                d, self.dead = self.dead, False
                self.block(s.finalbody)
                self.dead |= d
        elif t is ast.With:
            for i in s.items:
                v = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, None)
            self.block(s.body)
        elif t is ast.Match:
            v = self.expr(s.subject)
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        self.env[n.name] = (both(v), both(v))
            self.branch([c.body for c in s.cases] + ([] if any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases) else [[]]))
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    self.env.pop(x.id, None)
                elif isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.expr(x.value)[0], s)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.local[s.name] = s
            self.inner(s)
        elif t is ast.Assert:
            self.expr(s.test)

    def copies(self, it):
        """rows of a frame are copies"""
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('iterrows', 'itertuples')

    def branch(self, bodies):
        e0, out = dict(self.env), []
        for b in bodies:
            self.env, self.dead = dict(e0), False
            self.block(b)
            if not self.dead:
                out.append(self.env)
        self.dead = not out
        self.env = out[0] if out else e0
        for x in out[1:]:
            self.env = joined(self.env, x)

    def inner(self, s):
        """a nested function: its effects on the enclosing variables count where it is defined"""
        e0, d0, r0 = self.env, self.dead, self.ret
        self.env = dict(e0)
        for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
            self.env[a.arg] = NONE
        for a in (s.args.vararg, s.args.kwarg):
            if a:
                self.env[a.arg] = NONE
        self.block(s.body)
        self.env, self.dead, self.ret = e0, d0, r0

    def store(self, x, v, src):
        self.f.stores += 1
        if isinstance(x, ast.Name):
            if x.id in self.globals:
                self.mutate(['global:' + self.f.mod + '.' + x.id], x)
            self.env[x.id] = v
            (self.elems.add if src is None or self.is_elem(src) else self.elems.discard)(x.id)
            (self.parts.add if src is not None and self.is_part(src) else self.parts.discard)(x.id)
            if src is not None and self.is_mask(src):
                self.masks.add(x.id)
            else:
                self.masks.discard(x.id)
        elif isinstance(x, (ast.Tuple, ast.List)):
            parts = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts) else None
            for i, y in enumerate(x.elts):
                if parts is not None:
                    self.store(y, self.expr(parts[i]), parts[i])
                else:
                    w = both(v)
                    self.store(y.value if isinstance(y, ast.Starred) else y, (w, w), None)
        elif isinstance(x, ast.Starred):
            self.store(x.value, v, None)
        elif isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == self.selfname:
                self.env['self.' + x.attr] = v
                if not self.ctor:
                    self.mutate(['self.' + x.attr], x)
            else:
                self.mutate(self.expr(x.value)[0], x)
        elif isinstance(x, ast.Subscript):
            self.expr(x.slice)
            b = self.expr(x.value)
            self.mutate(b[0], x)
            if isinstance(x.value, ast.Name) and v != NONE and not self.is_frame_store(x):
                o = self.env.get(x.value.id, NONE)
                self.env[x.value.id] = (o[0], o[1] | both(v))

    def is_frame_store(self, x):
        return False

    def is_part(self, n):
        if isinstance(n, ast.Name):
            return n.id in self.parts
        if isinstance(n, ast.IfExp):
            return self.is_part(n.body) or self.is_part(n.orelse)
        return isinstance(n, ast.Attribute) and n.attr not in VIEW_ATTR

    def is_elem(self, n):
        if isinstance(n, ast.Name):
            return n.id in self.elems
        return isinstance(n, ast.Subscript) and not any(isinstance(p, ast.Slice) for p in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice])) and not isinstance(n.slice, ast.Constant) or \
            isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and not isinstance(n.slice.value, str)

    def is_mask(self, n):
        if isinstance(n, (ast.Compare, ast.BoolOp)):
            return True
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return True
        if isinstance(n, ast.Name):
            return n.id in self.masks
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func).split('.')[-1]
            return s in ('isnan', 'isnull', 'isna', 'notnull', 'notna', 'isin', 'logical_and', 'logical_or', 'logical_not', 'duplicated', 'contains', 'startswith', 'endswith', 'match', 'isclose', 'isfinite', 'argsort', 'where', 'nonzero',
                         'flatnonzero', 'astype', 'to_numpy', 'arange', 'tolist', 'to_list', 'union', 'intersection', 'unique', 'drop_duplicates')
        return isinstance(n, (ast.List, ast.ListComp))

    def mutate(self, roots, node):
        for r in roots:
            self.f.mut.setdefault(r, set()).add((getattr(node, 'lineno', 0), ast.unparse(node).split('\n')[0][:100]))

    # ------------------------------------------------------------ expressions
    def expr(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.expr(c)
        return NONE

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        q = self.p.chase(self.p.names[self.f.mod].get(n.id, ''))
        if q in self.p.globals or q in self.p.fns or q in self.p.classes:
            r = frozenset(['global:' + q])
            return r, r
        return NONE

    def e_NamedExpr(self, n):
        v = self.expr(n.value)
        self.store(n.target, v, n.value)
        return v

    def e_IfExp(self, n):
        self.expr(n.test)
        return join(self.expr(n.body), self.expr(n.orelse))

    def e_BoolOp(self, n):
        v = NONE
        for x in n.values:
            v = join(v, self.expr(x))
        return v

    def e_Starred(self, n):
        return self.expr(n.value)

    def e_Await(self, n):
        return self.expr(n.value)

    def e_Tuple(self, n):
        inner = frozenset()
        for x in n.elts:
            inner |= both(self.expr(x))
        return frozenset(), inner
    e_List = e_Set = e_Tuple

    def e_Dict(self, n):
        inner = frozenset()
        for x in list(n.keys) + list(n.values):
            if x is not None:
                inner |= both(self.expr(x))
        return frozenset(), inner

    def comp(self, n, elts):
        e0 = dict(self.env)
        for g in n.generators:
            it = self.expr(g.iter)
            v = both(it)
            self.store(g.target, (v, v) if not self.copies(g.iter) else NONE, None)
            for i in g.ifs:
                self.expr(i)
        inner = frozenset()
        for x in elts:
            inner |= both(self.expr(x))
        self.env = e0
        return frozenset(), inner

    def e_ListComp(self, n):
        return self.comp(n, [n.elt])
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, n):
        return self.comp(n, [n.key, n.value])

    def e_Lambda(self, n):
        e0 = dict(self.env)
        for a in n.args.args + n.args.kwonlyargs:
            self.env[a.arg] = NONE
        self.expr(n.body)
        self.env = e0
        return NONE

    def e_Attribute(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == self.selfname:
            return self.env.get('self.' + n.attr, NONE)
        v = self.expr(n.value)
        d = dotted(n)
        if d and d.split('.')[0] not in self.env:
            q = self.p.resolve(self.f.mod, d)
            if q == 'os.environ':
                self.effect('environment', n)
            if q in self.p.globals:
                r = frozenset(['global:' + q])
                return r, r
        if v == NONE:
            return NONE
        if n.attr in VIEW_ATTR:
            return v
        if n.attr in PLAIN_ATTR:
            return NONE
        # a part of an object passed in
        return both(v), both(v)

    def e_Subscript(self, n):
        v = self.expr(n.value)
        self.expr(n.slice)
        if v == NONE:
            return NONE
        idx = n.slice
        parts = idx.elts if isinstance(idx, ast.Tuple) else [idx]
        if any(self.is_mask(p) for p in parts):
            return NONE                     # a selection by mask, list or array is a copy
        w = both(v)
        if isinstance(n.value, ast.Attribute) and n.value.attr in ('loc', 'iloc', 'at', 'iat') and not any(isinstance(p, ast.Slice) for p in parts):
            return NONE if len(parts) > 1 else (w, w)
        return w, w

    def unseeded(self):
        return bool(self.env.get(' rng', NONE)[0])

    def inherit(self, g, n):
        """what a callee's result depends on besides its arguments"""
        for k, sites in g.eff.items():
            if k == RNG and not self.unseeded():
                continue
            self.f.eff.setdefault(k, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
        if g.reseeds:
            self.env[' rng'] = NONE

    def effect(self, kind, n):
        self.f.eff.setdefault(kind, set()).add((n.lineno, ast.unparse(n)[:100]))

    def outside(self, q, n, args):
        """a library call whose result does not follow from its arguments"""
        last = q.split('.')[-1]
        if q.startswith('numpy.random.') or q.startswith('random.') or q in ('scipy.stats.rv_continuous.rvs', 'secrets.token_bytes', 'os.urandom', 'uuid.uuid4'):
            src = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ('seed', 'a')), None)
            if last == 'seed':
                self.env[' rng'] = UNSEEDED if src is None or isinstance(src, ast.Constant) and src.value is None else NONE
            elif last in ('default_rng', 'RandomState', 'Random', 'SeedSequence', 'PCG64', 'MT19937', 'Generator', 'Philox'):
                if src is None or isinstance(src, ast.Constant) and src.value is None:
                    self.effect(RNG, n)
            elif self.unseeded():
                self.effect(RNG, n)
        elif q in ('datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'pandas.Timestamp.now', 'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'time.localtime', 'time.gmtime',
                   'time.strftime', 'time.ctime', 'time.time_ns') or q == 'pandas.Timestamp' and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value in ('now', 'today'):
            self.effect('the clock', n)
        elif q in ('builtins.open', 'builtins.input', 'os.getenv', 'os.environ.get', 'builtins.id', 'builtins.hash') or q.startswith('pandas.read_') or q in ('numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'pickle.load'):
            self.effect({'builtins.id': 'object identity', 'builtins.hash': 'string hashing'}.get(q, 'files or the environment'), n)

    def e_Call(self, n):
        self.f.calls += 1
        f = n.func
        args = [self.expr(a.value if isinstance(a, ast.Starred) else a) for a in n.args]
        kws = {k.arg: self.expr(k.value) for k in n.keywords}
        for k, v in kws.items():
            if k == 'out':
                self.mutate(v[0], n)
        recv = None
        callee = None
        if isinstance(f, ast.Attribute):
            d = dotted(f)
            if d and (d.split('.')[0] in self.p.names[self.f.mod] and d.split('.')[0] not in self.env):
                callee = self.p.resolve(self.f.mod, d)
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                for b in self.f.cls.bases if self.f.cls is not None else ():
                    q = self.p.resolve(self.f.mod, b)
                    g = self.p.method(self.p.classes[q], f.attr) if q in self.p.classes else None
                    if g is not None:
                        return self.known(g, n, args, kws, bound=True)
                return NONE
            else:
                recv = self.expr(f.value)
        elif isinstance(f, ast.Name):
            if f.id in self.local:
                return self.local_call(self.local[f.id], n, args, kws)
            if f.id in self.env:
                self.expr(f)
                callee = None
            else:
                callee = self.p.resolve(self.f.mod, f.id)
        else:
            self.expr(f)
        if callee is not None:
            if callee in self.p.fns:
                return self.known(self.p.fns[callee], n, args, kws)
            if callee in self.p.classes:
                return self.construct(self.p.classes[callee], n, args, kws)
            self.outside(callee, n, args)
            if callee in MUT_FUNC and len(args) > MUT_FUNC[callee]:
                self.mutate(args[MUT_FUNC[callee]][0], n)
            if callee in VIEW_FUNC:
                w = args[0] if args else next(iter(kws.values()), NONE)
                if callee in ('pandas.Series', 'pandas.DataFrame') and self.flag(n, 'copy', True):
                    return NONE
                return both(w), both(w)
            if callee in ('numpy.array',) and self.flag(n, 'copy', False) and args:
                return args[0]
            if callee in HOLD_FUNC:
                fn_ = n.args[0] if callee in ('builtins.map',) and n.args else None
                if isinstance(fn_, ast.Lambda) and len(args) > 1:
                    e0 = dict(self.env)
                    for i, a in enumerate(fn_.args.args):
                        w = both(args[1 + i]) if 1 + i < len(args) else frozenset()
                        self.env[a.arg] = (w, w)
                    r = both(self.expr(fn_.body))
                    self.env = e0
                    return frozenset(), r
                if fn_ is not None:
                    d = dotted(fn_)
                    q = self.p.resolve(self.f.mod, d) if d else None
                    if q not in VIEW_FUNC:
                        return NONE
                if callee == 'builtins.sorted' or callee == 'builtins.set':
                    pass
                inner = frozenset()
                for a in args + list(kws.values()):
                    inner |= both(a)
                return frozenset(), inner
            if self.inplace(n) and args:
                self.mutate(args[0][0], n)
            return NONE
        if recv is not None:
            meth = f.attr
            if meth in ('rvs',) and self.unseeded() and not any(k.arg == 'random_state' for k in n.keywords):
                self.effect(RNG, n)
            own = self.p.method(self.f.cls, meth) if isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.f.cls is not None else None
            if own is not None:
                return self.known(own, n, args, kws, bound=True)
            if meth in self.p.by_method:
                out = NONE
                for g in self.p.by_method[meth]:
                    out = join(out, self.known(g, n, args, kws, via=recv))
                return out
            if self.inplace(n) or meth in MUT_METH and not (meth in ('update', 'add', 'pop', 'insert', 'sort') and False):
                self.mutate(recv[0], n)
            if meth in MUT_METH and isinstance(f.value, ast.Name) and meth in ('append', 'extend', 'insert', 'add', 'update', 'setdefault'):
                o = self.env.get(f.value.id, NONE)
                inn = frozenset()
                for a in args + list(kws.values()):
                    inn |= both(a)
                if f.value.id in self.env:
                    self.env[f.value.id] = (o[0], o[1] | inn)
            if meth in VIEW_METH:
                w = both(recv)
                return w, w
            if meth in ('astype',) and self.flag(n, 'copy', False):
                return recv
            if meth == 'copy' and self.flag(n, 'deep', False):
                return recv
        return NONE

    def flag(self, n, name, val):
        return any(k.arg == name and isinstance(k.value, ast.Constant) and k.value.value is val for k in n.keywords)

    def inplace(self, n):
        return any(k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords)

    def bind(self, g, n, args, kws, bound):
        m = {}
        pos = g.pos[1:] if (bound or g.cls is not None and g.node.name in ('__init__', '__post_init__')) and not g.static else g.pos
        for i, a in enumerate(args):
            if i < len(pos):
                m[pos[i]] = join(m.get(pos[i], NONE), a)
            elif g.vararg:
                m[g.vararg] = join(m.get(g.vararg, NONE), (frozenset(), both(a)))
        for k, v in kws.items():
            if k is None:
                for x in g.params:
                    m[x] = join(m.get(x, NONE), (both(v), both(v)))
            elif k in g.params:
                m[k] = join(m.get(k, NONE), v)
            elif g.kwarg:
                m[g.kwarg] = join(m.get(g.kwarg, NONE), (frozenset(), both(v)))
        return m

    def known(self, g, n, args, kws, bound=False, via=None):
        m = self.bind(g, n, args, kws, bound or via is not None)
        self.inherit(g, n)
        for r, sites in list(g.mut.items()):
            if r.startswith('global:') or r.startswith('self.') and bound and not self.ctor:
                self.f.mut.setdefault(r, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
            elif r.startswith('self.') and via is not None:
                for x in via[0]:
                    self.f.mut.setdefault(x, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
            elif r in m:
                w = m[r][0]
                if r in (g.vararg, g.kwarg):
                    w = frozenset()
                for x in w:
                    self.f.mut.setdefault(x, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
            elif r in g.kept:
                self.f.mut.setdefault('global:the default %s of %s' % (r, g.name), set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
            elif r.startswith('ctor:') and bound:
                self.f.mut.setdefault(r if not self.ctor else r[5:], set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
        if bound:
            for k, v in g.fields.items():
                if self.assigns(g, k):
                    old = self.env.get('self.' + k, NONE)
                    self.env['self.' + k] = join(old, self.subst(v, m))
        return self.subst(g.ret, m)

    def assigns(self, g, k):
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == k for x in ast.walk(g.node))

    def subst(self, v, m):
        out = [frozenset(), frozenset()]
        for i in (0, 1):
            for r in v[i]:
                if r in m:
                    out[i] |= m[r][i] if i == 0 else both(m[r])
                elif r.startswith('ctor:'):
                    out[i] |= frozenset([r[5:] if self.ctor else r])
                elif r.startswith('global:'):
                    out[i] |= frozenset([r])
        return tuple(out)

    def construct(self, c, n, args, kws):
        names = self.p.given(c)[0] + c.initvars if c.data else None
        init = self.p.method(c, '__init__')
        if c.data:
            own = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            order = [x for x in names if x not in own] + [x for x in own if x in names]
            m = dict(zip(order, args))
            m.update({k: v for k, v in kws.items() if k})
        elif init is not None:
            m = self.bind(init, n, args, kws, True)
        else:
            m = {}
        f = self.p.method(c, '__post_init__') or init
        if f is not None:
            self.inherit(f, n)
            for r, sites in list(f.mut.items()):
                if r.startswith('global:'):
                    self.f.mut.setdefault(r, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
                if r in m:
                    for x in m[r][0]:
                        self.f.mut.setdefault(x, set()).update({(n.lineno, '%s -> %s' % (ast.unparse(n.func), t)) for _, t in sites})
        inner = frozenset()
        for v in m.values():
            inner |= both(v)
        return frozenset(), inner

    def local_call(self, s, n, args, kws):
        """a nested function called with values of the enclosing one"""
        g = Fn(self.f.mod, s)
        e0, d0, r0 = dict(self.env), self.dead, self.ret
        if getattr(self, 'depth', 0) > 4:
            return NONE
        self.depth = getattr(self, 'depth', 0) + 1
        m = self.bind(g, n, args, kws, False)
        for x in g.params:
            self.env[x] = m.get(x, NONE)
        self.ret, self.dead = NONE, False
        self.block(s.body)
        r = self.ret
        self.env, self.dead, self.ret = e0, d0, r0
        self.depth -= 1
        return r


def dotted(n):
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return '.'.join([n.id] + out[::-1])
    return None
