"""Models (summaries) of Python builtins and of the external libraries frm uses."""
import ast
from fractions import Fraction as Fr
from . import alg, vals
from .alg import Expr, ATOMS, num, fn, sym
from .vals import UNDEF, EnumMember, Tup, Ref, Node, lift1, apply, ite, b_not, b_and, b_or, cond, lt0, gt0, eq0, same, vkey
from . import interp as I

BUILTINS = set('''abs all any bool dict enumerate float frozenset getattr hasattr int isinstance issubclass iter len list map max min next
object open print range repr reversed round set setattr slice sorted str sum super tuple type zip filter divmod complex callable id hash
staticmethod classmethod property Exception ValueError TypeError KeyError IndexError RuntimeError NotImplementedError StopIteration
AssertionError AttributeError ZeroDivisionError FileNotFoundError Warning UserWarning DeprecationWarning BaseException ArithmeticError
OverflowError FloatingPointError ImportError ModuleNotFoundError NameError OSError IOError NotImplemented vars locals globals ord chr format
bytes bytearray pow input exit quit'''.split())


def floordiv(a, b):
    if a.is_const() and b.is_const() and b.t:
        return num(a.const() // b.const())
    if b.is_const() and b.const() == 1:
        return fn('floor', (a,))
    return fn('floordiv', (a, b))


def mod(a, b):
    if a.is_const() and b.is_const() and b.t:
        return num(a.const() % b.const())
    return fn('mod', (a, b))


# ------------------------------------------------------------------ arrays

def base_atoms(e, out=None):
    """array atoms an elementwise expression is built from"""
    out = set() if out is None else out
    for m in e.t:
        for a, _ in m:
            k = ATOMS[a]
            if not k.arr:
                continue
            if k.kind in ('poly', 'abs') or (k.kind == 'fn' and k.name in I.ELEMENTWISE):
                for x in k.args:
                    if isinstance(x, Expr):
                        base_atoms(x, out)
            else:
                out.add(a)
    return out


def elementwise(k):
    return bool(k.arr) and (k.kind in ('poly', 'abs') or k.kind == 'fn' and k.name in I.ELEMENTWISE)


def pushdown(eng, e, f):
    """apply f to every array atom of an elementwise expression"""
    mp = {}
    for a in base_atoms(e):
        mp[a] = f(alg.atom_expr(ATOMS[a]), ATOMS[a])
    if not mp:
        return e
    if any(isinstance(v, Node) or not isinstance(v, Expr) for v in mp.values()):
        if e.single() and len(mp) == 1:
            (m, c), = e.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                return list(mp.values())[0]
        keys = list(mp)

        def g(*vs):
            vs2 = [v if isinstance(v, Expr) else fn('undef', ()) for v in vs]
            return alg.subst(e, dict(zip(keys, vs2)), elementwise)
        return apply(g, *[mp[k] for k in keys])
    return alg.subst(e, mp, elementwise)


def norm_idx(eng, k):
    """index object -> tuple of entries (Expr | ':' | SliceV | other)"""
    ks = k.items if isinstance(k, Tup) else (k,)
    out = []
    for x in ks:
        if x is None or isinstance(x, I.EllipsisV):
            continue
        if isinstance(x, I.SliceV) and x.full():
            out.append(':')
        else:
            out.append(x)
    while out and out[-1] == ':':
        out.pop()
    return tuple(out)


def is_mask(k):
    if isinstance(k, bool):
        return True
    if isinstance(k, Node):
        x = k
        seen = 0
        while isinstance(x, Node) and seen < 200:
            x = x.hi
            seen += 1
        return isinstance(x, bool)
    if isinstance(k, Expr) and k.single():
        (m, c), = k.t.items()
        if c == 1 and len(m) == 1 and isinstance(ATOMS[m[0][0]].meta, Node):
            return True
        if c == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name in ('invert', 'isin', 'bitop', 'isnanmask'):
            return True
    return False


def mask_tup(x):
    return isinstance(x, Tup) and len(x.items) > 0 and all(isinstance(y, bool) or isinstance(y, Node) and is_mask(y) for y in x.items)


def mask_of(eng, k):
    if isinstance(k, (bool, Node)):
        return k
    b = eng.as_bool(k)
    return b


def sel_atom(eng, ax, a, idx):
    """element of array atom a"""
    if isinstance(a.meta, I.ArrW):
        return arrw_read(eng, a.meta, idx)
    if a.kind == 'fn' and a.name == 'sh' and len(idx) == 1 and isinstance(idx[0], Expr):
        base = a.args[0]
        return pushdown(eng, base, lambda x, b: sel_atom(eng, x, b, (alg.add(idx[0], a.args[1]),)))
    if a.kind == 'fn' and a.name == 'head' and len(idx) == 1 and isinstance(idx[0], Expr):
        base, j = a.args[0], idx[0]
        if j.is_const() and j.const() < 0:
            j = alg.add(j, alg.scale(a.args[1], -1))
        return pushdown(eng, base, lambda x, b: sel_atom(eng, x, b, (j,)))
    if a.kind == 'fn' and a.name == 'concat' and isinstance(a.meta, tuple) and len(idx) >= 1 and isinstance(idx[0], Expr):
        parts = a.meta
        off = num(0)
        if idx[0].is_const() and idx[0].const() < 0:
            p = parts[-1]
            if isinstance(p, Tup) and -idx[0].const() <= len(p.items):
                return p.items[int(idx[0].const())]
            if isinstance(p, Expr) and idx[0].const() == -1:
                return index(eng, p, Tup(idx) if len(idx) > 1 else idx[0], None)
            parts = ()
        for p in parts:
            if isinstance(p, Tup):
                n = num(len(p.items))
                d = alg.add(alg.add(idx[0], alg.scale(off, -1)), num(0))
                if d.is_const() and 0 <= d.const() < len(p.items):
                    return p.items[int(d.const())]
                # the index is >= off + n ?
                r = alg.add(d, alg.scale(n, -1))
                if vals.sgn(r) in ('0', '+', '0+'):
                    off = alg.add(off, n)
                    continue
                break
            if isinstance(p, Expr):
                return index(eng, p, Tup([alg.add(idx[0], alg.scale(off, -1))] + list(x for x in idx[1:])) if len(idx) > 1 else alg.add(idx[0], alg.scale(off, -1)), None)
            break
    if a.kind == 'fn' and a.name == 'arange' and len(idx) == 1 and isinstance(idx[0], Expr):
        lo, hi, stp = a.args
        return alg.add(lo, alg.mul(idx[0], stp))
    if a.kind == 'fn' and a.name == 'sel' and len(a.args) >= 2:
        # x[i][j] -> x[i, j]   (x[:, i][j] -> x[j, i])
        base, old = a.args[0], list(a.args[1:])
        if ':' in old and len(idx) == 1 and old.index(':') == 0:
            new = list(old)
            new[0] = idx[0]
            return fn('sel', (base,) + tuple(eng.tok(x) for x in new), arr=True)
        return fn('sel', (base,) + tuple(eng.tok(x) for x in list(old) + list(idx)), arr=True)
    if a.kind == 'fn' and a.name == 'shape' and len(idx) == 1 and isinstance(idx[0], Expr) and idx[0].is_const():
        return fn('size0' if idx[0].const() == 0 else 'shape%d' % int(idx[0].const()), (a.args[0],), nonneg=True, arr=False) if idx[0].const() else fn('len', (a.args[0],), nonneg=True, arr=False)
    toks = []
    for x in idx:
        toks.append(eng.tok(x) if not isinstance(x, I.SliceV) else slice_tok(eng, x))
    # rank information is not tracked: an elementwise (unindexed) axis keeps the arr flag
    r = fn('sel', (ax,) + tuple(toks), pos=a.pos, nonneg=a.nonneg, real=a.real, arr=not (a.vec and len(idx) == 1 and isinstance(idx[0], Expr) and not alg.is_arr(idx[0])))
    if a.sq1:
        ATOMS[alg.sid(r)].sq1 = True
    return r


def slice_tok(eng, s):
    return fn('slice', tuple(eng.tok(x) for x in (s.lo, s.hi, s.step)))


def idx_cmp(a, b):
    """'eq' | 'ne' | '?'"""
    n = max(len(a), len(b))
    res = 'eq'
    for i in range(n):
        x = a[i] if i < len(a) else ':'
        y = b[i] if i < len(b) else ':'
        if x == ':' and y == ':':
            continue
        if isinstance(x, Expr) and isinstance(y, Expr):
            d = alg.simplify(alg.add(x, alg.scale(y, -1)))
            if not d.t:
                continue
            if vals.sgn(d) in ('+', '-'):
                # x[-1] against x[0]: negative constants address from the end
                if (x.is_const() and x.const() < 0) != (y.is_const() and y.const() < 0):
                    res = '?'
                    continue
                return 'ne'
            res = '?'
        elif not isinstance(x, str) and not isinstance(y, str) and same(x, y):
            continue
        else:
            res = '?'
    return res


def arrw_read(eng, w, idx):
    for ix, v, lp in reversed(w.writes):
        if lp is None and idx and isinstance(ix[0], I.SliceV) and isinstance(idx[0], Expr) and all(x == ':' for x in ix[1:]):
            s = ix[0]
            lo = s.lo if s.lo is not None else num(0)
            if s.step is None and s.hi is None and isinstance(lo, Expr) and lo.is_const() and lo.const() >= 0:
                d = alg.simplify(alg.add(idx[0], alg.scale(lo, -1)))
                g = vals.sgn(d)
                if not d.t or g in ('0', '+', '0+'):
                    r = index(eng, v, d, None) if isinstance(v, (Tup, I.ArrW)) or isinstance(v, Expr) and alg.is_arr(v) else v
                    return index(eng, r, Tup(idx[1:]), None) if len(idx) > 1 else r
                if g == '-' and not (idx[0].is_const() and idx[0].const() < 0):
                    continue
            return self_sel(eng, w, idx)
        c = idx_cmp(ix, idx)
        if c == 'eq' and lp is None:
            return v
        if c == 'ne' and lp is None:
            continue
        if lp is not None and len(ix) == len(idx) and all(isinstance(a, Expr) and isinstance(b, Expr) for a, b in zip(ix, idx)):
            if c == 'ne' and False:
                continue
        # partially overlapping write
        if len(ix) < len(idx) and lp is None and idx_cmp(ix, idx[:len(ix)]) == 'eq':
            return index(eng, v, Tup(idx[len(ix):]), None)
        return self_sel(eng, w, idx)
    b = w.base
    if isinstance(b, Expr):
        return index(eng, b, Tup([x if x != ':' else I.SliceV(None, None, None) for x in idx]), None) if idx else b
    return self_sel(eng, w, idx)


def self_sel(eng, w, idx):
    a = fn('arrw', (w.vkey,), arr=True)
    ATOMS[alg.sid(a)].meta = w
    return fn('sel', (a,) + tuple(eng.tok(x) if not isinstance(x, I.SliceV) else slice_tok(eng, x) for x in idx), arr=True)


def window(eng, k):
    """a[i:i+2] (all columns): the two indices"""
    ix = norm_idx(eng, k) if isinstance(k, (Tup, I.SliceV)) else ()
    if len(ix) != 1 or not isinstance(ix[0], I.SliceV) or ix[0].step is not None or not isinstance(ix[0].hi, Expr):
        return None
    lo = ix[0].lo if ix[0].lo is not None else num(0)
    if not isinstance(lo, Expr) or lo.is_const() and lo.const() < 0:
        return None
    d = alg.add(ix[0].hi, alg.scale(lo, -1))
    if not d.is_const() or d.const() != 2:
        return None
    return [lo, alg.add(lo, num(1))]


def index(eng, o, k, node):
    if isinstance(o, vals.Cols) and not isinstance(k, Node) or isinstance(o, vals.Cols) and is_mask(k):
        ks = list(k.items) if isinstance(k, Tup) and not mask_tup(k) else [k]
        if len(ks) == 2 and isinstance(ks[1], Expr) and ks[1].is_const():
            v = o.items[int(ks[1].const())]
            return v if isinstance(ks[0], I.SliceV) and ks[0].full() else index(eng, v, ks[0], node)
        if len(ks) == 1 or len(ks) == 2 and isinstance(ks[1], I.SliceV) and ks[1].full():
            t = [v if isinstance(ks[0], I.SliceV) and ks[0].full() else index(eng, v, ks[0], node) for v in o.items]
            return Tup(t) if isinstance(ks[0], Expr) and not alg.is_arr(ks[0]) else vals.Cols(t)
        raise I.Unsupported('index of a two-dimensional array')
    if isinstance(o, I.LocV if hasattr(I, 'LocV') else LocV):
        return loc_index(eng, o, k, node)
    if isinstance(k, Node) and not is_mask(k):
        return lift1(lambda kk: index(eng, o, kk, node), k)
    if isinstance(o, Node):
        if isinstance(k, Expr) and not is_mask(k):
            return gated_element(eng, o, k, node)
        return lift1(lambda x: UNDEF if x is UNDEF else index(eng, x, k, node), o)
    if o is UNDEF:
        return UNDEF
    if isinstance(o, Opaque_) and o.name == 'numpy.r_':
        parts = list(k.items) if isinstance(k, Tup) else [k]
        if any(isinstance(x, (I.SliceV, str)) for x in parts):
            raise I.Unsupported('slices joined by numpy.r_')
        return call_ext(eng, 'numpy.concatenate', [Tup([Tup([x]) if isinstance(x, Expr) and not alg.is_arr(x) else x for x in parts])], {}, node)
    if isinstance(o, Opaque_):
        return o           # typing subscripts
    if isinstance(o, I.Cls):
        if o.is_enum and isinstance(k, str):
            v = eng.cls_attr(o, k)
            if v is not None:
                return v
            return fn('enumname', (o.name, eng.tok(k)))
        return o
    if isinstance(o, Ref):
        r = eng.rec(o)
        if r.kind == 'dict':
            e = r.f.get(vkey(k))
            if e is not None:
                return e[1]
            if r.base is not None:
                return fn('item', (r.base, eng.tok(k)), arr=True)
            if isinstance(k, Expr) and not k.is_const() or not isinstance(k, (str, Expr, EnumMember, Tup)):
                return fn('item', (eng.tok(o), eng.tok(k)), arr=True)
            eng.do_raise('KeyError %r' % (k,), node or ast.Pass(), 'KeyError', implicit=True)
            raise I.Dead()
        if r.kind == 'df':
            return df_index(eng, o, r, k, node)
        if r.kind in ('list', 'tuple', 'set'):
            if isinstance(k, I.SliceV) and k.lo is None and k.hi is None and isinstance(k.step, Expr) and k.step.is_const() and k.step.const() == -1 and list_reversed(eng, r) is not None:
                return eng.alloc(I.Rec('list', items=list_reversed(eng, r)))
            if eng.plain_items(o):
                t = index(eng, Tup(r.items), k, node)
                if isinstance(t, Tup) and isinstance(k, I.SliceV):
                    return eng.new_list(t.items)
                return t
            if isinstance(k, Expr) and r.items is not None and len(r.items) == 1 and isinstance(r.items[0], I.MapSeg) and r.base is None:
                m = r.items[0]
                if not (k.is_const() and k.const() < 0) and m.guard is True:
                    return eng.reindex(m.val, m.loop.var, k)
            if isinstance(k, Expr) and k.is_const() and r.items is not None and k.const() >= 0 and r.base is None:
                j = int(k.const())
                if j < len(r.items) and not any(isinstance(x, (I.MapSeg, I.GuardItem, I.RevSeg)) for x in r.items[:j + 1]):
                    return r.items[j]
            if isinstance(k, Expr) and k.is_const() and k.const() == -1 and r.items and not isinstance(r.items[-1], (I.MapSeg, I.GuardItem, I.RevSeg)):
                return r.items[-1]
            return fn('item', (eng.tok(o), eng.tok(k)), arr=True)
        if r.kind == 'obj':
            if r.cls is not None and isinstance(r.cls, I.Cls) and eng.find_method(r.cls, '__getitem__'):
                return eng.call_method(o, '__getitem__', [k], {}, node)
            return fn('item', (eng.tok(o), eng.tok(k)), arr=True)
    if isinstance(o, Tup):
        return tup_index(eng, o, k, node)
    if isinstance(o, str):
        return str_index(eng, o, k, node)
    if isinstance(node, ast.Subscript) and (isinstance(o, EnumMember) or isinstance(o, Expr) and not alg.is_arr(o) and sym_type(o) == 'ts'):
        eng.do_raise('TypeError: not subscriptable', node or ast.Pass(), 'TypeError', implicit=True)
        raise I.Dead()
    if isinstance(o, bool) or o is None:
        if o is None:
            eng.do_raise('TypeError: None is not subscriptable', node or ast.Pass(), 'TypeError', implicit=True)
            raise I.Dead()
        return o
    if isinstance(o, I.ArrW) or isinstance(o, Expr) and alg.is_arr(o):
        w = window(eng, k)
        if w is not None:
            return Tup([index(eng, o, j, node) for j in w])
    if isinstance(o, I.ArrW):
        if is_mask(k):
            o = eng.num_leaf(o)
        else:
            ix = norm_idx(eng, k)
            if not ix:
                return o
            if any(isinstance(x, (I.SliceV,)) for x in ix) or any(not isinstance(x, Expr) and x != ':' for x in ix):
                return expr_index(eng, eng.num_leaf(o), k, node)
            return arrw_read(eng, o, ix)
    if isinstance(o, Expr):
        return expr_index(eng, o, k, node)
    return eng.unsupported('index', node, o, k)


def gated_element(eng, o, k, node):
    """o[k] where o is a conditional array: the elementwise conditions are read at k too"""
    memo = {}

    def leaf(x):
        if isinstance(x, Expr) and any(ATOMS[a].arr for a in alg.atoms_of(x)):
            return expr_index(eng, x, k, node)
        return x

    def go(x):
        if x is UNDEF:
            return x
        if not isinstance(x, Node):
            return index(eng, x, k, node)
        r = memo.get(id(x))
        if r is None:
            c = vals.CONDS[x.var]
            g = vals.CV(x.var)
            if c[0] in ('neg', 'pos'):
                g = I.map_cond(x.var, leaf)
            elif c[0] == 'sq1' and ATOMS[c[1]].arr:
                a = expr_index(eng, alg.atom_expr(c[1]), k, node)
                g = vals.gt0(a)
            r = ite(g, go(x.hi), go(x.lo))
            memo[id(x)] = r
        return r
    return go(o)


def note_cut(eng, c, items, node):
    """a slice that keeps all of this array but would not keep all of a longer one"""
    n = len(items)
    if n and c[2] in (None, 1) and (c[0] in (None, 0) and c[1] is not None and c[1] > n or c[1] is None and c[0] is not None and c[0] < -n) and not all(isinstance(x, (str, bool)) or x is None or isinstance(x, Expr) and x.is_const() for x in items):
        eng.cuts.append((c, eng.where(node) if node is not None else ''))


def tup_index(eng, o, k, node):
    if isinstance(k, Expr) and k.is_const():
        i = int(k.const())
        if -len(o.items) <= i < len(o.items):
            return o.items[i]
        eng.do_raise('IndexError', node or ast.Pass(), 'IndexError', implicit=True)
        raise I.Dead()
    if isinstance(k, I.SliceV):
        c = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                c.append(None)
            elif isinstance(x, Expr) and x.is_const():
                c.append(int(x.const()))
            else:
                return fn('item', (eng.tok(o), slice_tok(eng, k)), arr=True)
        note_cut(eng, c, o.items, node)
        return Tup(o.items[slice(*c)])
    if mask_tup(k) and len(k.items) == len(o.items):
        if all(isinstance(m, bool) for m in k.items):
            return Tup([x for m, x in zip(k.items, o.items) if m])
        return Tup([ite(m, x, UNDEF) for m, x in zip(k.items, o.items)])
    if eng.exact_shapes and (k is None or isinstance(k, Tup) and len(k.items) == 2 and any(x is None for x in k.items)) and not any(isinstance(x, (Tup, Ref)) for x in o.items):
        if k is None or isinstance(k.items[1], I.SliceV) and k.items[1].full():
            return Tup([o])
        if isinstance(k.items[0], I.SliceV) and k.items[0].full():
            return Tup([Tup([x]) for x in o.items])
    if isinstance(k, Tup):
        ix = [x for x in k.items if x is not None]
        if not ix:
            return o
        x = ix[0]
        rest = Tup(ix[1:])
        if isinstance(x, I.SliceV):
            sub = tup_index(eng, o, x, node)
            if not rest.items:
                return sub
            return Tup([index(eng, s, rest, node) for s in sub.items]) if isinstance(sub, Tup) else sub
        s = tup_index(eng, o, x, node)
        return index(eng, s, rest, node) if rest.items else s
    if is_mask(k):
        m = mask_of(eng, k)
        if m is True:
            return o
        return Tup([ite(m, x, UNDEF) for x in o.items])
    if isinstance(k, (Ref, Tup)):
        ks = eng.known_iter(k)
        if ks is not None and all(isinstance(x, Expr) for x in ks):
            return Tup([tup_index(eng, o, x, node) for x in ks])
    return fn('item', (eng.tok(o), eng.tok(k)), arr=True)


def str_index(eng, o, k, node):
    run = has_digits(o)
    first = next((i for i, ch in enumerate(o) if has_digits(ch)), 0)
    last = max((i - len(o) for i, ch in enumerate(o) if has_digits(ch)), default=0)
    if isinstance(k, Expr) and k.is_const():
        i = int(k.const())
        if run and not (0 <= i < first or last < i < 0):
            return fn('item', (o, k))
        if -len(o) <= i < len(o):
            return o[i]
        if isinstance(node, ast.Subscript):
            eng.do_raise('IndexError: string index out of range', node, 'IndexError', implicit=True)
            raise I.Dead()
    if isinstance(k, I.SliceV):
        c = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                c.append(None)
            elif isinstance(x, Expr) and x.is_const():
                c.append(int(x.const()))
            else:
                return fn('item', (o, slice_tok(eng, k)))
        if run and (c[2] not in (None, 1) or not all(x is None or 0 <= x <= first or last < x < 0 for x in c[:2])):
            return fn('item', (o, slice_tok(eng, k)))
        return o[slice(*c)]
    return fn('item', (o, eng.tok(k)))


def o_atom(o):
    (m, k), = o.t.items()
    return m[0][0] if k == 1 and len(m) == 1 and m[0][1] == 1 else None


def expr_index(eng, o, k, node):
    if vals.LENGTH and isinstance(k, Expr) and k.is_const() and len(o.t) == 1:
        n = vals.LENGTH.get(o_atom(o))
        if n is not None and not -n <= k.const() < n:
            eng.do_raise('IndexError: index out of bounds', node or ast.Pass(), 'IndexError', implicit=True)
            raise I.Dead()
    if is_mask(k):
        return ite(mask_of(eng, k), o, UNDEF)
    if isinstance(k, str):
        return fn('item', (o, k), arr=True)
    if isinstance(k, Tup) and any(is_mask(x) for x in k.items):
        m = [x for x in k.items if is_mask(x)]
        rest = [x for x in k.items if not is_mask(x)]
        g = mask_of(eng, m[0])
        if all((isinstance(x, I.SliceV) and x.full()) or x is None for x in rest):
            return ite(g, o, UNDEF)
        return ite(g, expr_index(eng, o, Tup(rest), node), UNDEF)
    if isinstance(k, Tup) and len(k.items) == 2 and sum(x is None for x in k.items) == 1:
        for n in alg.deep_atoms(o):
            eng.axes.setdefault(n, set()).add(0 if k.items[1] is None else 1)
    ix = norm_idx(eng, k)
    if not ix:
        return o
    if len(ix) == 1 and isinstance(ix[0], I.SliceV):
        s = ix[0]
        step = s.step
        if step is None and isinstance(s.hi, Expr) and (s.lo is None or isinstance(s.lo, Expr) and not s.lo.t) and alg.is_arr(o):
            n = length(eng, o)
            if isinstance(n, Expr) and not alg.simplify(alg.add(n, alg.scale(s.hi, -1))).t:
                return o
        ps = concat_of(o)
        if ps is not None and step is None and isinstance(s.hi, Expr) and (s.lo is None or isinstance(s.lo, Expr) and not s.lo.t):
            off = num(0)
            for n, p in enumerate(ps):
                off = alg.add(off, length(eng, p))
                if isinstance(off, Expr) and not alg.simplify(alg.add(off, alg.scale(s.hi, -1))).t:
                    return concat_parts(eng, list(ps[:n + 1]))
                if not isinstance(off, Expr):
                    break
        if step is None:
            lo = s.lo if s.lo is not None else num(0)
            if isinstance(lo, Expr) and not lo.t and (s.hi is None or (isinstance(s.hi, Expr) and s.hi.is_const() and s.hi.const() < 0)):
                if s.hi is not None:
                    eng.trimmed.append(o)          # element by element the same array: its length is not kept
                    if I.EXACT_TRIMS:
                        return head(eng, o, alg.scale(s.hi, -1))
                return o
            if isinstance(lo, Expr) and lo.is_const() and lo.const() >= 0 and (s.hi is None or isinstance(s.hi, Expr) and s.hi.is_const() and s.hi.const() < 0):
                return shift(eng, o, lo)
        return pushdown(eng, o, lambda x, a: fn('sel', (x, slice_tok(eng, s)), pos=a.pos, nonneg=a.nonneg, arr=True))
    if any(isinstance(x, (Ref, Tup)) for x in ix):
        ix = tuple(eng.tok(x) if isinstance(x, (Ref, Tup)) else x for x in ix)
    if any(isinstance(x, I.SliceV) for x in ix):
        ix = tuple(slice_tok(eng, x) if isinstance(x, I.SliceV) else x for x in ix)
    if not alg.is_arr(o):
        if o.is_const() or not o.t:
            return o
        if len(ix) == 1 and isinstance(ix[0], Expr) and ix[0].is_const() and ix[0].const() in (0, -1):
            return o            # the single element of an atleast_1d scalar
        return fn('sel', (o,) + tuple(eng.tok(x) for x in ix), arr=True)
    return pushdown(eng, o, lambda x, a: sel_atom(eng, x, a, ix))


def head(eng, o, n):
    """an array without its last n elements"""
    def f(x, a):
        if a.kind == 'fn' and a.name == 'head':
            return fn('head', (a.args[0], alg.add(a.args[1], n)), pos=a.pos, nonneg=a.nonneg, arr=True)
        return fn('head', (x, n), pos=a.pos, nonneg=a.nonneg, arr=True)
    return pushdown(eng, o, f)


def shift(eng, o, n):
    if not n.t:
        return o

    def f(x, a):
        if a.kind == 'fn' and a.name == 'sh':
            return fn('sh', (a.args[0], alg.add(a.args[1], n)), pos=a.pos, nonneg=a.nonneg, arr=True)
        if a.kind == 'fn' and a.name == 'arange':
            return alg.add(x, alg.mul(n, a.args[2]))
        return fn('sh', (x, n), pos=a.pos, nonneg=a.nonneg, arr=True)
    return pushdown(eng, o, f)


def store(eng, o, k, v, node):
    """functional o[k] = v ; heap objects are updated in place"""
    if isinstance(o, Ref):
        r = eng.rec(o)
        if r.kind == 'df':
            return df_store(eng, o, None, k, v, node)
        r = r.copy()
        if r.kind == 'dict':
            if isinstance(k, Node):
                eng.unsup.append('gated dict key')
            r.f[vkey(k)] = (k, v)
            eng.put(o, r)
            return o
        if r.kind == 'list' and isinstance(k, Expr) and k.is_const() and r.items is not None:
            j = int(k.const())
            if -len(r.items) <= j < len(r.items):
                r.items[j] = v
                eng.put(o, r)
                return o
        if r.kind == 'list' and is_mask(k) and r.items is not None and eng.plain_items(o):
            m = mask_of(eng, k)
            r.items = [ite(m, v, x) for x in r.items]
            eng.put(o, r)
            return o
        if r.kind == 'obj':
            if r.cls is not None and isinstance(r.cls, I.Cls) and eng.find_method(r.cls, '__setitem__'):
                eng.call_method(o, '__setitem__', [k, v], {}, node)
                return o
        r.f[vkey(k)] = (k, v) if r.kind in ('list', 'dict') else v
        eng.put(o, r)
        eng.unsup.append('store into %s' % r.kind)
        return o
    if is_mask(k):
        return ite(mask_of(eng, k), eng.maplift(v), o)
    if isinstance(k, Tup) and isinstance(o, Tup) and len(k.items) == len(o.items) and k.items and all(is_mask(x) for x in k.items):
        # a mask with an element for each element
        vv = eng.maplift(v)
        if isinstance(vv, Tup):
            if all(isinstance(x, bool) for x in k.items) and sum(k.items) == len(vv.items):
                it = iter(vv.items)
                return Tup([next(it) if m else x for m, x in zip(k.items, o.items)])
        else:
            return Tup([ite(mask_of(eng, m), vv, x) for m, x in zip(k.items, o.items)])
    if isinstance(k, Tup) and any(is_mask(x) for x in k.items):
        m = [x for x in k.items if is_mask(x)]
        rest = [x for x in k.items if not is_mask(x)]
        g = mask_of(eng, m[0])
        if all((isinstance(x, I.SliceV) and x.full()) or x is None for x in rest):
            return ite(g, v, o)
        old = index(eng, o, Tup(rest), node)
        return store(eng, o, Tup(rest), ite(g, v, old), node)
    if isinstance(o, Node):
        def f(x):
            if x is UNDEF:
                return UNDEF
            return store(eng, x, k, v, node)
        return lift1(f, o)
    if isinstance(o, Tup):
        if isinstance(k, Expr) and k.is_const():
            it = list(o.items)
            it[int(k.const())] = v
            return Tup(it)
        if isinstance(k, Tup) and len(k.items) == 2 and isinstance(k.items[0], Expr) and k.items[0].is_const():
            it = list(o.items)
            j = int(k.items[0].const())
            it[j] = store(eng, it[j], k.items[1], v, node)
            return Tup(it)
        if isinstance(k, I.SliceV) and k.full():
            return Tup([v] * len(o.items)) if not isinstance(v, Tup) else v
        if isinstance(k, I.SliceV) and all(x is None or isinstance(x, Expr) and x.is_const() for x in (k.lo, k.hi, k.step)):
            js = range(len(o.items))[slice(*[None if x is None else int(x.const()) for x in (k.lo, k.hi, k.step)])]
            it = list(o.items)
            if isinstance(v, Expr) and not alg.is_arr(v) or isinstance(v, Tup) and len(v.items) == len(js):
                for i, j in enumerate(js):
                    it[j] = v.items[i] if isinstance(v, Tup) else v
                return Tup(it)
    if isinstance(o, (Expr, I.ArrW)):
        ix = norm_idx(eng, k)
        if not ix:
            return v
        ix = tuple(eng.num_leaf(x) if isinstance(x, I.ArrW) else x for x in ix)
        if isinstance(o, I.ArrW):
            ws = list(o.writes)
            # an exact overwrite replaces the earlier write
            if ws and ws[-1][2] is None and idx_cmp(ws[-1][0], ix) == 'eq':
                ws.pop()
            return I.ArrW(o.base, ws + [(ix, v, None)])
        return I.ArrW(o, [(ix, v, None)])
    if o is UNDEF:
        return UNDEF
    return eng.unsupported('store', node, o, k, v)


# ------------------------------------------------------------------ pandas

class LocV:
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind
        self.vkey = ('loc', vkey(obj), kind)


Opaque_ = I.Opaque


def df_cols(eng, r, name):
    if name in r.f:
        return r.f[name]
    if not df_closed(r):
        return eng.df_missing(r, name)
    return None


def df_closed(r):
    return r.base is None or bool(r.extra and r.extra.get('closed'))


def df_index(eng, o, r, k, node):
    if isinstance(k, str):
        v = df_cols(eng, r, k)
        if v is None:
            eng.do_raise('KeyError: column %s' % k, node or ast.Pass(), 'KeyError', implicit=True)
            raise I.Dead()
        return v
    if is_mask(k):
        m = mask_of(eng, k)
        n = I.Rec('df', {c: ite(m, v, UNDEF) for c, v in r.f.items()}, base=None, cls=None)
        n.base = fn('dfrows', (r.base if r.base is not None else eng.tok(o), I.CondTok(m))) if isinstance(m, Node) else r.base
        n.extra = dict(r.extra or {}, masked=m, parent=o, closed=df_closed(r))
        return eng.alloc(n)
    if eng.exact_shapes and mask_tup(k) and all(isinstance(x, bool) for x in k.items) and frame_rows(eng, r) == len(k.items):
        return eng.alloc(kept_rows(eng, r, k.items))
    if isinstance(k, Tup) and k.items and all(isinstance(x, str) for x in k.items) and vkey(k) not in r.f:
        k = eng.new_list(list(k.items))
    if isinstance(k, Ref) and eng.rec(k).kind in ('list',) and eng.plain_items(k):
        ks = eng.rec(k).items
        n = I.Rec('df', {}, base=None)
        n.extra = dict(r.extra) if r.extra and 'ops' in r.extra else None
        for c in ks:
            if isinstance(c, str):
                v = df_cols(eng, r, c)
                if v is None:
                    eng.do_raise('KeyError: column %s' % c, node or ast.Pass(), 'KeyError', implicit=True)
                    raise I.Dead()
                n.f[c] = v
            else:
                n.f[vkey(c)] = eng.opaque('col', eng.tok(o), c)
        return eng.alloc(n)
    if isinstance(k, (Expr, EnumMember, Tup)):
        kk = vkey(k)
        if kk in r.f:
            return r.f[kk]
    return fn('col', (r.base if r.base is not None else eng.tok(o), eng.tok(k)), arr=True)


def rows_labelled(eng, r, ks, node):
    """frame.loc[labels] with every label found once, in the order of the labels"""
    ix = r.extra['index'].items
    place = []
    for k in ks:
        hit = [eng.compare(ast.Eq(), x, k, node) for x in ix]
        if not all(isinstance(h, bool) for h in hit):
            raise I.Unsupported('labels of rows')
        if not any(hit):
            eng.do_raise('KeyError: label not in index', node, 'KeyError', implicit=True)
            raise I.Dead()
        place += [j for j, h in enumerate(hit) if h]
    n = I.Rec('df', {c: Tup([v.items[j] for j in place]) if isinstance(v, Tup) else v for c, v in r.f.items()})
    n.extra = dict(r.extra, index=Tup([ix[j] for j in place]))
    return eng.alloc(n)


def distinct(eng, xs, node):
    """the different values among xs in order of first occurrence, or None when not decided"""
    out = []
    for x in xs:
        hit = [eng.compare(ast.Eq(), x, y, node) for y in out]
        if not all(isinstance(h, bool) for h in hit):
            return None
        if not any(hit):
            out.append(x)
    return out


def kept_rows(eng, r, keep):
    n = I.Rec('df', {c: Tup([x for x, m in zip(v.items, keep) if m]) if isinstance(v, Tup) else v for c, v in r.f.items()})
    n.extra = dict(r.extra or {})
    ix = n.extra.get('index')
    n.extra['index'] = Tup([ix.items[j] if isinstance(ix, Tup) else num(j) for j, m in enumerate(keep) if m])
    return n


def df_store(eng, o, acc, k, v, node):
    r = eng.rec(o).copy()
    v = eng.maplift(v)
    if acc is None or acc in ('loc', 'at'):
        if acc is None and isinstance(k, str):
            if isinstance(v, Ref) and eng.rec(v).kind == 'list' and eng.plain_items(v):
                v = Tup(eng.rec(v).items)
            r.f[k] = v
            eng.put(o, r)
            return o
        if isinstance(k, Tup) and len(k.items) == 2:
            row, col = k.items
            row = rowlab(row) if isinstance(row, Expr) and eng.exact_shapes else row
            cols = [col] if isinstance(col, str) else (eng.known_iter(col) if isinstance(col, (Ref, Tup)) else None)
            if cols is not None and all(isinstance(c, str) for c in cols):
                for j, c in enumerate(cols):
                    old = df_cols(eng, r, c)
                    if old is None:
                        old = fn('nan', ())
                    if eng.exact_shapes and isinstance(old, Expr) and isinstance(row, Expr) and row.is_const() and frame_rows(eng, r) is not None:
                        old = Tup([old] * frame_rows(eng, r))
                    vv = v if len(cols) == 1 else (index(eng, v, num(j), node) if isinstance(v, (Tup, Ref)) else v)
                    if eng.exact_shapes and mask_tup(row) and frame_rows(eng, r) == len(row.items):
                        olds = old.items if isinstance(old, Tup) else [old] * len(row.items)
                        if isinstance(vv, Tup) and all(isinstance(x, bool) for x in row.items) and len(vv.items) == sum(row.items):
                            it = iter(vv.items)
                            r.f[c] = Tup([next(it) if m else x for m, x in zip(row.items, olds)])
                        elif isinstance(vv, Tup) and len(vv.items) != len(row.items):
                            r.f[c] = eng.unsupported('masked store', node)
                        else:
                            r.f[c] = Tup([ite(mask_of(eng, m), vv.items[i] if isinstance(vv, Tup) else vv, x) for i, (m, x) in enumerate(zip(row.items, olds))])
                    elif is_mask(row):
                        r.f[c] = ite(mask_of(eng, row), vv, old)
                    elif isinstance(row, I.SliceV) and row.full():
                        r.f[c] = vv
                    elif isinstance(row, (Expr,)):
                        # single row label: element write
                        r.f[c] = store(eng, old, rowlab(row), vv, node)
                    else:
                        r.f[c] = fn('locset', (eng.tok(old), eng.tok(row), eng.tok(vv)), arr=True)
                eng.put(o, r)
                return o
        if is_mask(k):
            m = mask_of(eng, k)
            for c in list(r.f):
                r.f[c] = ite(m, v, r.f[c])
            eng.put(o, r)
            return o
        if isinstance(k, Tup) and k.items and all(isinstance(x, str) for x in k.items):
            k = eng.new_list(list(k.items))
        if isinstance(k, Ref) and eng.rec(k).kind == 'list' and eng.plain_items(k):
            if isinstance(v, Tup) and not isinstance(v, vals.Cols) and len(v.items) != len(eng.rec(k).items):
                raise I.Unsupported('assignment to several columns')
            if isinstance(v, Ref) and eng.rec(v).kind == 'df' and eng.rec(v).base is None:
                v = Tup(list(eng.rec(v).f.values()))
            for j, c in enumerate(eng.rec(k).items):
                if isinstance(v, Tup) and len(v.items) == len(eng.rec(k).items):
                    r.f[c if isinstance(c, str) else vkey(c)] = v.items[j]
                    continue
                if isinstance(v, Expr) and not alg.is_arr(v):
                    r.f[c if isinstance(c, str) else vkey(c)] = v
                    continue
                r.f[c if isinstance(c, str) else vkey(c)] = index(eng, v, num(j), node) if isinstance(v, (Tup,)) else fn('col', (eng.tok(v), eng.tok(c)), arr=True)
            eng.put(o, r)
            return o
        if isinstance(k, (Expr, EnumMember)) and acc is None:
            r.f[vkey(k)] = v
            eng.put(o, r)
            return o
        if isinstance(k, Node) and acc is None:
            eng.unsup.append('gated column name at ' + eng.where(node))
            r.f['?'] = v
            eng.put(o, r)
            return o
    if acc in ('iloc', 'iat') and isinstance(k, Tup) and len(k.items) == 2 and df_closed(r) and all(isinstance(x, Expr) and x.is_const() for x in k.items) and frame_rows(eng, r) is not None:
        cols = [c for c in r.f if not c.startswith('@')]
        c = cols[int(k.items[1].const())]
        old = r.f[c]
        if not isinstance(old, Tup):
            old = Tup([old] * frame_rows(eng, r))
        r.f[c] = store(eng, old, k.items[0], v, node)
        eng.put(o, r)
        return o
    if acc in ('iloc', 'iat', 'loc', 'at'):
        r.base = fn('dfset', (r.base, eng.tok(k) if not isinstance(k, I.SliceV) else slice_tok(eng, k), eng.tok(v)))
        r.f['@%s' % acc] = eng.unsupported('df-%s-store' % acc, node)
        eng.put(o, r)
        return o
    eng.unsup.append('df store at ' + eng.where(node))
    return o


def rowlab(e):
    """row label of iterrows -> positional index"""
    if isinstance(e, Expr) and e.single():
        (m, c), = e.t.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name == 'rowlabel':
            return ATOMS[m[0][0]].args[1]
    return e


def known_rows(eng, o):
    """(label, row as it is when the iteration starts) of a frame of known size, else None"""
    r = eng.rec(o)
    n = frame_rows(eng, r) if eng.exact_shapes else None
    if n is None or n > eng.MAXUNROLL:
        return None
    x = r.extra or {}
    plain = not ('order' in x or 'index' in x or x.get('ops') or '@index' in r.f)
    return [Tup([num(j) if plain else fn('rowlabel', (eng.tok(o), num(j))), df_row(eng, o, num(j))]) for j in range(n)]


def df_row(eng, df, i):
    if isinstance(df, Ref) and eng.rec(df).kind == 'df':
        r = eng.rec(df)
        n = I.Rec('df', {}, base=fn('row', (eng.tok(df), i)) if r.base is None else fn('row', (r.base, i)))
        for c, v in r.f.items():
            n.f[c] = index(eng, v, i, None)
        n.extra = {'row_of': df, 'row_idx': i, 'row_base': r.base}
        return eng.alloc(n)
    return fn('row', (eng.tok(df), i), arr=True)


def const_slice(s, n):
    """positions a slice of numbers takes of n, or None"""
    if not isinstance(s, I.SliceV) or not all(x is None or isinstance(x, Expr) and x.is_const() and x.const().denominator == 1 for x in (s.lo, s.hi, s.step)):
        return None
    return list(range(n))[slice(*[None if x is None else int(x.const()) for x in (s.lo, s.hi, s.step)])]


def frame_slice(eng, o, r, k):
    """frame.iloc[rows] / frame.iloc[rows, columns] of slices"""
    rows, cols = (k.items if isinstance(k, Tup) and len(k.items) == 2 else (k, I.SliceV(None, None, None)))
    if not isinstance(rows, I.SliceV) or not isinstance(cols, I.SliceV) or not df_closed(r) or r.base is not None:
        return None
    names = [c for c in r.f if not c.startswith('@')]
    ks = const_slice(cols, len(names))
    if ks is None:
        return None
    out = r.copy()
    out.f = {names[j]: r.f[names[j]] for j in ks}
    out.f.update({c: v for c, v in r.f.items() if c.startswith('@')})
    if rows.full():
        return eng.alloc(out)
    n = frame_rows(eng, r) if eng.exact_shapes else None
    if n is not None:
        at = const_slice(rows, n)
        if at is None or at != sorted(at):
            return None
        c = [None if x is None else int(x.const()) for x in (rows.lo, rows.hi, rows.step)]
        note_cut(eng, c, [UNDEF] * n, None)
        return eng.alloc(kept_rows(eng, out, [j in at for j in range(n)]))
    if '@index' in r.f:
        return None
    ix = (r.extra or {}).get('index')
    if ix is not None:
        if not isinstance(ix, Expr):
            return None
        out.extra = dict(r.extra, index=index(eng, ix, rows, None))
        if 'order' in out.extra:
            out.extra['order'] += '[%s]' % show_tok(slice_tok(eng, rows))
    out.f = {c: index(eng, v, rows, None) if not one_value(v) else v for c, v in out.f.items()}
    return eng.alloc(out)


def loc_index(eng, l, k, node):
    o = l.obj
    if isinstance(o, Node):
        return lift1(lambda x: loc_index(eng, LocV(x, l.kind), k, node), o)
    if l.kind == 'loc' and labelled(o) is not None and isinstance(k, Expr) and not is_mask(k) and alg.is_arr(k):
        r = labelled_method(eng, o, 'reindex', [k], {}, node)       # the labels asked for are all there (otherwise this raises)
        if r is not None:
            return r
    if isinstance(o, Ref) and eng.rec(o).kind == 'df':
        r = eng.rec(o)
        if l.kind == 'iloc':
            x = frame_slice(eng, o, r, k)
            if x is not None:
                return x
        if is_mask(k) or l.kind == 'loc' and mask_tup(k):
            return df_index(eng, o, r, k, node)
        if l.kind == 'loc' and eng.exact_shapes and isinstance((r.extra or {}).get('index'), Tup) and isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Tuple):
            ks = eng.known_iter(k) if isinstance(k, (Tup, Ref)) else None
            if ks is not None and frame_rows(eng, r) is not None:
                return rows_labelled(eng, r, ks, node)
        if isinstance(k, Tup) and len(k.items) == 2:
            row, col = k.items
            if l.kind in ('loc', 'at'):
                sub = df_index(eng, o, r, col, node) if not (isinstance(col, I.SliceV) and col.full()) else o
            else:
                sub = fn('icol', (eng.tok(o), eng.tok(col) if not isinstance(col, I.SliceV) else slice_tok(eng, col)), arr=True)
            if isinstance(row, I.SliceV) and row.full():
                return sub
            if eng.exact_shapes and mask_tup(row) and all(isinstance(x, bool) for x in row.items) and frame_rows(eng, r) == len(row.items):
                if isinstance(sub, Ref):
                    return df_index(eng, sub, eng.rec(sub), row, node)
                return Tup([sub.items[j] if isinstance(sub, Tup) else sub for j, m in enumerate(row.items) if m])
            if is_mask(row):
                if isinstance(sub, Ref):
                    return df_index(eng, sub, eng.rec(sub), row, node)
                return lift1(lambda x: x, ite(mask_of(eng, row), sub, UNDEF))
            row = rowlab(row) if isinstance(row, Expr) else row
            if isinstance(sub, Ref):
                return df_row(eng, sub, row)
            return index(eng, sub, row, node)
        if isinstance(k, Expr):
            return df_row(eng, o, rowlab(k))
        return fn('loc', (eng.tok(o), eng.tok(k) if not isinstance(k, I.SliceV) else slice_tok(eng, k)), arr=True)
    if isinstance(o, (Expr, I.ArrW, Tup)):
        if isinstance(k, Expr):
            k = rowlab(k)
        return index(eng, o, k, node)
    return fn('loc', (eng.tok(o), eng.tok(k)), arr=True)


def df_set_attr(eng, o, name, v, node):
    r = eng.rec(o).copy()
    if name == 'columns':
        ks = eng.known_iter(v) if isinstance(v, (Ref, Tup)) else None
        if ks is not None and len(ks) == len(r.f) and r.base is None:
            r.f = {c if isinstance(c, str) else vkey(c): x for c, x in zip(ks, r.f.values())}
        else:
            r.f['@columns'] = v
    else:
        r.f['@index'] = v
    eng.put(o, r)


# ------------------------------------------------------------------ generic helpers

def length(eng, v):
    def f(x):
        if isinstance(x, Tup):
            return num(len(x.items))
        if isinstance(x, str):
            return num(len(x))
        if isinstance(x, Ref):
            r = eng.rec(x)
            if r.kind == 'set' and len(r.items or ()) > 1 and not all(isinstance(y, (str, EnumMember)) or (isinstance(y, Expr) and y.is_const()) for y in r.items):
                return fn('len', (eng.tok(x),), nonneg=True)       # members may coincide
            if r.kind in ('list', 'set', 'tuple') and eng.plain_items(x):
                return num(len(r.items))
            if r.kind == 'list' and (r.extra or {}).get('loop') is not None and isinstance(r.base, Expr) and not any(isinstance(y, (I.MapSeg, I.GuardItem, I.RevSeg)) for y in r.items):
                return fn('len', (r.base,), nonneg=True, arr=False) + num(len(r.items) + len(r.extra.get('front', ())))
            if r.kind == 'dict' and r.base is None:
                return num(len(r.f))
            if r.kind in ('list',) and len(r.items or ()) == 1 and isinstance(r.items[0], I.MapSeg) and r.items[0].guard is True and r.base is None:
                return iter_len(eng, r.items[0].loop.iter)
            if r.kind == 'df':
                if eng.exact_shapes and frame_rows(eng, r) is not None:
                    return num(frame_rows(eng, r))
                return fn('len', (r.base if r.base is not None else eng.tok(next(iter(r.f.values()), None)),), nonneg=True, arr=False)
        if isinstance(x, I.Cls) and x.is_enum:
            return num(len(x.members()))
        if isinstance(x, Expr):
            return fn('len', (len_base(x),), nonneg=True, arr=False)
        if isinstance(x, I.ArrW):
            return f(x.base)
        if isinstance(x, I.RangeV):
            return alg.add(x.hi, alg.scale(x.lo, -1))
        return fn('len', (eng.tok(x),), nonneg=True, arr=False)
    return lift1(f, v)


def len_base(e):
    b = sorted(base_atoms(e))
    if len(b) == 1 and ATOMS[b[0]].name in ('asof', 'lookup', 'interp') and ATOMS[b[0]].kind == 'fn' and isinstance(ATOMS[b[0]].args[0], Expr) and alg.is_arr(ATOMS[b[0]].args[0]):
        return len_base(ATOMS[b[0]].args[0])
    return alg.atom_expr(ATOMS[b[0]]) if len(b) == 1 else e


def iter_len(eng, it):
    if isinstance(it, I.RangeV):
        return alg.add(it.hi, alg.scale(it.lo, -1))
    if isinstance(it, I.IterV):
        return length(eng, it.parts[0])
    return length(eng, it)


def to_items(eng, v):
    """known element list of a sequence, or None"""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        r = eng.rec(v)
        if r.items is not None and eng.plain_items(v):
            return list(r.items)
    return None


def seq(eng, v):
    """array argument -> Tup/Expr"""
    v = eng.maplift(v)
    if isinstance(v, Ref):
        r = eng.rec(v)
        if r.items is not None and eng.plain_items(v):
            return Tup([seq(eng, x) for x in r.items])
        if r.kind == 'obj' and r.base is not None:
            return r.base
        if r.kind == 'df' and r.base is not None and not r.f:
            return r.base
        return eng.tok(v) if isinstance(eng.tok(v), Expr) else fn('seq', (eng.tok(v),), arr=True)
    if isinstance(v, I.IterV):
        return fn('iter', (v.tok(eng),), arr=True)
    if isinstance(v, I.RangeV) and all(isinstance(x, Expr) for x in (v.lo, v.hi)):
        return _arange(eng, [v.lo, v.hi, v.step if v.step is not None else num(1)], {}, None)
    return v


def fold(eng, f, items, node):
    acc = items[0]
    for x in items[1:]:
        acc = eng.arith(f, [acc, x], node)
    return acc


def scalar_mask(v):
    """a condition on single values"""
    while isinstance(v, Node):
        k = vals.CONDS[v.var]
        if k[0] not in ('neg', 'pos') or alg.is_arr(k[1]) or not scalar_mask(v.lo):
            return False
        v = v.hi
    return isinstance(v, bool)


def any_of(eng, v, node=None):
    def f(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, Tup):
            r = False
            for i in x.items:
                r = b_or(r, i if isinstance(i, Node) and scalar_mask(i) else any_of(eng, i))
            return r
        if isinstance(x, Ref):
            r = eng.rec(x)
            if r.items is not None and eng.plain_items(x):
                return f(Tup(r.items))
            if r.items is not None and len(r.items) == 1 and isinstance(r.items[0], I.MapSeg):
                m = eng.lift_map(r.items[0])
                return any_of(eng, b_and(r.items[0].guard, eng.truth(m)))
        if isinstance(x, Expr):
            b = eng.as_bool(x)
            return cond('any', b) if isinstance(b, Node) else bool(x.t)
        return cond('any', I.TokLeaf(eng.tok(x)))
    if is_mask(v) and isinstance(v, Node) and not any(isinstance(x, Tup) for _, x in vals.leaves(v)):
        return cond('any', v)
    if isinstance(v, Node):
        return lift1(f, v)
    return f(v)


def all_of(eng, v, node=None):
    if isinstance(v, Tup):
        r = True
        for i in v.items:
            r = b_and(r, i if isinstance(i, Node) and scalar_mask(i) else all_of(eng, i))
        return r
    if isinstance(v, Ref):
        r = eng.rec(v)
        if r.items is not None and eng.plain_items(v):
            return all_of(eng, Tup([eng.truth(i) for i in r.items]))
        if r.items is not None and len(r.items) == 1 and isinstance(r.items[0], I.MapSeg):
            m = eng.truth(eng.lift_map(r.items[0]))
            return b_not(any_of(eng, b_and(r.items[0].guard, b_not(m))))
    if isinstance(v, bool):
        return v
    if isinstance(v, Node) and any(isinstance(x, Tup) for _, x in vals.leaves(v)):
        return lift1(lambda x: all_of(eng, x, node), v)
    if is_mask(v):
        return b_not(any_of(eng, b_not(mask_of(eng, v))))
    if isinstance(v, Expr):
        b = eng.as_bool(v)
        if isinstance(b, Node):
            return b_not(cond('any', b_not(b)))
        return bool(v.t)
    return b_not(cond('any', I.TokLeaf(('notall', eng.tok(v)))))


# ------------------------------------------------------------------ attributes and methods of values

DATE_ATTRS = {'year', 'month', 'day', 'days', 'quarter', 'daysinmonth', 'days_in_month', 'is_leap_year', 'dayofyear', 'week', 'weekday', 'is_month_end', 'dayofweek', 'hour', 'seconds'}


def ext_attr(eng, dotted, node):
    if dotted in ('numpy.pi', 'math.pi', 'scipy.constants.pi', 'scipy.pi'):
        return alg.pi()
    if dotted in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return fn('nan', ())
    if dotted in ('numpy.inf', 'math.inf', 'numpy.Inf'):
        return fn('inf', (), pos=True)
    if dotted in ('numpy.e', 'math.e'):
        return alg.exp(num(1))
    if dotted == 'numpy.newaxis':
        return None
    if dotted == 'pandas.NaT':
        return fn('nat', ())
    return I.Ext(dotted)


def attr(eng, o, name, node):
    if isinstance(o, Ref):
        r = eng.rec(o)
        if r.kind == 'df':
            if name in ('loc', 'iloc', 'at', 'iat'):
                return LocV(o, name)
            if name == 'columns':
                if df_closed(r):
                    return eng.new_list([c for c in r.f if isinstance(c, str) and not c.startswith('@')])
                return fn('columns', (r.base,), arr=True)
            if name == 'values':
                t = frame_values(eng, o)
                if t is not None:
                    return t
                if len(r.f) == 1 and r.base is None:
                    return next(iter(r.f.values()))
                return fn('values', (eng.tok(o),), arr=True)
            if name == 'index':
                n = frame_rows(eng, r) if eng.exact_shapes and '@index' not in r.f and 'index' not in (r.extra or {}) else None
                if n is not None:
                    return Tup([num(j) for j in range(n)])
                return r.f.get('@index', fn('dfindex', (r.base if r.base is not None else eng.tok(next(iter(r.f.values()), None)),), arr=True))
            if name == 'shape':
                return Tup([length(eng, o), num(len(r.f)) if r.base is None else fn('ncols', (r.base,))])
            if name == 'empty':
                return eq0(length(eng, o))
            if name == 'size':
                return fn('size', (eng.tok(o),), nonneg=True, arr=False)
            if name == 'T':
                return fn('T', (eng.tok(o),), arr=True)
            if name == 'name':
                return fn('attr:name', (eng.tok(o),))
            if name in r.f:
                return r.f[name]
            if r.base is not None:
                return eng.df_missing(r, name)
            return eng.unsupported('df.' + name, node, o)
        if r.kind in ('list', 'tuple', 'set'):
            s = seq(eng, o)
            if isinstance(s, (Expr, Tup)):
                return attr(eng, s, name, node)
        if r.base is not None:
            return fn('attr:' + name, (r.base,), arr=True)
        if r.kind == 'obj':
            eng.do_raise('AttributeError: %s.%s' % (r.cls.name if r.cls is not None else 'object', name), node or ast.Pass(), 'AttributeError', implicit=True)
            raise I.Dead()
        return fn('attr:' + name, (eng.tok(o),), arr=True)
    if isinstance(o, Tup):
        if name == 'shape':
            sh = [num(len(o.items))]
            if o.items and isinstance(o.items[0], Tup):
                sh.append(num(len(o.items[0].items)))
            return Tup(sh)
        if name == 'size':
            return num(len(o.items))
        if name == 'ndim':
            return num(2 if o.items and isinstance(o.items[0], Tup) else 1)
        if name == 'T':
            return transpose(o)
        if name == 'values':
            return o
        if name in ('loc', 'iloc'):
            return LocV(o, name)
        if name == 'str' and o.items and all(isinstance(x, str) for x in o.items):
            return StrAcc(o)
        if name in ('real', 'imag', 'dt', 'str') or name in DATE_ATTRS:
            return Tup([eng.attr(x, name, node) for x in o.items])
        return fn('attr:' + name, (eng.tok(o),), arr=True)
    if isinstance(o, I.ArrW):
        if name in ('loc', 'iloc', 'at', 'iat'):
            return LocV(o, name)
        if name in ('shape', 'size', 'ndim'):
            return attr(eng, o.base, name, node)
        if name == 'values':
            return o
        return attr(eng, eng.num_leaf(o), name, node)
    if isinstance(o, bool):
        if name == 'values':
            return o
        if name in ('shape', 'size', 'ndim'):
            return fn(name, (o,), nonneg=True, arr=False)
        return fn('attr:' + name, (o,))
    if isinstance(o, Expr):
        if name in ('loc', 'iloc', 'at', 'iat'):
            return LocV(o, name)
        if name in ('values', 'index', 'array') and labelled(o) is not None:
            return labelled(o)[1 if name == 'index' else 0]
        if name in ('values', 'dt', 'str', 'flat', 'array'):
            return o
        if name == 'real':
            return alg.real(o)
        if name == 'imag':
            return fn('im', (o,), real=True) if alg.is_complex(o) else num(0)
        if name in ('shape', 'size', 'ndim'):
            if not alg.is_arr(o):
                if name == 'shape':
                    return fn('shape', (o,), arr=True)
            if name == 'size':
                return fn('len', (len_base(o),), nonneg=True, arr=False)
            return fn(name, (len_base(o),), nonneg=True, arr=(name == 'shape'))
        if name == 'T':
            return fn('T', (o,), arr=True) if needs_T(o) else o
        if name in DATE_ATTRS:
            return date_attr(eng, o, name)
        if name in ('is_integer',):
            return fn('attr:' + name, (o,))
        if name == 'kwds':
            r = offset_kwds(eng, o)
            if r is not None:
                return r
        if name in ('index', 'name', 'dtype', 'columns', 'weekmask', 'holidays', 'empty'):
            return fn(name, (o,), arr=(name == 'index'))
        return fn('attr:' + name, (o,), arr=True)
    if isinstance(o, str):
        return fn('attr:' + name, (o,))
    if o is None:
        eng.do_raise('AttributeError: None.%s' % name, node or ast.Pass(), 'AttributeError', implicit=True)
        raise I.Dead()
    if isinstance(o, I.RangeV):
        return fn('attr:' + name, (eng.tok(o),))
    if isinstance(o, LocV):
        return fn('attr:' + name, (eng.tok(o),))
    return eng.unsupported('attr:' + name, node, o)


def datelike(e):
    """a calendar field (the one-element date arrays built from scalars compare element by element)"""
    if isinstance(e, Node):
        return datelike(e.hi) or datelike(e.lo)
    return isinstance(e, Expr) and (sym_type(e) == 'ts' or any(str(ATOMS[a].name).startswith('date') for a in alg.deep_atoms(e)))


def date_attr(eng, o, name):
    """calendar field of a date"""
    if name in ('year', 'month', 'day') and o.single():
        (m, k), = o.t.items()
        A = ATOMS[m[0][0]] if m else None
        if k == 1 and len(m) == 1 and m[0][1] == 1 and A.kind == 'fn' and A.name == 'date' and len(A.args) == 3 and all(isinstance(x, Expr) for x in A.args):
            return A.args[('year', 'month', 'day').index(name)]
    if name == 'is_leap_year':
        return cond('isleap', date_attr(eng, o, 'year'))
    if name in ('days_in_month', 'daysinmonth'):
        return month_days(date_attr(eng, o, 'year'), date_attr(eng, o, 'month'))
    if name == 'is_month_end':
        return lift1(lambda n: eq0(date_attr(eng, o, 'day') - n), month_days(date_attr(eng, o, 'year'), date_attr(eng, o, 'month')))
    return fn('date.' + name, (o,), nonneg=(name in ('year', 'month', 'day')))


def date_of(y, m, d):
    """the date of a year, month and day; those of a date without a time give that date"""
    if all(isinstance(x, Expr) for x in (y, m, d)):
        at = [atom_named(x, 'date.' + n) for x, n in ((y, 'year'), (m, 'month'), (d, 'day'))]
        if None not in at:
            o = at[0].args[0]
            if sym_type(o) == 'date' and all(alg.equal(x.args[0], o) for x in at[1:]):
                return o
    return fn('date', (y, m, d), arr=None)


def month_days(y, m):
    if m.is_const() and m.const() == 2:
        return ite(cond('isleap', y), num(29), num(28))
    if m.is_const() and m.const() in range(1, 13):
        return num(30 if m.const() in (4, 6, 9, 11) else 31)
    if m.is_const():
        return fn('monthdays', (y, m), pos=True)
    return ite(eq0(m - num(2)), ite(cond('isleap', y), num(29), num(28)), fn('monthdays', (y, m), pos=True))


def needs_T(e):
    return False


def transpose(t):
    if t.items and all(isinstance(x, Tup) for x in t.items):
        return Tup([Tup(c) for c in zip(*[x.items for x in t.items])])
    return t


IDENT_METHODS = {'astype', 'flatten', 'ravel', 'reshape', 'item', 'to_numpy', 'squeeze', 'tolist', 'copy', 'view', 'conjugate_', 'reset_index',
                 'to_frame', 'to_pydatetime', 'to_list', 'normalize', 'to_timestamp', 'date', 'to_datetime64', 'rename'}


def reshaped(eng, o, shape):
    """a column (-1, 1) or a row (1, -1) made of a one-dimensional array"""
    d = [x.const() if isinstance(x, Expr) and x.is_const() else None for x in shape]
    if d in ([-1, 1], [1, -1]) and isinstance(o, Expr):
        for n in alg.deep_atoms(o):
            eng.axes.setdefault(n, set()).add(0 if d[0] == -1 else 1)


def gated_method(eng, o, name, args, kwargs, node):
    if name == 'any' and is_mask(o):
        return any_of(eng, o, node)
    if name == 'all' and is_mask(o):
        return all_of(eng, o, node)
    if name in ('flatten', 'ravel', 'copy', 'to_numpy', 'tolist', 'item', 'squeeze', 'reshape') and is_mask(o):
        return o
    if name == 'astype' and is_mask(o):
        return o
    if name == 'sum' and is_mask(o):
        return fn('count', (I.CondTok(o),), nonneg=True, arr=False)
    return NotImplemented


def method(eng, o, name, args, kwargs, node):
    if o is UNDEF:
        return UNDEF
    if isinstance(o, vals.Native):
        return native_method(eng, o, name, args, kwargs, node)
    if isinstance(o, str):
        return str_method(eng, o, name, args, kwargs, node)
    if isinstance(o, StrAcc):
        return stracc_method(eng, o, name, args, kwargs, node)
    if isinstance(o, bool):
        if name in ('any', 'all', 'copy', 'flatten', 'item', 'astype', 'ravel', 'to_numpy'):
            return o
        return fn('call:.' + name, (o,))
    if isinstance(o, Ref):
        return ref_method(eng, o, name, args, kwargs, node)
    if isinstance(o, LocV):
        return eng.unsupported('loc method', node)
    if isinstance(o, I.ArrW):
        if name in ('copy', 'astype', 'reshape', 'view', 'squeeze'):
            return o
        o = eng.num_leaf(o)
    if isinstance(o, Tup):
        return tup_method(eng, o, name, args, kwargs, node)
    if o is None:
        eng.do_raise('AttributeError: None.%s()' % name, node, 'AttributeError', implicit=True)
        raise I.Dead()
    if isinstance(o, Expr):
        return expr_method(eng, o, name, args, kwargs, node)
    return eng.unsupported('method ' + name, node, o, *args)


class StrAcc:
    """.str of a column of known texts"""

    def __init__(self, o):
        self.o = o
        self.vkey = ('stracc', vkey(o))


def stracc_method(eng, o, name, args, kwargs, node):
    out = []
    for x in o.o.items:
        if name in ('contains', 'match', 'fullmatch'):
            pat = args[0] if args else kwargs.get('pat')
            regex = kwargs.get('regex', args[4] if len(args) > 4 else True)
            if not isinstance(pat, str) or regex not in (True, False) or set(kwargs) - {'pat', 'regex', 'na'} or len(args) > 1:
                return eng.unsupported('.str.' + name, node)
            f = {'contains': _re.search, 'match': _re.match, 'fullmatch': _re.fullmatch}[name]
            out.append(f(pat if regex else _re.escape(pat), x) is not None)
        elif name == 'replace' and kwargs.get('regex') is not True:
            out.append(str_method(eng, x, name, args, {}, node))
        elif name == 'len':
            out.append(num(len(x)))
        else:
            out.append(str_method(eng, x, name, args, kwargs, node))
    return Tup(out)


def str_method(eng, o, name, args, kwargs, node):
    if all(isinstance(a, str) or isinstance(a, Expr) and a.is_const() for a in args) and not kwargs and name in (
            'lower', 'upper', 'strip', 'replace', 'split', 'startswith', 'endswith', 'title', 'capitalize', 'isdigit', 'isalpha', 'count', 'find',
            'lstrip', 'rstrip', 'rsplit', 'isnumeric', 'zfill', 'removeprefix', 'removesuffix', 'index', 'isupper', 'isdecimal', 'isalnum', 'islower',
            'rfind', 'partition', 'rpartition', 'casefold', 'swapcase', 'isspace', 'splitlines', 'rindex', 'ljust', 'rjust', 'center'):
        if has_digits(o):
            if name in ('isdigit', 'isnumeric', 'isdecimal', 'isalnum', 'isalpha', 'isspace'):
                return getattr(''.join('1' if has_digits(ch) else ch for ch in o), name)()
            if name in ('zfill', 'find', 'rfind', 'index', 'rindex', 'ljust', 'rjust', 'center') or any(
                    not isinstance(a, str) or any(ch.isdigit() for ch in a) for a in (args if name in ('replace', 'split', 'count', 'startswith', 'endswith', 'strip',
                                                                                                       'lstrip', 'rstrip', 'removeprefix', 'removesuffix') else ())):
                return fn('call:.' + name, (o,) + tuple(eng.tok(a) for a in args))
        try:
            r = getattr(o, name)(*[a if isinstance(a, str) else int(a.const()) for a in args])
        except ValueError:
            eng.do_raise('ValueError: %s' % name, node, 'ValueError', implicit=True)
            raise I.Dead()
        return lift_py(eng, r)
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], Tup) and all(isinstance(x, str) for x in args[0].items):
        return getattr(o, name)(tuple(args[0].items))
    if name == 'join' and len(args) == 1:
        its = to_items(eng, args[0])
        if its is not None and all(isinstance(x, str) for x in its):
            return o.join(its)
    if name == 'format':
        return fn('fmt', (o,) + tuple(eng.tok(a) for a in args))
    return fn('call:.' + name, (o,) + tuple(eng.tok(a) for a in args))


def lift_py(eng, r):
    if isinstance(r, (str, bool)) or r is None:
        return r
    if isinstance(r, (int, float)):
        return num(r)
    if isinstance(r, list):
        return eng.new_list([lift_py(eng, x) for x in r])
    if isinstance(r, tuple):
        return Tup([lift_py(eng, x) for x in r])
    raise I.Unsupported('lift_py')


def tup_method(eng, o, name, args, kwargs, node):
    if name in ("to_series", "to_frame_") and not args and not kwargs:
        return o
    if name == "clip" and not eng.exact_shapes:
        return Tup([call_ext(eng, "numpy.clip", [x] + list(args) + ([kwargs.get("lower"), kwargs.get("upper")] if kwargs else []), {}, node) for x in o.items])
    if name == 'repeat':
        return opaque_np(eng, 'repeat', [o] + list(args), kwargs, node)
    if name in IDENT_METHODS or name == 'copy':
        if name == 'item' and len(o.items) == 1:
            return o.items[0]
        if name in ('flatten', 'ravel') and o.items and isinstance(o.items[0], Tup):
            return Tup([y for x in o.items for y in (x.items if isinstance(x, Tup) else [x])])
        if name == 'reshape' and args and o.items and not isinstance(o.items[0], Tup):
            return o
        return o
    if name in ('item', 'squeeze') and len(o.items) == 1:
        return o.items[0]
    if name in ('unique', 'drop_duplicates') and not args and not kwargs:
        d = distinct(eng, o.items, node)
        if d is not None:
            return Tup(d)
    if name == 'isin' and len(args) == 1 and not kwargs:
        ks = eng.known_iter(args[0]) if isinstance(args[0], (Tup, Ref)) else None
        if ks is not None:
            def any_of(x):
                r = False
                for y in ks:
                    r = b_or(r, eng.compare(ast.Eq(), x, y, node))
                return r
            return Tup([any_of(x) for x in o.items])
    if name in ('map', 'apply') and args:
        extra = kwargs.get('args')
        return Tup([eng.call(args[0], [x] + (list(extra.items) if isinstance(extra, Tup) else []), {}, node) for x in o.items])
    if name == 'index' and args:
        for i, x in enumerate(o.items):
            if same(x, args[0]):
                return num(i)
    if name in ('any', 'all', 'sum', 'mean', 'max', 'min', 'prod', 'cumsum', 'dot'):
        return call_ext(eng, 'numpy.' + name, [o] + args, kwargs, node)
    if name in ('where', 'mask') and args and (mask_tup(args[0]) or isinstance(args[0], Node) and is_mask(args[0])):
        other = args[1] if len(args) > 1 else kwargs.get('other', fn('nan', ()))
        n = len(o.items)
        at = lambda v, i: v.items[i] if isinstance(v, Tup) and len(v.items) == n else v
        r = [(at(args[0], i), o.items[i], at(other, i)) for i in range(n)]
        return Tup([ite(m, x, y) if name == 'where' else ite(m, y, x) for m, x, y in r])
    return fn('call:.' + name, (eng.tok(o),) + tuple(eng.tok(a) for a in args), arr=True)


def list_reversed(eng, r):
    """items of a list of several segments, in reverse order"""
    if r.kind == 'list' and r.base is None and r.items and not any(isinstance(x, I.GuardItem) for x in r.items):
        return [x.seg if isinstance(x, I.RevSeg) else I.RevSeg(x) if isinstance(x, I.MapSeg) else x for x in r.items[::-1]]


UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'nanosecond', 'tzinfo', 'fold')


def month_end(eng, o):
    """(number of days in the month of a date, last day of that month)"""
    return (month_days(date_attr(eng, o, 'year'), date_attr(eng, o, 'month')),
            eng.binop(ast.Add(), o, call_ext(eng, 'pandas.offsets.MonthEnd', [num(0)], {}, None), None))


def ts_replace(eng, o, kwargs, node):
    """Timestamp.replace: the fields given are replaced, ValueError when the date does not exist"""
    kw = {k: v for k, v in kwargs.items() if v is not None}
    if set(kw) == {'day'} and isinstance(kw['day'], (Node, Expr)) and not (isinstance(kw['day'], Expr) and kw['day'].is_const()):
        d = kw['day']
        md, end = month_end(eng, o)
        if same(d, md):
            return end
        for n in range(1, 32):
            if same(d, lift1(lambda m: _mine(num(n), m), md)):
                if n <= 28:
                    return ts_replace(eng, o, {'day': num(n)}, node)
                return lift1(lambda m: ite(gt0(num(n) - m), end, ite(eq0(num(n) - m), end, fn('replace', (o, 'day', num(n)), arr=alg.is_arr(o)))), md)
    for k, v in kw.items():
        for_each = v if isinstance(v, Node) else None
        if for_each is not None:
            return lift1(lambda x, k=k: ts_replace(eng, o, dict(kw, **{k: x}), node), v)
        if isinstance(v, str) or isinstance(v, EnumMember):
            eng.do_raise('ValueError: value must be an integer for %s' % k, node, 'ValueError', implicit=True)
            raise I.Dead()
    if not kw:
        return o
    r = fn('replace', (o,) + tuple(y for k in sorted(kw) for y in (k, eng.tok(kw[k]))), arr=alg.is_arr(o))
    t = sym_type(o)
    if t:
        TYPES[alg.sid(r)] = t
    d = kw.get('day')
    if set(kw) == {'day'} and isinstance(d, Expr) and d.is_const():
        n = d.const()
        if 1 <= n < 28:
            return r
        if n < 1 or n > 31:
            eng.do_raise('ValueError: day is out of range for month', node, 'ValueError', implicit=True)
            raise I.Dead()
        md, end = month_end(eng, o)
        if n > 28:
            eng.raise_when(lift1(lambda m: gt0(num(n) - m), md), 'ValueError: day is out of range for month', node, 'ValueError')
        # the last day of the month is written as such
        return lift1(lambda m: ite(eq0(num(n) - m), end, r), md)
    if set(kw) & {'year', 'month', 'day'}:
        eng.raise_when(vals.cond('exc', 'date', r), 'ValueError: day is out of range for month', node, 'ValueError')
    return r


def labelled(o):
    """(values, index) of a series with a known index"""
    if isinstance(o, Expr) and o.single():
        (m, c), = o.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name == 'indexed':
            return ATOMS[m[0][0]].args
    return None


def atom_named(v, name):
    if isinstance(v, Expr) and v.single():
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].name == name:
            return ATOMS[m[0][0]]
    return None


def index_parts(ix):
    """the indices a sorted union is made of"""
    u = atom_named(ix, 'call:.union')
    if u is not None and len(u.args) == 2:
        return [y for x in u.args for y in index_parts(x)]
    for nm in ('call:.drop_duplicates', 'unique', 'np.unique'):
        u = atom_named(ix, nm)
        if u is not None and len(u.args) == 1:
            return [u.args[0]]
    return [ix]


def labelled_method(eng, o, name, args, kwargs, node):
    v, ix = labelled(o)
    mk = lambda y, i: fn('indexed', (y, i), arr=True)
    if name in ('to_numpy', 'tolist', 'copy', 'astype'):
        return o if name == 'copy' else v
    if name in ('clip', 'abs', 'round') and isinstance(v, Expr):
        w = method(eng, v, name, args, kwargs, node)
        return lift1(lambda y: mk(y, ix), w)
    if name == 'reindex' and (len(args) == 1 or set(kwargs) == {'index'}) and not (args and kwargs):
        new = seq(eng, args[0] if args else kwargs['index'])
        if not isinstance(new, Expr):
            return None
        p = atom_named(v, 'interp')
        if p is not None and vals.same(p.args[0], ix) and any(vals.same(x, new) for x in index_parts(ix)):
            return mk(fn('interp', (new,) + p.args[1:], arr=True), new)
        return mk(fn('align', (v, ix, new), arr=True), new)
    p = atom_named(v, 'align')
    if name == 'interpolate' and p is not None and vals.same(p.args[2], ix) and any(vals.same(x, p.args[1]) for x in index_parts(ix)) and not args and kwargs.get('method') in ('time', 'index') \
            and set(kwargs) <= {'method', 'limit_area'} and atom_named(ix, 'call:.union') is not None:
        n = fn('nan', ())
        opts = [Tup(['left', n])] + ([Tup(['right', n])] if kwargs.get('limit_area') == 'inside' else [])
        return mk(fn('interp', (ix, p.args[1], p.args[0]) + tuple(opts), arr=True), ix)
    p = atom_named(v, 'interp')
    if name in ('ffill', 'bfill') and p is not None and vals.same(p.args[0], ix) and not args and not kwargs:
        side = 'right' if name == 'ffill' else 'left'
        keep = tuple(x for x in p.args[3:] if not (isinstance(x, Tup) and x.items[0] == side))
        return mk(fn('interp', p.args[:3] + keep, arr=True), ix)
    return None


def expr_method(eng, o, name, args, kwargs, node):
    if labelled(o) is not None:
        r = labelled_method(eng, o, name, args, kwargs, node)
        if r is not None:
            return r
    if o.is_const() and name in ('replace', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'isdigit', 'title') and not kwargs:
        eng.do_raise('AttributeError: number has no attribute %s' % name, node, 'AttributeError', implicit=True)
        raise I.Dead()
    if name == 'replace' and not args and kwargs and set(kwargs) <= set(UNITS):
        return ts_replace(eng, o, kwargs, node)
    if name in IDENT_METHODS:
        if name == 'item':
            eng.singles.append((eng.st.pc, o))
        if name == 'reshape':
            reshaped(eng, o, args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args)
        if name == 'astype':
            ty = args[0] if args else kwargs.get('dtype')
            if isinstance(ty, Opaque_) and ty.name in ('builtins.int', 'numpy.int64', 'numpy.int32'):
                return call_ext(eng, 'builtins.int', [o], {}, node)
            if isinstance(ty, str) and ty.startswith(('datetime64[M', 'datetime64[Y', 'timedelta')) or isinstance(ty, str) and ty == 'int':
                return fn('astype', (o, ty), arr=True)
            if isinstance(ty, Opaque_) and ty.name in ('builtins.bool', 'numpy.bool_'):
                return eng.truth(o)
        if name == 'tolist' and not alg.is_arr(o):
            return o
        if name == 'rename':
            return o
        return o
    if name in ('any', 'all'):
        return (any_of if name == 'any' else all_of)(eng, o, node)
    if name in ('sum', 'mean', 'max', 'min', 'prod', 'std', 'var', 'cumsum', 'cumprod', 'argmin', 'argmax', 'diff', 'round', 'clip', 'dot', 'argsort', 'unique', 'repeat', 'isin', 'isnull', 'isna', 'notnull', 'notna', 'abs'):
        if name in ('isnull', 'isna'):
            return call_ext(eng, 'numpy.isnan', [o], {}, node)
        if name == 'repeat':
            return opaque_np(eng, 'repeat', [o] + list(args), kwargs, node)
        if name in ('notnull', 'notna'):
            return _notnull(eng, [o], {}, node)
        if name == 'argmax':
            return call_ext(eng, 'numpy.argmax', [o] + args, kwargs, node)
        if name == 'clip':
            kw = {q: v for q, v in kwargs.items() if q not in ('axis', 'inplace')}
            a = list(args)
            if 'lower' in kw:
                a.append(kw.pop('lower'))
                a.append(kw.pop('upper', None))
            elif 'upper' in kw:
                a = [None, kw.pop('upper')]
            return call_ext(eng, 'numpy.clip', [o] + a, kw, node)
        return call_ext(eng, 'numpy.' + name, [o] + args, kwargs, node)
    if name == 'conjugate' or name == 'conj':
        return fn('conj', (o,), real=False)
    if name == 'to_series' and not args and set(kwargs) <= {'index', 'name'} and eng.exact_shapes is not True:
        return fn('indexed', (o, seq(eng, kwargs['index']) if kwargs.get('index') is not None else o), arr=True)
    if name in ('where', 'mask') and args:
        m = mask_of(eng, args[0]) if not isinstance(args[0], (I.Func, I.Bound, I.PyFn)) else eng.truth(eng.call(args[0], [o], {}, node))
        if m is not None:
            other = args[1] if len(args) > 1 else kwargs.get('other', fn('nan', ()))
            return ite(m, o, other) if name == 'where' else ite(m, other, o)
    if name in ('between',):
        lo, hi = eng.compare(ast.GtE(), o, args[0], node), eng.compare(ast.LtE(), o, args[1], node)
        return b_and(lo, hi)
    if name == 'fillna':
        m = call_ext(eng, 'numpy.isnan', [o], {}, node)
        return ite(m, args[0] if args else kwargs.get('value'), o)
    if name in ('apply', 'map') and args and isinstance(args[0], (I.Func, I.Bound, I.PyFn, I.Opaque)):
        extra = kwargs.get('args')
        return eng.call(args[0], [o] + (list(extra.items) if isinstance(extra, Tup) else []), {}, node)
    if name in ('append',):
        eng.unsup.append('append on symbolic value at ' + eng.where(node))
        return None
    a = [o] + list(args) + [Tup([k, v]) for k, v in sorted(kwargs.items())]
    eng.extcalls.append(('.' + name, [o] + list(args), kwargs, eng.st.pc, eng.where(node)))
    if name == 'shift':
        n = args[0] if args else kwargs.get('periods', num(1))
        if isinstance(n, Expr) and n.is_const():
            return shift(eng, o, alg.scale(n, -1))
    return eng.opaque('call:.' + name, *a, arr=True)


def ref_method(eng, o, name, args, kwargs, node):
    r = eng.rec(o)
    if r.kind in ('list', 'set'):
        if name in ('append', 'add'):
            n = r.copy()
            if r.items is None:
                n.items = []
            if r.kind == 'set' and any(same(args[0], x) for x in n.items):
                return None
            n.items.append(args[0])
            eng.put(o, n)
            return None
        if name == 'extend':
            list_extend(eng, o, args[0], node)
            return None
        if name == 'insert' and isinstance(args[0], Expr) and args[0].is_const() and r.items is not None:
            k = int(args[0].const())
            n = r.copy()
            if (r.extra or {}).get('loop') is not None and r.base is not None and k == 0:
                # put before everything the loop has collected so far
                n.extra['front'] = (args[1],) + tuple(n.extra.get('front', ()))
                eng.put(o, n)
                return None
            if r.base is None and (k == 0 or not any(isinstance(x, (I.MapSeg, I.GuardItem, I.RevSeg)) for x in (r.items[:k] if k > 0 else r.items[k:]))):
                n.items.insert(k, args[1])
                eng.put(o, n)
                return None
        if name == 'pop' and eng.plain_items(o):
            n = r.copy()
            k = int(args[0].const()) if args and isinstance(args[0], Expr) and args[0].is_const() else -1
            if n.items:
                v = n.items.pop(k)
                eng.put(o, n)
                return v
        if name == 'copy':
            return eng.alloc(r.copy())
        if name in ('index', 'get_loc') and eng.plain_items(o):
            for i, x in enumerate(r.items):
                if same(x, args[0]):
                    return num(i)
        if name == 'reverse' and eng.plain_items(o):
            n = r.copy()
            n.items.reverse()
            eng.put(o, n)
            return None
        if name == 'reverse' and list_reversed(eng, r) is not None:
            n = r.copy()
            n.items = list_reversed(eng, r)
            eng.put(o, n)
            return None
        if name == 'reverse':
            n = r.copy()
            n.items = [I.TokLeaf(('reversed', eng.tok(o)))]
            n.base = fn('reversed', (eng.tok(o),), arr=True)
            n.items = []
            eng.put(o, n)
            return None
        if name == 'sort':
            s = _sorted(eng, [o], kwargs, None)
            if isinstance(s, Ref):
                eng.put(o, eng.rec(s).copy())
            return None
        if name == 'pop' and r.base is None and r.items and (not args or isinstance(args[0], Expr) and args[0].is_const() and args[0].const() in (0, -1)):
            k = int(args[0].const()) if args else -1
            if not isinstance(r.items[k], (I.MapSeg, I.GuardItem, I.RevSeg)):
                n = r.copy()
                v = n.items.pop(k)
                eng.put(o, n)
                return v
        if r.kind == 'set' and name in ('union', 'update') and not kwargs:
            kss = [eng.known_iter(x) for x in args]
            if eng.plain_items(o) and all(x is not None for x in kss):
                d = {vkey(y): y for ks in [r.items] + kss for y in ks}
                n = I.Rec('set', items=list(d.values()))
                if name == 'union':
                    return eng.alloc(n)
                eng.put(o, n)
                return None
        if name == 'clear' and r.items is not None:
            n = r.copy()
            n.items, n.base, n.f = [], None, {}
            eng.put(o, n)
            return None
        if r.kind == 'list' and name in ('insert', 'pop', 'remove', 'clear'):
            n = r.copy()
            n.base = fn('list.' + name, (eng.tok(o),) + tuple(eng.tok(x) for x in args), arr=True)
            n.items, n.extra = [], None
            eng.put(o, n)
            return fn('list.popped', (n.base,), arr=True) if name == 'pop' else None
        s = seq(eng, o)
        if isinstance(s, (Tup, Expr)):
            return method(eng, s, name, args, kwargs, node)
        return eng.unsupported('list.' + name, node, o)
    if r.kind == 'dict':
        if name == 'get':
            e = r.f.get(vkey(args[0])) if not isinstance(args[0], Node) else None
            d = args[1] if len(args) > 1 else kwargs.get('default')
            if e is not None:
                return e[1]
            if isinstance(args[0], Node):
                return lift1(lambda k: ref_method(eng, o, 'get', [k] + list(args[1:]), kwargs, node), args[0])
            if r.base is None and (isinstance(args[0], (str, EnumMember)) or args[0] is None or isinstance(args[0], Expr) and args[0].is_const()):
                return d
            if r.base is None and r.f and isinstance(args[0], Expr):
                v = d
                for kk, vv in reversed(list(r.f.values())):
                    v = ite(eng.compare(ast.Eq(), args[0], kk, node), vv, v)
                return v
            return fn('dictget', (eng.tok(o), eng.tok(args[0]), eng.tok(d)), arr=True)
        if name == 'items' and r.base is None:
            return Tup([Tup([k, v]) for k, v in r.f.values()])
        if name == 'keys' and r.base is None:
            return Tup([k for k, v in r.f.values()])
        if name == 'values' and r.base is None:
            return Tup([v for k, v in r.f.values()])
        if name == 'items':
            return I.IterV('items', [o])
        if name == 'update':
            n = r.copy()
            if args and isinstance(args[0], Ref):
                n.f.update(eng.rec(args[0]).f)
            for k, v in kwargs.items():
                n.f[vkey(k)] = (k, v)
            eng.put(o, n)
            return None
        if name == 'copy':
            return eng.alloc(r.copy())
        if name == 'pop':
            e = r.f.get(vkey(args[0]))
            n = r.copy()
            n.f.pop(vkey(args[0]), None)
            eng.put(o, n)
            return e[1] if e is not None else (args[1] if len(args) > 1 else None)
        if name == 'setdefault':
            e = r.f.get(vkey(args[0]))
            if e is not None:
                return e[1]
            n = r.copy()
            v = args[1] if len(args) > 1 else None
            n.f[vkey(args[0])] = (args[0], v)
            eng.put(o, n)
            return v
        return eng.unsupported('dict.' + name, node, o)
    if r.kind == 'df':
        return df_method(eng, o, r, name, args, kwargs, node)
    if r.kind == 'obj' and r.base is not None:
        eng.extcalls.append(('.' + name, [o] + list(args), kwargs, eng.st.pc, eng.where(node)))
        return eng.opaque('call:.' + name, r.base, *(list(args) + [Tup([k, v]) for k, v in sorted(kwargs.items())]), arr=True)
    if r.kind == 'obj':
        if r.cls is not None:
            eng.do_raise('AttributeError: %s.%s' % (r.cls.name, name), node, 'AttributeError', implicit=True)
            raise I.Dead()
    return eng.unsupported('method ' + name, node, o, *args)


def list_extend(eng, o, v, node):
    r = eng.rec(o).copy()
    its = to_items(eng, v)
    if its is not None:
        r.items = list(r.items or []) + its
    elif isinstance(v, Ref) and eng.rec(v).items is not None:
        r.items = list(r.items or []) + list(eng.rec(v).items)
    elif isinstance(v, Node):
        ln = [length(eng, l) for _, l in vals.leaves(v)]
        r.items = list(r.items or []) + [I.GuardItem(True, v)]
    else:
        lp = I.Loop(v, eng.range_sym(None), None, 'extend')
        r.items = list(r.items or []) + [I.MapSeg(lp, eng.iter_elem(v, lp), True)]
    eng.put(o, r)


def frame_values(eng, o):
    """a row of a frame as a tuple, a frame of several known columns as an array by columns"""
    r = eng.rec(o)
    x = r.extra or {}
    if any(not isinstance(c, str) or c.startswith('@') for c in r.f) or not r.f:
        return None
    if 'row_of' in x or x.get('row'):
        return Tup(list(r.f.values())) if x.get('row_base', None) is None else None
    if r.base is not None:
        return None
    if eng.exact_shapes and frame_rows(eng, r) is not None:
        n = frame_rows(eng, r)
        return Tup([Tup([v.items[j] if isinstance(v, Tup) else v for v in r.f.values()]) for j in range(n)])
    return vals.Cols(list(r.f.values())) if len(r.f) > 1 else None


def df_method(eng, o, r, name, args, kwargs, node):
    if name == 'to_numpy' and not args and not kwargs:
        t = frame_values(eng, o)
        if t is not None:
            return t
    if name == 'copy':
        return eng.alloc(r.copy())
    if name in ('head', 'tail') and len(args) <= 1:
        n = args[0] if args else kwargs.get('n', num(5))
        if isinstance(n, Expr) and n.is_const() and n.const() > 0:
            x = frame_slice(eng, o, r, I.SliceV(None, n, None) if name == 'head' else I.SliceV(num(-n.const()), None, None))
            if x is not None:
                return x
    inplace = kwargs.get('inplace') is True
    if name in ('dropna', 'drop_duplicates') and eng.exact_shapes and r.kind == 'df' and frame_rows(eng, r) is not None and not args and 'axis' not in kwargs:
        stay = rows_kept(eng, r, name, kwargs, node)
        if all(stay):
            if inplace:
                return None
            return eng.alloc(r.copy())
        x = index(eng, o, Tup(stay), node)
        if inplace:
            eng.put(o, eng.rec(x).copy())
            return None
        return x
    one_row = r.kind == 'df' and r.base is None and r.f and all(isinstance(x, Tup) and len(x.items) == 1 for x in r.f.values())
    if name in ('ffill', 'bfill', 'drop_duplicates') and r.kind == 'df' and r.base is None and r.f and 'axis' not in kwargs:
        how = tuple(eng.tok(a) for a in args) + tuple(fn('kw:' + kk, (eng.tok(vv),)) for kk, vv in sorted(kwargs.items()) if kk not in ('inplace', 'ignore_index'))
        n = r.copy()
        if not one_row:         # which rows go, and what fills a gap, depends on the other rows
            n.f = {kk: x if x is None else vals.apply(lambda x: fn('rows:' + name, (x,) + how, arr=True) if isinstance(x, Expr) else x, seq(eng, x)) for kk, x in r.f.items()}
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name in ('reset_index', 'to_frame', 'dropna', 'sort_index', 'astype', 'sort_values', 'drop_duplicates', 'convert_dtypes', 'infer_objects', 'round'):
        n = r.copy()
        if name in ('sort_values', 'dropna', 'drop_duplicates', 'sort_index'):
            k = fn('df.' + name, (r.base if r.base is not None else 'new',) + tuple(eng.tok(a) for a in args) + tuple(fn('kw:' + kk, (eng.tok(vv),)) for kk, vv in sorted(kwargs.items()) if kk not in ('inplace', 'ignore_index')))
            n.extra = dict(r.extra or {}, ops=tuple((r.extra or {}).get('ops', ())) + ((name, eng.tok(args[0]) if args else eng.tok(kwargs.get('by')), kwargs.get('ascending', True)) + (('key',) if kwargs.get('key') is not None else ()),))
            if not (name == 'sort_values' and sorted_rows(eng, n, r, args, kwargs)):
                row_order(eng, n, name, args, kwargs)
        if name == 'reset_index' and r.base is None and r.kind == 'df' and not (r.extra or {}).get('row'):
            n.extra = dict(r.extra or {})
            ix = n.extra.pop('index', fn('rowpos', ('0',), arr=True))
            nm = n.extra.pop('index_name', 'index')
            nm = kwargs['names'] if isinstance(kwargs.get('names'), str) else nm
            if kwargs.get('drop') in (None, False) and isinstance(ix, (Expr, Tup)) and isinstance(nm, str) and '@index' not in n.f:
                n.f = dict({nm: ix}, **n.f)
            n.extra['index'] = fn('rowpos', (n.extra.get('order', '0'),), arr=True)
            if eng.exact_shapes and frame_rows(eng, n) is not None:
                del n.extra['index']
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name == 'rename_axis' and r.base is None and r.kind == 'df' and len(args) == 1 and isinstance(args[0], str) and set(kwargs) <= {'inplace'}:
        n = r.copy()
        n.extra = dict(r.extra or {}, index_name=args[0])
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name == 'set_index' and r.base is None and args and isinstance(args[0], str) and args[0] in r.f and set(kwargs) <= {'drop', 'inplace'}:
        n = r.copy()
        n.extra = dict(r.extra or {}, index=r.f[args[0]], index_name=args[0])
        if kwargs.get('drop') is not False:
            n.f = {k: v for k, v in n.f.items() if k != args[0]}
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name == 'reindex' and r.base is None and isinstance((r.extra or {}).get('index'), Expr) and (len(args) == 1 and not kwargs or set(kwargs) == {'index'} and not args):
        key = seq(eng, args[0] if args else kwargs['index'])
        n = r.copy()
        n.f = {c: lookup(eng, key, r.extra['index'], v) for c, v in r.f.items()}
        n.extra = dict(r.extra, index=key)
        n.extra.pop('order', None)
        return eng.alloc(n)
    if name == 'iterrows':
        return I.IterV('iterrows', [o], known_rows(eng, o))
    if name == 'itertuples':
        return I.IterV('itertuples', [o])
    if name in ('drop',):
        n = r.copy()
        cols = kwargs.get('columns')
        ax = kwargs.get('axis', args[1] if len(args) > 1 else num(0))
        if cols is None:
            if not (ax == 'columns' or isinstance(ax, Expr) and ax.is_const() and ax.const() == 1):
                return eng.alloc(I.Rec('df', {}, base=fn('df.drop', (eng.tok(o), eng.tok(args[0] if args else kwargs.get('labels', kwargs.get('index')))), arr=True))) if not inplace else eng.unsupported('df.drop', node)
            cols = args[0] if args else kwargs.get('labels')
        ks = [cols] if isinstance(cols, str) else (eng.known_iter(cols) if isinstance(cols, (Ref, Tup)) else None)
        if ks is None:
            raise I.Unsupported('df.drop of unknown columns')
        for c in ks:
            if n.f.pop(c if isinstance(c, str) else vkey(c), None) is None and kwargs.get('errors') != 'ignore' and df_closed(r):
                eng.do_raise('KeyError: %r not found in axis' % (c,), node or ast.Pass(), 'KeyError', implicit=True)
                raise I.Dead()
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name == 'rename':
        n = r.copy()
        m = kwargs.get('columns')
        if isinstance(m, Ref) and eng.rec(m).kind == 'dict':
            for k, v in eng.rec(m).f.values():
                if isinstance(k, str) and k in n.f:
                    n.f = {(v if c == k else c): x for c, x in n.f.items()}
                elif n.base is not None and isinstance(k, str) and isinstance(v, str):
                    n.f[v] = eng.df_missing(n, k)
        if inplace:
            eng.put(o, n)
            return None
        return eng.alloc(n)
    if name in ('apply',) and args and isinstance(args[0], (I.Func, I.Bound, I.PyFn)):
        ax = kwargs.get('axis')
        row = I.Rec('df', dict(r.f), base=r.base)
        row.extra = dict(r.extra or {}, row=True)
        ref = eng.alloc(row)
        return eng.call(args[0], [ref], {}, node)
    if name == 'map' and args:
        return eng.unsupported('df.map', node, o)
    if name == 'pop' and args and isinstance(args[0], str) and args[0] in r.f:
        n = r.copy()
        v = n.f.pop(args[0])
        eng.put(o, n)
        return v
    if name == 'insert' and len(args) + len(kwargs) >= 3:
        d = bind_ext(('loc', 'column', 'value', 'allow_duplicates'), args, kwargs)
        n = r.copy()
        cn = d['column'] if isinstance(d['column'], str) else vkey(d['column'])
        if cn in n.f:
            eng.do_raise('ValueError: cannot insert %s, already exists' % cn, node, 'ValueError', implicit=True)
            raise I.Dead()
        if df_closed(r) and isinstance(d['loc'], Expr) and d['loc'].is_const():
            p = int(d['loc'].const())
            if p > len([c for c in n.f if not c.startswith('@')]):
                eng.do_raise('IndexError: insert position out of range', node, 'IndexError', implicit=True)
                raise I.Dead()
            it = list(n.f.items())
            it.insert(p, (cn, d['value']))
            n.f = dict(it)
        else:
            n.f[cn] = d['value']
        eng.put(o, n)
        return None
    if name == 'keys':
        return attr(eng, o, 'columns', node)
    if name == 'get' and isinstance(args[0], str):
        v = df_cols(eng, r, args[0])
        return v if v is not None else (args[1] if len(args) > 1 else None)
    if name == 'assign':
        n = r.copy()
        for k, v in kwargs.items():
            n.f[k] = v
        return eng.alloc(n)
    if name == 'to_dict':
        return eng.new_dict([(k, v) for k, v in r.f.items() if isinstance(k, str)])
    if name in ('pop',):
        v = df_cols(eng, r, args[0])
        n = r.copy()
        n.f.pop(args[0], None)
        eng.put(o, n)
        return v
    if name == 'tolist' and (r.extra or {}).get('row'):
        return Tup([v for k, v in r.f.items()])
    eng.extcalls.append(('.df.' + name, [o] + list(args), kwargs, eng.st.pc, eng.where(node)))
    if name in ('merge', 'join'):
        other = args[0] if args else kwargs.get('right')
        if name == 'merge':
            n = left_lookup(eng, o, other, kwargs)
            if n is not None:
                return n
        n = I.Rec('df', {}, base=fn('merge', (eng.tok(o), eng.tok(other)) + tuple(fn('kw:' + kk, (eng.tok(vv),)) for kk, vv in sorted(kwargs.items()) if kk != 'right')))
        n.extra = {'merge': (o, other, kwargs)}
        return eng.alloc(n)
    base = fn('df.' + name, (eng.tok(o),) + tuple(eng.tok(a) for a in args) + tuple(fn('kw:' + kk, (eng.tok(vv),)) for kk, vv in sorted(kwargs.items())), arr=True)
    return eng.alloc(I.Rec('df', {}, base=base))


def sorted_rows(eng, n, r, args, kwargs):
    """sort the rows of a frame of known size whose key values are in a known order"""
    m = frame_rows(eng, r)
    by = args[0] if args else kwargs.get('by')
    ks = eng.known_iter(by) if isinstance(by, (Ref, Tup)) else None
    by = ks[0] if ks is not None and len(ks) == 1 else by
    if m is None or not isinstance(by, str) or by not in r.f or set(kwargs) - {'by', 'ascending', 'inplace', 'ignore_index'}:
        return False
    key = r.f[by]
    key = list(key.items) if isinstance(key, Tup) else [key] * m
    place = place_of(key, kwargs.get('ascending', True) is not False)
    if place is None and eng.exact_shapes and m > 1:
        kt = Tup([eng.tok(x) for x in key] + [kwargs.get('ascending', True) is not False])
        nth = lambda v: Tup([fn('row_by', (kt, eng.tok(v), num(j))) for j in range(m)])
        n.f = {c: nth(v) if isinstance(v, Tup) else v for c, v in r.f.items()}
        n.extra = {k: v for k, v in (r.extra or {}).items() if k not in ('order', 'index', 'ops')}
        if kwargs.get('ignore_index') is not True:
            n.extra['index'] = nth(Tup([num(j) for j in range(m)]))
        return True
    if place is None:
        return False
    n.f = {c: Tup([v.items[j] for j in place]) if isinstance(v, Tup) else v for c, v in r.f.items()}
    n.extra = dict(r.extra or {})
    ix = n.extra.pop('index', None)
    if kwargs.get('ignore_index') is not True:
        n.extra['index'] = Tup([ix.items[j] if isinstance(ix, Tup) else num(j) for j in place])
    return True


def place_of(key, asc=True):
    """the sorting permutation of values in a known order, else None"""
    if all(isinstance(x, str) for x in key):
        return sorted(range(len(key)), key=lambda i: key[i]) if asc else sorted(range(len(key)), key=lambda i: [-ord(x) for x in key[i]] + [1])
    if not all(isinstance(x, Expr) for x in key):
        return None
    def before(x, y):
        c = lt0(x - y)
        return c if c is True or c is False else None
    n = len(key)
    below = []
    for i in range(n):
        b = [before(key[j], key[i]) for j in range(n) if j != i]
        if any(x is None for x in b):
            return None
        below.append(sum(b))
    if len(set(below)) != n and not all(below[i] != below[j] or alg.equal(key[i], key[j]) for i in range(n) for j in range(i)):
        return None
    return sorted(range(n), key=lambda i: below[i] if asc else -below[i])       # equal ones keep their order


def row_order(eng, n, name, args, kwargs):
    """the order of the rows after a sort: '0' as given, else what they are sorted by"""
    if name in ('sort_values', 'sort_index'):
        before = (n.extra or {}).get('order', '0')
        for c, v in n.f.items():
            A = atom_named(v, 'arange')
            if A is not None and isinstance(A.args[0], Expr) and not A.args[0].t and alg.equal(A.args[2], num(1)):
                n.f[c] = fn('rowpos', (before,), arr=True)         # numbered rows
    if name == 'sort_values':
        by = args[0] if args else kwargs.get('by')
        one = eng.known_iter(by) if isinstance(by, (Ref, Tup)) else None
        by = one[0] if one is not None and len(one) == 1 else by
        key = n.f.get(by) if isinstance(by, str) else None
        if key is None and by == n.extra.get('index_name'):
            key = n.extra.get('index')
    elif name == 'sort_index':
        key = n.extra.get('index', fn('rowpos', ('0',), arr=True))
    else:
        return
    asc = kwargs.get('ascending', True)
    A = ATOMS[next(iter(key.t))[0][0]] if isinstance(key, Expr) and key.single() else None
    if A is not None and A.name == 'rowpos' and asc is True:
        n.extra['order'] = A.args[0]
    else:
        n.extra['order'] = 'by:%s:%s' % (show_tok(key), asc is True)


def show_tok(v):
    return alg.show(v) if isinstance(v, Expr) else str(vkey(v))


def left_lookup(eng, o, other, kw):
    """left merge on one key: each row of the left frame with the columns of the right row of equal key (missing: nan)"""
    if not (isinstance(o, Ref) and isinstance(other, Ref)) or kw.get('how') != 'left':
        return None
    l, r = eng.rec(o), eng.rec(other)
    lk, rk = kw.get('left_on', kw.get('on')), kw.get('right_on', kw.get('on'))
    one = lambda v: eng.known_iter(v)[0] if isinstance(v, (Ref, Tup)) and eng.known_iter(v) is not None and len(eng.known_iter(v)) == 1 else v
    lk, rk = one(lk), one(rk)
    if l.kind != 'df' or r.kind != 'df' or l.base is not None or r.base is not None or not isinstance(lk, str) or not isinstance(rk, str) or lk not in l.f or rk not in r.f:
        return None
    if set(l.f) & set(r.f) - ({lk} if lk == rk else set()):
        return None
    n = I.Rec('df', dict(l.f))
    for c, v in r.f.items():
        if c == rk:
            if c != lk:
                n.f[c] = lookup(eng, l.f[lk], r.f[rk], v)
        else:
            n.f[c] = lookup(eng, l.f[lk], r.f[rk], v)
    n.extra = {'merge': (o, other, kw)}
    return eng.alloc(n)


def lookup(eng, key, keys, v):
    if isinstance(key, Tup):
        return Tup([lookup(eng, x, keys, v) for x in key.items])

    def f(a, b, c):
        if isinstance(a, Tup):
            return lookup(eng, a, b, c)
        if isinstance(a, Expr) and a.single() and ATOMS[next(iter(a.t))[0][0]].name in ('nat', 'nan'):
            return fn('nan', ())
        if isinstance(b, Tup) and isinstance(c, Tup) and len(b.items) == len(c.items):
            hit = [eng.compare(ast.Eq(), x, a, None) for x in b.items]
            if all(isinstance(h, bool) for h in hit) and hit.count(True) == 1:
                return c.items[hit.index(True)]
        return fn('lookup', (eng.tok(a), eng.tok(b), eng.tok(c)), arr=True)
    return apply(f, key, keys, v)


# ------------------------------------------------------------------ enums

def enum_cls(eng, m):
    for md in list(eng.w.mods.values()):
        d = md.defs.get(m.cls)
        if isinstance(d, ast.ClassDef):
            v = eng.lookup_mod(md, m.cls)
            if isinstance(v, I.Cls):
                return v
    return None


def enum_value(eng, c, name):
    for i, (n, v) in enumerate(c.members()):
        if n == name:
            if isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] == 'auto':
                return num(i + 1)
            return eng.eval_in(c.mod, v)
    return None


def enum_attr(eng, o, name, node):
    c = enum_cls(eng, o)
    if name == 'name':
        return o.name
    if name in ('value', '_value_'):
        return enum_value(eng, c, o.name) if c else fn('value', (o,))
    if c is not None:
        f = eng.find_method(c, name)
        if f is not None:
            deco = [ast.unparse(d).split('.')[-1] for d in f.node.decorator_list]
            if 'property' in deco:
                return eng.call(I.Bound(f, o), [], {}, node)
            if 'classmethod' in deco:
                return I.Bound(f, c)
            if 'staticmethod' in deco:
                return f
            return I.Bound(f, o)
        v = eng.cls_attr(c, name)
        if v is not None:
            return v
        for n, _ in c.members():
            if n == name:
                return EnumMember(c.name, n)
        r = enum_fields(eng, c, o, node)
        if name in r:
            return r[name]
    eng.do_raise('AttributeError: %s.%s' % (o, name), node or ast.Pass(), 'AttributeError', implicit=True)
    raise I.Dead()


def enum_fields(eng, c, o, node):
    """attributes set by the __init__ of an enum class"""
    init = eng.find_method(c, '__init__')
    if init is None:
        return {}
    v = enum_value(eng, c, o.name)
    ref = eng.new_obj(c, {'value': v, '_value_': v, 'name': o.name, '_name_': o.name})
    eng.call_func(init, [ref] + (list(v.items) if isinstance(v, Tup) else [v]), {}, node)
    return dict(eng.rec(ref).f)


def enum_method(eng, o, name, args, kwargs, node):
    return eng.call(enum_attr(eng, o, name, node), args, kwargs, node)


def enum_lookup(eng, c, v, node):
    """Cls(v)"""
    def f(x):
        if isinstance(x, EnumMember) and x.cls == c.name:
            return x
        if isinstance(x, (str, Expr)) or x is None:
            if isinstance(x, Expr) and not x.is_const():
                return fn('enumof', (c.name, x))
            hits = [n for n, _ in c.members() if same(enum_value(eng, c, n), x)]
            if hits:
                # first member with that value is canonical
                return EnumMember(c.name, hits[0])
            m = eng.find_method(c, '_missing_')
            if m is not None:
                return eng.call(I.Bound(m, c), [x], {}, node)
            eng.do_raise('ValueError: %r is not a valid %s' % (x, c.name), node or ast.Pass(), 'ValueError', implicit=True)
            raise I.Dead()
        return fn('enumof', (c.name, eng.tok(x)))
    if isinstance(v, Node):
        return lift1(f, v)
    return f(v)


# ------------------------------------------------------------------ external functions

E = {}


def ext(*names):
    def deco(f):
        for n in names:
            E[n] = f
        return f
    return deco


def unary(f):
    def g(eng, a, k, node):
        x = seq(eng, a[0])
        if isinstance(x, (Expr, Node)):
            def leaf(y):
                ps = concat_of(y)
                if ps is not None:
                    return concat_parts(eng, [eng.arith(f, [p], node) for p in ps])
                return eng.arith(f, [y], node)
            return lift1(leaf, x)
        return eng.arith(f, [x], node)
    return g


def concat_of(y):
    """parts of a concatenation, or None"""
    if isinstance(y, Expr) and y.single():
        (m, c), = y.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == 'concat' and isinstance(ATOMS[m[0][0]].meta, tuple):
            return ATOMS[m[0][0]].meta
    return None


E['numpy.exp'] = E['math.exp'] = E['cmath.exp'] = unary(alg.exp)
E['numpy.log'] = E['cmath.log'] = unary(alg.log)
E['math.log'] = lambda eng, a, k, node: eng.arith(alg.log, [a[0]], node) if len(a) == 1 else eng.arith(lambda x, b: alg.div(alg.log(x), alg.log(b)), a, node)
E['numpy.log2'] = unary(lambda x: alg.div(alg.log(x), alg.log(num(2))))
E['numpy.log10'] = unary(lambda x: alg.div(alg.log(x), alg.log(num(10))))
E['numpy.log1p'] = E['math.log1p'] = unary(alg.log1p)
E['numpy.expm1'] = E['math.expm1'] = unary(alg.expm1)
E['numpy.sqrt'] = E['math.sqrt'] = E['cmath.sqrt'] = unary(alg.sqrt)
E['numpy.square'] = unary(lambda x: alg.mul(x, x))
E['numpy.sin'] = E['math.sin'] = unary(alg.sin)
E['numpy.cos'] = E['math.cos'] = unary(alg.cos)
E['numpy.reciprocal'] = unary(lambda x: alg.inv(x))
E['numpy.negative'] = unary(lambda x: alg.scale(x, -1))


def _abs(x):
    return alg.absf(x) if not alg.is_complex(x) else fn('cabs', (x,), real=True, nonneg=True)


E['numpy.abs'] = E['numpy.absolute'] = E['builtins.abs'] = E['math.fabs'] = E['numpy.fabs'] = unary(_abs)
E['numpy.real'] = E['cmath.real'] = unary(alg.real)
E['numpy.imag'] = unary(lambda x: fn('im', (x,), real=True) if alg.is_complex(x) else num(0))
for _n in ('norm',):
    E['scipy.stats.norm.cdf'] = unary(alg.cdf)
    E['scipy.stats.norm.pdf'] = unary(alg.pdf)
    E['scipy.stats.norm.ppf'] = unary(alg.ppf)
    E['scipy.stats.norm.sf'] = unary(lambda x: alg.cdf(alg.scale(x, -1)))
    E['scipy.stats.norm.isf'] = unary(lambda x: alg.scale(alg.ppf(x), -1))
E['scipy.special.ndtr'] = unary(alg.cdf)
E['scipy.special.ndtri'] = unary(alg.ppf)
E['scipy.special.erf'] = E['math.erf'] = unary(lambda x: alg.add(alg.scale(alg.cdf(alg.mul(x, alg.sqrt(num(2)))), 2), num(-1)))


def _floor(x):
    if x.is_const():
        return num(x.const().numerator // x.const().denominator)
    return fn('floor', (x,))


def _int(x):
    if x.is_const():
        c = x.const()
        return num(int(c))
    if integral(x):
        return x
    return fn('int', (x,))


def integral(x):
    return all(c.denominator == 1 for c in x.t.values()) and all(
        ATOMS[a].kind == 'sym' and str(ATOMS[a].name).startswith(('@i', '@n')) or ATOMS[a].kind == 'fn' and ATOMS[a].name in ('len', 'count', 'floor', 'floordiv', 'int') for m in x.t for a, _ in m)


E['numpy.floor'] = E['math.floor'] = unary(_floor)
E['numpy.ceil'] = E['math.ceil'] = unary(lambda x: alg.scale(_floor(alg.scale(x, -1)), -1))
E['numpy.sign'] = unary(lambda x: num(0) if not x.t else num(1) if vals.sgn(x) == '+' else num(-1) if vals.sgn(x) == '-' else fn('sign', (x,)))
for _n in ('arctan', 'tan', 'tanh', 'sinh', 'cosh', 'arccos', 'arcsin', 'angle'):
    E['numpy.' + _n] = unary((lambda nm: lambda x: fn(nm, (x,)))(_n))
E['math.gamma'] = unary(lambda x: fn('gamma', (x,)))


@ext('builtins.float', 'numpy.float64', 'numpy.float32', 'builtins.complex', 'numpy.complex128')
def _float(eng, a, k, node):
    if not a:
        return num(0)
    if len(a) == 2:
        return eng.arith(lambda x, y: alg.add(x, alg.mul(alg.I(), y)), a, node)

    def f(x):
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ('nan',):
                return fn('nan', ())
            if s in ('inf', 'infinity', '+inf'):
                return fn('inf', (), pos=True)
            try:
                return num(Fr(s))
            except ValueError:
                return eng.unsupported('float(str)', node)
        if isinstance(x, bool):
            return num(int(x))
        return x
    return lift1(f, a[0])


@ext('builtins.int', 'numpy.int64', 'numpy.int32')
def _bint(eng, a, k, node):
    def f(x):
        if isinstance(x, str):
            if x in vals.DIGITS:
                return vals.DIGITS[x]
            if has_digits(x):
                if all(ch.isdigit() or has_digits(ch) for ch in x):
                    return fn('int', (x,))
                x = x.replace(x, '?')
            try:
                return num(int(x))
            except ValueError:
                eng.do_raise('ValueError: int(%r)' % x, node, 'ValueError', implicit=True)
                raise I.Dead()
        y = eng.num_leaf(x)
        if isinstance(y, Expr):
            return _int(y)
        return eng.unsupported('int', node, x)
    return lift1(f, a[0]) if a else num(0)


@ext('builtins.bool', 'numpy.bool_')
def _bool(eng, a, k, node):
    return eng.truth(a[0])


@ext('builtins.str', 'numpy.str_')
def _str(eng, a, k, node):
    def f(x):
        if isinstance(x, str):
            return x
        if isinstance(x, Expr) and x.is_const() and x.const().denominator == 1:
            return str(int(x.const()))
        if isinstance(x, EnumMember):
            return '%s.%s' % (x.cls, x.name)
        if x is None or isinstance(x, bool):
            return str(x)
        return fn('str', (eng.tok(x),))
    return lift1(f, a[0]) if a else ''


@ext('builtins.repr', 'builtins.format', 'builtins.id', 'builtins.hash', 'builtins.vars', 'builtins.locals', 'builtins.globals')
def _repr(eng, a, k, node):
    return fn('repr', tuple(eng.tok(x) for x in a))


@ext('builtins.print', 'warnings.warn', 'time.time', 'os.chdir', 'os.environ.get', 'pandas.set_option', 'pandas.options', 'numpy.set_printoptions',
     'warnings.filterwarnings', 'warnings.simplefilter', 'os.getcwd', 'gc.collect', 'time.perf_counter', 'locale.setlocale')
def _noop(eng, a, k, node):
    return None


@ext('builtins.len')
def _len(eng, a, k, node):
    return length(eng, a[0])


@ext('numpy.size')
def _size(eng, a, k, node):
    return attr(eng, seq(eng, a[0]), 'size', node)


@ext('numpy.shape')
def _shape(eng, a, k, node):
    return attr(eng, seq(eng, a[0]), 'shape', node)


@ext('numpy.ndim')
def _ndim(eng, a, k, node):
    return attr(eng, seq(eng, a[0]), 'ndim', node)


@ext('builtins.slice')
def _slice(eng, a, k, node):
    a = [None if x is None else x for x in a]
    if len(a) == 1:
        return I.SliceV(None, a[0], None)
    return I.SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@ext('builtins.range')
def _range(eng, a, k, node):
    a = [_bint(eng, [x], {}, node) if not isinstance(x, Expr) else x for x in a]
    if len(a) == 1:
        return apply(lambda h: I.RangeV(num(0), h, num(1)), a[0])
    if len(a) == 2:
        return apply(lambda l, h: I.RangeV(l, h, num(1)), *a)
    return apply(lambda l, h, s: I.RangeV(l, h, s), *a)


@ext('builtins.enumerate')
def _enumerate(eng, a, k, node):
    start = a[1] if len(a) > 1 else k.get('start', num(0))

    def f(x):
        ks = eng.known_iter(x)
        if ks is not None:
            return Tup([Tup([alg.add(num(i), start), v]) for i, v in enumerate(ks)])
        return I.IterV('enumerate', [x], start)
    return lift1(f, a[0])


def arrw_item(eng, x, i, n):
    """item i (>= 0) of an array of n items, scalar filled and then written at single positions; None when not of that form"""
    if not isinstance(x.base, (Expr, bool)) or isinstance(x.base, Expr) and alg.is_arr(x.base):
        return None
    v = x.base
    for ix, w, lp in x.writes:
        if lp is not None or len(ix) != 1 or not isinstance(ix[0], Expr) or not ix[0].is_const():
            return None
        k = ix[0] if ix[0].const() >= 0 else n + ix[0]
        v = ite(eq0(i - k), w, v)
    return v


@ext('builtins.zip')
def _zip(eng, a, k, node):
    kss = [eng.known_iter(x) for x in a]
    ns = {len(x) for x in kss if x is not None}
    if len(ns) == 1:
        # an array filled and then written by position
        n, = ns
        kss = [[arrw_item(eng, x, num(i), num(n)) for i in range(n)] if ks is None and isinstance(x, I.ArrW) else ks for ks, x in zip(kss, a)]
        kss = [None if ks is not None and any(y is None for y in ks) else ks for ks in kss]
    if any(x is not None for x in kss):
        # a scalar among sequences is a one-element array (atleast_1d)
        kss = [[x] if ks is None and (isinstance(x, bool) or isinstance(x, Expr) and x.is_const()) else ks for ks, x in zip(kss, a)]
    if all(x is not None for x in kss):
        return Tup([Tup(t) for t in zip(*kss)])
    return I.IterV('zip', a)


@ext('builtins.reversed')
def _reversed(eng, a, k, node):
    ks = eng.known_iter(a[0])
    if ks is not None:
        return Tup(ks[::-1])
    if isinstance(a[0], Ref) and list_reversed(eng, eng.rec(a[0])) is not None:
        return eng.alloc(I.Rec('list', items=list_reversed(eng, eng.rec(a[0]))))
    return I.IterV('reversed', a)


@ext('builtins.iter')
def _iter(eng, a, k, node):
    return a[0]


@ext('builtins.next')
def _next(eng, a, k, node):
    ks = eng.known_iter(a[0])
    if ks:
        return ks[0]
    # next(generator over guarded items, default)
    if isinstance(a[0], Ref):
        r = eng.rec(a[0])
        if r.items is not None and r.base is None and all(not isinstance(x, (I.MapSeg, I.RevSeg)) for x in r.items):
            d = a[1] if len(a) > 1 else UNDEF
            v = d
            for x in reversed(r.items):
                v = ite(x.guard, x.val, v) if isinstance(x, I.GuardItem) else x
            return v
    return fn('next', tuple(eng.tok(x) for x in a), arr=True)


@ext('builtins.map')
def _map(eng, a, k, node):
    kss = [eng.known_iter(x) for x in a[1:]]
    if all(x is not None for x in kss):
        return Tup([eng.call(a[0], list(t), {}, node) for t in zip(*kss)])
    z = _zip(eng, a[1:], {}, node) if len(a) > 2 else None
    if isinstance(z, Tup):
        return Tup([eng.call(a[0], list(t.items), {}, node) for t in z.items])
    out = eng.alloc(I.Rec('list', items=[]))
    it = a[1] if len(a) == 2 else I.IterV('zip', a[1:])
    nm = '@m'
    tgt = ast.Name(nm, ast.Store())
    ap = _MapStep(out, a[0], nm, len(a) > 2, node)
    eng.for_loop(node, tgt, it, [ap])
    eng.env().pop(nm, None)
    return out


class _MapStep(ast.stmt):
    _fields = ()

    def __init__(self, out, f, nm, star, node):
        self.out, self.f, self.nm, self.star, self.node = out, f, nm, star, node
        self.lineno = getattr(node, 'lineno', 0)
        self.col_offset = 0


def _s__MapStep(self, s):
    v = self.env()[s.nm]
    r = self.call(s.f, list(v.items) if s.star else [v], {}, s.node)
    rec = self.rec(s.out).copy()
    rec.items.append(r)
    self.put(s.out, rec)


I.Engine.s__MapStep = _s__MapStep


@ext('builtins.filter')
def _filter(eng, a, k, node):
    ks = eng.known_iter(a[1])
    if ks is not None:
        out = []
        for x in ks:
            t = eng.truth(eng.call(a[0], [x], {}, node) if a[0] is not None else x)
            if t is True:
                out.append(x)
            elif t is not False:
                out.append(I.GuardItem(t, x))
        return eng.new_list(out)
    return eng.unsupported('filter', node, *a)


@ext('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'numpy.sort')
def _list(eng, a, k, node):
    raise NotImplementedError


def _mkseq(kind):
    def f(eng, a, k, node):
        if not a:
            return eng.alloc(I.Rec('set' if kind == 'set' else 'list', items=[])) if kind != 'tuple' else Tup(())

        def g(x):
            ks = eng.known_iter(x)
            if ks is not None:
                if kind == 'tuple':
                    return Tup(ks)
                if kind == 'set':
                    d = {}
                    for y in ks:
                        d[vkey(y)] = y
                    return eng.alloc(I.Rec('set', items=list(d.values())))
                return eng.new_list(ks)
            if isinstance(x, Ref) and eng.rec(x).kind in ('list', 'set'):
                r = eng.rec(x).copy()
                r.kind = 'set' if kind == 'set' else 'list'
                return eng.alloc(r)
            if kind == 'set':
                return eng.alloc(I.Rec('set', items=[], base=fn('set', (eng.tok(x),), arr=True)))
            if isinstance(x, (I.IterV, I.RangeV)):
                lp = I.Loop(x, eng.range_sym(None), None, 'list')
                return eng.alloc(I.Rec('list', items=[I.MapSeg(lp, eng.iter_elem(x, lp), True)]))
            return x
        return lift1(g, a[0])
    return f


E['builtins.list'] = _mkseq('list')
E['builtins.tuple'] = _mkseq('tuple')
E['builtins.set'] = E['builtins.frozenset'] = _mkseq('set')


@ext('builtins.dict')
def _dict(eng, a, k, node):
    pairs = []
    if a:
        ks = eng.known_iter(a[0])
        if isinstance(a[0], Ref) and eng.rec(a[0]).kind == 'dict':
            d = eng.alloc(eng.rec(a[0]).copy())
            for kk, v in k.items():
                store(eng, d, kk, v, node)
            return d
        if ks is not None:
            for x in ks:
                if isinstance(x, Tup) and len(x.items) == 2:
                    pairs.append(tuple(x.items))
        else:
            return eng.alloc(I.Rec('dict', base=fn('dict', (eng.tok(a[0]),), arr=True)))
    pairs += list(k.items())
    return eng.new_dict(pairs)


@ext('builtins.sorted', 'numpy.sort')
def _sorted(eng, a, k, node):
    ks = eng.known_iter(a[0]) if isinstance(a[0], (Ref, Tup)) else None
    if ks is not None and all(isinstance(x, Expr) and x.is_const() for x in ks) and not k:
        if eng.exact_shapes and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'sort':
            return Tup(sorted(ks, key=lambda e: e.const()))
        return eng.new_list(sorted(ks, key=lambda e: e.const()))
    if ks is not None and all(isinstance(x, str) for x in ks) and not k:
        return eng.new_list(sorted(ks))
    if ks is not None and not k and len(ks) > 1 and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'sort' and all(isinstance(x, Expr) and not alg.is_arr(x) for x in ks):
        place = place_of(ks)
        return Tup([ks[j] for j in place] if place is not None else [fn('ordstat', (num(i), eng.tok(Tup(ks))), arr=False) for i in range(len(ks))])
    if ks is not None and 2 <= len(ks) <= 3 and k.get('key') is not None and isinstance(k.get('reverse', False), bool):
        keys = [eng.call(k['key'], [x], {}, node) for x in ks]
        if all(isinstance(x, Expr) and not alg.is_arr(x) for x in keys):
            rows = list(zip(keys, ks))
            for i, j in ((0, 1), (1, 2), (0, 1))[:1 if len(ks) == 2 else 3]:        # stable exchange of neighbours
                (p, x), (q, y) = rows[i], rows[j]
                c = vals.apply(lambda u, v: gt0(v - u) if k.get('reverse') else gt0(u - v), p, q)
                rows[i], rows[j] = (ite(c, q, p), ite(c, y, x)), (ite(c, p, q), ite(c, x, y))
            return eng.new_list([x for _, x in rows])
    return eng.alloc(I.Rec('list', items=[], extra={'perm': list(ks)} if ks is not None else None, base=fn('sorted', (eng.tok(a[0]),) + tuple(fn('kw:' + kk, (eng.tok(v),)) for kk, v in sorted(k.items())), arr=True)))


@ext('builtins.isinstance')
def _isinstance(eng, a, k, node):
    ty = a[1]
    tys = list(ty.items) if isinstance(ty, Tup) else [ty]
    names = []
    for t in tys:
        if isinstance(t, Opaque_):
            names.append(t.name)
        elif isinstance(t, I.Cls):
            names.append('cls:' + t.name)
        else:
            names.append('?')

    def one(x, n):
        s = n.split('.')[-1]
        if isinstance(x, bool) or is_mask(x) and isinstance(x, Node):
            return s in ('bool', 'bool_', 'int', 'Number', 'Real', 'Integral') if isinstance(x, bool) else None
        if isinstance(x, str):
            return s in ('str', 'str_')
        if x is None:
            return s == 'NoneType'
        if isinstance(x, Expr) and x.t == fn('nan', ()).t:
            return s in ('float', 'Number', 'Real', 'float64')
        if isinstance(x, EnumMember):
            return n == 'cls:' + x.cls or s == 'Enum'
        if isinstance(x, Tup):
            return s in ('tuple', 'ndarray', 'Sequence', 'Iterable')
        if isinstance(x, Ref):
            r = eng.rec(x)
            if r.kind == 'obj' and r.cls is not None:
                if n.startswith('cls:'):
                    return n == 'cls:' + r.cls.name or r.cls.name in () or n[4:] in r.cls.bases
                return False
            if r.kind in ('list', 'dict', 'set'):
                return s == r.kind or s in ('Iterable', 'Sequence') or (r.kind == 'dict' and s in ('Mapping',))
            if r.kind == 'df':
                return s == 'DataFrame' or (s == 'Series' and bool((r.extra or {}).get('row')))
            return None
        if isinstance(x, (I.Func, I.Bound)):
            return s in ('Callable', 'FunctionType')
        if isinstance(x, (I.ArrW,)):
            return s == 'ndarray'
        if isinstance(x, I.RangeV):
            return s == 'range'
        if isinstance(x, Expr):
            if x.is_const():
                if s in ('int', 'Integral', 'integer', 'int64'):
                    return x.const().denominator == 1
                if s in ('float', 'Number', 'Real', 'float64', 'floating', 'number'):
                    return True
                return False
            ty = sym_type(x)
            if ty is not None:
                return tymatch(ty, s)
            return None
        return None

    def f(x):
        r = False
        for n in names:
            t = one(x, n)
            if t is True:
                return True
            if t is None:
                r = b_or(r, cond('isinst', eng.tokv(x) if not isinstance(x, Node) else 'mask', n.split('.')[-1]))
        return r
    if isinstance(a[0], Node) and not is_mask(a[0]):
        return lift1(f, a[0])
    return f(a[0])


TYPES = vals.TYPES


def sym_type(x):
    if x.single():
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'fn' and TYPES.get(m[0][0]) is None and a.args and isinstance(a.args[0], Expr) and (a.name in ('sh', 'head') or a.name == 'sel'
                                                                                                             and len(a.args) == 2 and isinstance(a.args[1], Expr) and {ATOMS[i].name for i in alg.atoms_of(a.args[1])} == {'slice'}):
                ty = sym_type(a.args[0])        # a slice has the type of the whole
                return ty if ty in ('dti', 'series', 'array') else None
            return TYPES.get(m[0][0])
    elif TYPES and len(x.t) > 1:
        # date + offsets
        ts = [TYPES.get(m[0][0]) for m, c in x.t.items() if c == 1 and len(m) == 1 and m[0][1] == 1 and TYPES.get(m[0][0]) in ('ts', 'dti', 'series')]
        off = [all(ATOMS[a].name in ('@day', 'months') or not ATOMS[a].arr for a, _ in m) and any(ATOMS[a].name in ('@day', 'months') for a, _ in m)
               for m, c in x.t.items() if not (c == 1 and len(m) == 1 and m[0][1] == 1 and TYPES.get(m[0][0]) in ('ts', 'dti', 'series'))]
        if len(ts) == 1 and off and all(off):
            return ts[0]
    return None


def tymatch(ty, s):
    groups = {'float': {'float', 'Number', 'Real', 'float64', 'floating', 'number'},
              'int': {'int', 'Integral', 'integer', 'int64', 'Number', 'Real', 'number'},
              'array': {'ndarray', 'Iterable'}, 'series': {'Series'}, 'ts': {'Timestamp', 'datetime', 'date'}, 'str': {'str'},
              'dti': {'DatetimeIndex', 'Index'}, 'datetime': {'datetime', 'date'}, 'list': {'list'}, 'df': {'DataFrame'}}
    return s in groups.get(ty, {ty})


@ext('builtins.issubclass', 'builtins.callable')
def _issub(eng, a, k, node):
    if len(a) == 1:
        return isinstance(a[0], (I.Func, I.Bound, I.PyFn, I.Opaque, I.Cls))
    return cond('issub', I.TokLeaf(eng.tok(a[0])), I.TokLeaf(eng.tok(a[1])))


@ext('builtins.hasattr')
def _hasattr(eng, a, k, node):
    def f(x):
        if isinstance(x, Ref):
            r = eng.rec(x)
            if r.kind == 'obj':
                if a[1] in r.f:
                    return True
                if r.cls is not None and (eng.find_method(r.cls, a[1]) or eng.cls_attr(r.cls, a[1]) is not None):
                    return True
                if r.base is None:
                    return False
            if r.kind in ('list', 'set'):
                return a[1] in ('append', '__len__', '__iter__')
        if isinstance(x, I.Cls):
            return eng.cls_attr(x, a[1]) is not None
        if isinstance(x, EnumMember):
            return a[1] in ('value', 'name')
        if isinstance(x, (str,)):
            return hasattr(x, a[1])
        if a[1] in ('__len__', '__iter__') and isinstance(x, Expr) and real_scalar(x) is not None:
            return not real_scalar(x)
        if isinstance(x, Tup):
            return a[1] in ('__len__', '__iter__')
        return cond('hasattr', I.TokLeaf(eng.tok(x)), a[1])
    return lift1(f, a[0])


def real_scalar(x):
    """scalar / array status of an input symbol (None: not known)"""
    if x.is_const():
        return True
    if x.single():
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym':
            return not ATOMS[m[0][0]].arr
    return None


@ext('builtins.getattr')
def _getattr(eng, a, k, node):
    if not isinstance(a[1], str):
        return eng.unsupported('getattr', node, *a)
    if len(a) > 2:
        h = _hasattr(eng, a[:2], {}, node)
        return eng.gated(h, lambda: eng.attr(a[0], a[1], node), lambda: a[2])
    return eng.attr(a[0], a[1], node)


@ext('builtins.setattr')
def _setattr(eng, a, k, node):
    if isinstance(a[1], str):
        eng.set_attr(a[0], a[1], a[2], node)
        return None
    return eng.unsupported('setattr', node)


@ext('builtins.type')
def _type(eng, a, k, node):
    def f(x):
        if isinstance(x, EnumMember):
            return enum_cls(eng, x)
        if isinstance(x, Ref) and eng.rec(x).cls is not None:
            return eng.rec(x).cls
        if isinstance(x, str):
            return I.Ext('builtins.str')
        if isinstance(x, bool):
            return I.Ext('builtins.bool')
        if isinstance(x, Ref) and eng.rec(x).kind in ('list', 'set', 'dict'):
            return I.Ext('builtins.' + eng.rec(x).kind)
        if isinstance(x, Ref) and eng.rec(x).kind == 'df':
            return I.Ext('pandas.DataFrame')
        return fn('type', (eng.tok(x),))
    return lift1(f, a[0])


@ext('builtins.any', 'numpy.any')
def _any(eng, a, k, node):
    if k.get('axis') is not None:
        return eng.opaque('anyaxis', a[0])
    return any_of(eng, a[0], node)


@ext('builtins.all', 'numpy.all')
def _all(eng, a, k, node):
    return all_of(eng, a[0], node)


def _minmax(name, f2):
    def f(eng, a, k, node):
        xs = a
        if len(a) == 1:
            its = to_items(eng, a[0])
            if its is not None:
                xs = its
            else:
                def rng(x):
                    # first and last day of a non-empty calendar-day range
                    if isinstance(x, Expr) and x.single() and not k:
                        A = ATOMS[next(iter(x.t))[0][0]] if next(iter(x.t)) else None
                        if A is not None and A.name == 'date_range' and len(A.args) == 3 and A.args[2] == 'D' and equal_expr(x, A):
                            return A.args[0 if name == 'min' else 1]
                    return eng.opaque(name, x, *[Tup([kk, v]) for kk, v in sorted(k.items()) if v is not None], arr=False if 'axis' not in k else True)
                if isinstance(eng.any_leaf(seq(eng, a[0])), Expr):
                    return lift1(rng, seq(eng, a[0]))
                return eng.opaque(name, seq(eng, a[0]), *[Tup([kk, v]) for kk, v in sorted(k.items()) if v is not None], arr=False if 'axis' not in k else True)
        if k.get('key') is not None and set(k) == {'key'} and 1 <= len(xs) <= 4:
            keys = [eng.call(k['key'], [x], {}, node) for x in xs]
            if all(isinstance(eng.any_leaf(x), Expr) for x in keys):
                best, bk = xs[0], keys[0]
                for x, q in zip(xs[1:], keys[1:]):                  # the first of equal ones stays
                    c = vals.apply(lambda u, v: gt0(u - v) if name == 'min' else gt0(v - u), bk, q)
                    best, bk = ite(c, x, best), ite(c, q, bk)
                return best
        if all(isinstance(eng.any_leaf(x), (Expr, bool, I.ArrW)) for x in xs):
            return fold(eng, f2, xs, node)
        return eng.opaque(name, *xs, arr=True)
    return f


def _isnumish(x):
    return True


def _ranked(a, b, least):
    if vals.RANK:
        c = lt0(a - b)
        if c is True or c is False:
            return a if c == least else b


def _maxe(a, b):
    r = _ranked(a, b, False)
    if r is not None:
        return r
    if _datey(a) or _datey(b):
        return ite(lt0(a - b), b, a)
    if _special(a) or _special(b):
        return _mmatom('max', a, b)
    return alg.maximum(a, b)


def _mine(a, b):
    r = _ranked(a, b, True)
    if r is not None:
        return r
    if _datey(a) or _datey(b):
        return ite(lt0(a - b), a, b)
    if _special(a) or _special(b):
        return _mmatom('min', a, b)
    return alg.minimum(a, b)


def _special(e):
    return any(ATOMS[x].name in ('nan', 'inf', 'ninf') and ATOMS[x].kind == 'fn' for x in alg.atoms_of(e))


def _datey(e):
    return any(TYPES.get(x) in ('ts', 'dti') for x in alg.atoms_of(e))


def _mmatom(name, a, b):
    xs = sorted((a, b), key=lambda e: alg.show(e))
    if alg.equal(a, b):
        return a
    return fn(name + '2', tuple(xs))


E['builtins.max'] = _minmax('max', _maxe)
E['builtins.min'] = _minmax('min', _mine)


@ext('numpy.max', 'numpy.amax', 'numpy.nanmax')
def _npmax(eng, a, k, node):
    return E['builtins.max'](eng, a[:1], k, node)


@ext('numpy.min', 'numpy.amin', 'numpy.nanmin')
def _npmin(eng, a, k, node):
    return E['builtins.min'](eng, a[:1], k, node)


@ext('numpy.maximum', 'numpy.fmax')
def _maximum(eng, a, k, node):
    return eng.arith(_maxe, [seq(eng, a[0]), seq(eng, a[1])], node)


@ext('numpy.minimum', 'numpy.fmin')
def _minimum(eng, a, k, node):
    return eng.arith(_mine, [seq(eng, a[0]), seq(eng, a[1])], node)


@ext('numpy.clip')
def _clip(eng, a, k, node):
    x = seq(eng, a[0])
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))
    if lo is not None:
        x = eng.arith(_maxe, [x, lo], node)
    if hi is not None:
        x = eng.arith(_mine, [x, hi], node)
    return x


BIN = {'numpy.add': alg.add, 'numpy.subtract': lambda a, b: alg.add(a, alg.scale(b, -1)), 'numpy.multiply': alg.mul, 'numpy.divide': alg.div,
       'numpy.true_divide': alg.div, 'numpy.power': alg.power, 'math.pow': alg.power, 'numpy.float_power': alg.power, 'builtins.pow': alg.power,
       'numpy.floor_divide': floordiv, 'numpy.mod': mod, 'numpy.remainder': mod, 'math.fmod': mod,
       'numpy.arctan2': lambda a, b: fn('arctan2', (a, b))}
for _k, _f in BIN.items():
    E[_k] = (lambda f: lambda eng, a, k, node: eng.arith(f, [seq(eng, a[0]), seq(eng, a[1])], node))(_f)


@ext('numpy.logical_not', 'numpy.invert')
def _lnot(eng, a, k, node):
    if isinstance(a[0], Tup):
        return Tup([_lnot(eng, [x], {}, node) for x in a[0].items])
    return b_not(eng.truth(a[0]))


@ext('numpy.logical_and', 'numpy.bitwise_and')
def _land(eng, a, k, node):
    if mask_tup(a[0]) or mask_tup(a[1]):
        return eng.binop(ast.BitAnd(), a[0], a[1], node)
    return b_and(eng.truth(a[0]), eng.truth(a[1]))


@ext('numpy.logical_or', 'numpy.bitwise_or')
def _lor(eng, a, k, node):
    if mask_tup(a[0]) or mask_tup(a[1]):
        return eng.binop(ast.BitOr(), a[0], a[1], node)
    return b_or(eng.truth(a[0]), eng.truth(a[1]))


def _reduce(op):
    def f(eng, a, k, node):
        its = to_items(eng, a[0])
        ax = k.get('axis', a[1] if len(a) > 1 else num(0))
        if its is None or not isinstance(ax, Expr) or ax.t or set(k) - {'axis'} or not its:
            return eng.opaque('reduce:' + op, *a)
        r = its[0]
        for x in its[1:]:
            r = E['numpy.' + op](eng, [r, x], {}, node)
        return r
    return f


for _nm in ('logical_and', 'logical_or', 'add', 'multiply', 'maximum', 'minimum'):
    E['numpy.%s.reduce' % _nm] = _reduce(_nm)


for _nm, _op in (('equal', ast.Eq), ('not_equal', ast.NotEq), ('less', ast.Lt), ('less_equal', ast.LtE), ('greater', ast.Gt), ('greater_equal', ast.GtE)):
    E['numpy.' + _nm] = (lambda op: lambda eng, a, k, node: eng.compare(op(), seq(eng, a[0]), seq(eng, a[1]), node))(_op)


@ext('numpy.isclose', 'math.isclose', 'numpy.allclose')
def _isclose(eng, a, k, node):
    x, y = seq(eng, a[0]), seq(eng, a[1])
    tol = list(a[2:4]) + [k[n] for n in ('rtol', 'rel_tol', 'atol', 'abs_tol') if n in k]
    wide = [t for t in tol if not (isinstance(t, Expr) and t.is_const() and 0 <= t.const() <= Fr(1, 10 ** 5))]
    how = 'close' if not wide else 'within %s' % ', '.join(str(eng.tok(t)) for t in wide)

    def f(p, q):
        if isinstance(p, Expr) and isinstance(q, Expr):
            d = alg.add(p, alg.scale(q, -1))
            if not d.t:
                return True
            return cond(how, alg.absf(d) if not alg.is_complex(d) else d)
        return cond(how, I.TokLeaf(eng.tok(Tup([p, q]))))
    return apply(f, x, y)


@ext('numpy.array_equal')
def _aeq(eng, a, k, node):
    return eng.compare(ast.Eq(), seq(eng, a[0]), seq(eng, a[1]), node)


def present(x):
    return bool(vals.PRESENT) and isinstance(x, Expr) and all(i in vals.PRESENT or ATOMS[i].kind == 'fn' and ATOMS[i].name in ('busday_offset', 'months', 'busday_count', 'days') and ATOMS[i].args and all(present(y) for y in ATOMS[i].args[:2] if isinstance(y, Expr)) for i in alg.atoms_of(x))


def _isnan_leaf(eng, x):
    if x is UNDEF:
        return False
    if x is None:
        return True
    if isinstance(x, Expr):
        ats = alg.deep_atoms(x)
        if any(ATOMS[i].kind == 'fn' and ATOMS[i].name in ('nan', 'nat') for i in alg.atoms_of(x)):
            return True
        if x.is_const() or present(x):
            return False
        return cond('isnan', x)
    if isinstance(x, Tup):
        return Tup([_isnan_leaf(eng, y) for y in x.items])
    if isinstance(x, (str, EnumMember, bool)):
        return False
    return cond('isnan', I.TokLeaf(eng.tok(x)))


@ext('numpy.isnan', 'pandas.isnull', 'pandas.isna', 'math.isnan', 'numpy.isnat')
def _isnan(eng, a, k, node):
    return lift1(lambda x: _isnan_leaf(eng, x), seq(eng, a[0]))


@ext('pandas.notnull', 'pandas.notna')
def _notnull(eng, a, k, node):
    def f(x):
        return Tup([lift1(f, y) for y in x.items]) if isinstance(x, Tup) else not x if isinstance(x, bool) else x
    v = _isnan(eng, a, k, node)
    return lift1(f, v)


@ext('numpy.isfinite')
def _isfinite(eng, a, k, node):
    return lift1(lambda x: b_not(cond('notfinite', x)) if isinstance(x, Expr) and not x.is_const() else True, seq(eng, a[0]))


@ext('numpy.isinf', 'math.isinf')
def _isinf(eng, a, k, node):
    return lift1(lambda x: cond('isinf', x) if isinstance(x, Expr) and not x.is_const() else False, seq(eng, a[0]))


@ext('numpy.isscalar')
def _isscalar(eng, a, k, node):
    def f(x):
        if isinstance(x, (Tup, Ref)) or x is None or isinstance(x, Expr) and alg.is_arr(x):
            return False
        if isinstance(x, (str, bool)) or isinstance(x, Expr) and x.is_const():
            return True
        return cond('truth', fn('ext:numpy.isscalar', (eng.tok(x),)))
    return lift1(f, a[0])


@ext('numpy.isin', 'numpy.in1d')
def _isin(eng, a, k, node):
    ks = to_items(eng, a[1])
    if ks is not None:
        def inside(v):
            r = False
            for x in ks:
                r = b_or(r, eng.compare(ast.Eq(), v, x, node))
            return r
        return lift1(lambda v: Tup([inside(y) for y in v.items]) if isinstance(v, Tup) else inside(v), seq(eng, a[0]))
    return cond('in', I.TokLeaf(eng.tok(a[0])), I.TokLeaf(eng.tok(a[1])))


@ext('numpy.roots')
def _roots(eng, a, k, node):
    co = to_items(eng, a[0])
    if co is None or not all(isinstance(x, Expr) for x in co):
        return eng.opaque('np.roots', seq(eng, a[0]), arr=True)
    r = fn('polyroots', tuple(co), arr=True)
    eng.polys.append({'coeffs': co, 'result': r, 'where': eng.where(node)})
    return r


@ext('numpy.isreal')
def _isreal(eng, a, k, node):
    return lift1(lambda x: cond('isreal', x) if isinstance(x, Expr) else True, seq(eng, a[0]))


def nonzero(eng, m):
    """the places at which a mask holds"""
    if isinstance(m, Tup) and all(isinstance(eng.truth(x), bool) for x in m.items):
        return Tup([num(i) for i, x in enumerate(m.items) if eng.truth(x)])
    if isinstance(m, Node) and is_mask(m):
        return fn('nonzero', (I.CondTok(m),), arr=True)
    return fn('nonzero', (eng.tok(m),), arr=True)


@ext('numpy.flatnonzero', 'numpy.nonzero')
def _nonzero(eng, a, k, node):
    flat = 'flatnonzero' in ast.unparse(node.func) if isinstance(node, ast.Call) else True
    return nonzero(eng, a[0]) if flat else Tup([nonzero(eng, a[0])])


@ext('numpy.where')
def _where(eng, a, k, node):
    if len(a) == 1:
        return Tup([nonzero(eng, a[0])])
    c = a[0]
    x, y = seq(eng, a[1]), seq(eng, a[2])
    if isinstance(c, (Tup, Ref)):
        cs = to_items(eng, c)
        if cs is not None:
            return Tup([ite(eng.truth(ci), x.items[i] if isinstance(x, Tup) else x, y.items[i] if isinstance(y, Tup) else y) for i, ci in enumerate(cs)])
    return ite(eng.truth(c), x, y)


@ext('numpy.select')
def _select(eng, a, k, node):
    cs, xs = to_items(eng, a[0]), to_items(eng, a[1])
    d = a[2] if len(a) > 2 else k.get('default', num(0))
    if cs is None or xs is None:
        return eng.unsupported('select', node)
    v = d
    for c, x in reversed(list(zip(cs, xs))):
        v = ite(eng.truth(c), x, v)
    return v


@ext('numpy.piecewise')
def _piecewise(eng, a, k, node):
    x = a[0]
    cs, fs = to_items(eng, a[1]), to_items(eng, a[2])
    if cs is None or fs is None:
        return eng.unsupported('piecewise', node)
    v = num(0)
    if len(fs) == len(cs) + 1:
        f = fs[-1]
        v = eng.call(f, [x], {}, node) if not isinstance(f, Expr) else f
    for c, f in reversed(list(zip(cs, fs))):
        v = ite(eng.truth(c), eng.call(f, [x], {}, node) if not isinstance(f, Expr) else f, v)
    return v


@ext('numpy.zeros_like', 'numpy.zeros')
def _zeros(eng, a, k, node):
    return carr(num(0), a, k, eng, node)


@ext('numpy.ones_like', 'numpy.ones')
def _ones(eng, a, k, node):
    return carr(num(1), a, k, eng, node)


@ext('numpy.empty_like', 'numpy.empty')
def _empty(eng, a, k, node):
    return carr(fn('uninit', ()), a, k, eng, node)


def carr(v, a, k, eng, node=None):
    sh = a[0] if a else k.get('shape', k.get('a', k.get('prototype')))
    like = isinstance(node, ast.Call) and ast.unparse(node.func).endswith('_like')
    if eng.exact_shapes:
        if isinstance(sh, Expr) and sh.is_const() and sh.const() <= 1024:
            return Tup([v] * int(sh.const()))
        if isinstance(sh, Tup) and len(sh.items) == 1 and isinstance(sh.items[0], Expr) and sh.items[0].is_const() and not like:
            return Tup([v] * int(sh.items[0].const()))
        if isinstance(sh, Tup) and like:
            return Tup([v] * len(sh.items))
    return v


@ext('numpy.full_like', 'numpy.full')
def _full(eng, a, k, node):
    v = a[1] if len(a) > 1 else k.get('fill_value')
    return carr(v, a[:1], k, eng, node) if eng.exact_shapes and isinstance(v, Expr) else v


@ext('numpy.eye', 'numpy.identity')
def _eye(eng, a, k, node):
    if isinstance(a[0], Expr) and a[0].is_const():
        n = int(a[0].const())
        return Tup([Tup([num(1 if i == j else 0) for j in range(n)]) for i in range(n)])
    return fn('eye', (eng.tok(a[0]),), arr=True)


@ext('numpy.broadcast_arrays')
def _bcast(eng, a, k, node):
    return Tup(list(a))


@ext('numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.asarray', 'numpy.array', 'numpy.ravel', 'numpy.squeeze', 'numpy.copy', 'numpy.ascontiguousarray',
     'numpy.asanyarray', 'numpy.reshape', 'numpy.real_if_close', 'numpy.broadcast_to', 'numpy.nan_to_num_', 'copy.deepcopy', 'copy.copy', 'pandas.Series',
     'pandas.to_datetime', 'pandas.Timestamp', 'numpy.datetime64', 'pandas.DatetimeIndex', 'pandas.to_numeric', 'pandas.Index', 'numpy.float_', 'numpy.expand_dims',
     'pandas.array', 'datetime.datetime.fromordinal_', 'numpy.meshgrid_')
def _ident(eng, a, k, node):
    if not a:
        if 'data' in k:
            a = [k['data']]
        elif 'year' in k:
            return apply(date_of, k['year'], k['month'], k['day'])
        else:
            return fn('nan', ())
    x = a[0]
    if isinstance(x, Expr) and isinstance(node, ast.Call):
        q = ast.unparse(node.func).split('.')[-1]
        sh = a[1] if len(a) > 1 else k.get('axis' if q == 'expand_dims' else 'newshape', k.get('shape'))
        if q == 'reshape' and isinstance(sh, Tup):
            reshaped(eng, x, sh.items)
        elif q == 'expand_dims' and isinstance(sh, Expr) and sh.is_const() and sh.const() in (-1, 0, 1):
            reshaped(eng, x, (num(1), num(-1)) if sh.const() == 0 else (num(-1), num(1)))
    if len(a) >= 3 and all(isinstance(eng.any_leaf(y), Expr) for y in a[:3]) and node is not None:
        q = ast.unparse(node.func).split('.')[-1] if isinstance(node, ast.Call) else ''
        if q in ('Timestamp', 'datetime'):
            return apply(date_of, *a[:3])
    r = lift1(iso_dates, lift1(lambda y: seq(eng, y), x))
    if isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] in ('DatetimeIndex', 'array', 'asarray'):
        r = lift1(lambda y: labelled(y)[0] if labelled(y) is not None else y, r)
    if isinstance(r, Expr) and isinstance(k.get('index'), Expr) and isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] == 'Series':
        return fn('indexed', (labelled(r)[0] if labelled(r) is not None else r, k['index']), arr=True)
    if eng.exact_shapes and isinstance(r, Expr) and not alg.is_arr(r) and isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] == 'atleast_1d':
        return Tup([r])
    return r


def iso_dates(r):
    """'<year>-01-01' strings handed to a date constructor"""
    if isinstance(r, Tup):
        return Tup([iso_dates(y) for y in r.items])
    if not isinstance(r, Expr):
        return r
    mp = {x: fn('date', ATOMS[x].args, arr=ATOMS[x].arr) for x in alg.deep_atoms(r) if ATOMS[x].name == 'isodate'}
    return alg.subst(r, mp) if mp else r


def _deepcopy(eng, a, k, node):
    def f(x):
        if isinstance(x, Ref):
            return eng.alloc(eng.rec(x).copy())
        return x
    return lift1(f, a[0])


E['copy.deepcopy'] = E['copy.copy'] = _deepcopy


def _squeeze(eng, a, k, node):
    def f(x):
        x = seq(eng, x)
        if isinstance(x, Tup) and len(x.items) == 1:
            return x.items[0]
        return x
    return lift1(f, a[0])


E['numpy.squeeze'] = _squeeze


@ext('calendar.isleap')
def _isleap(eng, a, k, node):
    def one(x):
        if isinstance(x, Expr):
            if x.is_const():
                import calendar
                return calendar.isleap(int(x.const()))
            return cond('isleap', x)
        if isinstance(x, Tup):
            return one(x.items[0]) if len(x.items) == 1 else fn('ext:calendar.isleap', (eng.tok(x),), arr=True)
        return fn('ext:calendar.isleap', (eng.tok(x),), arr=True)
    return lift1(one, a[0])


@ext('calendar.monthrange')
def _monthrange(eng, a, k, node):
    y, m = [seq(eng, x) for x in a]
    return Tup([eng.opaque('monthstart', y, m), vals.apply(lambda p, q: month_days(p, q) if isinstance(p, Expr) and isinstance(q, Expr) else fn('monthdays', (eng.tok(p), eng.tok(q)), pos=True), y, m)])


@ext('datetime.datetime', 'datetime.date', 'datetime.datetime.strptime', 'pandas.Timestamp.now')
def _dt(eng, a, k, node):
    y = [seq(eng, x) for x in a]
    for n in ('year', 'month', 'day')[len(y):]:
        if n in k:
            y.append(k[n])
    if len(y) == 3 and all(isinstance(x, Expr) for x in y):
        at = atom_named(y[0], 'date.year')
        o = date_of(*y) if at is not None else None
        if o is not None and isinstance(at.args[0], Expr) and alg.equal(o, at.args[0]):
            return o
    return eng.opaque('date', *y)


@ext('numpy.arange')
def _arange(eng, a, k, node):
    if len(a) == 1:
        lo, hi, st = num(0), a[0], num(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], num(1)
    else:
        lo, hi, st = a[:3]
    if all(isinstance(x, Expr) and x.is_const() for x in (lo, hi, st)) and st.const():
        out, lim = [], 1024 if eng.exact_shapes else 64
        c = lo.const()
        while (c < hi.const() if st.const() > 0 else c > hi.const()) and len(out) < lim:
            out.append(num(c))
            c += st.const()
        if len(out) < lim:
            return Tup(out)
    return apply(lambda l, h, s: alg.add(l, alg.mul(s, fn('arange', (num(0), alg.div(alg.add(h, alg.scale(l, -1)), s), num(1)), nonneg=True, arr=True))), lo, hi, st)


@ext('numpy.linspace')
def _linspace(eng, a, k, node):
    lo, hi = seq(eng, a[0]), seq(eng, a[1])
    n = a[2] if len(a) > 2 else k.get('num', num(50))
    ep = k.get('endpoint', True)

    def f(l, h, m):
        den = alg.add(m, num(-1)) if ep is not False else m
        return alg.add(l, alg.mul(alg.div(alg.add(h, alg.scale(l, -1)), den), fn('arange', (num(0), m, num(1)), nonneg=True, arr=True)))
    return apply(f, lo, hi, n)


@ext('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.vstack', 'numpy.stack', 'numpy.insert')
def _concat(eng, a, k, node):
    nm = ast.unparse(node.func).split('.')[-1] if isinstance(node, ast.Call) else 'concatenate'
    if nm == 'append':
        parts = list(a[:2])
    elif nm == 'insert':
        if isinstance(a[1], Expr) and not a[1].t:
            parts = [Tup([a[2]]) if isinstance(eng.any_leaf(a[2]), (Expr, I.ArrW)) and not alg.is_arr(eng.num_leaf(a[2])) else a[2], a[0]]
            if isinstance(parts[0], Expr):
                parts[0] = Tup([parts[0]])
        else:
            return fn('insert', tuple(eng.tok(x) for x in a), arr=True)
    else:
        parts = to_items(eng, a[0])
        if parts is None:
            return fn('concat', (eng.tok(a[0]),), arr=True)
    parts = [seq(eng, p) for p in parts]
    if nm in ('stack', 'vstack'):
        return Tup(parts)
    parts = [Tup([p]) if isinstance(p, Expr) and not alg.is_arr(p) and (nm in ('append', 'hstack', 'insert') or not p.t) else p for p in parts]
    return concat_parts(eng, parts, k.get('axis'))


def concat_parts(eng, parts, ax=None):
    out = []
    for p in parts:
        if isinstance(p, Expr) and p.single() and not (ax is not None and not (isinstance(ax, Expr) and not ax.t)):
            k = ATOMS[next(iter(p.t))[0][0]] if next(iter(p.t)) else None
            if k is not None and k.name == 'concat' and equal_expr(p, k) and isinstance(k.meta, tuple):
                for q in k.meta:
                    if out and isinstance(out[-1], Tup) and isinstance(q, Tup):
                        out[-1] = Tup(out[-1].items + q.items)
                    else:
                        out.append(q)
                continue
        if out and isinstance(out[-1], Tup) and isinstance(p, Tup):
            out[-1] = Tup(out[-1].items + p.items)
        elif not (isinstance(p, Tup) and not p.items):
            out.append(p)
    if len(out) == 1:
        return out[0]

    def f(*ps):
        pos = all(vals.sgn(x) == '+' for p in ps for x in (p.items if isinstance(p, Tup) else [p]) if isinstance(x, Expr))
        e = fn('concat', tuple(eng.tok(p) for p in ps) + ((eng.tok(ax),) if ax is not None and not (isinstance(ax, Expr) and not ax.t) else ()), arr=True, pos=pos)
        ATOMS[alg.sid(e)].meta = tuple(ps)
        return e
    out = [apply(lambda *its: Tup(list(its)), *p.items) if isinstance(p, Tup) and any(isinstance(x, Node) for x in p.items) else p for p in out]
    return apply(f, *[eng.num_leaf(p) if isinstance(p, I.ArrW) else p for p in out])


def equal_expr(p, k):
    (m, c), = p.t.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1


@ext('numpy.column_stack')
def _colstack(eng, a, k, node):
    parts = to_items(eng, a[0])
    return fn('column_stack', tuple(eng.tok(seq(eng, p)) for p in (parts or [a[0]])), arr=True)


@ext('numpy.diff')
def _diff(eng, a, k, node):
    x = seq(eng, a[0])
    if len(a) > 1 or set(k) - {'prepend', 'append', 'axis'}:
        return eng.opaque('np.diff', x, *a[1:], *[Tup([n, v]) for n, v in sorted(k.items())], arr=True)
    if 'prepend' in k or 'append' in k:
        parts = [seq(eng, v) for v in (k.get('prepend', Tup([])), x, k.get('append', Tup([])))]
        parts = [Tup([v]) if isinstance(v, Expr) and not alg.is_arr(v) else v for v in parts]
        if not all(isinstance(v, Tup) for v in parts):
            return eng.opaque('np.diff', *parts, arr=True)
        x = Tup([i for v in parts for i in v.items])
    if isinstance(x, Tup):
        return Tup([eng.arith(lambda p, q: alg.add(q, alg.scale(p, -1)), [x.items[i], x.items[i + 1]], node) for i in range(len(x.items) - 1)])
    return eng.arith(lambda y: alg.add(shift(eng, y, num(1)), alg.scale(y, -1)), [x], node)


@ext('builtins.sum', 'numpy.sum', 'math.fsum', 'numpy.nansum')
def _sum(eng, a, k, node):
    if isinstance(a[0], Ref):
        r = eng.rec(a[0])
        if r.items is not None and r.base is None and len(r.items) == 1 and isinstance(r.items[0], I.MapSeg) and r.items[0].guard is True:
            a = [eng.maplift(a[0])] + list(a[1:])
    x = seq(eng, a[0])
    its = to_items(eng, x)
    ax = a[1] if len(a) > 1 and node is not None and 'np.' in ast.unparse(node.func)[:4] else k.get('axis')
    if its is not None:
        if its and all(isinstance(i, Tup) for i in its) and ax is not None:
            if isinstance(ax, Expr) and not ax.t:
                return Tup([fold(eng, alg.add, list(c), node) for c in zip(*[i.items for i in its])])
            return Tup([fold(eng, alg.add, list(i.items), node) for i in its])
        flat = []
        for i in its:
            flat.extend(i.items if isinstance(i, Tup) else [i])
        return fold(eng, alg.add, [num(0)] + flat, node)
    return eng.arith(lambda y: lin_sum('sum', y, eng.tok(ax)), [x], node)


def lin_sum(name, y, ax):
    """sum over the array axis; scalar factors move out"""
    out = num(0)
    groups = {}
    for m, c in y.t.items():
        sc = tuple((a, v) for a, v in m if not ATOMS[a].arr)
        ar = tuple((a, v) for a, v in m if ATOMS[a].arr)
        groups.setdefault(ar, alg.ZERO)
        groups[ar] = alg.add(groups[ar], Expr({sc: c}))
    for ar, coef in groups.items():
        if not ar:
            out = alg.add(out, alg.mul(coef, fn('total', (alg.ONE, ax))) if name == 'sum' else coef)
        else:
            e = Expr({ar: Fr(1)})
            out = alg.add(out, alg.mul(coef, fn('total' if name == 'sum' else name, (e, ax), arr=ax is not None)))
    return out


@ext('numpy.mean', 'numpy.average', 'numpy.nanmean', 'statistics.mean')
def _mean(eng, a, k, node):
    x = seq(eng, a[0])
    its = to_items(eng, x)
    ax = a[1] if len(a) > 1 else k.get('axis')
    if its is not None and 'weights' not in k:
        return eng.arith(lambda s: alg.scale(s, Fr(1, len(its))), [fold(eng, alg.add, its, node)], node)
    if 'weights' in k:
        return eng.opaque('average', x, k['weights'], arr=False)
    return eng.arith(lambda y: lin_sum('mean', y, eng.tok(ax)), [x], node)


for _n in ('prod', 'std', 'var', 'cumsum', 'cumprod', 'median', 'argmin', 'argmax', 'argsort', 'unique', 'flip', 'searchsorted', 'trapz', 'trapezoid', 'extract',
           'argwhere', 'count_nonzero', 'tile', 'repeat', 'fft.fft', 'fft.ifft', 'nan_to_num', 'vander', 'polyfit', 'outer', 'einsum', 'corrcoef', 'cov', 'meshgrid', 'gradient',
           'digitize', 'union1d', 'histogram', 'percentile', 'quantile', 'cross', 'kron', 'triu', 'tril', 'rint', 'round'):
    E['numpy.' + _n] = (lambda nm: lambda eng, a, k, node: opaque_np(eng, nm, a, k, node))(_n)


def bind_ext(names, a, k):
    d = dict(zip(names, a))
    d.update(k)
    return d


@ext('pandas.merge_asof')
def _merge_asof(eng, a, k, node):
    d = bind_ext(('left', 'right', 'on', 'left_on', 'right_on'), a, k)
    lk, rk = d.get('left_on') or d.get('on'), d.get('right_on') or d.get('on')
    L, R = d['left'], d['right']
    if not isinstance(L, Ref) or not isinstance(R, Ref) or not isinstance(lk, str) or not isinstance(rk, str):
        return NotImplemented
    l, r = eng.rec(L), eng.rec(R)
    if l.kind != 'df' or r.kind != 'df' or l.base is not None or r.base is not None or lk not in l.f or rk not in r.f or set(l.f) & set(r.f) - ({lk} if lk == rk else set()) \
            or set(d) - {'left', 'right', 'on', 'left_on', 'right_on', 'direction', 'allow_exact_matches', 'tolerance'}:
        return NotImplemented
    n = I.Rec('df', dict(l.f))
    n.extra = {x: y for x, y in (l.extra or {}).items() if x == 'order'}
    n.extra['index'] = fn('rowpos', (n.extra.get('order', '0'),), arr=True)
    key, keys = l.f[lk], r.f[rk]
    opts = (d.get('direction', 'backward'), d.get('allow_exact_matches', True))
    if d.get('tolerance') is not None:
        opts += (Tup(['tolerance', eng.tok(d['tolerance'])]),)
    sorted_ = lambda rec, c: (rec.extra or {}).get('order') == 'by:%s:True' % show_tok(rec.f[c]) or isinstance(rec.f[c], Expr) and rec.f[c].single() and ATOMS[next(iter(rec.f[c].t))[0][0]].name == 'date_range'
    eng.asof.append((sorted_(l, lk), sorted_(r, rk), node))
    for c, v in r.f.items():
        if c == rk:
            if c != lk:
                n.f[c] = asof(eng, key, keys, v, opts)
        else:
            n.f[c] = asof(eng, key, keys, v, opts)
    return eng.alloc(n)


def asof(eng, key, keys, v, opts):
    return apply(lambda x, y, z: fn('asof', (eng.tok(x), eng.tok(y), eng.tok(z)) + opts, arr=True), key, keys, v)


@ext('numpy.interp')
def _npinterp(eng, a, k, node):
    d = bind_ext(('x', 'xp', 'fp', 'left', 'right', 'period'), a, k)
    opts = [(o, d[o]) for o in ('left', 'right', 'period') if d.get(o) is not None]

    def f(x, xp, fp, *o):
        return fn('interp', (eng.tok(x), eng.tok(xp), eng.tok(fp)) + tuple(Tup([n, v]) for (n, _), v in zip(opts, o)), arr=alg.is_arr(x) if isinstance(x, Expr) else True)
    return apply(f, *[seq(eng, d[n]) for n in ('x', 'xp', 'fp')], *[v for _, v in opts])


@ext('scipy.interpolate.splrep')
def _splrep(eng, a, k, node):
    d = bind_ext(('x', 'y', 'w', 'xb', 'xe', 'k', 'task', 's', 't'), a, k)
    opts = [(o, v) for o, v in sorted(d.items()) if o not in 'xyk' and v is not None]

    def f(x, y, kk, *o):
        return fn('spline', (eng.tok(x), eng.tok(y), eng.tok(kk)) + tuple(eng.tok(Tup([n, v])) for (n, _), v in zip(opts, o)), arr=True)
    return apply(f, seq(eng, d['x']), seq(eng, d['y']), d.get('k', num(3)), *[v for _, v in opts])


@ext('scipy.interpolate.splev')
def _splev(eng, a, k, node):
    d = bind_ext(('x', 'tck', 'der', 'ext'), a, k)
    opts = [(o, d[o]) for o in ('ext',) if isinstance(d.get(o), Expr) and d[o].t]

    def f(x, s, der, *o):
        return fn('splev', (eng.tok(x), eng.tok(s), eng.tok(der)) + tuple(eng.tok(Tup([n, v])) for (n, _), v in zip(opts, o)), arr=alg.is_arr(x) if isinstance(x, Expr) else True)
    return apply(f, seq(eng, d['x']), d['tck'], d.get('der', num(0)), *[v for _, v in opts])


ROLLS = {'raise', 'nat', 'following', 'preceding', 'modifiedfollowing', 'modifiedpreceding'}
ROLL_ALIAS = {'forward': 'following', 'backward': 'preceding'}


def rolled_already(eng, xs):
    """a zero offset from a date already rolled on the same calendar leaves it alone"""
    x = xs[0]
    if not (isinstance(x, Expr) and len(x.t) == 1 and isinstance(xs[1], Expr) and not xs[1].t):
        return False
    (m, k), = x.t.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    a = alg.ATOMS[m[0][0]]
    return a.kind == 'fn' and a.name == 'busday_offset' and vals.same(a.args[-1], eng.tok(xs[-1]))


def busday(name, names, dflt):
    def f(eng, a, k, node):
        d = bind_ext(names, a, k)
        if d.get('weekmask') is not None or d.get('holidays') is not None or d.get('out') is not None:
            return eng.opaque(name + '*', *[Tup([n, d[n]]) for n in names if d.get(n) is not None], arr=True)
        its = [d.get(n, dflt.get(n)) for n in names if n not in ('weekmask', 'holidays', 'out')]
        for i, n in enumerate(x for x in names if x not in ('weekmask', 'holidays', 'out')):
            if n in ('dates', 'begindates', 'enddates'):
                its[i] = seq(eng, its[i])
        eng.extcalls.append(('numpy.' + name, its, {}, eng.st.pc, eng.where(node) if node is not None else '?'))

        def g(*xs):
            if any(isinstance(x, Tup) for x in xs):
                n = max(len(x.items) for x in xs if isinstance(x, Tup))
                return Tup([apply(g, *[x.items[i if len(x.items) > 1 else 0] if isinstance(x, Tup) else x for x in xs]) for i in range(n)])
            if name == 'busday_offset' and isinstance(xs[2], str):
                xs = xs[:2] + (ROLL_ALIAS.get(xs[2], xs[2]),) + xs[3:]
            if name == 'busday_offset' and isinstance(xs[2], str) and xs[2] not in ROLLS:
                eng.do_raise('ValueError: Invalid business day roll parameter %r' % xs[2], node, 'ValueError', implicit=True)
                raise I.Dead()
            if name == 'busday_offset' and rolled_already(eng, xs):
                return xs[0]
            if name == 'busday_offset' and xs[2] in ('following', 'preceding', 'modifiedfollowing', 'modifiedpreceding') and isinstance(xs[0], Expr) and isinstance(xs[1], Expr) and xs[1].t:
                xs = (g(xs[0], num(0), *xs[2:]), xs[1], 'rolled') + tuple(xs[3:])        # roll first, then step
            r = fn(name, tuple(eng.tok(x) for x in xs), arr=any(isinstance(x, Expr) and alg.is_arr(x) for x in xs))
            if name == 'busday_offset':
                TYPES[alg.sid(r)] = (sym_type(xs[0]) if isinstance(xs[0], Expr) else None) or 'date64'
            return r
        return apply(g, *its)
    return f


E['numpy.busday_offset'] = busday('busday_offset', ('dates', 'offsets', 'roll', 'weekmask', 'holidays', 'busdaycal', 'out'), {'roll': 'raise'})
E['numpy.busday_count'] = busday('busday_count', ('begindates', 'enddates', 'weekmask', 'holidays', 'busdaycal', 'out'), {})
_isbd = busday('is_busday', ('dates', 'weekmask', 'holidays', 'busdaycal', 'out'), {})
E['numpy.is_busday'] = lambda eng, a, k, node: lift1(lambda x: Tup([cond('truth', y) for y in x.items]) if isinstance(x, Tup) else cond('truth', x), _isbd(eng, a, k, node))


@ext('pandas.date_range')
def _date_range(eng, a, k, node):
    d = bind_ext(('start', 'end', 'periods', 'freq'), a, k)
    fr = d.get('freq', 'D')
    opts = [(o, v) for o, v in sorted(d.items()) if o not in ('start', 'end', 'freq') and v is not None]

    def f(s, t, *o):
        r = fn('date_range', (eng.tok(s), eng.tok(t), fr.upper() if isinstance(fr, str) else eng.tok(fr)) + tuple(eng.tok(Tup([n, v])) for (n, _), v in zip(opts, o)), arr=True)
        TYPES[alg.sid(r)] = 'dti'
        return r
    return apply(f, d.get('start'), d.get('end'), *[v for _, v in opts])


def opaque_np(eng, nm, a, k, node):
    args = [seq(eng, x) for x in a] + [Tup([kk, v]) for kk, v in sorted(k.items())]
    args = [fn('mask', (I.CondTok(x),), arr=True) if isinstance(x, Node) and is_mask(x) else x for x in args]
    if nm == 'cumsum' and len(args) == 1:
        return eng.arith(lambda y: lin_sum('cumsum', y, None), args, node) if not isinstance(args[0], Tup) else cums(eng, args[0], node)
    if nm == 'unique' and len(args) == 1 and isinstance(args[0], Tup) and eng.exact_shapes and all(isinstance(x, Expr) and x.is_const() for x in args[0].items):
        return Tup([num(x) for x in sorted({x.const() for x in args[0].items})])
    given = lambda x: isinstance(x, Tup) and all(isinstance(y, Expr) and y.is_const() for y in x.items)
    if nm == 'union1d' and len(args) == 2 and eng.exact_shapes and all(given(x) for x in args):
        return Tup([num(y) for y in sorted({y.const() for x in args for y in x.items})])
    if nm == 'searchsorted' and len(a) == 2 and given(args[0]) and isinstance(args[1], Expr) and args[1].is_const() and set(k) <= {'side'} and k.get('side', 'left') in ('left', 'right'):
        import bisect
        return num((bisect.bisect_left if k.get('side', 'left') == 'left' else bisect.bisect_right)([y.const() for y in args[0].items], args[1].const()))
    if nm in ('argmax', 'argmin') and len(args) == 1 and isinstance(args[0], Tup) and args[0].items and (given(args[0]) or all(isinstance(y, bool) for y in args[0].items)):
        ys = [y if isinstance(y, bool) else y.const() for y in args[0].items]
        return num(ys.index((max if nm == 'argmax' else min)(ys)))
    if nm == 'outer' and len(args) == 2 and eng.exact_shapes and all(isinstance(x, Tup) and not any(isinstance(y, Tup) for y in x.items) for x in args):
        return Tup([Tup([eng.arith(alg.mul, [x, y], node) for y in args[1].items]) for x in args[0].items])
    one_value = lambda x: not any(ATOMS[y].arr for y in alg.atoms_of(x))
    if nm == 'repeat' and len(args) == 2 and isinstance(args[1], Expr) and one_value(args[1]):
        x = args[0]
        if isinstance(x, Tup) and len(x.items) == 1:
            x = x.items[0]
        if isinstance(x, Expr) and one_value(x):
            if eng.exact_shapes:
                return carr(x, [args[1]], {}, eng, node)
            return x
        if isinstance(x, Tup) and args[1].is_const():
            return Tup([y for y in x.items for _ in range(int(args[1].const()))])
    if nm == 'prod' and isinstance(args[0], Tup):
        return fold(eng, alg.mul, list(args[0].items), node)
    if nm == 'count_nonzero':
        return eng.opaque('count', *args, arr=False, nonneg=True)
    if nm == 'round' and len(args) == 1:
        return eng.opaque('round', *args)
    return eng.opaque('np.' + nm, *args, arr=True)


def cums(eng, t, node):
    out, acc = [], None
    for x in t.items:
        acc = x if acc is None else eng.arith(alg.add, [acc, x], node)
        out.append(acc)
    return Tup(out)


@ext('numpy.fromiter')
def _fromiter(eng, a, k, node):
    return call_ext(eng, 'numpy.array', [call_ext(eng, 'builtins.list', [a[0]], {}, node)], {}, node)


@ext('builtins.round')
def _round(eng, a, k, node):
    def f(x):
        if isinstance(x, Expr) and x.is_const() and len(a) == 1:
            return num(round(x.const()))
        if isinstance(x, Expr) and integral(x):
            return x
        return fn('round', tuple([eng.tok(x)] + [eng.tok(y) for y in a[1:]]))
    return lift1(f, a[0])


@ext('builtins.divmod')
def _divmod(eng, a, k, node):
    return Tup([eng.arith(floordiv, a, node), eng.arith(mod, a, node)])


# matrices of known small size

def matmul(eng, a, b, node):
    a, b = seq(eng, a), seq(eng, b)
    if isinstance(a, Tup) and a.items and isinstance(a.items[0], Tup):
        if isinstance(b, Tup) and b.items and isinstance(b.items[0], Tup):
            bt = transpose(b)
            return Tup([Tup([fold(eng, alg.add, [eng.arith(alg.mul, [x, y], node) for x, y in zip(r.items, c.items)], node) for c in bt.items]) for r in a.items])
        if isinstance(b, Tup):
            return Tup([fold(eng, alg.add, [eng.arith(alg.mul, [x, y], node) for x, y in zip(r.items, b.items)], node) for r in a.items])
    if isinstance(a, Tup) and isinstance(b, Tup):
        return fold(eng, alg.add, [eng.arith(alg.mul, [x, y], node) for x, y in zip(a.items, b.items)], node)
    return eng.opaque('matmul', a, b, arr=True)


E['numpy.matmul'] = E['numpy.dot'] = lambda eng, a, k, node: matmul(eng, a[0], a[1], node)
E['numpy.transpose'] = lambda eng, a, k, node: lift1(lambda x: transpose(x) if isinstance(x, Tup) else fn('T', (x,), arr=True), seq(eng, a[0]))


@ext('numpy.linalg.cholesky', 'scipy.linalg.cholesky')
def _chol(eng, a, k, node):
    m = seq(eng, a[0])
    if isinstance(m, Tup) and m.items and all(isinstance(r, Tup) for r in m.items):
        n = len(m.items)
        L = [[num(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = m.items[i].items[j]
                for q in range(j):
                    s = alg.add(s, alg.scale(alg.mul(L[i][q], L[j][q]), -1))
                L[i][j] = alg.sqrt(s) if i == j else alg.div(s, L[j][j])
        t = Tup([Tup(r) for r in L])
        if node is not None and 'scipy' in ast.unparse(node.func) and k.get('lower') is not True:
            t = transpose(t)
        return t
    return fn('chol', (eng.tok(m),), arr=True)


# random numbers: every call is a fresh opaque draw tagged by distribution
@ext('numpy.random.seed')
def _seed(eng, a, k, node):
    eng.extcalls.append(('numpy.random.seed', a, k, eng.st.pc, eng.where(node)))
    return None


def _draw(dist):
    def f(eng, a, k, node):
        eng.extcalls.append(('numpy.random.' + dist, a, k, eng.st.pc, eng.where(node)))
        n = sum(1 for c in eng.extcalls if c[0].startswith('numpy.random.') and c[0] != 'numpy.random.seed')
        return fn('rand.' + dist, (num(n),) + tuple(eng.tok(x) for x in a), arr=True)
    return f


for _n in ('normal', 'standard_normal', 'randn', 'uniform', 'rand', 'random', 'poisson', 'gamma', 'noncentral_chisquare', 'choice', 'multivariate_normal', 'exponential', 'chisquare'):
    E['numpy.random.' + _n] = _draw(_n)


# ------------------------------------------------------------------ higher order numerics

class FnVal:
    """a callable passed to a numerical routine, recorded for the checks"""


def norm_callable(eng, f, nargs=1, node=None, names=None):
    """evaluate a callable at canonical bound variables -> value"""
    bs = [sym('@b%d' % i, pos=False) for i in range(nargs)]
    return bs, eng.call(f, bs, {}, node)


def solver(kind):
    def f(eng, a, k, node):
        return solver_call(eng, kind, a, k, node)
    return f


PARAMS = {'root_scalar': ['f', 'args', 'method', 'bracket', 'fprime', 'fprime2', 'x0', 'x1', 'xtol', 'rtol', 'maxiter', 'options'],
          'newton': ['func', 'x0', 'fprime', 'args', 'tol', 'maxiter'],
          'brentq': ['f', 'a', 'b', 'args', 'xtol', 'rtol', 'maxiter'],
          'minimize': ['fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options'],
          'minimize_scalar': ['fun', 'bracket', 'bounds', 'args', 'method', 'tol', 'options'],
          'least_squares': ['fun', 'x0', 'jac', 'bounds'], 'fsolve': ['func', 'x0', 'args'], 'differential_evolution': ['func', 'bounds'],
          'root': ['fun', 'x0', 'args', 'method'], 'dual_annealing': ['func', 'bounds'], 'basinhopping': ['func', 'x0']}


METHODS = {'minimize': {'nelder-mead', 'powell', 'cg', 'bfgs', 'newton-cg', 'l-bfgs-b', 'tnc', 'cobyla', 'cobyqa', 'slsqp', 'trust-constr', 'dogleg', 'trust-ncg', 'trust-exact', 'trust-krylov'},
           'minimize_scalar': {'brent', 'bounded', 'golden'},
           'root_scalar': {'bisect', 'brentq', 'brenth', 'ridder', 'toms748', 'newton', 'secant', 'halley'}}


def solver_call(eng, kind, a, k, node):
    bound = dict(zip(PARAMS.get(kind, []), a))
    bound.update(k)
    bound = {n: vals.prune(v, eng.st.pc) if isinstance(v, Node) else v for n, v in bound.items()}
    fnode = bound.get('f', bound.get('func', bound.get('fun')))
    rec = {'kind': kind, 'f': fnode, 'args': bound, 'pc': eng.st.pc, 'where': eng.where(node), 'state': eng.st.copy()}
    eng.solvers.append(rec)
    rec['frames'] = list(eng.frames)
    if kind in METHODS and isinstance(bound.get('method'), str) and bound['method'].lower() not in METHODS[kind]:
        eng.do_raise('ValueError: Unknown solver %s' % bound['method'], node, 'ValueError', implicit=True)
        raise I.Dead()
    body = eval_callable(eng, rec)
    rec['body'] = vals.prune(body, rec['pc']) if isinstance(body, Node) else body
    # an exception raised by the objective leaves the solver and reaches the enclosing handlers
    if eng.tries:
        seen = set()
        for r in rec.get('craises', ()):
            if r[3] in (None, 'AssertionError') or len(r) < 6 or r[3] in seen:
                continue
            seen.add(r[3])
            stx = eng.st.copy()
            stx.pc = vals.b_and(stx.pc, cond('exc', 'objective:' + r[3], len(eng.solvers)))
            if stx.pc is not False:
                eng.tries[-1].append((stx, r[3], list(r[5])))
    n = len(eng.solvers)
    tokb = bodytok(eng, body, fnode)
    if kind == 'brentq':
        br = [bound.get('a'), bound.get('b')]
    else:
        br = bound.get('bracket')
        br = (br.items if isinstance(br, Tup) else eng.rec(br).items) if isinstance(br, (Tup, Ref)) else None
    rec['bracket'] = br
    btok = tuple(eng.tok(x) for x in br) if br and len(br) == 2 else ()
    if kind in ('newton', 'brentq', 'fsolve'):
        r = fn('root:' + kind, (tokb,) + btok, arr=kind != 'brentq')
        rec['result'] = r
        return r
    root = fn('root:' + kind, (tokb,) + btok, arr=kind not in ('root_scalar', 'minimize_scalar'))
    rec['result'] = root
    if kind == 'minimize' and isinstance(bound.get('x0'), Expr) and not alg.is_arr(bound['x0']):
        vals.LENGTH[alg.sid(root)] = 1
    nparam = rec.get('nparam')
    obj = eng.alloc(I.Rec('obj', f={'root': root, 'x': root if kind != 'minimize' else (root if nparam is None else Tup([fn('sel', (root, num(i)), arr=False) for i in range(nparam)]))},
                          base=fn('solution:' + kind, (tokb,), arr=True)))
    return obj


def bodytok(eng, body, fnode):
    if isinstance(body, Expr):
        return body
    t = eng.tok(body) if body is not None else eng.tok(fnode)
    return t


def eval_callable(eng, rec, at=None):
    """value of the solver's callable at the bound variable (side effects are discarded)"""
    f = rec['f']
    saved = eng.st
    marks = (len(eng.raises), len(eng.asserts), len(eng.solvers), len(eng.unsup))
    old = eng.tries
    eng.tries = ()
    eng.st = saved.copy()
    try:
        if at is None:
            x0 = rec['args'].get('x0')
            n = None
            if rec['kind'] in ('minimize', 'least_squares', 'differential_evolution', 'root'):
                its = to_items(eng, x0) if not isinstance(x0, Node) else None
                bd = rec['args'].get('bounds')
                bits = to_items(eng, bd) if isinstance(bd, (Ref, Tup)) else None
                if its is not None:
                    n = len(its)
                elif isinstance(x0, Node):
                    ls = [l for _, l in vals.leaves(x0)]
                    if all(isinstance(l, Tup) for l in ls) and len({len(l.items) for l in ls}) == 1:
                        n = len(ls[0].items)
                elif bits is not None:
                    n = len(bits)
            if n is not None:
                rec['nparam'] = n
                at = Tup([sym('@x%d' % i, pos=False) for i in range(n)])
            else:
                at = sym('@x', pos=False)
        extra = rec['args'].get('args')
        ex = list(extra.items) if isinstance(extra, Tup) else ([extra] if extra is not None else [])
        rec['at'] = at
        try:
            v = eng.call(f, [at] + ex, {}, None)
        except I.Dead:
            v = UNDEF
        rec['craises'] = eng.raises[marks[0]:]
        return v
    except I.CallError as e:
        return UNDEF
    finally:
        eng.st = saved
        eng.tries = old
        del eng.raises[marks[0]:]


for _n in ('root_scalar', 'newton', 'brentq', 'minimize', 'minimize_scalar', 'least_squares', 'fsolve', 'differential_evolution', 'root', 'dual_annealing', 'basinhopping'):
    E['scipy.optimize.' + _n] = solver(_n)


@ext('scipy.integrate.simpson', 'scipy.integrate.simps', 'scipy.integrate.trapezoid', 'scipy.integrate.trapz', 'numpy.trapz', 'numpy.trapezoid')
def _two_point(eng, a, k, node):
    d = bind_ext(('y', 'x', 'dx', 'axis'), a, k)
    y, x, dx = d.get('y'), d.get('x'), d.get('dx', num(1))
    y = seq(eng, y) if isinstance(y, Ref) else y
    x = seq(eng, x) if isinstance(x, Ref) else x
    ax = d.get('axis')
    if isinstance(y, Tup) and len(y.items) == 2 and (x is None or isinstance(x, Tup) and len(x.items) == 2) and (ax is None or isinstance(ax, Expr) and ax.is_const()):
        h = eng.binop(ast.Sub(), x.items[1], x.items[0], node) if x is not None else dx
        return eng.binop(ast.Mult(), eng.binop(ast.Mult(), num(Fr(1, 2)), h, node), eng.binop(ast.Add(), y.items[0], y.items[1], node), node)
    return eng.opaque('integrate', *[Tup([n, seq(eng, v)]) for n, v in sorted(d.items())], arr=True)


@ext('scipy.integrate.fixed_quad')
def _fixed_quad(eng, a, k, node):
    r = _quad(eng, list(a[:4]), dict(k), node)
    n = a[4] if len(a) > 4 else k.get('n', num(5))
    return Tup([apply(lambda v: fn('fixed_quad', (v, eng.tok(n)), arr=False) if isinstance(v, Expr) else v, r.items[0]), None])


@ext('scipy.integrate.quad', 'scipy.integrate.quad_vec', 'scipy.integrate.romberg')
def _quad(eng, a, k, node):
    a = list(a)
    k = dict(k)
    for i, nm in enumerate(('func', 'a', 'b', 'args')):
        if i < len(a):
            k.setdefault(nm, a[i])
    f = k['func']
    depth = getattr(eng, '_qdepth', 0)
    eng._qdepth = depth + 1
    b = sym('@q%d' % depth, pos=False)
    extra = k.get('args')
    try:
        body = eng.call(f, [b] + (list(extra.items) if isinstance(extra, Tup) else []), {}, node)
    finally:
        eng._qdepth = depth
    lo = k.get('a')
    hi = k.get('b')
    eng.extcalls.append(('scipy.integrate.quad', [body, lo, hi], k, eng.st.pc, eng.where(node)))

    def g(bd, l, h):
        if not isinstance(bd, Expr):
            return eng.unsupported('quad body', node, bd)
        return fn('integral' if not loose else 'roughly', (bd, b, l, h), real=not alg.is_complex(bd), arr=False)
    loose = any(isinstance(k.get(n), Expr) and k[n].is_const() and k[n].const() > Fr(1, 10 ** 6) for n in ('epsabs', 'epsrel', 'tol', 'rtol')) \
        or isinstance(k.get('limit'), Expr) and k['limit'].is_const() and k['limit'].const() < 20
    v = apply(g, body, eng.num_leaf(lo) if not isinstance(lo, Node) else lo, eng.num_leaf(hi) if not isinstance(hi, Node) else hi)
    return Tup([v, fn('quaderr', (eng.tok(v),))])


def _interpolator(nm):
    E['scipy.interpolate.' + nm] = lambda eng, a, k, node: _interp1d(nm, eng, a, k, node)


for _nm in ('interp1d', 'CubicSpline', 'PchipInterpolator', 'Akima1DInterpolator', 'UnivariateSpline', 'InterpolatedUnivariateSpline', 'make_interp_spline'):
    _interpolator(_nm)


def _interp1d(nm, eng, a, k, node):
    P = {'interp1d': ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value'], 'CubicSpline': ['x', 'y', 'axis', 'bc_type', 'extrapolate'],
         'InterpolatedUnivariateSpline': ['x', 'y', 'w', 'bbox', 'k', 'ext', 'check_finite'], 'UnivariateSpline': ['x', 'y', 'w', 'bbox', 'k', 's', 'ext', 'check_finite'], 'make_interp_spline': ['x', 'y', 'k', 't', 'bc_type', 'axis', 'check_finite']}
    b = dict(zip(P.get(nm, ['x', 'y']), a))
    b.update(k)
    if nm in ('InterpolatedUnivariateSpline', 'UnivariateSpline'):
        b.setdefault('k', num(3))
    if nm == 'interp1d':
        b.setdefault('kind', 'linear')
        if b['kind'] is None:
            b['kind'] = 'linear'
    eng.extcalls.append(('scipy.interpolate.' + nm, a, b, eng.st.pc, eng.where(node)))
    x, y = seq(eng, b.get('x')), seq(eng, b.get('y'))
    opts = tuple(sorted((kk, v) for kk, v in b.items() if kk not in ('x', 'y', 'assume_sorted', 'copy')))
    rec = I.Rec('obj', f={'x': x, 'y': y}, base=None)
    ref = eng.alloc(rec)

    def call_interp(eng2, aa, kk, nd):
        q = seq(eng2, aa[0])
        name = 'interp:' + nm + ':' + ','.join('%s=%s' % (o, optstr(eng2, v)) for o, v in opts if o not in ('bounds_error',))
        der = ''
        if len(aa) > 1 or kk.get('nu') is not None:
            der = optstr(eng2, aa[1] if len(aa) > 1 else kk['nu'])
        return eng2.opaque(name + (':d' + der if der not in ('', '0') else ''), q, x, y, arr=True)
    c = I.PyFn(call_interp, 'interp')
    c.vkey = ('interp', nm, vkey(x) if not isinstance(x, Ref) else 0, vkey(y), tuple((o, optstr(eng, v)) for o, v in opts))
    c.info = {'kind': nm, 'x': x, 'y': y, 'opts': dict(opts)}

    def deriv(eng2, aa, kk, nd):
        def call_d(eng3, a3, k3, n3):
            return eng3.opaque('interp:' + nm + ':' + ','.join('%s=%s' % (o, optstr(eng3, v)) for o, v in opts if o not in ('bounds_error',)) + ':d1', seq(eng3, a3[0]), x, y, arr=True)
        return I.PyFn(call_d, 'dinterp')
    c.derivative = deriv
    return InterpObj(c, deriv)


def InterpObj(c, deriv):
    return c


def optstr(eng, v):
    if isinstance(v, Expr):
        return alg.show(v)
    if isinstance(v, Tup):
        return '(' + ','.join(optstr(eng, x) for x in v.items) + ')'
    return str(v)


@ext('pandas.DataFrame')
def _df(eng, a, k, node):
    data = a[0] if a else k.get('data')
    cols = k.get('columns', a[2] if len(a) > 2 else None)
    ck = eng.known_iter(cols) if isinstance(cols, (Ref, Tup)) else None
    r = I.Rec('df')
    if isinstance(data, Ref):
        d = eng.rec(data)
        if d.kind == 'dict' and d.base is None:
            for kk, v in d.f.values():
                v = eng.maplift(v)
                if isinstance(v, Ref) and eng.rec(v).kind == 'list' and eng.plain_items(v):
                    v = Tup(eng.rec(v).items)
                r.f[kk if isinstance(kk, str) else vkey(kk)] = v
        elif d.kind == 'df':
            r = d.copy()
            if ck is not None:
                r.f = {c: d.f.get(c, fn('nan', ())) for c in ck}
        elif d.kind == 'list' and d.items is not None and len(d.items) == 1 and isinstance(d.items[0], I.MapSeg):
            m = d.items[0]
            v = m.val
            if isinstance(v, Tup) and ck is not None and len(ck) == len(v.items):
                for c, x in zip(ck, v.items):
                    r.f[c] = eng.unsel(x, m.loop.var, None, None)
            elif isinstance(v, Ref) and eng.rec(v).kind == 'dict':
                for kk, x in eng.rec(v).f.values():
                    r.f[kk] = eng.unsel(x, m.loop.var, None, None)
            elif isinstance(v, Ref) and eng.rec(v).kind == 'list' and ck is not None and eng.plain_items(v) and len(eng.rec(v).items) == len(ck):
                for c, x in zip(ck, eng.rec(v).items):
                    r.f[c] = eng.unsel(x, m.loop.var, None, None)
            elif ck is not None and len(ck) == 1:
                r.f[ck[0]] = eng.lift_map(m)
            else:
                r.base = fn('df', (eng.tok(data),), arr=True)
        elif d.kind == 'list' and eng.plain_items(data) and d.items and all(isinstance(x, Ref) and eng.rec(x).kind == 'dict' and eng.rec(x).base is None for x in d.items):
            cols_ = list(ck) if ck is not None else []
            for x in d.items:
                for kk, _ in (() if ck is not None else eng.rec(x).f.values()):
                    if kk not in cols_:
                        cols_.append(kk)
            for c in cols_:
                r.f[c if isinstance(c, str) else vkey(c)] = Tup([eng.rec(x).f[vkey(c)][1] if vkey(c) in eng.rec(x).f else fn('nan', ()) for x in d.items])
        elif d.kind == 'list' and eng.plain_items(data) and ck is not None and d.items and all(isinstance(x, (Tup,)) or (isinstance(x, Ref) and eng.rec(x).kind == 'list') for x in d.items):
            rows = [to_items(eng, x) for x in d.items]
            if all(x is not None and len(x) == len(ck) for x in rows):
                for j, c in enumerate(ck):
                    r.f[c if isinstance(c, str) else vkey(c)] = Tup([x[j] for x in rows])
            else:
                r.base = fn('df', (eng.tok(data),), arr=True)
        else:
            if ck is not None and len(ck) == 1:
                s = seq(eng, data)
                r.f[ck[0]] = s
            elif d.kind == 'list' and not d.items and d.base is None:
                pass
            else:
                r.base = fn('df', (eng.tok(data),), arr=True)
                if ck is not None:
                    for j, c in enumerate(ck):
                        r.f[c if isinstance(c, str) else vkey(c)] = fn('col', (r.base, num(j)), arr=True)
                    r.base = None
    elif isinstance(data, (Expr, I.ArrW, Node, Tup)):
        if isinstance(data, I.ArrW):
            data = eng.num_leaf(data)
        if isinstance(data, Tup) and ck is not None and all(isinstance(x, Tup) for x in data.items):
            for j, c in enumerate(ck):
                r.f[c] = Tup([x.items[j] if j < len(x.items) else UNDEF for x in data.items])
        elif ck is not None and len(ck) == 1:
            r.f[ck[0] if isinstance(ck[0], str) else vkey(ck[0])] = data
        else:
            r.base = fn('df', (eng.tok(data),), arr=True)
            if isinstance(data, Expr) and data.single() and ATOMS[next(iter(data.t))[0][0]].name == 'column_stack' and ck is not None:
                at = ATOMS[next(iter(data.t))[0][0]]
                for c, x in zip(ck, at.args):
                    r.f[c if isinstance(c, str) else vkey(c)] = x
                r.base = None
            elif ck is not None:
                for j, c in enumerate(ck):
                    r.f[c if isinstance(c, str) else vkey(c)] = fn('col', (r.base, num(j)), arr=True)
    elif data is None and ck is not None:
        for c in ck:
            r.f[c if isinstance(c, str) else vkey(c)] = fn('nan', ())
    if k.get('index') is not None:
        r.f['@index'] = k['index']
        r.f.pop('@index')
        r.extra = {'index': k['index']}
    return eng.alloc(r)


def r_tok(eng, parts):
    return eng.tok(Tup([eng.tok(p) for p in parts]))


def one_value(v):
    if isinstance(v, Node):
        return all(one_value(x) for _, x in vals.leaves(v))
    return isinstance(v, (str, bool, EnumMember)) or isinstance(v, Expr) and not alg.is_arr(v)


def rows_kept(eng, r, name, kwargs, node):
    """which rows of a frame of known size are left without missing values or repeated rows"""
    n = frame_rows(eng, r)
    cols = kwargs.get('subset')
    cols = [cols] if isinstance(cols, str) else list(r.f) if cols is None else eng.known_iter(cols)
    if cols is None or any(c not in r.f for c in cols) or set(kwargs) - {'subset', 'keep', 'how', 'inplace', 'ignore_index'}:
        raise I.Unsupported(name + ' of unknown columns')
    rows = [[(r.f[c].items[i] if isinstance(r.f[c], Tup) else r.f[c]) for c in cols] for i in range(n)]
    if name == 'dropna':
        out = []
        for row in rows:
            g = [call_ext(eng, 'pandas.isna', [v], {}, node) for v in row]
            if not all(isinstance(x, bool) for x in g):
                raise I.Unsupported('dropna of values that may be missing')
            out.append(not (all(g) if kwargs.get('how') == 'all' else any(g)))
        return out

    def alike(x, y):
        if vals.vkey(x) == vals.vkey(y):
            return True
        if isinstance(x, Expr) and isinstance(y, Expr):
            if lt0(alg.add(x, alg.scale(y, -1))) is True or lt0(alg.add(y, alg.scale(x, -1))) is True or vals.eq0(alg.add(x, alg.scale(y, -1))) is False:
                return False
        elif isinstance(x, (str, bool, EnumMember)) and isinstance(y, (str, bool, EnumMember)):
            return False
        raise I.Unsupported('whether rows repeat')
    keep = kwargs.get('keep', 'first')
    same_ = lambda i, j: all(alike(x, y) for x, y in zip(rows[i], rows[j]))
    if keep == 'first':
        return [not any(same_(i, j) for j in range(i)) for i in range(n)]
    if keep == 'last':
        return [not any(same_(i, j) for j in range(i + 1, n)) for i in range(n)]
    return [not any(same_(i, j) for j in range(n) if j != i) for i in range(n)]


def frame_rows(eng, x):
    """number of rows of a frame of known size, or None"""
    if x.base is not None or not x.f:
        return None
    ns = {len(v.items) for v in x.f.values() if isinstance(v, Tup)}
    if len(ns) == 1 and all(isinstance(v, Tup) or one_value(v) for v in x.f.values()):
        return ns.pop()
    if not ns and all(one_value(v) and not isinstance(v, (str, bool, EnumMember)) for v in x.f.values()):
        ix = (x.extra or {}).get('index')
        if isinstance(ix, Ref) and eng.plain_items(ix):
            ix = Tup(eng.rec(ix).items)
        if isinstance(ix, Tup):
            return len(ix.items)
    return None


@ext('pandas.concat')
def _pdconcat(eng, a, k, node):
    parts = to_items(eng, a[0] if a else k.get('objs'))
    if parts is None:
        return eng.alloc(I.Rec('df', base=fn('pdconcat', (eng.tok(a[0]),), arr=True)))
    for i, p in enumerate(parts):
        if isinstance(p, Node):
            return lift1(lambda x: x if x is UNDEF else _pdconcat(eng, [Tup(parts[:i] + [x] + parts[i + 1:])], {c: v for c, v in k.items() if c != 'objs'}, node), p)
    ax = k.get('axis')
    recs = [eng.rec(p) for p in parts if isinstance(p, Ref)]
    r = I.Rec('df', base=fn('pdconcat', tuple(eng.tok(p) for p in parts), arr=True))
    r.extra = {'concat': list(parts)}
    if len(recs) == len(parts) and all(x.kind == 'df' for x in recs):
        if isinstance(ax, Expr) and ax.t or ax == 'columns':
            for x in recs:
                r.f.update(x.f)
        else:
            known = [frame_rows(eng, x) for x in recs]
            if all(n is not None for n in known):
                # the rows are known: a column missing from a part is missing in its rows
                for c in dict.fromkeys(c for x in recs for c in x.f):
                    out = []
                    for x, n in zip(recs, known):
                        v = x.f.get(c, fn('nan', ()))
                        out += list(v.items) if isinstance(v, Tup) else [v] * n
                    r.f[c] = Tup(out)
                r.base = None
                r.extra = {'concat': list(parts)} if k.get('ignore_index') is True else {'concat': list(parts), 'index': fn('concatindex', (r_tok(eng, parts),), arr=True)}
                return eng.alloc(r)
            for c in recs[0].f:
                if all(c in x.f or x.base is not None for x in recs):
                    ps = tuple(x.f.get(c) if c in x.f else eng.df_missing(x, c) for x in recs)
                    r.f[c] = concat_parts(eng, [p if isinstance(p, Tup) or not isinstance(eng.any_leaf(p), Expr) or alg.is_arr(eng.any_leaf(p)) else Tup([p]) for p in ps])
            if all(x.base is None for x in recs) and all(set(x.f) == set(recs[0].f) for x in recs):
                r.base = None
                r.extra = dict(recs[-1].extra or {}, concat=list(parts))
    return eng.alloc(r)


@ext('pandas.merge')
def _pdmerge(eng, a, k, node):
    return df_method(eng, a[0], eng.rec(a[0]) if isinstance(a[0], Ref) else I.Rec('df'), 'merge', list(a[1:]), k, node)


@ext('pandas.DateOffset', 'dateutil.relativedelta.relativedelta', 'pandas.Timedelta', 'numpy.timedelta64', 'datetime.timedelta', 'pandas.tseries.offsets.DateOffset', 'pandas.offsets.DateOffset')
def _offset(eng, a, k, node):
    nm = ast.unparse(node.func).split('.')[-1] if isinstance(node, ast.Call) else 'offset'
    if nm in ('timedelta64', 'Timedelta', 'timedelta'):
        unit = a[1] if len(a) > 1 else k.get('unit')
        n = a[0] if a else k.get('days', k.get('value'))
        if not a and 'days' in k:
            unit = 'D'
        if nm == 'timedelta' and a:
            unit = 'D'
        if unit in ('D', 'd', 'days', 'day'):
            return eng.arith(lambda x: alg.mul(x, sym('@day')), [n], node)
        return eng.opaque('timedelta', n, unit)
    # calendar offsets: months and years combine, zero offsets vanish
    out = None
    unitnames = {'years': 12, 'months': 1}
    m = None
    d = num(0)
    for kk, v in k.items():
        if kk in unitnames:
            t = eng.arith(lambda x, c=unitnames[kk]: alg.scale(x, c), [v], node)
            m = t if m is None else eng.arith(alg.add, [m, t], node)
        elif kk in ('days', 'weeks'):
            d = eng.arith(lambda x, y, c=(7 if kk == 'weeks' else 1): alg.add(x, alg.scale(alg.mul(y, sym('@day')), c)), [d, v], node)
        else:
            d = eng.arith(alg.add, [d, eng.opaque('offset:' + kk, v)], node)
    if m is not None:
        mo = lift1(lambda x: num(0) if not x.t else alg.scale(fn('months', (alg.scale(x, -1),)), -1) if alg._lead_sign(x) < 0 else fn('months', (x,)), m)
        d = eng.arith(alg.add, [d, mo], node)
    if isinstance(d, Expr):
        eng.w.offsets.setdefault(vkey(d), []).append({kk: v for kk, v in k.items() if not (isinstance(v, Expr) and not v.t)})
    return d


@ext('pandas.to_timedelta')
def _to_timedelta(eng, a, k, node):
    unit = a[1] if len(a) > 1 else k.get('unit')
    if unit in ('D', 'd', 'days', 'day') and a and isinstance(eng.any_leaf(seq(eng, a[0])), Expr):
        return eng.arith(lambda x: alg.mul(x, sym('@day')), [seq(eng, a[0])], node)
    return eng.opaque('timedelta', *a, unit)


def offset_kwds(eng, o):
    """DateOffset.kwds: the units it was made from"""
    made = eng.w.offsets.get(vkey(o), [])
    if made and all(sorted(x) == sorted(made[0]) and all(vkey(x[q]) == vkey(made[0][q]) for q in x) for x in made):
        return eng.new_dict(list(made[0].items()))
    return None


# ------------------------------------------------------------------ call dispatcher

def set_op(eng, op, a, b, node):
    ia, ib = to_items(eng, a), to_items(eng, b)
    if ia is None or ib is None:
        return eng.unsupported('setop', node, a, b)
    kb = {vkey(x) for x in ib}
    ka = {vkey(x) for x in ia}
    if isinstance(op, ast.BitAnd):
        r = [x for x in ia if vkey(x) in kb]
    elif isinstance(op, ast.BitOr):
        r = ia + [x for x in ib if vkey(x) not in ka]
    elif isinstance(op, ast.Sub):
        r = [x for x in ia if vkey(x) not in kb]
    else:
        r = [x for x in ia if vkey(x) not in kb] + [x for x in ib if vkey(x) not in ka]
    return eng.alloc(I.Rec('set', items=r))


EXCS = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'NotImplementedError', 'StopIteration', 'IndexError', 'AssertionError'}

DRAWS = set(n for n in E if n.startswith('numpy.random.') and n != 'numpy.random.seed')


# leading parameters that the models above read by position
DATA_ARGS = {'numpy.' + n: ns for names, ns in (
    (('linspace', 'arange', 'logspace', 'geomspace'), ('start', 'stop')),
    (('sum', 'mean', 'max', 'min', 'amax', 'amin', 'prod', 'cumsum', 'cumprod', 'any', 'all', 'std', 'var', 'median', 'nanmean', 'nansum', 'round', 'around', 'argmin', 'argmax', 'argsort',
      'sort', 'diff', 'clip', 'repeat', 'count_nonzero', 'reshape', 'squeeze', 'ravel', 'shape', 'size', 'ndim', 'copy', 'transpose', 'roll', 'tile', 'nonzero', 'flip'), ('a',)),
    (('array', 'asarray'), ('object',)), (('full',), ('shape', 'fill_value')), (('full_like',), ('a', 'fill_value')), (('zeros', 'ones', 'empty'), ('shape',)),
    (('zeros_like', 'ones_like', 'empty_like'), ('a',)), (('where',), ('condition', 'x', 'y')), (('concatenate', 'hstack', 'vstack', 'stack'), ('arrays',)),
    (('append',), ('arr', 'values')), (('isclose', 'allclose'), ('a', 'b')), (('dot', 'matmul', 'inner', 'outer'), ('a', 'b')), (('interp',), ('x', 'xp', 'fp')),
    (('column_stack',), ('tup',)), (('array_equal',), ('a1', 'a2')), (('roots',), ('p',)), (('trapz', 'trapezoid'), ('y', 'x')), (('broadcast_to',), ('array', 'shape'))) for n in names}
for _n in ('numpy.round', 'numpy.around'):
    DATA_ARGS[_n] = ('a', 'decimals')


def whole_round(eng, a, k, node):
    """numbers known are rounded"""
    if not k and len(a) == 1:
        if isinstance(a[0], Expr) and a[0].is_const():
            return num(round(a[0].const()))
        if isinstance(a[0], Tup) and a[0].items and all(isinstance(x, Expr) and x.is_const() for x in a[0].items):
            return Tup([num(round(x.const())) for x in a[0].items])
    return opaque_np(eng, 'round', a, k, node)


for _n in ('numpy.round', 'numpy.around', 'numpy.rint'):
    E[_n] = whole_round


def call_ext(eng, name, a, k, node):
    q = name
    ov = eng.overrides.get('ext:' + q)
    if ov is not None:
        r = ov(eng, a, k, node)
        if r is not NotImplemented:
            return r
    f = E.get(q)
    if k and q in DATA_ARGS:
        ns = DATA_ARGS[q]
        while len(a) < len(ns) and ns[len(a)] in k:
            k = dict(k)
            a = list(a) + [k.pop(ns[len(a)])]
    if f is not None:
        if 'out' in k or 'where' in k and q != 'numpy.where':
            eng.unsup.append('ufunc out/where at ' + (eng.where(node) if node is not None else '?'))
        return f(eng, a, k, node)
    eng.extcalls.append((q, list(a), dict(k), eng.st.pc, eng.where(node) if node is not None else '?'))
    if q.startswith('builtins.') and q.split('.')[-1] in EXCS or q.endswith(('Error', 'Exception', 'Warning')):
        return fn('exc:' + q, ())
    if q.startswith(('typing.', 'numpy.typing', 'dataclasses.', 'matplotlib', 'tabulate', 'numba', 'os.', 'sys.', 'functools.', 'abc.')):
        if q in ('numba.njit', 'numba.jit', 'functools.lru_cache', 'functools.cache', 'functools.wraps', 'dataclasses.dataclass'):
            if a and isinstance(a[0], (I.Func, I.Bound)):
                return a[0]
        if q == 'functools.partial' and a:
            f0, pa, pk = a[0], list(a[1:]), dict(k)
            pf = I.PyFn(lambda e2, aa, kk, nd: e2.call(f0, pa + list(aa), dict(pk, **kk), nd), 'partial')
            pf.vkey = ('partial', vkey(f0), tuple(vkey(x) for x in pa), tuple((x, vkey(y)) for x, y in sorted(pk.items())))
            return pf
        if q == 'functools.reduce' and len(a) >= 2:
            its = to_items(eng, a[1])
            if its is not None:
                acc = a[2] if len(a) > 2 else its.pop(0)
                for x in its:
                    acc = eng.call(a[0], [acc, x], {}, node)
                return acc
    args = [seq(eng, x) for x in a] + [Tup([kk, seq(eng, v)]) for kk, v in sorted(k.items())]
    args = [fn('mask', (I.CondTok(x),), arr=True) if isinstance(x, Node) and is_mask(x) else x for x in args]
    return eng.opaque('ext:' + q, *args, arr=True)


I.LocV = LocV


# ---- strings: a run of digits of any length is one private-use character whose value is vals.DIGITS[char]
import re as _re
try:
    import re._parser as _sre
except ImportError:
    import sre_parse as _sre
PUA = '\ue000-\ue0ff'


def digits(name):
    """a string standing for the decimal digits of the integer `name`"""
    ch = chr(0xe000 + len(vals.DIGITS))
    x = sym(name, pos=True)
    vals.DIGITS[ch] = x
    return ch, x


def has_digits(s):
    return any('\ue000' <= ch <= '\ue0ff' for ch in s)


def digit_pattern(p, flags=0):
    """the pattern with runs of digits also matching the placeholders; Unsupported when a placeholder could match otherwise"""
    def cls(av):
        """how a character class treats digits: 'all', 'none' or 'some'"""
        n, neg = 0, False
        for op, a in av:
            o = str(op)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                n += 48 <= a <= 57
            elif o == 'RANGE':
                n += len(set(range(a[0], a[1] + 1)) & set(range(48, 58)))
            elif o == 'CATEGORY':
                n += {'CATEGORY_DIGIT': 10, 'CATEGORY_WORD': 10, 'CATEGORY_NOT_SPACE': 10}.get(str(a), 0)
        n = min(n, 10)
        n = 10 - n if neg else n
        return 'none' if n == 0 else 'all' if n == 10 else 'some'

    def esc(c):
        return _re.escape(chr(c))

    def item(op, av, rep=False):
        o = str(op)
        if o == 'LITERAL':
            if 48 <= av <= 57:
                raise I.Unsupported('pattern with a literal digit against any number')
            return esc(av)
        if o == 'NOT_LITERAL':
            if not rep:
                raise I.Unsupported('pattern: one character of a number')
            return '[^%s]' % esc(av)
        if o == 'ANY':
            if not rep:
                raise I.Unsupported('pattern: one character of a number')
            return '.'
        if o == 'IN':
            k = cls(av)
            if k == 'some' or k == 'all' and not rep:
                raise I.Unsupported('pattern: one digit of a number')
            out, neg = '', ''
            for x, a in av:
                xo = str(x)
                if xo == 'NEGATE':
                    neg = '^'
                elif xo == 'LITERAL':
                    out += esc(a) if a != 93 else '\\]'
                elif xo == 'RANGE':
                    out += '%s-%s' % (esc(a[0]), esc(a[1]))
                else:
                    out += {'CATEGORY_DIGIT': r'\d', 'CATEGORY_WORD': r'\w', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_NOT_SPACE': r'\S',
                            'CATEGORY_NOT_WORD': r'\W'}[str(a)]
            if k == 'all' and not neg:
                out += PUA
            if neg and k == 'none' or any(str(a) in ('CATEGORY_NOT_DIGIT', 'CATEGORY_NOT_WORD') for x, a in av if str(x) == 'CATEGORY'):
                raise I.Unsupported('pattern: negated digits')
            return '[%s%s]' % (neg, out)
        if o in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            run = len(sub) == 1 and lo <= 1 and hi is _sre.MAXREPEAT
            s = ''.join(item(*x, rep=run) for x in sub)
            if len(sub) != 1 or str(sub[0][0]) == 'SUBPATTERN':
                s = '(?:%s)' % s
            return s + '{%d,%s}' % (lo, '' if hi is _sre.MAXREPEAT else hi) + ('?' if o == 'MIN_REPEAT' else '')
        if o == 'SUBPATTERN':
            g, af, df, sub = av
            if af or df:
                raise I.Unsupported('pattern: inline flags')
            s = ''.join(item(*x) for x in sub)
            return '(%s)' % s if g is not None else '(?:%s)' % s
        if o == 'BRANCH':
            return '(?:%s)' % '|'.join(''.join(item(*x) for x in alt) for alt in av[1])
        if o == 'AT':
            return {'AT_BEGINNING': '^', 'AT_END': '$', 'AT_BEGINNING_STRING': r'\A', 'AT_END_STRING': r'\Z'}[str(av)] if str(av) in (
                'AT_BEGINNING', 'AT_END', 'AT_BEGINNING_STRING', 'AT_END_STRING') else (_ for _ in ()).throw(I.Unsupported('pattern: ' + str(av)))
        raise I.Unsupported('pattern: ' + o)
    return ''.join(item(*x) for x in _sre.parse(p, flags))


RE_FLAGS = {'IGNORECASE': _re.I, 'I': _re.I, 'MULTILINE': _re.M, 'M': _re.M, 'DOTALL': _re.S, 'S': _re.S, 'VERBOSE': _re.X, 'X': _re.X, 'UNICODE': _re.U, 'U': _re.U,
            'ASCII': _re.A, 'A': _re.A}


def re_flags(eng, v):
    if v is None:
        return 0
    if isinstance(v, I.Opaque) and v.name.startswith('re.'):
        f = RE_FLAGS.get(v.name.split('.')[1])
        if f is not None:
            return int(f)
    if isinstance(v, Expr) and v.is_const():
        return int(v.const())
    raise I.Unsupported('regular expression flags')


def re_apply(eng, fname, pat, s, args, flags, node):
    """a regular-expression function on known strings"""
    if isinstance(s, Node):
        return lift1(lambda x: re_apply(eng, fname, pat, x, args, flags, node), s)
    if isinstance(pat, Node):
        return lift1(lambda x: re_apply(eng, fname, x, s, args, flags, node), pat)
    if isinstance(pat, vals.Native) and isinstance(pat.val, _re.Pattern):
        pat, flags = pat.val.pattern, pat.val.flags & ~_re.U.value
    if s is None or isinstance(s, Expr) and s.is_const() or isinstance(s, (bool, EnumMember)):
        eng.do_raise('TypeError: expected string', node or ast.Pass(), 'TypeError', implicit=True)
        raise I.Dead()
    if not isinstance(pat, str) or not isinstance(s, str):
        return fn('re:' + fname, (eng.tok(pat), eng.tok(s)))
    try:
        rx = _re.compile(digit_pattern(pat, flags) if has_digits(s) else pat, flags)
    except _re.error:
        eng.do_raise('re.error', node or ast.Pass(), 're.error', implicit=True)
        raise I.Dead()
    if fname in ('search', 'match', 'fullmatch'):
        m = getattr(rx, fname)(s)
        return None if m is None else vals.Native(m)
    if fname == 'findall':
        return lift_py(eng, rx.findall(s))
    if fname == 'finditer':
        return eng.new_list([vals.Native(m) for m in rx.finditer(s)])
    if fname == 'split':
        return lift_py(eng, rx.split(s, *[int(a.const()) for a in args]))
    if fname == 'sub':
        f = args[0]
        cnt = int(args[1].const()) if len(args) > 1 else 0
        if isinstance(f, str):
            return rx.sub(f, s, cnt)
        out, at = '', 0
        for m in list(rx.finditer(s))[:cnt or None]:
            t = eng.call(f, [vals.Native(m)], {}, node)
            if not isinstance(t, str):
                return fn('re:sub', (pat, s))
            out += s[at:m.start()] + t
            at = m.end()
        return out + s[at:]
    raise I.Unsupported('re.' + fname)


def native_method(eng, o, name, args, kwargs, node):
    v = o.val
    if isinstance(v, _re.Pattern) and name in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'split', 'sub'):
        a = list(args)
        s = a.pop(1 if name == 'sub' else 0) if a else kwargs.get('string')
        return re_apply(eng, name, o, s, a, 0, node)
    if isinstance(v, _re.Match) and name in ('group', 'groups', 'groupdict', 'start', 'end', 'span', '__getitem__'):
        a = [x if isinstance(x, str) else int(x.const()) for x in args]
        try:
            r = getattr(v, name)(*a)
        except IndexError:
            eng.do_raise('IndexError: no such group', node or ast.Pass(), 'IndexError', implicit=True)
            raise I.Dead()
        return eng.new_dict([(k, lift_py(eng, x)) for k, x in r.items()]) if isinstance(r, dict) else lift_py(eng, r)
    return eng.unsupported('method ' + name, node)


def _re_ext(fname):
    names = ['pattern', 'repl', 'string', 'count', 'flags'] if fname == 'sub' else ['pattern', 'string', 'maxsplit', 'flags'] if fname == 'split' else ['pattern', 'string', 'flags']

    def f(eng, a, k, node):
        b = dict(zip(names, a))
        b.update(k)
        args = [b[x] for x in ('repl', 'count', 'maxsplit') if x in b]
        return re_apply(eng, fname, b.get('pattern'), b.get('string'), args, re_flags(eng, b.get('flags')), node)
    E['re.' + fname] = f


for _n in ('search', 'match', 'fullmatch', 'findall', 'finditer', 'split', 'sub'):
    _re_ext(_n)


@ext('re.compile')
def _(eng, a, k, node):
    p = a[0] if a else k['pattern']
    fl = re_flags(eng, a[1] if len(a) > 1 else k.get('flags'))
    if isinstance(p, vals.Native):
        return p
    if not isinstance(p, str):
        return fn('re:compile', (eng.tok(p),))
    try:
        return vals.Native(_re.compile(p, fl))
    except _re.error:
        eng.do_raise('re.error', node, 're.error', implicit=True)
        raise I.Dead()


@ext('re.escape')
def _(eng, a, k, node):
    return _re.escape(a[0]) if isinstance(a[0], str) else fn('re:escape', (eng.tok(a[0]),))


@ext('unicodedata.normalize')
def _(eng, a, k, node):
    import unicodedata
    if all(isinstance(x, str) for x in a):
        try:
            return unicodedata.normalize(*a)
        except ValueError:
            eng.do_raise('ValueError: invalid normalization form', node, 'ValueError', implicit=True)
            raise I.Dead()
    return fn('unicodedata.normalize', tuple(eng.tok(x) for x in a))


WEEKDAYS = ['mon', 'tue', 'wed', 'thu', 'fri', 'sat', 'sun']


def weekmask(eng, v):
    """'1111100', a list of seven 0/1 or day names -> seven booleans"""
    if isinstance(v, str):
        s = v.strip()
        if len(s) == 7 and set(s) <= {'0', '1'}:
            return tuple(ch == '1' for ch in s)
        ds = _re.findall('mon|tue|wed|thu|fri|sat|sun', s.lower())
        if ds and ''.join(ds) == s.lower().replace(' ', ''):
            return tuple(d in ds for d in WEEKDAYS)
        return 'bad'
    its = to_items(eng, v)
    if its is not None and len(its) == 7 and all(isinstance(x, bool) or isinstance(x, Expr) and x.is_const() for x in its):
        return tuple(x if isinstance(x, bool) else bool(x.const()) for x in its)
    if its is not None and len(its) != 7:
        return 'bad'
    return None


@ext('numpy.busdaycalendar')
def _busdaycalendar(eng, a, k, node):
    b = dict(zip(['weekmask', 'holidays'], a))
    b.update(k)
    if set(b) - {'weekmask', 'holidays'}:
        eng.do_raise('TypeError: busdaycalendar', node, 'TypeError', implicit=True)
        raise I.Dead()
    m = weekmask(eng, b.get('weekmask', '1111100'))
    if m == 'bad' or m is not None and not any(m):
        eng.do_raise('ValueError: Invalid weekmask', node, 'ValueError', implicit=True)
        raise I.Dead()
    mt = ''.join('1' if x else '0' for x in m) if m is not None else eng.tok(b['weekmask'])
    h = b.get('holidays')
    its = [] if h is None else to_items(eng, h)
    if its is None and isinstance(h, Ref) and (eng.rec(h).extra or {}).get('perm') is not None and not eng.rec(h).items:
        its = eng.rec(h).extra['perm']
    if its is not None and all(isinstance(x, Expr) for x in its):
        hs = sorted({repr(x): x for x in its}.items())
        return fn('busdaycal', (mt,) + tuple(x for _, x in hs), arr=False)
    return fn('busdaycal', (mt, 'holidays', eng.tok(h)), arr=False)


def _text_ext(name):
    def f(eng, a, k, node):
        return fn(name, tuple(eng.tok(x) for x in a), arr=False)
    E[name] = f


for _n in ('os.path.join', 'os.path.dirname', 'os.path.abspath', 'os.path.realpath', 'builtins.open', 'pathlib.Path'):
    _text_ext(_n)
