"""Models of the builtin types, of the library functions the repository uses, and of opaque values"""
import ast
import z3
from .core import *
from .core import leafsorts, nleaves
from .interp import Gen, Dom, EXC, generator

SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'issubset', 'difference_update', 'intersection_update', 'isdisjoint', 'issuperset'}
DICT_M = {'get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'copy', 'clear', 'popitem'}
LIST_M = {'append', 'extend', 'pop', 'index', 'count', 'reverse', 'sort', 'insert', 'copy', 'clear', 'remove'}
EMPTY = z3.K(U, z3.BoolVal(False))


# ---------------------------------------------------------------------- shapes
def join(a, b):
    if a == b: return a
    if a == '?': return b
    if b == '?': return a
    sc = lambda s: s in ('I', 'B', 'U') or s[0] == 'O'
    if sc(a) and sc(b): return 'U'
    if sc(a) or sc(b):
        if a[0] == 'T' and all(sc(x) for x in a[1:]) or b[0] == 'T' and all(sc(x) for x in b[1:]): return 'U'
        raise Unsupported('mixed values %r %r' % (a, b))
    if a[0] == b[0] == 'S': return ('S', a[1] if a[1] == b[1] else b[1] if a[1] == '?' else a[1] if b[1] == '?' else 'any')
    if a[0] == b[0] == 'L': return ('L', join(a[1], b[1]))
    if a[0] == b[0] == 'D': return ('D', join(a[1], b[1]), a[2] if a[2] == b[2] else b[2] if a[2] == '?' else a[2] if b[2] == '?' else 'any')
    if a[0] == b[0] == 'T' and len(a) == len(b): return ('T',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == b[0] == 'C':
        if [k for k, _ in a[1]] == [k for k, _ in b[1]]:
            return ('C', tuple((k, join(x, y)) for (k, x), (_, y) in zip(a[1], b[1])))
        return join(c2d(a), c2d(b))
    if a[0] == 'C' and b[0] == 'D': return join(c2d(a), b)
    if a[0] == 'D' and b[0] == 'C': return join(a, c2d(b))
    raise Unsupported('mixed values %r %r' % (a, b))


def c2d(a):
    s = '?'
    for _, x in a[1]:
        s = join(s, x)
    return ('D', s, 'str')


def cls_of(v):
    if isinstance(v, Opq): return v.cls
    if isinstance(v, str) or (z3.is_expr(v) and v.sort() == S): return 'str'
    if isinstance(v, bool): return 'any'
    if isinstance(v, int) or (z3.is_expr(v) and v.sort() == I): return 'int'
    return 'any'


def shapeof(E, v):
    if isinstance(v, bool): return 'B'
    if isinstance(v, int): return 'I'
    if v is None or isinstance(v, float): return 'U'
    if isinstance(v, str): return ('O', 'str')
    if z3.is_expr(v):
        return {I: 'I', B: 'B', U: 'U', S: ('O', 'str')}[v.sort()]
    if isinstance(v, Opq): return 'U' if v.cls == 'any' else ('O', v.cls)
    if isinstance(v, tuple): return ('T',) + tuple(shapeof(E, x) for x in v)
    if isinstance(v, View): return place(E, v)[0]
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, Sym): return o.shape
        if isinstance(o, CSet):
            c = '?'
            for x in o.items: c = cls_of(x) if c in ('?', cls_of(x)) else 'any'
            return ('S', c)
        if isinstance(o, CList):
            s = '?'
            for x in o.items: s = join(s, shapeof(E, x))
            return ('L', s)
        if isinstance(o, CDict):
            if not o.items: return ('D', '?', '?')
            if all(isinstance(k, str) for k in o.items):
                return ('C', tuple((k, shapeof(E, x)) for k, x in o.items.items()))
            s, c = '?', '?'
            for k, x in o.items.items():
                s = join(s, shapeof(E, x)); c = cls_of(k) if c in ('?', cls_of(k)) else 'any'
            return ('D', s, c)
        return 'U'
    raise Unsupported('storing %r' % (v,))


def defleaf(E, sort):
    return E.fresh('d', sort)


def conv(E, a, leaves, b, depth=()):
    """leaves of shape a as leaves of shape b (depth: index sorts the leaves are lifted over)"""
    if a == b: return list(leaves)
    lift = lambda so: [x for x in _lift(so, depth)]
    if a == '?':
        return [E.fresh('u', _lift1(l, depth)) for l in leafsorts(b)]
    sc = lambda s: s in ('I', 'B', 'U') or s[0] == 'O'
    if sc(a) and sc(b):
        if (a == 'U' or a[0] == 'O') and (b == 'U' or b[0] == 'O'): return list(leaves)
        if b == 'U' and a in ('I', 'B'):
            f = bi if a == 'I' else bb
            l = leaves[0]
            if not depth: return [E.box(l)]
            for _ in range(1):
                if len(depth) != 1: raise Unsupported('nested conversion')
            return [z3.Map(f, l)]
        raise Unsupported('conversion')
    if a[0] == 'T' and sc(b):
        if depth: raise Unsupported('nested tuple conversion')
        return [E.box(dec(E, a, leaves))]
    if a[0] == b[0] == 'S': return list(leaves)
    if a[0] == b[0] == 'L': return [leaves[0]] + conv(E, a[1], leaves[1:], b[1], depth + (I,))
    if a[0] == b[0] == 'D': return [leaves[0]] + conv(E, a[1], leaves[1:], b[1], depth + (U,))
    if a[0] == b[0] == 'T':
        out, i = [], 0
        for x, y in zip(a[1:], b[1:]):
            n = nleaves(x); out += conv(E, x, leaves[i:i + n], y, depth); i += n
        return out
    if a[0] == b[0] == 'C' and [k for k, _ in a[1]] == [k for k, _ in b[1]]:
        out, i = [], 0
        for (_, x), (_, y) in zip(a[1], b[1]):
            n = nleaves(x); out += conv(E, x, leaves[i:i + n], y, depth); i += n
        return out
    if a[0] == 'C' and b[0] == 'D' and not depth:
        out = [EMPTY] + [E.fresh('d', z3.ArraySort(U, l)) for l in leafsorts(b[1])]
        i = 0
        for k, x in a[1]:
            n = nleaves(x)
            vl = conv(E, x, leaves[i:i + n], b[1]); i += n
            kk = E.lit(k)
            out = [z3.Store(out[0], kk, True)] + [z3.Store(o, kk, w) for o, w in zip(out[1:], vl)]
        return out
    raise Unsupported('conversion %r -> %r' % (a, b))


def _lift1(l, depth):
    for d in reversed(depth):
        l = z3.ArraySort(d, l)
    return l


def enc(E, v, sh):
    """leaves of value v in shape sh"""
    if isinstance(v, View):
        a, l = place(E, v)
        return conv(E, a, l, sh)
    if isinstance(v, Ref):
        o = E.get(v)
        if not isinstance(o, (CList, CDict, CSet, Sym)):
            return [E.box(v)]
        s = tosym(E, o)
        return conv(E, s.shape, s.leaves, sh)
    if isinstance(v, tuple) and sh[0] == 'T':
        out = []
        for x, y in zip(v, sh[1:]): out += enc(E, x, y)
        return out
    if sh == 'I':
        i = E.as_int(v)
        if i is None: raise Unsupported('integer expected')
        return [i]
    if sh == 'B':
        return [z3.BoolVal(v) if isinstance(v, bool) else v]
    if sh == 'U' or sh[0] == 'O':
        return [E.box(v)]
    if sh == '?': return []
    raise Unsupported('encoding %r as %r' % (v, sh))


def dec(E, sh, leaves, root=None, path=()):
    if sh in ('I', 'B'): return leaves[0]
    if sh == 'U': return unb(E, leaves[0])
    if sh == '?': raise Unsupported('value of unknown shape')
    if sh[0] == 'O': return Opq(leaves[0], sh[1])
    if sh[0] == 'T':
        out, i = [], 0
        for x in sh[1:]:
            n = nleaves(x); out.append(dec(E, x, leaves[i:i + n], None)); i += n
        return tuple(out)
    if root is None:
        return E.alloc(Sym(sh, leaves))
    return View(root, path)


def unb(E, t):
    if z3.is_app(t) and t.decl().eq(bi): return t.arg(0)
    return Opq(t, 'any')


def tosym(E, o, sh=None):
    """concrete container as symbolic one (of shape sh)"""
    if isinstance(o, Sym):
        if sh is None or o.shape == sh: return o
        return Sym(sh, conv(E, o.shape, o.leaves, sh))
    r = E.alloc(o)
    own = shapeof(E, r)
    if isinstance(o, CSet):
        arr = EMPTY
        for x in o.items: arr = z3.Store(arr, E.key(x), True)
        s = Sym(own, [arr]); cardfacts(E, arr)
    elif isinstance(o, CList):
        if own[1] == '?':
            s = Sym(own, [z3.IntVal(0)])
        else:
            ls = [E.fresh('l', z3.ArraySort(I, l)) for l in leafsorts(own[1])]
            for i, x in enumerate(o.items):
                ls = [z3.Store(a, i, w) for a, w in zip(ls, enc(E, x, own[1]))]
            s = Sym(own, [z3.IntVal(len(o.items))] + ls)
    elif isinstance(o, CDict):
        if own[0] == 'C':
            out = []
            for (k, sx) in own[1]: out += enc(E, o.items[k], sx)
            s = Sym(own, out)
        else:
            dom = EMPTY; ls = [E.fresh('d', z3.ArraySort(U, l)) for l in leafsorts(own[1])]
            for k, x in o.items.items():
                kk = E.key(k)
                ls = [z3.Store(a, kk, w) for a, w in zip(ls, enc(E, x, own[1]))]; dom = z3.Store(dom, kk, True)
            s = Sym(own, [dom] + ls)
    else:
        raise Unsupported('no container')
    if sh is not None and s.shape != sh:
        return Sym(sh, conv(E, s.shape, s.leaves, sh))
    return s


def cardfacts(E, a):
    """facts on the number of members of array term a (finite sets)"""
    n = card(a)
    E.fact(n >= 0)
    E.fact((n == 0) == (a == EMPTY))
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        b, x, v = a.children()
        if z3.is_true(v): E.fact(card(a) == card(b) + z3.If(z3.Select(b, x), 0, 1))
        elif z3.is_false(v): E.fact(card(a) == card(b) - z3.If(z3.Select(b, x), 1, 0))
        E.fact(card(b) >= 0); E.fact((card(b) == 0) == (b == EMPTY))
        a = b
    return n


# ---------------------------------------------------------------------- places
def place(E, v):
    """(shape, leaves) of a container value; concrete containers are turned into symbolic ones in place"""
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, Sym): return o.shape, list(o.leaves)
        if isinstance(o, (CSet, CList, CDict)):
            s = tosym(E, o)
            return s.shape, list(s.leaves)
        raise Unsupported('no container: %r' % (o,))
    if isinstance(v, View):
        sh, l = place(E, v.root)
        for step in v.path:
            sh, l = sub(E, sh, l, step)
        return sh, l
    raise Unsupported('no container: %r' % (v,))


def sub(E, sh, l, step):
    if step[0] == 'k' and sh[0] == 'D': return sh[1], [z3.Select(a, step[1]) for a in l[1:]]
    if step[0] == 'i' and sh[0] == 'L': return sh[1], [z3.Select(a, step[1]) for a in l[1:]]
    if step[0] == 'c' and sh[0] == 'C':
        i = 0
        for k, s in sh[1]:
            n = nleaves(s)
            if k == step[1]: return s, l[i:i + n]
            i += n
    if step[0] == 'c' and sh[0] == 'D': return sub(E, sh, l, ('k', E.lit(step[1])))
    raise Unsupported('step %r in %r' % (step, sh))


def updat(E, sh, l, path, nsh, nl):
    """(shape, leaves) with the part at path replaced"""
    if not path: return nsh, nl
    step = path[0]
    if step[0] == 'c' and sh[0] == 'D': step = ('k', E.lit(step[1]))
    s0, l0 = sub(E, sh, l, step)
    s1, l1 = updat(E, s0, l0, path[1:], nsh, nl)
    j = join(s0, s1)
    if step[0] == 'c':
        out, shp, i = [], [], 0
        for k, s in sh[1]:
            n = nleaves(s)
            if k == step[1]:
                shp.append((k, j)); out += conv(E, s1, l1, j)
            else:
                shp.append((k, s)); out += l[i:i + n]
            i += n
        return ('C', tuple(shp)), out
    full = (sh[0], j) + sh[2:]
    l = conv(E, sh, l, full)
    v = conv(E, s1, l1, j)
    return full, [l[0]] + [z3.Store(a, step[1], w) for a, w in zip(l[1:], v)]


def setplace(E, v, sh, l):
    if isinstance(v, Ref):
        E.put(v, Sym(sh, l)); return
    rs, rl = place(E, v.root)
    s, l2 = updat(E, rs, rl, v.path, sh, l)
    E.put(v.root, Sym(s, l2))


def conc(E, v, t):
    """concrete heap object of type t behind a Ref, or None"""
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, t): return o
    return None


def ckind(E, v):
    """'S' 'D' 'L' 'C' of a container value, 'obj' 'graph' for other heap objects, None otherwise"""
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, CSet): return 'S'
        if isinstance(o, CList): return 'L'
        if isinstance(o, CDict): return 'D'
        if isinstance(o, HObj): return 'obj'
        if isinstance(o, HGraph): return 'graph'
        return 'D' if o.shape[0] == 'C' else o.shape[0]
    if isinstance(v, View):
        k = place(E, v)[0]
        if k == '?': raise Unsupported('container of unknown shape')
        return 'D' if k[0] == 'C' else k[0]
    return None


def freeze(E, v):
    """v was stored by value in another container: it must not change afterwards"""
    if isinstance(v, Ref) and isinstance(E.get(v), (CSet, CList, CDict, Sym)):
        E.st.frozen.add(v.a)
    if isinstance(v, tuple):
        for x in v: freeze(E, x)


def isconst(v):
    return v is None or isinstance(v, (bool, int, float, str)) or (isinstance(v, tuple) and all(isconst(x) for x in v))


# ---------------------------------------------------------------------- sets
def set_add(E, r, v):
    o = conc(E, r, CSet)
    if o is not None and isconst(v):
        if v not in o.items: E.put(r, CSet(o.items + (v,)))
        return
    sh, l = place(E, r)
    c = cls_of(v)
    a = z3.Store(l[0], E.key(v), True)
    cardfacts(E, a)
    setplace(E, r, join(sh, ('S', c)), [a])


def setop(E, op, a, b):
    """new set value of a op b"""
    sa, la = setlike(E, a); sb, lb = setlike(E, b)
    x, y = la, lb
    if op == '|': r = z3.SetUnion(x, y)
    elif op == '&': r = z3.SetIntersect(x, y)
    elif op == '-': r = z3.SetDifference(x, y)
    else: r = z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))
    n = E.fresh('set', UB)
    E.assume(n == r)
    cardfacts(E, n)
    if op == '&' or op == '-': c = sa
    else: c = join(('S', sa), ('S', sb))[1]
    return Sym(('S', c), [n])


def setlike(E, v):
    """(element class, array) of a set value or a dict's keys"""
    if isinstance(v, It):
        d = v.dom
        if d.kind == 'set': return d.cls, d.arr
        if d.kind == 'conc':
            r = E.alloc(CSet())
            for x in d.items: set_add(E, r, x)
            return setlike(E, r)
    k = ckind(E, v)
    if k == 'S':
        sh, l = place(E, v)
        return sh[1], l[0]
    raise Unsupported('set expected')


# ---------------------------------------------------------------------- truth, equality, membership
def seqlen_of(E, v):
    """length as int or Int term"""
    if isinstance(v, (str, tuple)): return len(v)
    if isinstance(v, It):
        d = v.dom
        return len(d.items) if d.kind == 'conc' else d.n if d.kind == 'seq' else setcard(E, d.arr)
    if isinstance(v, GView):
        g = E.get(v.g)
        if v.what in ('nodes',): return setcard(E, g.nd)
        return edgecount(E, g, v)
    if isinstance(v, Opq):
        m = E.models.get(v.cls)
        if hasattr(m, 'len'): return m.len(E, v)
    if z3.is_expr(v) and v.sort() == S: return z3.Length(v)
    o = conc(E, v, (CSet, CList, CDict))
    if o is not None: return len(o.items)
    k = ckind(E, v)
    if k == 'L': return place(E, v)[1][0]
    if k in ('S', 'D'):
        sh, l = place(E, v)
        if sh[0] == 'C': return len(sh[1])
        return setcard(E, l[0])
    if k == 'graph': return setcard(E, E.get(v).nd)
    if k == 'obj': return None
    return None


def setcard(E, a):
    return cardfacts(E, a)


edgecnt = z3.Function('edge_count', GS['ed'], I)


def edgecount(E, g, v):
    if v.u is not None:
        return setcard(E, z3.Select(g.ed, v.u))
    n = edgecnt(g.ed); E.fact(n >= 0)
    empty = z3.K(U, EMPTY)
    E.fact((n == 0) == (g.ed == empty))
    return n


def truth_ref(E, v):
    if isinstance(v, GAttr): return setcard(E, ga_arrays(E, v)[0]) > 0
    if ckind(E, v) == 'obj':
        f = member(E, E.get(v).cls, '__len__')
        if f is not None:
            return E.truthc(E.call(getattr_(E, v, '__len__'), []))
        return True
    n = seqlen_of(E, v)
    if n is None: return True
    return n > 0 if isinstance(n, int) else n > 0


def eqv(E, a, b):
    """condition of a == b, with __eq__ of the repository's classes"""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and isinstance(E.get(x), HObj):
            f = member(E, E.get(x).cls, '__eq__')
            if f is not None:
                r = E.call(getattr_(E, x, '__eq__'), [y])
                if isinstance(r, Builtin) and r.name == 'NotImplemented': continue
                return E.truthc(r)
            return isinstance(y, Ref) and x.a == y.a
    return E.eq(a, b)


def eq_ref(E, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a: return True
    ka, kb = ckind(E, a), ckind(E, b)
    if ka == kb == 'S' or (ka == 'S' and isinstance(b, It)) or (kb == 'S' and isinstance(a, It)):
        return setlike(E, a)[1] == setlike(E, b)[1]
    if ka == kb == 'L':
        x, y = conc(E, a, CList), conc(E, b, CList)
        if x is not None and y is not None:
            return E.eq(tuple(x.items), tuple(y.items))
    if ka in ('S', 'D', 'L') and (b is None or isinstance(b, (int, str, float, bool))): return False
    if kb in ('S', 'D', 'L') and (a is None or isinstance(a, (int, str, float, bool))): return False
    if (ka == 'obj') != (kb == 'obj'): return False
    raise Unsupported('comparison of containers')


def order_ref(E, op, a, b):
    if ckind(E, a) == 'S' or ckind(E, b) == 'S':
        x, y = setlike(E, a)[1], setlike(E, b)[1]
        return z3.IsSubset(x, y) if op == '<=' else z3.And(z3.IsSubset(x, y), x != y)
    raise Unsupported('ordering of containers')


def contains(E, c, x):
    if isinstance(c, tuple):
        cs = [eqv(E, x, y) for y in c]
        if any(z is True for z in cs): return True
        cs = [z for z in cs if z is not False]
        return z3.Or(*cs) if cs else False
    if isinstance(c, GView): return c_graphview(E, c, x)
    if isinstance(c, It):
        d = c.dom
        if d.kind == 'set' and d.keydom: return z3.Select(d.arr, E.key(x))
        if d.kind == 'conc': return contains(E, tuple(d.items), x)
        if d.kind == 'seq': return seq_contains(E, d, x)
        raise Unsupported('membership')
    o = conc(E, c, (CSet, CList, CDict))
    if o is not None:
        return contains(E, tuple(o.items), x)
    if isinstance(c, GAttr):
        return ga_has(E, c, E.key(x))
    if isinstance(c, str) and isinstance(x, str): return x in c
    if E.isstr(c) and (E.isstr(x)):
        return strfun(E, 'contains', [c, x], B)
    k = ckind(E, c)
    if k == 'S' or k == 'D':
        sh, l = place(E, c)
        if sh[0] == 'C': return contains(E, tuple(kk for kk, _ in sh[1]), x)
        if isinstance(x, Ref) and isinstance(E.get(x), (CList, CDict, CSet, Sym)): E.throw('TypeError')
        return z3.Select(l[0], E.key(x))
    if k == 'L':
        return seq_contains(E, iterate(E, c), x)
    if k == 'graph': return z3.Select(E.get(c).nd, E.key(x))
    if k == 'obj':
        return E.truthc(E.call(getattr_(E, c, '__contains__'), [x]))
    if isinstance(c, Opq):
        m = E.models.get(c.cls)
        if hasattr(m, 'contains'): return m.contains(E, c, x)
    raise Unsupported('membership in %r' % (c,))


def seq_contains(E, d, x):
    i = z3.Int('i?c')
    e = E.key(d.elem(i))
    return exists([i], z3.And(i >= 0, i < d.n, e == E.key(x)))


# ---------------------------------------------------------------------- strings
def strfun(E, name, args, ret=None, cls='str'):
    """uninterpreted function of the standard library on opaque values"""
    a = [E.box(x) for x in args]
    f = z3.Function('py.' + name, *([U] * len(a) + [ret if ret is not None else U]))
    t = f(*a)
    if ret is not None: return t
    E.fact(kind(t) == {'str': K_STR, 'list': K_LIST, 'int': K_INT}.get(cls, kind(t)))
    return Opq(t, cls)


def str_(E, v):
    if isinstance(v, str): return v
    if v is None or isinstance(v, (bool, int, float)): return str(v)
    if z3.is_expr(v) and v.sort() == S: return v
    if isinstance(v, Opq) and v.cls == 'str': return v
    if isinstance(v, It) and v.what == 'values' and v.dom.kind == 'set':
        # the text of the values of a dict: some function of the dict
        x = z3.Const('x?probe', U); t = v.dom.elem(x)
        t = t.t if isinstance(t, Opq) else t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).eq(x) and t.arg(0).sort() == z3.ArraySort(U, U):
            r = z3.Function('py.str_of_values', UB, z3.ArraySort(U, U), U)(v.dom.arr, t.arg(0)); E.fact(kind(r) == K_STR)
            return Opq(r, 'str')
    if isinstance(v, (Ref, View, It, tuple, Cls, Closure, Builtin, Exc, Bound, GView, GAttr)):
        # the text of an object only goes into names and messages
        return Opq(E.fresh('text', U), 'str')
    t = E.box(v)
    E.fact(z3.Implies(kind(t) == K_STR, strof(t) == t))
    E.fact(kind(strof(t)) == K_STR)
    return Opq(strof(t), 'str')


def concat(E, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == '': continue
            if out and isinstance(out[-1], str): out[-1] += p; continue
        out.append(p)
    if not out: return ''
    if len(out) == 1: return out[0]
    return z3.Concat(*[E.as_str(x) for x in out])


def fmt(E, s, args, kw):
    import string
    parts, auto = [], 0
    for litt, field, spec, cv in string.Formatter().parse(s):
        parts.append(litt)
        if field is None: continue
        if spec or cv: return Opq(E.fresh('text', U), 'str')
        if field == '': v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        elif field in kw: v = kw[field]
        else: return Opq(E.fresh('text', U), 'str')
        parts.append(str_(E, v))
    return concat(E, parts)


STRM = {'upper': 'str', 'lower': 'str', 'title': 'str', 'strip': 'str', 'rstrip': 'str', 'lstrip': 'str', 'replace': 'str', 'split': 'list', 'splitlines': 'list', 'startswith': B, 'endswith': B,
        'isdigit': B, 'isalpha': B, 'isspace': B, 'isnumeric': B, 'isalnum': B, 'isupper': B, 'islower': B, 'encode': 'any', 'decode': 'str', 'count': 'int', 'find': 'int', 'capitalize': 'str', 'casefold': 'str', 'partition': 'any', 'zfill': 'str', 'rfind': 'int'}


def str_method(E, o, name, args, kw):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and not kw and name not in ('format', 'join'):
        r = getattr(o, name)(*args)
        return E.lift(r) if not isinstance(r, bytes) else Opq(E.lit(r))
    if name == 'format':
        if isinstance(o, str): return fmt(E, o, args, kw)
        return Opq(E.fresh('text', U), 'str')
    if name == 'join':
        v = args[0]
        if isinstance(v, Gen):
            from . import loops
            v = loops.comprehend(E, v, 'list')
        d = iterate(E, v)
        if d.kind == 'conc':
            parts = []
            for i, x in enumerate(d.items):
                if i: parts.append(o)
                if not E.isstr(x):
                    if isinstance(x, Opq) and x.cls == 'any':
                        if not E.choose(kind(x.t) == K_STR): E.throw('TypeError')
                        x = Opq(x.t, 'str')
                    else: E.throw('TypeError')
                parts.append(x)
            return concat(E, parts)
        if d.kind == 'seq':
            return strfun(E, 'join', [o, seqbox(E, d)])
        return Opq(E.fresh('text', U), 'str')
    if name in STRM:
        rc = STRM[name]
        extra = sorted(kw.items())
        a = [o] + list(args) + [x for _, x in extra]
        for x in a[1:]:
            if x is None: pass
        r = strfun(E, 'str.' + name + ''.join(k for k, _ in extra) + str(len(a)), a, rc if not isinstance(rc, str) else None, rc if isinstance(rc, str) else 'str')
        if name == 'split':
            E.fact(seqlen(r.t) >= (1 if args and args[0] is not None else 0))
            return Opq(r.t, 'strlist')
        if name == 'splitlines':
            E.fact(seqlen(r.t) >= 0); return Opq(r.t, 'strlist')
        return r
    raise Unsupported('str.' + name)


def seqbox(E, d):
    """opaque value standing for the contents of a sequence: a function of its items (by extensionality only on equal terms)"""
    i = z3.Int('i?b')
    try:
        e = E.key(d.elem(i))
    except PyRaise:
        raise Unsupported('sequence')
    arr = z3.Lambda([i], e)
    f = z3.Function('seq_of', I, z3.ArraySort(I, U), U)
    return Opq(f(z3.IntVal(d.n) if isinstance(d.n, int) else d.n, arr), 'list')


# ---------------------------------------------------------------------- models of opaque classes
class AnyModel:
    maybe_none = True

    def attr(self, E, o, name):
        f = z3.Function('hasattr_' + name, U, B)
        for c, m in (('str', StrModel),):
            if name in STRM or name in ('format', 'join'):
                if E.choose(kind(o.t) == K_STR): return Bound(Opq(o.t, 'str'), name)
        if name in LIST_M or name in DICT_M:
            if E.choose(kind(o.t) == K_LIST) and name in LIST_M: return Bound(Opq(o.t, 'list'), name)
        if not E.choose(z3.And(kind(o.t) == K_OBJ, f(o.t))): E.throw('AttributeError')
        return Opq(z3.Function('attr_' + name, U, U)(o.t), 'any')

    def iter(self, E, o):
        if E.choose(kind(o.t) == K_LIST): return E.models['list'].iter(E, o)
        if E.choose(kind(o.t) == K_TUPLE): return E.models['list'].iter(E, o)
        if E.choose(z3.Or(kind(o.t) == K_NONE, kind(o.t) == K_INT, kind(o.t) == K_BOOL, kind(o.t) == K_FLOAT)): E.throw('TypeError')
        raise Unsupported('iteration over an unknown value')

    def len(self, E, o):
        if E.choose(z3.Or(kind(o.t) == K_LIST, kind(o.t) == K_TUPLE)):
            E.fact(seqlen(o.t) >= 0); return seqlen(o.t)
        if E.choose(z3.Or(kind(o.t) == K_NONE, kind(o.t) == K_INT, kind(o.t) == K_BOOL, kind(o.t) == K_FLOAT)): E.throw('TypeError')
        return E.models['str'].len(E, o)

    def getitem(self, E, o, k):
        if E.choose(z3.Or(kind(o.t) == K_LIST, kind(o.t) == K_TUPLE)): return E.models['list'].getitem(E, o, k)
        if E.choose(kind(o.t) == K_STR): return E.models['str'].getitem(E, o, k)
        if E.choose(z3.Or(kind(o.t) == K_NONE, kind(o.t) == K_INT)): E.throw('TypeError')
        raise Unsupported('subscript of an unknown value')

    def contains(self, E, o, x):
        if E.choose(kind(o.t) == K_LIST): return E.models['list'].contains(E, o, x)
        if E.choose(z3.Or(kind(o.t) == K_NONE, kind(o.t) == K_INT)): E.throw('TypeError')
        if E.choose(kind(o.t) == K_STR): return strfun(E, 'contains', [o, x], B)
        return z3.Function('py.in', U, U, B)(o.t, E.key(x))

    def isa(self, E, o, name):
        k = {'list': K_LIST, 'str': K_STR, 'tuple': K_TUPLE, 'dict': K_DICT, 'set': K_SET, 'float': K_FLOAT, 'bool': K_BOOL}.get(name)
        if k is not None: return kind(o.t) == k
        if name == 'int': return z3.Or(kind(o.t) == K_INT, kind(o.t) == K_BOOL)
        return z3.And(kind(o.t) == K_OBJ, z3.Function('isa_' + name, U, B)(o.t))


class StrModel:
    def attr(self, E, o, name):
        if name in STRM or name in ('format', 'join'): return Bound(o, name)
        E.throw('AttributeError')

    def truth(self, E, o): return o.t != E.lit('')

    def len(self, E, o):
        f = z3.Function('strlen', U, I)(o.t)
        E.fact(f >= 0); E.fact((f == 0) == (o.t == E.lit('')))
        return f

    def getitem(self, E, o, k):
        n = self.len(E, o)
        i = E.as_int(k)
        if i is None: E.throw('TypeError')
        if not E.choose(z3.And(i < n, i >= -n)): E.throw('IndexError')
        return Opq(z3.Function('charat', U, I, U)(o.t, i), 'str')

    def iter(self, E, o):
        return Dom('seq', n=self.len(E, o), elem=lambda i: Opq(z3.Function('charat', U, I, U)(o.t, i), 'str'), origin=o)

    def isa(self, E, o, name): return name == 'str'


class ListModel:
    item = 'any'

    def truth(self, E, o):
        E.fact(seqlen(o.t) >= 0); return seqlen(o.t) > 0

    def len(self, E, o):
        E.fact(seqlen(o.t) >= 0); return seqlen(o.t)

    def iter(self, E, o):
        E.fact(seqlen(o.t) >= 0)
        return Dom('seq', n=seqlen(o.t), elem=lambda i: self.mk(E, seqat(o.t, i)), origin=o)

    def mk(self, E, t): return Opq(t, self.item)

    def getitem(self, E, o, k):
        i = E.as_int(k)
        if i is None: E.throw('TypeError')
        n = self.len(E, o)
        if not E.choose(z3.And(i < n, i >= -n)): E.throw('IndexError')
        return self.mk(E, seqat(o.t, i if E_nonneg(i) else z3.If(i >= 0, i, n + i)))

    def contains(self, E, o, x):
        return seq_contains(E, self.iter(E, o), x)

    def attr(self, E, o, name):
        if name in LIST_M: return Bound(o, name)
        E.throw('AttributeError')

    def method(self, E, o, name, args, kw):
        if name == 'copy': return materialise(E, self.iter(E, o))
        if name == 'count': return z3.Function('listcount', U, U, I)(o.t, E.key(args[0]))
        raise Unsupported('list.%s of an opaque list (it would change data of a caller)' % name)

    def isa(self, E, o, name): return name == 'list'


class StrListModel(ListModel):
    item = 'str'


def E_nonneg(i):
    return z3.is_int_value(i) and i.as_long() >= 0


class IntModel:
    def isa(self, E, o, name): return name == 'int'
    def truth(self, E, o): return E.unboxint(o.t) != 0
    def attr(self, E, o, name): E.throw('AttributeError')


class Inert:
    """progress bar: reports to the terminal only"""
    def truth(self, E, o): return True
    def attr(self, E, o, name): return Bound(o, name)
    def method(self, E, o, name, args, kw): return None
    def isa(self, E, o, name): return name == '_ProgressBar'
    def enter(self, E, o): return o


class TypeModel:
    def attr(self, E, o, name):
        if name != '__name__': raise Unsupported('attribute %s of a class' % name)
        return strfun(E, 'typename', [o])
    def truth(self, E, o): return True
    def isa(self, E, o, name): return name == 'type'

    def call(self, E, o, args, kw): raise Unsupported('construction of an unknown class')


def install(E):
    E.models.update({'type': TypeModel(), 'any': AnyModel(), 'str': StrModel(), 'list': ListModel(), 'strlist': StrListModel(), 'int': IntModel(), 'PBar': Inert()})

    def pbar(E, args, kw):
        E.notes.add('_ProgressBar (terminal output only)')
        return Opq(z3.Const('progressbar', U), 'PBar')
    E.calls['new:_ProgressBar'] = pbar
    from . import regex
    E.models['re.Match'] = regex.MatchModel()


# ---------------------------------------------------------------------- attributes
def member(E, cls, name):
    """class member along the repository's bases"""
    todo, seen = [cls.info], set()
    while todo:
        c = todo.pop(0)
        if c is None or c.name in seen: continue
        seen.add(c.name)
        if name in c.members: return c, c.members[name]
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = E.repo.resolve(c.mod, b.id)
                if r and r[0] == 'class': todo.append(r[1])
    return None


def bases(E, cls):
    out, todo = [], [cls.info]
    while todo:
        c = todo.pop(0)
        if c is None or c.name in out: continue
        out.append(c.name)
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = E.repo.resolve(c.mod, b.id)
                if r and r[0] == 'class': todo.append(r[1])
                else: out.append(b.id)
            elif isinstance(b, ast.Attribute): out.append(b.attr)
    return out


def classattr(E, ci, node, self_, cls):
    if isinstance(node, ast.FunctionDef):
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in node.decorator_list]
        f = Closure(node, None, ci.mod, ci)
        if 'staticmethod' in decs: return f
        if 'classmethod' in decs: return Bound(cls, f)
        if 'property' in decs:
            if self_ is None: raise Unsupported('property of a class')
            return E.call_closure(f, [self_], {})
        return f if self_ is None else Bound(self_, f)
    if isinstance(node, ast.Assign):
        return E.const_global(ci.mod, ci.name + '.' + node.targets[0].id, node)
    raise Unsupported('class member')


def getattr_(E, o, name):
    if isinstance(o, Ref):
        h = E.get(o)
        if isinstance(h, HObj):
            if name in h.attrs: return h.attrs[name]
            if name == '__class__': return h.cls
            if h.cls.info is not None:
                m = member(E, h.cls, name)
                if m is not None: return classattr(E, m[0], m[1], o, h.cls)
            if h.lazy is not None:
                v = h.lazy(E, o, name)
                if v is not None: return v
            if name == '__dict__':
                r = E.alloc(CDict(dict(h.attrs))); E.st.frozen.add(r.a)      # read only view: writing through it is outside the engine
                return r
            E.throw('AttributeError', name)
        if isinstance(h, HGraph):
            if name in ('nodes', 'edges', 'adj'): return GView(o, name)
            return Bound(o, name)
        return cattr(E, o, name)
    if isinstance(o, View): return cattr(E, o, name)
    if isinstance(o, (It, GView, GAttr, str, tuple)) or (z3.is_expr(o) and o.sort() == S):
        if isinstance(o, str) and not hasattr(o, name): E.throw('AttributeError', name)
        return Bound(o, name)
    if isinstance(o, Opq):
        m = E.models.get(o.cls)
        if m is None: raise Unsupported('class ' + o.cls)
        return m.attr(E, o, name)
    if isinstance(o, Mod):
        if o.name in E.repo.mods:
            mi = E.repo.mods[o.name]
            sub = o.name + '.' + name
            if (o.name, name) in E.globals: return E.globals[(o.name, name)]
            if name not in mi.defs and sub in E.repo.mods: return Mod(sub)
            if name in mi.defs:
                return E.glob(mi, name)
        if o.name + '.' + name in EXC: return Cls(name)
        return Builtin(o.name + '.' + name)
    if isinstance(o, Closure) and name == '__name__': return o.name
    if isinstance(o, Builtin): return Builtin(o.name + '.' + name, o.data)
    if isinstance(o, Cls):
        if name == '__name__': return o.name
        if o.info is not None:
            m = member(E, o, name)
            if m is not None: return classattr(E, m[0], m[1], None, o)
        if o.name in ('dict', 'str', 'list', 'set'): return Builtin(o.name + '.' + name)
        E.throw('AttributeError', name)
    if isinstance(o, Exc):
        return o.attrs.get(name, Opq(E.fresh('exc', U)))
    if o is None or isinstance(o, (bool, int, float)) or z3.is_expr(o):
        E.throw('AttributeError', name)
    raise Unsupported('attribute %s of %r' % (name, o))


def cattr(E, o, name):
    k = ckind(E, o)
    ok = {'S': SET_MUT, 'D': DICT_M, 'L': LIST_M}.get(k, ())
    if name in ok or name.startswith('__'): return Bound(o, name)
    E.throw('AttributeError', name)


def setattr_(E, o, name, v):
    if isinstance(o, Ref) and isinstance(E.get(o), HObj):
        if name == '__dict__':
            d = conc(E, v, CDict)
            if d is None: raise Unsupported('__dict__ of unknown keys')
            E.put(o, HObj(E.get(o).cls, dict(d.items), E.get(o).lazy)); E.st.frozen.add(v.a); return
        E.put(o, E.get(o).with_(name, v)); return
    raise Unsupported('attribute assignment to %r' % (o,))


# ---------------------------------------------------------------------- items
def listat(E, v, k):
    i = E.as_int(k)
    if i is None: E.throw('TypeError')
    sh, l = place(E, v)
    n = l[0]
    if not E.choose(z3.And(i < n, i >= -n)): E.throw('IndexError')
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return i if i.as_long() >= 0 else z3.simplify(n + i)
    return i if E.choose(i >= 0) else n + i


def getitem(E, o, k):
    if isinstance(o, (tuple, str)):
        if isinstance(k, int):
            try: return o[k]
            except IndexError: E.throw('IndexError')
        if isinstance(o, tuple):
            i = E.as_int(k)
            for j in range(len(o)):
                if E.choose(z3.Or(i == j, i == j - len(o))): return o[j]
            E.throw('IndexError')
        o = Opq(E.lit(o), 'str')
    if isinstance(o, GView): return graph_item(E, o, k)
    if isinstance(o, GAttr): return ga_get(E, o, E.key(k))
    if isinstance(o, It):
        if o.dom.kind == 'seq':
            i = E.as_int(k)
            if not E.choose(z3.And(i < o.dom.n, i >= -o.dom.n)): E.throw('IndexError')
            return o.dom.elem(i if E.choose(i >= 0) else o.dom.n + i)
        if o.dom.kind == 'conc': return getitem(E, tuple(o.dom.items), k)
    h = conc(E, o, (CList, CDict))
    if isinstance(h, CList) and isinstance(k, int) and not isinstance(k, bool):
        try: return h.items[k]
        except IndexError: E.throw('IndexError')
    if isinstance(h, CDict):
        if isconst(k):
            if k in h.items: return h.items[k]
            E.throw('KeyError')
        for x in list(h.items):
            if E.choose(eqv(E, k, x)): return h.items[x]
        E.throw('KeyError')
    kd = ckind(E, o)
    if kd == 'L':
        i = listat(E, o, k)
        sh, l = place(E, o)
        root, path = (o, ()) if isinstance(o, Ref) else (o.root, o.path)
        s, vl = sub(E, sh, l, ('i', i))
        return dec(E, s, vl, root, path + (('i', i),))
    if kd == 'D':
        sh, l = place(E, o)
        root, path = (o, ()) if isinstance(o, Ref) else (o.root, o.path)
        if sh[0] == 'C':
            for kk, s in sh[1]:
                if E.choose(eqv(E, k, kk)):
                    s, vl = sub(E, sh, l, ('c', kk))
                    return dec(E, s, vl, root, path + (('c', kk),))
            E.throw('KeyError')
        if isinstance(k, Ref) and isinstance(E.get(k), (CList, CDict, CSet, Sym)): E.throw('TypeError')
        kt = E.key(k)
        if not E.choose(z3.Select(l[0], kt)): E.throw('KeyError')
        s, vl = sub(E, sh, l, ('k', kt))
        return dec(E, s, vl, root, path + (('k', kt),))
    if kd == 'graph':
        kt = E.key(k)
        if not E.choose(z3.Select(E.get(o).nd, kt)): E.throw('KeyError')
        return GView(o, 'row', kt)
    if kd == 'obj': return E.call(getattr_(E, o, '__getitem__'), [k])
    if kd == 'S': E.throw('TypeError')
    if isinstance(o, Opq):
        m = E.models.get(o.cls)
        if hasattr(m, 'getitem'): return m.getitem(E, o, k)
    if z3.is_expr(o) and o.sort() == S:
        return E.models['str'].getitem(E, Opq(E.box(o), 'str'), k)
    if o is None or isinstance(o, (int, bool, float)) or (z3.is_expr(o) and o.sort() in (I, B)): E.throw('TypeError')
    raise Unsupported('subscript of %r' % (o,))


def setitem(E, o, k, v):
    h = conc(E, o, (CList, CDict))
    if isinstance(h, CDict) and isconst(k):
        d = dict(h.items); d[k] = v
        E.put(o, CDict(d)); return
    if isinstance(h, CList) and isinstance(k, int):
        it = list(h.items)
        if not -len(it) <= k < len(it): E.throw('IndexError')
        it[k] = v; E.put(o, CList(it)); return
    if isinstance(o, GAttr): return ga_set(E, o, E.key(k), v)
    kd = ckind(E, o)
    if kd == 'D':
        sh, l = place(E, o)
        if sh[0] == 'C':
            for kk, s in sh[1]:
                if E.choose(eqv(E, k, kk)):
                    vs = shapeof(E, v)
                    s2, l2 = updat(E, sh, l, (('c', kk),), vs, enc(E, v, vs))
                    freeze(E, v)
                    return setplace(E, o, s2, l2)
            d2 = c2d(sh); l = conv(E, sh, l, d2); sh = d2
        if isinstance(k, Ref) and isinstance(E.get(k), (CList, CDict, CSet, Sym)): E.throw('TypeError')
        kt = E.key(k)
        vs = join(sh[1], shapeof(E, v))
        vl = enc(E, v, vs)
        c = cls_of(k)
        full = join(('D', vs, sh[2]), ('D', '?', c))
        l = conv(E, sh, l, full)
        dom = z3.Store(l[0], kt, True); cardfacts(E, dom)
        freeze(E, v)
        return setplace(E, o, full, [dom] + [z3.Store(a, kt, w) for a, w in zip(l[1:], vl)])
    if kd == 'L':
        i = listat(E, o, k)
        sh, l = place(E, o)
        vs = join(sh[1], shapeof(E, v))
        full = ('L', vs); l = conv(E, sh, l, full)
        freeze(E, v)
        return setplace(E, o, full, [l[0]] + [z3.Store(a, i, w) for a, w in zip(l[1:], enc(E, v, vs))])
    if kd == 'obj': return E.call(getattr_(E, o, '__setitem__'), [k, v])
    if o is None or isinstance(o, (tuple, str, int)): E.throw('TypeError')
    raise Unsupported('item assignment to %r' % (o,))


def delitem(E, o, k):
    if isinstance(o, GAttr): return ga_del(E, o, E.key(k))
    h = conc(E, o, CDict)
    if h is not None and isconst(k):
        if k not in h.items: E.throw('KeyError')
        E.put(o, CDict({a: b for a, b in h.items.items() if a != k})); return
    if ckind(E, o) == 'D':
        sh, l = place(E, o)
        if sh[0] == 'C': l = conv(E, sh, l, c2d(sh)); sh = c2d(sh)
        kt = E.key(k)
        if not E.choose(z3.Select(l[0], kt)): E.throw('KeyError')
        dom = z3.Store(l[0], kt, False); cardfacts(E, dom)
        return setplace(E, o, sh, [dom] + l[1:])
    raise Unsupported('del item')


def slice_(E, o, lo, hi, step):
    if step is not None: raise Unsupported('slice step')
    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)): return o[lo:hi]
    if isinstance(o, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)): return o[lo:hi]
    h = conc(E, o, CList)
    if h is not None and all(x is None or isinstance(x, int) for x in (lo, hi)): return E.alloc(CList(h.items[lo:hi]))
    if E.isstr(o) or (isinstance(o, Opq) and o.cls == 'any' and E.choose(kind(o.t) == K_STR)):
        return strfun(E, 'strslice', [o, lo, hi])
    d = iterate(E, o)
    if d.kind == 'conc':
        r = E.alloc(CList(d.items)); d = iterate_place(E, r)
    if d.kind != 'seq': raise Unsupported('slice')
    n = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)

    def norm(x, dflt):
        if x is None: return dflt
        i = E.as_int(x)
        if i is None: E.throw('TypeError')
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return z3.If(i < n, i, n) if i.as_long() >= 0 else z3.If(n + i >= 0, n + i, 0)
        if E.choose(i >= 0): return z3.If(i < n, i, n)
        return z3.If(n + i >= 0, n + i, 0)
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    m = z3.simplify(z3.If(b > a, b - a, 0))
    a = z3.simplify(a)
    return It(Dom('seq', n=m, elem=lambda i, d=d, a=a: d.elem(a + i), origin=('slice', d, a)), 'list')


# ---------------------------------------------------------------------- iteration
def iterate_place(E, v):
    sh, l = place(E, v)
    addr = v.a if isinstance(v, Ref) else v.root.a
    root, path = (v, ()) if isinstance(v, Ref) else (v.root, v.path)
    if sh[0] == 'S': return setdom(l[0], lambda x: mkkey(E, x, sh[1]), cls=sh[1], addr=addr)
    if sh[0] == 'D': return setdom(l[0], lambda x: mkkey(E, x, sh[2]), cls=sh[2], addr=addr)
    if sh[0] == 'C': return Dom('conc', items=[k for k, _ in sh[1]])
    if sh[0] == 'L':
        if sh[1] == '?': return Dom('conc', items=[])
        arrs = l[1:]
        return Dom('seq', n=l[0], elem=lambda i: dec(E, sh[1], [z3.Select(a, i) for a in arrs], root if containerish(sh[1]) else None, path + (('i', i),)), addr=addr, origin=('list', l))
    raise Unsupported('iteration')


def containerish(sh):
    return isinstance(sh, tuple) and sh[0] in ('S', 'D', 'L', 'C')


def mkkey(E, x, cls):
    if cls == 'int': return E.unboxint(x)
    if cls in ('?', 'any'): return unb(E, x)
    return Opq(x, cls)


def setdom(arr, elem, cls='any', addr=None, origin=None, keydom=True):
    d = Dom('set', arr=arr, elem=elem, cls=cls, addr=addr, origin=origin)
    d.keydom = keydom
    return d


def iterate(E, v):
    if isinstance(v, tuple): return Dom('conc', items=list(v))
    if isinstance(v, str): return Dom('conc', items=list(v))
    if isinstance(v, It): return v.dom
    if isinstance(v, Gen):
        from . import loops
        c = v.node.generators[0] if len(v.node.generators) == 1 else None
        if c is not None and not c.ifs and isinstance(c.target, ast.Name) and isinstance(v.node.elt, ast.Name) and v.node.elt.id == c.target.id:
            return iterate(E, E.ev(c.iter, v.env, v.mod))
        return loops.gendom(E, v)
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, (CList, CSet)): return Dom('conc', items=list(o.items), addr=v.a)
        if isinstance(o, CDict): return Dom('conc', items=list(o.items), addr=v.a)
        if isinstance(o, Sym): return iterate_place(E, v)
        if isinstance(o, HGraph): return graph_iter(E, GView(v, 'nodes'), {})
        if isinstance(o, HObj): return iter_obj(E, v, o)
    if isinstance(v, View): return iterate_place(E, v)
    if isinstance(v, GView): return graph_iter(E, v, {})
    if isinstance(v, GAttr): return ga_iter(E, v, 'keys')
    if isinstance(v, Opq):
        m = E.models.get(v.cls)
        if hasattr(m, 'iter'): return m.iter(E, v)
    if v is None or isinstance(v, (int, bool, float)) or (z3.is_expr(v) and v.sort() in (I, B)): E.throw('TypeError')
    if z3.is_expr(v) and v.sort() == S: return E.models['str'].iter(E, Opq(E.box(v), 'str'))
    raise Unsupported('iteration over %r' % (v,))


def iter_obj(E, v, o):
    """__iter__ written as a generator over one iterable, or returning an iterator"""
    m = member(E, o.cls, '__iter__')
    if m is None: E.throw('TypeError')
    ci, node = m
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    f = Closure(node, None, ci.mod, ci)
    E.inlined.add(E.qual(f))
    env = E.bind(f, [v], {})
    g = generator(node)
    if g is not None: return iterate(E, Gen(g, env, ci.mod))
    if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
        return iterate(E, E.ev(body[0].value, env, ci.mod))
    raise Unsupported('__iter__ of ' + o.cls.name)


seqarr = z3.Function('seqarr', U, z3.ArraySort(I, U))


def items_of(E, t):
    """the items of a list value as an array"""
    s, i = z3.Const('s?sa', U), z3.Int('i?sa')
    x = z3.Select(seqarr(s), i)
    ax = forall([s, i], x == seqat(s, i), patterns=[x])
    if not any(f.eq(ax) for f in E.facts): E.fact(ax)
    return seqarr(t)


def materialise(E, d):
    """new list with the items of a domain"""
    if d.kind == 'conc': return E.alloc(CList(d.items))
    if d.kind == 'seq':
        i = z3.Int('i?m%d' % E.st.nf); E.st.nf += 1
        v = d.elem(i)
        sh = shapeof(E, v)
        n0 = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
        if isinstance(d.origin, Opq) and isinstance(v, Opq) and v.t.eq(seqat(d.origin.t, i)) and n0.eq(seqlen(d.origin.t)) and len(leafsorts(sh)) == 1:
            return E.alloc(Sym(('L', sh), [n0, items_of(E, d.origin.t)]))
        ls = [E.fresh('l', z3.ArraySort(I, s)) for s in leafsorts(sh)]
        vl = enc(E, v, sh)
        n = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
        for a, w in zip(ls, vl):
            from .folds import heads
            E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == w), patterns=[z3.Select(a, i)] + heads(w, i)[:1]))
        r = E.alloc(Sym(('L', sh), [n] + ls))
        return r
    # a set in some order: positions are a bijection
    n = setcard(E, d.arr)
    arr = E.fresh('order', z3.ArraySort(I, U)); pos = z3.Function('pos!%d' % E.st.nf, U, I); E.st.nf += 1
    i, x = z3.Int('i?o'), z3.Const('x?o', U)
    E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(d.arr, z3.Select(arr, i)), pos(z3.Select(arr, i)) == i)), patterns=[z3.Select(arr, i)]))
    E.assume(forall([x], z3.Implies(z3.Select(d.arr, x), z3.And(pos(x) >= 0, pos(x) < n, z3.Select(arr, pos(x)) == x)), patterns=[z3.Select(d.arr, x)]))
    base = It(Dom('seq', n=n, elem=lambda j: d.elem(z3.Select(arr, j)), origin=('order', d, arr, pos)))
    return materialise(E, base.dom)


# ---------------------------------------------------------------------- operators
def isquot(x):
    """a quotient, or what was calculated from one: a float"""
    if not isinstance(x, Opq): return False
    n = x.t.decl().name()
    return n == 'div' or (n in ('op_Add', 'op_Sub', 'op_Mult') and any(isquot(Opq(c, 'any')) for c in x.t.children())
                        and all(isquot(Opq(c, 'any')) or c.decl().name().startswith(('lit:float:', 'lit:int:', 'box_int')) for c in x.t.children()))


def binop(E, op, a, b):
    num = lambda v: isinstance(v, (int, float)) or (z3.is_expr(v) and v.sort() in (I, B)) or (isinstance(v, Opq) and v.cls == 'int')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b}[op]()
        except ZeroDivisionError:
            E.throw('ZeroDivisionError')
        except KeyError:
            raise Unsupported(op)
    if isinstance(a, str) and isinstance(b, str) and op == 'Add': return a + b
    if op == 'Mult' and isinstance(a, str) and type(b) is int and len(a) * b < 10000: return a * b
    if op == 'Mult' and isinstance(b, str) and type(a) is int and len(b) * a < 10000: return b * a
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (ckind(E, a) == 'S' or (isinstance(a, It) and ckind(E, b) == 'S')):
        return E.alloc(setop(E, {'BitOr': '|', 'BitAnd': '&', 'Sub': '-', 'BitXor': '^'}[op], a, b))
    if ckind(E, a) == 'obj':
        nm = {'BitOr': '__or__', 'BitAnd': '__and__', 'Sub': '__sub__', 'BitXor': '__xor__', 'Add': '__add__'}.get(op)
        if nm and member(E, E.get(a).cls, nm): return E.call(getattr_(E, a, nm), [b])
    if op == 'Add' and (ckind(E, a) == 'L' or (isinstance(a, Opq) and a.cls in ('list', 'strlist')) or isinstance(a, It)):
        x = conc(E, a, CList); y = conc(E, b, CList)
        if x is not None and y is not None: return E.alloc(CList(x.items + y.items))
        r = materialise(E, iterate(E, a)); list_extend(E, r, b); return r
    if op == 'Mult' and (ckind(E, a) == 'L' or ckind(E, b) == 'L'):
        if ckind(E, b) == 'L': a, b = b, a
        x = conc(E, a, CList)
        if x is not None and len(x.items) == 1:
            n = E.as_int(b)
            if n is None: E.throw('TypeError')
            m = z3.If(n > 0, n, 0)
            return materialise(E, Dom('seq', n=z3.simplify(m), elem=lambda i: x.items[0]))
    if op == 'Mod' and E.isstr(a): return Opq(E.fresh('text', U), 'str')
    if op == 'Add' and (E.isstr(a) or E.isstr(b)):
        for x in (a, b):
            if not E.isstr(x):
                if isinstance(x, Opq) and x.cls == 'any':
                    if not E.choose(kind(x.t) == K_STR): E.throw('TypeError')
                else: E.throw('TypeError')
        return concat(E, [x if not isinstance(x, Opq) else Opq(x.t, 'str') for x in (a, b)])
    if op in ('Add', 'Sub', 'Mult') and (isquot(a) or isquot(b)) and all(isquot(x) or num(x) or isinstance(x, float) for x in (a, b)):
        t = z3.Function('op_' + op, U, U, U)(E.box(a), E.box(b))
        E.fact(kind(t) == K_FLOAT)
        return Opq(t, 'any')
    for x in (a, b):
        if x is None or (isinstance(x, Opq) and x.cls == 'any' and E.choose(kind(x.t) == K_NONE)): E.throw('TypeError')
    ints = (num(a) or isinstance(a, Opq) and a.cls == 'any') and (num(b) or isinstance(b, Opq) and b.cls == 'any')
    if ints and not isinstance(a, float) and not isinstance(b, float):
        if op in ('Add', 'Sub', 'Mult') and (num(a) or num(b)):
            x, y = E.as_int(a), E.as_int(b)
            if x is not None and y is not None:
                return z3.simplify({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]())
        if op in ('FloorDiv', 'Mod', 'Div') and num(a) and num(b):
            x, y = E.as_int(a), E.as_int(b)
            if E.choose(y == 0): E.throw('ZeroDivisionError')
            if op == 'Div':
                t = z3.Function('div', I, I, U)(x, y)
                E.fact(kind(t) == K_FLOAT)
                return Opq(t, 'any')
            if E.choose(y > 0): return x / y if op == 'FloorDiv' else x % y
            raise Unsupported('division by a negative number')
    if op == 'Add' and isinstance(a, Opq) or isinstance(b, Opq):
        x, y = E.box(a), E.box(b)
        if op == 'Add':
            f = z3.Function('addable', U, U, B)
            if not E.choose(f(x, y)): E.throw('TypeError')
            if isinstance(a, Opq) and isinstance(b, Opq):
                E.fact(z3.Implies(z3.And(kind(x) == K_INT, kind(y) == K_INT), z3.And(f(x, y), plus(x, y) == bi(ui(x) + ui(y)))))
            return Opq(plus(x, y), 'any')
        return Opq(z3.Function('op_' + op, U, U, U)(x, y), 'any')
    if isinstance(a, float) or isinstance(b, float): return Opq(E.fresh('float', U), 'any')
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


def iop(E, op, a, b):
    k = ckind(E, a)
    if k == 'S' and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        s = setop(E, {'BitOr': '|', 'BitAnd': '&', 'Sub': '-', 'BitXor': '^'}[op], a, b)
        setplace(E, a, s.shape, s.leaves); return a
    if k == 'L' and op == 'Add':
        list_extend(E, a, b); return a
    if k == 'obj':
        nm = {'BitOr': '__ior__', 'BitAnd': '__iand__', 'Sub': '__isub__', 'BitXor': '__ixor__', 'Add': '__iadd__'}.get(op)
        if nm and member(E, E.get(a).cls, nm): return E.call(getattr_(E, a, nm), [b])
    return binop(E, op, a, b)


# ---------------------------------------------------------------------- methods
def list_append(E, o, v):
    h = conc(E, o, CList)
    if h is not None:
        E.put(o, CList(h.items + (v,))); return
    sh, l = place(E, o)
    vs = join(sh[1], shapeof(E, v))
    full = ('L', vs); l = conv(E, sh, l, full)
    vl = enc(E, v, vs)
    freeze(E, v)
    setplace(E, o, full, [z3.simplify(l[0] + 1)] + [z3.Store(a, l[0], w) for a, w in zip(l[1:], vl)])


def list_extend(E, o, b):
    if isinstance(b, Gen):
        from . import loops
        b = loops.comprehend(E, b, 'list')
    d = iterate(E, b)
    h = conc(E, o, CList)
    if h is not None and d.kind == 'conc':
        E.put(o, CList(h.items + tuple(d.items))); return
    if d.kind == 'conc':
        for x in d.items: list_append(E, o, x)
        return
    if d.kind == 'set': d = iterate(E, materialise(E, d))
    if h is not None and len(h.items) == 0:
        m = materialise(E, d); mo = E.get(m)
        E.put(o, mo); return
    sh, l = place(E, o)
    i = z3.Int('i?x%d' % E.st.nf); E.st.nf += 1
    n = l[0]
    v = d.elem(i - n)
    vs = join(sh[1], shapeof(E, v)); full = ('L', vs)
    l = conv(E, sh, l, full)
    vl = enc(E, v, vs)
    dn = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
    ls = []
    for a, w in zip(l[1:], vl):
        f = E.fresh('l', a.sort())
        E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(f, i) == z3.Select(a, i)), patterns=[z3.Select(f, i)] + ([z3.Select(a, i)] if patok(z3.Select(a, i)) else [])))
        E.assume(forall([i], z3.Implies(z3.And(i >= n, i < n + dn), z3.Select(f, i) == w), patterns=[z3.Select(f, i)]))
        w0 = z3.simplify(z3.substitute(w, (i, i + n)))
        if okpat(w0, i) and not z3.substitute(w0, (i, z3.IntVal(0))).eq(w0):
            E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < dn), z3.Select(f, n + i) == w0), patterns=[w0]))
        ls.append(f)
    setplace(E, o, full, [z3.simplify(n + dn)] + ls)


def dict_update(E, o, v):
    h, g = conc(E, o, CDict), conc(E, v, CDict)
    if h is not None and g is not None:
        d = dict(h.items); d.update(g.items); E.put(o, CDict(d)); return
    if g is not None:
        for k, x in g.items.items(): setitem(E, o, k, x)
        return
    if isinstance(v, GAttr):
        gg = E.get(v.g)
        bd, bl, bsh, bc = ga_arrays(E, v)[0], [ga_arrays(E, v)[1]], 'U', 'any'
    elif ckind(E, v) == 'D':
        bs_, l = place(E, v)
        if bs_[0] == 'C': l = conv(E, bs_, l, c2d(bs_)); bs_ = c2d(bs_)
        bd, bl, bsh, bc = l[0], l[1:], bs_[1], bs_[2]
    else:
        dm = iterate(E, v)
        if dm.kind == 'conc':
            for p in dm.items: setitem(E, o, *E.unpack(p, 2))
            return
        raise Unsupported('update')
    sh, l = place(E, o)
    if sh[0] == 'C': l = conv(E, sh, l, c2d(sh)); sh = c2d(sh)
    full = join(sh, ('D', bsh, bc))
    l = conv(E, sh, l, full)
    bl = conv(E, ('D', bsh, bc), [bd] + list(bl), full)[1:]
    if l[0].eq(EMPTY):
        setplace(E, o, full, [bd] + list(bl)); return
    dom = z3.SetUnion(l[0], bd); cardfacts(E, dom)
    out = [overlay(E, bd, b, a) for a, b in zip(l[1:], bl)]
    setplace(E, o, full, [dom] + out)


def intbox(E):
    """an integer put in a box comes out again, for every integer"""
    i = z3.Int('i?bx')
    for ax in (forall([i], ui(bi(i)) == i, patterns=[bi(i)]), forall([i], kind(bi(i)) == K_INT, patterns=[bi(i)])):
        if not any(x.eq(ax) for x in E.facts): E.fact(ax)


def allcard(E):
    """a set without members is the empty one, for every set"""
    s = z3.Const('s?cd', UB)
    ax = forall([s], z3.And(card(s) >= 0, (card(s) == 0) == (s == EMPTY)), patterns=[card(s)])
    if not any(x.eq(ax) for x in E.facts): E.fact(ax)


def overlay(E, d, b, a):
    """the values of b on the set d, those of a elsewhere"""
    so = a.sort()
    f = z3.Function('overlay.%s' % so.range().sexpr().replace(' ', '_'), UB, so, so, so)
    D, B_, A, k = z3.Const('D?u', UB), z3.Const('B?u', so), z3.Const('A?u', so), z3.Const('k?u', U)
    t = z3.Select(f(D, B_, A), k)
    ax = forall([D, B_, A, k], t == z3.If(z3.Select(D, k), z3.Select(B_, k), z3.Select(A, k)), patterns=[t])
    if not any(x.eq(ax) for x in E.facts): E.fact(ax)
    return f(d, b, a)


def call_method(E, o, name, args, kw):
    if isinstance(o, str) or (z3.is_expr(o) and o.sort() == S): return str_method(E, o, name, args, kw)
    if isinstance(o, Opq):
        m = E.models.get(o.cls)
        if o.cls == 'str': return str_method(E, o, name, args, kw)
        if hasattr(m, 'method'): return m.method(E, o, name, args, kw)
        raise Unsupported('method %s of %s' % (name, o.cls))
    if isinstance(o, GView): return gview_method(E, o, name, args, kw)
    if isinstance(o, GAttr): return ga_method(E, o, name, args, kw)
    if isinstance(o, It): return it_method(E, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index' or name == 'count': raise Unsupported('tuple.' + name)
    k = ckind(E, o)
    if k == 'graph': return graph_method(E, o, name, args, kw)
    if k == 'S': return set_method(E, o, name, args, kw)
    if k == 'D': return dict_method(E, o, name, args, kw)
    if k == 'L': return list_method(E, o, name, args, kw)
    raise Unsupported('method %s of %r' % (name, o))


def it_method(E, o, name, args, kw):
    if name == '__iter__': return o
    if name == '__next__': return next_(E, o)
    if o.what == 'list' and name == 'copy': return materialise(E, o.dom)
    raise Unsupported('method %s of an iterator' % name)


def next_(E, it, default=None, has=False):
    d = it.dom if isinstance(it, It) else iterate(E, it)
    if d.kind == 'conc':
        if d.items: return d.items[0]
    elif d.kind == 'seq':
        if E.choose(d.n > 0): return d.elem(z3.IntVal(0))
    else:
        if E.choose(d.arr != EMPTY):
            x = E.fresh('member', U); E.assume(z3.Select(d.arr, x)); setcard(E, d.arr)
            return d.elem(x)
    if has: return default
    E.throw('StopIteration')


def set_method(E, o, name, args, kw):
    if name == 'add': return set_add(E, o, args[0])
    if name == 'clear': E.put(o, CSet()) if isinstance(o, Ref) else setplace(E, o, place(E, o)[0], [EMPTY]); return None
    if name == 'copy': return E.alloc(E.get(o)) if isinstance(o, Ref) else E.alloc(Sym(*place(E, o)))
    h = conc(E, o, CSet)
    if name in ('discard', 'remove'):
        if h is not None and isconst(args[0]):
            if name == 'remove' and args[0] not in h.items: E.throw('KeyError')
            E.put(o, CSet([x for x in h.items if x != args[0]])); return None
        sh, l = place(E, o)
        x = E.key(args[0])
        if name == 'remove' and not E.choose(z3.Select(l[0], x)): E.throw('KeyError')
        a = z3.Store(l[0], x, False); cardfacts(E, a)
        setplace(E, o, sh, [a]); return None
    if name == 'pop':
        sh, l = place(E, o)
        if not E.choose(l[0] != EMPTY): E.throw('KeyError')
        x = E.fresh('popped', U)
        E.assume(z3.Select(l[0], x))
        a = z3.Store(l[0], x, False); cardfacts(E, a)
        setplace(E, o, sh, [a])
        return mkkey(E, x, sh[1])
    if name in ('update', 'union', 'difference', 'intersection', 'symmetric_difference', 'difference_update', 'intersection_update'):
        op = {'update': '|', 'union': '|', 'difference': '-', 'difference_update': '-', 'intersection': '&', 'intersection_update': '&', 'symmetric_difference': '^'}[name]
        r = Sym(*place(E, o))
        for b in args:
            b = toset(E, b)
            rr = E.alloc(r); r = setop(E, op, rr, b)
        if name in ('update', 'difference_update', 'intersection_update'):
            setplace(E, o, r.shape, r.leaves); return None
        return E.alloc(r)
    if name in ('issubset', 'issuperset'):
        a, b = setlike(E, o)[1], setlike(E, toset(E, args[0]))[1]
        return z3.IsSubset(a, b) if name == 'issubset' else z3.IsSubset(b, a)
    if name == 'isdisjoint':
        a, b = setlike(E, o)[1], setlike(E, toset(E, args[0]))[1]
        return z3.SetIntersect(a, b) == EMPTY
    if name == '__iter__': return It(iterate(E, o))
    if name == '__len__': return seqlen_of(E, o)
    if name == '__contains__': return contains(E, o, args[0])
    raise Unsupported('set.' + name)


def toset(E, v):
    if ckind(E, v) == 'S': return v
    return construct(E, Cls('set'), [v], {})


def dict_method(E, o, name, args, kw):
    h = conc(E, o, CDict)
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default')
        try:
            return getitem(E, o, args[0])
        except PyRaise as e:
            if e.exc.cls != 'KeyError': raise
            return d
    if name in ('keys', '__iter__'): return It(iterate(E, o), 'keys')
    if name in ('values', 'items'):
        if h is not None:
            return It(Dom('conc', items=[(k, v) if name == 'items' else v for k, v in h.items.items()]), name)
        sh, l = place(E, o)
        if sh[0] == 'C':
            return It(Dom('conc', items=[(k, getitem(E, o, k)) if name == 'items' else getitem(E, o, k) for k, _ in sh[1]]), name)
        if sh[1] == '?': return It(Dom('conc', items=[]), name)
        root, path = (o, ()) if isinstance(o, Ref) else (o.root, o.path)

        def elem(x):
            s, vl = sub(E, sh, l, ('k', x))
            v = dec(E, s, vl, root if containerish(s) else None, path + (('k', x),))
            return (mkkey(E, x, sh[2]), v) if name == 'items' else v
        d = setdom(l[0], elem, cls=sh[2], addr=root.a, keydom=False, origin=('items', sh, l))
        return It(d, name)
    if name == 'update':
        for a in args: dict_update(E, o, a)
        for k, v in kw.items(): setitem(E, o, k, v)
        return None
    if name == 'copy':
        return E.alloc(E.get(o)) if isinstance(o, Ref) else E.alloc(Sym(*place(E, o)))
    if name == 'setdefault':
        c = contains(E, o, args[0])
        if not E.choose(c) if not isinstance(c, bool) else not c:
            setitem(E, o, args[0], args[1] if len(args) > 1 else None)
        return getitem(E, o, args[0])
    if name == 'pop':
        c = contains(E, o, args[0])
        if not E.choose(c):
            if len(args) > 1: return args[1]
            E.throw('KeyError')
        v = getitem(E, o, args[0])
        if isinstance(v, View): v = E.alloc(Sym(*place(E, v)))
        delitem(E, o, args[0]); return v
    if name == 'popitem':
        if h is not None and not h.items: E.throw('KeyError')
        sh, l = place(E, o)
        if not E.choose(l[0] != EMPTY): E.throw('KeyError')
        x = E.fresh('popped', U); E.assume(z3.Select(l[0], x))
        s, vl = sub(E, sh, l, ('k', x)); v = dec(E, s, vl)
        a = z3.Store(l[0], x, False); cardfacts(E, a)
        setplace(E, o, sh, [a] + l[1:])
        return (mkkey(E, x, sh[2]), v)
    if name == 'clear': E.put(o, CDict({})); return None
    if name == '__contains__': return contains(E, o, args[0])
    if name == '__len__': return seqlen_of(E, o)
    if name == '__setitem__': return setitem(E, o, args[0], args[1])
    if name == '__delitem__': return delitem(E, o, args[0])
    if name == '__getitem__': return getitem(E, o, args[0])
    raise Unsupported('dict.' + name)


def list_method(E, o, name, args, kw):
    h = conc(E, o, CList)
    if name == 'append': return list_append(E, o, args[0])
    if name == 'extend': return list_extend(E, o, args[0])
    if name == 'copy': return E.alloc(E.get(o)) if isinstance(o, Ref) else E.alloc(Sym(*place(E, o)))
    if name == 'clear': E.put(o, CList(())); return None
    if name == 'reverse':
        if h is not None: E.put(o, CList(h.items[::-1])); return None
        sh, l = place(E, o)
        i = z3.Int('i?r'); out = []
        for a in l[1:]:
            f = E.fresh('l', a.sort())
            E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < l[0]), z3.Select(f, i) == z3.Select(a, l[0] - 1 - i)), patterns=[z3.Select(f, i)]))
            E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < l[0]), z3.Select(a, i) == z3.Select(f, l[0] - 1 - i)), patterns=[z3.Select(a, i)]))
            out.append(f)
        setplace(E, o, sh, [l[0]] + out); return None
    if name == 'pop':
        if h is not None and all(isinstance(a, int) for a in args):
            if not h.items: E.throw('IndexError')
            it = list(h.items); v = it.pop(*args); E.put(o, CList(it)); return v
        if not args:
            sh, l = place(E, o)
            if not E.choose(l[0] > 0): E.throw('IndexError')
            n = z3.simplify(l[0] - 1)
            v = dec(E, sh[1], [z3.Select(a, n) for a in l[1:]])
            setplace(E, o, sh, [n] + l[1:]); return v
    if name == 'count':
        if h is not None and all(isconst(x) for x in h.items) and isconst(args[0]): return list(h.items).count(args[0])
        if h is not None:
            t = z3.IntVal(0)
            for x in h.items:
                c = eqv(E, x, args[0]); t = t + (int(c) if isinstance(c, bool) else z3.If(c, 1, 0))
            return z3.simplify(t)
    if name == '__iter__': return It(iterate(E, o))
    if name == '__len__': return seqlen_of(E, o)
    raise Unsupported('list.' + name)


# ---------------------------------------------------------------------- construction and builtins
def construct(E, c, args, kw):
    n = c.name
    if c.info is None:
        if n in ('type', 'range', 'property'): return call_builtin(E, Builtin(n), args, kw)
        if n in EXC: return Exc(n, tuple(args))
        if n in ('set', 'frozenset'):
            if not args: return E.alloc(CSet())
            if isinstance(args[0], Gen):
                from . import loops
                return loops.comprehend(E, args[0], 'set')
            if ckind(E, args[0]) == 'S':
                return E.alloc(E.get(args[0]) if isinstance(args[0], Ref) else Sym(*place(E, args[0])))
            d = iterate(E, args[0])
            if d.kind == 'conc':
                r = E.alloc(CSet())
                for x in d.items: set_add(E, r, x)
                return r
            if d.kind == 'set' and d.keydom: return E.alloc(Sym(('S', d.cls), [d.arr]))
            return set_of(E, d)
        if n == 'list':
            if not args: return E.alloc(CList(()))
            if isinstance(args[0], Gen):
                from . import loops
                return loops.comprehend(E, args[0], 'list')
            return materialise(E, iterate(E, args[0]))
        if n == 'tuple':
            if not args: return ()
            if isinstance(args[0], Gen):
                from . import loops
                v = loops.comprehend(E, args[0], 'list')
            else: v = args[0]
            d = iterate(E, v)
            if d.kind == 'conc': return tuple(d.items)
            if d.kind == 'seq' and isinstance(v, Opq) and v.cls in ('list', 'strlist', 'any'):
                f = z3.Function('tuple_of', U, U); t = f(v.t)
                E.fact(kind(t) == K_TUPLE); E.fact(seqlen(t) == seqlen(v.t))
                i = z3.Int('i?t')
                E.assume(forall([i], seqat(t, i) == seqat(v.t, i), patterns=[seqat(t, i)]))
                return Opq(t, v.cls if v.cls != 'any' else 'list')
            r = materialise(E, d)
            sh, l = place(E, r)
            return It(Dom('seq', n=l[0], elem=iterate_place(E, r).elem), 'tuple')
        if n == 'dict':
            r = E.alloc(CDict({}))
            if args: dict_update(E, r, args[0])
            for k, v in kw.items(): setitem(E, r, k, v)
            return r
        if n == 'str': return str_(E, args[0]) if args else ''
        if n == 'bool': return E.truthc(args[0])
        if n == 'int': return to_int(E, args[0])
        if n == 'float':
            if isinstance(args[0], str) and args[0] in ('inf', '-inf'): return float(args[0])
            if isinstance(args[0], (int, float)): return float(args[0])
            raise Unsupported('float')
        raise Unsupported('construction of ' + n)
    if 'new:' + n in E.calls: return E.calls['new:' + n](E, args, kw)
    bs_ = bases(E, c)
    if any(b in EXC or b in ('Exception', 'Warning') for b in bs_) or c.info.mod.name.endswith('mkExceptions'):
        return Exc(n, tuple(args))
    r = E.alloc(HObj(c, {}))
    m = member(E, c, '__init__')
    if m is not None:
        E.call_closure(Closure(m[1], None, m[0].mod, m[0]), [r] + list(args), kw)
    return r


def set_of(E, d):
    """set of the items of a seq domain (or of a set domain whose elements are computed)"""
    r = E.fresh('setof', UB)
    if d.kind == 'seq':
        i, u = z3.Int('i?s'), z3.Const('u?s', U)
        v = d.elem(i); t = E.key(v)
        w = z3.Function('where!%d' % E.st.nf, U, I); E.st.nf += 1
        n = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
        E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(r, t)), patterns=[t] if okpat(t, i) else []))
        E.assume(forall([u], z3.Implies(z3.Select(r, u), z3.And(w(u) >= 0, w(u) < n, z3.substitute(t, (i, w(u))) == u)), patterns=[z3.Select(r, u)]))
        cardfacts(E, r)
        return E.alloc(Sym(('S', cls_of(v)), [r]))
    x, u = z3.Const('x?s', U), z3.Const('u?s', U)
    v = d.elem(x); t = E.key(v)
    w = z3.Function('where!%d' % E.st.nf, U, U); E.st.nf += 1
    E.assume(forall([x], z3.Implies(z3.Select(d.arr, x), z3.Select(r, t)), patterns=[z3.Select(d.arr, x)]))
    E.assume(forall([u], z3.Implies(z3.Select(r, u), z3.And(z3.Select(d.arr, w(u)), z3.substitute(t, (x, w(u))) == u)), patterns=[z3.Select(r, u)]))
    cardfacts(E, r)
    return E.alloc(Sym(('S', cls_of(v)), [r]))


def okpat(t, i):
    """usable as a pattern: an uninterpreted application containing i"""
    return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and patok(t)


def to_int(E, v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, float): return int(v)
    if isinstance(v, str):
        try: return int(v)
        except ValueError: E.throw('ValueError')
    if z3.is_expr(v) and v.sort() == I: return v
    if z3.is_expr(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if v is None: E.throw('TypeError')
    if isinstance(v, Opq):
        if v.cls == 'int': return E.unboxint(v.t)
        if v.cls == 'any':
            if E.choose(z3.Or(kind(v.t) == K_NONE, kind(v.t) == K_LIST)): E.throw('TypeError')
            if E.choose(kind(v.t) == K_INT): return E.unboxint(v.t)
            if not E.choose(kind(v.t) == K_STR): return z3.Function('trunc', U, I)(v.t)
        f = z3.Function('py.isnumeral', U, B)
        if not E.choose(f(v.t)): E.throw('ValueError')
        return z3.Function('py.int_of_str', U, I)(v.t)
    if z3.is_expr(v) and v.sort() == S: return to_int(E, Opq(E.box(v), 'str'))
    E.throw('TypeError')


def isinstance_(E, v, c):
    if isinstance(c, tuple):
        cs = [isinstance_(E, v, x) for x in c]
        if any(x is True for x in cs): return True
        cs = [x for x in cs if x is not False]
        return z3.Or(*cs) if cs else False
    if isinstance(c, Opq):
        return z3.Function('isinstance', U, U, B)(E.box(v), c.t)
    if isinstance(c, Builtin):
        nm = c.name.split('.')[-1]
        if nm in ('Callable',): return isinstance(v, (Closure, Bound, Builtin, Cls)) or (isinstance(v, Opq) and v.cls == 'callable')
        if nm in ('Iterable', 'Container', 'OrderedDict', 'Graph', 'DiGraph', 'Hashable', 'IOBase', 'chain', 'Sized', 'MultiDiGraph', 'MultiGraph'): pass
        else: raise Unsupported('isinstance %s' % c.name)
    else:
        nm = c.name
    if isinstance(v, bool): return nm in ('bool', 'int', 'object')
    if isinstance(v, int): return nm == 'int'
    if isinstance(v, float): return nm == 'float'
    if v is None: return False
    if isinstance(v, str) or (z3.is_expr(v) and v.sort() == S): return nm in ('str', 'Iterable', 'Container')
    if isinstance(v, tuple): return nm in ('tuple', 'Iterable', 'Container')
    if z3.is_expr(v): return nm == 'int' if v.sort() == I else nm in ('bool', 'int')
    if isinstance(v, Opq):
        m = E.models.get(v.cls)
        if hasattr(m, 'isa'):
            return m.isa(E, v, nm)
        raise Unsupported('isinstance of ' + v.cls)
    if isinstance(v, It): return nm in ('Iterable',) or (nm == 'list' and v.what == 'list') or (nm == 'tuple' and v.what == 'tuple')
    k = ckind(E, v)
    if k == 'S': return nm in ('set', 'Iterable', 'Container')
    if k == 'D': return nm in ('dict', 'Iterable', 'Container')
    if k == 'L': return nm in ('list', 'Iterable', 'Container')
    if k == 'graph': return nm == ('DiGraph' if E.get(v).directed else 'Graph') or nm == 'Graph'
    if k == 'obj':
        if nm in bases(E, E.get(v).cls): return True
        if nm == 'Iterable': return member(E, E.get(v).cls, '__iter__') is not None
        return False
    return False


def call_builtin(E, f, args, kw):
    n = f.name
    if n in E.calls: return E.calls[n](E, args, kw)
    if n == 'collections.namedtuple': return Builtin('namedtuple', None)
    if n == 'namedtuple' and not kw: return tuple(args)
    if n.startswith('re.'):
        from . import regex
        return regex.call(E, n, args, kw)
    if n == 'len':
        v = args[0]
        r = seqlen_of(E, v)
        if r is None:
            if ckind(E, v) == 'obj': return E.call(getattr_(E, v, '__len__'), [])
            E.throw('TypeError')
        return r
    if n == 'isinstance': return isinstance_(E, args[0], args[1])
    if n == 'type':
        v = args[0]
        if isinstance(v, Ref) and isinstance(E.get(v), HObj): return E.get(v).cls
        if isinstance(v, Opq):
            return Opq(z3.Function('typeof', U, U)(v.t), 'type')
        k = ckind(E, v)
        if k in ('S', 'D', 'L'): return Cls({'S': 'set', 'D': 'dict', 'L': 'list'}[k])
        if isinstance(v, (bool, int, str, float, tuple)): return Cls(type(v).__name__)
        raise Unsupported('type()')
    if n == 'hash':
        v = args[0]
        if ckind(E, v) == 'obj' and member(E, E.get(v).cls, '__hash__'):
            return E.call(getattr_(E, v, '__hash__'), [])
        E.notes.add('hash() does not collide on unequal values')
        return hash_(E, E.key(v))
    if n == 'getattr':
        if isinstance(args[1], str):
            try: return getattr_(E, args[0], args[1])
            except PyRaise as e:
                if e.exc.cls == 'AttributeError' and len(args) > 2: return args[2]
                raise
        raise Unsupported('getattr with an unknown name')
    if n == 'hasattr':
        try:
            getattr_(E, args[0], args[1]); return True
        except PyRaise as e:
            if e.exc.cls == 'AttributeError': return False
            raise
    if n == 'setattr' and isinstance(args[1], str): return setattr_(E, args[0], args[1], args[2])
    if n == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        d = iterate(E, args[0])
        return It(enum_(E, d, start))
    if n == 'range':
        if all(isinstance(a, int) for a in args):
            r = range(*args)
            if len(r) <= 12: return It(Dom('conc', items=list(r)))
        a = [E.as_int(x) for x in args]
        if any(x is None for x in a): E.throw('TypeError')
        if len(a) == 1: lo, hi = z3.IntVal(0), a[0]
        elif len(a) == 2: lo, hi = a
        else: raise Unsupported('range step')
        return It(Dom('seq', n=z3.simplify(z3.If(hi > lo, hi - lo, 0)), elem=lambda i: z3.simplify(lo + i), origin=('range', lo, hi)))
    if n == 'zip':
        ds = [iterate(E, a) for a in args]
        if all(d.kind == 'conc' for d in ds): return It(Dom('conc', items=list(zip(*[d.items for d in ds]))))
        ds = [d if d.kind == 'seq' else iterate(E, materialise(E, d)) for d in ds]
        ds = [d if d.kind == 'seq' else iterate_place(E, E.alloc(tosym(E, CList(d.items)))) for d in ds]
        nn = ds[0].n
        for d in ds[1:]: nn = z3.If(d.n < nn, d.n, nn)
        return It(Dom('seq', n=z3.simplify(nn) if z3.is_expr(nn) else z3.IntVal(nn), elem=lambda i: tuple(d.elem(i) for d in ds)))
    if n in ('iter',): return args[0] if isinstance(args[0], It) else It(iterate(E, args[0]))
    if n == 'next': return next_(E, args[0], args[1] if len(args) > 1 else None, len(args) > 1)
    if n == 'print': return None
    if n == 'repr': return Opq(E.fresh('text', U), 'str')
    if n == 'abs':
        i = E.as_int(args[0])
        if i is None: E.throw('TypeError')
        return z3.simplify(z3.If(i >= 0, i, -i))
    if n == 'callable': return isinstance(args[0], (Closure, Bound, Builtin, Cls))
    if n in ('sum', 'min', 'max', 'any', 'all', 'sorted', 'reversed', 'map', 'filter'):
        from . import loops
        return loops.reduce_(E, n, args, kw)
    if n in ('copy.copy', 'copy.deepcopy'):
        return copy_(E, args[0])
    if n in ('networkx.Graph', 'networkx.DiGraph'):
        if args or kw: raise Unsupported('graph arguments')
        return E.alloc(newgraph(n.endswith('DiGraph')))
    if n == 'collections.OrderedDict': return construct(E, Cls('dict'), args, kw)
    if n == 'collections.abc.Mapping.values': return Opq(E.fresh('values', U), 'any')
    if n == 'str.format' or n == 'str.join': return str_method(E, args[0], n[4:], args[1:], kw)
    if n == 'networkx.selfloop_edges':
        return It(selfloops(E, args[0]))
    if n == 'itertools.chain.from_iterable':
        raise Unsupported(n)
    raise Unsupported('function ' + n)


hash_f = z3.Function('hash', U, I)
unhash = z3.Function('unhash', I, U)


def hash_(E, t):
    h = hash_f(t)
    E.fact(unhash(h) == t)
    return h


def enum_(E, d, start):
    if d.kind == 'conc' and isinstance(start, int): return Dom('conc', items=[(start + i, x) for i, x in enumerate(d.items)])
    s = E.as_int(start)
    if d.kind == 'seq':
        return Dom('seq', n=d.n, elem=lambda i: (z3.simplify(s + i), d.elem(i)), addr=d.addr, origin=d.origin)
    if d.kind == 'set':
        r = setdom(d.arr, d.elem, cls=d.cls, addr=d.addr, origin=d.origin, keydom=False)
        r.counter = s
        return r
    raise Unsupported('enumerate')


def copy_(E, v):
    if isinstance(v, Ref):
        o = E.get(v)
        if isinstance(o, HObj):
            if o.cls.info is not None and any(member(E, o.cls, n) for n in ('__copy__', '__reduce__', '__reduce_ex__', '__new__', '__slots__')): raise Unsupported('copy protocol')
            if o.cls.info is None or member(E, o.cls, '__getstate__') is None: return E.alloc(HObj(o.cls, dict(o.attrs), o.lazy))
            st = E.call(getattr_(E, v, '__getstate__'), [])
            n = E.alloc(HObj(o.cls, {}, o.lazy))
            if member(E, o.cls, '__setstate__') is not None: E.call(getattr_(E, n, '__setstate__'), [st])
            else: setattr_(E, n, '__dict__', E.alloc(E.get(st)))
            return n
        return E.alloc(o)
    if isinstance(v, View): return E.alloc(Sym(*place(E, v)))
    return v


def enter(E, v):
    if isinstance(v, Opq):
        m = E.models.get(v.cls)
        if hasattr(m, 'enter'): return m.enter(E, v)
    raise Unsupported('with %r' % (v,))


# ---------------------------------------------------------------------- graphs
def newgraph(directed):
    e2 = z3.K(U, EMPTY)
    return HGraph(directed, EMPTY, e2, z3.Const('nv0', GS['nv']), e2, z3.K(U, e2), z3.Const('ev0', GS['ev']))


def sel2(a, u, v): return z3.Select(z3.Select(a, u), v)
def st2(a, u, v, x): return z3.Store(a, u, z3.Store(z3.Select(a, u), v, x))


def ga_arrays(E, a):
    g = E.get(a.g)
    if a.v is None: return z3.Select(g.na, a.u), z3.Select(g.nv, a.u)
    return sel2(g.ea, a.u, a.v), sel2(g.ev, a.u, a.v)


def ga_has(E, a, k): return z3.Select(ga_arrays(E, a)[0], k)


def ga_get(E, a, k):
    if not E.choose(ga_has(E, a, k)): E.throw('KeyError')
    x = z3.Select(ga_arrays(E, a)[1], k)
    if k.sexpr() in attrclass(E):
        E.assume(kind(x) == K_INT)
        return Opq(x, 'int')
    return unb(E, x)


def attrclass(E):
    """attributes that hold integers: by precondition for the graphs that are given, checked for every value that is stored"""
    return getattr(E, 'attrints', ())


def attrcheck(E, k, v):
    if k.sexpr() in attrclass(E) and not ((isinstance(v, int) and not isinstance(v, bool)) or z3.is_expr(v) and v.sort() == I or isinstance(v, Opq) and v.cls == 'int'): raise Unsupported('attribute that is not a number')


def ga_write(E, a, has, val):
    g = E.get(a.g)
    if a.v is None:
        E.put(a.g, g.with_(na=z3.Store(g.na, a.u, has), nv=z3.Store(g.nv, a.u, val)))
    else:
        ea, ev = st2(g.ea, a.u, a.v, has), st2(g.ev, a.u, a.v, val)
        if not g.directed: ea, ev = st2(ea, a.v, a.u, has), st2(ev, a.v, a.u, val)
        E.put(a.g, g.with_(ea=ea, ev=ev))


def ga_set(E, a, k, v):
    attrcheck(E, k, v)
    has, val = ga_arrays(E, a)
    freeze(E, v)
    ga_write(E, a, z3.Store(has, k, True), z3.Store(val, k, E.box(v)))


def ga_del(E, a, k):
    has, val = ga_arrays(E, a)
    if not E.choose(z3.Select(has, k)): E.throw('KeyError')
    ga_write(E, a, z3.Store(has, k, False), val)


def ga_iter(E, a, what):
    has, val = ga_arrays(E, a)
    if what == 'keys': return setdom(has, lambda x: unb(E, x))
    return setdom(has, lambda x: (unb(E, x), unb(E, z3.Select(val, x))) if what == 'items' else unb(E, z3.Select(val, x)), keydom=False)


def ga_method(E, a, name, args, kw):
    if name == 'get':
        try: return ga_get(E, a, E.key(args[0]))
        except PyRaise: return args[1] if len(args) > 1 else None
    if name in ('keys', 'items', 'values'): return It(ga_iter(E, a, name), name)
    if name == 'copy':
        h, v = ga_arrays(E, a)
        return E.alloc(Sym(('D', 'U', 'any'), [h, v]))
    if name == 'update':
        for x in args:
            tmp = E.alloc(Sym(('D', 'U', 'any'), list(ga_arrays(E, a)))); dict_update(E, tmp, x)
            sh, l = place(E, tmp); ga_write(E, a, l[0], l[1])
        for k, v in kw.items(): ga_set(E, a, E.lit(k), v)
        return None
    raise Unsupported('attributes.' + name)


def graph_item(E, gv, k):
    g = E.get(gv.g)
    if gv.what == 'nodes':
        kt = E.key(k)
        if not E.choose(z3.Select(g.nd, kt)): E.throw('KeyError')
        return GAttr(gv.g, kt)
    if gv.what == 'edges':
        u, v = [E.key(x) for x in E.unpack(k, 2)]
        if not E.choose(sel2(g.ed, u, v)): E.throw('KeyError')
        return GAttr(gv.g, u, v)
    if gv.what == 'row':
        v = E.key(k)
        if not E.choose(sel2(g.ed, gv.u, v)): E.throw('KeyError')
        return GAttr(gv.g, gv.u, v)
    if gv.what == 'adj':
        kt = E.key(k)
        if not E.choose(z3.Select(g.nd, kt)): E.throw('KeyError')
        return GView(gv.g, 'row', kt)
    raise Unsupported('graph view')


def c_graphview(E, gv, x):
    g = E.get(gv.g)
    if gv.what == 'nodes': return z3.Select(g.nd, E.key(x))
    if gv.what == 'row': return sel2(g.ed, gv.u, E.key(x))
    if gv.what == 'edges':
        u, v = [E.key(y) for y in E.unpack(x, 2)]
        return sel2(g.ed, u, v)
    raise Unsupported('graph view')


def gview_method(E, gv, name, args, kw):
    if name == '__call__': return It(graph_iter(E, gv, kw))
    if name == 'get' and gv.what in ('nodes', 'row'):
        try: return graph_item(E, gv, args[0])
        except PyRaise: return args[1] if len(args) > 1 else None
    if name == 'data':
        return It(graph_iter(E, gv, {'data': args[0] if args else True}))
    if name in ('items', 'keys', 'values') and gv.what == 'row':
        g = E.get(gv.g); row = z3.Select(g.ed, gv.u)
        el = {'items': lambda x: (unb(E, x), GAttr(gv.g, gv.u, x)), 'keys': lambda x: unb(E, x), 'values': lambda x: GAttr(gv.g, gv.u, x)}[name]
        return It(setdom(row, el, keydom=name == 'keys', addr=gv.g.a))
    raise Unsupported('graph view method ' + name)


fst = z3.Function('tup2_0', U, U); snd = z3.Function('tup2_1', U, U); pair = z3.Function('tup2', U, U, U)


def edgeset(E, ref, u=None, incoming=False):
    """array over pairs: each edge once; undirected edges in one of the two orientations"""
    g = E.get(ref)
    return edges_of(E, g.ed, g.directed, u, incoming)


def edges_of(E, ed, directed, u=None, incoming=False):
    what = 'edgesof' if u is None else 'in_edgesof' if incoming else 'out_edgesof'
    f = z3.Function(what + ('' if directed or u is not None else '.undirected'), GS['ed'], *([] if u is None else [U]), UB)
    done = E.once = getattr(E, 'once', None) or set()
    if f.name() not in done:
        done.add(f.name())
        e, n, p, x, y = z3.Const('e?', GS['ed']), z3.Const('n?', U), z3.Const('p?', U), z3.Const('x?', U), z3.Const('y?', U)
        a = f(e) if u is None else f(e, n)
        vs = [e] if u is None else [e, n]
        ok = sel2(e, fst(p), snd(p))
        if u is not None: ok = z3.And(ok, (snd(p) if incoming else fst(p)) == n)
        E.fact(forall(vs + [p], z3.Implies(z3.Select(a, p), z3.And(p == pair(fst(p), snd(p)), ok)), patterns=[z3.Select(a, p)]))
        E.fact(forall([x, y], z3.And(fst(pair(x, y)) == x, snd(pair(x, y)) == y), patterns=[pair(x, y)]))
        t = sel2(e, x, y)
        if u is not None:
            t = sel2(e, x, n) if incoming else sel2(e, n, x)
            E.fact(forall(vs + [x], z3.Implies(t, z3.Select(a, pair(x, n) if incoming else pair(n, x))), patterns=[mpat(a, t)]))
        elif directed:
            E.fact(forall([e, x, y], z3.Implies(t, z3.Select(a, pair(x, y))), patterns=[mpat(a, t)]))
        else:
            E.fact(forall([e, x, y], z3.Implies(t, z3.Or(z3.Select(a, pair(x, y)), z3.Select(a, pair(y, x)))), patterns=[mpat(a, t)]))
            E.fact(forall([e, x, y], z3.Not(z3.And(x != y, z3.Select(a, pair(x, y)), z3.Select(a, pair(y, x)))), patterns=[mpat(z3.Select(a, pair(x, y)))]))
        E.fact(forall(vs, card(a) >= 0, patterns=[a]))
    a = f(ed) if u is None else f(ed, u)
    if not any(z3.is_app(q) and q.decl().name().endswith('?p') for q in [u] if u is not None):
        cardfacts(E, a); E.fact(edgecnt(ed) >= 0)
    return a


def graph_iter(E, gv, kw, args=()):
    g = E.get(gv.g)
    data = kw.get('data', False)
    if set(kw) - {'data'}: raise Unsupported('graph view options')
    if gv.what == 'nodes':
        if data is False: return setdom(g.nd, lambda x: unb(E, x), addr=gv.g.a, origin=('nodes', gv.g))
        if data is True: return setdom(g.nd, lambda x: (unb(E, x), GAttr(gv.g, x)), keydom=False, addr=gv.g.a, origin=('nodes', gv.g))
        raise Unsupported('nodes(data=...)')
    if gv.what == 'row':
        return setdom(z3.Select(g.ed, gv.u), lambda x: unb(E, x), addr=gv.g.a, origin=('row', gv.g, gv.u))
    if gv.what in ('edges', 'in_edges'):
        a = edgeset(E, gv.g, gv.u, gv.what == 'in_edges')
        if data is False: el = lambda p: (unb(E, fst(p)), unb(E, snd(p)))
        elif data is True: el = lambda p: (unb(E, fst(p)), unb(E, snd(p)), GAttr(gv.g, fst(p), snd(p)))
        else: raise Unsupported('edges(data=...)')
        return setdom(a, el, keydom=False, addr=gv.g.a, origin=('edges', gv.g, gv.u))
    raise Unsupported('graph view')


def add_node(E, ref, k, attrs):
    g = E.get(ref)
    was = z3.Select(g.nd, k)
    nd = z3.Store(g.nd, k, True); cardfacts(E, nd)
    # a new node has no attributes before
    has = z3.If(was, z3.Select(g.na, k), EMPTY)
    tmp = Sym(('D', 'U', 'any'), [has, z3.Select(g.nv, k)])
    r = E.alloc(tmp); apply_attrs(E, r, attrs)
    sh, l = place(E, r)
    E.put(ref, g.with_(nd=nd, na=z3.Store(g.na, k, l[0]), nv=z3.Store(g.nv, k, l[1])))


def apply_attrs(E, r, attrs):
    for k, v in attrs.items():
        if k == '**': dict_update(E, r, v)
        else:
            attrcheck(E, E.lit(k), v)
            sh, l = place(E, r)
            setplace(E, r, sh, [z3.Store(l[0], E.lit(k), True), z3.Store(l[1], E.lit(k), E.box(v))])
            freeze(E, v)


def ensure_node(E, ref, k):
    g = E.get(ref)
    was = z3.Select(g.nd, k)
    nd = z3.Store(g.nd, k, True); cardfacts(E, nd)
    E.put(ref, g.with_(nd=nd, na=z3.Store(g.na, k, z3.If(was, z3.Select(g.na, k), EMPTY))))


def add_edge(E, ref, u, v, attrs):
    ensure_node(E, ref, u); ensure_node(E, ref, v)
    g = E.get(ref)
    was = sel2(g.ed, u, v)
    has = z3.If(was, sel2(g.ea, u, v), EMPTY)
    r = E.alloc(Sym(('D', 'U', 'any'), [has, sel2(g.ev, u, v)])); apply_attrs(E, r, attrs)
    sh, l = place(E, r)
    ed, ea, ev = st2(g.ed, u, v, True), st2(g.ea, u, v, l[0]), st2(g.ev, u, v, l[1])
    if not g.directed: ed, ea, ev = st2(ed, v, u, True), st2(ea, v, u, l[0]), st2(ev, v, u, l[1])
    E.put(ref, g.with_(ed=ed, ea=ea, ev=ev))


def graph_method(E, o, name, args, kw):
    g = E.get(o)
    if name == 'nodes': return It(graph_iter(E, GView(o, 'nodes'), kw))
    if name in ('edges', 'in_edges', 'out_edges'):
        u = args[0] if args else None
        what = 'in_edges' if name == 'in_edges' else 'edges'
        return It(graph_iter(E, GView(o, what, None if u is None else E.key(u)), kw))
    if name == 'add_node': return add_node(E, o, E.key(args[0]), kw)
    if name == 'add_edge': return add_edge(E, o, E.key(args[0]), E.key(args[1]), kw)
    if name == 'has_node': return z3.Select(g.nd, E.key(args[0]))
    if name == '__contains__': return z3.Select(g.nd, E.key(args[0]))
    if name == 'has_edge':
        if kw or len(args) > 2: raise Unsupported('has_edge key')
        return sel2(g.ed, E.key(args[0]), E.key(args[1]))
    if name == 'get_edge_data':
        u, v = E.key(args[0]), E.key(args[1])
        if not E.choose(sel2(g.ed, u, v)): return args[2] if len(args) > 2 else None
        return GAttr(o, u, v)
    if name == 'remove_edge':
        u, v = E.key(args[0]), E.key(args[1])
        if not E.choose(sel2(g.ed, u, v)): E.throw('NetworkXError')
        ed = st2(g.ed, u, v, False)
        if not g.directed: ed = st2(ed, v, u, False)
        return E.put(o, g.with_(ed=ed))
    if name in ('remove_edges_from', 'add_edges_from'):
        d = iterate(E, args[0])
        return edges_from(E, o, d, name == 'add_edges_from', kw)
    if name == 'remove_nodes_from':
        d = iterate(E, args[0])
        return nodes_from(E, o, d)
    if name == 'remove_node':
        k = E.key(args[0])
        if not E.choose(z3.Select(g.nd, k)): E.throw('NetworkXError')
        return nodes_from(E, o, Dom('conc', items=[args[0]]))
    if name in ('number_of_nodes', 'order'): return setcard(E, g.nd)
    if name == 'number_of_edges' and not args: return edgecount(E, g, GView(o, 'edges'))
    if name in ('in_degree', 'out_degree', 'degree') and args and not kw:
        k = E.key(args[0])
        if name == 'in_degree':
            f = z3.Function('indegree', GS['ed'], U, I)(g.ed, k)
            x = z3.Const('x?', U); w = z3.Function('inwitness', GS['ed'], U, U)(g.ed, k)
            E.fact(f >= 0)
            E.assume(z3.Implies(f > 0, sel2(g.ed, w, k)))
            E.assume(forall([x], z3.Implies(sel2(g.ed, x, k), f > 0), patterns=[sel2(g.ed, x, k)]))
            return f
        raise Unsupported(name)
    raise Unsupported('graph.' + name)


def dompairs(E, d):
    """relation given by a domain of pairs: fn(u, v) -> Bool"""
    if d.kind == 'conc':
        ps = [tuple(E.key(x) for x in E.unpack(it, 2)) for it in d.items]
        return lambda u, v: z3.Or(*[z3.And(u == a, v == b) for a, b in ps]) if ps else z3.BoolVal(False)
    if d.kind == 'seq':
        i = z3.Int('i?e')
        a, b = [E.key(x) for x in list(d.elem(i))[:2]]
        r = E.fresh('pairs', GS['ed'])
        u, v = z3.Const('u?', U), z3.Const('v?', U)
        w = z3.Function('wherep!%d' % E.st.nf, U, U, I); E.st.nf += 1
        E.assume(forall([i], z3.Implies(z3.And(i >= 0, i < d.n), sel2(r, a, b)), patterns=[t for t in (a, b) if okpat(t, i) and not z3.substitute(t, (i, z3.IntVal(0))).eq(t)]))
        E.assume(forall([u, v], z3.Implies(sel2(r, u, v), z3.And(w(u, v) >= 0, w(u, v) < d.n, z3.substitute(a, (i, w(u, v))) == u, z3.substitute(b, (i, w(u, v))) == v)), patterns=[sel2(r, u, v)]))
        return lambda u, v: sel2(r, u, v)
    x = z3.Const('x?e', U)
    a, b = [E.key(y) for y in list(d.elem(x))[:2]]
    r = E.fresh('pairs', GS['ed'])
    u, v = z3.Const('u?', U), z3.Const('v?', U)
    w = z3.Function('wherep!%d' % E.st.nf, U, U, U); E.st.nf += 1
    E.assume(forall([x], z3.Implies(z3.Select(d.arr, x), sel2(r, a, b)), patterns=[z3.Select(d.arr, x)]))
    E.assume(forall([u, v], z3.Implies(sel2(r, u, v), z3.And(z3.Select(d.arr, w(u, v)), z3.substitute(a, (x, w(u, v))) == u, z3.substitute(b, (x, w(u, v))) == v)), patterns=[sel2(r, u, v)]))
    return lambda u, v: sel2(r, u, v)


def edges_from(E, o, d, adding, kw):
    if d.kind == 'conc' and adding:
        for it in d.items:
            u, v = E.unpack(it, 2); add_edge(E, o, E.key(u), E.key(v), kw)
        return None
    if kw: raise Unsupported('edge attributes')
    rel = dompairs(E, d)
    g = E.get(o)
    u, v = z3.Const('u?', U), z3.Const('v?', U)
    R = (lambda a, b: rel(a, b)) if g.directed else (lambda a, b: z3.Or(rel(a, b), rel(b, a)))
    ed = E.fresh('ed', GS['ed'])
    if not adding:
        E.assume(forall([u, v], sel2(ed, u, v) == z3.And(sel2(g.ed, u, v), z3.Not(R(u, v))), patterns=[sel2(ed, u, v)]))
        return E.put(o, g.with_(ed=ed))
    nd = E.fresh('nd', UB); na = E.fresh('na', GS['na']); ea = E.fresh('ea', GS['ea'])
    E.assume(forall([u, v], sel2(ed, u, v) == z3.Or(sel2(g.ed, u, v), R(u, v)), patterns=[sel2(ed, u, v)]))
    E.assume(forall([u, v], sel2(ea, u, v) == z3.If(sel2(g.ed, u, v), sel2(g.ea, u, v), EMPTY), patterns=[sel2(ea, u, v)]))
    E.assume(forall([u, v], z3.Implies(rel(u, v), z3.And(z3.Select(nd, u), z3.Select(nd, v))), patterns=[rel(u, v)]) if d.kind != 'conc' else z3.BoolVal(True))
    wn = z3.Function('wheren!%d' % E.st.nf, U, U); E.st.nf += 1
    E.assume(forall([u], z3.Select(nd, u) == z3.Or(z3.Select(g.nd, u), rel(u, wn(u)), rel(wn(u), u)), patterns=[z3.Select(nd, u)]))
    E.assume(forall([u], z3.Select(na, u) == z3.If(z3.Select(g.nd, u), z3.Select(g.na, u), EMPTY), patterns=[z3.Select(na, u)]))
    cardfacts(E, nd)
    E.put(o, g.with_(ed=ed, ea=ea, nd=nd, na=na))


def nodes_from(E, o, d):
    g = E.get(o)
    if d.kind == 'conc':
        r = E.alloc(CSet())
        for x in d.items: set_add(E, r, x)
        s = setlike(E, r)[1]
    elif d.kind == 'set' and d.keydom: s = d.arr
    else: s = place(E, set_of(E, d))[1][0]
    nd = E.fresh('nd', UB); ed = E.fresh('ed', GS['ed'])
    E.assume(nd == z3.SetDifference(g.nd, s)); cardfacts(E, nd)
    u, v = z3.Const('u?', U), z3.Const('v?', U)
    E.assume(forall([u, v], sel2(ed, u, v) == z3.And(sel2(g.ed, u, v), z3.Not(z3.Select(s, u)), z3.Not(z3.Select(s, v))), patterns=[sel2(ed, u, v)]))
    E.put(o, g.with_(nd=nd, ed=ed))


def selfloops(E, o):
    g = E.get(o)
    a = z3.Function('loopsof', GS['ed'], UB)(g.ed)
    p, x = z3.Const('p?', U), z3.Const('x?', U)
    E.assume(forall([p], z3.Implies(z3.Select(a, p), z3.And(p == pair(fst(p), fst(p)), fst(p) == snd(p), sel2(g.ed, fst(p), fst(p)))), patterns=[z3.Select(a, p)]))
    E.assume(forall([x], z3.And(fst(pair(x, x)) == x, snd(pair(x, x)) == x, z3.Implies(sel2(g.ed, x, x), z3.Select(a, pair(x, x)))), patterns=[sel2(g.ed, x, x)]))
    return setdom(a, lambda q: (unb(E, fst(q)), unb(E, snd(q))), keydom=False, addr=o.a, origin=('selfloops', o))
