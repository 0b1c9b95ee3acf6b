"""S02: collections as guarded sets"""
from ._lib import *

E0 = EMPTY


def conf(E):
    rec_conf(E)


def one(tag='a', args=(), **kw):
    def setup(E):
        a, A = collection(E, tag)
        xs = [Opq(const('elem_%d' % i), k) for i, k in enumerate(args)]
        return [a] + xs, {}, dict(a=a, A=A, xs=[x.t for x in xs])
    return setup


@contract(MC + ':Collection.add', ['S02', 'S03', 'K01'])
def add(V):
    names = ['allowed item becomes a member', 'only that item is added', 'other items raise and change nothing']

    def post(E, c, o):
        x, A = c['xs'][0], c['A']
        ok = z3.Function('isinstance', U, U, B)(x, const('allowed'))
        R = items(E, c['a']); u = const('u?p')
        if o[0] == 'return': return [(names[0], And(ok, Select(R, x))), (names[1], And(ForAll([u], Select(R, u) == Or(Select(A, u), u == x)), frame(E, c, c['a'], A, 'a', ('_collection',))))]
        return [(names[2], And(Not(ok), z3.BoolVal(o[1].cls == 'CollectionTypeError'), frame(E, c, c['a'], A, 'a')))]
    V.run('', one(args=['Item']), post, names, conf)


def takeaway(q, raises):
    @contract(MC + ':Collection.' + q, ['S02'])
    def spec(V):
        names = ['takes away exactly the item', 'missing item'] + (['nothing changes'] if raises else [])

        def post(E, c, o):
            x, A = c['xs'][0], c['A']
            R = items(E, c['a']); u = const('u?p')
            gone = And(ForAll([u], Select(R, u) == And(Select(A, u), u != x)), frame(E, c, c['a'], A, 'a', ('_collection',)))
            if o[0] == 'return': return [(names[0], gone), (names[1], Select(A, x) if raises else TRUE)]
            if not raises: return [(names[0], FALSE)]
            return [(names[1], And(Not(Select(A, x)), z3.BoolVal(o[1].cls == 'KeyError'))), (names[2], frame(E, c, c['a'], A, 'a'))]
        V.run('', one(args=['Item']), post, names, conf)


takeaway('discard', False)
takeaway('remove', True)


@contract(MC + ':Collection.pop', ['S02', 'S03'])
def pop(V):
    names = ['gives a member and takes away only it', 'raises a key error only when empty']

    def post(E, c, o):
        A = c['A']; R = items(E, c['a']); u = const('u?p')
        if o[0] == 'return':
            x = E.box(o[1])
            return [(names[0], And(Select(A, x), ForAll([u], Select(R, u) == And(Select(A, u), u != x)), frame(E, c, c['a'], A, 'a', ('_collection',)))), (names[1], A != EMPTY)]
        return [(names[1], And(A == EMPTY, z3.BoolVal(o[1].cls == 'KeyError'), frame(E, c, c['a'], A, 'a')))]
    V.run('', one(), post, names, conf)


@contract(MC + ':Collection.clear', ['S02', 'S03'])
def clear(V):
    def post(E, c, o):
        d, v = errs(E, c['a'])
        return [('empties the collection and its error marks', And(no_raise(o), items(E, c['a']) == EMPTY, Not(boolof(E.get(c['a']).attrs['bad'])), d == EMPTY))]
    V.run('', one(), post, ['empties the collection and its error marks'], conf)


@contract(MC + ':Collection.__len__', ['S02', 'S03'])
def length(V):
    def post(E, c, o):
        return [('is the number of items', And(no_raise(o), E.as_int(o[1]) == models.setcard(E, c['A']), frame(E, c, c['a'], c['A'], 'a')))]
    V.run('', one(), post, ['is the number of items'], conf)


@contract(MC + ':Collection.__contains__', ['S02'])
def contains(V):
    def post(E, c, o):
        return [('is membership', And(no_raise(o), boolof(o[1]) == Select(c['A'], c['xs'][0]), frame(E, c, c['a'], c['A'], 'a')))]
    V.run('', one(args=['Item']), post, ['is membership'], conf)


@contract(MC + ':Collection.peek', ['S02'])
def peek(V):
    def post(E, c, o):
        A = c['A']
        if o[0] != 'return': return [('a member or nothing', FALSE)]
        return [('a member or nothing', And(A == EMPTY if o[1] is None else Select(A, E.box(o[1])), frame(E, c, c['a'], A, 'a')))]
    V.run('', one(), post, ['a member or nothing'], conf)


@contract(MC + ':Collection.copy', ['S02'])
def copy(V):
    names = ['has the same items', 'shares nothing that changes', 'original unchanged']

    def post(E, c, o):
        if o[0] != 'return' or not isinstance(o[1], Ref): return [(names[0], FALSE)]
        r = o[1]; h, g = E.get(r), E.get(c['a'])
        d, v = errs(E, r)
        out = [(names[0], And(items(E, r) == c['A'], z3.BoolVal(h.cls == g.cls), boolof(h.attrs['bad']) == const('bad_a', B), d == const('errdom_a', UB), v == const('errval_a', z3.ArraySort(U, U))))]
        diff = [n for n in h.attrs if isinstance(h.attrs[n], Ref) and isinstance(g.attrs.get(n), Ref)]
        out.append((names[1], z3.BoolVal(r.a != c['a'].a and all(h.attrs[n].a != g.attrs[n].a for n in diff))))
        out.append((names[2], frame(E, c, c['a'], c['A'], 'a')))
        return out
    V.run('', one(), post, names, conf)


def two(same):
    def setup(E):
        a, A = collection(E, 'a')
        b, Bx = collection(E, 'b', cls(E, RC if same else 'metaknowledge.grantCollection', 'RecordCollection' if same else 'GrantCollection'))
        return [a, b], {}, dict(a=a, b=b, A=A, B=Bx)
    return setup


@contract(MC + ':Collection.__eq__', ['S02'])
def eq(V):
    def post(E, c, o):
        return [('equal exactly when the items are', And(no_raise(o), boolof(o[1]) == (c['A'] == c['B']) if isinstance(o[1], bool) or z3.is_expr(o[1]) else FALSE))]
    V.run('same kind', two(True), post, ['equal exactly when the items are'], conf)

    def post2(E, c, o):
        return [('other kinds are not compared', z3.BoolVal(o[0] == 'return' and (o[1] is False or (isinstance(o[1], Builtin) and o[1].name == 'NotImplemented'))))]
    V.run('different kinds', two(False), post2, ['other kinds are not compared'], conf)


@contract(MC + ':Collection.__hash__', ['S02'])
def hash_(V):
    # the hash is a function of the set of items alone
    seen = {}

    def post(E, c, o):
        if o[0] != 'return' or not z3.is_expr(o[1]): return [('depends on the items only', FALSE)]
        from ..loops import consts
        ok = {'items_a'}
        bad = [n for n, d in consts(o[1]).items() if d.arity() == 0 and n not in ok]
        return [('depends on the items only', z3.BoolVal(not bad)), ('changes nothing', frame(E, c, c['a'], c['A'], 'a'))]
    V.run('', one(), post, ['depends on the items only', 'changes nothing'], conf)


@contract(MC + ':Collection.__iter__', ['S02'])
def iter_(V):
    E = V.engine()
    name = 'goes over exactly the items'
    try:
        conf(E)
        from ..interp import Run
        E.st = State(); E.run = Run((), {})
        a, A = collection(E, 'a')
        d = E.iterate(a)
        x = const('x?')
        ok = d.kind == 'set' and d.arr.eq(A) and E.key(d.elem(x)).eq(x)
        V.obl(name)
        if not ok: V.fail(name, 'undecided', 'iterates over %s' % (d.arr,))
    except Unsupported as e:
        V.fail(name, 'undecided', str(e))
    V.inlined |= E.inlined
