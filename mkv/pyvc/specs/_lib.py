"""Symbolic data of the repository for the contracts"""
import z3
from ..core import *
from ..contract import contract, no_raise
from .. import models
from ..folds import fold
from ..models import Sym, EMPTY
from ..interp import Dom

And, Or, Not, Implies, ForAll, Exists, If, Select, Store = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.Exists, z3.If, z3.Select, z3.Store
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MC = 'metaknowledge.mkCollection'
RC = 'metaknowledge.recordCollection'


def const(n, s=U):
    return z3.Const(n, s)


class Item:
    """an item of a collection (Record, Grant): an object with an id, a bad flag and fields"""
    def __init__(self, attrs=None, extra=None):
        self.attrs = attrs or {}
        self.extra = extra or {}

    def truth(self, E, o): return self.extra['truth'](E, o) if 'truth' in self.extra else True

    def attr(self, E, o, name):
        if name in self.attrs:
            c = self.attrs[name]
            if callable(c): return c(E, o)
            f = z3.Function('item_' + name, U, B if c == 'B' else U)
            if c == 'B': return f(o.t)
            if c in ('str', 'int'): E.fact(kind(f(o.t)) == (K_STR if c == 'str' else K_INT))
            return Opq(f(o.t), c)
        if name in self.extra: return Bound(o, name)
        raise Unsupported('attribute %s of an item' % name)

    def method(self, E, o, name, args, kw):
        return self.extra[name](E, o, *args, **kw)

    def isa(self, E, o, name):
        return self.extra['isa'](E, o, name) if 'isa' in self.extra else z3.Function('isa_' + name, U, B)(o.t)

    def getitem(self, E, o, k): return self.extra['getitem'](E, o, k)
    def contains(self, E, o, k): return self.extra['contains'](E, o, k)




def cls(E, mod, name):
    m = E.repo.mods[mod]
    return Cls(name, E.repo.resolve(m, name)[1])


def collection(E, tag, klass=None, item='Item', extra=None):
    """a collection of unknown items: HObj of class klass"""
    if klass is None: klass = cls(E, RC, 'RecordCollection')
    S = const('items_' + tag, UB)
    models.cardfacts(E, S)
    attrs = {'_collection': E.alloc(Sym(('S', item), [S])), '_allowedTypes': Opq(const('allowed'), 'types'), '_collectedTypes': E.alloc(Sym(('S', 'str'), [const('ctypes_' + tag, UB)])),
             'name': Opq(const('name_' + tag), 'str'), 'bad': const('bad_' + tag, B), 'errors': E.alloc(Sym(('D', 'U', 'any'), [const('errdom_' + tag, UB), const('errval_' + tag, z3.ArraySort(U, U))]))}
    E.fact(kind(const('name_' + tag)) == K_STR)
    attrs.update(extra(E) if extra else {})
    r = E.alloc(HObj(klass, attrs))
    return r, S


def items(E, r, st=None):
    """array of the items of a collection in the current state"""
    o = E.get(r).attrs['_collection']
    return models.setlike(E, o)[1]


def errs(E, r):
    sh, l = models.place(E, E.get(r).attrs['errors'])
    if sh[0] == 'C': l = models.conv(E, sh, l, models.c2d(sh)); sh = models.c2d(sh)
    if sh[1] == '?': return l[0], None
    return l[0], l[1]


def boolof(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def seteq(E, a, f, tag=''):
    """forall u: a[u] == f(u)"""
    u = const('u?eq' + tag)
    return ForAll([u], Select(a, u) == f(u))


def in_pre(E, ctx, fn):
    """evaluate fn in the state before the call"""
    saved = E.st
    E.st = ctx['pre'].copy()
    try: return fn()
    finally: E.st = saved


def new_collection(E, ctx=None):
    """contract of RecordCollection(inSet, name=.., quietStart=..) given a set of items: proved by its own contract (K01)"""
    def mk(name):
        def new(E, args, kw):
            src = args[0] if args else kw['inCollection']
            if models.ckind(E, src) not in ('S', 'D'): src = E.call(Cls('set'), [src])
            r = E.alloc(HObj(cls(E, RC if name == 'RecordCollection' else 'metaknowledge.grantCollection', name), {}))
            S = models.setlike(E, src)[1]
            c = models.setlike(E, src)[0]
            E.put(r, E.get(r).with_('_collection', E.alloc(Sym(('S', c), [S]))).with_('name', kw.get('name', '')).with_('bad', kw.get('bad', False)).with_('errors', E.alloc(CDict({})))
                  .with_('_allowedTypes', Opq(const('allowed'), 'types')).with_('_collectedTypes', E.alloc(Sym(('S', 'str'), [E.fresh('ctypes', UB)]))))
            return r
        return new
    for n in ('RecordCollection', 'GrantCollection'): E.calls['new:' + n] = mk(n)
    E.notes.add('constructor of the collection given a set keeps its items, bad=False, errors={} (contract of RecordCollection.__init__)')


has = z3.Function('has', U, U, B)          # record, field -> the field is there
fld = z3.Function('field', U, U, U)        # its value


def fget(E, o, k, default=None):
    kt = E.key(k)
    if E.choose(has(o.t, kt)): return fval(E, o, kt)
    return default


def fval(E, o, kt):
    return models.unb(E, fld(o.t, kt))


def fgetitem(E, o, k):
    kt = E.key(k)
    if not E.choose(has(o.t, kt)): E.throw('KeyError')
    return fval(E, o, kt)


keysof = z3.Function('keys_of', U, UB)


def fkeys(E, o):
    E.fact(models.card(keysof(o.t)) >= 0)
    return It(models.setdom(keysof(o.t), lambda x: Opq(x, 'str'), cls='str'), 'keys')


def RecordModel(**attrs):
    a = {'id': 'str', 'bad': 'B'}
    a.update(attrs)
    return Item(a, {'get': fget, 'getitem': fgetitem, 'contains': lambda E, o, k: has(o.t, E.key(k)), 'keys': fkeys})


def rec_conf(E):
    E.models['Item'] = RecordModel()
    E.models['types'] = E.models['any']
    new_collection(E)


idof = z3.Function('item_id', U, U)
badof = z3.Function('item_bad', U, B)


def frame(E, ctx, r, S, tag, skip=()):
    """the collection is what it was before the call"""
    h = E.get(r).attrs
    d, v = errs(E, r)
    g = []
    if '_collection' not in skip: g += [items(E, r) == S]
    if 'bad' not in skip: g.append(boolof(h['bad']) == const('bad_' + tag, B))
    if 'errors' not in skip: g += [d == const('errdom_' + tag, UB)] + ([v == const('errval_' + tag, z3.ArraySort(U, U))] if v is not None else [])
    if 'name' not in skip: g.append(z3.BoolVal(isinstance(h['name'], Opq) and h['name'].t.eq(const('name_' + tag))))
    return And(*g)


def every(E, fn, goal):
    """goal(fn()) holds on every path of fn, none of which raises"""
    n = len(E.st.pc)
    g = []
    for s, o in E.explore(E.st, fn):
        if o[0] != 'normal': g.append(Not(And(*s.pc[n:])) if s.pc[n:] else FALSE); continue
        r = goal(o[1])
        if isinstance(r, bool): r = z3.BoolVal(r)
        g.append(Implies(And(*s.pc[n:]), r) if s.pc[n:] else r)
    return And(*g)
