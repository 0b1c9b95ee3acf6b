"""Proposals for invariants about networks that a loop builds or changes: what the steps add up to, and what the step of an
element makes of its own node or edge"""
import z3
from .core import *
from . import models, folds

TRUE = z3.BoolVal(True)
F = {f: i for i, f in enumerate(HGraph.FIELDS)}
u, v = z3.Const('u?t', U), z3.Const('v?t', U)
sel2 = models.sel2


def store(t): return z3.is_app_of(t, z3.Z3_OP_STORE)


def recs_of(L): return getattr(L.E, 'graphrecs', {})


class Cell:
    """one write: indices, value, the array before it, symmetric"""
    def __init__(self, ix, val, before, sym=False): self.ix, self.val, self.before, self.sym = ix, val, before, sym

    def hit(self):
        q = (u, v)[:len(self.ix)]
        c = z3.And(*[a == b for a, b in zip(self.ix, q)]) if len(q) > 1 else self.ix[0] == u
        return z3.Or(c, z3.And(self.ix[1] == u, self.ix[0] == v)) if self.sym else c


class Inner:
    """a loop of the body"""
    def __init__(self, rec): self.rec = rec


def cells(L, t, base, depth):
    """the writes that lead from base to t, newest first; None if it is something else"""
    out = []
    while not t.eq(base):
        if store(t):
            a, i, x = t.children()
            if depth == 1: out.append(Cell((i,), x, a))
            else:
                if not store(x) or not x.arg(0).eq(z3.Select(a, i)): return None
                j, y = x.arg(1), x.arg(2)
                last = out[-1] if out else None
                if isinstance(last, Cell) and not last.sym and last.val.eq(y) and last.ix[0].eq(j) and last.ix[1].eq(i):
                    last.sym, last.ix, last.before = True, (i, j), a
                else: out.append(Cell((i, j), y, a))
            t = a
        elif z3.is_const(t) and t.decl().name() in recs_of(L):
            r = recs_of(L)[t.decl().name()]
            out.append(Inner(r)); t = r['init']
        else: return None
    return out


def attr_writes(val, c):
    """[(key, value)] newest first that make val out of the attributes the cell had (or of none); None if unknown"""
    cur = z3.Select(c.before, c.ix[0])
    if len(c.ix) == 2: cur = z3.Select(cur, c.ix[1])
    out = []
    while store(val):
        a, k, x = val.children()
        out.append((k, x)); val = a
    if val.eq(cur): return out
    if z3.is_app_of(val, z3.Z3_OP_ITE) and val.arg(1).eq(cur): return out       # a new node or edge has no attributes
    if z3.is_const_array(val): return out
    return None


def templates(L, k, sl, nm):
    from .loops import Cand, forall
    E = L.E
    if not L.paths: return []
    out = []
    H = sl.head
    ends = [(c, lv[k]) for c, _, _, lv, _ in L.paths]
    ch = {}
    for f in HGraph.FIELDS:
        depth = 1 if f in ('nd', 'na', 'nv') else 2
        ch[f] = [cells(L, lv[F[f]], H[F[f]], depth) for _, lv in ends]
    changed = [f for f in HGraph.FIELDS if any(not lv[F[f]].eq(H[F[f]]) for _, lv in ends)]
    pw = pointwise(L, k, sl, nm, ch, ends, changed)
    if pw is not None: return pw
    for f in ('nd', 'na', 'nv'):
        if f in changed and all(cs is not None and all(isinstance(c, Cell) for c in cs) for cs in ch[f]) and L.alone(k, F[f], 500):
            out.append(Cand('%s.%s unchanged' % (nm, f), lambda lv, D, f=f: lv[k][F[f]] == sl.init[F[f]], (k, F[f])))
            changed.remove(f)
    for f in ('nd', 'na', 'nv'):
        if f in changed: out.append(Cand('%s.%s unchanged' % (nm, f), lambda lv, D, f=f: lv[k][F[f]] == sl.init[F[f]], (k, F[f])))
    # removal of edges
    if 'ed' in changed and all(cs is not None and all(isinstance(c, Cell) and z3.is_false(c.val) for c in cs) for cs in ch['ed']):
        gone = [(c, ce) for (c, _), cs in zip(ends, ch['ed']) for ce in cs]
        if all(L.pure(i) for _, ce in gone for i in ce.ix):
            def removed(lv, D):
                from .loops import sub1, exists
                y = z3.Const('y?g', L.x.sort())
                ex = exists([y], z3.And(L.isdone(D, y), z3.Or(*[sub1(z3.And(c, ce.hit()), L.x, y) for c, ce in gone])), patterns=L.dpat(D, y))
                t = sel2(lv[k][F['ed']], u, v)
                t0 = sel2(sl.init[F['ed']], u, v)
                return forall([u, v], t == z3.And(t0, z3.Not(ex)), [t] + ([t0] if patok(t0) else []))
            out.append(Cand(nm + ' edges lose the done elements', removed))
    # members
    for f, q in (('nd', (u,)), ('ed', (u, v))):
        if f not in changed: continue
        s = total(L, ends, ch[f], q, lambda c: z3.If(c.hit(), 1, 0) if z3.is_true(c.val) else None, lambda r: r['sum'](*q), member=True)
        if s is None: continue
        rec(L, sl, F[f], {'sum': lambda *w, s=s, q=q: s.at(*zip(q, w))(L.all)})
        c = Cand('%s.%s members are counted' % (nm, f), lambda lv, D, f=f, q=q, s=s: forall(list(q), at(lv[k][F[f]], q) == z3.Or(at(sl.init[F[f]], q), s(D) > 0), [at(lv[k][F[f]], q), s(D)]))
        out.append(c)
    # attributes
    for mem, fa, fv, q in (('nd', 'na', 'nv', (u,)), ('ed', 'ea', 'ev', (u, v))):
        if fa not in changed and fv not in changed: continue
        keys = {}
        ok = True
        for cs in ch[fa]:
            if cs is None: ok = False; break
            for c in cs:
                if isinstance(c, Inner): keys.update(c.rec.get('keys', {})); continue
                w = attr_writes(c.val, c)
                if w is None: ok = False; break
                for kk, _ in w: keys[kk.sexpr()] = kk
        if not ok or any(not L.pure(kk) for kk in keys.values()): continue
        kv = z3.Const('k?t', U)
        there = lambda lv, kk, mem=mem, fa=fa, q=q: z3.And(at(lv[F[mem]], q), z3.Select(at(lv[F[fa]], q), kk))
        # other attributes stay as they are
        rec(L, sl, F[fa], {'keys': keys}); rec(L, sl, F[fv], {'keys': keys})
        nokey = lambda kk, keys=keys: z3.And(*[kk != x for x in keys.values()]) if keys else TRUE
        pat = lambda lv, fa=fa, q=q, kv=kv: [z3.Select(at(lv[k][F[fa]], q), kv)]
        out.append(Cand('%s.%s other attributes' % (nm, fa), lambda lv, D, there=there, nokey=nokey, q=q, pat=pat: forall(list(q) + [kv], z3.Implies(nokey(kv), there(lv[k], kv) == there(sl.init, kv)), pat(lv))))
        out.append(Cand('%s.%s other values' % (nm, fv), lambda lv, D, there=there, nokey=nokey, q=q, fv=fv: forall(list(q) + [kv], z3.Implies(z3.And(nokey(kv), there(sl.init, kv)), z3.Select(at(lv[k][F[fv]], q), kv) == z3.Select(at(sl.init[F[fv]], q), kv)), [z3.Select(at(lv[k][F[fv]], q), kv)])))
        for ks, kk in keys.items():
            out += always(k, nm, mem, fa, fv, q, ks, kk)
            has = lambda c, kk=kk: [1 for a, _ in attr_writes(c.val, c) if a.eq(kk)]
            s = total(L, ends, ch[fa], q, lambda c: (z3.If(c.hit(), 1, 0) if has(c) else z3.IntVal(0)), lambda r: r['has'][ks](*q) if ks in r.get('has', {}) else (None if ks in r.get('keys', {}) else z3.IntVal(0)), member=True)
            if s is not None:
                rec(L, sl, F[fa], {'has': {ks: lambda *w, s=s, q=q: s.at(*zip(q, w))(L.all)}})
                out.append(Cand('%s.%s %s is there' % (nm, fa, ks), lambda lv, D, s=s, kk=kk, q=q, there=there, fa=fa: forall(list(q), there(lv[k], kk) == z3.Or(there(sl.init, kk), s(D) > 0), [z3.Select(at(lv[k][F[fa]], q), kk), s(D)])))

            def delta(c, kk=kk):
                for a, x in attr_writes(c.val, c) or []:
                    if a.eq(kk):
                        if not (z3.is_app(x) and x.decl().eq(bi)): return None
                        cur = z3.Select(at(c.before, c.ix), kk)
                        d = z3.simplify(x.arg(0) - ui(cur))
                        if not L.pure(d): d = z3.simplify(x.arg(0))
                        return z3.If(c.hit(), d, 0) if L.pure(d) else None
                return z3.IntVal(0)
            bad = any(cs is None or any(isinstance(c, Cell) and attr_writes(c.val, c) is None for c in cs) for cs in ch[fv])
            if bad: continue
            ints = all(not isinstance(c, Cell) or all(z3.is_app(x) and x.decl().eq(bi) for a, x in attr_writes(c.val, c) if a.eq(kk)) for cs in ch[fv] for c in cs)
            if not ints: continue
            s = total(L, ends, ch[fv], q, delta, lambda r: r['val'][ks](*q) if ks in r.get('val', {}) else (None if ks in r.get('keys', {}) else z3.IntVal(0)))
            out.append(Cand('%s.%s %s is a number' % (nm, fv, ks), lambda lv, D, kk=kk, q=q, there=there, fv=fv: forall(list(q), z3.Implies(there(lv[k], kk), kind(z3.Select(at(lv[k][F[fv]], q), kk)) == K_INT), [z3.Select(at(lv[k][F[fv]], q), kk)])))
            if s is None: continue
            rec(L, sl, F[fv], {'val': {ks: lambda *w, s=s, q=q: s.at(*zip(q, w))(L.all)}})
            num = lambda lv, kk=kk, there=there, fv=fv, q=q: z3.If(there(lv, kk), ui(z3.Select(at(lv[F[fv]], q), kk)), 0)
            out.append(Cand('%s.%s %s adds up' % (nm, fv, ks), lambda lv, D, num=num, s=s, kk=kk, q=q, fv=fv: forall(list(q), num(lv[k]) == num(sl.init) + s(D), [z3.Select(at(lv[k][F[fv]], q), kk), s(D)])))
    return out


def always(k, nm, mem, fa, fv, q, ks, kk):
    """every node or edge has the attribute, with a number as its value"""
    from .loops import Cand, forall
    m = lambda lv: at(lv[F[mem]], q)
    val = lambda lv, a: z3.Select(at(lv[F[a]], q), kk)
    return [Cand('%s.%s %s is always there' % (nm, fa, ks), lambda lv, D: forall(list(q), z3.Implies(m(lv[k]), val(lv[k], fa)), [m(lv[k]), val(lv[k], fa)])),
            Cand('%s.%s %s is always a number' % (nm, fa, ks), lambda lv, D: forall(list(q), z3.Implies(m(lv[k]), kind(val(lv[k], fv)) == K_INT), [m(lv[k]), val(lv[k], fv)]))]


def stamp(n):
    from .loops import stamp as f
    return f(n)


def findkeys(L, ends):
    """the attributes that are written, for the loops around; proposals to be assumed for the loops inside"""
    out = []
    for k, sl in L.slots.items():
        if not sl.graph: continue
        for mem, fa, fv, q in (('nd', 'na', 'nv', (u,)), ('ed', 'ea', 'ev', (u, v))):
            keys = {}
            for _, lv in ends:
                for c in cells(L, lv[k][F[fa]], sl.head[F[fa]], len(q)) or []:
                    if isinstance(c, Inner): keys.update(c.rec.get('keys', {})); continue
                    for kk, _ in attr_writes(c.val, c) or []: keys[kk.sexpr()] = kk
            rec(L, sl, F[fa], {'keys': keys})
            for ks, kk in keys.items():
                if all(stamp(n) < 0 for n in folds_names(kk)): out += always(k, sl.name(), mem, fa, fv, q, ks, kk)
    return out


def rec(L, sl, i, d):
    """what this loop does to a leaf, for the loops around it (used when the candidates it belongs to are kept)"""
    L.grec = getattr(L, 'grec', {})
    r = L.grec.setdefault(sl.head[i].decl().name(), {'init': None, 'sl': (sl, i)})
    for n, x in d.items():
        if isinstance(x, dict): r.setdefault(n, {}).update(x)
        else: r[n] = x


def publish(L):
    E = L.E
    if not hasattr(E, 'graphrecs'): E.graphrecs = {}
    for n, r in getattr(L, 'grec', {}).items():
        sl, i = r['sl']
        E.graphrecs[n] = dict(r, init=sl.init[i])


def at(a, q):
    for x in q: a = z3.Select(a, x)
    return a


def total(L, ends, chains, q, one, inner, member=False):
    """the sum of what the steps add at q; member: a step that finds it there already counts as one that puts it there"""
    terms = []
    for (c, _), cs in zip(ends, chains):
        if cs is None: return None
        ds = []
        for ce in cs:
            try: d = inner(ce.rec) if isinstance(ce, Inner) else one(ce)
            except KeyError: return None
            if d is None or not L.pure(d): return None
            if not (z3.is_int_value(d) and d.as_long() == 0): ds.append(d)
        terms.append((c, ds))
    if member:
        terms = [(c, ds) for c, ds in terms if ds or not any(d2 and c2.eq(c) for c2, d2 in terms)]
    return L.stepfold(q, terms)


def pointwise(L, k, sl, nm, ch, ends, changed):
    """every step changes the node or edge of its own element only: its value then is a function of the one before the loop"""
    from .loops import Cand, forall, sub1
    if L.seq: return None
    o = L.d.origin
    one = x1 = L.x
    edge = None
    if isinstance(o, tuple) and o[0] == 'edges' and o[2] is None: edge = (models.fst(L.x), models.snd(L.x))
    spec = []
    for f in changed:
        depth = 1 if f in ('nd', 'na', 'nv') else 2
        want = (L.x,) if depth == 1 else edge
        same = []
        for cs in ch[f]:
            if cs is None: return None
            for c in cs:
                if isinstance(c, Inner): return None
                same.append(want is not None and all(a.eq(b) for a, b in zip(c.ix, want)))
        if all(same): spec.append((f, depth))
        elif depth == 1 and edge is not None: spec.append((f, 0))       # nodes of an edge: expected to stay as they are
        else: return None
    sub = [(h, i) for h, i in zip(sl.head, sl.init)]
    isinit = {d for l in sl.init for d in folds_names(l)}
    out = []
    conds = []
    for c, exact, s1, lv, suf in L.paths:
        fs = [z3.substitute(f, *sub) for f in suf]
        conds.append(fs)
    hav = {h.decl().name() for j, h in enumerate(sl.head) if j not in sl.still}
    pure2 = lambda e: not any(n in hav for n in folds_names(e)) and L.pure(e)
    for fs in conds:
        for f in fs:
            if not pure2(f) and not has_q(f): return None
        if any(not pure2(f) and not has_q(f) for f in fs): return None
    conds = [[f for f in fs if not has_q(f)] for fs in conds]
    for f, depth in spec:
        if depth == 0:
            out.append(Cand('%s.%s unchanged' % (nm, f), lambda lv, D, f=f: lv[k][F[f]] == sl.init[F[f]], (k, F[f]))); continue
        q = (u,) if depth == 1 else (u, v)
        body = None
        for fs, cs in list(zip(conds, ch[f]))[::-1]:
            x = cs[0].val if cs else at(sl.init[F[f]], (L.x,) if depth == 1 else edge)
            x = z3.substitute(x, *sub)
            if not pure2(x): return None
            body = x if body is None else z3.If(z3.And(*fs) if fs else TRUE, x, body)
        directed = L.st0.heap[k[1]].directed
        if 'box_int' in folds_names(body): models.intbox(L.E)
        if 'card' in folds_names(body): models.allcard(L.E)

        def cand(lv, D, f=f, q=q, body=body, depth=depth):
            t = at(lv[k][F[f]], q)
            if depth == 1: e = z3.If(L.isdone(D, u), sub1(body, L.x, u), at(sl.init[F[f]], q))
            else:
                at2 = lambda a, b: sub1(z3.substitute(body, (edge[0], a), (edge[1], b)), L.x, models.pair(a, b))
                e = at(sl.init[F[f]], q)
                if not directed: e = z3.If(L.isdone(D, models.pair(v, u)), at2(v, u), e)
                e = z3.If(L.isdone(D, models.pair(u, v)), at2(u, v), e)
            return forall(list(q), t == e, [t])
        out.append(Cand('%s.%s of the done elements' % (nm, f), cand))
    for f in HGraph.FIELDS:
        if f not in changed: out.append(Cand('%s.%s unchanged' % (nm, f), lambda lv, D, f=f: lv[k][F[f]] == sl.init[F[f]], (k, F[f])))
    return out


def folds_names(e):
    from .loops import consts
    return set(consts(e))


def has_q(f):
    from .loops import is_q
    return is_q(f)
