"""Sums over an iteration, as functions: the same step gives the same function, wherever it comes from (a loop of the code
or a specification), and two functions whose steps agree on the domain agree (the only induction that is used, stated as an
axiom with a witness: where two sums differ, some element of the domain has different steps)"""
import z3
from .core import *

ZERO = z3.IntVal(0)


def params(e, skip):
    """nullary uninterpreted constants of a term, in order of occurrence"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not x.eq(skip) and not x.decl().name().startswith('lit:') and not x.eq(NONE): out.append(x)
            todo.extend(reversed(x.children()))
    return out


class Fold:
    def __init__(self, n, kind, x, ps, body):
        self.kind, self.x, self.ps, self.body, self.n = kind, x, ps, body, n
        self.dsort = I if kind == 'seq' else UB
        self.f = z3.Function('fold.%d' % n, *([p.sort() for p in ps] + [self.dsort, I]))

    def inst(self, x, ps):
        return z3.substitute(self.body, (self.x, x), *zip(self.ps, ps))


class Sum:
    """a fold with arguments: call it with a domain"""
    def __init__(self, fold, args):
        self.fold, self.args = fold, args

    def __call__(self, D): return self.fold.f(*self.args, D)
    def step(self, x): return self.fold.inst(x, self.args)

    def at(self, *sub):
        return Sum(self.fold, [z3.substitute(a, *sub) for a in self.args])


def inside(kind, D, x):
    return z3.And(x >= 0, x < D) if kind == 'seq' else z3.Select(D, x)


def heads(e, v):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x): continue
        seen.add(x.get_id())
        if any(c.eq(v) for c in x.children()) and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and patok(x): out.append(x)
        todo.extend(x.children())
    return out


def fold(E, kind, x, body):
    """the sum of body(x) over a set ('set') or over 0 .. n-1 ('seq')"""
    E.folds = getattr(E, 'folds', None) or {}
    body = z3.simplify(body)
    args = params(body, x)
    X = z3.Const('x?f', x.sort())
    ps = [z3.Const('p%d?f' % i, a.sort()) for i, a in enumerate(args)]
    b = z3.substitute(body, (x, X), *zip(args, ps))
    key = (kind, b.sexpr())
    fo = E.folds.get(key)
    if fo is None:
        fo = Fold(len(E.folds), kind, X, ps, b)
        others = list(E.folds.values())
        E.folds[key] = fo
        register(E, fo, others)
        E.notes.add('sums over iterations are functions of the domain; sums whose steps agree are equal (induction over the domain, not re-proved)')
    return Sum(fo, args)


def register(E, fo, others):
    D = z3.Const('D?f', fo.dsort)
    F = fo.f(*fo.ps, D)
    vs = list(fo.ps) + [D]
    n = fo.n
    if fo.kind == 'seq':
        E.fact(forall(vs, z3.Implies(D <= 0, F == 0), [F]))
    else:
        E.fact(forall(list(fo.ps), fo.f(*fo.ps, EMPTYSET) == 0, [fo.f(*fo.ps, EMPTYSET)]) if fo.ps else fo.f(EMPTYSET) == 0)
    if nonneg(fo.body, fo.x, E):
        sk = z3.Function('first.%d' % n, *([v.sort() for v in vs] + [fo.x.sort()]))(*vs)
        E.fact(forall(vs, z3.And(F >= 0, z3.Implies(F > 0, z3.And(inside(fo.kind, D, sk), fo.inst(sk, fo.ps) > 0))), [F]))
        g = z3.And(inside(fo.kind, D, fo.x), fo.body > 0)
        pats = [z3.Select(D, fo.x)] if fo.kind == 'set' else heads(fo.body, fo.x)
        for p in pats[:2]:
            E.fact(forall(vs + [fo.x], z3.Implies(g, F >= fo.body), [mpat(F, p)]))
    else:
        sk = z3.Function('below.%d' % n, *([v.sort() for v in vs] + [fo.x.sort()]))(*vs)
        E.fact(forall(vs, z3.Implies(F < 0, z3.And(inside(fo.kind, D, sk), fo.inst(sk, fo.ps) < 0)), [F]))
    for o in others:
        if o.kind != fo.kind or o.x.sort() != fo.x.sort(): continue
        qs = [z3.Const('q%d?f' % i, p.sort()) for i, p in enumerate(o.ps)]
        G = o.f(*qs, D)
        allv = list(fo.ps) + qs + [D]
        sk = z3.Function('differ.%d.%d' % (o.n, n), *([v.sort() for v in allv] + [fo.x.sort()]))(*allv)
        if aligned(fo.ps, o.ps):
            # the same arguments: one of the two is enough to bring in the other
            G2 = o.f(*fo.ps, D)
            sk2 = z3.substitute(sk, *zip(qs, fo.ps)) if qs else sk
            E.fact(forall(vs, z3.Implies(F != G2, z3.And(inside(fo.kind, D, sk2), fo.inst(sk2, fo.ps) != o.inst(sk2, fo.ps))), [F, G2]))
        E.fact(forall(allv, z3.Implies(F != G, z3.And(inside(fo.kind, D, sk), fo.inst(sk, fo.ps) != o.inst(sk, qs))), [mpat(F, G)]))


EMPTYSET = z3.K(U, False)


def nonneg(b, x, E):
    """every leaf of the step is not negative"""
    todo = [b]
    while todo:
        t = todo.pop()
        if z3.is_int_value(t):
            if t.as_long() < 0: return False
        elif z3.is_app_of(t, z3.Z3_OP_ITE): todo += t.children()[1:]
        elif z3.is_add(t) or z3.is_mul(t): todo += t.children()
        elif z3.is_app(t) and t.decl().name().startswith('fold.'):
            f = [o for o in E.folds.values() if o.f.eq(t.decl())]
            if not f or not nonneg(f[0].body, f[0].x, E): return False
        elif z3.is_app(t) and t.decl().name() in ('seqlen', 'card'): pass
        else: return False
    return True


def steps(E, s, ps, D, x, after, first):
    """what a loop adds: the sum before the first element and after one more"""
    vs = list(ps)
    fs = [s(first) == 0, s(after) == s(D) + s.step(x)]
    for f in fs:
        if vs: E.fact(forall(vs, f, [s(after), s(D)] if f is fs[1] else [s(first)]))
        else: E.fact(f)


def aligned(a, b): return len(a) == len(b) and all(x.sort() == y.sort() for x, y in zip(a, b))
