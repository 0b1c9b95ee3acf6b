"""python3-vt -m mkv.pyvc.selftest [ID...]: tests of the verifier itself (no part of a check)
1. the interpreter agrees with Python on small functions with known arguments
2. true postconditions of small loops are proved and false ones are not
3. no contract proves `False` at the end of its function (its assumptions are consistent as far as z3 can tell)"""
import os, sys, tempfile, textwrap, shutil
import z3
from . import contract, stage, models
from .core import *
from .interp import Engine, Repo, Run
from .folds import fold

CODE = '''
def arith(a, b):
    return [a + b, a - b, a * b, a // b, a % b, -a, abs(b), a < b, a <= b, a == b, a != b, min(a, b), max(a, b)]

def lists(a, b):
    l = [a, b]
    l.append(a + b)
    l += [1, 2]
    x = l.pop()
    y = l.pop(0)
    l = [7] + l
    m = l[1:]
    l.reverse()
    return [l, m, x, y, len(l), a in l, l.index(b), l.count(a), l[-1], l[:2], list(reversed(m)), sorted(l), sum(l)]

def dicts(a, b):
    d = {'x': a}
    d['y'] = b
    d.setdefault('x', 9)
    d.setdefault('z', 3)
    e = dict(d)
    del e['x']
    d.update({'w': 1})
    return [d, e, list(d.keys()), list(e.values()), d.get('q'), d.get('q', 5), 'x' in d, 'x' in e, d.pop('z'), len(d), {k: v for k, v in e.items() if v != b}]

def sets(a, b):
    s = {1, 2}
    s.add(3)
    s.discard(9)
    t = set([2, 3])
    return [sorted(s), len(s), 3 in s, 4 in t, s is t]

def strings(a, b):
    s = 'Ab'
    return [s + 'c', s * 2, s.upper(), s.lower(), 'b' in s, s.startswith('A'), ','.join(['x', 'y']), 'x,y'.split(','), '{}-{}'.format(a, b), len(s), s[0], s[-1], s[1:], ' q '.strip(), 'aXa'.replace('a', 'b')]

def handlers(a, b):
    out = []
    try:
        {}['k']
    except KeyError:
        out.append('key')
    else:
        out.append('no')
    finally:
        out.append('fin')
    try:
        [][3]
    except (KeyError, IndexError):
        out.append('index')
    try:
        try:
            raise ValueError('x')
        except TypeError:
            out.append('wrong')
    except Exception:
        out.append('outer')
    return out

def flow(a, b):
    out = []
    for i in range(5):
        if i == 1: continue
        if i == 4: break
        out.append(i)
    else:
        out.append('else')
    for i, (x, y) in enumerate([(1, 2), (3, 4)], start = 5):
        out.append(i + x * y)
    k = 0
    while k < 3:
        k += 1
    out.append(k if a else -k)
    out.append([p for q in ((1, 2), (3,)) for p in q if p != 2])
    f = lambda p, q = 4, *r, **s: (p, q, r, sorted(s))
    out.append(f(1))
    out.append(f(1, 2, 3, z = 1))
    x, *y = [1, 2, 3]
    out += [x, y, a or b, a and b, not a, 1 < 2 < 3, None is None]
    return out

def alias(a, b):
    l = [1]
    m = l
    n = list(l)
    m.append(2)
    d = {'l': l}
    d['l'].append(3)
    n.append(9)
    return [l, m, n, d, l is m, l is n]

class P:
    k = 4
    def __init__(self, v): self.v = v
    def get(self): return self.v + self.k
    def __eq__(self, o): return self.v == o.v
    @property
    def twice(self): return self.v * 2

class Q(P):
    def get(self): return P.get(self) + 1

def objects(a, b):
    p, q = P(a), Q(a)
    p.v += 1
    p.k = 5
    return [p.get(), q.get(), p == q, P(a) == q, q.twice, isinstance(q, P), isinstance(p, Q), hasattr(p, 'v'), hasattr(p, 'nope'), getattr(q, 'nope', 3)]

def gen(a, b):
    def g(n):
        yield n
        yield n + 1
    return list(g(a))

# loops over unknown data
def count(l, x):
    n = 0
    for y in l:
        if y == x: n += 1
    return n

def keep(l, x):
    out = []
    for y in l:
        if y != x: out.append(y)
    return out

def anyof(l, x):
    for y in l:
        if y == x: return True
    return False

def tally(l, x):
    d = {}
    for y in l:
        try:
            d[y] += 1
        except KeyError:
            d[y] = 1
    return d

def skipfirst(l, x):
    n = 0
    for i, y in enumerate(l):
        if i > 0 and y == x: n += 1
    return n
'''


def topy(E, v):
    if isinstance(v, Ref):
        h = E.get(v)
        if isinstance(h, CList): return [topy(E, x) for x in h.items]
        if isinstance(h, CDict): return {topy(E, k): topy(E, x) for k, x in h.items.items()}
        if isinstance(h, Sym): return ('symbolic',)
    if isinstance(v, (list, tuple)): return type(v)(topy(E, x) for x in v)
    if z3.is_expr(v):
        v = z3.simplify(v)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_true(v) or z3.is_false(v): return z3.is_true(v)
        return ('symbolic',)
    if isinstance(v, Opq): return ('symbolic',)
    return v


def agrees(x, y):
    """x (symbolic) is y where it is a known value"""
    if x == ('symbolic',): return True
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)): return type(x) is type(y) and len(x) == len(y) and all(agrees(a, b) for a, b in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict): return list(x) == list(y) and all(agrees(x[k], y[k]) for k in x)
    return type(x) is type(y) and x == y


def part1(repo, ns):
    bad = []
    for fn in ('arith', 'lists', 'dicts', 'sets', 'strings', 'handlers', 'flow', 'alias', 'objects', 'gen'):
        for a, b in ((3, 2), (-7, 2), (0, -5), (5, 5)):
            want = ns[fn](a, b)
            E = Engine(repo, 8000)
            try:
                node, ci, mod = repo.find('metaknowledge.code', fn)
                st = State()
                E.st, E.run = st, Run((), {})
                E.st, E.run = None, None
                f = Closure(node, None, mod, ci)
                res = []
                for s0, o in E.explore(st, lambda: E.bind(f, [a, b], {})):
                    res += E.body(f, o[1], s0)
                for s1, o in res:
                    E.st, E.run = s1, Run((), {})
                    if o[0] != 'return' or not agrees(topy(E, o[1]), want): bad.append('%s(%d, %d): %r is not %r' % (fn, a, b, topy(E, o[1]) if o[0] == 'return' else o[1], want))
                if len(res) != 1: bad.append('%s(%d, %d): %d paths' % (fn, a, b, len(res)))
            except Unsupported as e: print('  outside the subset: %s: %s' % (fn, e))
    return bad


def part2(repo):
    L, X = z3.Const('l', U), z3.Const('x', U)
    i, y = z3.Int('i?p'), z3.Const('y?p', U)
    at = lambda q: models.seqat(L, q)
    n = models.seqlen(L)
    inn = lambda c: z3.Exists([i], z3.And(i >= 0, i < n, c(at(i))), patterns=[at(i)])

    class Items(models.ListModel): item = 'any'

    def setup(E):
        E.models['Items'] = Items()
        E.fact(n >= 0)
        return [Opq(L, 'Items'), Opq(X, 'any')], {}, {}

    def asum(E, c): return fold(E, 'seq', i, z3.If(c(at(i)), 1, 0))
    boolof = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
    num = lambda E, o: E.as_int(o[1])

    def dictof(E, o):
        R = models.tosym(E, E.st.heap[o[1].a])
        return R.leaves

    def lst(E, o):
        R = models.tosym(E, E.st.heap[o[1].a])
        return R.leaves
    eq = lambda v: v == X
    T = {
        'count': [('the number', True, lambda E, o: num(E, o) == asum(E, eq)(n)), ('one more', False, lambda E, o: num(E, o) == asum(E, eq)(n) + 1), ('the others', False, lambda E, o: num(E, o) == asum(E, lambda v: v != X)(n)),
                  ('not negative', True, lambda E, o: num(E, o) >= 0), ('never zero', False, lambda E, o: num(E, o) > 0), ('one short', False, lambda E, o: z3.Implies(n > 0, num(E, o) == asum(E, eq)(n - 1)))],
        'anyof': [('there', True, lambda E, o: boolof(o[1]) == inn(eq)), ('always', False, lambda E, o: boolof(o[1])), ('never', False, lambda E, o: z3.Not(boolof(o[1]))), ('another', False, lambda E, o: boolof(o[1]) == inn(lambda v: v != X))],
        'keep': [('as many', True, lambda E, o: lst(E, o)[0] == asum(E, lambda v: v != X)(n)), ('all', False, lambda E, o: lst(E, o)[0] == n), ('none of them is x', True, lambda E, o: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lst(E, o)[0]), z3.Select(lst(E, o)[1], i) != X))),
                 ('the same places', False, lambda E, o: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lst(E, o)[0]), z3.Select(lst(E, o)[1], i) == at(i))))],
        'tally': [('counts', True, lambda E, o: z3.ForAll([y], z3.Implies(z3.Select(dictof(E, o)[0], y), z3.Select(dictof(E, o)[1], y) == asum(E, lambda v: v == y)(n)))), ('keys', True, lambda E, o: z3.ForAll([y], z3.Select(dictof(E, o)[0], y) == (asum(E, lambda v: v == y)(n) > 0))),
                  ('all one', False, lambda E, o: z3.ForAll([y], z3.Implies(z3.Select(dictof(E, o)[0], y), z3.Select(dictof(E, o)[1], y) == 1))), ('no keys', False, lambda E, o: z3.ForAll([y], z3.Not(z3.Select(dictof(E, o)[0], y))))],
        'skipfirst': [('the number of all', False, lambda E, o: num(E, o) == asum(E, eq)(n)), ('not negative', True, lambda E, o: num(E, o) >= 0)],
    }
    bad = []
    for fn, cs in T.items():
        for name, right, post in cs:
            V = contract.Verify(repo, 'metaknowledge.code:' + fn)
            V.run('', setup, lambda E, c, o: [(name, post(E, o) if o[0] == 'return' else z3.BoolVal(False))], [name])
            s = {o.name: o for o in V.results()}[fn + ': ' + name]
            if (s.status == 'proved') != right: bad.append('%s: %s is %s %s' % (fn, name, s.status, s.note))
    return bad


def part3(ids, repo):
    real = contract.Verify.attempt

    def attempt(self, E, case, tag, setup, post, names, configure, expect):
        def p(E, c, o):
            gs = post(E, c, o)
            return [(names[0], z3.BoolVal(o[0] not in expect))] if gs else []
        return real(self, E, case, tag, setup, p, names[:1], configure, expect)
    contract.Verify.attempt = attempt
    bad, n, done = [], 0, set()
    for pid in ids:
        fs = stage.run(pid, repo, 'quick')['obligations']
        for o in fs:
            # Collection.__iter__ is decided by what the domain of the iteration is, without a postcondition
            if o['name'] in done or o['name'].endswith('goes over exactly the items'): continue
            done.add(o['name'])
            n += 1
            if o['status'] == 'proved': bad.append('%s %s: False is proved' % (pid, o['name']))
    return bad, n


def main():
    stage.fixed_hash()
    d = tempfile.mkdtemp()
    bad = []
    try:
        os.mkdir(os.path.join(d, 'metaknowledge'))
        for f, t in (('__init__.py', ''), ('code.py', CODE)):
            with open(os.path.join(d, 'metaknowledge', f), 'w') as h: h.write(t)
        ns = {}
        exec(CODE, ns)
        repo = Repo(d)
        b = part1(repo, ns); print('1. agreement with Python: %d disagreements' % len(b)); bad += b
        b = part2(repo); print('2. small loops: %d surprises' % len(b)); bad += b
    finally: shutil.rmtree(d)
    from . import specs
    ids = sys.argv[1:] or sorted({p for s in contract.SPECS for p in s[0]})
    b, n = part3(ids, os.environ.get('MKV_REPO', '/repo')); print('3. contracts: %d cases, %d prove False' % (n, len(b))); bad += b
    for x in bad: print('   ', x)
    sys.exit(1 if bad else 0)


if __name__ == '__main__': main()
