"""Symbolic executor for the Python of the repository: reads the functions from source, executes them on symbolic values.
Expressions are evaluated along one decision trace (explore() enumerates the traces); statements keep lists of states."""
import ast, os, time, warnings
import z3
from .core import *
from . import core

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}
EXC = {'BaseException': None, 'Exception': 'BaseException', 'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'TypeError': 'Exception',
       'ValueError': 'Exception', 'AttributeError': 'Exception', 'StopIteration': 'Exception', 'RuntimeError': 'Exception', 'ArithmeticError': 'Exception',
       'ZeroDivisionError': 'ArithmeticError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
       'NotImplementedError': 'RuntimeError', 'NameError': 'Exception', 'Warning': 'Exception', 'UserWarning': 'Warning', 'PickleError': 'Exception'}
BUILTINS = {'len', 'isinstance', 'set', 'list', 'dict', 'tuple', 'str', 'int', 'float', 'bool', 'range', 'enumerate', 'sorted', 'sum', 'min', 'max', 'zip', 'hash', 'type', 'getattr', 'hasattr', 'iter', 'next',
            'print', 'repr', 'abs', 'any', 'all', 'reversed', 'frozenset', 'callable', 'object', 'super', 'bytes', 'setattr', 'open', 'map', 'filter', 'issubclass', 'round', 'property', 'staticmethod', 'divmod', 'id'}
TYPES = {'set', 'list', 'dict', 'tuple', 'str', 'int', 'float', 'bool', 'frozenset', 'object', 'bytes', 'type', 'range'}


class ModInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}
        self.pkg = path.endswith('__init__.py')


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.members = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.members[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = n


class Repo:
    """the modules of /repo, parsed once per run"""
    def __init__(self, root):
        self.root, self.mods = root, {}
        for d, ds, fs in os.walk(os.path.join(root, 'metaknowledge')):
            ds[:] = [x for x in ds if x not in ('tests', '__pycache__', 'bin')]
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    with open(p, encoding='utf-8') as fh, warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.mods[rel] = ModInfo(rel, p, ast.parse(fh.read()))
        for m in self.mods.values():
            self.scan(m, m.tree.body)

    def scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef,)):
                m.defs[n.name] = ('func', n)
            elif isinstance(n, ast.ClassDef):
                m.defs[n.name] = ('class', ClassInfo(n.name, m, n))
            elif isinstance(n, ast.ImportFrom):
                base = m.name.split('.')
                if n.level:
                    base = base if m.pkg else base[:-1]
                    base = base[:len(base) - (n.level - 1)]
                    full = '.'.join(base + ([n.module] if n.module else []))
                else:
                    full = n.module
                for a in n.names:
                    m.defs[a.asname or a.name] = ('from', full, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.defs[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ('assign', n)
            elif isinstance(n, (ast.Try, ast.If)):
                self.scan(m, n.body)

    def resolve(self, m, name):
        """(kind, payload, module) of a global name, following imports inside the repository"""
        seen = 0
        while True:
            seen += 1
            if m is None or seen > 10:
                return None
            d = m.defs.get(name)
            if d is None:
                return None
            if d[0] == 'from':
                if d[1] in self.mods:
                    sub = d[1] + '.' + d[2]
                    if d[2] not in self.mods[d[1]].defs and sub in self.mods:
                        return ('mod', sub, m)
                    m, name = self.mods[d[1]], d[2]
                    continue
                return ('ext', d[1] + '.' + d[2], m)
            return (d[0], d[1], m)

    def find(self, mod, qual):
        """FunctionDef (and class) of e.g. ('metaknowledge.mkCollection', 'Collection.__or__')"""
        m = self.mods[mod]
        if '.' in qual:
            c, f = qual.split('.')
            ci = m.defs[c][1]
            return ci.members[f], ci, m
        return m.defs[qual][1], None, m


class Run:
    def __init__(self, trace, cache):
        self.trace, self.cache, self.taken, self.alts, self.ncalls = trace, cache, (), [], 0


class Dom:
    """what a loop goes over. kind: 'conc' items / 'set' arr, elem(x) / 'seq' n, elem(i)"""
    def __init__(self, kind, items=None, arr=None, n=None, elem=None, origin=None, cls='any', addr=None):
        self.kind, self.items, self.arr, self.n, self.elem, self.origin, self.cls, self.addr = kind, items, arr, n, elem, origin, cls, addr


def func_locals(node):
    """names bound in a function body (its own scope)"""
    out, glob = set(), set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name); continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name.split('.')[0]) for a in c.names)
            walk(c)
    walk(node)
    return out - glob


def budget(s, ms):
    """what a query may cost, in steps of the solver, so that a busy machine changes nothing (the time is a backstop)"""
    s.set('rlimit', int(ms * 1500)); s.set('timeout', int(ms * 4))


SEARCH = [(z3.SimpleSolver, {}), (z3.SimpleSolver, {'random_seed': 7}), (z3.SimpleSolver, {'smt.qi.eager_threshold': 50.0}), (z3.SimpleSolver, {'smt.arith.solver': 2, 'random_seed': 13}),
          (z3.SimpleSolver, {'random_seed': 11, 'smt.relevancy': 0}), (z3.Solver, {}), (z3.SimpleSolver, {'smt.qi.eager_threshold': 5.0, 'random_seed': 7}), (z3.SimpleSolver, {'smt.phase_selection': 0}),
          (z3.SimpleSolver, {'smt.arith.solver': 2, 'random_seed': 3}), (z3.SimpleSolver, {'smt.qi.eager_threshold': 50.0, 'random_seed': 13})]


class Engine:
    def __init__(self, repo, timeout=8000):
        self.repo = repo
        self.facts = []              # universally valid ground facts about terms that occur
        self._factset = set()
        self.axioms = []             # axioms of specification functions
        self.st = None
        self.run = None
        self.timeout = timeout
        self.models = {}             # classes of opaque values
        self.calls = {}              # contracts used at call sites: qualified name -> fn(E, self_, args, kwargs)
        self.globals = {}            # (module, name) -> value
        self.fsolver = None
        self.inv = None              # hook giving candidate invariants
        self.solver_time, self.queries = 0.0, 0
        self.paths = 0
        self.maxpaths = 3000
        self.notes = set()           # trusted models that were used
        self.inlined = set()         # functions executed in place
        self.deadline = None
        self.lite = 0                # loops are run to see what changes only
        self.lits = {}
        self.loopstack, self.stack, self.st_counts = [], [], []
        self.timeouts = 0
        self.looptimeout, self.debug, self.link = 3000, False, None
        self.brief = False
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ terms
    def fact(self, f):
        k = f.sexpr() if len(self.facts) < 0 else f.get_id()
        if k not in self._factset:
            self._factset.add(k); self.facts.append(f)

    def fresh(self, name, sort):
        st = self.st
        st.nf = getattr(st, 'nf', 0) + 1
        return z3.Const('%s!%d' % (name, st.nf), sort)

    def lit(self, v):
        """opaque constant for a python string or float"""
        key = (type(v).__name__, v)
        if key not in self.lits:
            c = z3.Const('lit:%s:%r' % key, U)
            self.fact(litno(c) == len(self.lits))          # literals are different values
            self.lits[key] = c
            if isinstance(v, str):
                self.fact(kind(c) == K_STR); self.fact(us(c) == z3.StringVal(v) if all(ord(ch) < 0x2ff00 for ch in v) else z3.BoolVal(True))
                self.fact(bs(us(c)) == c)
                self.fact(truthy(c) == z3.BoolVal(bool(v))); self.fact(strof(c) == c)
            else:
                self.fact(kind(c) == (K_BYTES if isinstance(v, bytes) else K_FLOAT)); self.fact(truthy(c) == z3.BoolVal(bool(v)))
        return self.lits[key]

    def box(self, v):
        if v is None:
            self.fact(kind(NONE) == K_NONE); self.fact(z3.Not(truthy(NONE)))
            return NONE
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        elif isinstance(v, int):
            v = z3.IntVal(v)
        if isinstance(v, (str, float)):
            return self.lit(v)
        if isinstance(v, Opq):
            return v.t
        if z3.is_expr(v):
            s = v.sort()
            if s == U:
                return v
            if s == I:
                if v.decl().eq(ui):
                    t = v.arg(0)
                    self.fact(z3.Implies(kind(t) == K_INT, bi(ui(t)) == t))
                t = bi(v); self.fact(ui(t) == v); self.fact(kind(t) == K_INT); self.fact(truthy(t) == (v != 0)); return t
            if s == B:
                t = bb(v); self.fact(ub(t) == v); self.fact(kind(t) == K_BOOL); self.fact(truthy(t) == v); return t
            if s == S:
                if z3.is_app(v) and v.decl().eq(us):
                    t = v.arg(0); self.fact(z3.Implies(kind(t) == K_STR, bs(us(t)) == t))
                t = bs(v); self.fact(us(t) == v); self.fact(kind(t) == K_STR); self.fact(truthy(t) == (v != z3.StringVal(''))); self.fact(strof(t) == t); return t
        if isinstance(v, tuple):
            a = [self.key(x) for x in v]
            f = z3.Function('tup%d' % len(a), *([U] * len(a) + [U]))
            t = f(*a) if a else z3.Const('emptytuple', U)
            self.fact(kind(t) == K_TUPLE)
            for i, x in enumerate(a):
                self.fact(z3.Function('tup%d_%d' % (len(a), i), U, U)(t) == x)
            self.fact(seqlen(t) == len(a))
            for i, x in enumerate(a):
                self.fact(seqat(t, z3.IntVal(i)) == x)
            self.fact(truthy(t) == z3.BoolVal(bool(a)))
            return t
        if isinstance(v, Ref):
            c = z3.Const('obj@%d' % v.a, U); self.fact(kind(c) == K_OBJ)
            return c
        if isinstance(v, Cls):
            return z3.Const('class:' + v.name, U)
        raise Unsupported('boxing %r' % (v,))

    def key(self, v):
        """the term that stands for v up to =="""
        if isinstance(v, Opq):
            m = self.models.get(v.cls)
            if m is not None and hasattr(m, 'eqkey'):
                return m.eqkey(self, v)
        return self.box(v)

    def as_int(self, v):
        """integer term of a value known to be an integer, or None"""
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if z3.is_expr(v) and v.sort() == I:
            return v
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Opq):
            if v.cls == 'int':
                return self.unboxint(v.t)
            if v.cls == 'any' and self.choose(kind(v.t) == K_INT):
                return self.unboxint(v.t)
        return None

    def unboxint(self, t):
        if z3.is_app(t) and t.decl().eq(bi):
            return t.arg(0)
        self.fact(z3.Implies(kind(t) == K_INT, bi(ui(t)) == t))
        self.fact(z3.Implies(kind(t) == K_INT, truthy(t) == (ui(t) != 0)))
        return ui(t)

    def as_str(self, v):
        """String term of a value known to be a string, or None"""
        if isinstance(v, str):
            return z3.StringVal(v)
        if z3.is_expr(v) and v.sort() == S:
            return v
        if isinstance(v, Opq):
            if v.cls == 'str' or (v.cls == 'any' and self.choose(kind(v.t) == K_STR)):
                if z3.is_app(v.t) and v.t.decl().eq(bs):
                    return v.t.arg(0)
                self.fact(z3.Implies(kind(v.t) == K_STR, bs(us(v.t)) == v.t))
                self.fact(z3.Implies(kind(v.t) == K_STR, truthy(v.t) == (us(v.t) != z3.StringVal(''))))
                return us(v.t)
        return None

    def isstr(self, v):
        return isinstance(v, str) or (z3.is_expr(v) and v.sort() == S) or (isinstance(v, Opq) and v.cls == 'str')

    # ------------------------------------------------------------------ solver
    def check(self, fs, timeout=None):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('time limit of the function')
        s = z3.SimpleSolver()
        budget(s, timeout or self.timeout); s.set('auto_config', False); s.set('smt.mbqi', False); s.set('random_seed', 1)
        s.add(*self.facts); s.add(*self.axioms); s.add(*fs)
        r = s.check()
        if r == z3.unknown and 'incomplete' in s.reason_unknown() and getattr(self, 'second', False):
            s = z3.SimpleSolver()
            budget(s, timeout or self.timeout); s.set('auto_config', False); s.set('smt.mbqi', False); s.set('random_seed', 1); s.set('smt.relevancy', 0)
            s.add(*self.facts); s.add(*self.axioms); s.add(*fs)
            r = s.check()
        if r == z3.unknown and 'incomplete' not in s.reason_unknown(): self.timeouts += 1
        self.solver_time += time.time() - t0; self.queries += 1
        return r, s

    def feasible(self, fs):
        """cheap: only the quantifier free part"""
        t0 = time.time()
        s = self.fsolver
        if s is None:
            s = self.fsolver = z3.Solver()
            budget(s, 400); s.set('random_seed', 1); self.nfacts = 0
        if len(self.facts) > self.nfacts:
            s.add(*[f for f in self.facts[self.nfacts:] if not is_q(f)]); self.nfacts = len(self.facts)
        s.push()
        s.add(*[f for f in fs if not is_q(f)])
        r = s.check()
        s.pop()
        self.solver_time += time.time() - t0; self.queries += 1
        return r != z3.unsat

    def prove(self, pc, goal, timeout=None, hard=False):
        g = z3.simplify(goal) if not is_q(goal) else goal
        if z3.is_true(g):
            return 'proved', None
        if hard:
            return self.prove_hard(pc, goal)
        r, s = self.check(list(pc) + [z3.Not(goal)], timeout)
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', s.model()
        return 'unknown', None

    def prove_hard(self, pc, goal):
        """a postcondition: other seeds and search settings when the first attempt gives no answer"""
        if z3.is_and(goal):
            # part by part
            for g in goal.children():
                r = self.prove(pc, g, hard=True)
                if r[0] != 'proved': return r
            return 'proved', None
        if z3.is_implies(goal):
            return self.prove(list(pc) + [goal.arg(0)], goal.arg(1), hard=True)
        if z3.is_quantifier(goal) and goal.is_forall():
            self.nsk = getattr(self, 'nsk', 0) + 1
            vs = [z3.Const('%s!sk%d' % (goal.var_name(i), self.nsk), goal.var_sort(i)) for i in range(goal.num_vars())]
            return self.prove(pc, z3.substitute_vars(goal.body(), *reversed(vs)), hard=True)
        t0 = time.time()
        res = ('unknown', None)
        # many short attempts: how long a proof takes depends more on the order of the search than on the question
        for k, (mk, opts, ms) in enumerate([(m, o, 2000) for m, o in SEARCH[:4 if self.brief else None]] + ([] if self.brief else [(m, o, self.timeout) for m, o in SEARCH[2:7]])):
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the function')
            s = mk()
            budget(s, ms); s.set('auto_config', False); s.set('smt.mbqi', False); s.set('random_seed', 1)
            for n, v in opts.items(): s.set(n, v)
            s.add(*self.facts); s.add(*self.axioms); s.add(*pc); s.add(z3.Not(goal))
            r = s.check(); self.queries += 1
            if self.debug: print('     attempt', k, r, s.reason_unknown() if r == z3.unknown else '', '%.2f s' % (time.time() - t0))
            if r == z3.unsat: res = ('proved', None); break
            if r == z3.sat: res = ('refuted', s.model()); break
        if res[0] == 'unknown': self.timeouts += 1
        if res[0] == 'unknown' and os.environ.get('MKV_DUMP'):
            open(os.environ['MKV_DUMP'], 'w').write(s.to_smt2())
        self.solver_time += time.time() - t0
        return res

    # ------------------------------------------------------------------ decisions
    def explore(self, st, fn):
        saved = self.st, self.run
        res, todo, cache = [], [()], {}
        try:
            while todo:
                tr = todo.pop()
                self.st = st.copy(); self.run = Run(tr, cache)
                try:
                    out = ('normal', fn())
                except PyRaise as e:
                    out = ('raise', e.exc)
                except Infeasible:
                    out = None
                todo.extend(self.run.alts)
                if out is not None:
                    res.append((self.st, out))
                self.paths += 1
                if len(res) + len(todo) > self.maxpaths:
                    raise Unsupported('too many paths')
        finally:
            self.st, self.run = saved
        return res

    def decide(self, n):
        run = self.run
        pos = len(run.taken)
        if pos < len(run.trace):
            i = run.trace[pos]
        else:
            i = 0
            for j in range(n - 1, 0, -1):
                run.alts.append(run.taken + (j,))
        run.taken += (i,)
        return i

    def choose(self, cond):
        """decide a condition along the trace"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond) if not is_q(cond) else cond
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        run, st = self.run, self.st
        pos = len(run.taken)
        if pos < len(run.trace):
            v = run.trace[pos] == 0
            run.taken += (run.trace[pos],)
        else:
            ids = {x.get_id() for x in st.pc}
            nc = z3.Not(c)
            nc = z3.simplify(nc) if not is_q(c) else nc
            if c.get_id() in ids:
                v = True; run.taken += (0,)
            elif nc.get_id() in ids:
                v = False; run.taken += (1,)
            else:
                k = self.bylits(st.pc, c)
                if k is not None: t, f = k, not k
                else: t, f = self.feasible(st.pc + [c]), self.feasible(st.pc + [nc])
                if not t and not f:
                    raise Infeasible
                if t and f:
                    run.alts.append(run.taken + (1,)); v = True
                else:
                    v = t
                run.taken += (0 if v else 1,)
        f = c if v else (z3.simplify(z3.Not(c)) if not is_q(c) else z3.Not(c))
        st.pc.append(f)
        return v

    @staticmethod
    def bylits(pc, c):
        """truth of a condition that follows from the literals of the path condition alone, or None"""
        if z3.is_quantifier(c): return None
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        sub = []
        for p in pc:
            if z3.is_quantifier(p): continue
            for q in (p.children() if z3.is_and(p) else [p]):
                if z3.is_not(q): sub.append((q.arg(0), F))
                elif not z3.is_quantifier(q): sub.append((q, T))
        if not sub: return None
        r = z3.simplify(z3.substitute(c, *sub))
        return True if z3.is_true(r) else False if z3.is_false(r) else None

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible
            return
        self.st.pc.append(f)

    def throw(self, cls, *args):
        raise PyRaise(Exc(cls, args))

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        st = self.st
        a = getattr(st, 'na', 1); st.na = a + 1
        st.heap[a] = obj
        return Ref(a)

    def get(self, r):
        return self.st.heap[r.a]

    def put(self, r, obj):
        if r.a in self.st.frozen:
            raise Unsupported('a container is changed after it was stored in another one')
        self.st.heap[r.a] = obj

    def newenv(self, parent, locs=()):
        st = self.st
        a = getattr(st, 'na', 1); st.na = a + 1
        st.envs[a] = {'__parent__': parent, '__locals__': frozenset(locs)}
        return a

    # ------------------------------------------------------------------ truth and comparison
    def truthc(self, v):
        """condition (bool or z3 Bool) of bool(v)"""
        from . import models
        if v is None: return False
        if isinstance(v, (bool, int, float, str, tuple)): return bool(v)
        if isinstance(v, (Closure, Bound, Builtin, Cls, Mod, Exc)): return True
        if z3.is_expr(v):
            if v.sort() == B: return v
            if v.sort() == I: return v != 0
            if v.sort() == S: return v != z3.StringVal('')
        if isinstance(v, Opq):
            m = self.models.get(v.cls)
            if m is not None and hasattr(m, 'truth'):
                return m.truth(self, v)
            self.as_truth_facts(v)
            return truthy(v.t)
        if isinstance(v, (Ref, View, It, GView, GAttr)):
            return models.truth_ref(self, v)
        raise Unsupported('truth of %r' % (v,))

    def as_truth_facts(self, v):
        self.fact(z3.Not(truthy(NONE))); self.fact(kind(NONE) == K_NONE)
        self.fact((kind(v.t) == K_NONE) == (v.t == NONE))
        self.fact(z3.Implies(kind(v.t) == K_LIST, truthy(v.t) == (seqlen(v.t) > 0)))
        self.fact(z3.Implies(kind(v.t) == K_OBJ, truthy(v.t)))
        self.fact(z3.Implies(kind(v.t) == K_INT, truthy(v.t) == (ui(v.t) != 0)))
        self.fact(z3.Implies(kind(v.t) == K_STR, truthy(v.t) == (v.t != self.lit(''))))

    def truth(self, v):
        return self.choose(self.truthc(v))

    def eq(self, a, b):
        """condition of a == b"""
        from . import models
        if isinstance(a, (Ref, View)) or isinstance(b, (Ref, View)):
            return models.eq_ref(self, a, b)
        if isinstance(a, Cls) or isinstance(b, Cls):
            return isinstance(a, Cls) and isinstance(b, Cls) and a.name == b.name
        conc = (type(None), bool, int, float, str)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(*cs) if cs else True
        for x, y in ((a, b), (b, a)):
            if z3.is_expr(x) and x.sort() == I and isinstance(y, (int, bool)): return x == int(y)
            if z3.is_expr(x) and x.sort() == I and z3.is_expr(y) and y.sort() == I: return x == y
            if z3.is_expr(x) and x.sort() == B and isinstance(y, bool): return x == y
            if z3.is_expr(x) and x.sort() in (I, B) and (y is None or isinstance(y, str)): return False
            if z3.is_expr(x) and x.sort() == S and (y is None or isinstance(y, (int, float))): return False
            if z3.is_expr(x) and x.sort() == S and self.isstr(y): return x == self.as_str(y)
            if isinstance(x, Opq) and x.cls == 'str' and y is None: return False
            if isinstance(x, Opq) and x.cls == 'int' and z3.is_expr(y) and y.sort() == I: return self.unboxint(x.t) == y
        for x in (a, b):
            if isinstance(x, Opq):
                m = self.models.get(x.cls)
                if m is not None and hasattr(m, 'eq'):
                    r = m.eq(self, x, b if x is a else a)
                    if r is not None:
                        return r
        return self.key(a) == self.key(b)

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None: return True
            if isinstance(x, Opq):
                if x.cls not in ('any', 'list'):
                    m = self.models.get(x.cls)
                    if x.cls in ('str', 'int', 'seq') or (m is not None and not getattr(m, 'maybe_none', False)):
                        return False
                self.fact(kind(NONE) == K_NONE); self.fact((kind(x.t) == K_NONE) == (x.t == NONE))
                return x.t == NONE
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(y, bool):
                if isinstance(x, bool): return x == y
                if z3.is_expr(x) and x.sort() == B: return x == y
                if isinstance(x, Opq): return z3.And(kind(x.t) == K_BOOL, x.t == self.box(y))
                return False
        if isinstance(a, Ref) and isinstance(b, Ref): return a.a == b.a
        if isinstance(a, Cls) and isinstance(b, Cls): return a.name == b.name
        if isinstance(a, Builtin) and isinstance(b, Builtin): return a.name == b.name
        if isinstance(a, (Cls, Builtin)) and isinstance(b, (Cls, Builtin)): return False
        if isinstance(a, Opq) and isinstance(b, Opq): return a.t == b.t
        raise Unsupported('is between %r and %r' % (a, b))

    def order(self, op, a, b):
        """condition of a < b etc.; raises TypeError along a path where the types do not allow it"""
        if op == '>': return self.order('<', b, a)
        if op == '>=': return self.order('<=', b, a)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b if op == '<' else a <= b
        inf = float('inf')
        for x in (a, b):
            if x is None:
                self.throw('TypeError')
            if isinstance(x, Opq) and x.cls == 'any' and self.choose(kind(x.t) == K_NONE):
                self.throw('TypeError')
        num = lambda v: isinstance(v, (int, float)) or (z3.is_expr(v) and v.sort() == I) or (isinstance(v, Opq) and v.cls == 'int')
        if num(a) and num(b) or (isinstance(a, Opq) and num(b)) or (isinstance(b, Opq) and num(a)):
            ia = None if isinstance(a, float) else self.as_int(a)
            ib = None if isinstance(b, float) else self.as_int(b)
            if ia is not None and ib is not None:
                return ia < ib if op == '<' else ia <= ib
            if ia is not None and b == inf: return True
            if ia is not None and b == -inf: return False
            if ib is not None and a == inf: return False
            if ib is not None and a == -inf: return True
            for x in (a, b):
                if isinstance(x, Opq) and x.cls == 'any' and not self.choose(kind(x.t) == K_FLOAT):
                    self.throw('TypeError')
        from . import models
        if isinstance(a, Ref) or isinstance(b, Ref):
            return models.order_ref(self, op, a, b)
        x, y = self.key(a), self.key(b)
        return lt(x, y) if op == '<' else z3.Not(lt(y, x))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env, mod)

    def ev_Constant(self, e, env, mod):
        if e.value is Ellipsis or isinstance(e.value, (bytes, complex)):
            if isinstance(e.value, bytes):
                return Opq(self.lit(e.value), 'any')
            raise Unsupported('constant')
        return e.value

    def lookup(self, name, env, mod):
        while env is not None:
            d = self.st.envs[env]
            if name in d:
                v = d[name]
                if v is UNDEF:
                    raise Unsupported('variable %s after a loop' % name)
                return v
            if name in d['__locals__']:
                self.throw('NameError', name)
            env = d['__parent__']
        return self.glob(mod, name)

    def glob(self, mod, name):
        k = (mod.name, name)
        g = self.st.ghost.get('globals')
        if g and k in g:
            return g[k]
        if k in self.globals:
            return self.globals[k]
        r = self.repo.resolve(mod, name)
        if r is not None:
            if (r[2].name, name) in self.globals:
                return self.globals[(r[2].name, name)]
            return self.member(r, name)
        if name in EXC:
            return Cls(name)
        if name in TYPES:
            return Cls(name)
        if name in BUILTINS:
            return Builtin(name)
        if name == 'NotImplemented':
            return Builtin('NotImplemented')
        if name == '__name__':
            return mod.name
        raise Unsupported('global name %s' % name)

    def member(self, r, name):
        kind_, x, m = r
        if kind_ == 'func':
            return Closure(x, None, m)
        if kind_ == 'class':
            return Cls(x.name, x)
        if kind_ in ('mod', 'ext'):
            if isinstance(x, str) and x in self.repo.mods and kind_ == 'mod':
                return Mod(x)
            return Builtin(x) if kind_ == 'ext' else Mod(x)
        if kind_ == 'assign':
            return self.const_global(m, name, x)
        raise Unsupported('global %s' % name)

    def const_global(self, m, name, node):
        g = (self.st.ghost.get('globals') or {}) if self.st is not None else {}
        if (m.name, name) in g: return g[(m.name, name)]
        try:
            v = ast.literal_eval(node.value)
        except (ValueError, TypeError, SyntaxError):
            c = node.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'compile' and isinstance(c.func.value, ast.Name) and c.func.value.id == 're':
                return self.ev(c, None, m)
            if isinstance(c, (ast.DictComp, ast.SetComp, ast.ListComp, ast.Call, ast.Dict, ast.List, ast.Set)) and self.st is not None and self.run is not None:
                # a table computed when the module is loaded: evaluated once on a path
                g = self.st.ghost.get('globals') or {}
                n = len(self.run.alts), self.run.taken
                try:
                    v = self.ev(c, None, m)
                    if (len(self.run.alts), self.run.taken) != n: raise Unsupported('module level decision')
                except (Unsupported, PyRaise):
                    return Builtin('global:%s.%s' % (m.name, name), node)
                g = dict(self.st.ghost.get('globals') or {}); g[(m.name, name)] = v
                self.st.ghost['globals'] = g
                return v
            return Builtin('global:%s.%s' % (m.name, name), node)
        return self.lift(v, 'global:%s.%s' % (m.name, name))

    def lift(self, v, tag=''):
        """python constant -> value (module level containers are shared read only constants)"""
        if isinstance(v, (list,)):
            return self.alloc(CList([self.lift(x) for x in v]))
        if isinstance(v, dict):
            return self.alloc(CDict({k: self.lift(x) for k, x in v.items()}))
        if isinstance(v, (set, frozenset)):
            return self.alloc(CSet(sorted(v, key=repr)))
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        return v

    def ev_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def ev_Tuple(self, e, env, mod):
        return tuple(self.evs(e.elts, env, mod))

    def evs(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, mod)
                d = self.iterate(v)
                if d.kind != 'conc':
                    raise Unsupported('star argument of unknown length')
                out += d.items
            else:
                out.append(self.ev(x, env, mod))
        return out

    def ev_List(self, e, env, mod):
        return self.alloc(CList(self.evs(e.elts, env, mod)))

    def ev_Set(self, e, env, mod):
        from . import models
        r = self.alloc(CSet())
        for v in self.evs(e.elts, env, mod):
            models.set_add(self, r, v)
        return r

    def ev_Dict(self, e, env, mod):
        from . import models
        r = self.alloc(CDict({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, r, self.ev(v, env, mod))
            else:
                kk = self.ev(k, env, mod)
                models.setitem(self, r, kk, self.ev(v, env, mod))
        return r

    def ev_BoolOp(self, e, env, mod):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, mod)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                if z3.is_expr(v) and v.sort() == B:
                    return t
                return v
        return v

    def ev_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            c = self.truthc(v)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            i = self.as_int(v)
            if i is not None: return -i
        raise Unsupported('unary operator')

    def ev_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def ev_Compare(self, e, env, mod):
        from . import models
        a = self.ev(e.left, env, mod)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, env, mod)
            o = CMP[type(op)]
            if o == '==': c = models.eqv(self, a, b)
            elif o == '!=':
                c = models.eqv(self, a, b); c = (not c) if isinstance(c, bool) else z3.Not(c)
            elif o in ('<', '<=', '>', '>='): c = self.order(o, a, b)
            elif o == 'in': c = models.contains(self, b, a)
            elif o == 'notin':
                c = models.contains(self, b, a); c = (not c) if isinstance(c, bool) else z3.Not(c)
            elif o == 'is': c = self.is_(a, b)
            else:
                c = self.is_(a, b); c = (not c) if isinstance(c, bool) else z3.Not(c)
            if i == len(e.ops) - 1 and res is None:
                return c
            if not self.choose(c):
                return False
            res = True
            a = b
        return True

    def ev_BinOp(self, e, env, mod):
        from . import models
        return models.binop(self, type(e.op).__name__, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def ev_Attribute(self, e, env, mod):
        from . import models
        return models.getattr_(self, self.ev(e.value, env, mod), e.attr)

    def ev_Subscript(self, e, env, mod):
        from . import models
        o = self.ev(e.value, env, mod)
        if isinstance(e.slice, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env, mod)
            return models.slice_(self, o, f(e.slice.lower), f(e.slice.upper), f(e.slice.step))
        return models.getitem(self, o, self.ev(e.slice, env, mod))

    def ev_Lambda(self, e, env, mod):
        return Closure(e, env, mod, name='<lambda>')

    def ev_JoinedStr(self, e, env, mod):
        from . import models
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None:
                    raise Unsupported('format specification')
                parts.append(models.str_(self, self.ev(x.value, env, mod)))
        return models.concat(self, parts)

    def ev_Call(self, e, env, mod):
        from . import models
        f = self.ev(e.func, env, mod)
        args = self.evs(e.args, env, mod) if not (len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp)) else [self.gen(e.args[0], env, mod)]
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                o = self.get(v) if isinstance(v, Ref) else None
                if isinstance(o, CDict) and all(isinstance(x, str) for x in o.items):
                    kw.update(o.items)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def gen(self, e, env, mod):
        """generator expression: kept unevaluated, consumed by the function it is given to"""
        return Gen(e, env, mod)

    def ev_GeneratorExp(self, e, env, mod):
        return Gen(e, env, mod)

    def ev_ListComp(self, e, env, mod):
        from . import loops
        return loops.comprehend(self, Gen(e, env, mod), 'list')

    def ev_SetComp(self, e, env, mod):
        from . import loops
        return loops.comprehend(self, Gen(e, env, mod), 'set')

    def ev_DictComp(self, e, env, mod):
        from . import loops
        return loops.comprehend(self, Gen(e, env, mod), 'dict')

    def ev_Starred(self, e, env, mod):
        raise Unsupported('star expression')

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        from . import models
        kw = kw or {}
        if isinstance(f, Bound):
            if isinstance(f.fn, Closure):
                return self.call_closure(f.fn, [f.self_] + list(args), kw)
            return models.call_method(self, f.self_, f.fn, list(args), kw)
        if isinstance(f, Closure):
            return self.call_closure(f, list(args), kw)
        if isinstance(f, Cls):
            return models.construct(self, f, list(args), kw)
        if isinstance(f, Builtin):
            return models.call_builtin(self, f, list(args), kw)
        if isinstance(f, Opq):
            m = self.models.get(f.cls)
            if m is not None and hasattr(m, 'call'):
                return m.call(self, f, list(args), kw)
        if isinstance(f, GView) and f.what in ('nodes', 'edges') and f.u is None:
            return models.graph_method(self, f.g, f.what, list(args), kw)
        raise Unsupported('call of %r' % (f,))

    def qual(self, f):
        return '%s.%s%s' % (f.mod.name, f.cls.name + '.' if f.cls is not None else '', f.name)

    def call_closure(self, f, args, kw):
        q = self.qual(f)
        if q in self.calls:
            return self.calls[q](self, args, kw)
        return self.inline(f, args, kw)

    def inline(self, f, args, kw):
        g = generator(f.node)
        if g is not None:
            return Gen(g, self.bind(f, args, kw), f.mod)
        run = self.run
        run.ncalls += 1
        ck = (run.ncalls, run.taken)
        if ck in run.cache:
            res = run.cache[ck]
        else:
            if getattr(self, 'depth', 0) > 25:
                raise Unsupported('recursion')
            if f.env is None:
                self.inlined.add(self.qual(f))
            self.depth = getattr(self, 'depth', 0) + 1
            self.stack.append(self.qual(f))
            try:
                env = self.bind(f, args, kw)
                res = self.body(f, env, self.st)
            finally:
                self.depth -= 1; self.stack.pop()
            run.cache[ck] = res
        if not res:
            raise Infeasible
        i = self.decide(len(res)) if len(res) > 1 else 0
        st, out = res[i]
        it = self.st.iters
        self.st = st.copy()
        self.st.iters = list(it)
        if out[0] == 'raise':
            raise PyRaise(out[1])
        return out[1]

    def body(self, f, env, st):
        """run the body of a function: list of (state, ('return', v) | ('raise', exc))"""
        g = generator(f.node)
        if g is not None:
            return [(st, ('return', Gen(g, env, f.mod)))]
        if isinstance(f.node, ast.Lambda):
            r = self.explore(st, lambda: self.ev(f.node.body, env, f.mod))
            return [(s, ('return', o[1]) if o[0] == 'normal' else o) for s, o in r]
        out = []
        for s, o in self.block(f.node.body, st, env, f.mod):
            if o[0] == 'normal':
                o = ('return', None)
            if o[0] in ('break', 'continue'):
                raise Unsupported('stray ' + o[0])
            out.append((s, o))
        return out

    def bind(self, f, args, kw):
        a = f.node.args
        locs = set() if isinstance(f.node, ast.Lambda) else func_locals(f.node)
        env = self.newenv(f.env, locs)
        d = self.st.envs[env]
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        star = kw.pop('**', None)
        if star is not None and a.kwarg is None:
            raise Unsupported('unknown keyword arguments')
        for i, v in enumerate(args):
            if i < len(pos):
                d[pos[i]] = v
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw('TypeError', 'too many arguments')
            d[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        names = pos + [x.arg for x in a.kwonlyargs]
        for k, v in list(kw.items()):
            if k in names:
                if k in d:
                    self.throw('TypeError', 'multiple values')
                d[k] = v; del kw[k]
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defs.update({x.arg: dv for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None})
        for n in names:
            if n not in d:
                if n not in defs:
                    self.throw('TypeError', 'missing argument ' + n)
                d[n] = self.ev(defs[n], f.env, f.mod)
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.alloc(CDict(kw))
        elif kw:
            self.throw('TypeError', 'unexpected keyword')
        return env

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, env, mod):
        """[(state, outcome)] of a list of statements"""
        cur, done = [st], []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            nxt = []
            for c in cur:
                for r in self.stmt(s, c, env, mod):
                    (nxt if r[1][0] == 'normal' else done).append(r)
            cur = [r[0] for r in nxt]
            if len(cur) + len(done) > self.maxpaths:
                raise Unsupported('too many paths')
            if not cur:
                break
            if len(cur) > 1:
                cur = self.merge(cur, st.na, env)
        return [(c, ('normal', None)) for c in cur] + done

    def merge(self, cur, na0, env):
        """states that differ in their path conditions only are one state: the disjunction of the conditions"""
        out = []
        for s in cur:
            for i, t in enumerate(out):
                if self.alike(s, t, na0, env):
                    m = self.joined(s, t)
                    if m is not None:
                        out[i] = m
                        break
            else:
                out.append(s)
        return out

    @staticmethod
    def samev(a, b):
        if a is b: return True
        if isinstance(a, Opq) and isinstance(b, Opq): return a.cls == b.cls and a.t.eq(b.t)
        if isinstance(a, Ref) and isinstance(b, Ref): return a.a == b.a
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(Engine.samev(x, y) for x, y in zip(a, b))
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, (int, str, float, bool, type(None), frozenset)): return type(a) is type(b) and a == b
        return False

    def alike(self, s, t, na0, env):
        if s.frozen != t.frozen or len(s.iters) != len(t.iters) or any(x is not y for x, y in zip(s.iters, t.iters)): return False
        if s.ghost.keys() != t.ghost.keys() or any(s.ghost[k] is not t.ghost[k] for k in s.ghost): return False
        todo, seen = [env] + [k for k in s.envs if k < na0], set()
        refs = []

        def note(v):
            if isinstance(v, Ref): refs.append(v.a)
            elif isinstance(v, View): refs.append(v.root.a)
            elif isinstance(v, (Closure, Gen)): todo.append(v.env)
            elif isinstance(v, tuple):
                for x in v: note(x)
            elif isinstance(v, Bound): note(v.self_)
            elif isinstance(v, (It, GView, GAttr)): return True
        while todo:
            e = todo.pop()
            if e is None or e in seen: continue
            seen.add(e)
            a, b = s.envs.get(e), t.envs.get(e)
            if a is None and b is None: continue
            if a is None or b is None or a.keys() != b.keys(): return False
            for k in a:
                if not self.samev(a[k], b[k]): return False
                if k == '__parent__': todo.append(a[k])
                elif k != '__locals__': note(a[k])
        for k in s.heap:
            if k < na0 and s.heap[k] is not t.heap.get(k): return False
        hs = set()
        while refs:
            r = refs.pop()
            if r in hs: continue
            hs.add(r)
            o = s.heap.get(r)
            if o is not t.heap.get(r): return False
            if isinstance(o, HObj):
                for v in o.attrs.values(): note(v)
            elif isinstance(o, (CList, CSet)):
                for v in o.items: note(v)
            elif isinstance(o, CDict):
                for v in o.items.values(): note(v)
        return True

    def joined(self, s, t):
        p = 0
        while p < len(s.pc) and p < len(t.pc) and s.pc[p].eq(t.pc[p]): p += 1
        a, b = s.pc[p:], t.pc[p:]
        if len(a) + len(b) > 12 or any(is_q(x) for x in a + b): return None
        m = s.copy()
        c = lambda l: z3.And(*l) if len(l) > 1 else l[0] if l else z3.BoolVal(True)
        g = z3.simplify(z3.Or(c(a), c(b)))
        m.pc = s.pc[:p] + ([] if z3.is_true(g) else [g])
        m.na, m.nf = max(s.na, t.na), max(s.nf, t.nf)
        return m

    def stmt(self, s, st, env, mod):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the function')
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, st, env, mod)

    def simple(self, st, fn):
        return [(s, o if o[0] == 'raise' else ('normal', None)) for s, o in self.explore(st, fn)]

    def st_Pass(self, s, st, env, mod):
        return [(st, ('normal', None))]

    st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, s, st, env, mod):
        return self.simple(st, lambda: self.ev(s.value, env, mod))

    def st_Import(self, s, st, env, mod):
        def f():
            for a in s.names:
                self.st.envs[env][a.asname or a.name.split('.')[0]] = Mod(a.name)
        return self.simple(st, f)

    def st_ImportFrom(self, s, st, env, mod):
        def f():
            m2 = ModInfo(mod.name, mod.path, mod.tree)
            Repo.scan(self.repo, m2, [s])
            for a in s.names:
                n = a.asname or a.name
                r = self.repo.resolve(m2, n)
                self.st.envs[env][n] = self.globals[(r[2].name, n)] if (r[2].name, n) in self.globals else self.member(r, n)
        return self.simple(st, f)

    def st_FunctionDef(self, s, st, env, mod):
        def f():
            self.st.envs[env][s.name] = Closure(s, env, mod)
        return self.simple(st, f)

    def st_Assign(self, s, st, env, mod):
        def f():
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.assign(t, v, env, mod)
        return self.simple(st, f)

    def st_AnnAssign(self, s, st, env, mod):
        if s.value is None:
            return [(st, ('normal', None))]
        return self.simple(st, lambda: self.assign(s.target, self.ev(s.value, env, mod), env, mod))

    def assign(self, t, v, env, mod):
        from . import models
        if isinstance(t, ast.Name):
            d = self.st.envs[env]
            if d['__locals__'] and t.id not in d['__locals__'] and self.is_global(t.id, env, mod):
                g = dict(self.st.ghost.get('globals') or {}); g[(mod.name, t.id)] = v
                self.st.ghost['globals'] = g
            else:
                d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None))
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            models.setattr_(self, self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            models.setitem(self, o, self.ev(t.slice, env, mod), v)
        else:
            raise Unsupported('assignment target')

    def is_global(self, name, env, mod):
        return self.repo.resolve(mod, name) is not None and name not in self.st.envs[env]

    def unpack(self, v, n, star=None):
        d = self.iterate(v)
        if d.kind == 'conc':
            it = list(d.items)
            if star is None:
                if len(it) != n:
                    self.throw('ValueError', 'unpack')
                return it
            if len(it) < n - 1:
                self.throw('ValueError', 'unpack')
            k = len(it) - (n - 1)
            return it[:star] + [self.alloc(CList(it[star:star + k]))] + it[star + k:]
        if d.kind == 'seq' and star is None:
            if not self.choose(d.n == n):
                self.throw('ValueError', 'unpack')
            return [d.elem(z3.IntVal(i)) for i in range(n)]
        raise Unsupported('unpacking')

    def st_AugAssign(self, s, st, env, mod):
        from . import models

        def f():
            op = type(s.op).__name__
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.lookup(t.id, env, mod)
                v = self.ev(s.value, env, mod)
                self.assign(t, models.iop(self, op, cur, v), env, mod)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                cur = models.getattr_(self, o, t.attr)
                v = self.ev(s.value, env, mod)
                models.setattr_(self, o, t.attr, models.iop(self, op, cur, v))
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                o = self.ev(t.value, env, mod)
                k = self.ev(t.slice, env, mod)
                cur = models.getitem(self, o, k)
                v = self.ev(s.value, env, mod)
                r = models.iop(self, op, cur, v)
                if not (isinstance(r, View) and isinstance(cur, View)):
                    models.setitem(self, o, k, r)
            else:
                raise Unsupported('augmented assignment')
        return self.simple(st, f)

    def st_Delete(self, s, st, env, mod):
        from . import models

        def f():
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    models.delitem(self, self.ev(t.value, env, mod), self.ev(t.slice, env, mod))
                elif isinstance(t, ast.Name):
                    self.st.envs[env].pop(t.id)
                else:
                    raise Unsupported('del')
        return self.simple(st, f)

    def st_Return(self, s, st, env, mod):
        r = self.explore(st, lambda: None if s.value is None else self.ev(s.value, env, mod))
        return [(x, ('return', o[1]) if o[0] == 'normal' else o) for x, o in r]

    def st_Raise(self, s, st, env, mod):
        def f():
            if s.exc is None:
                cur = self.st.ghost.get('exc')
                if cur is None:
                    raise Unsupported('bare raise')
                raise PyRaise(cur)
            try:
                v = self.ev(s.exc, env, mod)
            except Unsupported:
                # the arguments of an exception do not matter, only its class
                if isinstance(s.exc, ast.Call):
                    v = self.ev(s.exc.func, env, mod)
                else:
                    raise
            if isinstance(v, Cls):
                v = Exc(v.name)
            if isinstance(v, Exc):
                raise PyRaise(v)
            raise Unsupported('raise of %r' % (v,))
        return self.simple(st, f)

    def st_Assert(self, s, st, env, mod):
        def f():
            if not self.truth(self.ev(s.test, env, mod)):
                self.throw('AssertionError')
        return self.simple(st, f)

    def st_Break(self, s, st, env, mod):
        return [(st, ('break', None))]

    def st_Continue(self, s, st, env, mod):
        return [(st, ('continue', None))]

    def st_If(self, s, st, env, mod):
        out = []
        for c, o in self.explore(st, lambda: self.truth(self.ev(s.test, env, mod))):
            if o[0] == 'raise':
                out.append((c, o))
            else:
                out += self.block(s.body if o[1] else s.orelse, c, env, mod)
        return out

    def excmatch(self, exc, cls):
        """does exception exc match class value cls"""
        if isinstance(cls, tuple):
            return any(self.excmatch(exc, c) for c in cls)
        if isinstance(cls, Builtin):
            return exc.cls == cls.name.split('.')[-1] or cls.name.split('.')[-1] in self.excbases(exc.cls)
        return cls.name in self.excbases(exc.cls)

    def excbases(self, n):
        out = []
        while n is not None:
            out.append(n)
            if n in EXC:
                n = EXC[n]
            else:
                m = self.repo.mods.get('metaknowledge.mkExceptions')
                d = m.defs.get(n) if m else None
                n = d[1].node.bases[0].id if d and d[0] == 'class' and d[1].node.bases and isinstance(d[1].node.bases[0], ast.Name) else None
                if n is None:
                    out += ['Exception', 'BaseException']
        return out

    def st_Try(self, s, st, env, mod):
        out = []
        for c, o in self.block(s.body, st, env, mod):
            if o[0] == 'normal':
                out += self.block(s.orelse, c, env, mod) if s.orelse else [(c, o)]
            elif o[0] == 'raise':
                out += self.handle(s, c, o, env, mod)
            else:
                out.append((c, o))
        if s.finalbody:
            o2 = []
            for c, o in out:
                for d, p in self.block(s.finalbody, c, env, mod):
                    o2.append((d, o if p[0] == 'normal' else p))
            out = o2
        return out

    def handle(self, s, c, o, env, mod):
        for h in s.handlers:
            if h.type is None:
                hit = True
            else:
                r = self.explore(c, lambda: self.ev(h.type, env, mod))
                cls = r[0][1][1]
                hit = self.excmatch(o[1], cls)
            if hit:
                if h.name:
                    c.envs[env][h.name] = o[1]
                prev = c.ghost.get('exc')
                c.ghost['exc'] = o[1]
                res = self.block(h.body, c, env, mod)
                for d, _ in res:
                    d.ghost['exc'] = prev
                return res
        return [(c, o)]

    def st_With(self, s, st, env, mod):
        from . import models
        if len(s.items) != 1:
            raise Unsupported('with several items')
        it = s.items[0]
        out = []
        for c, o in self.explore(st, lambda: models.enter(self, self.ev(it.context_expr, env, mod))):
            if o[0] == 'raise':
                out.append((c, o)); continue
            if it.optional_vars is not None:
                rs = self.simple(c, lambda: self.assign(it.optional_vars, o[1], env, mod))
            else:
                rs = [(c, ('normal', None))]
            for d, p in rs:
                out += self.block(s.body, d, env, mod) if p[0] == 'normal' else [(d, p)]
        return out

    def st_For(self, s, st, env, mod):
        from . import loops
        return loops.for_(self, s, st, env, mod)

    def st_While(self, s, st, env, mod):
        from . import loops
        return loops.while_(self, s, st, env, mod)

    def iterate(self, v):
        from . import models
        return models.iterate(self, v)


def generator(node):
    """the generator expression a generator function amounts to: for x in X: [if c:] yield e"""
    if isinstance(node, ast.Lambda):
        return None
    g = node.__dict__.get('_gen', 0)
    if g != 0:
        return g
    node._gen = None
    b = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
    if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.YieldFrom):
        n = ast.Name('$x', ast.Load())
        node._gen = ast.GeneratorExp(n, [ast.comprehension(ast.Name('$x', ast.Store()), b[0].value.value, [], 0)])
    elif len(b) == 1 and isinstance(b[0], ast.For) and not b[0].orelse:
        f, ifs = b[0], []
        body = f.body
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            ifs.append(body[0].test); body = body[0].body
        if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Yield) and body[0].value.value is not None:
            node._gen = ast.GeneratorExp(body[0].value.value, [ast.comprehension(f.target, f.iter, ifs, 0)])
    return node._gen


class Gen:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod
