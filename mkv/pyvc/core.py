"""Sorts, values, heap objects and states of the symbolic executor"""
import z3
z3.set_param('smt.qi.max_multi_patterns', 8)      # patterns of several terms are matched as they come, not at the end

U = z3.DeclareSort('U')                      # opaque immutable Python values, modulo ==
I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
UB = z3.ArraySort(U, B)

kind = z3.Function('kind', U, I)             # dynamic type of an opaque value
K_NONE, K_BOOL, K_INT, K_STR, K_LIST, K_TUPLE, K_OBJ, K_FLOAT, K_DICT, K_SET, K_BYTES = range(11)
bi = z3.Function('box_int', I, U); ui = z3.Function('unbox_int', U, I)
bb = z3.Function('box_bool', B, U); ub = z3.Function('unbox_bool', U, B)
bs = z3.Function('box_str', S, U); us = z3.Function('unbox_str', U, S)
truthy = z3.Function('truthy', U, B)
seqlen = z3.Function('seqlen', U, I)         # length and items of an opaque sequence
seqat = z3.Function('seqat', U, I, U)
strof = z3.Function('strof', U, U)           # str(x)
lt = z3.Function('lt', U, U, B)              # x < y on values that are not known to be integers
plus = z3.Function('plus', U, U, U)
NONE = z3.Const('None', U)
litno = z3.Function('litno', U, I)           # number of a literal
card = z3.Function('card', UB, I)            # number of members of a finite set


def mpat(*ts):
    """z3.MultiPattern drops its last reference to the terms before it hands them to z3: keep them alive here"""
    keep = list(ts)
    return z3.MultiPattern(*keep)


NOPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR, z3.Z3_OP_IFF}


def patok(t):
    """no connective inside"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        if z3.is_app(x):
            if x.decl().kind() in NOPAT: return False
            todo.extend(x.children())
    return True


def quant(q, vs, body, patterns):
    ps = [p for p in patterns if p is not None and (all(patok(c) for c in p.children()) if z3.is_pattern(p) else patok(p))]
    return q(vs, body, patterns=ps) if ps else q(vs, body)


def forall(vs, body, patterns=()): return quant(z3.ForAll, vs, body, patterns)
def exists(vs, body, patterns=()): return quant(z3.Exists, vs, body, patterns)


_lits = {}


class Unsupported(Exception):
    """the construct is outside the engine: the obligation stays undecided"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class Exc:
    """a raised exception: class name and arguments"""
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, args, attrs or {}

    def __repr__(self):
        return 'Exc(%s)' % self.cls


class Opq:
    """an opaque value with a statically known class name ('any', 'str', 'list', 'Record', ...)"""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls='any'):
        self.t, self.cls = t, cls

    def __repr__(self):
        return 'Opq(%s:%s)' % (self.t, self.cls)


class Ref:
    """reference to a heap object"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return '@%d' % self.a


class View:
    """a container that lives by value inside another: read and written through its path
    root: Ref, path: list of ('k', U term) dict steps / ('i', Int term) list steps / ('c', const key)"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path):
        self.root, self.path = root, tuple(path)


class Undef:
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Closure:
    def __init__(self, node, env, mod, cls=None, name=None):
        self.node, self.env, self.mod, self.cls, self.name = node, env, mod, cls, name or getattr(node, 'name', '<lambda>')


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Builtin:
    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Cls:
    """a class: of the repository (info) or builtin"""
    def __init__(self, name, info=None):
        self.name, self.info = name, info

    def __eq__(self, o):
        return isinstance(o, Cls) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Mod:
    def __init__(self, name):
        self.name = name


# ---- heap objects (immutable: replaced on every write)

class HObj:
    def __init__(self, cls, attrs, lazy=None):
        self.cls, self.attrs, self.lazy = cls, attrs, lazy

    def with_(self, k, v):
        d = dict(self.attrs); d[k] = v
        return HObj(self.cls, d, self.lazy)


class CList:
    """list of known length"""
    def __init__(self, items):
        self.items = tuple(items)


class CDict:
    """dict with known keys (python constants), insertion ordered"""
    def __init__(self, items):
        self.items = dict(items)


class CSet:
    """set that is still empty or holds known constants only"""
    def __init__(self, items=()):
        self.items = tuple(items)


class Sym:
    """symbolic container. shapes: ('S', class) set, ('D', value shape, key class) dict, ('L', item shape) list,
    ('T', shapes...) tuple, ('C', ((key, shape)...)) dict of known keys, 'I' 'B' 'U' ('O', class) scalars, '?' not yet known"""
    def __init__(self, shape, leaves):
        self.shape, self.leaves = shape, tuple(leaves)
        assert len(self.leaves) == nleaves(shape), (shape, leaves)


class It:
    """an iterable that is not a heap object: dict views, enumerate, slices, graph nodes ..."""
    def __init__(self, dom, what='iter'):
        self.dom, self.what = dom, what


class GView:
    """graph.nodes / graph.edges / graph[u]"""
    def __init__(self, g, what, u=None):
        self.g, self.what, self.u = g, what, u


class GAttr:
    """attribute dict of a node (v None) or an edge"""
    def __init__(self, g, u, v=None):
        self.g, self.u, self.v = g, u, v


class HGraph:
    """networkx Graph / DiGraph: nodes as D(D(U)), adj as D(D(D(U))) (symmetric when undirected)"""
    def __init__(self, directed, nd, na, nv, ed, ea, ev):
        # nd: U->Bool; na: U->(U->Bool) attribute present; nv: U->(U->U); ed: U->(U->Bool); ea: U->U->U->Bool; ev: U->U->U->U
        self.directed, self.nd, self.na, self.nv, self.ed, self.ea, self.ev = directed, nd, na, nv, ed, ea, ev

    FIELDS = ('nd', 'na', 'nv', 'ed', 'ea', 'ev')

    def with_(self, **k):
        g = HGraph(self.directed, self.nd, self.na, self.nv, self.ed, self.ea, self.ev)
        for n, v in k.items():
            setattr(g, n, v)
        return g


GS = dict(nd=UB, na=z3.ArraySort(U, UB), nv=z3.ArraySort(U, z3.ArraySort(U, U)), ed=z3.ArraySort(U, UB),
          ea=z3.ArraySort(U, z3.ArraySort(U, UB)), ev=z3.ArraySort(U, z3.ArraySort(U, z3.ArraySort(U, U))))


def leafsorts(sh):
    if sh == 'I': return [I]
    if sh == 'B': return [B]
    if sh == 'U' or (isinstance(sh, tuple) and sh[0] == 'O'): return [U]     # ('O', cls): opaque of a class
    if sh == '?': return []
    if sh[0] == 'S': return [UB]
    if sh[0] == 'D': return [UB] + [z3.ArraySort(U, l) for l in leafsorts(sh[1])]
    if sh[0] == 'L': return [I] + [z3.ArraySort(I, l) for l in leafsorts(sh[1])]
    if sh[0] == 'T': return [l for s in sh[1:] for l in leafsorts(s)]
    if sh[0] == 'C': return [l for _, s in sh[1] for l in leafsorts(s)]
    raise Unsupported('shape %r' % (sh,))


def nleaves(sh):
    return len(leafsorts(sh))


_isq = {}


def is_q(e):
    """has a quantifier inside"""
    k = e.get_id()
    r = _isq.get(k)
    if r is None or not r[0].eq(e):
        r = _isq[k] = (e, is_q_(e))
    return r[1]


def is_q_(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class State:
    def __init__(self):
        self.pc, self.heap, self.envs, self.frozen = [], {}, {}, set()
        self.na, self.nf = 1, 0
        self.ghost = {}          # contract data carried along a path
        self.iters = []          # stack of active iterations

    def copy(self):
        s = State.__new__(State)
        s.pc, s.heap, s.envs = list(self.pc), dict(self.heap), {k: dict(v) for k, v in self.envs.items()}
        s.na, s.nf = self.na, self.nf
        s.frozen, s.ghost, s.iters = set(self.frozen), dict(self.ghost), list(self.iters)
        return s
