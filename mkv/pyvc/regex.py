"""Regular expressions of the code: read with Python's own parser, facts about their groups (which of them always take part,
which languages they match) and about totality are derived from the pattern of the run"""
import re, time
import z3
from .core import *

try: from re import _parser as sre, _constants as sc
except ImportError: import sre_parse as sre, sre_constants as sc

TOP = 0x2ffff
RS = z3.ReSort(z3.StringSort())
_cats = {}


def ranges(pred):
    out, lo = [], None
    for c in range(TOP + 1):
        ok = bool(pred(chr(c)))
        if ok and lo is None: lo = c
        if not ok and lo is not None: out.append((lo, c - 1)); lo = None
    if lo is not None: out.append((lo, TOP))
    return out


def category(name):
    if name not in _cats:
        m = {'DIGIT': r'\d', 'WORD': r'\w', 'SPACE': r'\s'}[name]
        p = re.compile(m)
        _cats[name] = ranges(p.match)
    return _cats[name]


def ch(n): return z3.StringVal('\\u{%x}' % n)


def union(l):
    l = list(l)
    if not l: return z3.Empty(RS)
    return l[0] if len(l) == 1 else z3.Union(*l)


def concat(l):
    l = list(l)
    if not l: return z3.Re('')
    return l[0] if len(l) == 1 else z3.Concat(*l)


class Alphabet:
    """the classes of characters that the sets of an expression tell apart: one letter stands for each class"""
    cur = None

    def __init__(self):
        self.sets, self.cls = [], None

    def close(self):
        cuts = sorted({0, TOP + 1} | {a for rs in self.sets for a, b in rs} | {b + 1 for rs in self.sets for a, b in rs})
        self.cls, self.of = {}, []
        ix = [[False] * len(cuts) for _ in self.sets]
        pos = {c: i for i, c in enumerate(cuts)}
        for n, rs in enumerate(self.sets):
            for a, b in rs:
                for i in range(pos[a], pos[b + 1]): ix[n][i] = True
        for i in range(len(cuts) - 1):
            sig = tuple(r[i] for r in ix)
            self.of.append((cuts[i], self.cls.setdefault(sig, len(self.cls))))
        self.letters = [z3.Re(ch(0x61 + i)) for i in range(len(self.cls))]

    def set(self, rs):
        if self.cls is None:
            self.sets.append(list(rs)); return z3.Re('a')
        ids = sorted({c for at, c in self.of if any(a <= at <= b for a, b in rs)}) if len(rs) < 40 else sorted({c for at, c in self.of if inside(at, rs)})
        return union(self.letters[i] for i in ids)

    def any(self):
        return z3.Star(union(self.letters)) if self.cls is not None else z3.Re('a')


def inside(c, rs):
    import bisect
    i = bisect.bisect_right(rs, (c, TOP + 1)) - 1
    return i >= 0 and rs[i][0] <= c <= rs[i][1]


def empty(build, timeout=20000):
    """the language that build() makes is empty (None: the solver does not say)"""
    A = Alphabet.cur = Alphabet()
    try:
        build(); A.close(); r = build()
        s = z3.Solver(); s.set('timeout', timeout)
        x = z3.String('x')
        s.add(z3.InRe(x, z3.Intersect(A.any(), r)))
        c = s.check()
        return True if c == z3.unsat else False if c == z3.sat else None
    finally: Alphabet.cur = None


def setof(rs): return Alphabet.cur.set(sorted(rs))
def char(n): return setof([(n, n)])


def negate(rs):
    rs, out, at = sorted(rs), [], 0
    for a, b in rs:
        if a > at: out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= TOP: out.append((at, TOP))
    return out


class Unhandled(Exception): pass


def charset(items):
    rs, neg = [], False
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: rs.append((av, av))
        elif op is sc.RANGE: rs.append(av)
        elif op is sc.CATEGORY:
            n = str(av).replace('CATEGORY_', '')
            rs += negate(category(n[4:])) if n.startswith('NOT_') else category(n)
        else: raise Unhandled(str(op))
    return negate(rs) if neg else rs


def lang(seq, k, flags):
    """language of the strings that begin with a match of seq and go on with k"""
    for op, av in reversed(list(seq)):
        k = lang1(op, av, k, flags)
    return k


def own(seq, flags): return lang(seq, z3.Re(''), flags)


def lang1(op, av, k, flags):
    if op is sc.LITERAL: return z3.Concat(char(av), k)
    if op is sc.NOT_LITERAL: return z3.Concat(setof(negate([(av, av)])), k)
    if op is sc.ANY: return z3.Concat(setof([(0, TOP)] if flags & re.DOTALL else negate([(10, 10)])), k)
    if op is sc.IN: return z3.Concat(setof(charset(av)), k)
    if op is sc.BRANCH: return union(lang(b, k, flags) for b in av[1])
    if op is sc.SUBPATTERN:
        g, add, sub, p = av
        return lang(p, k, (flags | add) & ~sub)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = av
        if lo == 0 and hi == 1: return z3.Union(lang(p, k, flags), k)
        body = own(p, flags)
        if hi is sc.MAXREPEAT:
            r = z3.Star(body)
            return z3.Concat(*([body] * lo + [r, k]))
        return z3.Concat(z3.Loop(body, lo, hi), k)
    if op is sc.AT:
        n = str(av)
        if n == 'AT_END': return z3.Intersect(z3.Union(z3.Re(''), char(10)), k)
        raise Unhandled(n)
    if op is sc.ASSERT_NOT:
        d, p = av
        if d < 0: raise Unhandled('lookbehind')
        return z3.Intersect(z3.Complement(lang(p, Alphabet.cur.any(), flags)), k)
    if op is sc.ASSERT:
        d, p = av
        if d < 0: raise Unhandled('lookbehind')
        return z3.Intersect(lang(p, Alphabet.cur.any(), flags), k)
    raise Unhandled(str(op))


class Pattern:
    def __init__(self, text, flags=0):
        self.text, self.flags = text, flags
        self.tree = sre.parse(text, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.names = dict(self.tree.state.groupdict)
        self.sub = {}            # group -> (subpattern, flags)
        self.facts = []          # fn(has) -> formula; has(k): group k takes part
        self.walk(self.tree, None, self.flags)
        self._cache = {}

    def walk(self, seq, parent, flags):
        """groups that always take part when seq does"""
        must, parts = [], []
        for op, av in seq:
            if op is sc.SUBPATTERN:
                g, add, sub, p = av
                fl = (flags | add) & ~sub
                m = self.walk(p, g, fl)
                if g is not None:
                    self.sub[g] = (p, fl)
                    for x in m: self.facts.append(lambda has, g=g, x=x: z3.Implies(has(g), has(x)))
                    must.append(g)
                    for x in self.inside(p): self.facts.append(lambda has, g=g, x=x: z3.Implies(has(x), has(g)))
                must += m
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, p = av
                m = self.walk(p, parent, flags)
                ins = self.inside(p)
                if lo >= 1: must += m
                elif hi == 1:
                    for x in ins:
                        for y in m: self.facts.append(lambda has, x=x, y=y: z3.Implies(has(x), has(y)))
            elif op is sc.BRANCH:
                brs = [(self.walk(b, parent, flags), self.inside(b)) for b in av[1]]
                for i, (m, ins) in enumerate(brs):
                    for x in ins:
                        for y in m: self.facts.append(lambda has, x=x, y=y: z3.Implies(has(x), has(y)))
                        for j, (_, ins2) in enumerate(brs):
                            if i < j:
                                for y in ins2: self.facts.append(lambda has, x=x, y=y: z3.Not(z3.And(has(x), has(y))))
                for x in set.intersection(*[set(m) for m, _ in brs]): must.append(x)
                parts.append([(m, ins) for m, ins in brs])
            elif op in (sc.ASSERT, sc.ASSERT_NOT): self.walk(av[1], parent, flags)
        return must

    def inside(self, seq):
        out = []
        for op, av in seq:
            if op is sc.SUBPATTERN:
                if av[0] is not None: out.append(av[0])
                out += self.inside(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): out += self.inside(av[2])
            elif op is sc.BRANCH:
                for b in av[1]: out += self.inside(b)
            elif op in (sc.ASSERT, sc.ASSERT_NOT): out += self.inside(av[1])
        return out

    def must(self):
        if 'must' not in self._cache: self._cache['must'] = Pattern.walk(_Quiet(self), self.tree, None, self.flags)
        return self._cache['must']

    def total(self):
        """every string has a match at its beginning"""
        if 'total' not in self._cache:
            try: self._cache['total'] = empty(lambda: z3.Complement(lang(self.tree, Alphabet.cur.any(), self.flags))) is True
            except Unhandled: self._cache['total'] = False
        return self._cache['total']

    def within(self, g, big, name):
        """the texts of group g lie in the language big"""
        k = ('within', g, name)
        if k not in self._cache:
            try: self._cache[k] = empty(lambda: z3.Intersect(own(*self.sub[g]), z3.Complement(big()))) is True
            except Unhandled: self._cache[k] = False
        return self._cache[k]


class _Quiet(Pattern):
    def __init__(self, p): self.sub, self.facts = {}, []


def numerals():
    d = setof(category('DIGIT'))
    return z3.Concat(z3.Option(z3.Union(char(43), char(45))), z3.Plus(d))


_pats = {}


def pattern(text, flags=0):
    if (text, flags) not in _pats: _pats[text, flags] = Pattern(text, flags)
    return _pats[text, flags]


# ---------------------------------------------------------------------- the re module
def of(E, v):
    if isinstance(v, Builtin) and v.name == 're.Pattern': return v.data
    if isinstance(v, str):
        try: return pattern(v)
        except re.error: raise Unsupported('regular expression')
    raise Unsupported('regular expression that is not a constant')


class MatchModel:
    def attr(self, E, o, name): return Bound(o, name)

    def method(self, E, o, name, args, kw):
        m = o.m
        if name == 'group' and len(args) == 1 and isinstance(args[0], int): return m.group(E, args[0])
        if name == 'groups' and not args: return tuple(m.group(E, i) for i in range(1, m.p.groups + 1))
        raise Unsupported('match.' + name)

    def getitem(self, E, o, k): return o.m.group(E, k)
    def truth(self, E, o): return True
    def isa(self, E, o, name): return False


class MatchOpq(Opq):
    __slots__ = ('m',)


class Match:
    def __init__(self, p, s, how):
        self.p, self.s, self.tag = p, s, '%s:%s' % (how, p.text)

    def term(self, k): return z3.Function('py.group%d:%s' % (k, self.tag), U, U)(self.s)

    def group(self, E, k):
        if k > self.p.groups: E.throw('IndexError')
        t = self.term(k)
        E.fact(kind(NONE) == K_NONE); E.fact(z3.Or(kind(t) == K_STR, t == NONE)); E.fact((kind(t) == K_NONE) == (t == NONE))
        if k == 0 or k in self.p.must(): return Opq(t, 'str')
        if self.p.within(k, numerals, 'numeral'): E.fact(z3.Implies(kind(t) == K_STR, z3.Function('py.isnumeral', U, B)(t)))
        return Opq(t, 'any')

    def facts(self, E):
        has = lambda k: kind(self.term(k)) == K_STR
        for k in range(1, self.p.groups + 1):
            t = self.term(k)
            E.fact(kind(NONE) == K_NONE); E.fact(z3.Or(kind(t) == K_STR, t == NONE)); E.fact((kind(t) == K_NONE) == (t == NONE))
            if k in self.p.must():
                E.fact(has(k))
                if self.p.within(k, numerals, 'numeral'): E.fact(z3.Function('py.isnumeral', U, B)(t))
        for f in self.p.facts: E.fact(f(has))


def call(E, n, args, kw):
    if n == 're.compile':
        if not isinstance(args[0], str): raise Unsupported('regular expression that is not a constant')
        if len(args) > 1 or kw: raise Unsupported('flags of a regular expression')
        try: return Builtin('re.Pattern', pattern(args[0]))
        except re.error: E.throw('error')
    if n in ('re.match', 're.search', 're.fullmatch'):
        p = of(E, args[0])
        v = args[1]
        if len(args) > 2 or kw: raise Unsupported('flags of a regular expression')
        if not E.isstr(v):
            if isinstance(v, Opq) and v.cls == 'any':
                if not E.choose(kind(v.t) == K_STR): E.throw('TypeError')
                v = Opq(v.t, 'str')
            else: E.throw('TypeError')
        t = E.box(v)
        how = n[3:]
        if not (how in ('match', 'search') and p.total()):
            if not E.choose(z3.Function('py.%s:%s' % (how, p.text), U, B)(t)): return None
        m = Match(p, t, how)
        m.facts(E)
        o = MatchOpq(z3.Function('py.matchobject:' + m.tag, U, U)(t), 're.Match')
        o.m = m
        return o
    raise Unsupported(n)
