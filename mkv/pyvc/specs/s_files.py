"""P07: the tests that tell the file formats apart"""
from ._lib import *
from ..models import getattr_
from .s_local import inside

F = const('file')
size = const('file_lines', I)                       # how many lines the file has
line = z3.Function('file_line', I, U)
readable = z3.Function('file_readable', I, B)       # whether the read that gives line i meets no undecodable bytes
NAME = const('name')
FIRST = const('file_first')                         # the first character, or nothing


class FileM:
    """an open text file: reading gives one line after the other"""
    def __init__(self, E, cell): self.cell = cell

    def enter(self, E, o): return o

    def read(self, E):
        k = E.get(self.cell).attrs['pos']
        E.put(self.cell, E.get(self.cell).with_('pos', k + 1))
        if not E.choose(readable(k)): E.throw('UnicodeDecodeError')
        if not E.choose(size > k): return k, None
        E.fact(kind(line(k)) == K_STR); E.fact(line(k) != E.lit(''))
        return k, Opq(line(k), 'str')

    def next(self, E):
        k, s = self.read(E)
        if s is None: E.throw('StopIteration')
        return k, s

    def attr(self, E, o, name):
        if name in ('__next__', 'readline', 'close', 'read'): return Bound(o, name)
        raise Unsupported('attribute %s of a file' % name)

    def method(self, E, o, name, args, kw):
        if name == '__next__': return self.next(E)[1]
        if name == 'readline' and not args:
            s = self.read(E)[1]
            return '' if s is None else s
        if name == 'close': return None
        if name == 'read' and args == [1]:
            if E.get(self.cell).attrs['pos'] != 0: raise Unsupported('read in the middle')
            if not E.choose(readable(0)): E.throw('UnicodeDecodeError')
            E.fact(kind(FIRST) == K_STR)
            return Opq(FIRST, 'str')
        raise Unsupported('file.' + name)

    def isa(self, E, o, n): return False
    def truth(self, E, o): return True


class Numbered(FileM):
    """enumerate() of an open file"""
    def __init__(self, E, cell, f): self.cell, self.f = cell, f

    def attr(self, E, o, name):
        if name == '__next__': return Bound(o, name)
        raise Unsupported('attribute %s of enumerate' % name)

    def method(self, E, o, name, args, kw):
        k, s = self.f.next(E)
        return (k + E.get(self.cell).attrs['start'], s)


def setup(E):
    cell = E.alloc(HObj('_File', {'pos': 0, 'start': 0}))
    f = FileM(E, cell)
    E.models['File'] = f
    E.models['Numbered'] = Numbered(E, cell, f)
    E.fact(size >= 0)
    std = dict(E.calls)

    def opened(E, args, kw):
        if not (args and isinstance(args[0], Opq) and args[0].t.eq(NAME)): raise Unsupported('another file')
        m = kw.get('mode', args[1] if len(args) > 1 else 'r')
        if m not in ('r', 'rt'): raise Unsupported('mode %r' % (m,))
        E.put(cell, E.get(cell).with_('pos', 0))
        return Opq(F, 'File')

    def enum(E, args, kw):
        if isinstance(args[0], Opq) and args[0].cls == 'File':
            s = args[1] if len(args) > 1 else kw.get('start', 0)
            E.put(cell, E.get(cell).with_('start', s - E.get(cell).attrs['pos']))
            return Opq(F, 'Numbered')
        return plain(E, 'enumerate', args, kw)

    def nxt(E, args, kw):
        if isinstance(args[0], Opq) and args[0].cls in ('File', 'Numbered'):
            m = E.models[args[0].cls]
            try: return m.method(E, args[0], '__next__', [], {})
            except PyRaise as e:
                if len(args) > 1 and e.exc.cls == 'StopIteration': return args[1]
                raise
        return plain(E, 'next', args, kw)
    E.calls.update({'open': opened, 'enumerate': enum, 'next': nxt})
    E.notes.add('the file exists and can be opened; whether a read meets undecodable bytes depends on its place in the file only')
    return [Opq(NAME, 'str')], {}, {}


def plain(E, n, args, kw):
    f = E.calls.pop(n)
    try: return models.call_builtin(E, Builtin(n), args, kw)
    finally: E.calls[n] = f


def upto(i): return And(size > i, *[readable(k) for k in range(i + 1)])


def yes(o): return boolof(o[1])


def exactly(where, names, cond):
    @contract(where, ['P07'])
    def c(V):
        def post(E, c, o):
            if o[0] != 'return': return [(names[2], FALSE)]
            want = cond(E)
            return [(names[0], Implies(want, yes(o))), (names[1], Implies(yes(o), want)), (names[2], TRUE)]
        V.run('', setup, post, names, rec_conf)


def wos(E): return Or(*[And(upto(k), inside(E, 'VR 1.0', Opq(line(k), 'str'))) for k in range(3)])


def begins(E, s, p): return boolof(E.call(getattr_(E, Opq(s, 'str'), 'startswith'), [p]))
def medline(E): return Or(*[And(upto(k), begins(E, line(k), 'PMID- ')) for k in range(2)])


exactly('metaknowledge.WOS.wosHandlers:isWOSFile', ['every file with the mark in its first three lines', 'no other file', 'no error'], wos)
exactly('metaknowledge.medline.medlineHandlers:isMedlineFile', ['every file with the mark in its first two lines', 'no other file', 'no error'], medline)


@contract('metaknowledge.proquest.proQuestHandlers:isProQuestFile', ['P07'])
def isProQuestFile(V):
    names = ['every file that begins with the heading', 'only with the heading in its first lines', 'no error']
    HEAD = ['_' * 60 + '\n', '\n', 'Report Information from ProQuest\n']

    def post(E, c, o):
        if o[0] != 'return': return [(names[2], FALSE)]
        at = lambda k: And(upto(k + 2), *[line(k + q) == E.lit(s) for q, s in enumerate(HEAD)])
        return [(names[0], Implies(at(0), yes(o))), (names[1], Implies(yes(o), Or(*[at(k) for k in range(6)]))), (names[2], TRUE)]
    V.run('', setup, post, names, rec_conf)


@contract('metaknowledge.scopus.scopusHandlers:isScopusFile', ['P07'])
def isScopusFile(V):
    names = ['only with the byte order mark', 'no error']

    def post(E, c, o):
        if o[0] != 'return': return [(names[1], FALSE)]
        return [(names[0], Implies(yes(o), FIRST == E.lit('\ufeff'))), (names[1], TRUE)]
    V.run('', setup, post, names, rec_conf)
