"""Contracts: a specification runs a function of /repo on symbolic arguments and states its postconditions; every
postcondition becomes a named obligation, proved on every path of the function"""
import os, time, traceback
import z3
from .core import *
from .interp import Engine, Repo, Run
from . import models, loops

SPECS = []      # (properties, function name, core, spec)


def contract(target, props, core=True):
    """target: 'module:qualified name' of the function under contract"""
    def deco(f):
        SPECS.append((tuple(props), target, core, f))
        return f
    return deco


class Obl:
    def __init__(self, name):
        self.name, self.status, self.time, self.paths, self.note, self.loops = name, 'proved', 0.0, 0, '', False


class Verify:
    """one contract on one function"""
    def __init__(self, repo, target, timeout=8000, limit=60, debug=False):
        self.repo, self.target = repo, target
        self.modname, self.qual = target.split(':')
        self.obls, self.order = {}, []
        self.timeout, self.limit, self.debug = timeout, limit, debug
        self.notes, self.inlined = set(), set()
        self.solver_time, self.queries, self.paths = 0.0, 0, 0
        self.dry, self.only, self.nrun, self.whole = False, None, 0, False   # to run one case of a contract at a time

    def engine(self):
        self.whole |= self.dry
        if self.dry: raise Unsupported('not now')
        E = Engine(self.repo, self.timeout)
        E.debug = self.debug
        E.deadline = time.time() + self.limit
        return E

    def obl(self, name):
        if name not in self.obls:
            self.obls[name] = Obl('%s: %s' % (self.qual, name)); self.order.append(name)
        return self.obls[name]

    def fail(self, name, status, note=''):
        o = self.obl(name)
        if o.status == 'proved' or status == 'refuted': o.status = status
        o.note = (o.note + ' ' + note).strip()[:300]

    def run(self, case, setup, post, names, configure=None, expect=('return',)):
        """setup(E) -> (args, kw, ctx); post(E, ctx, outcome) -> [(name, goal)] for the names of this contract"""
        if os.environ.get('MKV_CASE') not in (None, case): return
        self.nrun += 1
        if self.dry or self.only not in (None, self.nrun): return
        tag = (lambda n: '%s [%s]' % (n, case)) if case else (lambda n: n)
        before, t0 = list(self.order), time.time()
        for k, (loop, query) in enumerate(((1500, 2500), (4000, self.timeout))):
            # a quick attempt first, a patient one only where time ran out on some query
            E = self.engine()
            E.deadline = t0 + self.limit
            E.looptimeout, E.timeout, E.brief = loop, query, k == 0
            self.attempt(E, case, tag, setup, post, names, configure, expect)
            new = [n for n in self.order if n not in before]
            if all(self.obls[n].status == 'proved' for n in new) or not E.timeouts or k: break
            for n in new: del self.obls[n]
            self.order = list(before)

    def attempt(self, E, case, tag, setup, post, names, configure, expect):
        t0 = time.time()
        try:
            if configure is not None: configure(E)
            node, ci, mod = self.repo.find(self.modname, self.qual)
            f = Closure(node, None, mod, ci)
            init = State()
            box = {}
            E.st = init; E.run = Run((), {})
            args, kw, ctx = setup(E)
            ctx['pre'] = E.st.copy()
            st = E.st; E.st = None; E.run = None
            res = []
            for s0, o in E.explore(st, lambda: E.bind(f, args, kw)):
                if o[0] == 'raise': res.append((s0, o)); continue
                E.stack.append(E.qual(f))
                try: res += E.body(f, o[1], s0)
                finally: E.stack.pop()
            self.paths += len(res)
            if self.debug:
                print(case, 'paths:', [(o[0], o[1]) for _, o in res])
            if not res: raise Unsupported('no path')
            for n in names: self.obl(tag(n))
            reached = False
            for s1, o in res:
                E.st = s1.copy(); E.run = Run((), {})
                lo = o[0] == 'raise'
                try: goals = post(E, ctx, o)
                except PyRaise as e: raise Unsupported('postcondition raises %r' % e.exc)
                s2 = E.st
                E.st, E.run = None, None
                for n, g in goals:
                    ob = self.obl(tag(n)); ob.paths += 1
                    if ob.status != 'proved': continue
                    t1 = time.time()
                    if isinstance(g, bool): g = z3.BoolVal(g)
                    r, m = E.prove(s2.pc, g, hard=True)
                    ob.time += time.time() - t1
                    if r == 'refuted' and abstract(s2.pc + [g]): r = 'unknown'
                    if r != 'proved':
                        ob.status = r
                        ob.note = 'on a path ending in %s %s' % (o[0], o[1] if o[0] == 'raise' else '')
                        if self.debug:
                            print('   NOT PROVED', n, r, o)
                            if m is not None: print(str(m)[:1500])
                            print('   goal', str(g)[:600]); print('   pc', [str(p)[:160] for p in s2.pc][-14:])
                if o[0] in expect and not reached:
                    r, _ = E.check(s1.pc, 1500)
                    if r != z3.unsat: reached = True
            if not reached: self.fail(tag('some execution reaches the end'), 'vacuous')
            for n in names:
                if self.obl(tag(n)).paths == 0: self.fail(tag(n), 'vacuous', 'no path checked it')
        except Unsupported as e:
            for n in names: self.fail(tag(n), 'undecided', 'outside the engine: %s' % e)
            if self.debug: traceback.print_exc()
        except PyRaise as e:
            for n in names: self.fail(tag(n), 'undecided', 'setup raises %r' % e.exc)
            if self.debug: traceback.print_exc()
        except RecursionError:
            for n in names: self.fail(tag(n), 'undecided', 'recursion limit')
        except Exception as e:
            for n in names: self.fail(tag(n), 'undecided', 'engine error %s: %s' % (type(e).__name__, e))
            if self.debug: traceback.print_exc()
        self.notes |= E.notes; self.inlined |= E.inlined
        self.solver_time += E.solver_time; self.queries += E.queries
        if self.debug: print('%s [%s]: %.1f s, %d queries, %.1f s solver' % (self.qual, case, time.time() - t0, E.queries, E.solver_time))

    def results(self):
        return [self.obls[n] for n in self.order]


def abstract(fs):
    """the formulas use library functions that are only known by name: a countermodel may not be a real one"""
    return any(n.startswith('py.') for f in fs for n in loops.consts(f))


def no_raise(o, allowed=()):
    return z3.BoolVal(o[0] == 'return' or (o[0] == 'raise' and o[1].cls in allowed))
