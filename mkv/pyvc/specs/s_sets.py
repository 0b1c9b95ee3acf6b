"""S01: operators of collections"""
from ._lib import *

OPS = {'or': lambda a, b: Or(a, b), 'and': lambda a, b: And(a, b), 'sub': lambda a, b: And(a, Not(b)), 'xor': lambda a, b: a != b}


def conf(E):
    E.models['Item'] = Item({'id': 'str', 'bad': 'B'})
    E.models['types'] = E.models['any']
    new_collection(E)


def binary(op, inplace):
    def spec(V):
        names = ['no exception', 'items', 'bad flag', 'errors kept', 'operands unchanged' if not inplace else 'right operand unchanged']

        def setup(E):
            a, A = collection(E, 'a'); b, Bx = collection(E, 'b')
            return [a, b], {}, dict(a=a, b=b, A=A, B=Bx)

        def post(E, c, o):
            if o[0] != 'return': return [('no exception', FALSE)]
            r = o[1]
            if not isinstance(r, Ref): return [('no exception', FALSE)]
            u = const('u?p')
            g = [('no exception', TRUE)]
            R = items(E, r)
            g.append(('items', ForAll([u], Select(R, u) == OPS[op](Select(c['A'], u), Select(c['B'], u)))))
            if inplace: g.append(('items', z3.BoolVal(r.a == c['a'].a)))
            else: g.append(('items', z3.BoolVal(r.a not in (c['a'].a, c['b'].a))))
            ba, bb_ = const('bad_a', B), const('bad_b', B)
            bad = boolof(E.get(r).attrs['bad'])
            g.append(('bad flag', bad == Or(ba, bb_)))
            d, v = errs(E, r)
            da, va, db, vb = const('errdom_a', UB), const('errval_a', z3.ArraySort(U, U)), const('errdom_b', UB), const('errval_b', z3.ArraySort(U, U))
            g.append(('errors kept', Implies(Or(ba, bb_), ForAll([u], Select(d, u) == Or(Select(da, u), Select(db, u))))))
            if v is not None:
                g.append(('errors kept', Implies(Or(ba, bb_), ForAll([u], Implies(Select(d, u), Or(And(Select(da, u), Select(v, u) == Select(va, u)), And(Select(db, u), Select(v, u) == Select(vb, u))))))))
            for x, X in ((c['a'], c['A']), (c['b'], c['B'])):
                if inplace and x is c['a']: continue
                t = 'a' if x is c['a'] else 'b'
                h = E.get(x).attrs
                dd, dv = errs(E, x)
                own = ['_collection', 'errors']
                g.append((names[4], And(items(E, x) == X, boolof(h['bad']) == const('bad_' + t, B), dd == const('errdom_' + t, UB), dv == const('errval_' + t, z3.ArraySort(U, U)),
                                        z3.BoolVal(isinstance(h['name'], Opq) and h['name'].t.eq(const('name_' + t))),
                                        z3.BoolVal(all(h[n].a == c['pre'].heap[x.a].attrs[n].a for n in own)))))
                if r.a != x.a:
                    rh = E.get(r).attrs
                    g.append((names[4], z3.BoolVal(all(rh[n] != h[n] for n in own))))
            return g
        V.run('', setup, post, names, conf)
    return spec


for _op in OPS:
    contract(MC + ':Collection.__%s__' % _op, ['S01'])(binary(_op, False))
    contract(MC + ':Collection.__i%s__' % _op, ['S01'])(binary(_op, True))
