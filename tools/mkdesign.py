"""Writes DESIGN.md from tools/design.tmpl.md, the levels, the contracts and the planted changes"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mkv.pyvc.contract import SPECS
from mkv.pyvc import specs

ORACLE = {
 'S01': 'the set the operator defines, as an array; errors of both operands; operands and fresh storage unchanged (frame)',
 'S02': 'membership array before/after; exceptions leave the state; len, contains and iter read the same array',
 'S03': 'pieces are disjoint, cover the set, sizes n except the last (invariant over the list of pieces)',
 'S04': 'some member has the ID <=> found; at most one member leaves, and it has the ID',
 'S05': 'membership after = membership before and condition on the item',
 'R01': 'in <=> indexing succeeds <=> get is not the default; independent of the memo (any memo consistent with the fields)',
 'R02': 'equality by ID, hash by ID, copies share no mutable part (separation of heap cells)',
 'R03': 'bijection over the evaluated tables; normalisation for every string (case split on membership of the tables)',
 'R04': 'the string is the join of the parts present, in order; the record is unchanged',
 'R05': 'each of 61 tag functions equals its specification on any list of lines',
 'C01': 'no exception and original kept: proved for any string; the parsed parts: bounded, over generated part lists',
 'C02': 'equality by ID, congruence of hash, reflexive/symmetric/transitive, foreign values',
 'C03': 'no exception and original kept: proved for any string; the parsed parts: bounded',
 'C04': 'membership in the table with a non-empty name; filter and inverted filter partition the list in order',
 'P01': 'generated files; records, tags and lines compared with what was written', 'P02': 'round trip on generated collections, three representations compared',
 'P03': 'every cut position and mutated lines of generated files', 'P04': 'generated files, round trip, damaged lines', 'P05': 'generated rows with quotes, commas and shuffled headers',
 'P06': 'generated reports, cut off or with wrong title lists', 'P07': 'generated files of four formats against four detectors; other bytes',
 'K01': 'for files and directories: union over the recognised files (fold over the listing), bad <=> some file bad, errors name them; iterables: exactly their items or an exception',
 'K02': 'load, change directory or damage the cache, load again; compared with loading without cache',
 'A01': 'counts are a fold over records and values; lists sorted, ranks dense (invariants over the output lists)',
 'A02': 'recount by brute force', 'A03': 'recount by brute force', 'A04': 'keys <=> positive fold, value = fold; the table form has the same rows',
 'A05': 'membership <=> record has an equal citation', 'A06': 'membership <=> some citation matches, for 18 forms of the filter; partition with the reversed filter',
 'A07': 'recount', 'A08': 'spectrum recomputed from the definition', 'A09': 'tables recomputed from the definition', 'A10': 'columns recomputed', 'A11': 'classification recomputed',
 'N01': 'graph rebuilt from the definition', 'N02': 'graph rebuilt from the definition, node types and filters', 'N03': 'graph rebuilt, node types, directions and filters', 'N04': 'graph rebuilt', 'N05': 'graph rebuilt',
 'N06': 'graph rebuilt', 'N07': 'graph rebuilt', 'N08': 'graph rebuilt',
 'G01': 'edge relation after = before and within bounds; attributes and nodes framed', 'G02': 'node set after = before and within bounds (degree as a fold over the edges of the node); edges among the kept',
 'G03': 'union of nodes and edges, sums of counts and weights, other attributes framed, the added graph unchanged', 'G04': 'generated graphs written and read back, attribute by attribute',
 'G05': 'degrees are folds over the in- and/or out-edges; entry i is the number of nodes with degree i', 'G06': 'lines parsed back against the edges; malformed graphs',
 'W01': 'file parsed back, cell by cell', 'W02': 'lines parsed back, pieces concatenated', 'D01': 'counts recomputed', 'D02': 'graph compared node by node', 'D03': 'nodes and edges recomputed from the citing records',
 'J01': 'strings of generated parts', 'J02': 'tables of generated rows in several files, merged by hand', 'J03': 'lists rebuilt by hand', 'J04': 'XML of generated awards'}

if __name__ == '__main__':
    levels = json.load(open(os.path.join(HERE, 'mkv', 'levels.json')))
    fn = {}
    for props, t, core, f in SPECS:
        for p in props: fn.setdefault(p, []).append(t.split(':')[1])
    rows = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        lv = levels.get(p, {}).get('level')
        ns = list(dict.fromkeys(fn.get(p, [])))
        names = '%d tag functions' % len(ns) if len(ns) > 20 else ', '.join('`%s`' % n for n in ns)
        rows.append('| %s | %s | %s | %s |' % (p, 'P' if lv == 'proof' else 'P+b' if p in levels else 'b', names or '(bounded)', ORACLE[p]))
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    bugs = []
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        bugs.append('| %s: %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], caught.get(d, '')))
    s = open(os.path.join(HERE, 'tools', 'design.tmpl.md')).read()
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s.replace('@@TABLE@@', '\n'.join(rows)).replace('@@BUGS@@', '\n'.join(bugs)))
