"""Writes mkv/levels.json: which properties the contracts cover completely ('proof') and how the others are decided."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TP = 'contract-based deductive verification of the real functions (VC generator mkv/pyvc over /repo\'s source, discharged by z3)'
TM = 'deductive verification of part of its functions (mkv/pyvc, z3); executable contracts on generated inputs for the rest (bounded)'
NP = 'Proof: every listed postcondition is generated from /repo\'s current source and discharged for all inputs and iterations. Trusts the VC generator, its models of built-ins and libraries, and z3 (see the evidence\'s trusted_base and assumptions). %s'
NM = 'Deductively verified: %s. Bounded (executable contracts on generated inputs, never counted as proved): %s.'
FULL = {  # id: remark on what is assumed
    'S01': 'Sets of items of any size; errors as any dictionary.',
    'S02': 'hash() is taken to be collision-free.',
    'S03': 'A piece is represented by its set of items.',
    'S04': '',
    'S05': 'The year and publication type of a record are taken from the record lookups (R01).',
    'R01': 'The value computed for a key is taken to be a function of the raw fields.',
    'R02': 'pickle is taken to restore equal values.',
    'R03': 'The tag tables are the ones in the source, evaluated, so every tag is covered.',
    'R04': 'String functions (title, upper, replace) are uninterpreted.',
    'R05': 'String functions (split, strip, join) are uninterpreted library functions.',
    'C02': 'hash() is taken to be a function of the text.',
    'C04': 'The abbreviation table is any dictionary.',
    'K01': 'Readers, detectors and path functions are taken to be functions of the file name; what the readers return is decided by P01 to P07.',
    'A01': 'The values of a tag are taken from the record lookup (R01).',
    'A04': 'Equal citations are treated as one value (C02).',
    'A05': 'Equal citations are treated as one value (C02).',
    'A06': 'Equal citations are treated as one value (C02); upper-casing is an uninterpreted function.',
    'G01': 'Weights are taken to be integers.',
    'G02': 'Weights and counts are taken to be integers.',
    'G03': 'Weights and counts are taken to be integers; the merge follows networkx\'s listing of the edges.',
    'G05': 'Weights are taken to be integers, for the distribution not negative, and the graph has a node.',
}
PART = {
    'A07': ('exactly the citations asked for are taken from a record, in their order, and exactly those of all records from a collection, each once', 'the counts and shares of the table'),
    'A11': ('the authors of a record get the gender of their first name, and the counts of a collection are the sums of those of its records', 'the counts of one record and the shares'),
    'D02': ('with plain counts at hand, every node is given its own count or none, nothing else in the graph changes, and the counts come back', 'counts made on the way, counts with a second key, and keys that are not strings'),
    'P07': ('a file is taken for a Web of Science or Medline file exactly if its first lines hold the mark, for a ProQuest file exactly if they hold the heading, and for a Scopus file only with the byte order mark, without an error', 'the choice of the parser, and grant files'),
    'N02': ('the citations that take part in a network are exactly those that pass the filters; for a citing record in a network by author (or by whole citation) exactly the right nodes and edges are added, with the right counts and weights, and every node carries what is known about it', 'the loops over the records'),
    'N03': ('the citations that take part in a network are exactly those that pass the filters; for a citing record exactly the right nodes and edges are added, in the right direction, with the right counts and weights, and every node carries what is known about it', 'the loop over the records and year differences'),
    'C01': ('any string gives a citation without an exception, and the text is kept', 'the parts of a well-formed text come back in the matching attributes'),
    'C03': ('any string gives a Scopus citation without an exception, and the text is kept', 'the parts of a well-formed text come back in the matching attributes'),
}
try:
    sys.path.insert(0, os.path.join(HERE, 'tools')); from levels_more import FULL2, PART2
    FULL.update(FULL2); PART.update(PART2)
except ImportError: pass
for k in FULL: PART.pop(k, None)
out = {k: {'level': 'proof', 'technique': TP, 'note': (NP % v).strip()} for k, v in FULL.items()}
out.update({k: {'level': 'exploration', 'technique': TM, 'note': NM % v} for k, v in PART.items()})
with open(os.path.join(HERE, 'mkv', 'levels.json'), 'w') as f:
    json.dump(out, f, indent=1)
