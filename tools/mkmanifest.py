"""MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract verification of the real code: symbolic execution of its LLVM IR against contracts, obligations discharged by z3'
PROOF = {
    'C01': 'all inputs; rounding modelled by monotone correctly-rounded operations (comparison frequency over exact reals); lists of Or up to length 3',
    'C02': 'all operands, over exact real arithmetic; Or over a list up to length 5',
    'C03': 'all operands, over exact real arithmetic',
    'C04': 'all truth values and all times within 2^60; formula over exact reals, bounds also under rounding',
    'C05': 'all connectors, copulas, component counts and Python names (complete case split)',
    'C13': 'all times and durations up to 2^29, all creation paths',
    'C14': 'one-step induction over dictionaries of arbitrary content and size, all 64-bit keys and all strings; reset: bounded to two entries',
    'C22': 'dictionaries of arbitrary content and size and all words for one and two reads; the releasing of names over sequences of up to five reads and releases of any two words',
    'C17': 'all stated values and configured defaults, every combination of stated and omitted parts, at the level of the parser actions (the grammar tables are not part of the proof)',
}
OTHER = {
    'C21': 'bounded: any text of up to 2 characters; any character in 12 contexts; the look-ahead for every fill level up to 6 and around 128 and 256 with arbitrary first characters; tokens of 125-130 and 253-258 characters; nesting up to 140 levels; histories of up to three texts; every memory access of the real parser with its real tables checked; every obligation on that domain discharged',
    'C23': 'tables and rules: every state and every symbol of the parser against the LR(0) automaton recomputed from the grammar (complete); tokens: in every state, every character after every part of a token that leads to a different continuation, and several hundred texts; trees: bounded to sample sentences (several hundred, nesting up to 4 levels and up to 60 components); every obligation on that domain discharged by exhaustive symbolic execution of the real functions',
    'C16': 'induction step over the nesting depth: components obey the contract of cloning, variables and statements for all inputs; compounds with at most 2 components, components with at most one occurrence per kind of variable; compounds with 8 components by example; every obligation on that domain discharged by z3',
    'C20': 'atoms, variables, intervals, statements, sentences and tasks for all inputs with components that render as any text (induction over the nesting depth); compounds and operations bounded to at most 5 components; up to 10 components by example; every obligation on that domain discharged by z3',
    'C18': 'statements, differences, wrappers, intervals, variables (any number of names) and the evaluation of the syntax tree for all operands; compounds and operations bounded to at most 4 components; up to 12 components by example; every obligation on that domain discharged by z3; the contracts of the constructors are those proved as C15, C16, C19 and C22',
    'C19': 'bounded: at most 3 components, each an atom or a compound of at most 2 atoms under any of the 15 connectors, arbitrary places in the order (deeper nesting is reduced before: the argument is one construction step); up to 12 components, merged sets and nested compounds of up to 6 elements by example; every obligation on that domain discharged by z3',
    'C15': 'statements, atoms, operators, intervals and variables for all inputs over arbitrary components; compounds bounded to at most 3 components, none of them itself a compound (C19 covers nested ones); compounds of up to 8 components by example; every obligation on that domain discharged by z3',
    'C06': 'induction step over the nesting depth with arbitrary components; statements and variables without bound, compounds with at most 3 components (2 for transitivity); larger compounds (up to 12 components) and nesting (up to 6 levels) by example; every obligation on that domain discharged by z3',
    'C07': 'induction step over the nesting depth with arbitrary components; statements, variables and atoms without bound, compounds with at most 3 components (2 for transitivity); larger compounds (up to 9 components) and nesting (up to 7 levels) by example; every obligation on that domain discharged by z3',
    'C08': 'bounded: collections of at most 4 components with arbitrary places in the order; iterator programs of 3 steps; larger collections (up to 14 components) by example; every obligation on that domain discharged by z3',
    'C09': 'bounded: at most 4 operands of at most 2 components with arbitrary places in the order; more and larger operands (up to 6, up to 10 components) by example; every obligation on that domain discharged by z3',
    'C10': 'bounded: index sequences of at most 4 arbitrary 32-bit indices; longer sequences (up to 21 indices, 6 components) by example; every obligation on that domain discharged by z3',
    'C11': 'bounded: composites of at most 3 components with at most 2 occurrences each, nesting depth 1, arbitrary 32-bit indices; more components (up to 6, three levels) by example; every obligation on that domain discharged by z3',
    'C12': 'bounded: evidential bases of at most 3 identifiers (arbitrary 64-bit values), maximum at most 5; larger bases (up to 10 identifiers) by example; every obligation on that domain discharged by z3',
}

NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROOF or i in OTHER:
        checks.append(dict(property=i, quick_cmd='python3-vt cverify/check.py %s' % i, thorough_cmd='python3-vt cverify/check.py %s --tier thorough' % i,
                           technique=T, level='proof' if i in PROOF else 'other', level_note=PROOF.get(i) or OTHER[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
