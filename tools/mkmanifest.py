# coding: utf-8
"""writes MANIFEST.json"""
import json
import os

T = {
    'C01': ('output monitor against an independent template splitter and renderer', 'hostile literals, repeated markers, substituted texts that look like markers or format directives'),
    'C02': ('output monitor against a reference resolver with sentinel forms', 'random dependency chains over all groups; sentinel forms make the selected slot observable'),
    'C03': ('output monitor against a declarative paradigm model', 'all full combinations of all word types enumerated; partial requests and constant properties random'),
    'C04': ('output monitor against the written numeral rules', 'all combinations of numeral class, case, gender, animacy, number, mode per dependent type; the rest random'),
    'C05': ('output monitor against the definition of the numeral classes; order-independence by shuffled fresh processes of construction', 'integers 0..10^4 and beyond, boundaries, negatives, huge; random histories'),
    'C06': ('output monitor against the written preposition rules', 'all first-letter pairs and word shapes enumerated; chains of governed words random'),
    'C07': ('online reference-model monitor over insertion histories', 'all insertion orders of up to three words, random orders above; every text looked up after every addition'),
    'C08': ('online reference-model monitor over lexicon histories', 'random choices repeated 60 times per candidate; missing one by chance has probability below 1e-20'),
    'C09': ('round-trip monitor with behavioural comparison and aliasing probes', 'direct and through JSON'),
    'C10': ('monitor against recorded golden vocabulary and layouts', 'golden tables recorded from the pinned commit and checked against README and the model'),
    'C11': ('monitor of migration runs against a model of every layout', 'layouts of earlier versions recorded in rv/golden; two migrations are recorded as known findings'),
    'C12': ('history monitor: memoryless model plus before/after snapshots of all objects, tables and the state of the process, and audit events', 'random operation histories'),
    'C13': ('concurrency monitor: seeded bytecode-level thread scheduler plus free-running stress, results checked against the sequential model', 'switch points are bytecode instructions (or lines) of the library; C code of the interpreter is atomic under the GIL'),
    'C14': ('output monitor against a model of nearest given forms', 'random subsets of given forms'),
    'C15': ('error monitor: exact outcome predicted by the model, state snapshots after failures', 'grammar-based and mutated template texts'),
    'C16': ('metamorphic monitor: re-spelled markers against the original', 'random respacing, recasing, regrouping'),
    'C17': ('history monitor: re-parsed template against a fresh one', 'random histories of parses, some failing'),
    'C18': ('algebraic-law monitor over pools of nearly equal objects', 'all pairs and triples of each pool; foreign objects'),
    'C19': ('metamorphic monitor: capitalised against plain marker', 'every slot of every type enumerated; hostile first letters random'),
    'C20': ('cross-process monitor: event logs of identical programs under different hash seeds, import orders and unrelated objects', 'logs compared entry by entry'),
    'C21': ('output monitor against a reference recogniser', 'every slot and single property enumerated; homonyms random'),
    'C22': ('prediction monitor: report against outcome of the rendering and the model', 'words added one by one until the report is empty'),
    'C23': ('work and memory monitor: executed events (sys.monitoring), instrumented texts, processor time, traced allocations and living objects at several sizes and after long histories', 'sizes up to some thousands of markers, words, templates and operations; C code is seen through processor time with wide margins'),
    'C24': ('metamorphic monitor: the same template in bare and in larger surroundings, joined and taken apart', 'up to 30 further variables and 150 further words; up to 40 joined templates'),
    'C25': ('fault-injection monitor: exceptions raised at seeded instructions of the library, results afterwards checked against the model and an undisturbed twin', 'points are bytecode instructions or lines of the library, or levels of an exhausted stack; C code of the interpreter is not interrupted inside'),
}

checks = []
for prop, (technique, note) in sorted(T.items()):
    checks.append({'property': prop, 'quick_cmd': './check.sh %s' % prop, 'thorough_cmd': './check.sh %s --tier thorough' % prop,
                   'evidence_file': 'evidence/%s.json' % prop, 'technique': technique, 'level': 'exploration',
                   'level_note': 'Held on the executions counted in the evidence file (%s). Trusts the reference model rv/spec.py and the generators; '
                                 'says nothing about inputs not generated.' % note})
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
       'notes': 'Pure Python run from /repo (nothing to build, no hooks in /repo). Exit 2 = inconclusive or error of the check. '
                './check.sh <id> --replay <file> repeats a violation.'}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')
with open(path, 'w', encoding='utf-8') as f:
    json.dump(out, f, ensure_ascii=False, indent=1)
    f.write('\n')
