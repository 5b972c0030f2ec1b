# coding: utf-8
import copy
import importlib
import json
import os

from rv import gen, real, spec

RULE = ('stored words of every type at the layout each migration starts from (recorded in golden/layout_*.json), with a unique text in '
        'every slot, partly empty forms or repeated texts, migrated alone and through the chain 7-8-9 and then restored; the migrations '
        '2, 4, 5 on stored records with and without the data they look for. non-trivial: distinct (migration, stored word)')
RANDOM = {'quick': 3000, 'thorough': 15000}
REQUIRE = {'slots_checked': 100000, 'new_combinations': 50, 'chains': 300, 'simple_migrations': 500, 'untouched': 300}
ENUMERATED = 'every slot of every word type for the migrations 7, 8, 9 and their chain'

_dir = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden')
LAYOUTS = {n: json.load(open(os.path.join(_dir, 'layout_%d.json' % n), encoding='utf-8')) for n in (7, 8, 9)}
NAMES = {1: 'm_0001_include_short_forms_in_full', 2: 'm_0002_countable_noun_form', 3: 'm_0003_change_verb_forms', 4: 'm_0004_new_preposition_form',
         5: 'm_0005_remove_time_participle_property', 6: 'm_0006_per_word_type_restrictions', 7: 'm_0007_reduce_words_forms',
         8: 'm_0008_lower_animiality_nearest_priority', 9: 'm_0009_pronoun_modernization'}


def module(n):
    return importlib.import_module('utg.migrations.' + NAMES[n])


def layout(n, which, wtype):
    """{slot: frozenset of 'GROUP.VALUE'}; for the pronouns of migration 9 the layout migration 8 left"""
    if n == 9 and which == 'OLD' and wtype == 'PRONOUN':
        return layout(8, 'NEW', wtype)
    return {i: frozenset(x for x in key if x is not None) for i, key in LAYOUTS[n][which][wtype]}


def size(n, which, wtype):
    return max(layout(n, which, wtype)) + 1


def expected(n, wtype, old_forms):
    """[set of acceptable texts] for the new layout"""
    old, new = layout(n, 'OLD', wtype), layout(n, 'NEW', wtype)
    by_key = {}
    for i, key in old.items():
        if n == 9 and wtype == 'PRONOUN':
            if 'PERSON.THIRD' not in key:
                if any(k.startswith('PERSON') for k in key):
                    continue
            key = frozenset(k for k in key if not k.startswith('PERSON'))
        by_key[key] = i
    out = [None] * len(new)
    fresh = 0
    for slot, key in new.items():
        if n == 9 and wtype == 'PRONOUN':
            key = frozenset(k for k in key if not k.startswith('ANIMALITY'))
        if key in by_key:
            out[slot] = {old_forms[by_key[key]]}
            continue
        fresh += 1
        groups = {k.split('.')[0]: k for k in key}
        suitable = {old_forms[i] for k, i in by_key.items() if all(groups.get(x.split('.')[0], x) == x for x in k)}
        out[slot] = suitable or set(old_forms)
    return out, fresh


def run_step(ctx, n, wtype, forms, properties):
    stored = {'type': spec.TYPE_CODE[wtype], 'forms': list(forms), 'properties': copy.deepcopy(properties), 'чужое': [1]}
    got = module(n).migrate(stored)
    ctx.check(isinstance(got, dict), 'a migration returned no stored word', migration=n, word_type=wtype, got=got)
    want, fresh = expected(n, wtype, forms)
    ctx.ev((n, wtype, tuple(forms)))
    ctx.check(len(got['forms']) == len(want), 'a migrated word has a wrong number of forms', migration=n, word_type=wtype, expected=len(want), got=len(got['forms']))
    for slot, texts in enumerate(want):
        ctx.check(got['forms'][slot] in texts, 'a form changed its meaning in a migration', migration=n, word_type=wtype, slot=slot,
                  expected=texts, got=got['forms'][slot])
    ctx.count('slots_checked', len(want))
    ctx.count('new_combinations', fresh)
    rest = {k: v for k, v in got.items() if k != 'forms'}
    ctx.check(rest == {'type': spec.TYPE_CODE[wtype], 'properties': properties, 'чужое': [1]}, 'a migration changed something besides the forms',
              migration=n, word_type=wtype, got=rest)
    ctx.keep(lambda: got, copy.deepcopy(got), 'a migrated word', migration=n)
    return list(got['forms'])


def units(tier):
    return [('step', n, t) for n in (7, 8, 9) for t in spec.TYPES] + [('chain', t) for t in spec.TYPES] + [('simple',), ('recorded',)]


def run_chain(ctx, wtype, forms, properties, start=7):
    for n in range(start, 10):
        forms = run_step(ctx, n, wtype, forms, properties)
    ctx.count('chains')
    word = real.words.Word.deserialize({'type': spec.TYPE_CODE[wtype], 'forms': forms, 'properties': properties})
    current = layout(9, 'NEW', wtype)
    for slot, key in current.items():
        request = dict(k.split('.') for k in key)
        ctx.check(word.form(real.P(request)) == forms[slot], 'a migrated word does not fit the current layout', word_type=wtype, slot=slot, combination=key)


def run_unit(ctx, kind, *args):
    rng = ctx.rng(kind, *args)
    if kind == 'step':
        n, wtype = args
        run_step(ctx, n, wtype, ['ф%d' % i for i in range(size(n, 'OLD', wtype))], {'1': 0})
        ctx.sample('migration %d of %s: %d -> %d slots' % (n, wtype, size(n, 'OLD', wtype), size(n, 'NEW', wtype)))
    elif kind == 'chain':
        run_chain(ctx, args[0], ['ф%d' % i for i in range(size(7, 'OLD', args[0]))], {})
    elif kind == 'simple':
        for _ in range(200):
            simple(ctx, rng)
    elif kind == 'recorded':
        recorded(ctx)


def some_forms(rng, n):
    mode = rng.choice(('unique', 'sparse', 'few', 'blocks', 'one', 'none'))
    if rng.random() < 0.25:
        forms = [gen.natural_text(rng) for _ in range(n)]
        if rng.random() < 0.3:
            forms[rng.choice((0, n - 1, rng.randrange(n)))] = gen.natural_text(rng) + ' ' + ' '.join(gen.natural_text(rng) for _ in range(rng.randint(1, 6)))
        return forms if mode != 'sparse' else [f if rng.random() < 0.6 else '' for f in forms]
    if mode == 'few':
        return [rng.choice('абвг') for _ in range(n)]
    keep = {'unique': 1, 'sparse': 0.6, 'blocks': 1, 'one': 0, 'none': 0}[mode]
    forms = ['ф%d' % i if rng.random() < keep else '' for i in range(n)]
    if mode == 'blocks':        # without singular, without some cases, ...
        step = rng.choice([k for k in (2, 3, 6, n // 2, n // 3) if k > 0])
        for start in range(0, n, step):
            if rng.random() < 0.5:
                forms[start:start + step] = [''] * len(forms[start:start + step])
    if mode == 'one':
        forms[rng.choice((0, n - 1, rng.randrange(n)))] = 'ф'
    return forms


def simple(ctx, rng):
    """2: countable noun forms; 4: third preposition form; 5: the participle loses its time"""
    for n in (2, 4, 5):
        code = rng.choice((0, 1, 2, 3, 4, 5, 6, 10, {2: 0, 4: 10, 5: 4}[n]))
        count = {0: 12, 10: 2}.get(code, 30)
        stored = {'type': code, 'forms': some_forms(rng, count) if rng.random() < 0.7 else ['ф%d' % i for i in range(count)], 'properties': {str(rng.randrange(20)): rng.randrange(3) for _ in range(3)},
                  'patches': {}}
        if rng.random() < 0.5:
            stored['properties']['5'] = rng.choice((1, 2, 3))
        if rng.random() < 0.4 and code == 0 and n == 2:
            stored['patches'] = {7: {'forms': ['с%d' % i for i in range(6)]}}
        want = copy.deepcopy(stored)
        if n == 2 and code == 0:
            want['forms'] += want['patches'][7]['forms'] if want['patches'] else want['forms'][6:12]
        elif n == 4 and code == 10:
            want['forms'] += want['forms'][-1:]
        elif n == 5 and code == 4:
            want['properties'].pop('5', None)
        else:
            ctx.count('untouched')
        kept = copy.deepcopy(stored)
        got = module(n).migrate(stored)
        ctx.ev((n, code, tuple(kept['forms']), tuple(sorted(kept['properties'].items())), bool(kept['patches'])))
        ctx.count('simple_migrations')
        got.pop('patches', None)
        want.pop('patches', None)
        ctx.check(got == want, 'a migration gives another stored word', migration=n, stored=kept, expected=want, got=got)
        ctx.keep(lambda got=got: got, want, 'a migrated word', migration=n)


def recorded(ctx):
    """migrations 1, 3, 6: recorded findings (see DESIGN.md); anything beyond them is a violation"""
    for n in (3, 6):
        try:
            m = module(n)
        except AttributeError as e:
            ctx.finding('m_%04d:import' % n, 'a migration cannot be loaded', migration=n, error=e)
            continue
        ctx.check(callable(m.migrate), 'a migration has no migrate()', migration=n)
    m = module(1)
    for code in (0, 2, 3, 5, 6, 10):
        stored = {'type': code, 'forms': ['ф0', 'ф1'], 'properties': {'1': 1}}
        kept = copy.deepcopy(stored)
        ctx.check(m.migrate(stored) == kept, 'migration 1 changed a word of another type', word_type=code)
        ctx.count('untouched')
    for code, wtype, count in ((1, 'ADJECTIVE', 144), (4, 'PARTICIPLE', 192)):
        # the layout migration 1 was written for: one slot per number x case x ...; the result must have the layout of its time,
        # in which the next migrations find the old full forms
        forms = ['ф%d' % i for i in range(count)]
        got = m.migrate({'type': code, 'forms': list(forms), 'properties': {}})['forms']
        if not set(forms) <= set(got):
            ctx.finding('m_0001:%s:%dof%d' % (wtype.lower(), len(set(forms) & set(got)), count), 'migration 1 loses forms', word_type=wtype,
                        lost=len(set(forms) - set(got)))


def run_random(ctx, rng):
    wtype = rng.choice(spec.TYPES)
    start = rng.choice((7, 7, 8, 9))
    n = size(start, 'OLD', wtype)
    forms = some_forms(rng, n)
    run_chain(ctx, wtype, forms, {str(spec.GROUP_CODE[g]): spec.VALUE_CODE[(g, v)] for g, v in gen.const_props(rng, wtype).items() if g not in spec.SCHEMA[wtype]}, start)
    simple(ctx, rng)
