# coding: utf-8
import os
import re

from rv import gen, lib, real, spec

RULE = ('the recorded vocabulary (codes, slots, short names; golden/current.json) and the table of the README, item by item, each '
        'exercised through the public API: stored records are restored and asked for every slot, short names are used in markers; '
        'random: stored records with unknown codes mixed in, wrong form counts. non-trivial: distinct item or record')
RANDOM = {'quick': 15000, 'thorough': 40000}
REQUIRE = {'codes': 76, 'slots': 330, 'short_names': 68, 'readme_names': 60, 'unknown_codes_ignored': 3000, 'wrong_counts': 200}
ENUMERATED = 'all codes, slots and short names; all form counts from 0 to the right count + 5'


RETIRED = {'VERB_FORM': (2, 2, 2), 'TIME': (0, 0)}    # value codes that stored data may contain and the vocabulary no longer has


def units(tier):
    return [('codes',), ('readme',), ('names',)] + [(k, t) for t in spec.TYPES for k in ('slots', 'counts', 'testword')]


def run_unit(ctx, kind, wtype=None):
    words, r = real.words, real.r
    if kind == 'codes':
        for g in spec.GROUPS:
            for v in spec.GROUPS[g]:
                code = spec.VALUE_CODE[(g, v)]
                p = words.Properties.deserialize({spec.GROUP_CODE[g]: code})
                ctx.ev(('code', g, v))
                ctx.count('codes')
                ctx.check(real.props_of(p) == {g: v}, 'a stored property code changed its meaning', group=g, value=v, code=(spec.GROUP_CODE[g], code),
                          got=real.props_of(p))
                ctx.check(real.prop(g, v).value == code, 'a property value changed its code', group=g, value=v, got=real.prop(g, v).value)
                ctx.check(real.P({g: v}).serialize() == {spec.GROUP_CODE[g]: code}, 'a property is stored under another code', group=g, value=v)
                ctx.check(getattr(r, g)(code) is real.prop(g, v), 'a code denotes another value', group=g, value=v)
            # the default of the group is a value of the recorded vocabulary: the first one
            if g != 'WORD_TYPE':
                ctx.check(words.Properties().get(getattr(r, g)).name == spec.default(g), 'the default value of a group changed', group=g)
        for t in spec.TYPES:
            ctx.ev(('type', t))
            ctx.count('codes')
            ctx.check(real.wtype(t).value == spec.TYPE_CODE[t], 'a word type changed its code', word_type=t, got=real.wtype(t).value)
        ctx.sample('%d codes' % ctx.counters['codes'])
    elif kind == 'slots':
        n = spec.NFORMS[wtype]
        forms = gen.sentinel_forms(1, wtype)
        w = words.Word.deserialize({'type': spec.TYPE_CODE[wtype], 'forms': list(forms), 'properties': {}})
        ctx.check(words.Word.get_forms_number(real.wtype(wtype)) == n, 'the number of form slots changed', word_type=wtype)
        keys = words.Word.get_keys(real.wtype(wtype))
        ctx.check(len(keys) == n, 'the number of slot combinations changed', word_type=wtype)
        listed = list(w.all_forms())
        ctx.check(len(listed) == n, 'all_forms does not list every slot', word_type=wtype)
        for i, key in enumerate(spec.GOLD['slots'][wtype]):
            p = {g: v for g, v in zip(spec.SCHEMA[wtype], key) if v is not None}
            ctx.ev(('slot', wtype, i))
            ctx.count('slots')
            stored = words.Properties.deserialize({str(c): v for c, v in spec.serialize_props(p).items()})
            ctx.check(w.form(stored) == forms[i], 'a form slot changed its meaning', word_type=wtype, slot=i, combination=key, got=w.form(stored))
            ctx.check([None if x is None else x.name for x in keys[i]] == key, 'a form slot is described by another combination', word_type=wtype, slot=i, got=keys[i])
            ctx.check(listed[i].form == forms[i] and real.props_of(listed[i].properties) == p, 'all_forms gives another combination for a slot',
                      word_type=wtype, slot=i, expected=p, got=real.props_of(listed[i].properties))
        ctx.sample('%s: %d slots' % (wtype, n))
    elif kind == 'counts':
        n = spec.NFORMS[wtype]
        for k in list(range(0, n + 6)) + [2 * n, n + 100]:
            forms = ['ф%d' % i for i in range(k)]
            got = real.Observed(lambda: words.Word(type=real.wtype(wtype), forms=forms))
            stored = {'type': spec.TYPE_CODE[wtype], 'forms': list(forms), 'properties': {}}
            got2 = real.Observed(lambda: words.Word.deserialize(stored))
            ctx.ev(('count', wtype, k))
            if k == n:
                ctx.check(got.error is None and got2.error is None, 'the right number of forms is rejected', word_type=wtype, count=k, got=(got, got2))
                ctx.check(list(got.value.forms) == forms, 'a word has other forms than given', word_type=wtype)
            else:
                ctx.count('wrong_counts')
                for g in (got, got2):
                    ctx.check(g.matches(('err', 'WrongFormsNumberError', None)), 'a wrong number of forms is not rejected by its error', word_type=wtype, count=k, got=g)
                    ctx.check(str(k) in str(g.error) and str(n) in str(g.error), 'the error does not name both counts', word_type=wtype, count=k, got=g)
    elif kind == 'testword':
        for prefix, suffix, only in (('w-', '', False), ('п', '-с', True), ('', '', False)):
            w = words.Word.create_test_word(real.wtype(wtype), prefix=prefix, suffix=suffix, only_required=only)
            for i, key in enumerate(spec.GOLD['slots'][wtype]):
                expected = prefix + ','.join(spec.VERBOSE[(g, v)] for g, v in zip(spec.SCHEMA[wtype], key) if v is not None) + suffix
                ctx.ev(('test', wtype, prefix, i))
                ctx.check(w.forms[i] == expected, 'a test word labels a slot with another combination', word_type=wtype, slot=i, expected=expected, got=w.forms[i])
    elif kind == 'names':
        check_names(ctx, {name: [key] for name, key in spec.BY_VERBOSE.items()}, 'short_names')
    elif kind == 'readme':
        path = os.path.join(lib.REPO, 'README.rst')
        table = readme_table(open(path, encoding='utf-8').read())
        names = {}
        for name, text in table:
            names[name] = [(g, v[0]) for g, d in spec.GOLD['groups'].items() for v in d['values'] if v[2] == text]
            ctx.check(bool(names[name]), 'the README documents a property the vocabulary does not have', name=name, text=text)
        check_names(ctx, names, 'readme_names')


def readme_table(text):
    """(short name, meaning) rows of the property table"""
    rows = []
    for line in text.splitlines():
        m = re.match(r'^\s*\|\s*``?([^`|]+?)``?\s*\|\s*([^|]+?)\s*\|', line) or re.match(r'^\s*\*\s*``([^`]+)``\s*[—–-]\s*(.+?)[;.]?\s*$', line)
        if m and m.group(1) in spec.BY_VERBOSE:
            rows.append((m.group(1), m.group(2)))
    return rows


def check_names(ctx, names, counter):
    """each short name, in a marker, selects the slots of its property"""
    for name, keys in names.items():
        ctx.ev((counter, name))
        ctx.count(counter)
        ctx.check(spec.BY_VERBOSE[name] in keys, 'a short name is documented for another property', name=name)
        g, v = spec.BY_VERBOSE[name]
        ctx.check(getattr(real.prop(g, v), 'verbose_id', name) == name, 'the value is printed with another short name', name=name)
        s = real.templates.Substitution.parse('[x|%s]' % name, ['x'])
        ctx.check(s.serialize()['dependencies'] == [{spec.GROUP_CODE[g]: spec.VALUE_CODE[(g, v)]}], 'a short name in a marker denotes another property',
                  name=name, got=s.serialize())
        for wtype in spec.TYPES:
            if g not in spec.SCHEMA[wtype]:
                continue
            for combo in list(spec.combos(wtype))[::5]:
                w = spec.MWord(wtype, gen.sentinel_forms(4, wtype))
                f = spec.MForm(w, combo)
                expected = w.form(spec.merge(combo, {g: v}))
                got = real.T('[x|%s]' % name, ['x']).substitute(externals={'x': real.F(f)}, dictionary=real.dictionary.Dictionary())
                ctx.check(got == expected, 'a short name selects another form', name=name, word_type=wtype, base=combo, expected=expected, got=got)


def run_random(ctx, rng):
    p = gen.props(rng, word_type=0.2)
    stored = spec.serialize_props(p)
    items = [(str(c) if rng.random() < 0.5 else c, v) for c, v in stored.items()]
    unknown = 0
    for _ in range(rng.randint(0, 4)):
        if rng.random() < 0.5:
            items.append((rng.choice((8, 8, 99, 500, 1000, -1, '8', '777')), rng.randrange(5)))
        else:   # known group, unknown value; the group is not in p
            free = [g for g in spec.GROUPS if g not in p]
            if not free:
                continue
            g = rng.choice(free)
            items.append((spec.GROUP_CODE[g], rng.choice((20, 99, -3) + RETIRED.get(g, ()))))
        unknown += 1
    rng.shuffle(items)
    items = dict(items)
    got = real.props_of(real.words.Properties.deserialize(items))
    ctx.ev(tuple(items.items()), bool(items))
    ctx.count('unknown_codes_ignored', unknown)
    ctx.check(got == p, 'stored properties with unknown codes are not restored to the known ones', stored=items, expected=p, got=got)
    wtype = rng.choice(spec.TYPES)
    forms = gen.sentinel_forms(2, wtype)
    w = real.words.Word.deserialize({'type': spec.TYPE_CODE[wtype], 'forms': list(forms), 'properties': items})
    ctx.check(real.word_state(w) == spec.MWord(wtype, forms, p).key(), 'a stored word is restored differently', stored=items, got=real.word_state(w))
