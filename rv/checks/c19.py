# coding: utf-8
from rv import core, gen, real, spec

RULE = ('pairs of renderings that differ only in capitalisation: identifier with a capital first letter against the same marker without, '
        'letter case asked for in dependencies in any order, several markers of which some are capitalised; the one must be the other with '
        'its first character upper-cased, the other markers must be unchanged. non-trivial: distinct (marker, word) whose text is changed by '
        'capitalisation')
RANDOM = {'quick': 8000, 'thorough': 120000}
REQUIRE = {'pairs': 15000, 'changed_by_capital': 8000, 'case_asked': 6000, 'capital_wins': 3000, 'mixed_templates': 4000, 'stored_capitals_kept': 1000,
           'slots': 900, 'hostile_first': 1000, 'constant_case': 3000}
ENUMERATED = 'every slot of every word type, capitalised and not'
UPPER, LOWER = spec.VERBOSE[('WORD_CASE', 'UPPER')], spec.VERBOSE[('WORD_CASE', 'LOWER')]
FIRSTS = ('ß', 'ǆ', 'ŉ', 'é', 'İ', '\u0301', '1', '-', '«', ' ', '%', 'ё', 'a', 'б', 'ъ', 'Ё', 'Я', '\U0001F600', '\n', '[', 'ﬁ')


def cap(text):
    return text[:1].upper() + text[1:]


def units(tier):
    return [('slots', t) for t in spec.TYPES]


def strip_case(p):
    return {g: v for g, v in p.items() if g != 'WORD_CASE'}


def plain_world(rng, styles, **kw):
    """no letter case among the properties of words and external variables"""
    world = gen.World(rng, styles=styles, **kw)
    words = [spec.MWord(w.type, w.forms, strip_case(w.props)) for w in world.words]
    world.words = words
    world.dictionary = spec.MDictionary(words)
    world.texts = [f for f in world.dictionary.index if gen.usable_id(f)]
    out = {}
    for name, f in world.externals.items():
        p, fp = f.raw
        out[name] = spec.MForm(spec.MWord(f.word.type, f.word.forms, strip_case(f.word.props)), None if p is None else strip_case(p), None)
    world.externals = out
    return world


def mixed_case(rng, text):
    return ''.join(c.upper() if rng.random() < 0.4 else c for c in text)


def run_unit(ctx, kind, wtype):
    rng = ctx.rng(kind, wtype)
    m = spec.MWord(wtype, ['%sЯб%d' % (rng.choice('абвгАБВ'), i) for i in range(spec.NFORMS[wtype])])
    d = real.dictionary.Dictionary()
    for given, name in ((None, 'x'), ({}, 'имя')):
        ext = {name: real.F(spec.MForm(m, given))}
        for slot in range(spec.NFORMS[wtype]):
            p = spec.slot_props(wtype, slot)
            deps = '|' + ','.join(spec.VERBOSE[(g, v)] for g, v in p.items()) if p else ''
            stored = m.forms[slot]
            for text, want in (('[%s%s]' % (name, deps), stored), ('[%s%s]' % (cap(name), deps), cap(stored)),
                               ('[%s%s|%s]' % (name, deps, UPPER), cap(stored)), ('[%s|%s%s]' % (name, UPPER, deps), cap(stored)),
                               ('[%s%s|%s]' % (name, deps, LOWER), stored), ('[%s%s|%s]' % (cap(name), deps, LOWER), cap(stored)),
                               ('[%s|%s%s|%s]' % (name, UPPER, deps, LOWER), stored), ('[%s|%s%s|%s]' % (name, LOWER, deps, UPPER), cap(stored)),
                               ('[%s%s|%s,%s]' % (name, deps, UPPER, LOWER), stored)):
                got = core.real_render(text, [name], ext, d)
                ctx.count('slots')
                ctx.ev((wtype, slot, text), want != stored)
                ctx.check(got.matches(('ok', want)), 'capitalisation gives another text', marker=text, form=stored, expected=want, got=got)
            # as a word form
            f = real.words.WordForm(real.W(m), properties=real.P(spec.merge(p, {'WORD_CASE': 'UPPER'})))
            ctx.check(f.form == cap(stored), 'a word form asking for upper case has another text', form=stored, got=f.form)
            ctx.check(real.words.WordForm(real.W(m), properties=real.P(p)).form == stored, 'a word form has another text than stored', form=stored)
            ctx.check(f.word.form(f.properties) == stored, 'Word.form() capitalises', form=stored)


def constant_case(ctx, rng):
    """words that ask for upper or lower case by a constant property of their own: it overrides the marker"""
    wtype = rng.choice(spec.TYPES)
    case = rng.choice(('UPPER', 'UPPER', 'LOWER'))
    forms = [rng.choice((gen.natural_text(rng), rng.choice(FIRSTS) + 'яЯ', '')) for _ in range(spec.NFORMS[wtype])]
    m = spec.MWord(wtype, forms, spec.merge(gen.const_props(rng, wtype, rng.choice(('typical', 'any', 'none'))), {'WORD_CASE': case}))
    ext = {'x': spec.MForm(m, gen.relevant_props(rng, wtype))}
    rext = {'x': core.real_external(ext['x'])}
    plain = {'x': core.real_external(spec.MForm(spec.MWord(wtype, forms, strip_case(m.props)), strip_case(ext['x'].raw[0])))}
    d = real.dictionary.Dictionary()
    for asked in (None, UPPER, LOWER):
        p = strip_case(gen.relevant_props(rng, wtype))
        deps = '|' + ','.join(spec.VERBOSE[i] for i in p.items()) if p else ''
        base = core.real_render('[x%s|%s]' % (deps, LOWER), ['x'], plain, d)
        ctx.check(base.error is None, 'a marker is not rendered', marker=deps, word=m, got=base)
        want = cap(base.value) if case == 'UPPER' else base.value
        for ident in ('x', 'X'):
            text = '[%s%s%s]' % (ident, deps, '|' + asked if asked else '')
            got = core.real_render(text, ['x'], rext, d)
            ctx.count('constant_case')
            ctx.ev((text, base.value, case), want != base.value)
            ctx.check(got.matches(('ok', want)), 'capitalisation changed more than the first letter, or not this one', marker=text, word=m, expected=want, got=got)


def run_random(ctx, rng):
    if rng.random() < 0.1:
        constant_case(ctx, rng)
    style = rng.random()
    if style < 0.25:
        world = hostile_world(ctx, rng)
    else:
        world = plain_world(rng, ('sentinel', 'sound', 'sparse', 'shared', 'natural', 'natural') if style < 0.7 else ('sentinel',), max_words=3)
    if style > 0.7:
        for f in world.externals.values():
            if f.word.type != 'INTEGER':
                f.word.forms[:] = [mixed_case(rng, t) for t in f.word.forms]
    world.names = list(world.externals)
    built = core.Built(world)
    if not (world.names or world.texts):
        return

    def render(text):
        try:
            return core.real_render(text, world.names, built.externals, built.dictionary)
        except (IndexError, KeyError):
            raise

    pieces = []
    for _ in range(rng.randint(1, 4)):
        m = gen.marker(rng, world, messy=False, capital=0)
        f = [x for x in m[1:-1].split('|')]
        deps = []
        for x in f[1:]:     # no letter case in the dependencies of the plain marker
            if x not in world.names:
                x = ','.join(i for i in x.split(',') if i not in (UPPER, LOWER))
            deps.append(x)
        ident = f[0]
        if not ident or cap(ident) == ident or cap(ident).lower() != ident or not cap(ident)[0].isupper():
            continue
        plain = '[%s]' % '|'.join([ident] + deps)
        base = render(plain)
        if base.error is not None:
            continue
        base = base.value
        want = cap(base)
        variants = []

        def with_case(*cases):
            out = list(deps)
            spots = sorted(rng.randint(0, len(out)) for _ in cases)
            for k, (s, c) in enumerate(zip(spots, cases)):
                out.insert(s + k, c)
            return out
        variants.append(('capital identifier', [cap(ident)] + deps, want))
        variants.append(('upper case asked', [ident] + with_case(UPPER), want))
        variants.append(('lower case asked', [ident] + with_case(LOWER), base))
        variants.append(('upper case asked last', [ident] + with_case(LOWER, UPPER), want))
        variants.append(('lower case asked last', [ident] + with_case(UPPER, LOWER), base))
        variants.append(('capital identifier, lower case asked', [cap(ident)] + with_case(LOWER), want))
        variants.append(('capital identifier, both asked', [cap(ident)] + with_case(UPPER, LOWER), want))
        for how, fs, expected in variants:
            text = '[%s]' % '|'.join(fs)
            got = render(text)
            ctx.count('pairs')
            if 'asked' in how:
                ctx.count('case_asked')
            if how.startswith('capital') and 'lower' in how:
                ctx.count('capital_wins')
            if want != base:
                ctx.count('changed_by_capital')
            if base != base.lower() and expected == base:
                ctx.count('stored_capitals_kept')
            ctx.ev((text, base), want != base)
            ctx.check(got.matches(('ok', expected)), 'capitalisation changed more than the first letter, or not this one', how=how, plain=plain, marker=text,
                      plain_text=base, expected=expected, got=got, externals=world.externals, words=world.words)
        pieces.append((variants[0][1], [ident] + deps, base))
        if base and base[0] in FIRSTS:
            ctx.count('hostile_first')
    if len(pieces) > 1:
        text, want = '', ''
        for upper, lower, base in pieces + pieces[:1]:
            if rng.random() < 0.5:
                text += '[%s] и ' % '|'.join(upper)
                want += cap(base) + ' и '
            else:
                text += '[%s] и ' % '|'.join(lower)
                want += base + ' и '
        got = render(text)
        ctx.count('mixed_templates')
        ctx.check(got.matches(('ok', want)), 'a capitalised marker affects others', template=text, expected=want, got=got, externals=world.externals)
        ctx.sample('%s -> %s' % (text, want))
    # dependent words do not notice a capitalised governing form
    for name, f in list(world.externals.items())[:2]:
        if f.raw[0] is None:
            continue
        other = spec.MForm(f.word, spec.merge(f.raw[0], {'WORD_CASE': 'UPPER'}))
        ext = dict(built.externals)
        ext[name] = real.F(other)
        for dep in world.names:
            if dep == name:
                continue
            a = render('[%s|%s]' % (dep, name))
            # the letter case of a dependency is itself a property of the marker
            b = core.real_render('[%s|%s|%s]' % (dep, name, LOWER), world.names, ext, built.dictionary)
            ctx.check(a.error is None and b.matches(('ok', a.value)), 'capitalisation of a governing word changes a dependent one', marker=dep, governing=name,
                      expected=a, got=b, externals=world.externals)


def hostile_world(ctx, rng):
    world = plain_world(rng, ('sentinel',), max_words=1, max_externals=3)
    for f in world.externals.values():
        if f.word.type != 'INTEGER':
            f.word.forms[:] = [rng.choice(FIRSTS) + (t if rng.random() < 0.8 else '') for t in f.word.forms]
    return world
