# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('a preposition marker depending on governed words; enumerated: prepositions x first two letters of the governed form (all '
        'cyrillic letters, other characters, one-letter and empty forms) x syllables x fluent vowel x capitalisation; the five '
        'exceptional forms; random: several governed words, explicit variants, dictionary guesses, any word types. non-trivial: '
        'distinct (preposition, governed form, its paradigm)')
RANDOM = {'quick': 14000, 'thorough': 200000}
REQUIRE = {'governed': 30000, 'alternative': 3000, 'special': 100, 'first': 3000, 'capitalised': 3000, 'empty': 50, 'with_other_characters': 2000, 'single_other_form': 5000, 'single_governed': 50000, 'long_chains': 400, 'equal_variants': 500}
ENUMERATED = 'prepositions x all pairs of initial letters x {one-syllable fluent, one-syllable plain, polysyllabic} x capitalisation'
PREPOSITIONS = [['в', 'во', 'во!'], ['с', 'со', 'со!'], ['к', 'ко', 'ко!'], ['о', 'об', 'обо'], ['у', 'у2', 'у3'], ['на', 'на2', 'на3'],
                ['над', 'надо', 'надо!'], ['сквозь', 'сквозь2', 'сквозь3'], ['из', 'изо', 'изо!'], ['по', 'по2', 'по3'], ['ь', 'ъ2', 'ъ3'],
                ['ради', 'р2', 'р3'], ['вв', 'вв2', 'вв3'], ['со', 'со2', 'со3'], ['of', 'o2', 'o3'], ['й', 'й2', 'й3'], ['ё', 'ё2', 'ё3']]
SECOND = gen.LETTERS + 'f1- '
SPECIAL = ('всех', 'мне', 'всём', 'что', 'всей', 'всехх', 'мн', 'всем', 'нечто', 'все', 'чтo')


def units(tier):
    return [('letters', i, c) for i in range(len(PREPOSITIONS)) for c in gen.LETTERS] + [('special',)] + [('chains', k) for k in range(8)]


MDICT = spec.MDictionary()


def compare(ctx, text, exts, rexts, rdict, key, mdict=MDICT):
    expected = core.model_render(text, list(exts), exts, mdict)
    got = core.real_render(text, list(exts), rexts, rdict)
    ctx.ev(key)
    ctx.check(got.matches(expected), 'a preposition has another variant than its governed word requires',
              template=text, expected=expected, got=got, externals=exts)
    return expected[1]


def master_of(form, shape, wtype='NOUN'):
    """a word whose default form is `form`; shape: fluent (another form drops or changes the vowel), plain, poly"""
    rest = {'fluent': form + 'щ', 'plain': form + 'ка', 'poly': form + 'ка'}[shape]
    vowels = [c for c in form.lower() if c in spec._VOWELS]
    if shape == 'fluent':
        rest = ''.join(c for c in form if c.lower() not in spec._VOWELS) + 'щ'
        if not vowels:
            rest = form + 'о'
    n = spec.NFORMS[wtype]
    return spec.MWord(wtype, [form] + [rest] * (n - 1), {})


def chains(ctx, k):
    """one word that decides the variant, at any place among many that do not"""
    rng = ctx.rng('chains', k)
    for _ in range({'quick': 60, 'thorough': 600}[ctx.tier]):
        prep = rng.choice(PREPOSITIONS)
        exts = {'x': spec.MForm(spec.MWord('PREPOSITION', prep))}
        for i in range(rng.choice((1, 3, 20))):
            exts['y%d' % i] = spec.MForm(spec.MWord(rng.choice(('TEXT', 'TEXT', 'INTEGER')), [rng.choice(('кот', 'дом', 'рука', '5', 'юг', 'ёж'))], {}))
        decisive = []
        for i in range(rng.choice((1, 1, 2))):
            exts['z%d' % i] = spec.MForm(spec.MWord('TEXT', [rng.choice(('власть', 'страх', 'арка', 'эхо', 'мне', 'всех', 'что', 'знак') if rng.random() < 0.6 else SPECIAL)]))
            decisive.append('z%d' % i)
        text = gen.long_chain(rng, 'x', decisive, [n for n in exts if n[0] == 'y'], ('CASE', 'NUMBER', 'GENDER', 'TIME'))
        ctx.count('long_chains')
        compare(ctx, text, exts, {n: core.real_external(f) for n, f in exts.items()}, real.dictionary.Dictionary(), (text, repr(exts)))


def run_unit(ctx, kind, *args):
    if kind == 'chains':
        return chains(ctx, *args)
    rdict = real.dictionary.Dictionary()
    if kind == 'letters':
        prep = PREPOSITIONS[args[0]]
        x = spec.MForm(spec.MWord('PREPOSITION', prep))
        rx = core.real_external(x)
        bodies = {args[1]: ('fluent', 'plain')}
        for s in SECOND:
            bodies[args[1] + s] = ('fluent', 'plain')
            bodies[args[1] + s + 'он'] = ('fluent', 'plain')
            bodies[args[1] + s + 'ван'] = ('plain', 'poly')
        for form, shapes in bodies.items():
            for shape, case in itertools.product(shapes, ('lower', 'first', 'all')):
                text_form = form if case == 'lower' else form[0].upper() + form[1:] if case == 'first' else form.upper()
                m = spec.MForm(master_of(text_form, shape))
                e = compare(ctx, '[x|m]', {'x': x, 'm': m}, {'x': rx, 'm': core.real_external(m)}, rdict, (prep[0], text_form, shape))
                ctx.count('governed')
                ctx.count('capitalised', case != 'lower')
                ctx.count('alternative' if e == prep[1] else 'first' if e == prep[0] else 'special')
        ctx.sample('%s + %s* -> %s' % (prep[0], form, e))
        return
    for prep in PREPOSITIONS:
        x = spec.MForm(spec.MWord('PREPOSITION', prep))
        rx = core.real_external(x)
        for form in SPECIAL + ('',):
            for wtype in spec.TYPES:
                for case in (0, 1, 2):
                    f = (form, form[:1].upper() + form[1:], form.upper())[case]
                    for upper in (False, True):
                        m = spec.MForm(spec.MWord(wtype, [f] + [f + 'а'] * (spec.NFORMS[wtype] - 1), {'WORD_CASE': 'UPPER'} if upper else {}))
                        e = compare(ctx, '[x|m]', {'x': x, 'm': m}, {'x': rx, 'm': core.real_external(m)}, rdict, (prep[0], f, wtype, upper))
                        ctx.count('empty', not f)
                        ctx.count('governed')
                        ctx.count('special', e == prep[2])


def run_random(ctx, rng):
    prep = rng.choice(PREPOSITIONS) if rng.random() < 0.8 else [gen.sound_word(rng, 3) + 'x%d' % i for i in range(3)]
    if rng.random() < 0.1:
        prep = list(prep)
        prep[rng.randrange(3)] = ''
    if rng.random() < 0.15:     # variants that are not all different
        prep = list(prep)
        prep[rng.randrange(3)] = prep[rng.randrange(3)]
        ctx.count('equal_variants', len(set(prep)) < 3)
    pword = spec.MWord('PREPOSITION', prep, {'PREPOSITION_FORM': rng.choice(spec.GROUPS['PREPOSITION_FORM'])} if rng.random() < 0.1 else {})
    exts = {'x': spec.MForm(pword, gen.relevant_props(rng, 'PREPOSITION', 0.3))}
    for name in ('a', 'b', 'c'):
        wtype = rng.choice(spec.TYPES)
        forms = [rng.choice(SPECIAL) if rng.random() < 0.1 else gen.sound_word(rng, 4) for _ in range(spec.NFORMS[wtype])]
        if rng.random() < 0.5:
            stem = gen.sound_word(rng, 3)
            forms = [stem + f[:rng.randint(0, 2)] for f in forms]
        if rng.random() < 0.3:      # one text and a single form with other vowels, longer or shorter, in one word or several
            text = rng.choice((prep[0][:1], gen.sound_word(rng, 1))) + rng.choice(gen.LETTERS) + gen.sound_word(rng, rng.choice((1, 2, 8)))
            if rng.random() < 0.4:
                text = text[:3] + rng.choice((' ', '-', '. ')) + text[3:]
            forms = [text] * len(forms)
            k = rng.randrange(len(forms))
            forms[k] = rng.choice((''.join(c for c in text if c not in spec._VOWELS), text[:-1], text + 'й', text + gen.sound_word(rng, 6), gen.natural_text(rng),
                                   ''.join(rng.choice('оеаиуы') if c in spec._VOWELS else c for c in text)))
            ctx.count('single_other_form')
        elif rng.random() < 0.1:
            forms = gen.forms(rng, 0, wtype, 'natural')
        if rng.random() < 0.2:      # one syllable and things that are neither vowels nor consonants
            noise = rng.choice(("-' 1", 'aeiouy', 'ьъй', '\u0301.\u00e9\u0456'))
            forms = [f[:2] + rng.choice(noise) + f[2:] + (rng.choice(noise) if rng.random() < 0.3 else '') for f in forms]
            ctx.count('with_other_characters')
        if rng.random() < 0.2:
            forms = [f.capitalize() for f in forms]
        if rng.random() < 0.1:
            forms = ['' if rng.random() < 0.5 else f for f in forms]
        w = spec.MWord(wtype, forms, gen.const_props(rng, wtype, rng.choice(('typical', 'any'))))
        exts[name] = spec.MForm(w, gen.relevant_props(rng, wtype) if rng.random() < 0.7 else None,
                                spec.merge(gen.relevant_props(rng, wtype), {'WORD_CASE': rng.choice(('UPPER', 'LOWER'))}) if rng.random() < 0.3 else None)
    for _ in range(8):      # one governed form, of any properties
        wtype = rng.choice(('TEXT', 'TEXT', 'PREPOSITION', rng.choice(spec.TYPES)))
        text = rng.choice((prep[0][:1], gen.sound_word(rng, 1))) + gen.sound_word(rng, 3) if rng.random() < 0.7 else gen.natural_text(rng)
        m = spec.MForm(spec.MWord(wtype, [text] + [text if rng.random() < 0.8 else gen.sound_word(rng, 3) for _ in range(spec.NFORMS[wtype] - 1)], gen.props(rng, p=0.1)), gen.props(rng),
                       gen.props(rng) if rng.random() < 0.3 else None)
        compare(ctx, '[x|m]', {'x': exts['x'], 'm': m}, {'x': core.real_external(exts['x']), 'm': core.real_external(m)}, real.dictionary.Dictionary(), (prep[0], repr(m)))
        ctx.count('single_governed')
    exts['n'] = spec.integer_form(gen.integer(rng))
    mdict, rdict = spec.MDictionary([pword]), real.dictionary.Dictionary([real.W(pword)])
    rexts = {k: core.real_external(f) for k, f in exts.items()}
    for _ in range(4):
        ids = [f for f in prep if gen.usable_id(f) and mdict.has(f)]
        ident = rng.choice(ids) if ids and rng.random() < 0.5 else 'x'
        if rng.random() < 0.2:
            ident = ident[0].upper() + ident[1:]
        deps = [rng.choice(('a', 'b', 'c', 'n', 'list')) for _ in range(rng.choice((1, 1, 1, 2, 3, 4, 6)))]
        deps = [d if d != 'list' else rng.choice(('осн', 'алт', 'спц', 'вн,мн', 'алт,мр')) for d in deps]
        text = '[%s|%s]' % (ident, '|'.join(deps))
        e = compare(ctx, text, exts, rexts, rdict, (text, repr(exts)), mdict)
        ctx.count('governed')
        low = e.lower()
        ctx.count('special' if low == prep[2] else 'alternative' if low == prep[1] else 'first')
