# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('a dependent word with a unique text per slot, a number and the rendered marker; enumerated: dependent type x numeral class '
        '(several numbers each) x case x animacy x gender x dependency mode x explicit number x where the properties are written; '
        'random: all other groups, two governing words, external and dictionary words, numbers of any size. non-trivial: distinct '
        '(type, class, resolved properties)')
RANDOM = {'quick': 20000, 'thorough': 150000}
REQUIRE = {'agreements': 30000, 'semantic': 5000, 'unaffected_types': 300, 'dictionary_words': 500, 'hand_made_numbers': 2000, 'long_chains': 250}
ENUMERATED = 'type x numeral class x case x animacy x gender x mode x number x position of the number in the marker'
NUMBERS = {'SINGULAR': (1, 21, 101, -1, -31), 'DUAL': (2, 3, 4, -3), 'COMPOSITE_DUAL': (22, 33, 104, -24), 'PLURAL': (0, 5, 11, 12, 14, 111, 10019, -13),
           'MIL_BIL': (10 ** 6, 10 ** 9, -10 ** 6)}
DEPENDENT = spec.NOUNLIKE + spec.ADJLIKE


def units(tier):
    return [('table', t, cls, case) for t in DEPENDENT for cls in NUMBERS for case in spec.GROUPS['CASE']] + [('unaffected',)] + [('chains', t) for t in DEPENDENT]


def compare(ctx, text, exts, rexts, mdict, rdict, key):
    expected = core.model_render(text, list(exts), exts, mdict)
    got = core.real_render(text, list(exts), rexts, rdict)
    ctx.ev(key)
    ctx.check(got.matches(expected), 'a word depending on a number has another form than the rules of numeral agreement give',
              template=text, expected=expected, got=got, externals=exts)
    return expected


def extra_contexts(wtype, rng):
    """values of the other groups of the paradigm"""
    if wtype == 'VERB':
        return [{'VERB_FORM': f, 'TIME': t, 'PERSON': p} for f in ('INDICATIVE', 'IMPERATIVE', 'INFINITIVE') for t in spec.GROUPS['TIME']
                for p in (('FIRST', 'SECOND', 'THIRD') if f != 'IMPERATIVE' else ('SECOND',))]
    if wtype == 'ADJECTIVE':
        return [{'ADJECTIVE_FORM': f, 'GRADE': g} for f in spec.GROUPS['ADJECTIVE_FORM'] for g in spec.GROUPS['GRADE']]
    if wtype == 'PARTICIPLE':
        return [{'PARTICIPLE_FORM': f, 'TIME': g} for f in spec.GROUPS['PARTICIPLE_FORM'] for g in spec.GROUPS['TIME']]
    if wtype == 'NOUN':
        return [{}, {'NOUN_FORM': 'NORMAL'}, {'NOUN_FORM': 'COUNTABLE'}]
    return [{}, {'PERSON': 'FIRST'}]


def run_unit(ctx, kind, *args):
    rng = ctx.rng(kind, *args)
    mdict, rdict = spec.MDictionary(), real.dictionary.Dictionary()
    if kind == 'chains':
        wtype = args[0]
        others = [g for g in spec.PLAIN_GROUPS if g not in spec.SCHEMA[wtype] and g not in ('WORD_CASE', 'INTEGER_FORM', 'DEPENDENCY_MODE', 'ANIMALITY')]
        for _ in range({'quick': 60, 'thorough': 600}[ctx.tier]):
            exts = {'x': spec.MForm(spec.MWord(wtype, gen.sentinel_forms(7, wtype)), gen.relevant_props(rng, wtype)), 'n': spec.integer_form(gen.integer(rng)), 'm': spec.integer_form(gen.integer(rng))}
            for i in range(rng.choice((1, 3, 20))):
                exts['y%d' % i] = spec.MForm(gen.word(rng, 20 + i, wtype=rng.choice(('TEXT', 'NOUN', 'ADJECTIVE')), style='sentinel', const='none'), gen.props(rng, others, p=0.1, word_type=0))
            names = [k for k in exts if k[0] == 'y']
            text = gen.long_chain(rng, 'x', rng.choice((['n'], ['n'], ['n', 'm'], ['n', spec.VERBOSE[('CASE', rng.choice(spec.GROUPS['CASE']))]])), names, others)
            ctx.count('long_chains')
            compare(ctx, text, exts, {k: core.real_external(f) for k, f in exts.items()}, mdict, rdict, (text, repr(exts)))
        return
    if kind == 'unaffected':
        for wtype in ('INTEGER', 'TEXT', 'PREPOSITION'):
            for n in (0, 1, 2, 5, 11, 21, 22, 10 ** 6):
                for mode in spec.GROUPS['DEPENDENCY_MODE']:
                    for case in spec.GROUPS['CASE']:
                        for pform in spec.GROUPS['PREPOSITION_FORM']:
                            # texts that no rule for prepositions reacts to
                            exts = {'x': spec.MForm(spec.MWord(wtype, gen.sentinel_forms(11, wtype)), {'PREPOSITION_FORM': pform}), 'n': spec.integer_form(n)}
                            rexts = {k: core.real_external(f) for k, f in exts.items()}
                            ctx.count('unaffected_types')
                            text = '[x|n|%s,%s]' % (spec.VERBOSE[('DEPENDENCY_MODE', mode)], spec.VERBOSE[('CASE', case)])
                            compare(ctx, text, exts, rexts, mdict, rdict, (wtype, n, mode, case, pform))
        return
    wtype, cls, case = args
    forms = gen.sentinel_forms(9, wtype)
    numbers = {n: (spec.integer_form(n), real.constructors.construct_integer(n)) for n in NUMBERS[cls]}
    for extra in extra_contexts(wtype, rng):
        for anim, gender in itertools.product(spec.GROUPS['ANIMALITY'], spec.GROUPS['GENDER']):
            const = {'ANIMALITY': anim, 'GENDER': gender} if wtype == 'NOUN' else {}
            asked = {} if wtype == 'NOUN' else {'ANIMALITY': anim, 'GENDER': gender}
            base = spec.MForm(spec.MWord(wtype, forms, const), extra)
            rbase = core.real_external(base)
            for mode, number in itertools.product(spec.GROUPS['DEPENDENCY_MODE'] + [None], (None, 'SINGULAR', 'PLURAL')):
                p = spec.merge({'CASE': case}, asked, {'DEPENDENCY_MODE': mode} if mode else {}, {'NUMBER': number} if number else {})
                items = list(p.items())
                rng.shuffle(items)
                listed = ','.join(spec.VERBOSE[i] for i in items)
                n = rng.choice(NUMBERS[cls])
                exts = {'x': base, 'n': numbers[n][0]}
                rexts = {'x': rbase, 'n': numbers[n][1]}
                for text in ('[x|n|%s]' % listed, '[x|%s|n]' % listed):
                    ctx.count('agreements')
                    ctx.count('semantic', mode == 'SEMANTIC')
                    e = compare(ctx, text, exts, rexts, mdict, rdict, (wtype, cls, case, anim, gender, mode, number, tuple(extra.items()), text[3] == 'n'))
        ctx.sample('%s %d %s -> %s' % (text, n, p, e[1]))


def run_random(ctx, rng):
    wtype = rng.choice(DEPENDENT if rng.random() < 0.9 else spec.TYPES)
    mword = spec.MWord(wtype, gen.sentinel_forms(rng.randrange(40), wtype), gen.const_props(rng, wtype, rng.choice(('typical', 'typical', 'any', 'none'))))
    mdict = spec.MDictionary([mword])
    rdict = real.dictionary.Dictionary([real.W(mword)])
    exts = {'n': spec.integer_form(gen.integer(rng)), 'm': spec.integer_form(gen.integer(rng)),
            'hero': gen.external(rng, 60, style='sentinel', wtype=rng.choice(('NOUN', 'PRONOUN', 'TEXT', 'ADJECTIVE'))),
            'x': spec.MForm(mword, gen.relevant_props(rng, wtype))}
    if rng.random() < 0.2:    # an integer-like word built by hand, with arbitrary properties
        groups = ['INTEGER_FORM', 'NUMBER', 'CASE', 'GENDER', 'DEPENDENCY_MODE', 'ANIMALITY', 'NOUN_FORM', 'PERSON']
        if rng.random() < 0.5:
            groups = list(spec.PLAIN_GROUPS)
        exts['n'] = spec.MForm(spec.MWord('INTEGER', ['7'], gen.props(rng, groups, p=0.4)), gen.props(rng, groups, p=0.4) if rng.random() < 0.5 else None)
        ctx.count('hand_made_numbers')
    elif rng.random() < 0.3:  # a number used with properties of its own
        exts['n'] = spec.MForm(exts['n'].word, gen.props(rng, p=rng.choice((0.1, 0.3))))
        ctx.count('numbers_with_properties')
    rexts = {k: core.real_external(f) for k, f in exts.items()}
    for _ in range(4):
        usable = [f for f in mword.forms if mdict.has(f) and gen.usable_id(f)] or ['x']
        ident = rng.choice(usable) if rng.random() < 0.5 else 'x'
        deps = [rng.choice(('n', 'n', 'm', 'hero', 'list')) for _ in range(rng.choice((1, 1, 2, 2, 3)))] + (['n'] if rng.random() < 0.5 else [])
        rng.shuffle(deps)
        fields = []
        for d in deps:
            if d == 'list':
                p = gen.relevant_props(rng, wtype, 0.4)
                for g in ('DEPENDENCY_MODE', 'INTEGER_FORM', 'ANIMALITY', 'GENDER', 'CASE', 'NUMBER'):
                    if rng.random() < 0.3:
                        p[g] = rng.choice(spec.GROUPS[g])
                p.pop('WORD_CASE', None)
                d = ','.join(spec.VERBOSE[i] for i in p.items())
            fields.append(d)
        text = '[%s|%s]' % (ident, '|'.join(fields))
        ctx.count('agreements')
        ctx.count('dictionary_words', ident != 'x')
        compare(ctx, text, exts, rexts, mdict, rdict, (text, wtype, exts['n'].form, exts['m'].form, repr(exts['hero'].props)))
