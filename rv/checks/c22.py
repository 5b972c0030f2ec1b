# coding: utf-8
from rv import core, gen, real, spec

RULE = ('random templates over dictionaries and external variables some of which lack the words used; the report is compared with the model, '
        'with the outcome of the rendering and with the report after adding words that contain the reported texts, one by one. '
        'non-trivial: distinct (template, report) with a non-empty report')
RANDOM = {'quick': 9000, 'thorough': 120000}
REQUIRE = {'reports': 15000, 'non_empty': 8000, 'repeated_words': 500, 'predicted_failures': 3000, 'predicted_successes': 3000, 'completed': 5000,
           'shadowed_by_external': 500, 'massive_reports': 3,
           'long_words': 500, 'many_variables': 300, 'similar_words': 1500, 'odd_enumerated': 900}
MISSING = ('нет', 'слово', 'неизвестное слово', 'zz', 'мн', 'вн,мр', '%s', '1', 'вечером', 'q\\')


def units(tier):
    return [('massive', 0), ('odd', 0)]


def run_unit(ctx, kind, k):
    if kind == 'odd':
        return odd(ctx, ctx.rng(kind, k))
    """thousands of markers, each word reported once per occurrence, in order"""
    rng = ctx.rng(kind, k)
    world = gen.World(rng, styles=('sentinel', 'natural'), max_words=4)
    built = core.Built(world)
    unknown = ['неизвестное%d' % i for i in range(1500)]
    ids = [rng.choice(unknown) if rng.random() < 0.7 or not world.texts + world.names else rng.choice(world.texts + world.names) for _ in range(5000)]
    text = ' '.join('[%s]' % x for x in ids)
    t, m = real.T(text, world.names), spec.MTemplate(text, world.names)
    while True:
        expected = m.missing(world.externals, world.dictionary)
        got = t.get_undictionaried_words(built.externals, built.dictionary)
        ctx.count('massive_reports')
        ctx.check(list(got) == expected, 'the report of missing words of a large template is wrong', expected=len(expected), got=len(got))
        if not expected:
            break
        for x in sorted(set(rng.sample(expected, len(expected) // 2 + 1))):
            w = spec.MWord('TEXT', [x])
            world.dictionary.add(w)
            built.dictionary.add_word(real.W(w))
    got = core.real_render(text, world.names, built.externals, built.dictionary)
    ctx.check(got.matches(core.model_render(text, world.names, world.externals, world.dictionary)), 'a template without missing words is not rendered')


def odd(ctx, rng):
    """texts that something could tidy up: the tidy one is known, as a word or a variable, and the other one is not"""
    for text, other in gen.odd_ids():
        known = other or text + 'и'
        for how in range(4):
            ids = [text, known, text] if how % 2 else [known, text]
            words = [spec.MWord('TEXT', [x]) for x in ((known,) if how < 2 else (text,))]
            mext = {} if rng.random() < 0.5 else {(text if how < 2 else known) + 'я': spec.integer_form(5)}
            if how == 3:
                mext[known] = spec.integer_form(7)
            dictionary, rdict = spec.MDictionary(words), real.dictionary.Dictionary([real.W(w) for w in words])
            source = ' '.join('[%s]' % x for x in ids)
            m, t = spec.MTemplate(source, list(mext)), real.T(source, list(mext))
            rext = {n: core.real_external(f) for n, f in mext.items()}
            expected = m.missing(mext, dictionary)
            got = list(t.get_undictionaried_words(externals=rext, dictionary=rdict))
            ctx.count('odd_enumerated')
            ctx.ev(('odd', source, how), bool(expected))
            ctx.check(got == expected, 'the report of missing words is wrong', template=source, bound=sorted(mext), expected=expected, got=got, words=words)
            outcome = real.model_outcome(lambda: m.substitute(mext, dictionary))
            seen = real.Observed(lambda: t.substitute(externals=rext, dictionary=rdict))
            ctx.check(seen.matches(outcome), 'the rendering ends otherwise than predicted', template=source, report=expected, expected=outcome, got=seen)


def templates(rng, world, unknown):
    text = gen.literal(rng, hostile=False)
    pool = list(world.names) + list(rng.sample(world.texts, min(4, len(world.texts))))
    for _ in range(rng.randint(1, 6) if rng.random() < 0.995 else rng.randint(50, 150)):
        ident = rng.choice(unknown) if rng.random() < 0.45 or not pool else rng.choice(pool)
        spelled = ident
        if rng.random() < 0.4:
            candidate = ''.join(c.upper() if rng.random() < 0.5 else c for c in ident)
            if candidate.lower() == ident:
                spelled = candidate
        spelled = rng.choice(gen.SPACES) + spelled + rng.choice(gen.SPACES)
        deps = []
        for _ in range(rng.choice((0, 0, 1, 2))):
            deps.append(rng.choice(world.names) if world.names and rng.random() < 0.5 else gen.spell_props(rng, gen.props(rng, p=0.2)))
        text += '[%s]' % '|'.join([spelled] + deps) + gen.literal(rng, hostile=False)
    return text


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sound', 'shared', 'sparse'), max_words=3)
    built = core.Built(world)
    unknown = rng.sample(MISSING, rng.randint(1, 4))
    if rng.random() < 0.15:       # long texts, that differ at their very ends or are cut
        base = ''.join(rng.choice('абвгд ж') for _ in range(rng.choice((15, 20, 30, 40, 64, 80, 130, 300)))).strip() or 'ж'
        unknown += [base + 'у', base + 'ю', 'ю' + base, base]
        ctx.count('long_words')
    if rng.random() < 0.3:        # look like each other, or like known ones
        known = rng.choice(unknown + world.texts + world.names)
        near = [rng.choice((gen.twin(rng, known), gen.odd(rng, known))) for _ in range(3)]
        unknown += [x for x in near if gen.usable_id(x)]
        ctx.count('similar_words')
    text = templates(rng, world, unknown)
    m = spec.MTemplate(text, world.names)
    t = real.T(text, world.names)
    if rng.random() < 0.2:
        t = real.templates.Template.deserialize(t.serialize())
    bound = [n for n in world.names if rng.random() < 0.75]
    mext = {n: world.externals[n] for n in bound}
    rext = {n: built.externals[n] for n in bound}
    if rng.random() < 0.3:      # a variable with the name of an unknown or known word
        name = rng.choice(unknown + world.texts[:2])
        f = gen.external(rng, 90)
        mext[name], rext[name] = f, core.real_external(f)
        ctx.count('shadowed_by_external')
    if rng.random() < 0.1:        # many variables, some with the names of words
        for i in range(rng.choice((5, 8, 12, 20, 40, 100))):
            name = 'имя%d' % i if rng.random() < 0.9 else rng.choice(unknown + world.texts[:4])
            f = gen.external(rng, 91 + i)
            mext[name], rext[name] = f, core.real_external(f)
        ctx.count('many_variables')
    added = 0
    while True:
        expected = m.missing(mext, world.dictionary)
        stored, known, snap = t.serialize(), sorted(x for x in unknown + world.texts if built.dictionary.has_word(x)), [real.form_state(f) for f in rext.values()]
        listed = {real.word_state(w) for w in built.dictionary.get_words()}
        for _ in range(2):
            got = t.get_undictionaried_words(externals=rext, dictionary=built.dictionary)
            ctx.check(list(got) == expected, 'the report of missing words is wrong', template=text, bound=sorted(mext), expected=expected, got=got, words=world.words)
            if isinstance(got, list):
                got.append('мусор')     # the report is the caller's
        ctx.check(t.serialize() == stored and known == sorted(x for x in unknown + world.texts if built.dictionary.has_word(x)) and
                  snap == [real.form_state(f) for f in rext.values()] and listed == {real.word_state(w) for w in built.dictionary.get_words()},
                  'asking for the report changed something', template=text)
        ctx.count('reports')
        ctx.ev((text, tuple(expected)), bool(expected))
        if expected:
            ctx.count('non_empty')
        if len(set(expected)) < len(expected):
            ctx.count('repeated_words')
        # what the report predicts
        outcome = real.model_outcome(lambda: m.substitute(mext, world.dictionary))
        got = real.Observed(lambda: t.substitute(externals=rext, dictionary=built.dictionary))
        ctx.check(got.matches(outcome), 'the rendering ends otherwise than predicted', template=text, report=expected, expected=outcome, got=got)
        unknown_word = got.error is not None and isinstance(got.error, real.exceptions.NoWordsFoundError)
        if unknown_word:
            ctx.count('predicted_failures')
            ctx.check(expected and got.error.arguments.get('text') == expected[0], 'a rendering fails for another word than the first reported', template=text,
                      report=expected, got=got)
        elif got.error is None:
            ctx.count('predicted_successes')
            ctx.check(not expected, 'a rendering succeeds although words are reported', template=text, report=expected, got=got)
        if not expected:
            break
        target = rng.choice(expected)
        wtype = rng.choice(spec.TYPES)
        forms = gen.sentinel_forms(200 + added, wtype)
        forms[rng.randrange(len(forms))] = target
        w = spec.MWord(wtype, forms)
        world.dictionary.add(w)
        built.dictionary.add_word(real.W(w))
        added += 1
        if not world.dictionary.has(target):
            raise AssertionError(target)
    if added:
        ctx.count('completed')
    ctx.sample('%s with %s' % (text, sorted(mext)))
