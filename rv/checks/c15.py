# coding: utf-8
from rv import core, gen, real, spec

RULE = ('random and malformed template texts, declared and bound external variables that disagree, dictionaries with missing words and '
        'unspecified forms; the exact error (or success) is predicted by the model; after every failure the template, dictionary and words '
        'are compared with snapshots and used again. non-trivial: distinct (text, bindings)')
RANDOM = {'quick': 15000, 'thorough': 80000}
REQUIRE = {'UnknownVerboseIdError': 1000, 'WrongDependencyFormatError': 1000, 'NoWordsFoundError': 1000, 'ExternalDependecyNotFoundError': 1000,
           'success': 3000, 'empty_forms': 1000, 'used_after_failure': 3000, 'fuzzed': 5000, 'long_texts': 1000, 'sizes': 90, 'odd_texts': 8000, 'odd_enumerated': 8000, 'near_misses': 15000, 'names_among_items': 5000, 'nearly_properties': 5000}
FUZZ = ['[', ']', '|', ',', ' ', '%', 'a', 'hero', 'вн', 'мн', 'Вн', 'A', 'zz', '\n', '\u00a0', '', 'слово', '[a|', '|вн]', '[ ]', '[|]', '[]', ']]', '[[',
        '%s', 'загл', 'цд', 'Б', '\ud83d', '\x00', 'İ', 'ß', '.']


def units(tier):
    return [('odd', None)] + [('empty', t) for t in spec.TYPES] + [('size', i) for i in range(8 if tier == 'quick' else 40)]


def sizes(ctx, rng):
    """nothing is too long or too much"""
    world = gen.World(rng, styles=('sentinel', 'sound'), max_words=3, max_externals=4)
    if not world.names:
        world.externals['a'] = gen.external(rng, 50)
        world.names = ['a']
    built = core.Built(world)
    k = rng.choice((1100, 2500, 6000))
    name = world.names[0]
    made = [gen.marker(rng, world, messy=False) for _ in range(5)]
    for what, text, declared in (
            ('markers', ''.join(rng.choice(made) + rng.choice(('', ' ', 'а')) for _ in range(k)), world.names),
            ('dependencies', '[%s%s]' % (name, '|%s' % name * k), world.names),
            ('lists', '[%s%s]' % (name, '|мн,вн' * k), world.names),
            ('items', '[%s|%s]' % (name, ','.join(rng.choice(sorted(spec.BY_VERBOSE)) for _ in range(k))), world.names),
            ('empty items', '[%s|%s]' % (name, ',' * k), world.names),
            ('empty dependencies', '[%s%s]' % (name, '|' * k), world.names),
            ('brackets', '[' * k, world.names), ('empty brackets', '[]' * k, world.names), ('text', 'а%' * k, world.names),
            ('unknown', '[%s]' % ('я' * k), world.names), ('unknown property', '[%s|%s]' % (name, 'я' * k), world.names),
            ('variables', ''.join('[v%d]' % i for i in range(k)), ['v%d' % i for i in range(k)] + world.names)):
        mext, rext = dict(world.externals), dict(built.externals)
        if what == 'variables':
            f = gen.external(rng, 60)
            real_f = core.real_external(f)
            mext.update(('v%d' % i, f) for i in range(k))
            rext.update(('v%d' % i, real_f) for i in range(k))
        expected = core.model_render(text, declared, mext, world.dictionary)
        got = core.real_render(text, declared, rext, built.dictionary)
        ctx.ev((what, text))
        ctx.count('sizes')
        ctx.check(got.matches(expected), 'something long ends otherwise than documented', what=what, size=k, template=text[:300], expected=str(expected)[:500],
                  got=str(got)[:500])


def odd(ctx, rng):
    """each offending text that something could tidy up is reported as it is; the tidy one is known"""
    for text, other in gen.odd_pairs():
        if not gen.safe_field(text):
            continue
        known = [other] if other and gen.usable_id(other) and other != text else []
        declared = known + ([text] if rng.random() < 0.3 else [])
        mext = {n: spec.integer_form(3) for n in known}
        words = [spec.MWord('TEXT', [x]) for x in known + ['слово']]
        for pattern in ('[%s]', '[слово|%s]', '[слово|вн,%s]', '[слово|мн|%s|вн]', '[Слово| %s ]', 'а[слово] [%s|мн]'):
            source = pattern % text
            for names in (declared, [], known + [text]):
                for bound in (mext, {}):
                    expected = core.model_render(source, names, bound, spec.MDictionary(words))
                    got = core.real_render(source, names, {n: core.real_external(f) for n, f in bound.items()}, real.dictionary.Dictionary([real.W(w) for w in words]))
                    ctx.ev((source, tuple(names), bool(bound)))
                    ctx.count('odd_enumerated')
                    ctx.check(got.matches(expected), 'an operation ends otherwise than documented', template=source, declared=names, bound=sorted(bound), expected=expected, got=got)


def run_unit(ctx, kind, wtype):
    """words with every form unspecified, or one, in every role"""
    rng = ctx.rng(kind, wtype)
    if kind == 'size':
        return sizes(ctx, rng)
    if kind == 'odd':
        return odd(ctx, rng)
    n = spec.NFORMS[wtype]
    for given in [None] + list(range(0, n, max(1, n // 6))):
        forms = ['' if i != given else 'ф%d' % i for i in range(n)]
        m = spec.MForm(spec.MWord(wtype, forms, {}))
        for prep in (['в', 'во', 'во'], ['о', 'об', 'обо'], ['', '', ''], ['', 'во', '']):
            exts = {'x': m, 'p': spec.MForm(spec.MWord('PREPOSITION', prep)), 'n': spec.integer_form(rng.choice((1, 2, 5, 22)))}
            built_exts = {k: core.real_external(f) for k, f in exts.items()}
            for text in ('[x]', '[X]', '[x|загл]', '[p|x] [x|пр]', '[P|x]', '[x|n]', '[X|n|вн]', '[x|p]', '[X|p|x|загл]', '[p|p]', '[n|x]', '[p|n]'):
                expected = core.model_render(text, list(exts), exts, spec.MDictionary())
                got = core.real_render(text, list(exts), built_exts, real.dictionary.Dictionary())
                ctx.ev((wtype, given, prep[0], text))
                ctx.count('empty_forms')
                ctx.check(got.matches(expected), 'an unspecified form does not render as empty text', template=text, expected=expected, got=got, externals=exts)
        real.dictionary.Dictionary(words=[real.W(m.word)])


def mutate(rng, text):
    chars = list(text)
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(0, len(chars))
        if rng.random() < 0.5 and chars:
            del chars[min(k, len(chars) - 1)]
        else:
            chars.insert(k, rng.choice(FUZZ))
    return ''.join(chars)


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sparse', 'shared', 'sound', 'hostile', 'twins'), max_words=3)
    built = core.Built(world)
    words_before = [real.word_state(w) for w in built.words]
    template = real.templates.Template()
    template.parse('начало', externals=[])
    current = spec.MTemplate('начало', [])
    failed = False
    for _ in range(8):
        style = rng.random()
        if style < 0.45:
            text = gen.template(rng, world, markers=(1, 3), errors=0.3)
        elif style < 0.7:
            text = mutate(rng, gen.template(rng, world, markers=(1, 3), errors=0.1))
            ctx.count('fuzzed')
        else:
            text = ''.join(rng.choice(FUZZ) for _ in range(rng.randint(1, 12)))
            ctx.count('fuzzed')
        declared = [n for n in world.names if rng.random() < 0.8] + rng.sample(['ghost', 'a', 'слово', 'zz'], rng.randint(0, 2))
        bound = {n for n in world.names if rng.random() < 0.8}
        if rng.random() < 0.5 and declared:
            text += '[%s|%s]' % (rng.choice(world.names + ['нет'] + world.texts[:2]), rng.choice(declared))
            text = text if rng.random() < 0.9 else text + '[ ]'
        if rng.random() < 0.25 and world.texts + world.names:     # nearly a name
            near = gen.twin(rng, rng.choice(world.texts + world.names))
            text += rng.choice(('[%s]', '[%s|вн]', '[слово|%s]', '[слово|вн,%s]')) % near
            ctx.count('near_misses')
        if rng.random() < 0.1 and declared:     # a variable's name among other items is no property
            name = rng.choice(declared)
            text += '[%s|%s]' % (rng.choice((world.texts + world.names) or ['слово']), rng.choice(('%s,', ',%s', '%s,мн', 'мн,%s', '%s, ', '%s,%s', '%s мн', '%s.', ' ,%s,')).replace('%s', name))
            ctx.count('names_among_items')
        if rng.random() < 0.1:      # nearly property names
            a, b = rng.sample(sorted(spec.BY_VERBOSE), 2)
            text += '[%s|%s]' % (rng.choice((world.texts + world.names) or ['слово']), rng.choice(('{0} {1}', '1{0}', '{0}1', '{0}.', '{0}{1}', '{0};{1}', '{0}-', '1{0} {1}', '{0}\u00a0{1}', '{0}/{1}', '({0})', '{0},{1} {1}', '{0}\u200b', '{0}+{1}', '{0}:', '{0}ж', '{0}={1}')).format(a, b))
            ctx.count('nearly_properties')
        if rng.random() < 0.06:
            text += '[%s|%s]' % (rng.choice((world.texts + world.names) or ['слово']), gen.twin(rng, rng.choice(sorted(spec.BY_VERBOSE))))
        if rng.random() < 0.1:      # offending texts that something could tidy up
            ghost = gen.odd(rng, rng.choice(('ghost', 'слово', 'zz', 'дух 1')))
            if gen.safe_field(ghost):
                text += rng.choice(('[%s]', '[слово|%s]', '[слово|вн,%s]', '[hero|%s]')) % ghost
                ctx.count('odd_texts')
                if rng.random() < 0.5 and gen.usable_id(ghost):
                    declared.append(ghost)
        if rng.random() < 0.04:    # long offending texts
            long = ''.join(rng.choice('абвгдежзик ') for _ in range(rng.choice((40, 70, 130, 300, 1100)))).strip() + 'я'
            text += rng.choice(('[%s]', '[%s|вн]', '[слово|%s]', '[слово|вн,%s|мн]', '[слово|%s,вн]')) % long
            ctx.count('long_texts')
            if rng.random() < 0.3:
                declared.append(long)
        # parse
        expected = real.model_outcome(lambda: spec.MTemplate(text, declared) and 'parsed')
        before = template.serialize()
        got = real.Observed(lambda: template.parse(text, externals=declared) or 'parsed')
        ctx.ev((text, tuple(declared), tuple(sorted(bound))))
        ctx.check(got.matches(expected), 'parsing ends otherwise than documented', template=text, declared=declared, expected=expected, got=got)
        if expected[0] == 'err':
            ctx.count(expected[1])
            ctx.check(template.serialize() == before, 'a failed parse changed the template', template=text, declared=declared)
            ctx.check(expected[2] in [v for v in got.error.arguments.values()], 'the error does not carry the offending text', template=text, got=got,
                      arguments=got.error.arguments)
            failed = True
        else:
            current = spec.MTemplate(text, declared)
        # render what the template holds now
        mext = {n: world.externals[n] for n in bound}
        rext = {n: built.externals[n] for n in bound}
        expected = real.model_outcome(lambda: current.substitute(mext, world.dictionary))
        got = real.Observed(lambda: template.substitute(externals=rext, dictionary=built.dictionary))
        ctx.check(got.matches(expected), 'rendering ends otherwise than documented', template=current.text, bound=sorted(bound), expected=expected, got=got,
                  words=world.words, externals=world.externals)
        if failed:
            ctx.count('used_after_failure')
        if expected[0] == 'err':
            ctx.count(expected[1])
            ctx.check(expected[2] in [v for v in got.error.arguments.values()], 'the error does not carry the offending text', template=current.text,
                      got=got, arguments=got.error.arguments)
            failed = True
            ctx.sample('%s -> %s %s' % (current.text, expected[1], expected[2]))
        else:
            ctx.count('success')
    # nothing that happened above changed the words or the dictionary
    ctx.check([real.word_state(w) for w in built.words] == words_before, 'failed operations changed the words')
    for text in list(world.dictionary.index)[:10]:
        ctx.check(built.dictionary.get_word(text).form == text, 'failed operations changed the dictionary', text=text)
    missing = 'нет-такого-слова'
    got = real.Observed(lambda: built.dictionary.get_word(missing))
    ctx.check(got.matches(('err', 'NoWordsFoundError', missing)) and not built.dictionary.has_word(missing), 'an unknown word is not reported', got=got)
