# coding: utf-8
from rv import core, gen, real, spec

RULE = ('every text of random dictionaries (homonyms within and between paradigms, constant properties) is written alone as a marker and '
        'with explicit property lists; words and word forms are used as external variables and rendered alone; expected: the text itself, '
        'or the form of the same word with only the listed groups changed. non-trivial: distinct (word, text, list)')
RANDOM = {'quick': 9000, 'thorough': 120000}
REQUIRE = {'texts_alone': 60000, 'texts_with_list': 100000, 'contested_texts': 9000, 'forms_as_variable': 15000, 'words_as_variable': 3000, 'slots': 800,
           'changed_by_list': 20000, 'texts_with_variable': 10000, 'guessed_preposition': 400, 'characters': 150000}
BLOCK = 2048
ENUMERATED = 'every character of the BMP (quick) or of Unicode (thorough) inside a recognised text; every slot of every word type written alone, and with every single property of its schema'


def units(tier):
    return [('slots', t) for t in spec.TYPES] + [('chars', start) for start in range(0, 0x10000 if tier == 'quick' else 0x110000, BLOCK)]


def expected_form(form, *lists):
    return spec.select_form(form.word, spec.merge(form.props, *(list(lists) + [form.word.props])))


def chars(ctx, start):
    """a dictionary of texts that differ in one character; each is recognised as itself, in several writings"""
    texts = []
    for code in range(start, start + BLOCK):
        if 0xD800 <= code <= 0xDFFF:
            continue
        texts += [t for t in ('а%sб' % chr(code), 'ж' + chr(code), chr(code) + 'ж') if gen.usable_id(t)]
    d = real.dictionary.Dictionary(words=[real.W(spec.MWord('TEXT', [t])) for t in texts])
    for t in texts:
        ctx.count('characters')
        for marker in ('[%s]' % t, '[ %s ]' % t, '[%s|]' % t, '[%s|вн]' % t):
            ctx.ev(marker)
            got = core.real_render(marker, [], {}, d)
            ctx.check(got.matches(('ok', t)), 'a dictionary form is not recognised as itself', marker=marker, expected=t, got=got)
        got = core.real_render('[%s]' % t, [t], {t: real.words.WordForm(real.W(spec.MWord('TEXT', ['внешнее'])))}, d)
        ctx.check(got.matches(('ok', 'Внешнее' if t[0].isupper() else 'внешнее')), 'a declared variable is not recognised by its name', name=t, got=got)


def run_unit(ctx, kind, wtype):
    """one word of each type in a dictionary of its own, with and without constant properties"""
    if kind == 'chars':
        return chars(ctx, wtype)
    for const in [{}] + [{g: v} for g in spec.SCHEMA[wtype] for v in spec.GROUPS[g]]:
        m = spec.MWord(wtype, gen.sentinel_forms(3, wtype), const)
        d = real.dictionary.Dictionary(words=[real.W(m)])
        md = spec.MDictionary([m])
        for text in md.index:
            form = md.get(text)
            ctx.count('slots')
            check_text(ctx, d, {}, text, form, [])
            if const and ctx.tier == 'quick' and len(const) and hash_free(text) % 4:
                continue
            for g in spec.SCHEMA[wtype] + ('WORD_CASE', 'ASPECT'):
                for v in spec.GROUPS[g]:
                    check_text(ctx, d, {}, text, form, [{g: v}])


def hash_free(text):
    return sum(ord(c) for c in text)


def check_text(ctx, d, externals, text, form, lists):
    marker = '[%s]' % '|'.join([text] + [','.join(spec.VERBOSE[(g, v)] for g, v in p.items()) for p in lists])
    if any(field in externals for field in marker[1:-1].split('|')[1:]):
        return      # the list is named like a variable, which it then denotes (C16)
    want = expected_form(form, *lists)
    got = core.real_render(marker, list(externals), externals, d)
    ctx.ev((form.word.key(), text, repr(lists)))
    if not lists:
        ctx.count('texts_alone')
        assert want == text or form.word.props.get('WORD_CASE') == 'UPPER', (want, text)
    else:
        ctx.count('texts_with_list')
        if want != text:
            ctx.count('changed_by_list')
    ctx.check(got.matches(('ok', want)), 'a dictionary form is not recognised as itself' if not lists
              else 'a property list changes more than the listed groups of the recognised form', marker=marker, recognised=form, expected=want, got=got)


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sentinel', 'sound', 'sparse', 'shared', 'hostile', 'twins', 'natural'), max_words=5, max_externals=3, collide=False)
    built = core.Built(world)
    counted = {}
    for text, _ in world.dictionary.entries:
        counted[text] = counted.get(text, 0) + 1
    texts = [t for t in world.texts if t not in world.externals]
    for text in rng.sample(texts, min(len(texts), 14)):
        form = world.dictionary.get(text)
        if counted[text] > 1:
            ctx.count('contested_texts')
        check_text(ctx, built.dictionary, built.externals, text, form, [])
        check_text(ctx, built.dictionary, built.externals, text, form, [gen.relevant_props(rng, form.word.type) for _ in range(rng.choice((1, 1, 2)))])
    # a dictionary form that depends on a variable keeps what the variable does not ask for
    for text in rng.sample(texts, min(len(texts), 6)) if world.names else ():
        form = world.dictionary.get(text)
        marker = '[%s|%s]' % (text, '|'.join(rng.choice(world.names) for _ in range(rng.choice((1, 1, 2)))))
        expected = core.model_render(marker, world.names, world.externals, world.dictionary)
        got = core.real_render(marker, world.names, built.externals, built.dictionary)
        ctx.count('texts_with_variable')
        ctx.count('guessed_preposition', form.word.type == 'PREPOSITION' and bool(form.props))
        ctx.check(got.matches(expected), 'a recognised form loses its own properties when it depends on a variable', marker=marker, recognised=form,
                  expected=expected, got=got, externals=world.externals)
    # words and word forms as external variables
    for k in range(4):
        w = rng.choice(world.words) if world.words and rng.random() < 0.5 else gen.word(rng, 70 + k, const=rng.choice(('typical', 'none', 'any')))
        rw = real.W(w)
        given = rng.choice((None, gen.relevant_props(rng, w.type), gen.props(rng)))
        m = spec.MForm(w, given)
        f = real.words.WordForm(rw, properties=None if given is None else real.P(given))
        own = f.form if rng.random() < 0.5 else None      # used before or not
        name = rng.choice(gen.NAMES[:8])
        got = core.real_render('<[%s]>' % name, [name], {name: f}, built.dictionary)
        ctx.count('forms_as_variable' if given is not None else 'words_as_variable')
        ctx.ev((w.key(), repr(given)))
        ctx.check(got.matches(('ok', '<%s>' % m.form)), 'an external variable alone does not render its own text', properties=given, word=w, expected=m.form, got=got)
        ctx.check(f.form == m.form and own in (None, m.form), 'a word form has another text than its paradigm', properties=given, word=w, expected=m.form, got=f.form)
        p = gen.relevant_props(rng, w.type)
        text = '[%s|%s]' % (name, ','.join(spec.VERBOSE[i] for i in p.items()))
        got = core.real_render(text, [name], {name: f}, built.dictionary)
        ctx.check(got.matches(('ok', expected_form(m, p))), 'a property list changes more than the listed groups of an external variable', marker=text, word=w,
                  properties=given, expected=expected_form(m, p), got=got)
        # every form of the word as the library lists them
        for slot, af in enumerate(rw.all_forms()):
            if slot > 6:
                break
            ctx.count('forms_as_variable')
            want = spec.MForm(w, spec.slot_props(w.type, slot)).form
            got = core.real_render('[%s]' % name, [name], {name: af}, built.dictionary)
            ctx.check(got.matches(('ok', want)) and af.form == want, 'a form listed by a word does not render as itself', word=w, slot=slot, expected=want, got=got)
    if texts:
        ctx.sample('[%s] of %s' % (texts[0], world.dictionary.get(texts[0])))
