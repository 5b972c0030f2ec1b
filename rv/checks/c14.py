# coding: utf-8
import itertools
import json
import zlib

from rv import gen, real, spec

RULE = ('words with a unique text in every given slot and every kind of pattern of missing ones, autofilled once and again; enumerated: '
        'all patterns of the prepositions, one and two given slots (and one and two missing) for every type, thorough: all patterns of '
        'nouns; random: patterns of all densities, whole groups missing, constants; words used before (governed by prepositions, rendered, '
        'compared, stored) are filled and then compared with words created complete. non-trivial: distinct pattern with at least one given '
        'and one missing slot')
RANDOM = {'quick': 12000, 'thorough': 60000}
REQUIRE = {'words_used_before': 1500, 'compared_with_complete_word': 20000, 'filled_slots': 100000, 'nothing_given': 20, 'unchanged_given': 50000, 'natural_texts': 800, 'odd_texts': 900, 'odd_enumerated': 3000,
           'asked_before_and_after': 8000}
ENUMERATED = 'single and double given slots (sampled pairs for the long paradigms), single missing slots; all patterns of prepositions'


def units(tier):
    out = [('single', t) for t in spec.TYPES] + [('all', 'PREPOSITION', 0, 3), ('all', 'TEXT', 0, 1), ('all', 'INTEGER', 0, 1)]
    out += [('odd', t) for t in spec.TYPES]
    if tier == 'thorough':
        out += [('all', 'NOUN', high, 12) for high in range(64)]
    return out + [('pairs', t, k) for t in ('NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE') for k in range(4)]


def said(m, question, asked):
    if question == 0:
        return m.form(asked)
    if question == 1:
        return m.form(m.props)
    return (spec.MForm(m) if question == 2 else spec.MForm(m, asked)).form


def check(ctx, wtype, forms, const=None):
    const = const or {}
    m = spec.MWord(wtype, forms, const)
    w = real.W(m)
    want = spec.autofill(wtype, forms)
    given = sum(1 for f in forms if f)
    ctx.ev((wtype, tuple(forms)), 0 < given < len(forms))
    ctx.count('nothing_given', given == 0)
    # the last question before and the first one after are the same
    k = zlib.crc32(repr(forms).encode()) % len(forms)
    asked = spec.slot_props(wtype, k)
    question = (lambda: w.form(real.P(asked)), w.normal_form, lambda: real.words.WordForm(w).form, lambda: real.words.WordForm(w, properties=real.P(asked)).form)[k % 4]
    ctx.check(question() == said(m, k % 4, asked), 'a form of an incomplete word is wrong', word=m, asked=asked, question=k % 4)
    w.autofill_missed_forms()
    after = list(w.forms)
    full = spec.MWord(wtype, after, const)
    ctx.check(question() == said(full, k % 4, asked), 'a form asked before autofill is not the filled one afterwards',
              word=m, asked=asked, question=k % 4)
    ctx.count('asked_before_and_after')
    ctx.check(len(after) == len(forms), 'autofill changed the number of forms', word_type=wtype, forms=forms, got=after)
    for slot, texts in enumerate(want):
        if after[slot] not in texts:
            if forms[slot]:
                ctx.fail('autofill changed a given form', word_type=wtype, forms=forms, slot=slot, got=after[slot])
            ctx.fail('autofill took a missing form from another combination than the nearest given one', word_type=wtype, forms=forms, slot=slot,
                     combination=spec.SLOTS[wtype][slot], expected=texts, got=after[slot])
        ctx.count('unchanged_given' if forms[slot] else 'filled_slots')
    ctx.check(w.type is real.wtype(wtype) and real.props_of(w.properties) == const, 'autofill changed the type or the properties', word_type=wtype)
    if given:
        ctx.check(all(after), 'autofill left a form missing', word_type=wtype, forms=forms, got=after)
    w.autofill_missed_forms()
    ctx.check(list(w.forms) == after, 'repeating autofill changed the word', word_type=wtype, forms=forms, before=after, after=w.forms)


def pattern(wtype, given):
    forms = gen.sentinel_forms(6, wtype)
    return [f if i in given else '' for i, f in enumerate(forms)]


def run_unit(ctx, kind, wtype, *args):
    n = spec.NFORMS[wtype]
    if kind == 'single':
        check(ctx, wtype, [''] * n)
        for i in range(n):
            check(ctx, wtype, pattern(wtype, {i}))
            check(ctx, wtype, pattern(wtype, set(range(n)) - {i}))
        check(ctx, wtype, pattern(wtype, set(range(n))))
        ctx.sample('%s: single given, single missing' % wtype)
    elif kind == 'all':
        high, bits = args
        for low in range(2 ** bits):
            mask = high * 2 ** bits + low
            check(ctx, wtype, pattern(wtype, {i for i in range(n) if mask >> i & 1}))
    elif kind == 'odd':     # every text that something could tidy up is given, alone and beside others
        rng = ctx.rng(kind, wtype)
        for k, (text, other) in enumerate(gen.odd_pairs()):
            given = set(rng.sample(range(n), rng.randint(1, min(n, 3))))
            forms = [f and (text if i == min(given) else other or f) for i, f in enumerate(pattern(wtype, given))]
            check(ctx, wtype, forms)
            ctx.count('odd_enumerated')
    elif kind == 'pairs':
        rng = ctx.rng(kind, wtype, args[0])
        pairs = [p for k, p in enumerate(itertools.combinations(range(n), 2)) if k % 4 == args[0]]
        for p in (pairs if len(pairs) < 60 else rng.sample(pairs, 60)):
            check(ctx, wtype, pattern(wtype, set(p)))
            check(ctx, wtype, pattern(wtype, set(range(n)) - set(p)))


SOUNDS = ('сон', 'сна', 'сну', 'снам', 'лоб', 'лба', 'рта', 'рот', 'день', 'дня', 'льна', 'мох', 'мха', 'о', 'внук', 'всех', 'явь', 'иву', 'стол', 'озеро', 'молоко')
PREPOSITIONS = (['в', 'во', 'вв'], ['с', 'со', 'сс'], ['о', 'об', 'обо'], ['над', 'надо', 'надд'], ['у', 'уу', 'ууу'])


def behaviour(word, form, queries):
    """what users see of the word and of a form of it"""
    d = real.dictionary.Dictionary()
    out = [word.normal_form(), word.form(real.P({})), form.form, word.serialize()]
    for p in queries:
        out.append(word.form(real.P(p)))
    for forms in PREPOSITIONS:
        t = real.T('[п|х]', ['п', 'х'])
        out.append(t.substitute(externals={'п': real.words.WordForm(real.W(spec.MWord('PREPOSITION', forms))), 'х': form}, dictionary=d))
        derived = real.words.WordForm(word, properties=real.P(queries[0]))
        out.append(t.substitute(externals={'п': real.words.WordForm(real.W(spec.MWord('PREPOSITION', forms))), 'х': derived}, dictionary=d))
    for p in queries:
        t = real.T('[Х|%s]' % ','.join(spec.VERBOSE[x] for x in p.items()), ['х'])
        out.append(t.substitute(externals={'х': form}, dictionary=d))
    return out


def used_before(ctx, rng):
    """a word is used while incomplete, completed, and must then be as if created complete"""
    wtype = rng.choice(('NOUN', 'NOUN', 'PRONOUN', 'ADJECTIVE', 'VERB', 'PARTICIPLE', 'PREPOSITION'))
    n = spec.NFORMS[wtype]
    p = rng.choice((0.1, 0.3, 0.6, 0.9))
    texts = SOUNDS if rng.random() < 0.8 else [gen.natural_text(rng) for _ in range(6)]
    forms = [rng.choice(texts) if rng.random() < p else '' for _ in range(n)]
    const = gen.const_props(rng, wtype, rng.choice(('typical', 'typical', 'any')))
    m = spec.MWord(wtype, forms, const)
    word = real.W(m)
    asked = gen.relevant_props(rng, wtype)
    form = real.words.WordForm(word, properties=real.P(asked))
    queries = [gen.relevant_props(rng, wtype) for _ in range(3)]
    queries = [{k: v for k, v in q.items() if k != 'WORD_TYPE'} for q in queries]
    for _ in range(rng.randint(0, 2)):
        behaviour(word, form, queries)
        (word == real.W(m), hash(word), hash(form), str(word.properties), [f.form for f in word.all_forms()])
        ctx.count('words_used_before')
    word.autofill_missed_forms()
    full = list(word.forms)
    want = spec.autofill(wtype, forms)
    ctx.check(len(full) == n and all(f in texts for f, texts in zip(full, want)), 'autofill of a used word fills other forms', word=m, got=full)
    complete = spec.MWord(wtype, full, const)
    other = real.W(complete)
    ctx.check(word == other and other == word and hash(word) == hash(other), 'a filled word differs from a word created complete', word=m, forms=full)
    got = behaviour(word, form, queries)
    expected = behaviour(other, real.words.WordForm(other, properties=real.P(asked)), queries)
    ctx.check(got == expected, 'a word used before it was filled behaves differently from a word created complete', word=m, forms=full,
              asked=asked, queries=queries, expected=expected, got=got)
    ctx.check(got[2] == spec.MForm(complete, asked).form, 'a form of a filled word has another text', word=m, got=got[2])
    restored = real.words.Word.deserialize(json.loads(json.dumps(word.serialize())))
    ctx.check(restored == word and real.word_state(restored) == real.word_state(other), 'a filled word is stored differently', word=m)
    ctx.count('compared_with_complete_word', len(got))
    ctx.ev((wtype, tuple(forms), 'used'), any(forms) and not all(forms))


def run_random(ctx, rng):
    if rng.random() < 0.2:
        return used_before(ctx, rng)
    wtype = rng.choice(('NOUN', 'NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'VERB', 'PARTICIPLE', 'PREPOSITION'))
    n = spec.NFORMS[wtype]
    mode = rng.random()
    if mode < 0.5:
        p = rng.choice((0.02, 0.1, 0.3, 0.5, 0.8, 0.95))
        given = {i for i in range(n) if rng.random() < p} if rng.random() < 0.7 else set(rng.sample(range(n), min(n, rng.randint(1, 4))))
    else:   # only the combinations with some values, or the first few, as users do
        if mode < 0.7:
            given = set(range(rng.randint(1, n)))
        else:
            wanted = gen.relevant_props(rng, wtype, 0.4)
            given = {i for i, key in enumerate(spec.SLOTS[wtype]) if all(v is None or wanted.get(g, v) == v for g, v in zip(spec.SCHEMA[wtype], key))}
    forms = pattern(wtype, given)
    if rng.random() < 0.3:      # repeated texts
        forms = [f and rng.choice(('аа', 'бб', 'вв')) for f in forms]
    if rng.random() < 0.1:      # texts that are unusual but given
        forms = [f and rng.choice((' ', '0', '-', f)) for f in forms]
    if rng.random() < 0.15:     # any letters, capitals, several words
        forms = [f and gen.natural_text(rng) for f in forms]
        ctx.count('natural_texts')
    if rng.random() < 0.15:     # fragments that something could tidy up, long texts
        forms = [f and (gen.odd(rng, f) if rng.random() < 0.9 else f * 100) for f in forms]
        ctx.count('odd_texts')
    check(ctx, wtype, forms, gen.const_props(rng, wtype, rng.choice(('none', 'typical', 'any'))))
