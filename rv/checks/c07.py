# coding: utf-8
import itertools

from rv import gen, real, spec

RULE = ('dictionaries of words sharing many texts (homonyms inside one paradigm, between words of one type and between types, equal '
        'words, empty forms, constant properties), filled in all permutations of up to four words or in random orders, with every text '
        'looked up after every addition; non-trivial: a looked-up text owned by at least two forms')
RANDOM = {'quick': 5000, 'thorough': 45000}
REQUIRE = {'lookups': 100000, 'contested_texts': 10000, 'orders': 5000, 'unknown_texts': 5000, 'replaced_answers': 500, 'large_dictionaries': 8, 'refilled_words': 100, 'similar_texts': 100000, 'texts_among_thousands': 50000, 'odd_enumerated': 5000}
AWKWARD = ('аа', 'а', 'ааа', 'аа а', 'аа\tа', 'аа!', 'а аа', ' ', 'аа ', 'Аа', 'аа-аа', 'аа,аа', '\x00', 'аа\x00', 'ёж', 'еж', 'яя', 'z', '\U0001F600', '\uffff', '10', '9', 'аа9', 'аа10')
UNKNOWN = ('нет такого', 'АА', ' аа', 'аа ', 'а', '%')


def units(tier):
    return [('odd', k) for k in range(8)] + [('massive', k) for k in range(2)] + [('pair', a, b) for a, b in itertools.combinations_with_replacement(spec.TYPES, 2)]


def make_words(rng, n, types=None):
    words = []
    texts = ('аа', 'бб', 'вв', 'гг', 'дд', 'ее') if rng.random() < 0.6 else AWKWARD
    pool = [rng.choice(texts) for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.2:
        pool = [gen.natural_text(rng) if rng.random() < 0.7 else ''.join(rng.choice(gen.LETTERS + ' -.') for _ in range(rng.randint(1, 3))) for _ in pool]
    for i in range(n):
        wtype = rng.choice(types or spec.TYPES)
        if words and rng.random() < 0.25:      # equal or nearly equal to an earlier word
            w0 = rng.choice(words)
            forms = list(w0.forms)
            if rng.random() < 0.5:
                forms[rng.randrange(len(forms))] = rng.choice(pool)
            words.append(spec.MWord(w0.type, forms, w0.props if rng.random() < 0.5 else gen.const_props(rng, w0.type)))
            continue
        forms = [rng.choice(pool) if rng.random() < 0.8 else '' if rng.random() < 0.3 else rng.choice(pool) + gen.uid_text(i) + str(k)
                 for k in range(spec.NFORMS[wtype])]
        words.append(spec.MWord(wtype, forms, gen.const_props(rng, wtype, rng.choice(('typical', 'typical', 'none', 'any')))))
    return words


def rank(form):
    return (form.word.type.name, tuple(form.word.forms))


def run_order(ctx, order, texts, full):
    mdict = spec.MDictionary()
    rdict = real.dictionary.Dictionary()
    answers = {}
    for k, w in enumerate(order):
        mdict.add(w)
        rdict.add_word(real.W(w))
        last = k == len(order) - 1
        if not (full or last):
            continue
        compare(ctx, mdict, rdict, texts, order[:k + 1])
        for text in answers:
            now = rdict.get_word(text)
            if rank(now) != answers[text]:
                ctx.count('replaced_answers')
        answers = {t: rank(rdict.get_word(t)) for t in texts if rdict.has_word(t)}
    ctx.count('orders')
    # filling through the constructor is the same
    again = real.dictionary.Dictionary(words=[real.W(w) for w in order])
    compare(ctx, mdict, again, texts, order, keep=len(texts) < 30)
    return mdict, again


def compare(ctx, mdict, rdict, texts, added, keep=False):
    for text in texts:
        expected = mdict.get(text)
        ctx.count('lookups')
        ctx.ev((text, tuple(w.key() for w in added)), expected is not None)
        ctx.check(rdict.has_word(text) == (expected is not None), 'has_word is wrong', text=text, words=added, expected=expected)
        got = real.Observed(lambda: rdict.get_word(text))
        if expected is None:
            ctx.count('unknown_texts')
            ctx.check(got.matches(('err', 'NoWordsFoundError', text)), 'an unknown text is not reported by its error', text=text, got=got)
            continue
        ctx.check(got.error is None, 'a known text is not found', text=text, words=added, got=got)
        state = real.form_state(got.value)
        ctx.check(state[0] == expected.word.key(), 'the dictionary returned a form of another word', text=text, words=added,
                  expected=expected, got=state)
        ctx.check(dict(state[1]) == expected.props, 'the dictionary returned another form of the word', text=text, words=added,
                  expected=expected.props, got=state[1])
        ctx.check(got.value.form == text, 'the dictionary returned a form with another text', text=text, got=got.value.form)
        if keep:
            ctx.keep(lambda f=got.value: real.form_state(f), state, 'an answer of the dictionary', text=text)
    owners = {f.word.key() for _, f in mdict.index.values()}
    listed = [real.word_state(w) for w in rdict.get_words()]
    ctx.check(set(listed) == owners and len(listed) == len(owners), 'the words listed are not exactly the owners of answers', words=added,
              expected=owners, got=listed)


def near(rng, text):
    """texts that are easily taken for this one"""
    return [gen.twin(rng, text), rng.choice((text + ' ', ' ' + text, text.upper(), text.capitalize(), text.lower(), text.title(), text.strip()))]


def texts_of(words, rng=None):
    md = spec.MDictionary(words)
    others = [gen.natural_text(rng) for _ in range(2)] + near(rng, rng.choice(sorted(md.index))) if rng and md.index and rng.random() < 0.4 else []
    return sorted(md.index) + list(UNKNOWN) + others + sorted({f for w in words for f in w.forms if f not in md.index})


def massive(ctx, k):
    """thousands of words: every text is known and answered, before and after they are added again, in any order"""
    rng = ctx.rng('massive', k)
    words = [gen.word(rng, i, wtype=rng.choice(('NOUN', 'TEXT', 'VERB', 'PREPOSITION', 'PRONOUN')), style='sentinel', const='none') for i in range(2500)]
    words += [gen.word(rng, 10000 + i, wtype=rng.choice(('TEXT', 'NOUN')), style=rng.choice(('natural', 'twins')), const='none') for i in range(200)]
    mdict = spec.MDictionary(words)
    texts = sorted(mdict.index)
    rdict = real.dictionary.Dictionary()
    made = [real.W(w) for w in words]
    for again in range(2):
        for w in made if not again else rng.sample(made, 500):
            rdict.add_word(w)
        for text in rng.sample(texts, len(texts)):
            got = real.Observed(lambda: rdict.get_word(text))
            ctx.count('texts_among_thousands')
            ctx.check(rdict.has_word(text) and got.error is None and got.value.form == text and real.word_state(got.value.word) == mdict.get(text).word.key(),
                      'a text of a large dictionary is not answered', text=text, texts=len(texts), got=got)
        for text in rng.sample(texts, 3000):
            for other in near(rng, text):
                ctx.check(rdict.has_word(other) == mdict.has(other), 'has_word is wrong in a large dictionary', text=other)
    ctx.ev(('massive', k))
    owners = {f.word.key() for _, f in mdict.index.values()}
    if k == 0:
        listed = [real.word_state(w) for w in rdict.get_words()]
        ctx.check(set(listed) == owners and len(listed) == len(owners), 'the words listed are not exactly the owners of answers', words=len(words))


def odd(ctx, rng, part):
    """words that share a text and differ in texts that something could tidy up to be the same"""
    for text, other in list(gen.odd_pairs())[part::8]:
        x, y = text, other
        lists = [['аа', x, 'яя'], ['аа', y, 'юю'], ['аа', x, 'бб'], ['аа', y, 'вв']]
        for pair in itertools.permutations(lists, 2):
            words = [spec.MWord('PREPOSITION', list(forms)) for forms in pair]
            ctx.count('odd_enumerated')
            run_order(ctx, words, texts_of(words, rng), True)
        n = spec.NFORMS['NOUN']
        for i, j in ((1, 2), (n - 2, n - 1)):
            a, b = ['ф%d' % k for k in range(n)], ['ф%d' % k for k in range(n)]
            a[i], b[i] = x, y
            a[j], b[j] = rng.choice((('м', 'н'), ('н', 'м')))
            words = [spec.MWord('NOUN', a), spec.MWord('NOUN', b)]
            for order in (words, words[::-1]):
                ctx.count('odd_enumerated')
                run_order(ctx, order, texts_of(words, rng), True)


def run_unit(ctx, kind, a, b=None):
    if kind == 'massive':
        return massive(ctx, a)
    rng = ctx.rng(kind, a, b)
    if kind == 'odd':
        return odd(ctx, rng, a)
    for _ in range(12):
        words = make_words(rng, 1, [a]) + make_words(rng, 1, [b])
        texts = texts_of(words, rng)
        for order in itertools.permutations(words):
            run_order(ctx, order, texts, True)
    ctx.sample('%s + %s: %s' % (a, b, [w.key() for w in words][:1]))


def large(ctx, rng):
    """a dictionary of many words, looked up at the end only"""
    words = []
    for part in range(rng.randint(4, 12)):
        words += make_words(rng, rng.randint(5, 12))
    for k in range(rng.randint(5, 60)):
        words.append(gen.word(rng, 1000 + k, style='sentinel'))
    rng.shuffle(words)
    texts = texts_of(words, rng)
    ctx.count('large_dictionaries')
    ctx.maximum('texts', len(texts))
    for order in (words, rng.sample(words, len(words))):
        run_order(ctx, order, texts if len(texts) < 1000 else rng.sample(texts, 1000), False)


def refilled(ctx, rng):
    """a word is added, the texts it misses are filled, and it is added again: every text it can take now is known"""
    w = gen.word(rng, 5000, style='sentinel')
    given = [f if rng.random() < 0.4 else '' for f in w.forms]
    word = real.W(spec.MWord(w.type, given, w.props))
    d = real.dictionary.Dictionary([word])
    others = [real.W(spec.MWord('TEXT', ['другой%d' % i], {})) for i in range(rng.randint(0, 2))]
    for other in others:
        d.add_word(other)
    if rng.random() < 0.5:
        word.autofill_missed_forms()
    else:
        word.forms[:] = w.forms
    d.add_word(word)
    ctx.count('refilled_words')
    for text in set(spec.MDictionary([spec.MWord(w.type, list(word.forms), w.props)]).index) - {''}:
        ctx.check(d.has_word(text), 'a text of a word that was completed and added again is unknown', text=text, word_type=w.type, given=given)
        got = real.Observed(lambda: d.get_word(text))
        ctx.check(got.error is None and got.value.word is word and got.value.form == text, 'a completed and added word is not found by its text', text=text, got=got, given=given)
    for i, other in enumerate(others):
        ctx.check(d.has_word('другой%d' % i), 'adding a word made another one unknown', text=i)


def run_random(ctx, rng):
    if rng.random() < 0.05:
        refilled(ctx, rng)
    if rng.random() < 0.004:
        return large(ctx, rng)
    small = rng.random() < 0.6
    words = make_words(rng, rng.choice((2, 3, 3, 4)) if small else rng.randint(5, 9),
                       rng.choice((None, ['NOUN', 'PREPOSITION', 'TEXT'], ['TEXT', 'INTEGER'], ['PREPOSITION'])))
    texts = texts_of(words, rng)
    if len(texts) > 60:
        texts = rng.sample(texts, 60)
    counted = {}
    for w in words:
        for f in set(w.forms):
            counted[f] = counted.get(f, 0) + w.forms.count(f)
    ctx.count('contested_texts', sum(1 for t in texts if counted.get(t, 0) > 1))
    orders = list(itertools.permutations(words)) if len(words) <= 3 else [rng.sample(words, len(words)) for _ in range(5)]
    for order in orders:
        mdict, rdict = run_order(ctx, order, texts, rng.random() < 0.4)
    known = sorted(mdict.index)
    for _ in range(20):     # similar texts
        for text in near(rng, rng.choice(known)) + [gen.natural_text(rng)]:
            ctx.count('similar_texts')
            ctx.check(rdict.has_word(text) == mdict.has(text), 'has_word is wrong', text=text, words=words)
