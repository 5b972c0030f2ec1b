# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('pools of property sets, words, word forms, markers and templates drawn from few contents, so that equal and nearly equal objects '
        'meet; all pairs and triples are compared with equality of content, hashed, used in sets and dictionaries, and compared with foreign '
        'objects; property sets are combined and printed. non-trivial: distinct compared pair of contents')
RANDOM = {'quick': 2500, 'thorough': 40000}
REQUIRE = {'pairs': 200000, 'equal_pairs': 30000, 'triples': 100000, 'sets': 8000, 'foreign': 50000, 'combined': 10000, 'printed': 10000,
           'near_equal_pairs': 20000, 'large_sets': 5000, 'alike': 8000, 'natural_texts': 2000, 'similar_markers': 15000, 'odd_enumerated': 300}
ALIKE = ('a', 'b', 'ab', 'ba', 'мн', '(мн)', '(рд)', '(мн,рд)', 'aмн', 'a b')
ENUMERATED = 'every single property value and every pair of values: equality, combination and printed form'


class Foreign(object):
    pass


def foreign_objects():
    p = real.words.Properties()
    return [None, 0, 1, '', 'слово', (), [], {}, set(), frozenset(), object(), Foreign(), Foreign, 1.5, b'x', p._data if hasattr(p, '_data') else {},
            real.r.CASE, real.r.CASE.DATIVE, real.r.WORD_TYPE.NOUN, NotImplemented, True]


def units(tier):
    return [('values', g) for g in spec.GROUPS] + [('small_sets',), ('word_types',), ('odd',)]


def laws(ctx, objects, hashable, foreigners, kind):
    """objects: [(content, object)]; equality must be equality of content"""
    for (ca, a), (cb, b) in itertools.product(objects, repeat=2):
        expected = ca == cb
        eq, ne = (a == b), (a != b)
        ctx.count('pairs')
        ctx.ev((kind, ca, cb))
        ctx.check(bool(eq) == expected, 'equality is not equality of content', kind=kind, a=ca, b=cb, equal=eq)
        ctx.check(bool(ne) == (not expected), 'inequality disagrees with equality', kind=kind, a=ca, b=cb, unequal=ne)
        ctx.check(isinstance(eq, bool) and isinstance(ne, bool), 'a comparison gives no truth value', kind=kind, a=ca, b=cb, got=(eq, ne))
        if expected:
            ctx.count('equal_pairs')
            if hashable:
                ctx.check(hash(a) == hash(b), 'equal objects have different hashes', kind=kind, a=ca)
        elif near(ca, cb):
            ctx.count('near_equal_pairs')
    for (ca, a), (cb, b), (cc, c) in itertools.product(objects[:5], repeat=3):
        ctx.count('triples')
        ctx.check(not (a == b and b == c) or a == c, 'equality is not transitive', kind=kind, a=ca, b=cb, c=cc)
    if hashable:
        ctx.count('sets')
        contents = {c for c, _ in objects}
        ctx.check(len({o for _, o in objects}) == len(contents), 'a set of objects does not hold each content once', kind=kind, contents=objects)
        table = {}
        for c, o in objects:
            table[o] = c
        for c, o in objects:
            ctx.check(o in table and table[o] == c, 'an object is not found in a dictionary keyed by an equal object', kind=kind, content=c)
    for c, o in objects[:6]:
        for f in foreigners:
            ctx.count('foreign')
            ctx.check((o == f) is False and (o != f) is True, 'an object is equal to something else', kind=kind, content=c, other=f)
            ctx.check((f == o) is False and (f != o) is True, 'something else is equal to an object', kind=kind, content=c, other=f)
        ctx.check(o in [f for f in foreigners] + [o] and o not in foreigners, 'membership is wrong', kind=kind, content=c)


def near(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and sum(1 for x, y in zip(a, b) if x != y) == 1


def content(p):
    return tuple(sorted(p.items()))


def shuffled(rng, p):
    items = list(p.items())
    rng.shuffle(items)
    return dict(items)


def combination(ctx, a, b):
    """combining two sets in every way of writing it"""
    ra, rb = real.P(a), real.P(b)
    want = spec.merge(a, b)
    values = [real.prop(g, v) for g, v in b.items()]
    ctx.count('combined')
    for how, call in (('clone', lambda: ra.clone(rb)), ('clone with values', lambda: ra.clone(*values)), ('constructor', lambda: real.words.Properties(ra, rb)),
                      ('constructor with values', lambda: real.words.Properties(ra, *values)), ('with nothing', lambda: ra.clone(None, rb, None)),
                      ('twice', lambda: ra.clone(rb).clone(rb))):
        got = call()
        ctx.check(real.props_of(got) == want and got == real.P(want), 'combining property sets gives another set', how=how, a=a, b=b, expected=want, got=real.props_of(got))
        ctx.check(got is not ra and got is not rb, 'combining property sets does not give a new set', how=how, a=a, b=b)
        ctx.check(real.props_of(ra) == a and real.props_of(rb) == b, 'combining property sets changed an operand', how=how, a=a, b=b)
        # the result is independent of the operands
        for g in ('CASE', 'VOICE'):
            got.clone(real.prop(g, spec.GROUPS[g][-1]))
        ctx.check(real.props_of(got) == want, 'combining changed an operand', how=how, a=a, b=b)
    if not b:
        ctx.check(ra.clone() == ra and ra.clone() is not ra, 'a clone is not an equal new set', a=a)


def printed(ctx, p):
    text = str(real.P(p))
    ctx.count('printed')
    ctx.check(isinstance(text, str) and text.strip('()') == spec.props_str(p).strip('()'), 'the printed form is not the short names in the fixed order', properties=p,
              expected=spec.props_str(p), got=text)


def run_unit(ctx, kind, group=None):
    rng = ctx.rng(kind, group)
    f = foreign_objects()
    if kind == 'values':
        for v in spec.GROUPS[group]:
            a = {group: v}
            printed(ctx, a)
            for other in spec.GROUPS:
                for w in spec.GROUPS[other]:
                    b = {other: w}
                    combination(ctx, a, b)
                    printed(ctx, spec.merge(a, b))
                    laws(ctx, [(content(x), real.P(x)) for x in (a, b, spec.merge(a, b), spec.merge(b, a))], True, [], 'properties')
    elif kind == 'small_sets':
        sets = [{}]
        for g in ('CASE', 'NUMBER', 'WORD_TYPE', 'ASPECT'):
            sets += [{g: v} for v in spec.GROUPS[g][:2]]
        sets += [spec.merge(a, b) for a in sets for b in sets if a and b]
        laws(ctx, [(content(s), real.P(s)) for s in sets], True, f, 'properties')
        for s in sets:
            printed(ctx, s)
    elif kind == 'odd':     # texts that something could tidy up are not the tidy ones
        for text, other in gen.odd_pairs():
            both = [x for x in (text, other) if gen.usable_id(x) and x]
            ctx.count('odd_enumerated')
            ws = [spec.MWord('TEXT', [x]) for x in (text, other)] + [spec.MWord('PREPOSITION', ['с', text, x]) for x in (text, other)]
            laws(ctx, [(w.key(), real.W(w)) for w in ws] * 2, True, [], 'words')
            markers = ['[%s|мн]' % x for x in both] + ['[слово|%s]' % x for x in both] + ['[слово|рд|%s|%s]' % (both[0], x) for x in both if both]
            laws(ctx, [(marker_content(spec.parse_marker(x, both)), real.templates.Substitution.parse(x, both)) for x in markers] * 2, False, [], 'markers')
            texts = [x.replace('[', '') for x in (text, other)]
            texts += [x + '[слово]' for x in texts] + ['а[слово]%s' % x for x in texts] + ['а[слово]%s[слово]' % x for x in texts] + markers[:2]
            laws(ctx, [((spec_text(x), tuple(marker_content(m) for m in spec.MTemplate(x, both).markers)), real.T(x, both)) for x in texts], False, [], 'templates')
    else:
        ws = []
        for t in spec.TYPES:
            for s in ('', 'x'):
                m = spec.MWord(t, [s] * spec.NFORMS[t])
                ws.append((m.key(), real.W(m)))
                ws.append((m.key(), real.W(m)))
        laws(ctx, ws, True, f, 'words')
        laws(ctx, [((c, content({})), real.words.WordForm(w)) for c, w in ws], True, f, 'forms')


def run_random(ctx, rng):
    f = rng.sample(foreign_objects(), 5)
    groups = rng.sample(spec.PLAIN_GROUPS, rng.randint(1, 3))
    if rng.random() < 0.5:    # large sets that differ in at most one or two values, given in different orders
        base = {g: rng.choice(spec.GROUPS[g]) for g in spec.PLAIN_GROUPS if rng.random() < 0.9}
        large = [shuffled(rng, base)]
        for _ in range(7):
            p = shuffled(rng, rng.choice(large))
            if rng.random() < 0.5:
                g = rng.choice(spec.PLAIN_GROUPS)
                p[g] = rng.choice(spec.GROUPS[g])
            if rng.random() < 0.2 and p:
                del p[rng.choice(sorted(p))]
            large.append(p)
        laws(ctx, [(content(p), real.P(p)) for p in large], True, [], 'properties')
        ctx.count('large_sets', len(large))
        m = spec.MWord('TEXT', ['да'])
        laws(ctx, [((m.key(), content(p)), real.F(spec.MForm(m, p))) for p in large], True, [], 'forms')
        laws(ctx, [(('TEXT', content(p)), real.words.Word(type=real.wtype('TEXT'), forms=['да'], properties=real.P(p))) for p in large], True, [], 'words')
    if rng.random() < 0.1:
        groups.append('WORD_TYPE')
    values = {g: rng.sample(spec.GROUPS[g], min(2, len(spec.GROUPS[g]))) + [spec.GROUPS[g][0]] for g in groups}

    def props():
        return shuffled(rng, {g: rng.choice(values[g]) for g in groups if rng.random() < 0.6})

    sets = [props() for _ in range(8)]
    laws(ctx, [(content(p), real.P(p)) for p in sets], True, f + [real.W(spec.MWord('TEXT', ['x']))], 'properties')
    for _ in range(4):
        combination(ctx, rng.choice(sets), rng.choice(sets))
        combination(ctx, gen.props(rng), gen.props(rng))
        printed(ctx, gen.props(rng, word_type=0.2))
    for p in sets[:2]:
        printed(ctx, p)

    types = rng.sample(spec.TYPES, 2)
    words = []
    natural = rng.random() < 0.5
    base = {t: gen.forms(rng, rng.randrange(30), t, rng.choice(('natural', 'sparse', 'sound', 'sentinel'))) for t in types}
    for _ in range(6):
        t = rng.choice(types)
        forms = list(base[t]) if natural else ['а'] * spec.NFORMS[t]
        if rng.random() < 0.5:
            k = rng.choice((0, -1, rng.randrange(len(forms))))
            forms[k] = rng.choice(('б', 'А', '') if not natural else (gen.natural_text(rng), gen.twin(rng, forms[k] or 'а'), '', forms[k].upper()))
        words.append(spec.MWord(t, forms, rng.choice(sets[:3])))
    real_words = [(w.key(), real.W(w)) for w in words]
    real_forms = []
    for _ in range(8):
        w = rng.choice(words)
        m = spec.MForm(w, rng.choice(sets[:4]) if rng.random() < 0.8 else None)
        form = real.F(m)
        if rng.random() < 0.5:
            form.form      # used before or not
        real_forms.append(((w.key(), content(m.props)), form))
    laws(ctx, real_words, True, f + [real.P({}), real_forms[0][1]], 'words')
    laws(ctx, real_forms, True, f + [real.P({}), real_words[0][1]], 'forms')

    world = gen.World(rng, max_words=2, max_externals=3)
    texts = [gen.template(rng, world, markers=(0, 2), messy=False) for _ in range(3)]
    names = world.names
    markers, templates = [], []
    ctx.count('natural_texts')
    marks = [gen.marker(rng, world, messy=False) for _ in range(2)]
    pieces = [gen.natural_text(rng) for _ in range(rng.randint(1, 5))]
    texts.append(joined(rng, pieces, marks))
    texts.append(joined(rng, [gen.twin(rng, x) if rng.random() < 0.3 else x for x in pieces], marks))
    change = rng.randrange(len(pieces))
    texts.append(joined(rng, pieces[:change] + [gen.natural_text(rng)] + pieces[change + 1:], marks[:1]))
    texts.append(joined(rng, pieces[:change] + [gen.twin(rng, pieces[change])] + pieces[change + 1:], marks[:1]))
    texts.append(joined(rng, pieces, marks[:1]))
    texts.append(joined(rng, pieces, []))
    texts.append(rng.choice((gen.natural_text(rng), gen.twin(rng, texts[-1]), texts[-1].upper())))
    rng.shuffle(texts)
    for text in texts + [rng.choice(texts)] + [rng.choice(texts) + '.']:
        for declared in (names, names[:1]):
            try:
                m = spec.MTemplate(text, declared)
            except spec.MError:
                continue
            templates.append(((text, tuple(marker_content(x) for x in m.markers)), real.T(text, declared)))
            for x in m.markers:
                markers.append((marker_content(x), real.templates.Substitution.parse(x.source, declared)))
    for _ in range(8):      # dependencies that look alike when written one after another
        declared = rng.sample(ALIKE, rng.randint(2, len(ALIKE)))
        text = '[%s|%s]' % (rng.choice(('x', 'xa')), '|'.join(rng.choice(ALIKE + ('мн', 'рд', 'мн,рд', 'рд,мн', '')) for _ in range(rng.randint(1, 3))))
        try:
            m = spec.MTemplate(text, declared)
        except spec.MError:
            continue
        ctx.count('alike')
        markers.append((marker_content(m.markers[0]), real.templates.Substitution.parse(text, declared)))
        templates.append(((text, tuple(marker_content(x) for x in m.markers)), real.T(text, declared)))
    laws(ctx, *similar_markers(ctx, rng))
    rng.shuffle(templates)
    rng.shuffle(markers)
    # the text of a template does not distinguish between spellings of markers
    templates = [((spec_text(c[0]), c[1]), t) for c, t in templates]
    laws(ctx, templates[:14], False, f + [real.P({})] + [t for _, t in markers[:1]], 'templates')
    laws(ctx, markers[:12], False, f + [real.P({})] + [t for _, t in templates[:1]], 'markers')
    for c, t in templates[:3]:
        again = real.templates.Template.deserialize(t.serialize())
        ctx.check(again == t and t == again and not again != t, 'a restored template is not equal to the original', template=c)
    ctx.sample('sets %s; words %s' % (sets[:3], [w.key() for w in words][:2]))


def similar_markers(ctx, rng):
    """markers whose identifiers or dependencies look alike, are long, or are many and differ at any place"""
    base = rng.choice(('слово', 'hero', 'имя 1', 'ёж', 'а'))
    how = rng.random()
    if how < 0.25:
        base = base + 'я' * rng.choice((20, 60, 128, 255, 256, 300)) + rng.choice(('', 'ю'))
    names = [base, gen.odd(rng, base)]
    for _ in range(3):
        names.append(gen.twin(rng, rng.choice(names)))
    if how < 0.25:
        names += [names[0][:-1] + 'э', 'э' + names[0][1:], names[0][:-1]]
    names = [n for n in names if gen.usable_id(n)]
    many = [rng.choice(names + ['мн', 'рд', 'мн,рд']) for _ in range(rng.choice((0, 1, 2, 9, 12, 17, 33, 70)))]
    out = []
    for _ in range(7):
        deps = list(many)
        if deps and rng.random() < 0.6:
            deps[rng.choice((0, -1, rng.randrange(len(deps))))] = rng.choice(names + ['мн', 'ед', ''])
        if rng.random() < 0.2:
            deps = deps[:-1]
        text = '[%s]' % '|'.join([rng.choice(names)] + deps)
        m = spec.MTemplate(text, names)
        s = real.templates.Substitution.parse(text, names)
        out.append((marker_content(m.markers[0]), s))
        if rng.random() < 0.2:
            out.append((marker_content(m.markers[0]), real.templates.Substitution.deserialize(s.serialize())))
        ctx.count('similar_markers')
    return out, False, [], 'markers'


def joined(rng, pieces, marks):
    """literals and markers; the same pieces and a single mark give the same text"""
    out = ''
    for piece in pieces:
        out += piece + (rng.choice(marks) if marks else '')
    return out


def marker_content(m):
    return (m.id, tuple(v if kind == 'ext' else content(v) for kind, v in m.deps))


def spec_text(text):
    return tuple(piece if kind == 'text' else None for kind, piece in spec.split_template(text))
