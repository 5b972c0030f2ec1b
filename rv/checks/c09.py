# coding: utf-8
import copy
import json

from rv import core, gen, real, spec

RULE = ('random property sets, words, templates are serialised and restored directly and through JSON text, then exercised beside the '
        'originals in every lookup and in renderings; then the data, the original and the restored object are modified in turn and the '
        'others compared with their snapshots. non-trivial: distinct object with at least one property or marker')
RANDOM = {'quick': 15000, 'thorough': 60000}
REQUIRE = {'property_sets': 3000, 'words': 3000, 'templates': 3000, 'markers': 3000, 'renderings': 3000, 'explicit_defaults': 500, 'mutations': 3000, 'damaged': 5000, 'odd_enumerated': 700}


def units(tier):
    return [('massive',), ('every_property',), ('every_slot',), ('odd',), ('empty',)]


def plain(ctx, data):
    """plain JSON data?"""
    def walk(x):
        if isinstance(x, dict):
            return all(type(k) in (str, int) and walk(v) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return all(walk(v) for v in x)
        return x is None or type(x) in (str, int, float, bool)
    ctx.check(walk(data), 'serialised data is not plain data', data=data)
    return json.loads(json.dumps(data, ensure_ascii=bool(len(str(data)) % 2)))


def stringed(data):
    """what JSON does to the keys"""
    return json.loads(json.dumps(data))


def properties(ctx, p):
    obj = real.P(p)
    data = obj.serialize()
    ctx.count('property_sets')
    ctx.count('explicit_defaults', any(v == spec.default(g) for g, v in p.items()))
    ctx.ev(('p', tuple(sorted(p.items()))), bool(p))
    ctx.check(data == spec.serialize_props(p), 'properties are stored as other codes', properties=p, data=data)
    for way, d in (('directly', data), ('through JSON', plain(ctx, data))):
        again = real.words.Properties.deserialize(d)
        ctx.check(again == obj and obj == again and not (again != obj), 'restored properties are not equal to the original', way=way, properties=p, data=data)
        ctx.check(real.props_of(again) == p, 'restored properties have other values', way=way, properties=p, got=real.props_of(again))
        ctx.check(again.serialize() == data, 'restored properties are stored differently', way=way, properties=p)
    # snapshot
    again = real.words.Properties.deserialize(data)
    data.clear()
    ctx.check(real.props_of(obj) == p and real.props_of(again) == p, 'properties share their data with their serialised form', properties=p)
    ctx.count('mutations')


def word(ctx, rng, m):
    obj = real.W(m)
    data = obj.serialize()
    ctx.count('words')
    ctx.ev(('w', m.key()), True)
    ctx.check(stringed(data) == stringed(m.serialize()), 'a word is stored differently', word=m, data=data)
    for way, d in (('directly', data), ('through JSON', plain(ctx, data))):
        again = real.words.Word.deserialize(d)
        ctx.check(again == obj and obj == again and not (again != obj), 'a restored word is not equal to the original', way=way, word=m)
        ctx.check(real.word_state(again) == m.key(), 'a restored word has other content', way=way, word=m, got=real.word_state(again))
        ctx.check(hash(again) == hash(obj), 'a restored word has another hash', way=way, word=m)
        ctx.check(stringed(again.serialize()) == stringed(data), 'a restored word is stored differently', way=way, word=m)
        for _ in range(4):
            request = gen.relevant_props(rng, m.type)
            ctx.check(again.form(real.P(request)) == m.form(request), 'a restored word returns another form', way=way, word=m, request=request)
        ctx.check([f.form for f in again.all_forms()] == [f.form for f in obj.all_forms()], 'a restored word has other forms', way=way, word=m)
    # snapshots: change one of {original, data, restored}; the others stay
    kept = copy.deepcopy(data)
    again = real.words.Word.deserialize(data)
    victim = rng.randrange(3)
    slot = rng.randrange(len(m.forms))
    if victim == 0:
        obj.forms[slot] = 'испорчено'
        obj.autofill_missed_forms()
    elif victim == 1:
        data['forms'][slot] = 'испорчено'
        data['properties'][spec.GROUP_CODE['CASE']] = 5
    else:
        again.forms[slot] = 'испорчено'
    ctx.count('mutations')
    if victim != 0:
        ctx.check(real.word_state(obj) == m.key(), 'changing the %s changed the original word' % ('', 'data', 'restored word')[victim], word=m)
    if victim != 1:
        ctx.check(data == kept, 'changing the %s changed the serialised data' % ('original', '', 'restored word')[victim], word=m)
    if victim != 2:
        ctx.check(real.word_state(again) == m.key(), 'changing the %s changed the restored word' % ('original', 'data')[victim], word=m)


def template(ctx, rng, built, text):
    world = built.world
    names = list(world.externals)
    t = real.T(text, names)
    data = t.serialize()
    ctx.count('templates')
    ctx.ev(('t', text), '[' in text)
    outcome = core.model_render(text, names, world.externals, world.dictionary)
    missing = spec.MTemplate(text, names).missing(world.externals, world.dictionary)
    kept = copy.deepcopy(data)
    for way, d in (('directly', data), ('through JSON', plain(ctx, data))):
        again = real.templates.Template.deserialize(d)
        ctx.check(again == t and t == again and not (again != t), 'a restored template is not equal to the original', way=way, template=text)
        for _ in range(2):
            got = real.Observed(lambda: again.substitute(externals=built.externals, dictionary=built.dictionary))
            ctx.count('renderings')
            ctx.check(got.matches(outcome), 'a restored template renders differently', way=way, template=text, expected=outcome, got=got, data=data,
                      externals=world.externals, words=world.words)
        ctx.check(again.get_undictionaried_words(built.externals, built.dictionary) == missing, 'a restored template reports other missing words',
                  way=way, template=text)
        ctx.check(stringed(again.serialize()) == stringed(data), 'a restored template is stored differently', way=way, template=text)
    # snapshot: destroying the data or re-parsing the restored template leaves the others alone
    again = real.templates.Template.deserialize(data)
    for s in data.get('substitutions', ()):
        s['dependencies'].append({'0': 3})
        s['id'] = 'испорчено'
    data['template'] = 'испорчено'
    ctx.count('mutations')
    for name, obj in (('original', t), ('restored template', again)):
        got = real.Observed(lambda: obj.substitute(externals=built.externals, dictionary=built.dictionary))
        ctx.check(got.matches(outcome), 'changing the serialised data changed the %s' % name, template=text, expected=outcome, got=got)
    again.parse('другой текст [zz|вн]', externals=['zz'])
    ctx.check(t.serialize() == kept, 'changing the restored template changed the original', template=text)


def marker(ctx, text, names):
    s = real.templates.Substitution.parse(text, names)
    m = spec.parse_marker(text, names)
    data = s.serialize()
    ctx.count('markers')
    for way, d in (('directly', data), ('through JSON', plain(ctx, data))):
        again = real.templates.Substitution.deserialize(d)
        ctx.check(again == s and s == again, 'a restored marker is not equal to the original', way=way, marker=text)
        ctx.check(stringed(again.serialize()) == stringed(data), 'a restored marker is stored differently', way=way, marker=text)
    expected = {'id': m.id, 'dependencies': [v if kind == 'ext' else {str(k): c for k, c in spec.serialize_props(v).items()} for kind, v in m.deps]}
    ctx.check(stringed(data) == expected, 'a marker is stored differently', marker=text, expected=expected, data=data)


def run_unit(ctx, kind):
    rng = ctx.rng(kind)
    if kind == 'massive':
        world = gen.World(rng, styles=('sentinel', 'natural'), max_words=3)
        built = core.Built(world)
        markers = [gen.marker(rng, world, messy=False) for _ in range(500)]
        text = ''.join(rng.choice(markers) + gen.literal(rng, hostile=False) for _ in range(3000))
        template(ctx, rng, built, text)
        marker(ctx, '[слово|%s]' % '|'.join(rng.choice(world.names + sorted(spec.VERBOSE.values())) for _ in range(3000)), world.names)
        for wtype in spec.TYPES:
            word(ctx, rng, spec.MWord(wtype, [rng.choice(('длинный ' * 2000, gen.natural_text(rng) * 500, 'ф')) + str(i) for i in range(spec.NFORMS[wtype])], gen.const_props(rng, wtype, 'any')))
    elif kind == 'odd':
        for i, (text, other) in enumerate(gen.odd_pairs()):
            wtype = spec.TYPES[i % len(spec.TYPES)]
            ctx.count('odd_enumerated')
            word(ctx, rng, spec.MWord(wtype, [(text, other, text + str(k))[k % 3] for k in range(spec.NFORMS[wtype])], {}))
        for text, other in gen.odd_ids():
            ctx.count('odd_enumerated')
            world = gen.World(rng, styles=('sentinel',), max_words=1, max_externals=1)
            world.externals.update({n: gen.external(rng, 70 + k) for k, n in enumerate(x for x in (text, other) if x)})
            world.names = list(world.externals)
            built = core.Built(world)
            literal = text.replace('[', '')
            template(ctx, rng, built, '%s[%s]%s [%s|%s] [неизвестный|%s|мн]%s' % (literal, text, literal, rng.choice(world.names), text, other or text, literal))
            template(ctx, rng, built, '%s[%s]' % (literal, text + 'и'))
            marker(ctx, '[%s|%s|рд|%s]' % (text + 'я', text, other or text), world.names)
    elif kind == 'empty':       # what nothing was read into yet
        for cls in (real.templates.Template, real.templates.Substitution):
            fresh = cls()
            for d in (fresh.serialize(), plain(ctx, fresh.serialize())):
                again = cls.deserialize(d)
                ctx.ev(('empty', cls.__name__))
                ctx.check(again == fresh and fresh == again and again == cls(), 'a restored empty object is not equal to the original', kind=cls.__name__, data=d)
                ctx.check(stringed(again.serialize()) == stringed(fresh.serialize()), 'a restored empty object is stored differently', kind=cls.__name__, data=d)
                if cls is real.templates.Template:
                    ctx.check(not again == real.T('', []), 'a restored empty object is not equal to the original', kind=cls.__name__, data=d)
                    ctx.check(list(again.get_undictionaried_words({}, real.dictionary.Dictionary())) == [], 'a restored template reports other missing words', data=d)
                    again.parse('да [слово|рд]', externals=[])
                    ctx.check(again == real.T('да [слово|рд]', []), 'a restored empty template can not be used', data=d)
    elif kind == 'every_property':
        properties(ctx, {})
        for g in spec.GROUPS:
            for v in spec.GROUPS[g]:
                properties(ctx, {g: v})
                word(ctx, rng, spec.MWord('NOUN', gen.sentinel_forms(1, 'NOUN'), {g: v}))
                marker(ctx, '[слово|%s]' % spec.VERBOSE[(g, v)], [])
                marker(ctx, '[Слово|%s|a]' % spec.VERBOSE[(g, v)], ['a'])
    else:
        for wtype in spec.TYPES:
            m = spec.MWord(wtype, gen.sentinel_forms(2, wtype), {})
            again = real.words.Word.deserialize(json.loads(json.dumps(real.W(m).serialize())))
            for full in spec.FULL[wtype]:
                request = dict(zip(spec.SCHEMA[wtype], full))
                ctx.check(again.form(real.P(request)) == m.form(request), 'a restored word returns another form', word_type=wtype, request=request)


def together(ctx, rng):
    """several objects with equal parts are stored and restored; damage to the data of one, or to an object restored from it, reaches no other"""
    p = gen.props(rng)
    m = gen.word(rng, 1, style=rng.choice(gen.STYLES))
    spelled = gen.spell_props(rng, p, False)
    texts = ['[слово|%s]' % spelled, 'и [слово|%s] [Слово|a|%s]' % (spelled, spelled), '[слово|%s] да' % spelled, '[слово|%s]' % spelled]
    makers = [lambda: real.P(p), lambda: real.words.Word(type=real.wtype(m.type), forms=list(m.forms), properties=real.P(p)), lambda: real.W(m)]
    makers += [lambda text=text: real.T(text, ['a']) for text in texts]
    makers += [lambda: real.templates.Substitution.parse('[слово|%s]' % spelled, []), lambda: real.templates.Substitution.parse('[слово|%s|a]' % spelled, ['a'])]
    makers += [rng.choice(makers) for _ in range(4)]
    rng.shuffle(makers)
    originals = [make() for make in makers]
    stored = [x.serialize() for x in originals]
    snapshots = [stringed(x) for x in stored]
    restored = [type(x).deserialize(copy.deepcopy(d) if rng.random() < 0.5 else d) for x, d in zip(originals, stored)]
    alive = set(range(len(makers)))
    for _ in range(4):
        if len(alive) < 2:
            break
        victim = rng.choice(sorted(alive))
        alive.discard(victim)
        ctx.count('damaged')
        if rng.random() < 0.7:
            destroy(stored[victim])
        if isinstance(restored[victim], real.words.Word):
            restored[victim].forms[rng.randrange(len(restored[victim].forms))] = 'испорчено'
        elif isinstance(restored[victim], real.templates.Template):
            restored[victim].parse('испорчено [zz|вн]', externals=['zz'])
        for i in sorted(alive):
            ctx.check(stringed(stored[i]) == snapshots[i], 'damage to one object reached the stored data of another', data=stored[i], expected=snapshots[i])
            for what, obj in (('original', originals[i]), ('restored', restored[i]), ('new', makers[i]())):
                ctx.check(stringed(obj.serialize()) == snapshots[i], 'damage to one object reached another one', which=what, expected=snapshots[i],
                          got=obj.serialize())


def destroy(data):
    """everything mutable inside"""
    for x in list(data.values() if isinstance(data, dict) else data):
        if isinstance(x, (dict, list)):
            destroy(x)
    data.clear()


def run_random(ctx, rng):
    properties(ctx, gen.props(rng, word_type=0.2))
    word(ctx, rng, gen.word(rng, rng.randrange(30), style=rng.choice(gen.STYLES + ('hostile',)), const=rng.choice(('typical', 'any', 'none'))))
    m = gen.word(rng, rng.randrange(30), style='natural')      # natural texts, some of them missing
    word(ctx, rng, spec.MWord(m.type, [rng.choice((f, f, f, f + ' ', ' ' + f)) if rng.random() < 0.7 else '' for f in m.forms], m.props))
    world = gen.World(rng, styles=gen.STYLES + ('hostile',), max_words=3, max_externals=3)
    built = core.Built(world)
    if rng.random() < 0.4:
        together(ctx, rng)
    text = gen.template(rng, world, errors=0.02, messy=rng.random() < 0.5) + (gen.literal(rng) if rng.random() < 0.3 else '')
    try:
        t = spec.MTemplate(text, world.names)
    except spec.MError:
        return
    template(ctx, rng, built, text)
    for m in t.markers:
        marker(ctx, m.source, world.names)
    ctx.sample(text)
