# coding: utf-8
from rv import core, gen, real, spec

RULE = ('random templates are rendered in the barest surroundings (only the variables and words they name) and in many larger ones: other '
        'declared and passed variables, other words in the dictionary before, between and after, other orders and containers, other texts '
        'in the forms nobody selects; several templates are joined and rendered as one. Every outcome (text, or error and its text) and '
        'the report of missing words must be the same. non-trivial: template with a marker')
RANDOM = {'quick': 5000, 'thorough': 60000}
REQUIRE = {'surroundings': 10000, 'other_variables': 10000, 'other_words': 8000, 'joined': 2500, 'glued': 10000, 'many_joined': 200, 'other_forms': 2500, 'other_governors': 1000,
           'errors': 500, 'large_dictionaries': 50, 'many_variables': 200, 'identical_variables': 500, 'apart': 1000, 'malformed': 300, 'words_like_named': 2000}


def units(tier):
    return []


def fields_of(template):
    """every identifier and dependency as written (lower case, stripped)"""
    out = set()
    for m in template.markers:
        out.add(m.id)
        for field in m.source.strip('[]').lower().split('|'):
            out.add(field.strip())
    return out


def outcome(call):
    got = real.Observed(call)
    return ('err', type(got.error).__name__, str(got.error)) if got.error is not None else ('ok', got.value)


def same(ctx, expected, call, message, **detail):
    got = outcome(call)
    ctx.check(got == expected, message, expected=expected, got=got, **detail)


def unrelated_name(rng, fields):
    for _ in range(20):
        known = sorted(f for f in fields if f)
        how = rng.random()
        name = (gen.twin(rng, rng.choice(known)) if how < 0.3 and known else rng.choice(known)[:-1] if how < 0.4 and known else
                rng.choice(known) + rng.choice(('2', ' ', 'а', '|вн')) if how < 0.5 and known else rng.choice(gen.NAMES) if how < 0.7 else
                rng.choice(sorted(spec.VERBOSE.values())) if how < 0.8 else gen.natural_text(rng).lower())
        if name and name.lower().strip() not in fields and name not in fields:
            return name
    return 'совсем другое имя %d' % rng.randrange(1000)


def unrelated_word(rng, uid, avoid):
    for _ in range(10):
        w = gen.word(rng, uid, style=rng.choice(('sentinel', 'natural', 'shared', 'sound', 'sparse', 'twins', 'hostile')), const=rng.choice(('typical', 'any', 'none')))
        if not (set(w.forms) | {f[:1].upper() + f[1:] for f in w.forms}) & avoid:
            return w
    return spec.MWord('TEXT', ['другое слово %d' % uid], {})


def container(rng, names):
    names = list(names)
    rng.shuffle(names)
    return rng.choice((list, tuple, set, frozenset, lambda x: dict.fromkeys(x)))(names)


class Bare(object):
    """a template with exactly the variables and the words it names"""

    def __init__(self, rng, world, text, drop=False):
        self.text = text
        self.template = spec.MTemplate(text, world.names)
        self.fields = fields_of(self.template)
        self.named = [n for n in world.names if any(m.id == n or ('ext', n) in [tuple(d) for d in m.deps] for m in self.template.markers)]
        self.bound = [n for n in self.named if not (drop and rng.random() < 0.4)]
        self.owners = []
        for m in self.template.markers:
            f = world.dictionary.get(m.id)
            if f is not None and all(w is not f.word for w in self.owners):
                self.owners.append(f.word)
        self.forms = {n: core.real_external(world.externals[n]) for n in self.bound}
        self.expected = outcome(lambda: self.render(self.named, self.forms, self.dictionary(self.owners)))
        self.missing = self.report(self.named, self.forms, self.dictionary(self.owners))

    def dictionary(self, words):
        return real.dictionary.Dictionary([real.W(w) for w in words])

    def render(self, declared, forms, dictionary):
        return real.T(self.text, declared).substitute(externals=forms, dictionary=dictionary)

    def report(self, declared, forms, dictionary):
        return real.T(self.text, declared).get_undictionaried_words(forms, dictionary)

    def check(self, ctx, declared, forms, dictionary, message, **detail):
        ctx.count('surroundings')
        same(ctx, self.expected, lambda: self.render(declared, forms, dictionary), message, template=self.text, named=self.named, bound=self.bound, declared=sorted(declared),
             passed=sorted(forms), owners=self.owners, **detail)
        got = self.report(declared, forms, dictionary)
        ctx.check(list(got) == list(self.missing), 'the report of missing words depends on something its template does not name', template=self.text, expected=self.missing, got=got,
                  declared=sorted(declared), passed=sorted(forms), **detail)


def run_random(ctx, rng):
    world = gen.World(rng, styles=gen.STYLES + ('natural', 'hostile'), max_words=4, max_externals=4)
    text = gen.template(rng, world, markers=(1, 4), errors=rng.choice((0, 0, 0.1)), messy=rng.random() < 0.3)
    if rng.random() < 0.3:
        text = gen.natural_text(rng) + text + gen.natural_text(rng)
    large = rng.random() < 0.05
    for _ in range(6 if large else rng.random() < 0.1):
        text += '[%s]' % gen.natural_text(rng).lower()
    if rng.random() < 0.1:
        malformed(ctx, rng, world)
    try:
        bare = Bare(rng, world, text, drop=rng.random() < 0.1)
    except spec.MError:
        return
    ctx.ev((text, repr(world.externals)))
    ctx.count('errors', bare.expected[0] == 'err')
    names = list(bare.bound)

    # other variables
    others = {}
    for k in range(rng.choice((1, 1, 2, 3, 8, 30))):
        name = unrelated_name(rng, bare.fields)
        if bare.bound and rng.random() < 0.3:
            others[name] = bare.forms[rng.choice(bare.bound)]
            ctx.count('identical_variables')
        else:
            others[name] = core.real_external(gen.external(rng, 200 + k, style=rng.choice(gen.STYLES), const=rng.choice(('typical', 'any'))))
    ctx.count('many_variables', len(others) > 10)
    avoid = bare.fields | set(others)
    more = list(bare.owners)
    for k in range(rng.choice((1, 2, 5, 12))):
        more.append(unrelated_word(rng, 300 + k, bare.fields))
    for m in bare.template.markers:
        for _ in range(3 if large else rng.random() < 0.3):      # a word like the named one, or (known too) like a variable that is given
            text = m.id if m.id in bare.bound else gen.twin(rng, m.id)
            if text in bare.bound or text not in bare.fields:
                more.append(spec.MWord('TEXT', [text], {}))
                ctx.count('words_like_named')
    if large:
        more += [spec.MWord(t, gen.sentinel_forms(1000 + k, t, 'ъ'), {}) for k, t in enumerate(rng.choice(spec.TYPES) for _ in range(rng.choice((30, 80, 150))))]
        ctx.count('large_dictionaries')
    rng.shuffle(more)
    for variables, other_words in ((True, False), (False, True), (True, True)):
        declared = container(rng, bare.named + (rng.sample(sorted(others), rng.randint(0, len(others))) if variables else []))
        chosen = rng.sample(sorted(others), rng.randint(1, len(others))) if variables else []
        items = [(n, bare.forms[n]) for n in names] + [(n, others[n]) for n in chosen]
        rng.shuffle(items)
        ctx.count('other_variables', len(chosen))
        ctx.count('other_words', len(more) - len(bare.owners) if other_words else 0)
        bare.check(ctx, declared, dict(items), bare.dictionary(more if other_words else bare.owners),
                   'a rendering depends on something its template does not name', other_variables=chosen, other_words=[w for w in more if other_words and w not in bare.owners][:5])
    joined(ctx, rng, world, bare)
    for _ in range(4):
        glued(ctx, rng)
    other_forms(ctx, rng, world, bare)
    ctx.sample('%s among %d variables, %d words' % (text, len(others), len(more)))


def malformed(ctx, rng, world):
    """a name that is neither declared nor a property is an error whatever similar names are declared"""
    unknown = gen.twin(rng, rng.choice(gen.NAMES + tuple(spec.VERBOSE.values()))) if rng.random() < 0.6 else gen.natural_text(rng).lower() + rng.choice(('', '2'))
    unknown = unknown.lower().strip()
    text = rng.choice(('[x|%s]', '[x|вн|%s] да', '%%[a] [Слово|%s]', '[x|%s][x]')) % unknown
    if set(unknown) & set('[]|,') or not unknown or unknown in spec.VERBOSE.values():
        return
    expected = outcome(lambda: real.T(text, []))
    ctx.check(expected[0] == 'err', 'an unknown dependency is accepted', template=text)
    others = {rng.choice((unknown[:-1], unknown[1:], unknown + '2', unknown + ' ', unknown.rstrip('0123456789'), gen.twin(rng, unknown), unknown[:3], unknown[:12], unknown + unknown))
              for _ in range(rng.choice((1, 2, 5)))} | {'v%d' % i for i in range(rng.choice((0, 0, 3, 40)))}
    others.discard(unknown)
    ctx.count('malformed')
    same(ctx, expected, lambda: real.T(text, container(rng, others)), 'an unknown dependency depends on other declared names', template=text, declared=sorted(others))


def joined(ctx, rng, world, bare):
    """templates written one after another render to their texts one after another, and a part of a template as in the whole"""
    count = rng.choice((1, 1, 2, 3)) if rng.random() < 0.9 else rng.randint(6, 40)
    texts = [bare.text]
    for _ in range(count):
        text = rng.choice((gen.template(rng, world, markers=(0, 2), messy=False), gen.natural_text(rng), gen.marker(rng, world, messy=False)))
        try:
            spec.MTemplate(text, world.names)
        except spec.MError:
            continue
        texts.append(text)
    rng.shuffle(texts)
    if any('[' in t and t.rfind('[') > t.rfind(']') for t in texts):
        return      # an open bracket would take the following text in
    forms = {n: core.real_external(world.externals[n]) for n in world.names if n in bare.bound or n not in bare.named}
    dictionary = bare.dictionary(world.words)
    one_by_one = [outcome(lambda: real.T(t, world.names).substitute(externals=forms, dictionary=dictionary)) for t in texts]
    failed = [o for o in one_by_one if o[0] == 'err']
    expected = failed[0] if failed else ('ok', ''.join(o[1] for o in one_by_one))
    whole = ''.join(texts)
    same(ctx, expected, lambda: real.T(whole, world.names).substitute(externals=forms, dictionary=dictionary),
         'templates joined do not render to their texts joined', parts=texts, externals=world.externals, words=world.words)
    ctx.count('joined')
    ctx.count('many_joined', len(texts) > 6)
    reports = [w for t in texts for w in real.T(t, world.names).get_undictionaried_words(forms, dictionary)]
    ctx.check(list(real.T(whole, world.names).get_undictionaried_words(forms, dictionary)) == reports, 'templates joined report other missing words', parts=texts, expected=reports)
    # the pieces of one template
    pieces = [p for _, p in spec.split_template(bare.text)]
    if len(pieces) > 1:
        ctx.count('apart')
        got = [outcome(lambda: real.T(p, bare.named).substitute(externals=bare.forms, dictionary=bare.dictionary(bare.owners))) for p in pieces]
        failed = [o for o in got if o[0] == 'err']
        ctx.check((failed[0] if failed else ('ok', ''.join(o[1] for o in got))) == bare.expected, 'the pieces of a template do not render as in the whole', template=bare.text,
                  pieces=got, expected=bare.expected)


EDGES = ('', ' ', '  ', '\n', '\t', '.', ',', '-', '%', '\u00a0', '\ufeff', '"', "'", 'а', 'А', ')', '(', '[', ']', '|', '\\', '\r', '!', '...', 'ж ', ' ж', '1')


def glued(ctx, rng):
    """markers with nothing or little between them, and texts with anything at their ends"""
    forms = {}
    for name in ('а', 'б', 'в'):
        text = rng.choice(EDGES) + rng.choice(('', '', 'кот', 'Кот', 'кот кот', '5', 'кот.')) + rng.choice(EDGES)
        forms[name] = core.real_external(spec.MForm(spec.MWord('TEXT', [text])))
    dictionary = real.dictionary.Dictionary()
    pieces = []
    little = rng.choice((('',), ('', '', ' '), (' ',), tuple(e for e in EDGES if e not in ('[', ']'))))
    for _ in range(rng.choice((1, 2, 2, 3, 5, 9))):
        pieces += [rng.choice(('[а]', '[б]', '[в]', '[А]', '[б|мн]', '[в|а]')), rng.choice(little)]
    if rng.random() < 0.5:
        pieces = [rng.choice(little)] + pieces
    if rng.random() < 0.5:
        pieces.pop()
    expected = ''.join(real.T(p, list(forms)).substitute(externals=forms, dictionary=dictionary) if p[:1] == '[' else p for p in pieces)
    got = outcome(lambda: real.T(''.join(pieces), list(forms)).substitute(externals=forms, dictionary=dictionary))
    ctx.count('glued')
    ctx.ev(('glued', tuple(pieces), tuple(f.form for f in forms.values())))
    ctx.check(got == ('ok', expected), 'templates joined do not render to their texts joined', parts=pieces, externals={n: f.form for n, f in forms.items()}, expected=expected, got=got)


def other_forms(ctx, rng, world, bare):
    """texts of forms nobody selects, and of governing words, do not matter"""
    marker = rng.choice(bare.template.markers)
    base = world.externals.get(marker.id) or world.dictionary.get(marker.id)
    if base is None or base.word.type == 'INTEGER' or marker.id in bare.named and marker.id not in bare.bound:
        return
    governors = [v for kind, v in marker.deps if kind == 'ext']
    if any(g not in bare.bound for g in governors):
        return
    try:
        word, properties = bare.template.resolve(marker, world.externals, world.dictionary)
    except spec.MError:
        return
    slot = spec.the_slot(word.type, properties)
    keep = {slot} | {i for i, f in enumerate(word.forms) if f == marker.id}
    text = marker.source
    forms = {n: core.real_external(world.externals[n]) for n in world.names}
    expected = outcome(lambda: real.T(text, world.names).substitute(externals=forms, dictionary=bare.dictionary([word])))
    fresh = list(word.forms)
    changed = rng.random()
    for i in range(len(fresh)):
        if i not in keep and rng.random() < changed:
            fresh[i] = rng.choice((gen.natural_text(rng), '', rng.choice(fresh), fresh[0], fresh[slot], gen.twin(rng, fresh[i] or 'а'), 'ъ%d' % i))
            if fresh[i] == marker.id:
                fresh[i] = 'ъ%d' % i
    new = spec.MWord(word.type, fresh, word.props)
    if marker.id in world.externals:
        forms[marker.id] = real.F(spec.MForm(new, *base.raw))
        words = [word]
    else:
        words = [new]
    if word.type != 'PREPOSITION' or not governors:      # its variant is chosen by texts
        same(ctx, expected, lambda: real.T(text, world.names).substitute(externals=forms, dictionary=bare.dictionary(words)), 'a form that is not selected changes the rendering',
             marker=text, slot=slot, word=word, other=new)
        ctx.count('other_forms')
    if word.type != 'PREPOSITION' and governors:
        for g in governors:
            old = world.externals[g]
            if g != marker.id and old.word.type != 'INTEGER':
                forms[g] = real.F(spec.MForm(spec.MWord(old.word.type, gen.forms(rng, 900, old.word.type, rng.choice(gen.STYLES)), old.word.props), *old.raw))
        same(ctx, expected, lambda: real.T(text, world.names).substitute(externals=forms, dictionary=bare.dictionary(words)), 'the texts of a governing word change the rendering',
             marker=text, governors=governors, word=word)
        ctx.count('other_governors')
