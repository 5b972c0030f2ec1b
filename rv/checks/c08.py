# coding: utf-8
from rv import real, spec

RULE = ('random histories of additions and queries on a lexicon, compared with a list of (key, template, restrictions); every random '
        'choice is repeated until each candidate must have appeared (40-60 draws per candidate); non-trivial: distinct query with at least '
        'one template under the key')
RANDOM = {'quick': 20000, 'thorough': 60000}
REQUIRE = {'queries': 20000, 'unknown_key': 500, 'no_suitable': 500, 'choices_with_several_candidates': 1000, 'nearest_excludes_some': 300,
           'duplicates': 200, 'wide_lexicons': 100, 'choices_among_many': 20, 'many_equally_near': 30, 'queries_among_thousands': 10000,
           'nested_queries': 1500, 'crowded_queries': 20}


def units(tier):
    return [('massive', k) for k in range(2)] + [('nested', size) for size in NESTED] + [('crowded', n) for n in (257, 513, 1001, 1500, 5000)]


def nested(ctx, size):
    """sets of restrictions that differ by one around a size: the one with most of them is the nearest"""
    rng = ctx.rng('nested', size)
    for round in range(12):
        pool = ['н%d' % i for i in range(size + 3)] if round % 2 else [('н', i) for i in range(size + 3)]
        lex = real.lexicon.Lexicon()
        entries = []
        sizes = list(range(max(0, size - 3), size + 4))
        if round % 3 == 0:
            sizes = rng.sample(sizes, 2)
        elif round % 3 == 1:
            sizes += [rng.randint(0, size) for _ in range(4)]
        rng.shuffle(sizes)
        for i, n in enumerate(sizes):
            t = real.T('вложенный %d' % i, [])
            restrictions = frozenset(pool[:n] if rng.random() < 0.5 else rng.sample(pool, n))
            entries.append((t, restrictions))
            lex.add_template('к', t, restrictions=restrictions)
        for given in [frozenset(pool), frozenset(pool) | {'чужой'}] + [restrictions for _, restrictions in entries]:
            suitable = [e for e in entries if e[1] <= given]
            best = max(len(e[1]) for e in suitable)
            nearest = [e[0] for e in suitable if len(e[1]) == best]
            ctx.check(ids(lex.get_templates('к', restrictions=given)) == ids(e[0] for e in suitable), 'listed templates are not those whose restrictions are met, in order of addition',
                      sizes=sizes, given=len(given))
            for _ in range(4):
                got = lex.get_random_nearest_template('к', restrictions=given)
                ctx.check(any(got is t for t in nearest), 'a nearest choice returned a template that is not a candidate', sizes=sizes, given=len(given))
                got = lex.get_random_template('к', restrictions=given)
                ctx.check(any(got is e[0] for e in suitable), 'a random choice returned a template that is not a candidate', sizes=sizes, given=len(given))
            ctx.count('nested_queries')
            ctx.count('nearest_excludes_some', len(nearest) < len(suitable))
    ctx.ev(('nested', size))


def crowded(ctx, n):
    """very many suitable templates under one key, of which a few are nearest"""
    rng = ctx.rng('crowded', n)
    lex = real.lexicon.Lexicon()
    pool = ['т%d' % i for i in range(6)]
    entries = []
    special = set(rng.sample(range(n), 3)) | {n - 1}
    for i in range(n):
        t = real.T('тесный %d' % i, [])
        restrictions = frozenset(pool[:5]) if i in special else frozenset(rng.sample(pool[:5], rng.randint(0, 4)))
        entries.append((t, restrictions))
        lex.add_template('к', t, restrictions=restrictions)
    for given in (frozenset(pool), frozenset(pool[:5]), frozenset(pool[:2]), frozenset()):
        suitable = [e for e in entries if e[1] <= given]
        best = max(len(e[1]) for e in suitable)
        nearest = {id(e[0]) for e in suitable if len(e[1]) == best}
        allowed = {id(e[0]) for e in suitable}
        ctx.check(ids(lex.get_templates('к', restrictions=given)) == ids(e[0] for e in suitable), 'listed templates are not those whose restrictions are met, in order of addition',
                  templates=n, given=sorted(given))
        seen = set()
        for _ in range(160):
            got = id(lex.get_random_nearest_template('к', restrictions=given))
            ctx.check(got in nearest, 'a nearest choice returned a template that is not a candidate', templates=n, given=sorted(given))
            seen.add(got)
        if len(nearest) <= 4:
            ctx.check(seen == nearest, 'a random choice never returned some candidate', templates=n, given=sorted(given))
        late = early = False
        for _ in range(100):
            got = lex.get_random_template('к', restrictions=given)
            ctx.check(id(got) in allowed, 'a random choice returned a template that is not a candidate', templates=n, given=sorted(given))
            place = next(i for i, e in enumerate(suitable) if e[0] is got)
            early = early or place < len(suitable) / 2
            late = late or place >= len(suitable) / 2
        ctx.check(early and late, 'a random choice never returned some candidate', templates=n, given=sorted(given), early=early, late=late)
        ctx.count('crowded_queries')
    ctx.ev(('crowded', n))


NESTED = (1, 2, 3, 5, 8, 10, 12, 16, 20, 24, 32, 40, 50, 64, 80, 100, 128, 200, 256)


def run_unit(ctx, kind, k):
    """thousands of keys, and of templates under one key"""
    if kind != 'massive':
        return nested(ctx, k) if kind == 'nested' else crowded(ctx, k)
    rng = ctx.rng(kind, k)
    lex = real.lexicon.Lexicon()
    template = [real.T('шаблон %d' % i, []) for i in range(50)]
    pool = ['р%d' % i for i in range(12)]
    entries = {}
    order = [rng.choice(('общий', 'ключ%d' % rng.randrange(6000))) if rng.random() < 0.3 else 'ключ%d' % i for i in range(6000)]
    for key in rng.sample(order, len(order)):
        record = (rng.choice(template), frozenset(x for x in pool if rng.random() < 0.15))
        entries.setdefault(key, []).append(record)
        lex.add_template(key, record[0], restrictions=record[1])
    for key in rng.sample(sorted(entries), len(entries)):
        for given in (frozenset(pool), frozenset(x for x in pool if rng.random() < 0.5)):
            suitable = [t for t, restrictions in entries[key] if restrictions <= given]
            ctx.count('queries_among_thousands')
            ctx.check(lex.has_key(key) and ids(lex.get_templates(key, restrictions=given)) == ids(suitable), 'a lexicon of thousands of keys lists other templates', key=key,
                      expected=len(suitable))
            if suitable:
                best = max(len(restrictions) for t, restrictions in entries[key] if restrictions <= given)
                got = lex.get_random_template(key, given)
                ctx.check(any(got is t for t in suitable), 'a random choice returned a template that is not a candidate', key=key)
                nearest = [t for t, restrictions in entries[key] if restrictions <= given and len(restrictions) == best]
                got = lex.get_random_nearest_template(key, given)
                ctx.check(any(got is t for t in nearest), 'a nearest choice returned a template that is not a candidate', key=key)
        ctx.check(not lex.has_key(key + 'я') and not lex.get_templates(key + 'я', restrictions=frozenset(pool)), 'an unknown key is known', key=key + 'я')
    ctx.ev((kind, k))


RESTRICTIONS = ('a', 'b', 'c', 'd', 1, ('x', 2), None, 'hero')
KEYS = ('k1', 'k2', 0, ('tuple', 1), None, 'absent', '')


def run_random(ctx, rng):
    lex = real.lexicon.Lexicon()
    entries = []
    templates = []
    wide = rng.random() < 0.02      # many templates and restrictions
    ctx.count('wide_lexicons', wide)
    for i in range(rng.randint(20, 60) if wide else rng.randint(1, 5)):
        templates.append(real.T('шаблон %d' % rng.randint(0, 2), []))
    keys = rng.sample(KEYS[:5] + KEYS[6:], rng.randint(1, 3))
    pool = rng.sample(RESTRICTIONS, rng.randint(1, 4)) + (['р%d' % i for i in range(rng.choice((rng.randint(5, 40), rng.randint(5, 40), 150)))] if wide else [])
    for _ in range(rng.randint(60, 160) if wide else rng.randint(3, 14)):
        if rng.random() < (0.95 if wide else 0.5):
            key, t = rng.choice(keys), rng.choice(templates)
            restrictions = frozenset(x for x in pool if rng.random() < rng.choice((0.1, 0.4, 0.8) if len(pool) < 5 else (0.02, 0.05, 0.9)))
            if any(e[0] == key and e[1] is t for e in entries):
                ctx.count('duplicates')
            entries.append((key, t, restrictions))
            if not restrictions and rng.random() < 0.5:
                lex.add_template(key, t)
            else:
                lex.add_template(key, t, restrictions=restrictions)
        else:
            query(ctx, rng, lex, entries, rng.choice(keys + ['absent']), frozenset(x for x in pool + ['foreign'] if rng.random() < 0.6))
    if rng.random() < 0.005:     # many templates that are equally near
        key = rng.choice(keys)
        given = frozenset(rng.sample(pool, rng.randint(0, min(2, len(pool)))))
        for i in range(rng.choice((rng.randint(33, 110), rng.randint(33, 110), rng.randint(200, 320)))):
            t = real.T('равный %d' % i, [])
            entries.append((key, t, given))
            lex.add_template(key, t, restrictions=given)
        ctx.count('many_equally_near')
        query(ctx, rng, lex, entries, key, given)
        query(ctx, rng, lex, entries, key, given | frozenset(pool))
    for key in keys + ['absent']:
        for _ in range(2):
            query(ctx, rng, lex, entries, key, frozenset(x for x in pool + ['foreign'] if rng.random() < rng.choice((0.2, 0.6, 0.9))))
        if rng.random() < 0.2:
            query(ctx, rng, lex, entries, key, frozenset(pool))


def ids(items):
    return [id(x) for x in items]


def query(ctx, rng, lex, entries, key, given):
    under = [e for e in entries if e[0] == key]
    suitable = [e for e in under if e[2] <= given]
    best = max([len(e[2]) for e in suitable], default=0)
    nearest = [e for e in suitable if len(e[2]) == best]
    described = {'key': key, 'given': sorted(map(repr, given)), 'added': [(e[0], id(e[1]), sorted(map(repr, e[2]))) for e in entries]}
    ctx.ev((key, given, tuple((e[0], e[2]) for e in entries)), bool(under))
    ctx.count('queries')
    ctx.check(lex.has_key(key) == bool(under), 'has_key is wrong', **described)
    for _ in range(2):    # queries change nothing
        got = lex.get_templates(key, restrictions=given)
        ctx.check(ids(got) == ids(e[1] for e in suitable), 'listed templates are not those whose restrictions are met, in order of addition',
                  expected=ids(e[1] for e in suitable), got=ids(got), **described)
    for name, candidates in (('get_random_template', suitable), ('get_random_nearest_template', nearest)):
        method = getattr(lex, name)
        call = (lambda: method(key)) if not given and rng.random() < 0.5 else (lambda: method(key, restrictions=given))
        if not candidates:
            got = real.Observed(call)
            if under:
                ctx.count('no_suitable')
                ctx.check(got.matches(('err', 'NoTemplatesWithSpecifiedRestrictions', None)), 'no suitable template is not reported by its error',
                          method=name, got=got, **described)
            else:
                ctx.count('unknown_key')
                ctx.check(got.matches(('err', 'UnknownLexiconKeyError', None)), 'an unknown key is not reported by its error', method=name, got=got, **described)
            if got.error is not None:
                ctx.check(str(key) in str(got.error) and got.error.arguments.get('key', ctx) == key, 'the error does not name the key', method=name, got=got, **described)
            continue
        allowed = {id(e[1]) for e in candidates}
        seen = set()
        for draw in range((60 if len(allowed) < 9 else 40) * len(allowed) if len(allowed) > 1 else 3):
            if draw > 12 * len(allowed) and len(allowed) > 12 and len(seen) == len(allowed):
                break
            got = call()
            ctx.check(id(got) in allowed, 'a random choice returned a template that is not a candidate', method=name, got=id(got),
                      allowed=sorted(allowed), **described)
            seen.add(id(got))
        ctx.check(seen == allowed, 'a random choice never returned some candidate', method=name, missing=sorted(allowed - seen), **described)
        ctx.count('choices_with_several_candidates', len(allowed) > 1)
        ctx.count('choices_among_many', len(allowed) > 12)
    ctx.count('nearest_excludes_some', len(nearest) < len(suitable))
    ctx.check(ids(lex.get_templates(key, restrictions=given)) == ids(e[1] for e in suitable), 'a query changed the lexicon', **described)
    ctx.sample(described)
