# coding: utf-8
from rv import core, gen, real, spec

RULE = ('one template object parsed many times, with valid and malformed texts and changing declared names, rendered, compared, '
        'serialised and restored between; after every step it must behave like a fresh template of the last text that parsed. '
        'non-trivial: distinct history with at least two successful parses')
RANDOM = {'quick': 15000, 'thorough': 50000}
REQUIRE = {'successful_parses': 15000, 'failed_parses': 3000, 'comparisons': 15000, 'fewer_markers_than_before': 1000, 'restored_then_parsed': 1000, 'siblings': 5000, 'stored_texts': 5000, 'parses_of_one': 12000}


def units(tier):
    return [('massive', k) for k in range(2)]


def run_unit(ctx, kind, k):
    """one template parsed thousands of times"""
    rng = ctx.rng(kind, k)
    world = gen.World(rng, styles=('sentinel', 'natural'), max_words=3)
    built = core.Built(world)
    t = real.templates.Template()
    texts = [gen.template(rng, world, markers=(0, 3), messy=False) for _ in range(300)]
    for turn in range(6000):
        text = rng.choice(texts)
        t.parse(text, externals=world.names)
        ctx.count('parses_of_one')
        if turn % 10 == 0:
            ctx.ev((k, text))
            ctx.check(t == real.T(text, world.names), 'a template parsed thousands of times is not equal to a fresh one', template=text, turn=turn)
            expected = core.model_render(text, world.names, world.externals, world.dictionary)
            got = real.Observed(lambda: t.substitute(externals=built.externals, dictionary=built.dictionary))
            ctx.check(got.matches(expected), 'a template parsed thousands of times renders otherwise than a fresh one', template=text, turn=turn, expected=expected, got=got)


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sentinel', 'sparse'), max_words=3)
    built = core.Built(world)
    t = real.templates.Template()
    last = None
    parsed = 0
    log = []
    n_markers = 0
    siblings = []
    for _ in range(rng.randint(3, 10) if rng.random() < 0.99 else 60):
        errors = 0.25 if rng.random() < 0.35 else 0.0
        text = gen.template(rng, world, markers=(0, 4), errors=errors, messy=rng.random() < 0.3)
        if errors and rng.random() < 0.6:   # valid markers first, the malformed one last
            text = text + rng.choice(('[слово|неизвестно]', '[ ]', '[|вн]', '[слово|вн,zz]'))
        if log and rng.random() < 0.1:
            text = log[-1][0]
        if last and rng.random() < 0.15:      # the stored text of the template itself, as a text of its own
            text = rng.choice((t.serialize()['template'], last[0] + t.serialize()['template'], '%s' * n_markers))
            ctx.count('stored_texts')
        declared = [n for n in world.names if rng.random() < 0.9]
        if rng.random() < 0.15:
            sibling = (t, t.serialize(), last)
            t = real.templates.Template.deserialize(t.serialize())
            siblings += [sibling, (real.templates.Template.deserialize(t.serialize()), t.serialize(), last)]
            ctx.count('restored_then_parsed')
        if siblings and rng.random() < 0.2:     # change places with another template of that text
            k = rng.randrange(len(siblings))
            siblings[k], (t, _, last) = (t, t.serialize(), last), siblings[k]
            n_markers = 0
        before = t.serialize()
        expected = real.model_outcome(lambda: spec.MTemplate(text, declared) and 'parsed')
        got = real.Observed(lambda: t.parse(text, externals=declared) or 'parsed')
        log.append((text, tuple(declared), expected[0]))
        ctx.check(got.matches(expected), 'parsing again ends otherwise than parsing afresh', history=log, expected=expected, got=got)
        if expected[0] == 'ok':
            last = (text, declared)
            parsed += 1
            ctx.count('successful_parses')
            markers = len(spec.MTemplate(text, declared).markers)
            ctx.count('fewer_markers_than_before', markers < n_markers)
            n_markers = markers
        else:
            ctx.count('failed_parses')
            ctx.check(t.serialize() == before, 'a failed parse changed the template', history=log)
        if last is None:
            continue
        fresh = real.T(*last)
        ctx.count('comparisons')
        ctx.check(t == fresh and fresh == t and not (t != fresh), 'a template parsed again is not equal to a fresh one', history=log)
        ctx.check(t.serialize() == fresh.serialize(), 'a template parsed again is stored otherwise than a fresh one', history=log)
        model = spec.MTemplate(*last)
        outcome = real.model_outcome(lambda: model.substitute(world.externals, world.dictionary))
        for _ in range(rng.randint(1, 2)):
            got = real.Observed(lambda: t.substitute(externals=built.externals, dictionary=built.dictionary))
            ctx.check(got.matches(outcome), 'a template parsed again renders otherwise than a fresh one', history=log, expected=outcome, got=got)
        ctx.check(t.get_undictionaried_words(built.externals, built.dictionary) == model.missing(world.externals, world.dictionary),
                  'a template parsed again reports other missing words', history=log)
    for other, stored, parsed_last in siblings:
        ctx.count('siblings')
        ctx.check(other.serialize() == stored, 'parsing one template changed another', history=log)
        if parsed_last:
            ctx.check(other == real.T(*parsed_last), 'parsing one template changed another', history=log)
    ctx.ev(repr(log), parsed >= 2)
    ctx.sample(log)
