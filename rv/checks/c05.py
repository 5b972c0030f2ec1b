# coding: utf-8
from rv import core, gen, real, spec

RULE = ('constructed numbers compared with an independent classification of the decimal digits; enumerated: every integer around zero '
        'and around the boundaries of the cached range, powers of ten and of two; random: integers up to 10^40, and sequences of '
        'constructions and renderings in random order starting with a freshly loaded library. non-trivial: every distinct integer')
RANDOM = {'quick': 400, 'thorough': 6000}
REQUIRE = {'integers': 50000, 'fresh_histories': 300, 'rendered': 1000}
ENUMERATED = 'all integers in -21000..21000 (quick) or -250000..250000 (thorough), +-130 around powers of ten and of two up to the 80th'
BLOCK = 1500


def units(tier):
    limit = 250000 if tier == 'thorough' else 21000
    return [('range', a, a + BLOCK) for a in range(-limit, limit, BLOCK)] + [('powers', k) for k in range(1, 81)]


def check_one(ctx, n):
    f = real.constructors.construct_integer(n)
    expected = spec.integer_props(n)
    got = real.props_of(f.properties)
    ctx.ev(n)
    ctx.count('integers')
    ctx.check(f.form == spec.integer_form(n).form, 'a number is not written as itself', number=n, got=f.form)
    ctx.check(got == expected, 'a number is in the wrong numeral class', number=n, expected=expected, got=got)
    ctx.check(f.word.type is real.r.WORD_TYPE.INTEGER, 'a constructed number is not of the integer word type', number=n)
    ctx.check(real.props_of(f.word.properties) == expected, 'the word of a number has other properties than its class', number=n,
              expected=expected, got=real.props_of(f.word.properties))
    return f


def run_unit(ctx, kind, *args):
    if kind == 'range':
        for n in range(*args):
            check_one(ctx, n)
    else:
        for base in (10 ** args[0], 2 ** args[0], 5 * 10 ** args[0]):
            for d in range(-130, 131):
                check_one(ctx, base + d)
                check_one(ctx, -(base + d))
    ctx.sample('%s %s' % (kind, args))


MODULI = (2 ** 61 - 1, 2 ** 64, 2 ** 63, 2 ** 32, 2 ** 53, 2 ** 16, 10001, 10000, 20002)
INTERESTING = (-2, 2 ** 61 - 1, 2 ** 53 + 1, 0, 1, -1, 2, 4, 5, 9999, 10000, 10001, 11, 111, 9991, 9992, 9994, 9995, 10 ** 6, 10 ** 9, 21)


def run_random(ctx, rng):
    # a fresh library: the first request decides when the cache is filled
    real.purge()
    real.load()
    requests = []
    for _ in range(rng.randint(5, 40)):
        x = rng.random()
        if requests and x < 0.3:
            requests.append(rng.choice(requests) * rng.choice((1, 1, -1)))
        elif requests and x < 0.4:    # numbers that are equal in some machine representation
            requests.append(rng.choice(requests) + rng.choice((1, -1)) * rng.choice(MODULI))
        elif x < 0.6:
            requests.append(rng.choice(INTERESTING) * rng.choice((1, -1)))
        elif x < 0.8:
            requests.append(rng.randrange(-20, 12000))
        else:
            requests.append(gen.integer(rng) * 10 ** rng.choice((0, 0, 0, 25, 300)))
    noun = spec.MWord('NOUN', gen.sentinel_forms(5, 'NOUN'), {'ANIMALITY': 'ANIMATE', 'GENDER': 'FEMININE'})
    rnoun = core.real_external(spec.MForm(noun))
    for n in requests:
        f = check_one(ctx, n)
        ctx.keep(lambda f=f, r=real.r: (f.form, f.word.forms[0], real.props_of(f.properties, r)), (str(n), str(n), spec.integer_props(n)), 'a constructed number', number=n)
        if rng.random() < 0.4:    # use it, then look again
            exts = {'n': spec.integer_form(n), 'x': spec.MForm(noun)}
            text = rng.choice(('[n] [x|n]', '[N] [X|n|вн]', '[n|мн,вн,цд] [x|n]', '[n|загл]'))
            expected = core.model_render(text, list(exts), exts, spec.MDictionary())
            got = core.real_render(text, list(exts), {'n': f, 'x': rnoun}, real.dictionary.Dictionary())
            ctx.check(got.matches(expected), 'a number renders differently', template=text, number=n, expected=expected, got=got)
            ctx.count('rendered')
    for n in rng.sample(requests, len(requests)):
        check_one(ctx, n)
    ctx.count('fresh_histories')
