# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('words with a unique text in every slot; enumerated: all partial combinations (every group of the paradigm unspecified or any '
        'value) of all word types, all full combinations with every single constant property, through the word, the word form and a '
        'rendered marker; random: arbitrary extra groups, constants, orders. non-trivial: every distinct (type, request, constants)')
RANDOM = {'quick': 12000, 'thorough': 60000}
REQUIRE = {'partial_combinations': 7000, 'full_with_constant': 10000, 'lacking_combinations': 100, 'rendered_markers': 1000}
ENUMERATED = 'all partial property combinations of all word types; all full combinations x single constant properties of the paradigm'


def units(tier):
    out = []
    for wtype in spec.TYPES:
        schema = spec.SCHEMA[wtype]
        first = [None] + spec.GROUPS[schema[0]] if schema else [None]
        second = [None] + spec.GROUPS[schema[1]] if len(schema) > 1 else [None]
        for f in first:
            for s in second:
                out.append(('partial', wtype, f, s))
        for combo in range(0, len(spec.FULL[wtype]), 40):
            out.append(('constant', wtype, combo))
    return out


def expected_form(word, request):
    return word.form(request)


def lookups(ctx, mword, rword, request, rng, template=False):
    expected = expected_form(mword, request)
    items = list(request.items())
    rng.shuffle(items)
    request = dict(items)
    results = {'Word.form': rword.form(real.P(request)),
               'WordForm.form': real.words.WordForm(rword, properties=real.P(request)).form,
               'WordForm.form (form properties)': real.words.WordForm(rword, form_properties=real.P(request)).form}
    if not mword.props:
        results["WordForm with both"] = real.words.WordForm(rword, real.P({}), real.P(request)).form
    if template:
        text = '[x|%s]' % ','.join(spec.VERBOSE[i] for i in items)
        results['marker ' + text] = real.T(text, ['x']).substitute(externals={'x': real.words.WordForm(rword)}, dictionary=real.dictionary.Dictionary())
        ctx.count('rendered_markers')
    ctx.ev((mword.type, tuple(sorted(items)), tuple(sorted(mword.props.items()))))
    for how, got in results.items():
        ctx.check(got == expected, 'a word returned another form than the one of the requested combination', how=how, word_type=mword.type,
                  request=request, constants=mword.props, expected=expected, got=got)


def run_unit(ctx, kind, wtype, *args):
    schema = spec.SCHEMA[wtype]
    rng = ctx.rng(kind, wtype, *args)
    forms = gen.sentinel_forms(3, wtype)
    if kind == 'partial':
        mword = spec.MWord(wtype, forms, {})
        rword = real.W(mword)
        axes = [[None] + spec.GROUPS[g] for g in schema]
        for values in itertools.product(*axes):
            if schema and values[0] != args[0] or len(schema) > 1 and values[1] != args[1]:
                continue
            request = {g: v for g, v in zip(schema, values) if v is not None}
            if spec.full_key(wtype, request) in spec.LACKING[wtype]:
                ctx.count('lacking_combinations')
            ctx.count('partial_combinations')
            lookups(ctx, mword, rword, request, rng, template=rng.random() < 0.3)
        if args[0] is None and args[1] is None:
            ctx.check(rword.normal_form() == mword.normal_form(), 'normal form is not the form of the default combination', word_type=wtype)
            ctx.sample('%s: %d partial combinations' % (wtype, ctx.counters['partial_combinations']))
    else:
        fulls = sorted(spec.FULL[wtype])[args[0]:args[0] + 40]
        consts = [{}] + [{g: v} for g in schema for v in spec.GROUPS[g]]
        consts += [{'WORD_CASE': 'LOWER'}, {'GENDER': 'FEMININE', 'ANIMALITY': 'INANIMATE'}, {'NUMBER': 'PLURAL', 'ASPECT': 'PERFECTIVE'}]
        for const in consts:
            mword = spec.MWord(wtype, forms, const)
            rword = real.W(mword)
            ctx.check(rword.normal_form() == mword.normal_form(), 'normal form ignores the constant properties', word_type=wtype, constants=const)
            for full in fulls:
                ctx.count('full_with_constant')
                lookups(ctx, mword, rword, dict(zip(schema, full)), rng)


def run_random(ctx, rng):
    wtype = rng.choice(spec.TYPES)
    mword = spec.MWord(wtype, gen.sentinel_forms(rng.randrange(50), wtype), gen.const_props(rng, wtype, rng.choice(('typical', 'any', 'none'))))
    mword.props.pop('WORD_CASE', None)
    rword = real.W(mword)
    for _ in range(6):
        request = gen.relevant_props(rng, wtype, rng.choice((0.3, 0.7, 1))) if rng.random() < 0.6 else gen.props(rng)
        request.pop('WORD_CASE', None)
        lookups(ctx, mword, rword, request, rng, template=rng.random() < 0.3)
