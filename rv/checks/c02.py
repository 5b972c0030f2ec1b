# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('markers with chains of dependencies over words whose every slot has a unique text, so the rendered text names the resolved '
        'combination; enumerated: for every word type and group of its paradigm, every permutation of sources (base form, '
        'explicit list, two external variables, constant property) assigning different values to the group; random: arbitrary worlds. '
        'non-trivial: at least one dependency assigns a group of the word\'s paradigm')
RANDOM = {'quick': 15000, 'thorough': 90000}
REQUIRE = {'chains': 3000, 'external_shadows_dictionary': 20, 'constant_overrides': 200, 'three_or_more_dependencies': 1000, 'many_dependencies': 700}
ENUMERATED = 'source permutations of every group of every paradigm (single group conflicts)'


def units(tier):
    out = []
    for wtype in spec.TYPES:
        for group in spec.SCHEMA[wtype]:
            out.append(('conflict', wtype, group))
        out.append(('chains', wtype, None))
    return out


def chains(ctx, wtype):
    """long chains in which one dependency decides each group"""
    rng = ctx.rng('chains', wtype)
    schema = spec.SCHEMA[wtype] or ('CASE',)
    others = [g for g in spec.PLAIN_GROUPS if g not in schema and g != 'WORD_CASE'] 
    for _ in range({'quick': 60, 'thorough': 600}[ctx.tier]):
        exts = {'x': spec.MForm(spec.MWord(wtype, gen.sentinel_forms(7, wtype)), gen.relevant_props(rng, wtype))}
        for i in range(rng.choice((1, 3, 20))):
            exts['y%d' % i] = spec.MForm(spec.MWord('TEXT', ['т'], {}), gen.props(rng, others, p=0.1, word_type=0))
        names = [n for n in exts if n != 'x']
        decisive = []
        for i in range(rng.randint(1, 3)):
            p = {g: rng.choice(spec.GROUPS[g]) for g in schema if rng.random() < 0.6}
            if rng.random() < 0.5:
                decisive.append(','.join(spec.VERBOSE[i] for i in p.items()))
            else:
                exts['z%d' % i] = spec.MForm(spec.MWord('TEXT', ['т'], {}), p)
                decisive.append('z%d' % i)
        rexts = {n: core.real_external(f) for n, f in exts.items()}
        text = gen.long_chain(rng, 'x', decisive, names, others)
        ctx.count('many_dependencies')
        compare(ctx, text, exts, rexts, spec.MDictionary(), real.dictionary.Dictionary())


def run_unit(ctx, kind, wtype, group):
    if kind == 'chains':
        return chains(ctx, wtype)
    values = spec.GROUPS[group]
    fixed = {g: spec.GROUPS[g][-1] for g in spec.SCHEMA[wtype]}   # a combination that distinguishes the group where possible
    contexts = [{}]
    for combo in itertools.islice(spec.combos(wtype), 0, None, 7):
        if combo not in contexts:
            contexts.append(combo)
    contexts = contexts[:24] + [fixed]
    forms = gen.sentinel_forms(7, wtype)
    rng = ctx.rng(wtype, group)
    for rest in contexts:
        rest = {g: v for g, v in rest.items() if g != group}
        for const in (None, rng.choice(values)):
            word = spec.MWord(wtype, forms, {group: const} if const else {})
            base_value = rng.choice(values)
            base = spec.MForm(word, spec.merge(rest, {group: base_value}))
            a, b, c = [rng.choice(values) for _ in range(3)]
            exts = {'x': base,
                    'ya': spec.MForm(spec.MWord('TEXT', ['т'], {group: a})),
                    'yb': spec.MForm(spec.MWord('TEXT', ['т'], {}), {group: b})}
            rexts = {n: core.real_external(f) for n, f in exts.items()}
            mdict = spec.MDictionary()
            rdict = real.dictionary.Dictionary()
            deps = ['ya', 'yb', spec.VERBOSE[(group, c)]]
            for n in range(4):
                for order in itertools.permutations(deps, n):
                    text = '[' + '|'.join(('x',) + order) + ']'
                    compare(ctx, text, exts, rexts, mdict, rdict)
                    ctx.count('chains')
                    if const and order:
                        ctx.count('constant_overrides')
                    if n >= 3:
                        ctx.count('three_or_more_dependencies')
            # several lists, same group: the later one wins, also inside one list
            for x, y in itertools.permutations(values, 2):
                for text in ('[x|%s|%s]', '[x|%s,%s]'):
                    compare(ctx, text % (spec.VERBOSE[(group, x)], spec.VERBOSE[(group, y)]), exts, rexts, mdict, rdict)


def compare(ctx, text, exts, rexts, mdict, rdict):
    expected = core.model_render(text, list(exts), exts, mdict)
    got = core.real_render(text, list(exts), rexts, rdict)
    ctx.ev((text, sorted(exts['x'].props.items()), exts['x'].word.type), True)
    ctx.check(got.matches(expected), 'the marker resolved its properties in another order of precedence',
              template=text, expected=expected, got=got, externals=exts)


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sentinel', 'shared'), max_words=5, max_externals=rng.choice((4, 4, 4, 4, 12)))
    built = core.Built(world)
    for _ in range(5):
        text = gen.template(rng, world, markers=(1, 3), messy=rng.random() < 0.2, max_deps=rng.choice((6, 6, 6, 20)))
        expected = core.differential(ctx, built, text, message='the marker resolved its properties in another order of precedence')
        t = spec.MTemplate(text, world.names)
        assigned = 0
        for m in t.markers:
            deps = m.deps
            ctx.count('chains')
            if len(deps) >= 3:
                ctx.count('three_or_more_dependencies')
            ctx.count('many_dependencies', len(deps) > 10)
            if m.id in world.externals and world.dictionary.has(m.id):
                ctx.count('external_shadows_dictionary')
            f = world.externals.get(m.id) or world.dictionary.get(m.id)
            if f is not None:
                touched = set()
                for kind, v in deps:
                    touched.update(world.externals[v].props if kind == 'ext' else v)
                if touched & set(f.word.props):
                    ctx.count('constant_overrides')
                assigned += bool(touched & set(spec.SCHEMA[f.word.type]))
        ctx.ev((text, repr(world.externals)), assigned > 0)
        if expected[0] == 'ok':
            ctx.sample('%s -> %s' % (text, expected[1]))
