# coding: utf-8
from rv import core, gen, real, spec

RULE = ('a canonical spelling of a marker and spellings that differ in whitespace, letter case, empty dependencies and items, and in how '
        'the property names are grouped; all are rendered and compared with each other and with the model. non-trivial: spelling '
        'different from the canonical one')
RANDOM = {'quick': 20000, 'thorough': 80000}
REQUIRE = {'spellings': 30000, 'spaced_lists': 5000, 'recased': 5000, 'regrouped': 5000, 'empty_items': 3000, 'name_is_also_property': 300, 'names_among_items': 3000, 'not_spellings': 3000}
SPACES = ('', '', ' ', '  ', '\t', '\n', ' \r\n', '\u00a0', '\u2003', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\u1680', '\u2000', '\u2007', '\u2009', '\u200a', '\u2028', '\u2029',
          '\u202f', '\u205f', '\u3000', ' \u00a0\t')
assert all(not s.strip() for s in SPACES)

NOT_SPELLINGS = ('{0} {1}', '1{0}', '{0}1', '{0}.', '{0}{1}', '{0};{1}', '{0}-', '1{0} {1}', '{0}\u00a0{1}', '{0}/{1}', '({0})', '{0},{1} {1}', '{0}\u200b', '{0}+{1}',
                 '{0}:', '{0}ж', '{0}={1}', '"{0}"', '{0},1', '{0},.', '{0},-', '{0}|,|.', '-{0}', '!{0}', '{0}, и {1}', '{0}\n{1}', '{0},\u200b', '{0},\ufeff')


def units(tier):
    return [('names',)]


def space(rng):
    return rng.choice(SPACES[:11]) if rng.random() < 0.8 else rng.choice(SPACES)


def spaced(rng, text):
    return space(rng) + text + space(rng)


def recased(rng, text):
    mode = rng.choice((0, 1, 1, 2))
    out = text if mode == 0 else ''.join(c.upper() if rng.random() < 0.5 else c for c in text) if mode == 1 else text.upper()
    return out if out.lower() == text else text


def run_unit(ctx, kind):
    """every short name in several spellings selects the same property"""
    rng = ctx.rng(kind)
    for name, (g, v) in spec.BY_VERBOSE.items():
        plain = real.templates.Substitution.parse('[x|%s]' % name, ['x'])
        for spelled in (' ' + name, name + ' ', '\t%s\n' % name, name.upper(), name.capitalize(), ' %s,' % name, ', %s' % name, ',,%s , ' % name,
                        '%s,%s' % (name, name), ' %s , %s ' % (name, name.upper()), '\u00a0%s' % name):
            if spelled.lower() != spelled and spelled.lower().strip() != name:
                continue
            other = real.templates.Substitution.parse('[ x |%s]' % spelled, ['x'])
            ctx.ev((name, spelled), spelled != name)
            ctx.count('spellings')
            ctx.check(other == plain, 'a spelling of a property name changes the marker', name=name, spelled=spelled)
            ctx.check(other.serialize() == plain.serialize(), 'a spelling of a property name changes the marker', name=name, spelled=spelled)


def run_random(ctx, rng):
    world = gen.World(rng, styles=('sentinel', 'sentinel', 'shared'), max_words=3, max_externals=4)
    if rng.random() < 0.3:      # an external named like a property
        name = rng.choice(('мн', 'вн', 'жр', 'загл', 'вн,мр', 'прш'))
        world.externals[name] = gen.external(rng, 77, style='sentinel')
        world.names = list(world.externals)
    built = core.Built(world)
    pool = world.names + world.texts[:6]
    if not pool:
        return
    ident = rng.choice(pool)
    base = world.externals.get(ident) or world.dictionary.get(ident)
    # one abstract marker: identifier and dependencies
    deps = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        if world.names and rng.random() < 0.5:
            deps.append(('ext', rng.choice(world.names)))
        else:
            p = gen.relevant_props(rng, base.word.type) if rng.random() < 0.8 else gen.props(rng)
            names = [spec.VERBOSE[i] for i in p.items()]
            if any(','.join(names) == n or n in names for n in world.names):
                names = [n for n in names if n not in world.names]
            deps.append(('list', names))
    capital = rng.random() < 0.3 and (ident[0].upper() + ident[1:]).lower() == ident and ident[0].upper().isupper()

    def spell(canonical):
        text = ident[0].upper() + ident[1:] if capital else ident
        if not canonical:
            if not capital:
                tail = recased(rng, ident)
                text = ident[0] + tail[1:] if (ident[0] + tail[1:]).lower() == ident else ident
            else:
                tail = recased(rng, ident)
                text = text[0] + tail[1:] if (text[0] + tail[1:]).lower() == ident else text
            if text != ident:
                ctx.count('recased')
            text = spaced(rng, text)
        fields = [text]
        for kind, value in deps:
            if kind == 'ext':
                fields.append(value if canonical else spaced(rng, recased(rng, value)))
                ctx.count('name_is_also_property', value in spec.BY_VERBOSE)
                continue
            if canonical:
                fields.append(','.join(value))
                continue
            items = list(value)
            pieces = [[]]
            for item in items:
                if rng.random() < 0.25 and pieces[-1]:
                    pieces.append([])
                    ctx.count('regrouped')
                pieces[-1].append(item)
            for piece in pieces:
                out = []
                for item in piece:
                    while rng.random() < 0.15:
                        out.append(space(rng))
                        ctx.count('empty_items')
                    s = spaced(rng, recased(rng, item))
                    ctx.count('spaced_lists', s != item)
                    out.append(s)
                while rng.random() < 0.2:
                    out.append(space(rng))
                    ctx.count('empty_items')
                field = ','.join(out)
                if field.lower().strip() in world.externals:   # would denote the variable
                    field = field + ','
                if field.lower().strip() in world.externals:
                    field = ','.join(piece) + ',,'
                fields.append(field)
        if not canonical:
            while rng.random() < 0.15:
                fields.insert(rng.randint(1, len(fields)), space(rng))
                ctx.count('empty_items')
        return '[' + '|'.join(fields) + ']'

    first = spell(True)
    if any(kind == 'list' and ','.join(v) in world.externals for kind, v in deps):
        return
    expected = core.differential(ctx, built, first)
    for _ in range(5):
        other = spell(False)
        ctx.count('spellings')
        ctx.ev((first, other), first != other)
        got = core.real_render(other, world.names, built.externals, built.dictionary)
        ctx.check(got.matches(expected), 'a spelling that differs only in spacing, letter case, empty items or grouping changes the result',
                  canonical=first, spelling=other, expected=expected, got=got, externals=world.externals)
        core.differential(ctx, built, other)
    if world.names and rng.random() < 0.3:     # a name among other items is an item, and no property
        text = '[%s|%s]' % (ident, rng.choice(('%s,', ',%s', '%s,мн', 'мн,%s', '%s , ', '%s,%s', ' , %s')).replace('%s', rng.choice(world.names)))
        ctx.count('names_among_items')
        core.differential(ctx, built, text)
    if rng.random() < 0.3:      # more is respelled than is allowed
        a, b = rng.sample(sorted(spec.BY_VERBOSE), 2)
        text = '[%s|%s]' % (ident, rng.choice(NOT_SPELLINGS).format(a, b))
        ctx.count('not_spellings')
        core.differential(ctx, built, text)
    ctx.sample((first, other))
