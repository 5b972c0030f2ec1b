# coding: utf-8
import itertools

from rv import core, gen, real, spec

RULE = ('templates are (1) every string up to a bound over a small hostile alphabet of bracket, percent, bar and name characters, '
        '(2) every Unicode character in turn as literal text, inside substituted text and next to markers, (3) random mixes of literal '
        'text and repeated markers over words with hostile forms; non-trivial: distinct template with at least one marker or one '
        'special character')
RANDOM = {'quick': 12000, 'thorough': 60000}
REQUIRE = {'markers_rendered': 2000, 'hostile_substitutions': 500, 'percent_templates': 500, 'identical_markers': 200, 'long_templates': 30, 'medium_templates': 600, 'sentinels': 10000, 'typography': 10000, 'empty_substitutions': 300, 'massive_templates': 4, 'massive_rendered': 2, 'long_ends': 800, 'odd_enumerated': 10000}
ENUMERATED = 'all strings over the alphabet "[]%|s a" up to length 5 (quick) or 7 (thorough); all characters of the BMP (quick) or of Unicode (thorough) as literals and inside substituted text'
SENTINELS = ('{0}', '{}', '{x}', '{{0}}', '__0__', '__x__', '@@', '@@0@@', '##', '#0#', '$0', '$1', '$x', '${x}', '\\0', '\\1', '\\g<0>', '<0>', '<x>', '<<x>>', '%(0)s',
             '%(x)s', '%1$s', '\x1f', '\x01', '\x02', '\ue000', '\ue001', '\uf8ff', '\ufffc', '\uffff', '\U000f0000', '\0', 'None', '\u2063', '\u200b', '&#0;', '&x;', '||',
             '\x00\x00', '%s%s', '%%s', '%%%s', '~~', '^0^', '\x1b', '\x1d', '\x1e', '\ufdd0', '[[0]]', '[0]')
TYPOGRAPHY = ('  ', '   ', ' ,', ' .', ' !', '( ', ' )', '« ', ' »', '\n\n', ' \n', '\r\n', '\r', '\t\t', ',,', '..', '...', ' - ', '--', '. а', '! я', ' \u00a0', '"', "''", '()', '\u200b ')
ALPHABET = '[]%|sа'
BLOCK = 1024


def units(tier):
    out = [('chars', start) for start in range(0, 0x110000 if tier == 'thorough' else 0x10000, BLOCK)]
    out += [('chars', 0x1F400), ('chars', 0xE0000), ('chars', 0xF0000), ('chars', 0x10FC00)]
    length = 7 if tier == 'thorough' else 5
    out += [('strings', length, prefix) for prefix in map(''.join, itertools.product(ALPHABET, repeat=2))]
    out += [('strings', 1, '')] + [('massive', k) for k in range(4)] + [('ends', n) for n in ENDS] + [('odd', 0)]
    return out


def _fixed():
    ext = {'s': spec.MForm(spec.MWord('TEXT', ['<%s|[s]%%>'], {})), 'а': spec.MForm(spec.MWord('TEXT', ['%'], {}))}
    return ext, {n: real.F(f) for n, f in ext.items()}, spec.MDictionary(), real.dictionary.Dictionary()


def compare(ctx, text, world):
    mext, rext, mdict, rdict = world
    expected = core.model_render(text, list(mext), mext, mdict)
    got = core.real_render(text, list(rext), rext, rdict)
    n = sum(1 for kind, _ in spec.split_template(text) if kind == 'marker')
    ctx.ev(text, n > 0 or '%' in text or '[' in text or '\\' in text)
    if expected[0] == 'ok':
        ctx.count('markers_rendered', n)
        if '%' in text:
            ctx.count('percent_templates')
    ctx.check(got.matches(expected), 'rendered text is not the template text with its markers replaced',
              template=text, expected=expected, got=got, externals=mext)


ENDS = (1, 2, 17, 33, 65, 101, 129, 257, 501, 1001, 2001, 5000)
EDGES = ('', ' ', '  ', '\n', '\t', ' \n ', '%', ' %', '% ', '%s', '.', ' .', ',', '\u00a0', '\ufeff', '\\', '|', ']', 'а', 'а ', '\r', '\0')


def ends(ctx, n):
    """what stands at the very ends of the first, of the last and of the middle literals of long templates"""
    rng = ctx.rng('ends', n)
    world = _fixed()
    world = ({'s': spec.MForm(spec.MWord('TEXT', ['ж'], {})), 'п': spec.MForm(spec.MWord('TEXT', [''], {})), 'к': spec.MForm(spec.MWord('TEXT', [' % '], {}))},) + world[1:]
    world = (world[0], {name: real.F(f) for name, f in world[0].items()}) + world[2:]
    fillers = (0, 1, 101, 301, 1001, 10001, 70000) if n < 100 else (0, 101, 1001)
    for filler in fillers:
        for edge in EDGES if n < 600 else rng.sample(EDGES, 5):
            def literal(length):
                body = ''.join(rng.choice('аб в%.') for _ in range(min(length, 40))) if length else ''
                body = (body * (length // max(1, len(body)) + 1))[:length]
                before, after = rng.choice(((edge, edge), (edge, rng.choice(EDGES)), (rng.choice(EDGES), edge)))
                return before + body + after
            middle = rng.choice((0, 0, filler if n < 20 else 3))
            pieces = [literal(filler)]
            for _ in range(n):
                pieces.append(rng.choice(('[s]', '[s]', '[п]', '[к]')))
                pieces.append(literal(middle))
            pieces[-1] = literal(filler)
            compare(ctx, ''.join(pieces), world)
            ctx.count('long_ends')


def odd(ctx):
    """every text that something could tidy up, as a literal, as a substituted text and in both places at once"""
    mdict, rdict = spec.MDictionary(), real.dictionary.Dictionary()
    for text, other in gen.odd_pairs():
        for s in (text, other, text + text, 'ж' + text + 'Я'):
            mext = {'s': spec.MForm(spec.MWord('TEXT', [s])), 'z': spec.MForm(spec.MWord('TEXT', [text]))}
            world = mext, {n: real.F(f) for n, f in mext.items()}, mdict, rdict
            for pattern in ('@', '[s]@', '@[s]', '[s]@[s]', '@[s]@[S] @', '[s][z]', '[z][s][Z]@', 'Да@ - [s], @ [z|мн].'):
                ctx.count('odd_enumerated')
                compare(ctx, pattern.replace('@', text), world)


def run_unit(ctx, kind, *args):
    if kind == 'ends':
        return ends(ctx, *args)
    if kind == 'odd':
        return odd(ctx)
    if kind == 'massive':
        rng = ctx.rng(kind, *args)
        world = gen.World(rng, styles=('hostile', 'natural', 'sparse'), max_words=3, max_externals=4)
        built = core.Built(world)
        markers = [gen.marker(rng, world, messy=False) for _ in range(rng.choice((1, 30)))]
        markers = [m for m in markers if core.model_render(m, world.names, world.externals, world.dictionary)[0] == 'ok']
        pieces = [gen.literal(rng, maximum=8) + rng.choice(('', ' ', '%s', '%')) for _ in range(50)]
        if args[0] % 2 == 0:      # surely no marker that is not meant
            pieces = [piece.replace('[', ']') for piece in pieces]
        text = ''.join(rng.choice(pieces) + (rng.choice(markers) if markers else '') for _ in range(6000)) + rng.choice(pieces) * rng.choice((1, 50000))
        core.differential(ctx, built, text, message='rendered text is not the template text with its markers replaced')
        ctx.ev((kind,) + args)
        if core.model_render(text, world.names, world.externals, world.dictionary)[0] == 'ok':
            ctx.count('massive_rendered')
        return ctx.count('massive_templates')
    world = _fixed()
    if kind == 'strings':
        length, prefix = args
        for n in range(0, length - len(prefix) + 1):
            for tail in itertools.product(ALPHABET, repeat=n):
                compare(ctx, prefix + ''.join(tail), world)
    else:
        for code in range(args[0], args[0] + BLOCK):
            c = chr(code)
            if 0xD800 <= code <= 0xDFFF or c in '[]':
                continue
            text = '%s[s]%s%s[s|]%s[S]%s' % (c, c, c, c, c)
            compare(ctx, text, world)
            forms = [c, c + '[s]' + c, '%' + c]
            ext = {'s': spec.MForm(spec.MWord('TEXT', [forms[code % 3]], {}))}
            compare(ctx, 'x%[s]y[s]', (ext, {n: real.F(f) for n, f in ext.items()}, world[2], world[3]))


def run_random(ctx, rng):
    world = gen.World(rng, styles=('hostile', 'unique-hostile', 'sentinel', 'sparse', 'twins'), max_words=3)
    built = core.Built(world)
    for round in range(4):
        pieces = []
        made = []
        long = not round and rng.random() < 0.01
        medium = not long and rng.random() < 0.06
        ctx.count('long_templates', long)
        ctx.count('medium_templates', medium)
        if long:
            pieces.append(gen.literal(rng, maximum=20) * rng.choice((1, 1000)))
        for _ in range(rng.randint(60, 400) if long else rng.randint(8, 48) if medium else rng.randint(0, 6)):
            pieces.append(gen.literal(rng))
            if rng.random() < 0.15:
                pieces.append(''.join(rng.choice('[]%|s{}\\') for _ in range(rng.randint(1, 6))))
            if rng.random() < 0.2:
                pieces.append(rng.choice(TYPOGRAPHY))
                ctx.count('typography')
            if rng.random() < 0.25:
                pieces.append(rng.choice(SENTINELS))
                ctx.count('sentinels')
            if rng.random() < 0.8:
                m = rng.choice(made) if made and rng.random() < 0.3 else gen.marker(rng, world, errors=0.0 if long or medium else 0.01, messy=rng.random() < 0.3)
                made.append(m)
                pieces.append(m)
        if medium and rng.random() < 0.7:     # literal text at both ends
            pieces.insert(0, rng.choice(TYPOGRAPHY))
            pieces.append(rng.choice(TYPOGRAPHY))
        text = ''.join(pieces)
        expected = core.differential(ctx, built, text, message='rendered text is not the template text with its markers replaced')
        n = sum(1 for kind, _ in spec.split_template(text) if kind == 'marker')
        ctx.ev(text, n > 0 or '%' in text)
        if expected[0] == 'ok':
            ctx.count('markers_rendered', n)
            ctx.count('percent_templates', '%' in text)
            ctx.count('identical_markers', len(set(made)) < len(made))
            ctx.count('empty_substitutions', any(not core.model_render(m, world.names, world.externals, world.dictionary)[1] for m in set(made)))
            ctx.count('hostile_substitutions', any(ch in expected[1] for ch in '%[\\{'))
            ctx.sample(text)
