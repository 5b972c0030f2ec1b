# coding: utf-8
import gc
import signal
import sys
import time
import tracemalloc

from rv import core, gen, lib, real, spec

RULE = ('work is counted as the executed lines, branches, jumps, calls and generator steps of all Python code under an operation plus the comparisons '
        'and hashes of instrumented texts (sys.monitoring; deterministic), and as processor time for what runs inside C; each operation is measured '
        'at several sizes of what it is given, of the collections it uses and of the history before it; memory is the growth of traced allocations '
        'under library frames and of living library objects over thousands of distinct operations. non-trivial: distinct (operation, sizes) compared')
RANDOM = {'quick': 0, 'thorough': 0}
REQUIRE = {'scaled_with_template': 210, 'scaled_with_dictionary': 230, 'scaled_with_lexicon': 60, 'scaled_with_history': 280, 'operations_traced_for_memory': 11000,
           'processor_time_compared': 70, 'scaled_with_names': 80, 'listings': 3, 'times_compared_by_size': 40}
ASSUMPTIONS = ['work inside C code is seen only through comparisons and hashes of instrumented texts and through processor time with wide margins']
TOOL = 3
SLACK = 60      # events


def units(tier):
    n = 3 if tier == 'quick' else 16
    return [(kind, i) for kind in ('time', 'template', 'memory', 'dictionary', 'names', 'lexicon', 'history', 'listing', 'sizes') for i in range(n)]


class Counter(object):
    def __init__(self):
        self.n = 0
        self.on = False


COUNTER = Counter()


class Text(str):
    """a text whose comparisons and hashes are work"""
    __slots__ = ()

    def __eq__(self, other):
        COUNTER.n += 1
        return str.__eq__(self, other)

    def __ne__(self, other):
        COUNTER.n += 1
        return str.__ne__(self, other)

    def __lt__(self, other):
        COUNTER.n += 1
        return str.__lt__(self, other)

    def __gt__(self, other):
        COUNTER.n += 1
        return str.__gt__(self, other)

    def __hash__(self):
        COUNTER.n += 1
        return str.__hash__(self)


def prepare(ctx):
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'rv-work')

    def tick(*args):
        COUNTER.n += 1

    e = mon.events
    for event in (e.LINE, e.JUMP, e.BRANCH, e.PY_START, e.PY_RESUME, e.CALL):
        mon.register_callback(TOOL, event, tick)


def work(call, runs=3):
    """events of the cheapest run (later runs may use values calculated once)"""
    mon, e = sys.monitoring, sys.monitoring.events
    best = None
    for _ in range(runs):
        mon.set_events(TOOL, e.LINE | e.JUMP | e.BRANCH | e.PY_START | e.PY_RESUME | e.CALL)
        COUNTER.n = 0
        try:
            call()
        except real.exceptions.UtgError:
            pass
        finally:
            n = COUNTER.n
            mon.set_events(TOOL, 0)
        best = n if best is None else min(best, n)
    return best


def scaled(ctx, what, small, large, factor, **detail):
    """the work may grow at most by the factor the input grew"""
    ctx.ev((what, small, large))
    ctx.maximum('growth of ' + what, round(large / max(1, small), 2))
    ctx.check(large <= small * factor * 1.5 + SLACK, 'an operation takes more work than in proportion to what it is given', operation=what, work_before=small, work_after=large,
              allowed_factor=factor, **detail)


def flat(ctx, what, before, after, **detail):
    ctx.ev((what, before, after))
    ctx.check(after <= before * 1.4 + SLACK, 'an operation takes more work because of something it does not concern', operation=what, work_before=before, work_after=after, **detail)


def world_of(rng):
    world = gen.World(rng, styles=('sentinel', 'sentinel', 'sound', 'sparse'), max_words=4, max_externals=4)
    if not world.names:
        world.externals['hero'] = gen.external(rng, 31)
        world.names = ['hero']
    return world


def operations(text, names, externals, dictionary):
    """name -> call, on one template"""
    t = real.T(text, names)
    data = t.serialize()
    same = real.T(text, names)
    return {'parse': lambda: real.T(text, names), 'render': lambda: t.substitute(externals=externals, dictionary=dictionary),
            'parse again': lambda: t.parse(text, externals=names),
            'missing words': lambda: t.get_undictionaried_words(externals=externals, dictionary=dictionary), 'store': t.serialize,
            'restore': lambda: real.templates.Template.deserialize(data), 'compare': lambda: t == same,
            'no words': lambda: t.substitute(externals=externals, dictionary=real.dictionary.Dictionary()),
            'no variables': lambda: t.substitute(externals={}, dictionary=dictionary)}


def template(ctx, rng):
    """many markers, many dependencies, long lists"""
    world = world_of(rng)
    built = core.Built(world)
    name, governor = rng.choice(world.names), rng.choice(world.names)
    k = rng.choice((8, 12, 20))
    factor = rng.choice((16, 40))
    blocks = [gen.marker(rng, world, messy=rng.random() < 0.5) + gen.literal(rng, hostile=False) for _ in range(k)]
    shapes = {'markers': lambda n: ''.join(blocks) * n, 'same marker': lambda n: (blocks[0] + '%') * (k * n),
              'variables': lambda n: '[%s%s]' % (name, ('|' + governor) * (k * n)), 'lists': lambda n: '[%s%s]' % (name, '|мн,вн' * (k * n)),
              'items': lambda n: '[%s|%s]' % (name, ','.join(['мн', 'вн', 'мр'][i % 3] for i in range(k * n))),
              'unknown': lambda n: ''.join('[нет%d]' % i for i in range(k * n)), 'empty': lambda n: '[%s%s]' % (name, '|' * (k * n)),
              'text': lambda n: '%[] слово' * (k * n) + '[%s]' % name}
    for shape in sorted(shapes):
        small = operations(shapes[shape](1), world.names, built.externals, built.dictionary)
        large = operations(shapes[shape](factor), world.names, built.externals, built.dictionary)
        for op in sorted(small):
            ctx.count('scaled_with_template')
            scaled(ctx, '%s (%s)' % (op, shape), work(small[op]), work(large[op]), factor, size=k)


def many_words(rng, n, start, wtype=None):
    out = []
    for i in range(n):
        t = wtype or rng.choice(('NOUN', 'NOUN', 'VERB', 'TEXT', 'PREPOSITION', 'PRONOUN'))
        m = spec.MWord(t, [Text(f) for f in gen.sentinel_forms(start + i, t, prefix='ы')], gen.const_props(rng, t))
        out.append(m)
    return out


def dictionary(ctx, rng):
    """the same operations on a dictionary with few and with many other words"""
    world = world_of(rng)
    names = world.names
    text = gen.template(rng, world, markers=(3, 5), messy=False) + '[%s]' % rng.choice(world.texts or names)
    n = rng.choice((2000, 4000)) if ctx.tier == 'quick' else rng.choice((4000, 12000))
    ds, measured = [], []
    for size in (20, n):
        built = core.Built(world)
        d = built.dictionary
        for w in many_words(rng, size, 3000):
            d.add_word(real.words.Word(real.wtype(w.type), w.forms, real.P(w.props)))
        ops = operations(text, names, built.externals, d)
        del ops['no words']
        known = rng.choice(world.texts or ['нет'])
        noun = ['сущ%d' % i for i in range(18)]

        def add(forms, wtype, props):
            return lambda: d.add_word(real.words.Word(real.wtype(wtype), list(forms), real.P(props)))
        ops.update({'look up': lambda: d.get_word(known), 'look up a missing word': lambda: d.get_word('нет такого'), 'has': lambda: d.has_word(known),
                    'has not': lambda: d.has_word('нет такого'),
                    'add a word again': add(noun, 'NOUN', {}), 'add a homonym': add(['сущ1'] * 18, 'NOUN', {'GENDER': 'FEMININE'}),
                    'add a word of another type': add(['сущ3'], 'TEXT', {})})
        first = {}
        for k in range(3):
            forms = ['сущ%d-%d' % (k, i) for i in range(18)]
            first[k] = work(add(forms, 'NOUN', {'NUMBER': 'PLURAL'}), runs=1)
        row = {op: work(ops[op]) for op in sorted(ops)}
        row['add a word'] = min(first.values())
        measured.append(row)
    for op in sorted(measured[0]):
        ctx.count('scaled_with_dictionary', 5)
        flat(ctx, op + ' (size of the dictionary)', measured[0][op], measured[1][op], words=(20, n))


def names(ctx, rng):
    """many declared and bound variables that the template does not use; many forms known to nobody"""
    world = world_of(rng)
    text = gen.template(rng, world, markers=(3, 5), messy=False)
    rows = []
    for size in (3, 3000):
        built = core.Built(world)
        one = core.real_external(gen.external(rng, 90))
        externals = {Text('другое%d' % i): one for i in range(size)}
        externals.update(built.externals)
        rows.append({op: work(call) for op, call in operations(text, set(externals), externals, built.dictionary).items()})
    for op in sorted(rows[0]):
        ctx.count('scaled_with_names', 3)
        flat(ctx, op + ' (number of variables)', rows[0][op], rows[1][op])


def lexicon(ctx, rng):
    t = real.T('шаблон', [])
    rows = []
    same = rng.choice((10, 30))
    queries = lambda lex: {'list': lambda: lex.get_templates('k', frozenset('ab')), 'random': lambda: lex.get_random_template('k', frozenset('ab')),
                           'nearest': lambda: lex.get_random_nearest_template('k', frozenset('ab')), 'has': lambda: lex.has_key('k'),
                           'unknown': lambda: lex.get_random_template('unknown'), 'unsuitable': lambda: lex.get_random_template('z', frozenset('a')),
                           'add elsewhere': lambda: lex.add_template('new', t, frozenset('a'))}
    for others, under in ((10, same), (6000, same), (10, same * 20)):
        lex = real.lexicon.Lexicon()
        lex.add_template('z', t, frozenset('q'))
        for i in range(others):
            lex.add_template(Text('ключ%d' % i), t, frozenset('a'))
        for i in range(under):
            lex.add_template('k', t, frozenset(rng.choice(('', 'a', 'ab', 'b', 'abc'))))
        q = queries(lex)
        rows.append({op: work(q[op]) for op in sorted(q)})
    for op in rows[0]:
        ctx.count('scaled_with_lexicon', 3)
        flat(ctx, op + ' (other keys)', rows[0][op] * (2 if op in ('random', 'nearest', 'list') else 1), rows[1][op])
        scaled(ctx, op + ' (templates under the key)', rows[0][op], rows[2][op], 20 * (2 if op in ('random', 'nearest', 'list') else 1))


class Life(object):
    """long-lived objects, and endlessly many distinct operations on them and beside them"""

    def __init__(self, rng):
        self.rng = rng
        self.world = world_of(rng)
        self.built = core.Built(self.world)
        text = gen.template(rng, self.world, markers=(2, 4), messy=False)
        self.text = text + '[%s]' % self.world.names[0]
        self.template = real.T(self.text, self.world.names)
        self.reparsed = real.templates.Template()
        self.lexicon = real.lexicon.Lexicon()
        self.lexicon.add_template('k', self.template, frozenset('a'))
        self.word = real.W(gen.word(rng, 77, wtype='NOUN', style='sentinel', const='none'))
        self.serial = 0

    def plan(self, n):
        """the operations are made outside the measurement"""
        out = []
        for _ in range(n):
            self.serial += 1
            out.append(self.operation(self.serial))
        return out

    def operation(self, k):
        rng, d, exts, w = self.rng, self.built.dictionary, self.built.externals, self.world
        uid = 'ю%d' % k
        kind = k % 19
        t = real.templates
        if kind == 0:
            return lambda: self.template.substitute(externals=exts, dictionary=d)
        if kind == 1:
            return lambda: d.has_word(uid)
        if kind == 2:
            return lambda: d.get_word(uid)
        if kind == 3:
            n = rng.choice((10001, 10 ** 6, 10 ** 30)) + k
            return lambda: real.constructors.construct_integer(n).form
        if kind == 4:
            return lambda: self.reparsed.parse('%s [%s] %s' % (uid, w.names[0], uid), externals=w.names)
        if kind == 5:
            return lambda: self.reparsed.parse('%s [%s|%s]' % (uid, w.names[0], uid), externals=w.names)
        if kind == 6:
            text = gen.template(rng, w, markers=(1, 3), errors=0.2) + uid
            return lambda: t.Template.deserialize(real.T(text, w.names).serialize()).substitute(externals=exts, dictionary=d)
        if kind == 7:
            return lambda: self.lexicon.get_random_template(uid, frozenset('a'))
        if kind == 8:
            return lambda: self.lexicon.get_random_nearest_template('k', frozenset(('a', uid)))
        if kind == 9:
            m = gen.external(rng, 100000 + k, style='sentinel')

            def bound():
                f = core.real_external(m)
                e = dict(exts)
                e[w.names[0]] = f
                f.form, str(f.properties), hash(f), f == f
                return self.template.substitute(externals=e, dictionary=d)
            return bound
        if kind == 10:
            m = gen.word(rng, 200000 + k, style='sparse')

            def fill():
                x = real.W(m)
                x.autofill_missed_forms()
                x.normal_form(), hash(x), x == real.W(m)
                return real.words.Word.deserialize(x.serialize())
            return fill
        if kind == 11:
            m = [gen.word(rng, 300000 + k * 3 + i, style='shared') for i in range(3)]

            def own():
                own_d = real.dictionary.Dictionary(words=[real.W(x) for x in m])
                return len(own_d.get_words())
            return own
        if kind == 12:
            p = gen.props(rng)
            return lambda: self.word.form(real.P(p))
        if kind == 13:
            return lambda: self.template.get_undictionaried_words(externals={uid: None}, dictionary=d)
        if kind == 14:
            return lambda: real.words.Word(real.wtype('NOUN'), [uid])
        if kind == 15:
            p, q = gen.props(rng), gen.props(rng)
            return lambda: hash(real.words.Properties(real.P(p), real.P(q)).clone(real.P(q))) and real.words.Properties.deserialize(real.P(p).serialize())
        if kind == 16:
            data = {'template': uid + '%s', 'substitutions': [{'id': uid, 'dependencies': [uid, {}]}]}
            return lambda: t.Template.deserialize(data).substitute(externals=exts, dictionary=d)
        if kind == 17:
            return lambda: [f.form for f in self.word.all_forms()][:1]
        forms = [uid + str(i) for i in range(18)]

        def lexicons():
            lex = real.lexicon.Lexicon()
            lex.add_template(uid, self.template, frozenset((uid,)))
            return lex.get_templates(uid, frozenset((uid,)))
        return lexicons if rng.random() < 0.5 else (lambda: real.words.Word(real.wtype('NOUN'), forms).number_of_syllables)

    def standard(self):
        w, d, exts = self.world, self.built.dictionary, self.built.externals
        m = spec.MWord('NOUN', [('я%d' % i if i % 3 else '') for i in range(18)])

        def fill():
            x = real.W(m)
            x.autofill_missed_forms()
        ops = operations(self.text, w.names, exts, d)
        ops.update({'number': lambda: real.constructors.construct_integer(10 ** 7 + 3), 'small number': lambda: real.constructors.construct_integer(7),
                    'fill': fill, 'form': lambda: self.word.form(real.P({'CASE': 'DATIVE'})), 'choose': lambda: self.lexicon.get_random_template('k', frozenset('a')),
                    'dictionary': lambda: real.dictionary.Dictionary(words=[self.word]),
                    'new template': lambda: real.T('%[' + w.names[0] + '|вн]', w.names)})
        return {op: work(ops[op]) for op in sorted(ops)}


def perform(call):
    try:
        call()
    except real.exceptions.UtgError:
        pass


def history(ctx, rng):
    life = Life(rng)
    before = life.standard()
    n = 3000 if ctx.tier == 'quick' else 12000
    for call in life.plan(n):
        perform(call)
    after = life.standard()
    for op in before:
        ctx.count('scaled_with_history', 6)
        flat(ctx, op + ' (operations before)', before[op], after[op], operations=n)


def living():
    gc.collect()
    out = {}
    for o in gc.get_objects():
        c = type(o)
        module = getattr(c, '__module__', None)
        if isinstance(module, str) and (module == 'utg' or module.startswith('utg.')):
            out[c.__name__] = out.get(c.__name__, 0) + 1
    return out


def traced():
    gc.collect()
    snapshot = tracemalloc.take_snapshot()
    return sum(t.size for t in snapshot.traces if any(f.filename.startswith(lib.UTG_ROOT) for f in t.traceback))


def kept(objects, size, more, grown, n):
    """what was kept by n operations, or None"""
    for name in sorted(more):
        if more[name] - objects.get(name, 0) > 8:
            return 'objects are kept after the operations that made them', {'type': name, 'before': objects.get(name, 0), 'after': more[name]}
    if grown - size > 3 * n:
        return 'memory is kept after operations are finished', {'bytes_before': size, 'bytes_after': grown}
    return None


def memory(ctx, rng):
    """operations keep nothing; what fills a store of limited size stops growing (the windows are repeated until it does, for 40000 operations or some minutes at most)"""
    life = Life(rng)
    n = 1900 if ctx.tier == 'quick' else 5700
    until = time.monotonic() + (200 if ctx.tier == 'quick' else 400)
    tracemalloc.start(12)
    try:
        for call in life.plan(n):       # fills what is filled once
            perform(call)
        done = window = n
        while True:
            plan = life.plan(window)
            objects, size = living(), traced()
            for call in plan:
                perform(call)
            call = None
            more, grown = living(), traced()
            done += window
            del plan
            what = kept(objects, size, more, grown, window)
            ctx.count('operations_traced_for_memory', 2 * window)
            if what is None or done > 40000 or time.monotonic() > until:
                break
            ctx.count('windows_repeated')
            window = 2 * n
    finally:
        tracemalloc.stop()
    ctx.ev(('memory', life.text))
    ctx.maximum('bytes kept after %d operations' % n, grown - size)
    ctx.check(what is None, what and what[0], operations=done, window=window, **(what[1] if what else {}))


class TooLong(Exception):
    pass


def seconds(call, limit=90):
    def alarm(*args):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        best = None
        for _ in range(3):
            t = time.process_time()
            perform(call)
            t = time.process_time() - t
            best = t if best is None else min(best, t)
            if best > 5:
                break
        return best
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def clock(ctx, rng):
    """work inside C code: regular expressions, joining, searching"""
    world = world_of(rng)
    built = core.Built(world)
    name = world.names[0]
    size, factor = 300, 32
    built.externals['длинное'] = real.words.WordForm(real.words.Word(real.wtype('TEXT'), ['длинный текст ' * 30]))
    shapes = {'markers': '[%s] слово ' % name, 'text': 'а' * 10, 'percents': '%%s', 'closed': '[]', 'closing': ']', 'spaces': ' \t', 'marker with a long name': None,
              'long list': None, 'long missing name': None, 'letters in a bracket': None, 'lines': 'а\n', 'spaces in a marker': None, 'one open bracket': None,
              'open brackets': '[' * 8, 'markers of a long form': '[длинное]', 'markers between long texts': '[%s]%s' % (name, 'ж ' * 150), 'open brackets and bars': '[|а' * 8, 'open brackets after a marker': None}
    for shape in sorted(shapes):
        def make(n):
            return {'marker with a long name': '[%s]' % ('а' * n * 10), 'long list': '[%s|%s]' % (name, 'мн,' * n), 'long missing name': '[%s|%s]' % (name, 'я ' * n),
                    'letters in a bracket': '[%s|%s]%%' % (name, ' ' * n * 10), 'spaces in a marker': '[%s%s%s]' % (' ' * n, name, ' ' * n),
                    'one open bracket': 'а' * n + '[' + 'б ' * n, 'open brackets after a marker': '[%s]' % name + '[а ' * n * 8}.get(shape) or shapes[shape] * n
        for op in ('parse', 'render'):
            texts = [make(size), make(size * factor)]
            times = []
            try:
                for text in texts:
                    if op == 'parse':
                        times.append(seconds(lambda: real.T(text, world.names)))
                    else:
                        t = real.templates.Template()
                        try:
                            t.parse(text, externals=world.names)
                        except real.exceptions.UtgError:
                            break
                        times.append(seconds(lambda: t.substitute(externals=built.externals, dictionary=built.dictionary)))
            except TooLong:
                ctx.fail('an operation does not finish', operation=op, shape=shape, text=text[:200], length=len(text))
            if len(times) < 2:
                continue
            ctx.count('processor_time_compared')
            ctx.ev((op, shape))
            ctx.maximum('time growth of %s (%s) for %d times the text' % (op, shape, factor), round(times[1] / max(times[0], 1e-4), 1))
            ctx.check(times[1] < 0.5 or times[1] < max(times[0], 1e-4) * factor * 8, 'an operation takes more time than in proportion to the text', operation=op, shape=shape,
                      seconds=times, lengths=[len(x) for x in texts])


def sizes(ctx, rng):
    """work inside C code that depends on the size of the dictionary or the lexicon (copies, searches)"""
    world = world_of(rng)
    text = gen.template(rng, world, markers=(3, 5), messy=False)
    t = real.T('шаблон', [])
    rows = []
    for size in (300, 60000):
        built = core.Built(world)
        d, lex = built.dictionary, real.lexicon.Lexicon()
        for i in range(size):
            d.add_word(real.words.Word(real.wtype('TEXT'), ['слово%d' % i]))
            lex.add_template('ключ%d' % i, t, frozenset('a'))
        lex.add_template('k', t, frozenset('a'))
        ops = operations(text, world.names, built.externals, d)
        ops = {op: ops[op] for op in ('render', 'missing words')}
        fresh = iter(range(10 ** 9))
        ops.update({'look up': lambda: d.get_word('слово7'), 'has': lambda: d.has_word('слово7'), 'has not': lambda: d.has_word('нет'), 'look up a missing word': lambda: d.get_word('нет'),
                    'add': lambda: d.add_word(real.words.Word(real.wtype('TEXT'), ['новое%d' % next(fresh)])),
                    'add again': lambda: d.add_word(real.words.Word(real.wtype('TEXT'), ['слово7'])),
                    'list templates': lambda: lex.get_templates('k', frozenset('a')), 'choose': lambda: lex.get_random_template('k', frozenset('a')),
                    'choose nearest': lambda: lex.get_random_nearest_template('k', frozenset('a')), 'has key': lambda: lex.has_key('k'),
                    'add template': lambda: lex.add_template('новое%d' % next(fresh), t, frozenset('a')), 'unknown key': lambda: lex.get_random_template('нет')})

        def often(call):
            for _ in range(200):
                perform(call)
        try:
            rows.append({op: seconds(lambda: often(ops[op])) for op in sorted(ops)})
        except TooLong:
            ctx.fail('an operation does not finish', size=size, template=text)
    for op in sorted(rows[0]):
        ctx.count('times_compared_by_size')
        ctx.ev((op, 'by size'))
        ctx.maximum('time of %s in a collection 200 times as large' % op, round(rows[1][op] / max(rows[0][op], 1e-4), 1))
        ctx.check(rows[1][op] < 0.04 or rows[1][op] < max(rows[0][op], 1e-4) * 8, 'an operation takes more time because of something it does not concern', operation=op, seconds=(rows[0][op], rows[1][op]),
                  sizes=(300, 60000), template=text)


def listing(ctx, rng):
    """listing the words of a dictionary"""
    rows = []
    wtype = rng.choice(('TEXT', 'PREPOSITION'))
    for n in (60, 600):
        d = real.dictionary.Dictionary()
        for w in many_words(rng, n, 3000, wtype=wtype):
            d.add_word(real.words.Word(real.wtype(w.type), [str(f) for f in w.forms]))
        rows.append(work(d.get_words, runs=1))
    ctx.count('listings')
    ctx.ev(('listing', rows[0], rows[1]))
    ctx.check(rows[1] <= rows[0] * 100 * 1.5 + SLACK, 'listing the words of a dictionary takes more work than for every pair of its words', work=rows)
    if rows[1] > rows[0] * 10 * 1.5 + SLACK:
        ctx.finding('get_words:quadratic', 'listing the words of a dictionary takes more work than in proportion to its words', work=rows)


KINDS = {'template': template, 'dictionary': dictionary, 'names': names, 'lexicon': lexicon, 'history': history, 'memory': memory, 'time': clock, 'listing': listing, 'sizes': sizes}


def run_unit(ctx, kind, i):
    KINDS[kind](ctx, ctx.rng(kind, i))
