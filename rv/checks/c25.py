# coding: utf-8
import dis
import sys

from rv import core, gen, lib, real, spec

RULE = ('random operations on shared words, forms, templates, dictionaries and lexicons, each abandoned at a chosen bytecode instruction or line of '
        'the library by an exception that is not the library\'s own (interrupt, time limit, no memory, exhausted stack); the exception must come '
        'through, and afterwards the operation repeated and all probes (renderings, lookups, numbers, snapshots) must give what the model says. '
        'enumerated: the first use of the number cache abandoned at seeded points of a freshly imported library. '
        'non-trivial: distinct (operation, place of the interruption)')
RANDOM = {'quick': 2500, 'thorough': 25000}
REQUIRE = {'interrupted': 20000, 'completed_before': 200, 'repeated': 20000, 'probes': 100000, 'exhausted_stack': 1500, 'abandoned_additions': 1500, 'abandoned_parses': 1500,
           'abandoned_autofills': 800, 'first_numbers': 30, 'first_uses': 3000}


class Interrupt(BaseException):
    pass


class TimeLimit(Exception):
    pass


KINDS = (Interrupt, Interrupt, TimeLimit, MemoryError, KeyboardInterrupt)


LEAVING = {}
sys.unraisablehook = lambda *args: None     # an exception raised while an unfinished generator is closed cannot come out


def leaving(code):
    """offsets at which a with statement is being left: an exception there keeps any program from releasing what it holds"""
    if code not in LEAVING:
        ops = [i for i in dis.get_instructions(code) if i.opname not in ('CACHE', 'EXTENDED_ARG')]
        out = set()
        if any(i.opname == 'BEFORE_WITH' for i in ops):
            for a in range(len(ops) - 4):
                if [i.opname for i in ops[a:a + 5]] == ['LOAD_CONST'] * 3 + ['CALL', 'POP_TOP'] and all(i.argval is None for i in ops[a:a + 3]):
                    out.update(i.offset for i in ops[a:a + 4])
                    out.update(i.offset for i in ops[max(0, a - 1):a] if i.opname == 'SWAP')
            out.update(i.offset for i in ops if i.opname in ('PUSH_EXC_INFO', 'WITH_EXCEPT_START'))
        LEAVING[code] = out
    return LEAVING[code]


class Injector(object):
    """raises an exception at the k-th instruction (or line) executed in the library"""

    def __init__(self, k, kind, opcodes):
        self.k, self.kind, self.opcodes = k, kind, opcodes
        self.count = 0
        self.place = None
        self.raised = None

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(lib.UTG_ROOT):
            return None
        frame.f_trace_opcodes = self.opcodes
        frame.f_trace_lines = not self.opcodes
        return self.step

    def step(self, frame, event, arg):
        if event == 'opcode' or event == 'line':
            self.count += 1
            if self.count >= self.k > 0 and self.raised is None and frame.f_lasti not in leaving(frame.f_code):
                self.place = (frame.f_code.co_qualname, frame.f_lasti)
                self.raised = self.kind('abandoned')
                raise self.raised
        return self.step

    def run(self, operation):
        """-> ('abandoned', None) or the outcome"""
        old = sys.gettrace()
        sys._getframe().f_trace_opcodes = True      # so that settrace turns on events of instructions at once
        sys.settrace(self.call)
        try:
            value = operation()
        except BaseException as e:  # noqa
            sys.settrace(old)
            if e is self.raised:
                return ('abandoned', None)
            if isinstance(e, real.exceptions.UtgError):
                return ('err', type(e).__name__, repr(sorted(map(repr, e.arguments.items()))))
            if self.raised is not None and not isinstance(e, Exception):
                raise lib.Violation('another exception than the one that arrived came out', {'got': repr(e), 'place': repr(self.place)})
            raise
        finally:
            sys.settrace(old)
        return ('ok', value)


def depth():
    frame, n = sys._getframe(), 0
    while frame is not None:
        frame, n = frame.f_back, n + 1
    return n


def with_little_stack(operation, room):
    """the operation with so much stack left; -> as Injector.run"""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + room)
    try:
        value = operation()
    except RecursionError:
        return ('abandoned', None)
    except real.exceptions.UtgError as e:
        return ('err', type(e).__name__, repr(sorted(map(repr, e.arguments.items()))))
    finally:
        sys.setrecursionlimit(old)
    return ('ok', value)


class Side(object):
    """everything that is shared, built from the same model"""

    def __init__(self, case):
        self.case = case
        self.words = [real.W(w) for w in case.world.words]
        self.dictionary = real.dictionary.Dictionary(words=self.words)
        self.templates = [real.T(text, case.world.names) for text in case.texts]
        self.lexicon = real.lexicon.Lexicon()
        for key, i, restrictions in case.entries:
            self.lexicon.add_template(key, self.templates[i], restrictions=restrictions)
        self.renew()

    def renew(self):
        """forms that nobody has used"""
        self.externals = {n: core.real_external(f) for n, f in self.case.world.externals.items()}


class Case(object):
    def __init__(self, rng):
        self.world = gen.World(rng, styles=('sentinel', 'sound', 'shared', 'sparse', 'natural'), max_words=3, max_externals=4)
        if rng.random() < 0.5:
            self.world.externals['предлог'] = spec.MForm(spec.MWord('PREPOSITION', rng.choice((['в', 'во', 'вв'], ['к', 'ко', 'кк'], ['с', 'со', 'сс'], ['о', 'об', 'обо']))))
            self.world.externals['сон'] = spec.MForm(spec.MWord('NOUN', [rng.choice(('сон', 'лоб', 'рот'))] + [rng.choice(('сна', 'сну', 'рта', 'лбы', 'рты', 'всех', 'осы')) for _ in range(17)],
                                                                gen.const_props(rng, 'NOUN')), gen.relevant_props(rng, 'NOUN'))
        self.world.externals['число'] = spec.integer_form(gen.integer(rng))
        self.world.names = list(self.world.externals)
        self.texts = []
        for _ in range(3):
            text = gen.template(rng, self.world, markers=(1, 4), messy=False)
            if 'сон' in self.world.externals and rng.random() < 0.6:
                text += '[предлог|сон%s] [сон|число]' % rng.choice(('', '|мн', '|тв'))
            try:
                spec.MTemplate(text, self.world.names)
            except spec.MError:
                text = 'просто текст'
            self.texts.append(text)
        if rng.random() < 0.4:      # words that nobody knows
            k = rng.randrange(3)
            self.texts[k] = '%s [нетакого|%s] %s[нет]' % (rng.choice(('', '[нечто]', '[число]')), rng.choice(('мн', 'рд')), self.texts[k])
        self.entries = []
        for _ in range(rng.randint(1, 6)):
            self.entries.append((rng.choice(('к1', 'к2')), rng.randrange(3), frozenset(x for x in 'abc' if rng.random() < 0.4)))

    def expected(self, i):
        m = spec.MTemplate(self.texts[i], self.world.names)
        return real.model_outcome(lambda: m.substitute(self.world.externals, self.world.dictionary))


def probe(ctx, rng, case, side, what):
    """every other operation gives what it would give anyway"""
    for i, t in enumerate(side.templates):
        expected = case.expected(i)
        got = real.Observed(lambda: t.substitute(externals=side.externals, dictionary=side.dictionary))
        ctx.count('probes')
        ctx.check(got.matches(expected), 'an abandoned operation spoiled a rendering', template=case.texts[i], expected=expected, got=got, **what)
    for text in rng.sample(sorted(case.world.dictionary.index), min(4, len(case.world.dictionary.index))):
        f = case.world.dictionary.get(text)
        ctx.count('probes')
        ctx.check(side.dictionary.has_word(text), 'an abandoned operation made a text unknown', text=text, **what)
        got = side.dictionary.get_word(text)
        ctx.check(got.form == text and real.word_state(got.word) == f.word.key(), 'an abandoned operation changed the answer for a text', text=text, got=real.form_state(got),
                  expected=f, **what)
    for n in (rng.choice((0, 1, 2, 5, 11, 21, 9999, 10000)), rng.randrange(10001), gen.integer(rng)):
        f = real.constructors.construct_integer(n)
        ctx.check(f.form == str(n) and real.props_of(f.properties) == spec.integer_props(n), 'an abandoned operation spoiled a number', number=n, got=f.form, **what)
    for key in ('к1', 'к2', 'к3'):
        given = frozenset(x for x in 'abc' if rng.random() < 0.6)
        want = [id(side.templates[i]) for k, i, restrictions in case.entries if k == key and restrictions <= given]
        ctx.check([id(t) for t in side.lexicon.get_templates(key, restrictions=given)] == want, 'an abandoned operation changed a lexicon', key=key, **what)
    ctx.check([real.word_state(w) for w in side.words] == [w.key() for w in case.world.words], 'an abandoned operation changed a word', **what)
    listed = {real.word_state(w) for w in side.dictionary.get_words()}
    ctx.check(listed == {entry[1].word.key() for entry in case.world.dictionary.index.values()}, 'an abandoned operation changed the words of a dictionary', **what)
    for name, f in side.externals.items():
        ctx.check(f.form == case.world.externals[name].form and real.props_of(f.properties) == case.world.externals[name].props, 'an abandoned operation changed a form', name=name, **what)


READING = ('render', 'render', 'render', 'report', 'lookup', 'words', 'store', 'restore', 'compare', 'number', 'forms', 'choose', 'combine', 'form')


def reading(rng, case, op):
    """-> function of a side that gives a plain value"""
    i = rng.randrange(3)
    text = rng.choice(sorted(case.world.dictionary.index) + ['нет'])
    n = rng.choice((7, 10000, 10001, 123456789, 10 ** 6, -11))
    p, q = gen.props(rng, p=0.3), gen.props(rng, p=0.3)
    k = rng.randrange(1000)
    given = frozenset(x for x in 'abc' if rng.random() < 0.7)
    name = rng.choice(case.world.names)

    def forms(side):
        f = side.externals[name]
        return [f.word.form(real.P(p)), f.word.normal_form(), [x.form for x in f.word.all_forms()], real.words.WordForm(f.word, properties=real.P(q)).form,
                f.word.number_of_syllables, f.word.has_fluent_vowel, f.starts_with_consonant_cluster]

    def store(side):
        return [side.templates[i].serialize(), side.externals[name].word.serialize(), side.externals[name].properties.serialize()]

    def restore(side):
        t, w = side.templates[i], side.externals[name].word
        return [real.templates.Template.deserialize(t.serialize()) == t, real.words.Word.deserialize(w.serialize()) == w]

    def compare(side):
        t, f = side.templates[i], side.externals[name]
        return [t == side.templates[k % 3], f == side.externals[case.world.names[k % len(case.world.names)]], hash(f) == hash(f.word), f.word == f.word, str(f.properties)]

    def choose(side):
        t = side.lexicon.get_random_template('к1', given)
        u = side.lexicon.get_random_nearest_template('к1', given)
        return t in side.lexicon.get_templates('к1', given) and u in side.lexicon.get_templates('к1', given)

    return {
        'render': lambda side: side.templates[i].substitute(externals=side.externals, dictionary=side.dictionary),
        'report': lambda side: list(side.templates[i].get_undictionaried_words(side.externals, side.dictionary)),
        'lookup': lambda side: (side.dictionary.has_word(text), real.form_state(side.dictionary.get_word(text))),
        'words': lambda side: sorted(real.word_state(w) for w in side.dictionary.get_words()),
        'number': lambda side: real.form_state(real.constructors.construct_integer(n)),
        'combine': lambda side: [real.props_of(real.P(p).clone(real.P(q), real.prop('CASE', 'DATIVE'))), real.P(p).get_raw_key(real.wtype('NOUN').schema) is not None],
        'form': lambda side: [side.externals[name].form, side.externals[name].word.has_fluent_vowel],
        'forms': forms, 'store': store, 'restore': restore, 'compare': compare, 'choose': choose}[op]


def abandon(ctx, rng, case, side, twin, operation, what, tries):
    """runs the operation on the twin to learn its outcome and length, then abandons it on the other side several times, with fresh forms each time;
    after every time it must give the same when repeated"""
    side.renew()
    twin.renew()
    opcodes = rng.random() < 0.7
    counter = Injector(-1, Interrupt, opcodes)
    expected = counter.run(lambda: operation(twin))
    for _ in range(tries):
        side.renew()
        if rng.random() < 0.12:
            room = rng.randint(2, 14)
            got = with_little_stack(lambda: operation(side), room)
            place = ('stack', room)
            ctx.count('exhausted_stack', got[0] == 'abandoned')
        else:
            kind = rng.choice(KINDS)
            k = rng.randint(1, counter.count) if counter.count and rng.random() < 0.95 else counter.count + 1
            injector = Injector(k, kind, opcodes)
            got = injector.run(lambda: operation(side))
            place = injector.place
            ctx.maximum('instructions', counter.count)
        ctx.ev((what['operation'], place), got[0] == 'abandoned')
        detail = dict(what, place=repr(place))
        if got[0] == 'abandoned':
            ctx.count('interrupted')
            ctx.count('first_uses')
        else:
            ctx.count('completed_before')
            ctx.check(got == expected, 'an operation that swallowed an exception gives another result', expected=expected, got=got, **detail)
        again = Injector(-1, Interrupt, opcodes).run(lambda: operation(side)) if rng.random() < 0.2 else outcome(lambda: operation(side))
        ctx.count('repeated')
        ctx.check(again == expected, 'an abandoned operation gives another result when it is repeated', expected=expected, got=again, **detail)
        if rng.random() < 0.3:
            probe(ctx, rng, case, side, detail)
    probe(ctx, rng, case, side, what)


def outcome(call):
    try:
        return ('ok', call())
    except real.exceptions.UtgError as e:
        return ('err', type(e).__name__, repr(sorted(map(repr, e.arguments.items()))))


def once(ctx, rng, operation, length):
    """abandons a changing operation at one point -> (abandoned, place)"""
    if rng.random() < 0.12:
        room = rng.randint(2, 14)
        got = with_little_stack(operation, room)
        ctx.count('exhausted_stack', got[0] == 'abandoned')
        place = ('stack', room)
    else:
        opcodes = rng.random() < 0.7
        k = rng.randint(1, max(1, length[opcodes]))
        injector = Injector(k, rng.choice(KINDS), opcodes)
        got = injector.run(operation)
        place = injector.place
    ctx.count('interrupted' if got[0] == 'abandoned' else 'completed_before')
    ctx.check(got[0] != 'err', 'another exception than the one that arrived came out', got=got, place=repr(place))
    return got[0] == 'abandoned', place


def lengths(operation):
    out = {}
    for opcodes in (True, False):
        counter = Injector(-1, Interrupt, opcodes)
        counter.run(operation())
        out[opcodes] = counter.count
    return out


def adding(ctx, rng, case, side):
    uid = rng.randrange(300, 900)
    new = gen.word(rng, uid, style=rng.choice(('sentinel', 'shared', 'natural', 'sparse')))
    if case.world.words and rng.random() < 0.5:     # shares texts with known words
        old = rng.choice(case.world.words)
        new = spec.MWord(new.type, [rng.choice(old.forms) if rng.random() < 0.5 else f for f in new.forms], new.props)

    def fresh():
        s = Side(case)
        w = real.W(new)
        return lambda: s.dictionary.add_word(w)

    length = lengths(fresh)
    before = dict((text, case.world.dictionary.get(text)) for text in case.world.dictionary.index)
    word = real.W(new)
    for _ in range(3):
        if not 0 < len(side.words) < 12:
            break
        word = word if rng.random() < 0.5 else real.W(new)
        abandoned, place = once(ctx, rng, lambda: side.dictionary.add_word(word), length)
        ctx.count('abandoned_additions')
        ctx.ev(('add', place))
        after = spec.MDictionary(case.world.words + [new])
        detail = dict(word=new, place=repr(place), known=case.world.words)
        for text in after.index:
            f = after.get(text)
            states = {f.word.key()} | ({before[text].word.key()} if text in before else set())
            if text in before or not abandoned or side.dictionary.has_word(text):
                ctx.check(side.dictionary.has_word(text), 'an abandoned addition made a text unknown', text=text, **detail)
                got = side.dictionary.get_word(text)
                ctx.check(got.form == text and real.word_state(got.word) in states, 'an abandoned addition left a wrong answer', text=text, got=real.form_state(got), **detail)
    last = real.W(new) if rng.random() < 0.5 else word
    side.dictionary.add_word(last)
    case.world.words.append(new)
    side.words.append(last)
    case.world.dictionary.add(new)
    ctx.count('repeated')
    ctx.check(all(side.dictionary.has_word(text) and real.word_state(side.dictionary.get_word(text).word) == case.world.dictionary.get(text).word.key() for text in case.world.dictionary.index),
              'an abandoned addition is not completed by repeating it', word=new)


def parsing(ctx, rng, case, side):
    i = rng.randrange(3)
    text = gen.template(rng, case.world, markers=(0, 4), messy=False)
    try:
        model = spec.MTemplate(text, case.world.names)
    except spec.MError:
        return
    length = lengths(lambda: (lambda t: lambda: t.parse(text, externals=case.world.names))(real.templates.Template()))
    t = side.templates[i]
    for _ in range(3):
        abandoned, place = once(ctx, rng, lambda: t.parse(text, externals=case.world.names), length)
        ctx.ev(('parse', place))
        ctx.count('abandoned_parses')
        if abandoned:
            t.parse(text, externals=case.world.names)
        ctx.count('repeated')
        fresh = real.T(text, case.world.names)
        ctx.check(t == fresh and t.serialize() == fresh.serialize(), 'an abandoned parse spoils the next one', template=text, place=repr(place))
        expected = real.model_outcome(lambda: model.substitute(case.world.externals, case.world.dictionary))
        got = real.Observed(lambda: t.substitute(externals=side.externals, dictionary=side.dictionary))
        ctx.check(got.matches(expected), 'an abandoned parse spoils the next one', template=text, place=repr(place), expected=expected, got=got)
        other = rng.choice(case.texts)
        t.parse(other if rng.random() < 0.5 else case.texts[i], externals=case.world.names)
    case.texts[i] = text
    t.parse(text, externals=case.world.names)


def filling(ctx, rng):
    wtype = rng.choice(('NOUN', 'PRONOUN', 'VERB', 'PREPOSITION'))
    p = rng.choice((0.1, 0.4, 0.8))
    forms = [f if rng.random() < p else '' for f in gen.sentinel_forms(rng.randrange(500), wtype)]
    want = spec.autofill(wtype, forms)
    m = spec.MWord(wtype, forms, gen.const_props(rng, wtype))
    length = lengths(lambda: real.W(m).autofill_missed_forms)
    for _ in range(2):
        w = real.W(m)
        abandoned, place = once(ctx, rng, w.autofill_missed_forms, length)
        ctx.ev(('autofill', place))
        ctx.count('abandoned_autofills')
        after = list(w.forms)
        ctx.check(len(after) == len(forms), 'an abandoned autofill changed the number of forms', word=m, got=after, place=repr(place))
        for slot, texts in enumerate(want):
            ctx.check(after[slot] in texts or (abandoned and not forms[slot] and not after[slot]), 'an abandoned autofill left a wrong form', word=m, slot=slot, got=after[slot], expected=texts,
                      place=repr(place))
        other = real.W(m)
        other.autofill_missed_forms()
        ctx.check(all(f in texts for f, texts in zip(other.forms, want)), 'an abandoned autofill spoils that of another word', word=m, got=other.forms)


def storing(ctx, rng, case, side):
    """a template added to a lexicon"""
    key = rng.choice(('к1', 'к2', 'к4'))
    i = rng.randrange(3)
    restrictions = frozenset(x for x in 'abc' if rng.random() < 0.3)
    length = lengths(lambda: (lambda l: lambda: l.add_template(key, side.templates[i], restrictions=restrictions))(real.lexicon.Lexicon()))
    abandoned, place = once(ctx, rng, lambda: side.lexicon.add_template(key, side.templates[i], restrictions=restrictions), length)
    ctx.ev(('add template', place))
    ctx.count('abandoned_additions')

    def listed():
        return [id(t) for t in side.lexicon.get_templates(key, restrictions=frozenset('abc'))]
    old = [id(side.templates[j]) for k, j, _ in case.entries if k == key]
    for entry in (None, (key, i, restrictions)):
        if entry:
            side.lexicon.add_template(key, side.templates[i], restrictions=restrictions)
            ctx.count('repeated')
        got = listed()
        allowed = (old if abandoned else old + [id(side.templates[i])], old + [id(side.templates[i])]) if not entry else (old + [id(side.templates[i])], old + [id(side.templates[i])] * 2)
        ctx.check(got in allowed, 'an abandoned addition of a template changed the others, or is not completed by repeating it', key=key, place=repr(place), allowed=allowed, got=got)
    case.entries += [(key, i, restrictions)] * (len(got) - len(old))


def units(tier):
    return [('numbers', k) for k in range({'quick': 8, 'thorough': 64}[tier])]


def run_unit(ctx, kind, k):
    """the first construction of a number, abandoned, in a library that was just imported"""
    rng = ctx.rng(kind, k)
    for trial in range(6):
        real.purge()
        real.load()
        number = rng.choice((0, 7, 9999, 10000, rng.randrange(10001)))
        for _ in range(rng.choice((1, 1, 2, 3))):
            opcodes = rng.random() < 0.5
            place = rng.choice((rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 200000), rng.randint(1, 2000000)))
            injector = Injector(place, rng.choice(KINDS), opcodes)
            got = injector.run(lambda: real.form_state(real.constructors.construct_integer(number)))
            if got[0] == 'abandoned':
                ctx.count('first_numbers')
                ctx.count('interrupted')
            else:
                ctx.check(got[1][3] == str(number), 'a number is wrong', number=number, got=got)
            ctx.ev(('number', place, injector.place), got[0] == 'abandoned')
        for n in [number, 0, 1, 2, 5, 9999, 10000, 10001, -1, 10 ** 6] + [rng.randrange(10001) for _ in range(150)]:
            f = real.constructors.construct_integer(n)
            ctx.count('probes')
            ctx.check(f.form == str(n) and real.props_of(f.properties) == spec.integer_props(n), 'a number is wrong after the first construction was abandoned', number=n, got=f.form,
                      place=repr(place))
    real.purge()
    real.load()


def run_random(ctx, rng):
    case = Case(rng)
    side, twin = Side(case), Side(case)
    for _ in range(4):
        op = rng.choice(READING)
        abandon(ctx, rng, case, side, twin, reading(rng, case, op), {'operation': op, 'texts': case.texts}, 4)
    how = rng.random()
    if how < 0.35:
        adding(ctx, rng, case, side)
    elif how < 0.6:
        parsing(ctx, rng, case, side)
    elif how < 0.75:
        storing(ctx, rng, case, side)
    else:
        filling(ctx, rng)
    side.renew()
    probe(ctx, rng, case, side, {'operation': 'changes'})
    ctx.sample(case.texts)
