# coding: utf-8
import threading

from rv import core, gen, lib, real, sched, spec

RULE = ('2-4 threads run operations (render, look up, form text, construct numbers, parse, fail to parse, serialise, report missing words, compare, hash, list words, choose templates, fill new words; '
        'optionally one or two add unrelated words and templates) on shared, never yet used objects; a trace hook before every bytecode instruction of the '
        'library lets a seeded policy choose which thread goes on; every result is compared with the sequential model; the same programs also '
        'run freely with a 1 microsecond switch interval. non-trivial: distinct interleavings (sequence of switch points) with at least one switch')
RANDOM = {'quick': 2000, 'thorough': 50000}
REQUIRE = {'scheduled_runs': 1400, 'free_runs': 300, 'switches': 20000, 'operations': 5000, 'first_use_of_number_cache': 60,
           'first_use_of_forms': 1500, 'runs_with_writer': 400, 'words_added_meanwhile': 800, 'words_listed': 600, 'rivals': 250, 'templates_chosen': 1800, 'templates_added_meanwhile': 300, 'two_writers': 100, 'filled': 300, 'failing_parses': 300}


def units(tier):
    return [('numbers', i) for i in range({'quick': 64, 'thorough': 900}[tier])] + \
        [('lexicon', i) for i in range({'quick': 64, 'thorough': 900}[tier])]


class Program(object):
    """shared objects, and per thread a list of (description, call, verdict); verdict(result) -> None or what was expected"""

    def __init__(self, ctx, rng, fresh_library=False, choosing=None):
        self.ctx, self.rng = ctx, rng
        if fresh_library:
            real.purge()
            real.reload_names()
        self.world = gen.World(rng, styles=('sentinel', 'sound', 'shared', 'sparse'), max_words=3, max_externals=4)
        governed = rng.random() < 0.4
        if governed:     # a preposition and a one-syllable word with a fluent vowel: lazily found out about the word
            self.world.externals['предлог'] = spec.MForm(spec.MWord('PREPOSITION', rng.choice((['в', 'во', 'вв'], ['к', 'ко', 'кк'], ['с', 'со', 'сс']))))
            self.world.externals['сон'] = spec.MForm(spec.MWord('NOUN', [rng.choice(('сон', 'лоб', 'рот'))] + [rng.choice(('сна', 'сну', 'рта', 'лбы', 'рты')) for _ in range(17)],
                                                                gen.const_props(rng, 'NOUN')), gen.relevant_props(rng, 'NOUN'))
            self.world.names = list(self.world.externals)
        rival = rng.random() < 0.2     # two prepositions that take the same words differently
        if rival:
            self.world.externals['предлог'] = spec.MForm(spec.MWord('PREPOSITION', ['в', 'во', 'вв']))
            self.world.externals['соперник'] = spec.MForm(spec.MWord('PREPOSITION', rng.choice((['к', 'ко', 'кк'], ['с', 'со', 'сс'], ['из', 'изо', 'изз'], ['о', 'об', 'обо']))))
            text = rng.choice(('вход', 'всё', 'фраза', 'взгляд', 'страх', 'знак', 'шкаф', 'мне', 'мной', 'всех', 'лоб', 'арка', 'ярость', 'щука', 'жбан'))
            self.world.externals['слово'] = spec.MForm(spec.MWord('NOUN', [text] * 18, gen.const_props(rng, 'NOUN')))
            self.world.names = list(self.world.externals)
            self.ctx.count('rivals')
        self.built = core.Built(self.world)
        self.dictionary = self.built.dictionary
        self.templates = []
        for _ in range(rng.randint(1, 3) if not rival else 2):
            text = gen.template(rng, self.world, markers=(1, 2), errors=0.03, messy=False)
            if governed and rng.random() < 0.5:
                text = '[предлог|сон] [сон|%s]' % rng.choice(('рд', 'дт', 'мн,тв'))
            if rival:
                text = '[%s|слово] [слово|вн]' % ('предлог', 'соперник')[len(self.templates) % 2]
            try:
                m = spec.MTemplate(text, self.world.names)
            except spec.MError:
                continue
            self.templates.append((text, m, real.T(text, self.world.names)))
        self.props = [(p, real.P(p)) for p in (gen.props(rng) for _ in range(2))]
        self.mwords = self.world.words + [f.word for f in self.world.externals.values()]
        self.rwords = self.built.words + [f.word for f in self.built.externals.values()]
        self.before = list(self.world.words)
        self.choosing = rng.random() < 0.2 if choosing is None else choosing
        self.lexicon = real.lexicon.Lexicon()
        self.entries = []
        for i in range(rng.randint(1, 5) if not self.choosing else 8):
            self.entries.append((rng.choice('kz'), real.T('шаблон %d' % i, []), frozenset(x for x in 'abc' if rng.random() < 0.4)))
            self.lexicon.add_template(*self.entries[-1][:2], restrictions=self.entries[-1][2])
        self.added = []
        self.second = []        # keys of templates added meanwhile
        self.foreign = real.T('чужой', [])

    def same(self, expected):
        return lambda got: None if got.matches(expected) else expected

    def equal(self, value):
        return self.same(('ok', value))

    def op(self):
        """-> (text, call, verdict)"""
        rng, world, built = self.rng, self.world, self.built
        kinds = ['number', 'lookup', 'listing', 'props', 'choose', 'choose', 'autofill', 'bad-parse']
        if self.templates:
            kinds += ['render'] * 4 + ['parse', 'serialise', 'missing', 'template-eq']
        if world.externals:
            kinds += ['text'] * 3 + ['form', 'form-eq']
        if self.mwords:
            kinds += ['form', 'normal', 'word-eq', 'word-data', 'all-forms', 'own-dictionary']
        if len(self.templates) == 2 and 'соперник' in world.externals:
            kinds += ['render'] * 25
        if self.choosing:
            kinds += ['choose'] * 60
        kind = rng.choice(kinds)
        obs = real.Observed
        if kind == 'render':
            text, m, t = rng.choice(self.templates)
            expected = real.model_outcome(lambda: m.substitute(world.externals, world.dictionary))
            return ('render ' + text, lambda: obs(lambda: t.substitute(externals=built.externals, dictionary=self.dictionary)), self.same(expected))
        if kind == 'parse':
            text, m, _ = rng.choice(self.templates)
            expected = real.model_outcome(lambda: m.substitute(world.externals, world.dictionary))
            return ('parse and render ' + text, lambda: core.real_render(text, world.names, built.externals, self.dictionary), self.same(expected))
        if kind == 'serialise':
            text, m, t = rng.choice(self.templates)
            expected = real.model_outcome(lambda: m.substitute(world.externals, world.dictionary))
            return ('store, restore and render ' + text, lambda: obs(lambda: real.templates.Template.deserialize(t.serialize()).substitute(
                externals=built.externals, dictionary=self.dictionary)), self.same(expected))
        if kind == 'missing':
            text, m, t = rng.choice(self.templates)
            expected = [x.id for x in m.markers if x.id not in world.externals and not world.dictionary.has(x.id)]
            return ('missing words of ' + text, lambda: obs(lambda: t.get_undictionaried_words(externals=built.externals, dictionary=self.dictionary)),
                    self.equal(expected))
        if kind == 'template-eq':
            text, m, t = rng.choice(self.templates)
            return ('compare templates', lambda: obs(lambda: t == real.T(text, world.names)), self.equal(True))
        if kind == 'autofill':      # of a word nobody else has
            t = rng.choice(('NOUN', 'NOUN', 'PREPOSITION', 'PRONOUN', 'VERB'))
            forms = ['%s%d' % (rng.choice('абв'), i) if rng.random() < 0.3 else '' for i in range(spec.NFORMS[t])]
            allowed = spec.autofill(t, forms)
            self.ctx.count('filled')

            def fill():
                word = real.words.Word(real.wtype(t), list(forms))
                word.autofill_missed_forms()
                return word.forms
            return ('fill %s %r' % (t, forms), lambda: obs(fill), lambda got: None if got.error is None and len(got.value) == len(allowed) and
                    all(x in texts for x, texts in zip(got.value, allowed)) else allowed)
        if kind == 'bad-parse':
            wrong = rng.choice(('неизвестное', 'ошибка', 'мнн', 'xx'))
            text = '%s [x|%s%s]' % (rng.choice(('', '[y|мн] [z|рд]')), rng.choice(('', 'мн,')), wrong)
            self.ctx.count('failing_parses')
            return ('parse ' + text, lambda: obs(lambda: real.T(text, ['x'])), self.same(('err', 'UnknownVerboseIdError', wrong)))
        if kind == 'number':
            n = rng.choice((0, 1, 2, 5, 11, 21, 22, 112, 777, 9999, 10000, 10001, 1000000, -1)) if rng.random() < 0.5 else rng.randrange(10001)
            want = spec.integer_props(n)

            def call():
                f = real.constructors.construct_integer(n)
                return (f.form, real.props_of(f.properties), real.props_of(f.word.properties), list(f.word.forms))
            return ('number %d' % n, lambda: obs(call), self.equal((str(n), want, want, [str(n)])))
        if kind == 'choose':
            key, given = rng.choice('kkkzzzu'), frozenset(x for x in 'abc' if rng.random() < 0.6)
            suitable = [e for e in self.entries if e[0] == key and e[2] <= given]
            best = max([len(e[2]) for e in suitable], default=0)
            how = rng.choice(('list', 'random', 'random', 'nearest', 'nearest'))
            self.ctx.count('templates_chosen')
            if how == 'list':
                return ('list templates of %s for %s' % (key, sorted(given)), lambda: obs(lambda: [id(t) for t in self.lexicon.get_templates(key, given)]),
                        self.equal([id(e[1]) for e in suitable]))
            allowed = {id(e[1]) for e in suitable if how == 'random' or len(e[2]) == best}
            error = None if suitable else 'NoTemplatesWithSpecifiedRestrictions' if any(e[0] == key for e in self.entries) else 'UnknownLexiconKeyError'

            def verdict(got):
                if error:
                    return None if got.matches(('err', error, None)) else error
                return None if got.error is None and got.value in allowed else 'one of the suitable templates'
            choose = self.lexicon.get_random_template if how == 'random' else self.lexicon.get_random_nearest_template
            return ('choose a %s template of %s for %s' % (how, key, sorted(given)), lambda: obs(lambda: id(choose(key, given))), verdict)
        if kind == 'lookup':
            text = rng.choice(world.texts) if world.texts and rng.random() < 0.8 else 'нетслова'
            expected = real.model_outcome(lambda: lookup_model(world.dictionary, text))

            def call():
                f = self.dictionary.get_word(text)
                assert self.dictionary.has_word(text)
                return (real.word_state(f.word), f.form)
            return ('look up ' + text, lambda: obs(call), self.same(expected))
        if kind == 'listing':
            base = {w_state(w) for w in owners(world.dictionary)}

            def verdict(got):
                if got.error is not None:
                    return 'the words listed'
                missing = base - got.value
                foreign = got.value - base - {w_state(w) for w in self.added}
                return ('missing %r, foreign %r' % (missing, foreign)) if missing or foreign else None
            self.ctx.count('words_listed')
            return ('list words', lambda: obs(lambda: {real.word_state(w) for w in self.dictionary.get_words()}), verdict)
        if kind == 'props':
            (a, ra), (b, rb) = rng.choice(self.props), rng.choice(self.props)
            want = dict(a)
            want.update(b)
            return ('combine', lambda: obs(lambda: (real.props_of(real.words.Properties(ra, rb)), hash(ra) == hash(ra.clone()), ra == ra.clone())),
                    self.equal((ordered(want), True, True)))
        if kind == 'text':
            name = rng.choice(sorted(world.externals))
            m, f = world.externals[name], built.externals[name]
            self.ctx.count('first_use_of_forms')
            return ('text of ' + name, lambda: obs(lambda: f.form), self.equal(m.form))
        if kind == 'form-eq':
            name = rng.choice(sorted(world.externals))
            f = built.externals[name]
            m = world.externals[name]
            return ('compare forms', lambda: obs(lambda: (f == f, hash(f) == hash(f), f == core.real_external(m))), self.equal((True, True, True)))
        i = rng.randrange(len(self.mwords)) if self.mwords else None
        if i is None:
            return self.op()
        m, w = self.mwords[i], self.rwords[i]
        if kind == 'form':
            p = gen.relevant_props(rng, m.type)
            return ('form of word %d' % i, lambda: obs(lambda: w.form(real.P(p))), self.equal(m.form(p)))
        if kind == 'normal':
            return ('normal form of word %d' % i, lambda: obs(w.normal_form), self.equal(m.form(m.props)))
        if kind == 'word-eq':
            return ('compare word %d' % i, lambda: obs(lambda: (w == real.W(m), hash(w) == hash(real.W(m)))), self.equal((True, True)))
        if kind == 'word-data':
            return ('store word %d' % i, lambda: obs(lambda: real.word_state(real.words.Word.deserialize(w.serialize()))), self.equal(w_state(m)))
        if kind == 'all-forms':
            return ('all forms of word %d' % i, lambda: obs(lambda: [f.word.forms[k] for k, f in enumerate(w.all_forms())]), self.equal(list(m.forms)))

        def own():
            d = real.dictionary.Dictionary(words=[w])
            return sorted(t for t in set(m.forms) if not d.has_word(t))
        reachable = spec.MDictionary([m]).index
        return ('dictionary of word %d' % i, lambda: obs(own), self.equal(sorted(t for t in set(m.forms) if t not in reachable)))

    def plan(self, n, writer, number=None):
        rng = self.rng
        threads = []
        if number is not None:
            for _ in range(n):
                ops = []
                for _ in range(rng.randint(1, 2)):
                    k = rng.choice((number, number, 0, 9999, 10000, 5000, rng.randrange(10001)))
                    want = spec.integer_props(k)

                    def call(k=k):
                        f = real.constructors.construct_integer(k)
                        return (f.form, real.props_of(f.properties), f.word.type.name)
                    ops.append(('number %d' % k, lambda call=call: real.Observed(call), self.equal((str(k), want, 'INTEGER'))))
                threads.append(ops)
            return threads
        if rng.random() < 0.4 and not self.choosing:      # everybody does the same thing on the same objects
            ops = [self.op() for _ in range(rng.randint(1, 2))]
            threads = [list(ops) for _ in range(n)]
        else:
            threads = [[self.op() for _ in range(rng.randint(1, 3) if not self.choosing else rng.randint(2, 6))] for _ in range(n)]
        if writer:
            self.ctx.count('runs_with_writer')
            threads[-1] = []
            for k in range(rng.randint(1, 3)):
                t = rng.choice(spec.TYPES)
                w = spec.MWord(t, ['новое%s' % f for f in gen.sentinel_forms(5000 + k, t)], {})
                self.added.append(w)
                rw = real.W(w)
                self.ctx.count('words_added_meanwhile')
                threads[-1].append(('add word', lambda rw=rw: real.Observed(lambda: self.dictionary.add_word(rw)), self.equal(None)))
            for k in range(rng.randint(0, 3) if not self.choosing else 6):      # unrelated: under another key, or with a restriction nobody has
                key = rng.choice([e[0] for e in self.entries] + ['other%d' % k])
                threads[-1].append(('add template', lambda key=key: real.Observed(lambda: self.lexicon.add_template(key, self.foreign, restrictions=frozenset('q'))), self.equal(None)))
                self.ctx.count('templates_added_meanwhile')
                self.second.append(key)
            threads[0].append(self.listing())
            if n > 2 and rng.random() < 0.5:        # somebody else adds too, other texts and other keys
                self.ctx.count('two_writers')
                threads[-2] = []
                for k in range(rng.randint(1, 2)):
                    t = rng.choice(('NOUN', 'TEXT', 'PREPOSITION', 'PRONOUN'))
                    w = spec.MWord(t, ['иное%s' % f for f in gen.sentinel_forms(6000 + k, t)], {})
                    self.added.append(w)
                    rw = real.W(w)
                    threads[-2].append(('add word', lambda rw=rw: real.Observed(lambda: self.dictionary.add_word(rw)), self.equal(None)))
                for k in range(rng.randint(0, 3)):
                    key = 'second%d' % k
                    self.second.append(key)
                    threads[-2].append(('add template', lambda key=key: real.Observed(lambda: self.lexicon.add_template(key, self.foreign, restrictions=frozenset('q'))), self.equal(None)))
        return threads

    def listing(self):
        while True:
            op = self.op()
            if op[0] == 'list words':
                return op


def w_state(m):
    return (m.type, tuple(m.forms), tuple(sorted(m.props.items())))


def ordered(p):
    return {g: p[g] for g in spec.GROUPS if g in p}


def owners(mdict):
    return [mdict.get(t).word for t in mdict.index]


def lookup_model(mdict, text):
    f = mdict.get(text)
    if f is None:
        raise spec.MError('NoWordsFoundError', text)
    return (w_state(f.word), f.form)


def execute(ctx, program, threads, scheduler):
    def job(ops):
        def call():
            return [(text, c()) for text, c, _ in ops]
        return call
    try:
        if scheduler is None:
            results = sched.free_run([job(ops) for ops in threads])
        else:
            results = scheduler.run([job(ops) for ops in threads])
    except sched.Stuck as e:
        ctx.fail('concurrent operations do not finish', operations=[[o[0] for o in ops] for ops in threads], problem=e)
    for ops, result in zip(threads, results):
        if result[0] == 'raised':
            if lib.library_frames(result[1]):
                ctx.fail('an operation running concurrently raised %s: %s' % (type(result[1]).__name__, result[1]),
                         operations=[[o[0] for o in t] for t in threads], words=program.world.words, externals=program.world.externals)
            raise result[1]
        for (text, _, verdict), (_, got) in zip(ops, result[1]):
            ctx.count('operations')
            expected = verdict(got)
            ctx.check(expected is None, 'an operation running concurrently gives another result than alone', operation=text, expected=expected,
                      got=got, operations=[[o[0] for o in t] for t in threads], words=program.world.words, externals=program.world.externals)


def after(ctx, program):
    """sequentially afterwards everything is as it was"""
    for name, m in program.world.externals.items():
        ctx.check(program.built.externals[name].form == m.form, 'after concurrent use a form has another text', name=name)
    for text, m, t in program.templates:
        expected = real.model_outcome(lambda: m.substitute(program.world.externals, program.world.dictionary))
        got = real.Observed(lambda: t.substitute(externals=program.built.externals, dictionary=program.dictionary))
        ctx.check(got.matches(expected), 'after concurrent use a template renders differently', template=text, expected=expected, got=got)
    for w in program.added:
        for text in spec.MDictionary([w]).index:
            got = real.Observed(lambda: real.word_state(program.dictionary.get_word(text).word))
            ctx.check(got.matches(('ok', w_state(w))), 'a word added while others read is not found', text=text, got=got)


    for key in set(program.second):
        got = program.lexicon.get_templates(key, frozenset('abcq'))
        ctx.check([id(t) for t in got if t is not program.foreign] == [id(e[1]) for e in program.entries if e[0] == key] and
                  sum(t is program.foreign for t in got) == program.second.count(key), 'a template added while others read is not there', key=key)


def run(ctx, rng, fresh=False, number=None, choosing=None):
    program = Program(ctx, rng, fresh_library=fresh, choosing=choosing)
    n = rng.randint(2, 4)
    writer = number is None and (choosing or rng.random() < 0.3)
    threads = program.plan(n, writer, number)
    if rng.random() < 0.2:
        execute(ctx, program, threads, None)
        ctx.count('free_runs')
        ctx.ev()
    else:
        s = sched.Scheduler(rng, n)
        execute(ctx, program, threads, s)
        ctx.count('scheduled_runs')
        ctx.count('switches', s.switches)
        ctx.count('scheduling_points', s.events)
        ctx.count('token_steals', s.steals)
        ctx.count('policy_%s_%s' % (s.policy.kind, s.policy.granularity))
        ctx.maximum('switches_in_one_run', s.switches)
        ctx.ev(s.digest.hexdigest(), nontrivial=s.switches > n)
        ctx.sample('%d threads, %d switches at %d points: %s' % (n, s.switches, s.events, [[o[0] for o in t] for t in threads]))
    after(ctx, program)


def run_unit(ctx, kind, i):
    """the first numbers ever constructed in a process, by several threads at once"""
    rng = ctx.rng(kind, i)
    if kind == 'lexicon':      # templates chosen while others are added
        for _ in range(6):
            run(ctx, rng, choosing=True)
        return
    ctx.count('first_use_of_number_cache')
    run(ctx, rng, fresh=True, number=rng.choice((0, 1, 5, 9999, 10000, 123)))


def run_random(ctx, rng):
    run(ctx, rng, fresh=rng.random() < 0.05)
