# coding: utf-8
import builtins
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

from rv import core, gen, real, spec

RULE = ('random histories of operations (render, parse, look up, add a word, serialise, compare, construct numbers, report missing words) '
        'over shared words, forms, templates, dictionaries; every result is compared with the memoryless model, and after every history '
        'all objects and the library\'s tables are compared with their snapshots, and in the unit `process` everything of the interpreter that other code shares (streams, random generator, limits, environment, files …) before and after each operation; the same renderings are then repeated in another order '
        'and with fresh objects. non-trivial: distinct history of at least 5 operations')
RANDOM = {'quick': 6000, 'thorough': 25000}
REQUIRE = {'operations': 20000, 'repeated_renderings': 5000, 'snapshots': 10000, 'words_added_between': 1000, 'table_checks': 1500,
           'lookups_before_adding': 1000, 'added_after_failing': 400, 'autofilled_between': 600, 'among_thousands': 20000,
           'among_dictionaries': 3500, 'process_states': 3000, 'among_words': 10000}


def units(tier):
    return [('massive', k) for k in range(4)] + [('process', k) for k in range(4)] + [('dictionaries', k) for k in range(8)]


def dictionaries(ctx, rng):
    """the same templates with several dictionaries and bindings that differ little, the dictionaries growing meanwhile, often without new texts"""
    for _ in range({'quick': 60, 'thorough': 600}[ctx.tier]):
        t = rng.choice(spec.TYPES)
        texts = gen.sentinel_forms(rng.randrange(900), t)
        words = []
        for i in range(rng.randint(3, 8)):      # words of the same texts: permuted, or of another type and length
            kind = rng.choice((t, t, rng.choice(spec.TYPES)))
            forms = [rng.choice(texts) for _ in range(spec.NFORMS[kind])] if rng.random() < 0.5 or kind != t else rng.sample(texts, len(texts))
            words.append(spec.MWord(kind, forms, gen.const_props(rng, kind)))
        for _ in range(2):      # alike, but for the order of the forms after the first
            like = rng.choice(words)
            rest = list(like.forms[1:])
            rng.shuffle(rest)
            words.append(spec.MWord(like.type, [like.forms[0]] + rest, like.props))
        worlds = []
        for _ in range(rng.randint(1, 3)):
            mine = rng.sample(words, rng.randint(1, 2))
            if rng.random() < 0.3:
                mine.append(gen.word(rng, 50 + rng.randrange(40), style='sentinel'))
            worlds.append((spec.MDictionary(mine), real.dictionary.Dictionary(words=[real.W(w) for w in mine])))
        names = ['имя%d' % i for i in range(rng.choice((0, 0, 1, 2)))]
        bindings = []
        for _ in range(2):
            m = {n: spec.MForm(rng.choice(words), gen.relevant_props(rng, t)) for n in names}
            bindings.append((m, {n: core.real_external(f) for n, f in m.items()}))
        shared = real.words.Properties()
        kin = [(m, real.W(m), real.words.Word(real.wtype(m.type), list(m.forms)), real.words.Word(real.wtype(m.type), list(m.forms), shared)) for m in words]
        templates = []
        for _ in range(rng.randint(1, 3)):
            ids = [rng.choice(names + rng.sample(texts, min(2, len(texts)))) for _ in range(rng.randint(1, 3))]
            text = ' '.join('[%s%s]' % (x, rng.choice(['', '|мн', '|рд'] + ['|' + n for n in names])) for x in ids)
            templates.append((text, spec.MTemplate(text, names), real.T(text, names)))
        log = []
        for _ in range(rng.randint(6, 25)):
            i = rng.randrange(len(worlds))
            md, d = worlds[i]
            if rng.random() < 0.3:
                w = rng.choice(words)
                log.append(('add to', i, w))
                md.add(w)
                d.add_word(real.W(w))
                ctx.count('words_added_between')
                continue
            if rng.random() < 0.4:      # the same question to each
                text = rng.choice(texts)
                log.append(('look up', text))
                for i in rng.sample(range(len(worlds)), len(worlds)):
                    md, d = worlds[i]
                    f = md.get(text)
                    got = real.Observed(lambda: real.form_state(d.get_word(text)))
                    ctx.check(d.has_word(text) == md.has(text) and (got.matches(('err', 'NoWordsFoundError', None)) if f is None else
                              got.error is None and real.word_state(d.get_word(text).word) == f.word.key() and d.get_word(text).form == f.form),
                              'a lookup depends on what happened before', text=text, expected=f, got=got, history=log, words=words)
                    ctx.count('among_dictionaries')
                continue
            if rng.random() < 0.3:      # the same question to words with the same texts, with few properties objects between them
                p, q = gen.relevant_props(rng, t), gen.props(rng, p=0.1)
                asked = real.P(p)
                log.append(('forms', p, q))
                for m, own, default, common in rng.sample(kin, len(kin)):
                    bare = spec.MWord(m.type, m.forms)
                    for mw, rw in ((m, own), (bare, default), (bare, common)):
                        got = (rw.form(asked), rw.normal_form(), real.words.WordForm(rw).form, real.words.WordForm(rw, properties=asked).form,
                               real.words.WordForm(rw, properties=real.P(q)).form, real.words.WordForm(rw, form_properties=asked).form, [f.form for f in rw.all_forms()],
                               rw.serialize()['forms'])
                        want = (mw.form(p), mw.form(mw.props), spec.MForm(mw).form, spec.MForm(mw, p).form, spec.MForm(mw, q).form, spec.MForm(mw, None, p).form,
                                [spec.MForm(mw, spec.slot_props(mw.type, k)).form for k in range(len(mw.forms))], list(mw.forms))
                        ctx.count('among_words')
                        ctx.check(got == want, 'a form depends on what happened before', word=mw, asked=p, also=q, expected=want, got=got, history=log)
                continue
            text, m, tt = rng.choice(templates)
            j = rng.randrange(2)
            log.append(('render', text, i, j))
            expected = real.model_outcome(lambda: m.substitute(bindings[j][0], md))
            got = real.Observed(lambda: tt.substitute(externals=bindings[j][1], dictionary=d))
            ctx.count('among_dictionaries')
            ctx.check(got.matches(expected), 'a rendering depends on what happened before', template=text, expected=expected, got=got, history=log, words=words)
        ctx.ev(repr(log), len(log) >= 6)


# what the interpreter tells about operations that reach outside of it
TOUCHED = []
WATCHED = [False]


def _audit(event, args):
    if not WATCHED[0]:
        return
    if event == 'open':
        path, mode, flags = args
        written = isinstance(mode, str) and set(mode) & set('wax+') or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)
        if written and '__pycache__' not in str(path):
            TOUCHED.append((event, str(path)))
    elif event.split('.')[0] in ('os', 'socket', 'subprocess', 'shutil', 'tempfile', 'signal') and event not in ('os.listdir', 'os.scandir'):
        TOUCHED.append((event, repr(args)[:200]))


def process_state(chosen):
    """everything of the process that other code shares with the library"""
    return {'random generator': None if chosen else hash(random.getstate()), 'recursion limit': sys.getrecursionlimit(),
            'switch interval': sys.getswitchinterval(), 'locale': locale.setlocale(locale.LC_ALL), 'directory': os.getcwd(),
            'environment': dict(os.environ),
            'logging': (len(logging.root.handlers), logging.root.level, logging.root.manager.disable),
            'signals': [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], 'timer': signal.getitimer(signal.ITIMER_REAL),
            'threads': threading.active_count(), 'collector': (gc.isenabled(), gc.get_threshold()), 'tracing': (sys.gettrace(), sys.getprofile()),
            'hooks': (sys.excepthook, threading.excepthook, sys.displayhook), 'decimal': repr(decimal.getcontext()),
            'digits': sys.get_int_max_str_digits(), 'path': list(sys.path), 'builtins': sorted(vars(builtins)),
            'descriptors': len(os.listdir('/proc/self/fd'))}


# not shown unless asked for
HIDDEN = (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning)


@contextlib.contextmanager
def quiet(ctx, what, chosen=False):
    """nothing is written and nothing of the process changes inside"""
    out, err = io.StringIO(), io.StringIO()
    before = process_state(chosen)
    del TOUCHED[:]
    WATCHED[0] = True
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as shown:
            warnings.simplefilter('always')
            inside = list(warnings.filters)
            yield
            ctx.check(inside == warnings.filters, 'an operation changes the process', operation=what, parts=['warnings'])
    finally:
        WATCHED[0] = False
    after = process_state(chosen)
    ctx.count('process_states')
    shown = [str(x.message) for x in shown if not issubclass(x.category, HIDDEN)]
    ctx.check(not shown, 'an operation warns', operation=what, warnings=shown)
    ctx.check(not out.getvalue() and not err.getvalue(), 'an operation writes to a stream of the process', operation=what, out=out.getvalue(), err=err.getvalue())
    ctx.check(before == after, 'an operation changes the process', operation=what, parts=[x for x in before if before[x] != after[x]])
    ctx.check(not TOUCHED, 'an operation reaches outside', operation=what, events=list(TOUCHED))


def large(rng):
    """many markers, dependencies, words, missing words, repetitions"""
    n = real.words.WordForm(real.words.Word(real.wtype('TEXT'), ['т']))
    ids = ['и%d' % rng.randrange(30) for _ in range(rng.choice((10, 100, 400, 1200)))]
    t = real.T(' '.join('[%s|имя]' % x for x in ids), ['имя'])
    d = real.dictionary.Dictionary(words=[])
    t.get_undictionaried_words({}, d)
    real.Observed(lambda: t.substitute(externals={'имя': n}, dictionary=d))
    d = real.dictionary.Dictionary(words=[real.words.Word(real.wtype('TEXT'), ['и%d' % i]) for i in range(rng.choice((30, 120, 300)))])
    t.substitute(externals={'имя': n}, dictionary=d)
    d.get_words()
    real.T('[x%s]' % ('|имя' * rng.choice((5, 50, 500))), ['имя']).substitute(externals={'x': n, 'имя': n}, dictionary=d)
    t = rng.choice(spec.TYPES)
    w = real.words.Word(real.wtype(t), [rng.choice(('', 'ф%d' % i)) for i in range(spec.NFORMS[t])])
    w.autofill_missed_forms()


def process(ctx, rng):
    """operations of all kinds, their errors and the choices of a lexicon leave the process as it was"""
    sys.addaudithook(_audit)
    collecting = gc.isenabled()
    try:
        for turn in range({'quick': 50, 'thorough': 500}[ctx.tier]):
            if turn % 2:
                gc.enable()
            else:
                gc.disable()
            one_process(ctx, rng)
    finally:
        if collecting:
            gc.enable()


def one_process(ctx, rng):
    """one history and all other operations, watched"""
    with quiet(ctx, 'creation'):
        h = History(ctx, rng)
        h.add_template()
    for _ in range(rng.randint(5, 30)):
        with quiet(ctx, h.log[-1:]):
            h.operation()
    lexicon = real.lexicon.Lexicon()
    keys = ['ключ', 'key', 7]
    with quiet(ctx, 'a lexicon'):
        for i in range(rng.randint(0, 12)):
            lexicon.add_template(rng.choice(keys), i, frozenset(rng.sample('абвг', rng.randint(0, 3))))
        asked = frozenset(rng.sample('абвг', rng.randint(0, 4)))
        for key in keys:
            (lexicon.has_key(key), lexicon.get_templates(key, restrictions=asked))
    with quiet(ctx, 'a choice of a lexicon', chosen=True):
        for key in keys:
            real.Observed(lambda: lexicon.get_random_template(key, restrictions=asked))
            real.Observed(lambda: lexicon.get_random_nearest_template(key, restrictions=asked))
    for text in ('[]', '[x|нет такого]', '[' * rng.randint(1, 50), '[неизвестное]', '[a|имя]'):
        with quiet(ctx, text):
            real.Observed(lambda: real.T(text, ['имя']).substitute(externals={}, dictionary=h.built.dictionary))
    with quiet(ctx, 'something large'):
        large(rng)
    with quiet(ctx, 'numbers'):
        for size in (3, 9, 20, 40, 400):
            real.constructors.construct_integer(rng.randint(-10 ** size, 10 ** size))
    with quiet(ctx, 'a wrong number of forms'):
        real.Observed(lambda: real.words.Word(real.wtype('NOUN'), ['а'] * rng.randint(2, 9)))
    ctx.ev(repr(h.log), len(h.log) >= 5)


def run_unit(ctx, kind, k):
    if kind == 'dictionaries':
        return dictionaries(ctx, ctx.rng(kind, k))
    if kind == 'process':
        return process(ctx, ctx.rng(kind, k))
    massive(ctx, kind, k)


def massive(ctx, kind, k):
    """thousands of different templates, forms and numbers, rendered by turns; every result is what the memoryless model says, the last time too"""
    rng = ctx.rng(kind, k)
    cases = []
    for _ in range(120):
        world = gen.World(rng, styles=gen.STYLES, max_words=4, max_externals=4)
        built = core.Built(world)
        for _ in range(20):
            text = gen.template(rng, world, markers=(1, 3), errors=0.02, messy=rng.random() < 0.3)
            try:
                t = real.T(text, world.names)
            except real.exceptions.UtgError:
                continue
            cases.append((text, t, built, core.model_render(text, world.names, world.externals, world.dictionary), t.serialize()))
    for turn in range(3):
        for text, t, built, expected, stored in rng.sample(cases, len(cases)):
            got = real.Observed(lambda: t.substitute(externals=built.externals, dictionary=built.dictionary))
            ctx.count('among_thousands')
            ctx.ev((k, text))
            ctx.check(got.matches(expected), 'a rendering depends on thousands of others', template=text, turn=turn, expected=expected, got=got)
            ctx.check(t.serialize() == stored, 'a template changed', template=text)
        for n in rng.sample(range(-20000, 20000), 1000):
            f = real.constructors.construct_integer(n)
            ctx.check(f.form == str(n) and real.props_of(f.properties) == spec.integer_props(n), 'a number depends on what happened before', number=n)


def tables():
    """the vocabulary and layouts, as the public API shows them"""
    w, r = real.words, real.r
    out = []
    for t in spec.TYPES:
        for full in list(spec.FULL[t])[::11]:
            out.append(PROBES[t].form(real.P(dict(zip(spec.SCHEMA[t], full)))))
        out.append(tuple(tuple(x and x.name for x in key) for key in w.Word.get_keys(real.wtype(t))))
    out.append([(g, w.Properties().get(getattr(r, g)).name) for g in spec.PLAIN_GROUPS])
    out.append([(name, repr(real.templates.Substitution.parse('[x|%s]' % name, ('x',)).serialize())) for name in sorted(spec.BY_VERBOSE)])
    return out


PROBES = {}
BASE = None


def prepare(ctx):
    global BASE
    for t in spec.TYPES:
        PROBES[t] = real.W(spec.MWord(t, gen.sentinel_forms(0, t)))
    BASE = tables()
    ctx.check([x for x in BASE if isinstance(x, str)] == [gen.sentinel_forms(0, t)[spec.the_slot(t, dict(zip(spec.SCHEMA[t], full)))]
                                                          for t in spec.TYPES for full in list(spec.FULL[t])[::11]],
              'the layout tables are wrong to begin with')


class History(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.log = []
        self.world = gen.World(rng, styles=('sentinel', 'sentinel', 'sound', 'shared', 'sparse'), max_words=4, max_externals=4)
        # properties objects and words shared between several forms and templates
        self.built = core.Built(self.world)
        for k in range(rng.randint(0, 3)):
            name = 'общий%d' % k
            if self.world.words and rng.random() < 0.7:
                i = rng.randrange(len(self.world.words))
                m, w = self.world.words[i], self.built.words[i]
            else:
                other = rng.choice(list(self.world.externals) or [None])
                if other is None:
                    continue
                m, w = self.world.externals[other].word, self.built.externals[other].word
            p = gen.relevant_props(rng, m.type)
            self.world.externals[name] = spec.MForm(m, p)
            self.built.externals[name] = real.words.WordForm(w, properties=real.P(p))
        self.world.names = list(self.world.externals)
        self.templates = []
        self.shared_props = [(p, real.P(p)) for p in (gen.props(rng) for _ in range(3))]
        self.spare = [gen.word(rng, 40 + i, style=rng.choice(('sentinel', 'sentinel', 'shared'))) for i in range(4)]
        self.future = list(self.spare)
        self.failed = set()
        self.renders = []
        self.snap = self.state()

    def state(self):
        out = {'words': [real.word_state(w) for w in self.built.words],
               'externals': {n: real.form_state(f) for n, f in self.built.externals.items()},
               'props': [real.props_of(p) for _, p in self.shared_props]}
        return out

    def add_template(self):
        for _ in range(5):
            text = gen.template(self.rng, self.world, markers=(1, 3), errors=0.02, messy=self.rng.random() < 0.3)
            try:
                m = spec.MTemplate(text, self.world.names)
            except spec.MError:
                continue
            t = real.T(text, self.world.names)
            self.templates.append((text, m, t, t.serialize()))
            return

    def unknown(self):
        """texts of words that were not added yet (or were since)"""
        rng, ctx = self.rng, self.ctx
        m = rng.choice(self.future)
        text = rng.choice(m.forms)
        if not gen.usable_id(text):
            return
        how = rng.choice(('lookup', 'render', 'missing', 'form', 'parse'))
        self.log.append(('unknown', how, text))
        d, md = self.built.dictionary, self.world.dictionary
        if how == 'lookup':
            got = real.Observed(lambda: (lambda f: (real.word_state(f.word), real.props_of(f.properties)))(d.get_word(text)))
            expected = md.get(text) if md.has(text) else None
            ctx.check(got.error is None and got.value == (expected.word.key(), expected.props) if expected is not None
                      else isinstance(got.error, real.exceptions.NoWordsFoundError),
                      'a lookup depends on what happened before', text=text, expected=expected, got=got, history=self.log)
            ctx.count('lookups_before_adding', expected is None)
            ctx.count('lookups_after_failing', expected is not None and text in self.failed)
            if expected is None:
                self.failed.add(text)
            return
        source = '[%s%s]%s' % (text, rng.choice(('', '|мн', '|вн,ед')), rng.choice(('', ' и [нет]')) if how == 'missing' else '')
        mt, t = spec.MTemplate(source, self.world.names), real.T(source, self.world.names)
        self.templates.append((source, mt, t, t.serialize()))
        if not md.has(text):
            self.failed.add(text)
        if how == 'missing':
            ctx.check(t.get_undictionaried_words(self.built.externals, d) == mt.missing(self.world.externals, md),
                      'the report of missing words depends on what happened before', template=source, history=self.log)
        elif how == 'render':
            expected = real.model_outcome(lambda: mt.substitute(self.world.externals, md))
            got = real.Observed(lambda: t.substitute(externals=self.built.externals, dictionary=d))
            ctx.check(got.matches(expected), 'a rendering depends on what happened before', template=source, expected=expected, got=got, history=self.log)
            self.renders.append((source, mt, t, dict(self.world.externals), dict(self.built.externals)))

    def autofill(self):
        """the one operation that changes words: everything made from them is as current as the model afterwards"""
        names = [n for n, f in self.world.externals.items() if not all(f.word.forms) and not any(f.word is w for w in self.world.words)]
        if not names:
            return
        name = self.rng.choice(names)
        m, word = self.world.externals[name].word, self.built.externals[name].word
        self.log.append(('autofill', name))
        word.autofill_missed_forms()
        want = spec.autofill(m.type, m.forms)
        self.ctx.check(len(word.forms) == len(want) and all(f in texts for f, texts in zip(word.forms, want)),
                       'filling missing forms depends on what happened before', word=m, got=word.forms, history=self.log)
        m.forms[:] = word.forms
        self.ctx.count('autofilled_between')
        self.snap['externals'] = self.state()['externals']
        for n, f in self.world.externals.items():
            self.ctx.check(self.built.externals[n].form == f.form, 'a form does not show the current text of its word', name=n, history=self.log)

    def bindings(self):
        """some or all of the externals, sometimes names swapped"""
        names = list(self.world.externals)
        mext, rext = dict(self.world.externals), dict(self.built.externals)
        if names and self.rng.random() < 0.3:
            a, b = self.rng.choice(names), self.rng.choice(names)
            mext[a], mext[b] = mext[b], mext[a]
            rext[a], rext[b] = rext[b], rext[a]
        if names and self.rng.random() < 0.1:
            gone = self.rng.choice(names)
            del mext[gone]
            del rext[gone]
        return mext, rext

    def render(self):
        if not self.templates:
            return
        text, m, t, _ = self.rng.choice(self.templates)
        mext, rext = self.bindings()
        before = dict(rext)
        expected = real.model_outcome(lambda: m.substitute(mext, self.world.dictionary))
        got = real.Observed(lambda: t.substitute(externals=rext, dictionary=self.built.dictionary))
        self.log.append(('render', text))
        self.ctx.check(got.matches(expected), 'a rendering depends on what happened before', template=text, expected=expected, got=got,
                       history=self.log, externals=mext)
        self.ctx.check(rext == before and all(rext[k] is before[k] for k in before), 'a rendering changed the external variables', template=text)
        self.renders.append((text, m, t, mext, rext))

    def operation(self):
        rng, ctx = self.rng, self.ctx
        ctx.count('operations')
        op = rng.choice(('render', 'render', 'render', 'render', 'parse', 'lookup', 'form', 'number', 'serialise', 'compare', 'missing', 'add', 'props', 'list', 'unknown', 'unknown', 'autofill'))
        if op == 'autofill':
            return self.autofill()
        if op == 'render':
            return self.render()
        if op == 'unknown':
            return self.unknown()
        self.log.append((op,))
        if op == 'parse':
            self.add_template()
        elif op == 'lookup' and self.world.texts:
            text = rng.choice(self.world.texts)
            f = self.built.dictionary.get_word(text)
            expected = self.world.dictionary.get(text)
            ctx.check(real.word_state(f.word) == expected.word.key() and real.props_of(f.properties) == expected.props,
                      'a lookup depends on what happened before', text=text, history=self.log, expected=expected, got=real.form_state(f))
        elif op == 'form' and self.built.words:
            i = rng.randrange(len(self.built.words))
            p = gen.relevant_props(rng, self.world.words[i].type)
            ctx.check(self.built.words[i].form(real.P(p)) == self.world.words[i].form(p), 'a form depends on what happened before', history=self.log, request=p)
        elif op == 'number':
            n = gen.integer(rng)
            f = real.constructors.construct_integer(n)
            ctx.check(f.form == str(n) and real.props_of(f.properties) == spec.integer_props(n), 'a number depends on what happened before', number=n)
        elif op == 'serialise':
            for w in self.built.words[:2]:
                w.serialize()['forms'].append('x')
            if self.templates:
                text, m, t, stored = rng.choice(self.templates)
                ctx.check(t.serialize() == stored, 'a template changed', template=text, history=self.log)
        elif op == 'compare':
            fs = list(self.built.externals.values())
            for x in fs[:3]:
                for y in fs[:3]:
                    (x == y, x != y, hash(x), hash(x.word), x.word == y.word, hash(x.properties))
        elif op == 'missing' and self.templates:
            text, m, t, _ = rng.choice(self.templates)
            expected = m.missing(self.world.externals, self.world.dictionary)
            ctx.check(t.get_undictionaried_words(self.built.externals, self.built.dictionary) == expected,
                      'the report of missing words depends on what happened before', template=text, history=self.log)
        elif op == 'add' and self.spare:
            w = self.spare.pop()
            self.world.dictionary.add(w)
            self.built.dictionary.add_word(real.W(w))
            self.world.words.append(w)
            self.built.words.append(real.W(w))
            for f in sorted(f for f in self.failed & set(w.forms) if self.world.dictionary.has(f)):
                ctx.count('added_after_failing')
                ctx.check(real.Observed(lambda: self.built.dictionary.get_word(f)).error is None,
                          'an added word is not found after an earlier failed lookup', text=f, history=self.log)
            self.snap['words'].append(real.word_state(self.built.words[-1]))
            self.world.texts = [f for f in self.world.dictionary.index if gen.usable_id(f)]
            ctx.count('words_added_between')
        elif op == 'props':
            (p, rp), (q, rq) = rng.choice(self.shared_props), rng.choice(self.shared_props)
            merged = rp.clone(rq, real.prop('CASE', 'DATIVE'))
            ctx.check(real.props_of(merged) == spec.merge(p, q, {'CASE': 'DATIVE'}), 'combining property sets gives another set', a=p, b=q)
            if self.built.externals:
                name = rng.choice(list(self.built.externals))
                f = self.built.externals[name]
                derived = real.words.WordForm(f.word, properties=rp)
                m = spec.MForm(self.world.externals[name].word, p)
                ctx.check(derived.form == m.form, 'a form built from shared properties depends on what happened before', history=self.log)
        elif op == 'list':
            listed = {real.word_state(w) for w in self.built.dictionary.get_words()}
            owners = {f.word.key() for _, f in self.world.dictionary.index.values()}
            ctx.check(listed == owners, 'the list of words depends on what happened before', history=self.log)

    def verify(self):
        ctx = self.ctx
        now = self.state()
        for part in self.snap:
            ctx.check(now[part] == self.snap[part], 'an operation changed shared objects', part=part, before=self.snap[part], after=now[part], history=self.log)
        for text, m, t, stored in self.templates:
            ctx.check(t.serialize() == stored, 'a template changed', template=text, history=self.log)
        ctx.count('snapshots', len(self.built.words) + len(self.built.externals) + len(self.templates))


def run_random(ctx, rng):
    h = History(ctx, rng)
    for _ in range(rng.randint(1, 3)):
        h.add_template()
    for _ in range(rng.randint(5, 30) if rng.random() < 0.995 else rng.randint(200, 600)):
        h.operation()
    h.verify()
    # the same renderings again, in another order, with old and with fresh objects
    fresh = core.Built(h.world)
    again = rng.sample(h.renders, len(h.renders))
    for text, m, t, mext, rext in again:
        expected = real.model_outcome(lambda: m.substitute(mext, h.world.dictionary))
        for how, tt, ext, d in (('again', t, rext, h.built.dictionary),
                                ('with fresh objects', real.T(text, h.world.names), {k: core.real_external(f) for k, f in mext.items()}, fresh.dictionary)):
            got = real.Observed(lambda: tt.substitute(externals=ext, dictionary=d))
            ctx.count('repeated_renderings')
            ctx.check(got.matches(expected), 'a repeated rendering gives another result', how=how, template=text, expected=expected, got=got, history=h.log)
    h.verify()
    ctx.count('table_checks')
    ctx.check(tables() == BASE, 'an operation changed the library\'s tables', history=h.log)
    ctx.ev(repr(h.log), len(h.log) >= 5)
    ctx.sample(h.log)
