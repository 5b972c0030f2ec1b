# coding: utf-8
"""One process of C20: runs a program given by its seed and prints what it observed, one JSON line per observation.
argv: program seed, order of imports (seed or 'plain'), noise (seed or 'none')"""
import gc
import hashlib
import importlib
import importlib.util
import json
import os
import random
import sys
import threading

PROGRAM, IMPORTS, NOISE = sys.argv[1:4]

sys.dont_write_bytecode = True
from rv import lib  # noqa
sys.path.insert(0, lib.REPO)
NAMES = ['relations', 'words', 'templates', 'dictionary', 'lexicon', 'constructors', 'exceptions', 'data', 'logic', 'utils', 'restrictions',
         'transformators']
EARLY = []


def import_some(names):
    for name in names:
        if importlib.util.find_spec('utg.' + name) is not None:
            importlib.import_module('utg.' + name)


def early():
    """a program that needs templates, words and a dictionary only; the other modules may be loaded already or not"""
    from rv import gen, spec
    r, words, templates, dictionary = [importlib.import_module('utg.' + name) for name in ('relations', 'words', 'templates', 'dictionary')]
    rng = random.Random('early:' + PROGRAM)

    def props(p):
        return words.Properties(*[getattr(getattr(r, g), v) for g, v in p.items()])

    def attempt(kind, call):
        try:
            EARLY.append([kind, call()])
        except Exception as e:  # noqa
            EARLY.append([kind, type(e).__name__, str(e)])

    classes = [spec.integer_form(n) for n in (0, 1, 2, 5, 11, 21, 22, 10 ** 6)]
    attempt('defaults', lambda: [words.Properties().get(getattr(r, g)).name for g in spec.PLAIN_GROUPS])
    made = [words.Word(type=getattr(r.WORD_TYPE, t), forms=gen.sentinel_forms(i, t), properties=props(gen.const_props(rng, t))) for i, t in enumerate(spec.TYPES)]
    d = dictionary.Dictionary(words=made)
    externals = {'n%d' % i: words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=list(f.word.forms), properties=props(f.word.props))) for i, f in enumerate(classes)}
    externals.update(('x%d' % i, words.WordForm(w)) for i, w in enumerate(made))
    names = sorted(spec.BY_VERBOSE) + ['числ', 'число', 'zz', 'ед.ч', 'сщ', '1', 'один']
    for name in names:
        for text in ('[x0|%s]' % name, '[x3|n2|%s]' % name):
            def use(text=text):
                t = templates.Template()
                t.parse(text, externals=list(externals))
                return [json.dumps(t.serialize(), sort_keys=True), t.substitute(externals, d)]
            attempt('early ' + text, use)
    spelled = ('один', 'мне', 'всей', 'вторник', 'сорока', 'тысяча', 'яма', 'утро')
    for k, forms in enumerate((['о', 'об', 'обо'], ['в', 'во', 'вов'], ['с', 'со', 'соо'])):
        externals['p%d' % k] = words.WordForm(words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms))
    for i, t in enumerate(spec.TYPES):
        text = rng.choice(spelled)
        for word, forms in (('s%d' % i, [text] * spec.NFORMS[t]), ('l%d' % i, ['сон'] + ['сна'] * (spec.NFORMS[t] - 1))):
            if t != 'TEXT' or word[0] == 's':
                externals[word] = words.WordForm(words.Word(type=getattr(r.WORD_TYPE, t), forms=forms), properties=words.Properties(r.CASE.DATIVE))

                def govern(word=word):
                    t = templates.Template()
                    t.parse('[p0|%s] [p1|%s] [p2|%s]' % (word, word, word), externals=list(externals))
                    return t.substitute(externals, d)
                attempt('early governed %s' % word, govern)
    for i in range(len(made)):
        for n in range(len(classes)):
            def agree(i=i, n=n):
                t = templates.Template()
                t.parse('[x%d|n%d] [X%d|n%d|%s] [%s|x%d]' % (i, n, i, n, rng.choice(names[:-7]), made[7].forms[0], i), externals=list(externals))
                return t.substitute(externals, d)
            attempt('early %d %d' % (i, n), agree)


if IMPORTS != 'plain':
    order = random.Random(IMPORTS)
    order.shuffle(NAMES)
    if order.random() < 0.6:
        import_some(NAMES[:order.choice((0, 0, 1, 2, 4))])
        early()
        import_some(NAMES)
    else:
        import_some(NAMES)
        early()
else:
    import_some(NAMES)
    early()

from rv import core, gen, real, spec  # noqa
real.load()


class Noise(object):
    """unrelated objects created in another order, kept alive or thrown away"""

    def __init__(self):
        self.rng = random.Random(NOISE) if NOISE != 'none' else None
        self.kept = []

    def __call__(self):
        if self.rng is None:
            return
        rng = self.rng
        for _ in range(rng.randint(0, 4)):
            w = gen.word(rng, rng.randrange(10 ** 6), const='any')
            made = rng.choice((lambda: real.W(w), lambda: real.P(gen.props(rng)), lambda: real.F(spec.MForm(w, gen.props(rng))).form,
                               lambda: real.constructors.construct_integer(gen.integer(rng)), lambda: real.dictionary.Dictionary(words=[real.W(w)]),
                               lambda: real.T('[x|мн]', ['x']), lambda: [object() for _ in range(100)]))()
            if rng.random() < 0.5:
                self.kept.append(made)


OUT = EARLY


def emit(kind, value):
    OUT.append([kind, value])


def plain_error(e):
    return [type(e).__name__, sorted((k, v) for k, v in e.arguments.items() if isinstance(v, (str, int)))]


def observed(call):
    o = real.Observed(call)
    return plain_error(o.error) if o.error is not None else ['ok', o.value]


def canonical(data):
    return json.dumps(data, ensure_ascii=True, sort_keys=True)


def layouts():
    for t in spec.TYPES:
        emit('layout ' + t, [[p and p.name for p in key] for key in real.words.Word.get_keys(real.wtype(t))])
        w = real.W(spec.MWord(t, gen.sentinel_forms(0, t)))
        emit('forms ' + t, hashlib.sha1('|'.join(w.form(real.P(dict(zip(spec.SCHEMA[t], full)))) for full in spec.FULL[t]).encode()).hexdigest())
    emit('vocabulary', [[name, canonical(real.T('[x|%s]' % name, ['x']).serialize())] for name in sorted(spec.BY_VERBOSE)])
    emit('defaults', [real.words.Properties().get(getattr(real.r, g)).name for g in spec.PLAIN_GROUPS])


def program(rng, noise):
    noise()
    world = gen.World(rng, styles=gen.STYLES + ('hostile', 'shared'), max_words=4, const=('typical', 'any', 'none'))
    # homonyms of the same type and forms that differ in constant properties only: which one answers depends on the order of addition
    for m in list(world.words)[:3]:
        for _ in range(rng.randint(1, 3)):
            world.words.append(spec.MWord(m.type, list(m.forms), gen.const_props(rng, m.type, rng.choice(('typical', 'any', 'any')))))
    if rng.random() < 0.5:
        rng.shuffle(world.words)
    emit('program', hashlib.sha1(repr((world.words, sorted(world.externals.items()))).encode('utf-8', 'backslashreplace')).hexdigest())
    built = core.Built(world)
    if NOISE != 'none':         # the same words once more, created among other objects
        built.words, reserve = [], []
        for m in world.words:
            noise()
            reserve.append(bytearray(40 + 8 * noise.rng.randrange(8)))
            reserve[:] = reserve[-3:]
            built.words.append(real.W(m))
        built.dictionary = real.dictionary.Dictionary(words=built.words)
    noise()
    for text in world.texts[:25] + ['нет']:
        def look():
            f = built.dictionary.get_word(text)
            return [real.form_state(f), str(f.properties)]
        emit('lookup ' + text, observed(look))
    emit('words listed', sorted(repr(real.word_state(w)) for w in built.dictionary.get_words()))
    for _ in range(5):
        noise()
        text = gen.template(rng, world, errors=0.1, messy=rng.random() < 0.5)
        if rng.random() < 0.4:      # a long list in which groups repeat
            text += '[%s|%s]' % (rng.choice(world.names + world.texts[:3] + ['нет']), ','.join(rng.choice(sorted(spec.BY_VERBOSE)) for _ in range(rng.randint(4, 12))))
        try:
            t = real.T(text, world.names)
        except real.exceptions.UtgError as e:
            emit('parse ' + text, plain_error(e))
            continue
        emit('stored template ' + text, canonical(t.serialize()))
        emit('missing ' + text, t.get_undictionaried_words(built.externals, built.dictionary))
        emit('render ' + text, observed(lambda: t.substitute(externals=built.externals, dictionary=built.dictionary)))
    for w in built.words:
        emit('stored word', canonical(w.serialize()))
    for name in world.names:
        f = built.externals[name]
        emit('variable ' + name, [f.form, str(f.properties)])
    for m in world.words[:3]:
        forms = [x if rng.random() < 0.3 else '' for x in m.forms]
        w = real.W(spec.MWord(m.type, forms, m.props))
        noise()
        w.autofill_missed_forms()
        emit('autofilled', w.forms)
        governor = real.words.WordForm(real.W(spec.MWord('PREPOSITION', ['в', 'во', 'вв'])))
        emit('governed', real.T('[п|x]', ['п', 'x']).substitute(externals={'п': governor, 'x': real.words.WordForm(w)}, dictionary=built.dictionary))
    for _ in range(3):
        p = gen.props(rng, word_type=0.2)
        emit('properties', [str(real.P(p)), canonical(real.P(p).serialize())])
        n = gen.integer(rng)
        f = real.constructors.construct_integer(n)
        emit('number', [f.form, str(f.properties)])
    lex = real.lexicon.Lexicon()
    kept = []
    for k in range(6):
        t = real.T('шаблон %d' % k, [])
        kept.append(t)
        lex.add_template('key', t, restrictions=frozenset(rng.sample(('hero', 'npc', 'mob', 'артефакт'), rng.randint(0, 3))))
        noise()
    given = frozenset(rng.sample(('hero', 'npc', 'mob', 'артефакт', 'x'), rng.randint(0, 4)))
    emit('lexicon', observed(lambda: [t.serialize()['template'] for t in lex.get_templates('key', restrictions=given)]))
    for call in (lex.get_random_template, lex.get_random_nearest_template):
        random.seed(7)
        emit('choice', observed(lambda: call('key', restrictions=given).serialize()['template']))


def main():
    rng = random.Random('c20:' + PROGRAM)
    noise = Noise()
    first = rng.random() < 0.5
    if first:
        layouts()
    for _ in range(int(sys.argv[4])):
        program(rng, noise)
    layouts()
    sys.stdout.reconfigure(errors='backslashreplace')
    for entry in OUT:
        print(json.dumps(entry, ensure_ascii=True, default=repr))


if os.environ.get('RV_NO_GC'):
    gc.disable()
if os.environ.get('RV_GC_OFTEN'):
    gc.set_threshold(20, 2, 2)
if os.environ.get('RV_RECURSION'):
    sys.setrecursionlimit(int(os.environ['RV_RECURSION']))
if os.environ.get('RV_FORKED'):
    forked = os.fork()
    if forked:
        sys.exit(os.waitstatus_to_exitcode(os.waitpid(forked, 0)[1]))
if os.environ.get('RV_IN_THREAD'):
    failed = []

    def guarded():
        try:
            main()
        except BaseException:  # noqa
            failed.append(1)
            raise
    thread = threading.Thread(target=guarded, name='другой')
    thread.start()
    thread.join()
    sys.exit(len(failed))
main()
