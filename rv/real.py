# coding: utf-8
"""The code under test (imported from RV_REPO, default /repo) and conversions between it and the model.
Only the public API is used."""
import importlib
import sys

from rv import lib
from rv import spec

r = words = templates = dictionary = lexicon = constructors = exceptions = None

MODULES = ('relations', 'words', 'templates', 'dictionary', 'lexicon', 'constructors', 'exceptions')


def load():
    sys.dont_write_bytecode = True
    if lib.REPO not in sys.path:
        sys.path.insert(0, lib.REPO)
    reload_names()


def reload_names():
    g = globals()
    for name in MODULES:
        g['r' if name == 'relations' else name] = importlib.import_module('utg.%s' % name)
    assert words.__file__.startswith(lib.UTG_ROOT), words.__file__


def purge():
    for name in [n for n in sys.modules if n == 'utg' or n.startswith('utg.')]:
        del sys.modules[name]


# ------------------------------------------------------------------ model -> real

def prop(group, value):
    return getattr(getattr(r, group), value)


def wtype(name):
    return getattr(r.WORD_TYPE, name)


def P(props):
    return words.Properties(*[prop(g, v) for g, v in props.items()])


def W(mword):
    if not mword.props and len(mword.forms[0]) % 2:     # a word without constant properties need not be given any
        return words.Word(type=wtype(mword.type), forms=list(mword.forms))
    return words.Word(type=wtype(mword.type), forms=list(mword.forms), properties=P(mword.props))


def F(mform, word=None):
    p, fp = mform.raw
    return words.WordForm(word if word is not None else W(mform.word),
                          properties=None if p is None else P(p),
                          form_properties=None if fp is None else P(fp))


def T(text, externals):
    t = templates.Template()
    t.parse(text, externals=externals)
    return t


# ------------------------------------------------------------------ real -> model

def props_of(properties, relations=None):
    out = {}
    for g in spec.GROUPS:
        relation = getattr(relations or r, g)
        if properties.is_specified(relation):
            out[g] = properties.get(relation).name
    return out


def word_state(word):
    return (word.type.name, tuple(word.forms), tuple(sorted(props_of(word.properties).items())))


def form_state(form):
    return (word_state(form.word), tuple(sorted(props_of(form.properties).items())),
            tuple(sorted(props_of(form.form_properties).items())), form.form)


# ------------------------------------------------------------------ observing

class Observed(object):
    """outcome of one call: value, or one of the library's own errors.  Anything else propagates to the runner,
    which reports it as a violation (library frame) or an error of the harness."""

    def __init__(self, call):
        self.value = self.error = None
        try:
            self.value = call()
        except exceptions.UtgError as e:
            self.error = e

    def matches(self, expected):
        """expected: ('ok', value) | ('err', name, text)"""
        if expected[0] == 'ok':
            return self.error is None and self.value == expected[1]
        if self.error is None:
            return False
        cls = getattr(exceptions, expected[1])
        return isinstance(self.error, cls) and (expected[2] is None or expected[2] in str(self.error))

    def __repr__(self):
        if self.error is not None:
            return '%s(%s)' % (type(self.error).__name__, self.error)
        return repr(self.value)


def model_outcome(call):
    try:
        return ('ok', call())
    except spec.MError as e:
        return ('err', e.name, e.text)
