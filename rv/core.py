# coding: utf-8
"""Differential core: build a world in the library and in the model, render in both, compare."""
from rv import real
from rv import spec


class Built(object):
    def __init__(self, world):
        self.world = world
        self.words = [real.W(w) for w in world.words]
        self.dictionary = real.dictionary.Dictionary(words=self.words)
        self.externals = {}
        for name, f in world.externals.items():
            self.externals[name] = real_external(f)


def real_external(f):
    if f.word.type == 'INTEGER' and f.raw == (None, None):
        try:
            n = int(f.word.forms[0])
        except ValueError:
            n = None
        if n is not None and spec.integer_props(n) == f.word.props and str(n) == f.word.forms[0]:
            return real.constructors.construct_integer(n)
    return real.F(f)


def model_render(text, names, externals, dictionary):
    return real.model_outcome(lambda: spec.MTemplate(text, names).substitute(externals, dictionary))


def real_render(text, names, externals, dictionary):
    return real.Observed(lambda: real.T(text, names).substitute(externals=externals, dictionary=dictionary))


def differential(ctx, built, text, names=None, message='rendering differs from the reference model', externals=None):
    """parse and render the text in both; -> (model outcome, model template or None)"""
    world = built.world
    names = list(world.externals) if names is None else names
    mext = world.externals if externals is None else {n: world.externals[n] for n in externals}
    rext = built.externals if externals is None else {n: built.externals[n] for n in externals}
    expected = model_render(text, names, mext, world.dictionary)
    got = real_render(text, names, rext, built.dictionary)
    if not got.matches(expected):
        ctx.fail(message, template=text, declared=names, bound=sorted(rext), expected=expected, got=got,
                 words=world.words, externals=world.externals)
    return expected
