# coding: utf-8
"""Reference model of the library, written from its documentation (README, comments with the grammar
rules) and from the properties in properties.jsonl.  It uses no code and no table of the library: a
property set is a plain dict {group: value name}, a word a plain record.  The recorded vocabulary (codes,
short names, slot order at the time the properties were written) is in golden/current.json.
"""
import itertools
import json
import os
import re

_HERE = os.path.dirname(os.path.abspath(__file__))
GOLD = json.load(open(os.path.join(_HERE, 'golden', 'current.json'), encoding='utf-8'))

# group -> value names; the first one is the default
GROUPS = {g: [v[0] for v in d['values']] for g, d in GOLD['groups'].items()}
GROUP_ORDER = sorted(GROUPS, key=lambda g: GOLD['groups'][g]['code'])
GROUP_CODE = {g: d['code'] for g, d in GOLD['groups'].items()}
VALUE_CODE = {(g, v[0]): v[1] for g, d in GOLD['groups'].items() for v in d['values']}
VERBOSE = {(g, v[0]): v[3] for g, d in GOLD['groups'].items() for v in d['values']}
BY_VERBOSE = {v: k for k, v in VERBOSE.items()}
TYPES = ['NOUN', 'ADJECTIVE', 'PRONOUN', 'VERB', 'PARTICIPLE', 'INTEGER', 'TEXT', 'PREPOSITION']
TYPE_CODE = {'NOUN': 0, 'ADJECTIVE': 1, 'PRONOUN': 2, 'VERB': 3, 'PARTICIPLE': 4, 'INTEGER': 5, 'TEXT': 6, 'PREPOSITION': 10}
SCHEMA = {'NOUN': ('NOUN_FORM', 'NUMBER', 'CASE'),
          'ADJECTIVE': ('ADJECTIVE_FORM', 'GRADE', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'PRONOUN': ('ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'VERB': ('VERB_FORM', 'TIME', 'NUMBER', 'PERSON', 'GENDER'),
          'PARTICIPLE': ('PARTICIPLE_FORM', 'TIME', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER'),
          'INTEGER': (), 'TEXT': (), 'PREPOSITION': ('PREPOSITION_FORM',)}
# groups a user may attach to a marker (WORD_TYPE as a property is inert and has no default)
PLAIN_GROUPS = [g for g in GROUP_ORDER if g != 'WORD_TYPE']


def default(group):
    return None if group == 'WORD_TYPE' else GROUPS[group][0]


# ---------------------------------------------------------------------------------- paradigms

def distinguished(wtype, combo):
    """combination (dict group -> value, complete over the schema) -> the same with None for the groups the
    paradigm does not distinguish there; None if the paradigm has no such form"""
    c = dict(combo)

    if wtype == 'NOUN':
        if c['NOUN_FORM'] == 'COUNTABLE' and c['NUMBER'] == 'SINGULAR':
            return None
    elif wtype == 'ADJECTIVE':
        if c['ADJECTIVE_FORM'] == 'SHORT':
            c['GRADE'] = c['ANIMALITY'] = c['CASE'] = None
        elif c['GRADE'] == 'COMPARATIVE':
            c['ANIMALITY'] = c['NUMBER'] = c['CASE'] = c['GENDER'] = None
        if c['NUMBER'] == 'PLURAL':
            c['GENDER'] = None
    elif wtype == 'PRONOUN':
        if c['NUMBER'] == 'PLURAL':
            c['GENDER'] = None
    elif wtype == 'VERB':
        if c['VERB_FORM'] == 'INFINITIVE':
            c['TIME'] = c['NUMBER'] = c['PERSON'] = c['GENDER'] = None
        elif c['VERB_FORM'] == 'IMPERATIVE':
            if c['PERSON'] == 'THIRD' or (c['PERSON'] == 'FIRST' and c['NUMBER'] == 'SINGULAR'):
                return None
            c['TIME'] = c['GENDER'] = None
        elif c['TIME'] == 'PAST':
            c['PERSON'] = None
            if c['NUMBER'] == 'PLURAL':
                c['GENDER'] = None
        else:
            c['GENDER'] = None
    elif wtype == 'PARTICIPLE':
        if c['PARTICIPLE_FORM'] == 'SHORT':
            c['TIME'] = c['ANIMALITY'] = c['CASE'] = None
        if c['NUMBER'] == 'PLURAL':
            c['GENDER'] = None

    return tuple(c[g] for g in SCHEMA[wtype])


def combos(wtype):
    schema = SCHEMA[wtype]
    for values in itertools.product(*[GROUPS[g] for g in schema]):
        yield dict(zip(schema, values))


def similarity(a, b):
    """(number of agreeing groups, weight of their positions)"""
    same = [i for i, (x, y) in enumerate(zip(a, b)) if x == y]
    return (len(same), sum(same))


SLOTS = {}       # wtype -> [distinguished key] in slot order
SLOT_OF = {}     # wtype -> {distinguished key: slot}
FULL = {}        # wtype -> {full combination: frozenset of acceptable slots}
LACKING = {}     # wtype -> full combinations without a form of their own

for _t in TYPES:
    SLOTS[_t] = []
    _exact = {}
    LACKING[_t] = []
    for _c in combos(_t):
        _k = distinguished(_t, _c)
        _full = tuple(_c[g] for g in SCHEMA[_t])
        if _k is None:
            LACKING[_t].append(_full)
            continue
        if _k not in SLOTS[_t]:
            SLOTS[_t].append(_k)
        _exact[_full] = _k
    SLOT_OF[_t] = {k: i for i, k in enumerate(SLOTS[_t])}
    FULL[_t] = {f: frozenset((SLOT_OF[_t][k],)) for f, k in _exact.items()}
    for _full in LACKING[_t]:
        _best = max(similarity(_full, other) for other in _exact)
        # the form stored first wins among equals
        FULL[_t][_full] = frozenset((min(SLOT_OF[_t][k] for other, k in _exact.items() if similarity(_full, other) == _best),))

NFORMS = {t: len(SLOTS[t]) for t in TYPES}


def full_key(wtype, props):
    return tuple(props.get(g, default(g)) for g in SCHEMA[wtype])


def slots_for(wtype, props):
    return FULL[wtype][full_key(wtype, props)]


def the_slot(wtype, props):
    slots = slots_for(wtype, props)
    assert len(slots) == 1, (wtype, props, slots)
    return next(iter(slots))


def slot_props(wtype, slot):
    return {g: v for g, v in zip(SCHEMA[wtype], SLOTS[wtype][slot]) if v is not None}


def merge(*dicts):
    out = {}
    for d in dicts:
        if d:
            out.update(d)
    return out


def distance(props):
    return sum(1 for g, v in props.items() if v != default(g))


def props_str(props):
    return '(%s)' % ','.join(VERBOSE[(g, props[g])] for g in GROUP_ORDER if g in props)


# ---------------------------------------------------------------------------------- words

class MWord(object):
    def __init__(self, wtype, forms, props=None):
        assert len(forms) == NFORMS[wtype]
        self.type = wtype
        self.forms = list(forms)
        self.props = dict(props or {})

    def form(self, props):
        return self.forms[the_slot(self.type, merge(props, self.props))]

    def normal_form(self):
        return self.form({})

    def key(self):
        return (self.type, tuple(self.forms), tuple(sorted(self.props.items())))

    def serialize(self):
        return {'type': TYPE_CODE[self.type], 'forms': list(self.forms), 'properties': serialize_props(self.props)}

    def __repr__(self):
        return 'MWord(%s, %r, %r)' % (self.type, self.forms, self.props)


class MForm(object):
    def __init__(self, word, props=None, form_props=None):
        self.word = word
        self.raw = (props, form_props)
        self.props = dict(word.props) if props is None else merge(props, word.props)
        self.form_props = merge(form_props, word.props) if form_props is not None else self.props

    @property
    def form(self):
        return select_form(self.word, self.form_props)

    def __repr__(self):
        return 'MForm(%r, %r, %r)' % (self.word, self.raw[0], self.raw[1])


def select_form(word, props):
    text = word.forms[the_slot(word.type, props)]
    if props.get('WORD_CASE') == 'UPPER':
        text = text[:1].upper() + text[1:]
    return text


def serialize_props(props):
    return {GROUP_CODE[g]: VALUE_CODE[(g, v)] for g, v in props.items()}


# ---------------------------------------------------------------------------------- dictionary

class MDictionary(object):
    def __init__(self, words=()):
        self.entries = []   # (text, word, props) in order of registration
        self.index = {}
        for w in words:
            self.add(w)

    def add(self, word):
        for slot, text in enumerate(word.forms):
            f = MForm(word, slot_props(word.type, slot))
            # the paradigm's text of that slot, seen through the word's constant properties
            text = f.form
            self.entries.append((text, f))
            rank = (TYPE_CODE[word.type], word.forms, distance(f.props))
            if text not in self.index or rank < self.index[text][0]:
                self.index[text] = (rank, f)

    def has(self, text):
        return text in self.index

    def get(self, text):
        return self.index[text][1] if text in self.index else None

    def copy(self):
        d = MDictionary()
        d.entries = list(self.entries)
        d.index = dict(self.index)
        return d


# ---------------------------------------------------------------------------------- numbers

def integer_props(n):
    a = abs(n)
    if a == 1:
        cls = 'SINGULAR'
    elif a in (10 ** 6, 10 ** 9):
        cls = 'MIL_BIL'
    elif a in (2, 3, 4):
        cls = 'DUAL'
    else:
        tail = str(a)[-2:]
        if len(tail) == 2 and tail[0] == '1':
            cls = 'PLURAL'
        elif tail[-1] == '1':
            cls = 'SINGULAR'
        elif tail[-1] in '234':
            cls = 'COMPOSITE_DUAL'
        else:
            cls = 'PLURAL'
    return {'NUMBER': 'SINGULAR' if a == 1 else 'PLURAL', 'INTEGER_FORM': cls}


def integer_form(n):
    digits = ''
    a = abs(n)
    while True:
        a, d = divmod(a, 10)
        digits = '0123456789'[d] + digits
        if not a:
            break
    return MForm(MWord('INTEGER', [('-' if n < 0 else '') + digits], integer_props(n)))


# ---------------------------------------------------------------------------------- agreement

NOUNLIKE = ('NOUN', 'PRONOUN')
ADJLIKE = ('ADJECTIVE', 'VERB', 'PARTICIPLE')


def _get(props, group):
    return props.get(group, default(group))


def agree_with_number(slave_type, props):
    cls = _get(props, 'INTEGER_FORM')
    case = _get(props, 'CASE')
    noun = slave_type in NOUNLIKE
    new = {}

    if _get(props, 'DEPENDENCY_MODE') == 'SEMANTIC':
        if noun:
            new['NOUN_FORM'] = 'NORMAL'
        new['NUMBER'] = 'SINGULAR' if cls == 'SINGULAR' else 'PLURAL'
        return merge(props, new)

    direct = case in ('NOMINATIVE', 'ACCUSATIVE')

    if cls == 'SINGULAR':
        if noun:
            new['NOUN_FORM'] = 'NORMAL'
        new['NUMBER'] = 'SINGULAR'
        return merge(props, new)

    if noun:
        governed_singular = ((cls == 'COMPOSITE_DUAL' and direct) or
                             (cls == 'DUAL' and (case == 'NOMINATIVE' or
                                                 (case == 'ACCUSATIVE' and _get(props, 'ANIMALITY') == 'INANIMATE'))))
        if governed_singular:
            new.update(NOUN_FORM='NORMAL', NUMBER='SINGULAR', CASE='GENITIVE')
        else:
            new.update(NOUN_FORM='COUNTABLE', NUMBER='PLURAL')
            if cls == 'MIL_BIL' or (cls == 'PLURAL' and direct):
                new['CASE'] = 'GENITIVE'
        return merge(props, new)

    if cls == 'DUAL':
        new['NUMBER'] = 'PLURAL'
        if direct:
            new['CASE'] = 'NOMINATIVE' if _get(props, 'GENDER') == 'FEMININE' else 'GENITIVE'
    elif cls == 'COMPOSITE_DUAL':
        if direct:
            new.update(NUMBER='SINGULAR', CASE='GENITIVE')
        else:
            new['NUMBER'] = 'PLURAL'
    else:
        new['NUMBER'] = 'PLURAL'
        if cls == 'MIL_BIL' or direct:
            new['CASE'] = 'GENITIVE'
    return merge(props, new)


_CONSONANTS = set('бвгджзйклмнпрстфхцчшщъь')
_VOWELS = set('аеёиоуыэюя')
_IOTATED = set('еёюя')


def _vowels(text):
    return [c for c in text if c in _VOWELS or c.lower() in _VOWELS]


def one_syllable(word):
    return len(_vowels(word.forms[0])) <= 1


def fluent_vowel(word):
    base = _vowels(word.forms[0])
    return any(_vowels(f)[:len(base)] != base for f in word.forms[1:] if f)


def starts_with_cluster(text):
    text = text.lower()
    return text[:1] in _CONSONANTS and (len(text) == 1 or text[1] in _CONSONANTS) if text else False


def govern_preposition(word, props, master):
    slave = word.normal_form()
    governed = master.form.lower()
    if slave and slave[-1].lower() in _CONSONANTS:
        if starts_with_cluster(governed):
            if one_syllable(master.word) and fluent_vowel(master.word):
                return merge(props, {'PREPOSITION_FORM': 'ALTERNATIVE'})
            if slave in ('в', 'с') and governed[0] == slave:
                return merge(props, {'PREPOSITION_FORM': 'ALTERNATIVE'})
        return props
    if slave == 'о' and governed in ('всех', 'мне', 'всём', 'что', 'всей'):
        return merge(props, {'PREPOSITION_FORM': 'SPECIAL'})
    if governed and governed[0] in _VOWELS - _IOTATED:
        return merge(props, {'PREPOSITION_FORM': 'ALTERNATIVE'})
    return props


def transform(word, props, master):
    if word.type == 'PREPOSITION':
        return govern_preposition(word, props, master)
    if master.word.type == 'INTEGER' and word.type in NOUNLIKE + ADJLIKE:
        return agree_with_number(word.type, props)
    return props


# ---------------------------------------------------------------------------------- templates

class MError(Exception):
    def __init__(self, name, text):
        super(MError, self).__init__(name, text)
        self.name = name
        self.text = text


def split_template(text):
    """[('text', s) | ('marker', s with brackets)]"""
    out = []
    buf = ''
    i = 0
    while i < len(text):
        if text[i] == '[':
            j = text.find(']', i)
            if j > i + 1:
                if buf:
                    out.append(('text', buf))
                buf = ''
                out.append(('marker', text[i:j + 1]))
                i = j + 1
                continue
        buf += text[i]
        i += 1
    if buf:
        out.append(('text', buf))
    return out


class MMarker(object):
    def __init__(self, id, deps, source):
        self.id = id
        self.deps = deps     # each ('ext', name) or ('props', dict)
        self.source = source


def parse_marker(marker, externals):
    fields = marker[1:-1].split('|')
    name = fields[0].strip()
    if not name:
        raise MError('WrongDependencyFormatError', marker)
    deps = []
    for field in fields[1:]:
        field = field.lower().strip()
        if field in externals:
            deps.append(('ext', field))
            continue
        props = {}
        for item in field.split(','):
            item = item.strip()
            if not item:
                continue
            if item not in BY_VERBOSE:
                raise MError('UnknownVerboseIdError', item)
            g, v = BY_VERBOSE[item]
            props[g] = v
        deps.append(('props', props))
    if name[0].isupper():
        deps.append(('props', {'WORD_CASE': 'UPPER'}))
    return MMarker(name.lower(), deps, marker)


class MTemplate(object):
    def __init__(self, text, externals):
        self.text = text
        self.parts = []
        for kind, piece in split_template(text):
            self.parts.append((kind, parse_marker(piece, externals) if kind == 'marker' else piece))

    @property
    def markers(self):
        return [p for kind, p in self.parts if kind == 'marker']

    def resolve(self, marker, externals, dictionary):
        """-> (word, final properties)"""
        if marker.id in externals:
            base = externals[marker.id]
        else:
            base = dictionary.get(marker.id)
            if base is None:
                raise MError('NoWordsFoundError', marker.id)
        props = dict(base.props)
        masters = []
        for kind, value in marker.deps:
            if kind == 'ext':
                if value not in externals:
                    raise MError('ExternalDependecyNotFoundError', value)
                props.update(externals[value].props)
                masters.append(externals[value])
            else:
                props.update(value)
        props.update(base.word.props)
        for master in masters:
            props = transform(base.word, props, master)
        return base.word, props

    def substitute(self, externals, dictionary):
        pieces = [piece if kind == 'text' else select_form(*self.resolve(piece, externals, dictionary))
                  for kind, piece in self.parts]
        return ''.join(pieces)

    def missing(self, externals, dictionary):
        return [m.id for m in self.markers if m.id not in externals and not dictionary.has(m.id)]


# ---------------------------------------------------------------------------------- autofill

def autofill(wtype, forms):
    """list of sets of acceptable texts per slot"""
    given = [i for i, f in enumerate(forms) if f]
    out = []
    for i, f in enumerate(forms):
        if f or not given:
            out.append({f})
            continue
        best = max(similarity(SLOTS[wtype][i], SLOTS[wtype][j]) for j in given)
        out.append({forms[j] for j in given if similarity(SLOTS[wtype][i], SLOTS[wtype][j]) == best})
    return out
