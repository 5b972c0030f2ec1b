# coding: utf-8
"""Seeded generators of words, external variables, dictionaries and templates (model side)."""
from rv import spec

LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'
RUSSIAN = {
    'во': ('PREPOSITION', ['в', 'во', 'во']), 'со': ('PREPOSITION', ['с', 'со', 'со']), 'к': ('PREPOSITION', ['к', 'ко', 'ко']),
    'о': ('PREPOSITION', ['о', 'об', 'обо']), 'над': ('PREPOSITION', ['над', 'надо', 'надо']), 'на': ('PREPOSITION', ['на', 'на', 'на']),
    'у': ('PREPOSITION', ['у', 'у', 'у']), 'сквозь': ('PREPOSITION', ['сквозь', 'сквозь', 'сквозь']), 'из': ('PREPOSITION', ['из', 'изо', 'изо']),
}
HOSTILE = ['%', '%%', '%s', '%(a)s', '%d', '{}', '{0}', '\\1', '\\n', '\\', '[', ']', '[]', '[x', '|', ',', '\n', '\t', ' ', '$', '\u0301',
           '\U0001F600', 'İ', 'ß', 'ǆ', "'", '"', '№', '—', '\x00', '0', '-1', 'a', 'Я', 'ё', '[х]', '%[х|вн]%', '\u00a0']
LITERAL_CHARS = list('абв АБВ.,!?-«»') + HOSTILE
TYPICAL = {'NOUN': (('ANIMALITY', 1), ('GENDER', 1), ('NUMBER', 0.25)), 'ADJECTIVE': (('ADJECTIVE_CATEGORY', 1),),
           'PRONOUN': (('PRONOUN_CATEGORY', 1), ('PERSON', 0.5)), 'VERB': (('ASPECT', 1), ('VOICE', 1)),
           'PARTICIPLE': (('ASPECT', 1), ('VOICE', 1)), 'INTEGER': (('NUMBER', 1), ('INTEGER_FORM', 1)), 'TEXT': (), 'PREPOSITION': ()}


def props(rng, groups=None, p=None, word_type=0.03):
    groups = list(groups or spec.PLAIN_GROUPS)
    if word_type and rng.random() < word_type:
        groups = groups + ['WORD_TYPE']
    p = p if p is not None else rng.choice((0.05, 0.15, 0.3, 0.6, 1.0))
    rng.shuffle(groups)
    return {g: rng.choice(spec.GROUPS[g]) for g in groups if rng.random() < p}


def relevant_props(rng, wtype, p=0.5):
    """properties that matter for words of this type (and a few that do not)"""
    out = {g: rng.choice(spec.GROUPS[g]) for g in spec.SCHEMA[wtype] if rng.random() < p}
    if rng.random() < 0.3:
        out.update(props(rng, p=0.1))
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def const_props(rng, wtype, mode='typical'):
    if mode == 'none':
        return {}
    if mode == 'any':
        return props(rng, p=rng.choice((0.1, 0.3)))
    return {g: rng.choice(spec.GROUPS[g]) for g, chance in TYPICAL[wtype] if rng.random() < chance}


def uid_text(n):
    """distinct lower-case cyrillic texts for distinct numbers"""
    out = ''
    n += 1
    while n:
        n, d = divmod(n, 24)
        out = LETTERS[d] + out
    return out


def sentinel_forms(uid, wtype, prefix=''):
    return ['%s%s%s' % (prefix, uid_text(uid), slot) for slot in range(spec.NFORMS[wtype])]


SOUND = 'оаяеивсмнрктльъб'


def sound_word(rng, maximum=5):
    letters = SOUND if rng.random() < 0.7 else LETTERS
    return ''.join(rng.choice(letters) for _ in range(rng.randint(1, maximum)))


def natural_text(rng):
    """words of any letters with repeated ones, capitals anywhere, abbreviations, several words, punctuation, numbers"""
    out = ''
    for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 5))):
        part = ''.join(rng.choice(LETTERS) for _ in range(rng.choice((1, 2, 3, 4, 6, 9, 14))))
        how = rng.random()
        if how < 0.15:
            part = part[:2] * 2 + part
        elif how < 0.3:
            part = part.upper()
        elif how < 0.45:
            part = part.capitalize()
        elif how < 0.55:
            part = ''.join(c.upper() if rng.random() < 0.4 else c for c in part)
        elif how < 0.62:
            part = str(rng.randrange(10 ** rng.randint(1, 4)))
        elif how < 0.68:
            part = rng.choice(('ab', 'X', 'McX', 'iPad', 'q', '%', '100%', '%s', '5'))
        out += (rng.choice((' ', ' ', ' ', '-', '. ', ', ', '.', "'", ' – ', '/', ' №')) if out else '') + part
    return out + (rng.choice(('.', '!', '-', '»', ')')) if rng.random() < 0.1 else '')


TWINS = (('всё', 'все', 'вс\u0435\u0308'), ('ёлка', 'елка'), ('мой', 'мои', 'мо\u0438\u0306'), ('кто-то', 'кто то', 'кто\u2011то', 'кто\u2013то', 'ктото', 'кто\u00adто', 'кто - то'),
         ("об'ект", 'об\u2019ект', 'об"ект', 'обект', 'объект'), ('два слова', 'два  слова', 'два\u00a0слова', 'дваслова', 'два\tслова', 'два\nслова'),
         ('а', 'a', '\u0251'), ('о', 'o', '0'), ('caf\u00e9', 'cafe', 'cafe\u0301'), ('ma\u00dfe', 'masse'), ('\ufb01l', 'fil'), ('x\u00b2', 'x2'), ('и', 'й', 'i', '\u0456'),
         ('слово', 'слово.', 'слово,', '.слово', 'слово\u200b', 'слово\u0301', 'сло\u0301во', '\ufeffслово', '«слово»', '(слово)', 'слово!', '-слово'),
         ('5', '05', '5.', '+5', '\u0665', '\uff15', '5.0', '5,0', 'пять'), ('\u2116', 'no', 'n\u00ba'), ('кот', 'ко\u200dт', 'ко\u00adт', 'ко т', 'кoт', '\u202eкот'),
         ('σος', 'σοσ'), ('i\u0307', 'i'), ('\u01c6', 'd\u017e'), ('k', '\u043a'))


# fragments that something which tidies texts up would change, with what it would make of them
ODD = (('--', '-'), ('...', '\u2026'), ('..', '.'), ('--', '\u2014'), ('---', '-'), ('  ', ' '), ('   ', ' '), ('\t', '        '), ('\t', ' '), ('\r\n', '\n'), ('\r', ''), ('\r', '\n'), ('\n', ' '), ('\n\n', '\n'),
       ('\u00a0', ' '), ('\u2009', ' '), ('\u200b', ''), ('\u200d', ''), ('\u00ad', ''), ('\ufeff', ''), ('\u0301', ''), ('\u0308', ''), ('&amp;', '&'), ('&lt;', '<'), ('&nbsp;', '\u00a0'),
       ('&#39;', "'"), ('%%', '%'), ('%%%', '%%'), ('%s', '%%s'), ('%', '%%'), ('\\\\', '\\'), ('\\n', '\n'), ('\\t', '\t'), ('\\u0430', 'а'), ("\\'", "'"), ('\0', ''), ('\x01', ''), ('\x1b', ''),
       ('\x7f', ''), ('\x85', ''), ('\x0b', ''), ('\x0c', ''), ('\u2028', '\n'), ('\u202e', ''), ('ё', 'е'), ('й', 'и\u0306'), ('и\u0306', 'й'), ('\u2116', 'N'), ('\u201e', '"'), ('\u201c', '"'),
       ('"', '\u00ab'), ("''", '"'), ('\u2019', "'"), ('`', "'"), ('\u01c6', 'd\u017e'), ('\ufb01', 'fi'), ('\u00df', 'ss'), ('i\u0307', 'i'), ('\u0149', '\u02bcn'), ('\u03c2', '\u03c3'), ('\u017f', 's'),
       ('\u0390', '\u0399\u0308\u0301'), ('\uff0c', ','), ('\uff41', 'a'), ('\u00b2', '2'), ('\u0665', '5'), ('\u2460', '1'), ('007', '7'), ('00', '0'), ('1.0', '1'), ('1,000', '1000'), ('+5', '5'),
       ('5 000', '5000'), ('ъ', 'ь'), ('ъ', ''), ('ь', ''), ('a', 'а'), ('e', 'е'), ('o', 'о'), ('c', 'с'), ('\U0001f600', ''), ('\U0001d538', 'A'), ('\U00010428', '?'), ('{}', ''), ('{{', '{'), ('}}', '}'),
       ('{0}', '0'), ('$$', '$'), ('<b>', ''), ('_', ' '), (' - ', ' \u2014 '), ('-', '\u2011'), ('-', ' '), ('\u2013', '-'), ('\u2014', '-'), (' ,', ','), (' .', '.'), (',', ', '), ('.', '. '), ('!!', '!'),
       ('?!', '?'), (':', ''), (';', ','), ('/', ''), ('*', ''), ('~', ''), ('^', ''), ('=', ''), ('+', ' '), ('%20', ' '), ('№', 'n'), ('аа', 'а'), ('ннн', 'н'), ('\u0456', 'i'), ('\u0491', 'г'), ('Ё', 'Е'), ('Й', 'И'), ('я' * 260 + 'ё', 'я' * 260 + 'е'), ('0', ''), ('é', '?'), ('\U0001f600', '?'))


def odd(rng, text, fragment=None):
    """the text with such a fragment somewhere inside (rarely: at an end)"""
    fragment = fragment or rng.choice(ODD)[0]
    k = rng.choice((0, len(text), rng.randint(0, len(text)), rng.randint(min(1, len(text)), max(0, len(text) - 1)) if len(text) > 1 else 0))
    return text[:k] + fragment + text[k:]


def odd_pairs():
    """every fragment inside, before and after a text, beside the text it could be taken for: (text, other text)"""
    for a, b in ODD:
        for before, after in (('к', 'т'), ('', 'кт'), ('кт', ''), ('к т', 'к' + a)):
            yield before + a + after, before + b + after


def odd_ids():
    """those that can be names in a template (the other text, too, or None)"""
    for text, other in odd_pairs():
        if usable_id(text):
            yield text, other if usable_id(other) and other != text else None


def twin(rng, text):
    """a text that looks like this one and is another"""
    if rng.random() < 0.3:
        a, b = rng.choice(ODD)
        here = [pair for pair in ODD if pair[0] in text]
        if here and rng.random() < 0.7:
            a, b = rng.choice(here)
        if a not in text:
            return odd(rng, text, a)
        return text.replace(a, b) if rng.random() < 0.5 else text.replace(a, b, 1)
    swaps = [('ё', 'е'), ('е', 'ё'), ('й', 'и'), ('и', 'й'), ('а', 'a'), ('о', 'o'), ('с', 'c'), ('a', 'а'), ('o', 'о'), ('ъ', ''), ('ь', ''), ('-', ''), (' ', ''), (' ', '  '),
             (' ', '\u00a0'), ('-', '\u2013'), ('ß', 'ss'), ("'", '\u2019'), ('\u0301', ''), ('й', 'и\u0306'), ('ё', 'е\u0308')]
    swaps = [s for s in swaps if s[0] in text]
    if swaps and rng.random() < 0.7:
        a, b = rng.choice(swaps)
        return text.replace(a, b) if rng.random() < 0.5 else text.replace(a, b, 1)
    k = rng.randint(0, len(text))
    return rng.choice((text[:k] + rng.choice('\u0301\u00ad\u200b\u200d-. \'_ъьs1') + text[k:], text + rng.choice('аиыу.,s'), text[:-1], text[1:], text + text, text[::-1]))


def forms(rng, uid, wtype, style):
    out = short_forms(rng, uid, wtype, style)
    if style in ('sentinel', 'natural', 'twins', 'sparse') and rng.random() < 0.02:      # long texts that differ late (or early)
        same = rng.choice(('а', 'ая ', 'длинный текст ', 'раз-два, ')) * rng.choice((5, 20, 30, 70, 300))
        where = rng.random() < 0.7
        out = [f and (same + f if where else f + ' ' + same.strip()) for f in out]
    elif style in ('sentinel', 'natural', 'twins', 'sparse', 'sound') and rng.random() < 0.05:
        few = [rng.choice(ODD)[0] for _ in range(rng.choice((1, 1, 2, 5)))]
        out = [f and odd(rng, f, rng.choice(few)) for f in out]
    return out


def short_forms(rng, uid, wtype, style):
    n = spec.NFORMS[wtype]
    if style == 'sentinel':
        return sentinel_forms(uid, wtype)
    if style == 'sound':
        stem = sound_word(rng, 3)
        return [stem + sound_word(rng, 2) if rng.random() < 0.7 else sound_word(rng, 4) for _ in range(n)]
    if style == 'sparse':
        out = sentinel_forms(uid, wtype)
        return [f if rng.random() < 0.4 else '' for f in out]
    if style == 'natural':
        stem = natural_text(rng)
        return [stem[:rng.randint(1, len(stem))] + rng.choice(('', 'а', 'ов', 'Ё', 'х', ' я')) if rng.random() < 0.5 else natural_text(rng) for _ in range(n)]
    if style == 'shared':    # few distinct texts: homonyms within and between words
        return [rng.choice(('аа', 'бб', 'ва', 'гг', 'да')) for _ in range(n)]
    if style == 'hostile':
        return [uid_text(uid) + ''.join(rng.choice(HOSTILE) for _ in range(rng.randint(1, 4))) if rng.random() < 0.5
                else rng.choice(HOSTILE) + uid_text(uid) + str(i) for i in range(n)]
    if style == 'twins':     # texts that look alike, are not the same, and are not to be taken for one another
        pool = rng.choice(TWINS)
        return [rng.choice(pool) + rng.choice(('', '', 'а', 'м')) for _ in range(n)]
    if style == 'unique-hostile':
        return ['%s%d%s' % (rng.choice(HOSTILE), i, rng.choice(HOSTILE)) + uid_text(uid) for i in range(n)]
    raise ValueError(style)


STYLES = ('sentinel', 'sentinel', 'sentinel', 'sound', 'sparse', 'shared', 'natural')


def word(rng, uid, wtype=None, style=None, const='typical'):
    wtype = wtype or rng.choice(spec.TYPES)
    style = style or rng.choice(STYLES)
    if wtype == 'PREPOSITION' and style in ('sentinel', 'sound') and rng.random() < 0.6:
        fs = list(rng.choice(list(RUSSIAN.values()))[1])
        return spec.MWord(wtype, fs, {})
    return spec.MWord(wtype, forms(rng, uid, wtype, style), const_props(rng, wtype, const))


INTEGERS = (0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 14, 19, 20, 21, 22, 24, 25, 100, 101, 111, 112, 121, 1000, 1001, 9999, 10000, 10001, 10002,
            10011, 99999, 10 ** 6, 10 ** 6 + 1, 10 ** 9, 10 ** 9 - 1, 10 ** 12, -1, -2, -5, -11, -21, -10 ** 6, 2 ** 70 + 3)


def integer(rng):
    return rng.choice(INTEGERS) if rng.random() < 0.6 else rng.choice((1, -1)) * rng.randrange(10 ** rng.randint(1, 15))


def external(rng, uid, style=None, wtype=None, const='typical'):
    """-> MForm"""
    if wtype is None and rng.random() < 0.2:
        return spec.integer_form(integer(rng))
    w = word(rng, uid, wtype=wtype, style=style, const=const)
    p = fp = None
    if rng.random() < 0.4:
        p = relevant_props(rng, w.type) if rng.random() < 0.7 else props(rng)
    if rng.random() < 0.2:
        fp = relevant_props(rng, w.type)
    return spec.MForm(w, p, fp)


NAMES = ('hero', 'npc', 'mob', 'a', 'переменная 1', 'x2', 'coins', 'q%', 'мн', 'вн,мр', 'п.о', '%s', '[z', '\\d', 'aa', 'hero2', 'straße', '\ufb01n', 'μικρός', 'ſs')


class World(object):
    """a dictionary and external variables"""

    def __init__(self, rng, styles=STYLES, max_words=5, max_externals=4, const=('typical', 'typical', 'any', 'none'), types=None, collide=True):
        self.words = []
        for i in range(rng.randint(0 if max_externals else 1, max_words)):
            self.words.append(word(rng, i, wtype=rng.choice(types or spec.TYPES), style=rng.choice(styles), const=rng.choice(const)))
        self.dictionary = spec.MDictionary(self.words)
        names = rng.sample(NAMES, rng.randint(0, max_externals))
        texts = [f for f in self.dictionary.index if usable_id(f)]
        if collide and texts and names and rng.random() < 0.25:
            names[0] = rng.choice(texts)
        names = [rng.choice((odd(rng, n), odd(rng, n), twin(rng, n))) if rng.random() < 0.08 else n for n in names]
        names = [n if usable_id(n) else 'простое' for n in names]
        self.externals = {}
        for k, name in enumerate(names):
            if name not in self.externals:
                self.externals[name] = external(rng, 100 + k, style=rng.choice(styles), const=rng.choice(const))
        self.texts = texts
        self.names = list(self.externals)

    def describe(self):
        return {'words': self.words, 'externals': self.externals}


def usable_id(text):
    return bool(text) and text == text.strip() and text == text.lower() and not text[0].isupper() and '|' not in text and ']' not in text


SPACES = ('', '', '', ' ', '  ', '\t', '\n', '\u00a0 ')


def respell(rng, text, case=True):
    """the same text in another spelling (letter case, spaces around)"""
    out = text
    if case and rng.random() < 0.3:
        out2 = ''.join(c.upper() if rng.random() < 0.5 else c for c in out)
        if out2.lower() == text:
            out = out2
    return rng.choice(SPACES) + out + rng.choice(SPACES)


def spell_props(rng, p, messy=True):
    items = [spec.VERBOSE[(g, v)] for g, v in p.items()]
    if messy:
        items = [respell(rng, i) for i in items]
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            items.insert(rng.randint(0, len(items)), rng.choice(('', ' ')))
    return ','.join(items)


def safe_field(text):
    return '|' not in text and ']' not in text


def marker(rng, world, messy=True, errors=0.0, max_deps=4, capital=0.25, names=None, wtype_hint=True):
    names = [n for n in (names if names is not None else world.names)]
    pool = names + names
    if world.texts:
        pool = pool + [rng.choice(world.texts) for _ in range(3)]
    if errors and rng.random() < errors or not pool:
        ident = rng.choice(('нетслова', 'zz', 'nobody', 'слово%', '[q', '\\x'))
        if rng.random() < 0.3:
            ident = odd(rng, ident)
    else:
        ident = rng.choice(pool)
    base = world.externals[ident].word.type if ident in world.externals else (
        world.dictionary.get(ident).word.type if world.dictionary.has(ident) else 'NOUN')

    spelled = ident
    if rng.random() < capital:
        candidate = ident[0].upper() + ident[1:]
        if candidate.lower() == ident:
            spelled = candidate
    if messy and rng.random() < 0.2:
        candidate = spelled[0] + ''.join(c.upper() if rng.random() < 0.5 else c for c in spelled[1:])
        if candidate.lower() == ident:
            spelled = candidate
    if messy:
        spelled = rng.choice(SPACES) + spelled + rng.choice(SPACES)
    fields = [spelled]
    for _ in range(rng.choice((0, 0, 1, 1, 1, 2, 2, 3, max_deps))):
        if names and rng.random() < 0.5:
            name = rng.choice(names)
            fields.append(respell(rng, name) if messy else name)
        else:
            p = relevant_props(rng, base, rng.choice((0.2, 0.5, 0.9))) if wtype_hint and rng.random() < 0.8 else props(rng)
            fields.append(spell_props(rng, p, messy))
        if errors and rng.random() < errors:
            fields.append(rng.choice(('неизвестно', 'вн,zz', 'им;рд', 'ghost')))
    if errors and rng.random() < errors * 0.3:
        fields[0] = rng.choice(('', ' ', '\t'))
        if len(fields) == 1 and not fields[0]:
            fields.append('')
    return '[' + '|'.join(fields) + ']'


def literal(rng, hostile=True, maximum=6):
    chars = LITERAL_CHARS if hostile else list('абв АБВ.,!?-«»')
    out = ''.join(rng.choice(chars) for _ in range(rng.randint(0, maximum)))
    if rng.random() < 0.04:
        out = odd(rng, out)
    return out.replace('[х]', '').replace('%[х|вн]%', '') if hostile else out


def template(rng, world, markers=(0, 5), hostile=False, **kw):
    """template text; literals between markers never open a marker of their own unless hostile"""
    out = literal(rng, hostile=False)
    made = []
    for _ in range(rng.randint(*markers)):
        m = rng.choice(made) if made and rng.random() < 0.2 else marker(rng, world, **kw)
        made.append(m)
        out += m
        out += literal(rng, hostile=False) if rng.random() < 0.7 else ''
    return out


def long_chain(rng, base, decisive, names, groups):
    """a marker of many dependencies of which the decisive one is at any place, among lists and variables that say other things; -> text, names used"""
    n = rng.choice((4, 8, 12, 16, 17, 24, 33, 40, 65, 100, 130))
    kinds = rng.choice((('list',), ('name',), ('list', 'name'), ('empty', 'list', 'name')))
    fields = []
    for _ in range(n):
        kind = rng.choice(kinds) if names else 'list'
        if kind == 'list':
            g = rng.choice(groups)
            fields.append(spec.VERBOSE[(g, rng.choice(spec.GROUPS[g]))])
        else:
            fields.append(rng.choice(names) if kind == 'name' else '')
    for d in decisive:
        fields.insert(rng.choice((0, len(fields), len(fields), rng.randint(0, len(fields)))), d)
    return '[%s|%s]' % (base, '|'.join(fields))
