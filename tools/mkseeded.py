# coding: utf-8
"""Writes the list of planted bugs into DESIGN.md (between the markers), from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- seeded: begin -->', '<!-- seeded: end -->'
# missed by the check of its property when it was planted -> what the check learned
MISSED = {
    'C01-sentinel': 'texts that an implementation may use as placeholders', 'C01-empty-text': 'sparse words in C01', 'C01-trailing-space': 'templates of 8-48 markers, literal text at both ends',
    'C05-scratch-word': 'several numbers alive together', 'C07-joined': 'homonyms whose lists of forms concatenate alike', 'C08-window': 'many templates that are equally near',
    'C09-shared-data': 'stored data changed between objects', 'C11-shared-buffer': 'results looked at again after later migrations', 'C13-transform-global': 'rival prepositions in one program',
    'C13-best-attribute': 'lexicons in concurrent programs', 'C13-lexicon-rebuild': 'lexicons in concurrent programs', 'C13-lexicon-scratch': 'lexicons in concurrent programs',
    'C15-recursion': 'very long texts', 'C15-truncated-error': 'long offending texts', 'C15-yo': 'near misses of names', 'C16-casefold': 'letters with unequal case mappings in names',
    'C16-trailing-comma': 'names of variables inside lists', 'C17-shrinks': 'sibling templates restored from the same data', 'C18-hash-after-clone': 'sets of many properties built in different orders',
    'C24-prefix-name': 'malformed texts with similar declared names', 'C24-largest-dictionary': 'words like the missing ones in large dictionaries', 'C24-undeclared-id': 'dictionary words with the names of variables',
    'C25-report-scratch': 'templates with unknown words', 'C25-time-limit-as-unknown': 'errors of the library coming out instead of the exception that arrived',
    'C18-equal-serialized': 'dependencies that read alike when joined', 'C20-set-of-properties': 'lists with two properties of one group', 'C21-apostrophe': 'every character in a dictionary text',
}


def main():
    rows = {}
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        path = os.path.join(HERE, 'seeded', name, 'meta.json')
        if os.path.exists(path):
            meta = json.load(open(path, encoding='utf-8'))
            rows.setdefault(meta['property'], []).append((name, meta))
    lines = [BEGIN, '']
    for prop in sorted(rows):
        lines.append('* **%s** — caught by the check of %s:' % (prop, prop))
        for name, meta in rows[prop]:
            lines.append('  `%s`: %s%s;' % (name[len(prop) + 1:] if name.startswith(prop + '-') else name, meta['needs'].rstrip('.'),
                                           ' (*missed at first; added: %s*)' % MISSED[name] if name in MISSED else ''))
    lines += ['', END]
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path, encoding='utf-8').read()
    a, b = text.index(BEGIN), text.index(END) + len(END)
    open(path, 'w', encoding='utf-8').write(text[:a] + '\n'.join(lines) + text[b:])


if __name__ == '__main__':
    main()
