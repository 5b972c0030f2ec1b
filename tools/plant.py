# coding: utf-8
"""Builds planted bugs from a definitions file and tries them:  plant.py DEFS.py [id...]
A definition: dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python text that exits non-zero with the bug).
Keeps /verif/seeded/<id>/ only when the patch applies, the stable tests pass, the demo passes before and fails after.
Prints whether the property's quick check catches it."""
import json
import os
import re
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/w/plant'
SEEDED = '/verif/seeded'
PRELUDE = '''# coding: utf-8
import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from utg import relations as r, words, templates, dictionary, lexicon, constructors, exceptions, data, logic
from utg.words import Word, WordForm, Properties
from utg.templates import Template, Substitution
from utg.dictionary import Dictionary
from utg.constructors import construct_integer


def forms(t, prefix='ф'):
    return [prefix + str(i) for i in range(Word.get_forms_number(t))]


def T(text, externals=()):
    t = Template()
    t.parse(text, externals=list(externals))
    return t


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests_pass(tree):
    """the stable tests of the repository, run in the scratch tree"""
    base = json.load(open('/opt/vp/BASELINE.json'))
    p = sh([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'utg'], cwd=tree, env=dict(os.environ, PYTHONPATH=tree))
    if p.returncode not in (0, 1) or b'no tests ran' in p.stdout:
        p = sh([PY, '-W', 'ignore', '-m', 'unittest', 'discover', '-s', 'utg', '-t', '.'], cwd=tree, env=dict(os.environ, PYTHONPATH=tree))
    return p.returncode == 0, p.stdout.decode()[-1500:]


def original_lines():
    out = {}
    base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.decode().split()[0]
    return base


def main():
    defs = {}
    exec(compile(open(sys.argv[1], encoding='utf-8').read(), sys.argv[1], 'exec'), defs)
    only = sys.argv[2:]
    base = original_lines()
    for d in defs['BUGS']:
        if only and d['id'] not in only:
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        shutil.copytree('/repo', SCRATCH, symlinks=True)
        ok = True
        for path, old, new in d['edits']:
            full = os.path.join(SCRATCH, path)
            text = open(full, encoding='utf-8').read()
            if text.count(old) != 1:
                print(d['id'], 'EDIT MATCHES', text.count(old), 'times', repr(old)[:80])
                ok = False
                break
            open(full, 'w', encoding='utf-8').write(text.replace(old, new))
        if not ok:
            continue
        patch = sh(['git', '-C', SCRATCH, 'diff']).stdout.decode()
        removed = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        original = '\n'.join(sh(['git', '-C', '/repo', 'show', '%s:%s' % (base, p)]).stdout.decode() for p, _, _ in d['edits'])
        foreign = [l for l in removed if l not in original.splitlines()]
        if foreign or not removed:
            print(d['id'], 'changes no original lines / lines of a fix:', foreign)
            if foreign and len(foreign) == len(removed):
                continue
        passed, log = tests_pass(SCRATCH)
        if not passed:
            print(d['id'], 'TESTS CATCH IT', re.findall(r'FAILED.*|FAIL:.*|ERROR:.*', log)[:3])
            continue
        out = '/tmp/w/%s' % d['id']
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w', encoding='utf-8').write(patch)
        open(out + '/demo.py', 'w', encoding='utf-8').write(PRELUDE + d['demo'].strip() + '\n')
        open(out + '/demo.sh', 'w').write('#!/bin/sh\n# run with the repository as working directory\nPYTHONWARNINGS=ignore exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w', encoding='utf-8'),
                  ensure_ascii=False, indent=1)
        clean = sh([out + '/demo.sh'], cwd='/repo')
        broken = sh([out + '/demo.sh'], cwd=SCRATCH)
        if clean.returncode != 0 or broken.returncode == 0:
            print(d['id'], 'DEMO WRONG: clean', clean.returncode, clean.stdout.decode()[-300:], 'broken', broken.returncode, broken.stdout.decode()[-300:])
            continue
        dest = os.path.join(SEEDED, d['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.move(out, dest)
        env = dict(os.environ, RV_REPO=SCRATCH, RV_EVIDENCE='/tmp/w/ev', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        run = sh(['/verif/check.sh', d['property']], env=env)
        text = run.stdout.decode('utf-8', 'replace')
        caught = run.returncode == 1 and 'VIOLATION property=%s ' % d['property'] in text
        others = []
        if os.environ.get('ALL'):
            for i in range(1, 23):
                name = 'C%02d' % i
                if name != d['property'] and sh(['/verif/check.sh', name], env=env).returncode == 1:
                    others.append(name)
        print(d['id'], 'caught' if caught else 'MISSED exit %d' % run.returncode, '|', text.splitlines()[0][:150] if text else '', others, flush=True)


main()
