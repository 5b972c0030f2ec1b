# coding: utf-8
"""Mechanical mutants of the library: those that pass the stable tests are given to the checks until one reports.
mutate.py OUT.jsonl [file...]; prints the mutants no check reports (equivalent ones among them)."""
import ast
import copy
import difflib
import json
import os
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/w/mutant'
FILES = ['templates', 'words', 'dictionary', 'lexicon', 'constructors', 'logic', 'transformators', 'utils', 'restrictions', 'data',
         'migrations/m_0002_countable_noun_form', 'migrations/m_0004_new_preposition_form', 'migrations/m_0005_remove_time_participle_property',
         'migrations/m_0001_include_short_forms_in_full', 'migrations/m_0007_reduce_words_forms', 'migrations/m_0008_lower_animiality_nearest_priority',
         'migrations/m_0009_pronoun_modernization']
ORDER = {'templates': (1, 2, 15, 16, 17, 22, 19, 9, 18, 6, 21), 'words': (3, 14, 18, 19, 6, 9, 10, 7), 'dictionary': (7, 21, 22, 12), 'lexicon': (8,),
         'constructors': (5, 13), 'logic': (3, 14, 10), 'transformators': (4, 6), 'utils': (12, 13), 'restrictions': (10, 3), 'data': (6, 10)}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutations(tree):
    """(description, function that edits a fresh copy found by position)"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                yield line, 'compare', i, lambda m, k=k, op=op: m.ops.__setitem__(k, CMP[type(op)]())
                if isinstance(op, (ast.Lt, ast.Gt)):
                    new = ast.Gt if isinstance(op, ast.Lt) else ast.Lt
                    yield line, 'compare flip', i, lambda m, k=k, new=new: m.ops.__setitem__(k, new())
        elif isinstance(n, ast.BoolOp):
            yield line, 'and/or', i, lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for k in range(len(n.values)):
                yield line, 'drop operand %d' % k, i, lambda m, k=k: m.values.__delitem__(k) if len(m.values) > 2 else (setattr(m, 'op', ast.And()), m.values.__setitem__(k, m.values[1 - k]))
        elif isinstance(n, ast.If):
            yield line, 'negate if', i, lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))
            yield line, 'if True', i, lambda m: setattr(m, 'test', ast.Constant(True))
            yield line, 'if False', i, lambda m: setattr(m, 'test', ast.Constant(False))
        elif isinstance(n, ast.IfExp):
            yield line, 'ifexp first', i, lambda m: setattr(m, 'test', ast.Constant(True))
            yield line, 'ifexp second', i, lambda m: setattr(m, 'test', ast.Constant(False))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield line, 'plus/minus', i, lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            for d in (1, -1):
                yield line, 'constant %+d' % d, i, lambda m, d=d: setattr(m, 'value', m.value + d)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 120:
            yield line, 'string', i, lambda m: setattr(m, 'value', m.value[:-1])
            yield line, 'string 2', i, lambda m: setattr(m, 'value', m.value[1:])
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield line, 'bool', i, lambda m: setattr(m, 'value', not m.value)
        elif isinstance(n, ast.Continue):
            yield line, 'continue->break', i, 'break'
        elif isinstance(n, ast.Break):
            yield line, 'break->continue', i, 'continue'
        elif isinstance(n, ast.Call):
            for k in range(len(n.args)):
                yield line, 'drop argument %d' % k, i, lambda m, k=k: m.args.__delitem__(k)
            if len(n.args) >= 2:
                yield line, 'swap arguments', i, lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                yield line, 'drop method call', i, 'method'
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'set', 'tuple', 'sorted', 'abs', 'str', 'int', 'frozenset') and len(n.args) == 1:
                yield line, 'drop %s()' % n.func.id, i, 'unwrap'
        elif isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n, part) is not None:
                    yield line, 'slice without ' + part, i, lambda m, part=part: setattr(m, part, None)
        elif isinstance(n, ast.Return) and n.value is not None:
            yield line, 'return None', i, lambda m: setattr(m, 'value', ast.Constant(None))
        elif isinstance(n, (ast.Tuple, ast.Set, ast.List)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) > 1:
            for k in range(min(len(n.elts), 12)):
                yield line, 'drop element %d' % k, i, lambda m, k=k: m.elts.__delitem__(k)
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.For, ast.If, ast.Raise, ast.Continue)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(n, ast.Module):
                    yield s.lineno, 'drop statement', i, lambda m, k=k: m.body.__setitem__(k, ast.Pass())
        if isinstance(n, ast.comprehension) and n.ifs:
            yield line, 'drop filter', i, lambda m: m.ifs.clear()


def apply(tree, index, edit):
    t = copy.deepcopy(tree)
    n = list(ast.walk(t))[index]
    if callable(edit):
        edit(n)
    else:
        for p in ast.walk(t):
            for field, value in ast.iter_fields(p):
                new = {'break': ast.Break(), 'continue': ast.Continue(), 'method': getattr(getattr(n, 'func', None), 'value', None),
                       'unwrap': (getattr(n, 'args', None) or [None])[0]}[edit]
                if value is n:
                    setattr(p, field, new)
                elif isinstance(value, list):
                    for k, v in enumerate(value):
                        if v is n:
                            value[k] = new
    return ast.unparse(ast.fix_missing_locations(t))


def run(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def main():
    out = open(sys.argv[1], 'a')
    done = set()
    for l in open(sys.argv[1]):
        x = json.loads(l)
        done.add((x['file'], x['code']))
    for name in sys.argv[2:] or FILES:
        path = 'utg/%s.py' % name
        tree = ast.parse(open('/repo/' + path, encoding='utf-8').read())
        base = ast.unparse(tree)
        seen = set()
        for line, what, index, edit in mutations(tree):
            try:
                code = apply(tree, index, edit)
                compile(code, path, 'exec')
            except Exception:
                continue
            if '__slots__' in next((l for l in diff_lines(base, code) if l.startswith('-')), ''):
                continue
            if code == base or code in seen or (name, hash_of(code)) in done:
                continue
            seen.add(code)
            shutil.rmtree(SCRATCH, ignore_errors=True)
            shutil.copytree('/repo', SCRATCH, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            open(os.path.join(SCRATCH, path), 'w', encoding='utf-8').write(code)
            rc, _ = run([PY, '-B', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'utg'], cwd=SCRATCH,
                        env=dict(os.environ, PYTHONPATH=SCRATCH), timeout=60)
            record = {'file': name, 'line': line, 'what': what, 'code': hash_of(code), 'tests': rc}
            if rc == 0:
                order = list(ORDER.get(name.split('/')[0], (11,) if 'migrations' in name else ()))
                order += [i for i in range(1, 23) if i not in order]
                env = dict(os.environ, RV_REPO=SCRATCH, RV_EVIDENCE='/tmp/w/ev')
                record['by'], record['odd'] = None, []
                for i in order:
                    rc, text = run(['/verif/check.sh', 'C%02d' % i], env=env)
                    if rc == 1:
                        record['by'] = 'C%02d' % i
                        break
                    if rc:
                        record['odd'].append(('C%02d' % i, rc, text[:300]))
                if not record['by'] or record['odd']:
                    print(name, line, what, record['by'], record['odd'][:1], *[d[:200] for d in diff_lines(base, code)[:6]], sep='\n   ', flush=True)
            out.write(json.dumps(record) + '\n')
            out.flush()


def diff_lines(a, b):
    return [l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]


def hash_of(code):
    import hashlib
    return hashlib.sha1(code.encode()).hexdigest()[:12]


main()
