# coding: utf-8
import json
import os
import subprocess
import sys

from rv import lib

RULE = ('the same seeded program (dictionaries, templates, renderings, stored data, layouts, errors, choices with a seeded generator) runs in several '
        'processes that differ in hash seed, in the order in which the library\'s modules are imported, in the unrelated objects created in between, '
        'and in interpreter flags, locale, environment, working directory, thread, fork and garbage collection; '
        'every observation must be the same in all of them. non-trivial: distinct observation')
RANDOM = {'quick': 0, 'thorough': 0}
REQUIRE = {'processes': 100, 'observations': 60000, 'compared': 50000, 'import_orders': 40, 'hash_seeds': 60, 'with_other_surroundings': 60}

PROGRAMS = {'quick': (24, 6, 12), 'thorough': (160, 12, 30)}
CHILD = os.path.join(lib.VERIF, 'rv', 'c20_child.py')


def units(tier):
    return [('program', i) for i in range(PROGRAMS[tier][0])]


FLAGS = ([], [], ['-O'], ['-OO'], ['-X', 'utf8=0'], ['-X', 'dev'], ['-X', 'utf8'], ['-X', 'faulthandler'], ['-s', '-u'])
SURROUNDINGS = ({}, {}, {'LC_ALL': 'C'}, {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}, {'LC_ALL': 'ru_RU.KOI8-R', 'PYTHONCOERCECLOCALE': '0'}, {'TZ': 'Asia/Tokyo'}, {'HOME': '/nonexistent'},
                {'DEBUG': '1', 'PYTHONDEBUG': '', 'CI': '1', 'TESTING': '1'}, {'PYTHONMALLOC': 'malloc'}, {'PYTHONMALLOC': 'debug'}, {'RV_IN_THREAD': '1'}, {'RV_FORKED': '1'}, {'RV_FORKED': '1', 'RV_IN_THREAD': '1'}, {'RV_NO_GC': '1'},
                {'RV_RECURSION': '800'}, {'RV_GC_OFTEN': '1'})


def child(program, hash_seed, imports, noise, worlds, flags=(), surroundings=None, cwd=None):
    env = dict(os.environ, **(surroundings or {}))
    env.update( PYTHONHASHSEED=str(hash_seed), RV_REPO=lib.REPO, PYTHONPATH=lib.VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    p = subprocess.run([sys.executable] + list(flags) + [CHILD, program, imports, noise, str(worlds)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                       cwd=cwd or lib.VERIF)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def run_unit(ctx, kind, i):
    rng = ctx.rng(kind, i)
    _, variants, worlds = PROGRAMS[ctx.tier]
    program = '%s:%s' % (ctx.seed, i)
    plans = [(0, 'plain', 'none', (), {}, None)]
    for k in range(variants - 1):
        plans.append((rng.choice((0, 1, 'random', rng.randrange(1, 2 ** 32 - 1))) if k else rng.randrange(1, 2 ** 32 - 1),
                      'plain' if rng.random() < 0.3 else 'imports%d' % rng.randrange(10 ** 6), 'none' if k == 0 or rng.random() < 0.3 else 'noise%d' % rng.randrange(10 ** 6),
                      rng.choice(FLAGS), rng.choice(SURROUNDINGS), rng.choice((None, '/', '/tmp'))))
    reference = None
    for plan in plans:
        code, out, err = child(program, plan[0], plan[1], plan[2], worlds, *plan[3:])
        ctx.count('processes')
        ctx.count('import_orders', plan[1] != 'plain')
        ctx.count('hash_seeds', plan[0] != 0)
        ctx.count('with_unrelated_objects', plan[2] != 'none')
        ctx.count('with_other_surroundings', bool(plan[3] or plan[4] or plan[5]))
        if code:
            ctx.check(lib.UTG_ROOT not in err and not (reference is not None and 'Traceback' in err and 'MemoryError' not in err), 'the library fails in a process with another hash seed, import order or other objects', plan=plan, error=err[-1500:])
            raise RuntimeError('child failed: %s' % err[-1500:])
        lines = out.splitlines()
        ctx.count('observations', len(lines))
        if reference is None:
            reference = lines
            for line in lines:
                ctx.ev(line)
            ctx.sample('%s in %d processes' % (lines[len(lines) // 2][:300], len(plans)))
            continue
        if lines == reference:
            ctx.count('compared', len(lines))
            continue
        for a, b in zip(reference, lines):
            if a == b:
                ctx.count('compared')
                continue
            if 'program' in (json.loads(a)[0], json.loads(b)[0]):
                raise RuntimeError('the program itself differs between processes: %s / %s' % (a[:300], b[:300]))
            ctx.fail('another process observes something else', hash_seed=plan[0], imports=plan[1], unrelated_objects=plan[2], surroundings=plan[3:], first=a, other=b)
        ctx.fail('another process observes more or less', hash_seed=plan[0], imports=plan[1], unrelated_objects=plan[2], surroundings=plan[3:], first=len(reference), other=len(lines))
