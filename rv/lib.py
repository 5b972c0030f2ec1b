# coding: utf-8
"""Runner shared by all monitors: deterministic work units, worker processes, three-valued verdicts,
replay files, known findings, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('RV_REPO', '/repo'))
UTG_ROOT = os.path.join(REPO, 'utg') + os.sep

KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
EVIDENCE_DIR = os.environ.get('RV_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAY_DIR = os.path.join(VERIF, 'replays')


class Violation(Exception):
    def __init__(self, message, detail=None):
        super(Violation, self).__init__(message)
        self.message = message
        self.detail = detail or {}


class Inconclusive(Exception):
    pass


def known_findings(prop):
    """keys of the findings recorded for a property:  finding: property=<id> key=<key> <what fails>"""
    out = {}
    if not os.path.exists(KNOWN_FILE):
        return out
    for line in open(KNOWN_FILE, encoding='utf-8'):
        if not line.startswith('finding: '):
            continue
        fields = line[len('finding: '):].strip().split(' ', 2)
        if fields[0] == 'property=%s' % prop:
            out[fields[1][len('key='):]] = fields[2]
    return out


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.distinct = set()
        self.counters = collections.Counter()
        self.maxima = {}
        self.samples = []
        self.known_hit = {}
        self.known = known_findings(prop)
        self.unit = None
        self.lines = collections.defaultdict(set)
        self.kept = collections.deque(maxlen=400)
        self.fresh = []

    def keep(self, look, expected, message, **detail):
        """look() must give the expected value now, at the end of this unit and much later: results stay what they were"""
        got = look()
        self.check(got == expected, message, got=got, expected=expected, **detail)
        if len(self.fresh) < 200:
            self.fresh.append((look, expected, message, detail))

    def look_again(self):
        older = [self.kept[i] for i in range(len(self.kept) - 1, -1, -max(1, len(self.kept) // 12))]
        for look, expected, message, detail in self.fresh + older:
            got = look()
            self.count('results_looked_at_again')
            self.check(got == expected, 'a result changed later: ' + message, got=got, expected=expected, **detail)
        self.kept.extend(self.fresh[:8])
        self.fresh = []

    def ev(self, key=None, nontrivial=True):
        """one evaluated case; key identifies it for the count of distinct non-trivial cases"""
        self.evaluations += 1
        if key is not None and nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode('utf-8', 'backslashreplace'), digest_size=8).digest())

    def count(self, name, n=1):
        self.counters[name] += n

    def maximum(self, name, value):
        if value > self.maxima.get(name, value - 1):
            self.maxima[name] = value

    def sample(self, text, every=1):
        if len(self.samples) < 6:
            self.samples.append(text if isinstance(text, str) else repr(text))

    def fail(self, message, **detail):
        raise Violation(message, {k: (v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)) for k, v in detail.items()})

    def check(self, condition, message, **detail):
        if not condition:
            self.fail(message, **detail)

    def finding(self, key, message, **detail):
        """a deviation that may be a recorded finding"""
        if key in self.known:
            self.known_hit[key] = self.known[key]
        else:
            self.fail(message, **detail)

    def rng(self, *parts):
        return random.Random(':'.join(str(p) for p in (self.prop, self.seed) + parts))


# ------------------------------------------------------------------------------------------------ reach

def start_line_monitor(ctx):
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'rv-reach')

    def on_line(code, line):
        if code.co_filename.startswith(UTG_ROOT):
            ctx.lines[code.co_filename[len(UTG_ROOT):]].add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def executable_lines(path):
    out = set()

    def walk(code):
        out.update(line for _, _, line in code.co_lines() if line)
        for const in code.co_consts:
            if hasattr(const, 'co_lines'):
                walk(const)
    with open(path, encoding='utf-8') as f:
        walk(compile(f.read(), path, 'exec'))
    out.discard(0)
    return out


# ------------------------------------------------------------------------------------------------ execution

def library_frames(exc):
    return [f for f in traceback.extract_tb(exc.__traceback__) if f.filename.startswith(UTG_ROOT)]


MODEL_FILES = ('spec.py', 'gen.py', 'lib.py', 'sched.py')


def unusable_result(exc):
    """the harness, which uses the public interface only, could not use what the library returned (None for a form, say):
    the exception left the harness code that handles library objects, not the model or the generators"""
    if not isinstance(exc, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
        return False
    frames = traceback.extract_tb(exc.__traceback__)
    path = frames[-1].filename if frames else ''
    return path.startswith(os.path.join(VERIF, 'rv') + os.sep) and os.path.basename(path) not in MODEL_FILES


def problem_of(unit, e):
    trace = traceback.format_exc()
    if library_frames(e):
        return ('violation', unit, 'the library raised %s: %s where a result is required' % (type(e).__name__, e), {'traceback': trace})
    if unusable_result(e):
        return ('violation', unit, 'the library returned something that can not be used: %s: %s' % (type(e).__name__, e), {'traceback': trace})
    return ('error', unit, 'harness error: %s: %s' % (type(e).__name__, e), {'traceback': trace})


def run_one(module, ctx, unit):
    ctx.unit = unit
    ctx.fresh = []
    if unit[0] == 'random':
        module.run_random(ctx, ctx.rng('random', unit[1]))
    else:
        module.run_unit(ctx, *unit)
    ctx.look_again()


def guarded(module, ctx, unit):
    """None, or ('violation'|'error'|'inconclusive', unit, message, detail)"""
    try:
        run_one(module, ctx, unit)
        return None
    except Violation as e:
        return ('violation', unit, e.message, e.detail)
    except Inconclusive as e:
        return ('inconclusive', unit, str(e), {})
    except Exception as e:  # noqa
        return problem_of(unit, e)


def worker(name, tier, seed, units, deadline, stop, conn):
    out = {'problem': None, 'done': 0, 'skipped': 0}
    ctx = Ctx(name, tier, seed)
    try:
        start_line_monitor(ctx)
        from rv import real
        real.load()
        module = importlib.import_module('rv.checks.%s' % name.lower())
        if hasattr(module, 'prepare'):
            module.prepare(ctx)
        for unit in units:
            if stop.is_set():
                break
            if unit[0] == 'random' and time.monotonic() > deadline:
                out['skipped'] += 1
                continue
            problem = guarded(module, ctx, unit)
            out['done'] += 1
            if problem:
                out['problem'] = problem
                stop.set()
                break
    except Exception as e:  # noqa
        out['problem'] = problem_of(('setup',), e)
        stop.set()
    out.update(evaluations=ctx.evaluations, distinct=ctx.distinct, counters=dict(ctx.counters), maxima=ctx.maxima,
               samples=ctx.samples, known=ctx.known_hit, lines={k: set(v) for k, v in ctx.lines.items()})
    conn.send(out)
    conn.close()


def short(text, limit=1500):
    text = str(text)
    return text if len(text) <= limit else text[:limit] + '…'


def write_replay(name, tier, seed, jobs, problem):
    kind, unit, message, detail = problem
    os.makedirs(REPLAY_DIR, exist_ok=True)
    data = {'property': name, 'tier': tier, 'seed': seed, 'unit': unit, 'message': message, 'detail': detail,
            'jobs': jobs, 'replay': '/verif/check.sh %s --replay <this file>' % name}
    text = json.dumps(data, ensure_ascii=False, indent=1, default=repr)
    path = os.path.join(REPLAY_DIR, '%s-%s.json' % (name, hashlib.sha1(text.encode('utf-8', 'backslashreplace')).hexdigest()[:10]))
    with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
        f.write(text)
    return path


def all_units(module, tier):
    return [tuple(u) for u in module.units(tier)] + [('random', i) for i in range(module.RANDOM.get(tier, 0))]


def finish(p):
    p.join(10)
    if p.is_alive():
        p.kill()


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('check')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int, default=int(os.environ.get('RV_JOBS') or 8))
    args = parser.parse_args(argv)
    name = args.check.upper()

    started = time.monotonic()
    sys.stdout.reconfigure(errors='backslashreplace')

    if args.replay:
        return replay(name, args.replay)

    module = importlib.import_module('rv.checks.%s' % name.lower())
    units = all_units(module, args.tier)
    jobs = max(1, min(args.jobs, len(units)))
    deadline = started + getattr(module, 'SOFT_DEADLINE', {'quick': 150, 'thorough': 660})[args.tier]
    hard = started + {'quick': 780, 'thorough': 840}[args.tier]

    mp = multiprocessing.get_context('fork')
    stop = mp.Event()
    procs = []
    for k in range(jobs):
        mine, theirs = mp.Pipe(False)
        p = mp.Process(target=worker, args=(name, args.tier, args.seed, units[k::jobs], deadline, stop, theirs), daemon=False)
        p.start()
        theirs.close()
        procs.append((p, mine))

    results, problems = [], []
    waiting = {conn: p for p, conn in procs}
    while waiting:
        ready = multiprocessing.connection.wait(list(waiting), max(0.1, hard - time.monotonic()))
        for conn in ready:
            try:
                results.append(conn.recv())
                if results[-1]['problem'] and results[-1]['problem'][0] == 'violation':      # enough: the others get a moment to finish their unit
                    hard = min(hard, time.monotonic() + 20)
            except EOFError:
                problems.append(('error', ('worker',), 'a worker died without an answer', {}))
            finish(waiting.pop(conn))
        if not ready and time.monotonic() >= hard:
            for p in waiting.values():
                problems.append(('inconclusive', ('watchdog',), 'a worker did not finish in time', {}))
                p.kill()
                p.join(10)
            break

    distinct = set()
    counters, maxima, samples, known, lines = collections.Counter(), {}, [], {}, collections.defaultdict(set)
    for out in results:
        distinct |= out['distinct']
        counters.update(out['counters'])
        for k, v in out['maxima'].items():
            maxima[k] = max(v, maxima.get(k, v))
        samples += out['samples'][:2]
        known.update(out['known'])
        for k, v in out['lines'].items():
            lines[k] |= v
        if out['problem']:
            problems.append(out['problem'])
    evaluations = sum(out['evaluations'] for out in results)
    done = sum(out['done'] for out in results)
    skipped = sum(out['skipped'] for out in results)

    violations = [p for p in problems if p[0] == 'violation']
    violations.sort(key=lambda p: str(p[1]))

    if not problems and not skipped:
        for key, minimum in getattr(module, 'REQUIRE', {}).items():
            if counters.get(key, 0) < minimum:
                problems.append(('inconclusive', ('reach',), 'the monitor observed too little: %s=%d, expected at least %d'
                                 % (key, counters.get(key, 0), minimum), {}))

    reach = {}
    for path in sorted(lines):
        try:
            total = executable_lines(UTG_ROOT + path)
        except (OSError, SyntaxError):
            continue
        reach[path] = '%d/%d lines' % (len(lines[path] & total), len(total))

    wall = time.monotonic() - started
    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(distinct),
        'rule': module.RULE,
        'samples': [short(s, 700) for s in samples[:8]] or ['(no case was evaluated)'],
        'exhaustive': False,
        'observed': dict(sorted(counters.items())),
        'observed_maxima': dict(sorted(maxima.items())),
        'work_units_done': done,
        'work_units_skipped_by_deadline': skipped,
        'library_lines_reached': reach,
        'enumerated_completely': getattr(module, 'ENUMERATED', ''),
        'known_findings_hit': sorted(known),
        'inconclusive': [short(p[2], 300) for p in problems if p[0] != 'violation'],
    }
    evidence = {'property': name, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': coverage,
                'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) + [
                    'the reference model in rv/spec.py states the property correctly',
                    'held on the executions listed here; nothing is claimed about inputs that were not generated'],
                'wall_s': round(wall, 3), 'violations': len(violations)}
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    with open(os.path.join(EVIDENCE_DIR, '%s.json' % name), 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)

    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (name, known[key]))

    if violations:
        path = write_replay(name, args.tier, args.seed, jobs, violations[0])
        print(short(violations[0][2]))
        for k, v in violations[0][3].items():
            print('  %s: %s' % (k, short(v)))
        print('VIOLATION property=%s replay=%s' % (name, path))
        return 1

    if problems:
        for kind, unit, message, detail in problems:
            print('%s: %s %s\n%s' % (kind.upper(), unit, message, detail.get('traceback', '')))
        return 2

    print('%s held on %d evaluations (%d distinct non-trivial), %.1f s' % (name, evaluations, len(distinct), wall))
    return 0


def replay(name, path):
    data = json.load(open(path, encoding='utf-8'))
    from rv import real
    real.load()
    module = importlib.import_module('rv.checks.%s' % name.lower())
    ctx = Ctx(name, data['tier'], data['seed'])
    if hasattr(module, 'prepare'):
        module.prepare(ctx)
    if tuple(data['unit']) == ('setup',):
        return 0
    problem = guarded(module, ctx, tuple(data['unit']))
    if problem is None:    # it may take the history of the worker that met it
        ctx = Ctx(name, data['tier'], data['seed'])
        units, jobs = all_units(module, data['tier']), data.get('jobs', 8)
        if tuple(data['unit']) in units:
            for unit in units[units.index(tuple(data['unit'])) % jobs::jobs]:
                problem = guarded(module, ctx, unit)
                if problem is not None or unit == tuple(data['unit']):
                    break
    if problem is None:
        print('not reproduced')
        return 0
    print(problem[2])
    for k, v in problem[3].items():
        print('  %s: %s' % (k, short(v, 6000)))
    if problem[0] != 'violation':
        return 2
    print('VIOLATION property=%s replay=%s' % (name, path))
    return 1
