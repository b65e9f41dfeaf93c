"""Driver shared by all checks: generation (Hypothesis), shrinking, replay files, evidence, exit codes.

A check module (checks/cNN.py) defines

    ID        property id
    FACETS    list of Facet(name, strategy, run, quick, thorough)
    RULE      text: how cases are made and what makes one non-trivial
    ASSUMPTIONS  optional list

A facet's strategy yields JSON-able cases; run(case) executes one case against the code in /repo and
raises Violation when the oracle disagrees. It returns a Result (labels + whether the case was non-trivial).
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import types

REPO = os.environ.get('VERIF_DEV_REPO', '/repo')  # the variable is for experiments on scratch copies only
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
HANG_SECONDS = 150


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The harness itself failed; never reported as a violation."""


class Result:
    __slots__ = ('nontrivial', 'labels')

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = tuple(labels)


class Facet:
    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=True):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards


def check(condition, message, *details):
    if not condition:
        if details:
            message = message + ' | ' + ' | '.join(_short(x) for x in details)
        raise Violation(message)


def check_eq(real, expected, message):
    if real != expected:
        raise Violation(f'{message}: got {_short(real)}, expected {_short(expected)}')


def _short(value, limit=600):
    try:
        text = repr(value)
    except Exception:
        text = f'<{type(value).__name__}>'
    return text if len(text) <= limit else text[:limit] + '...'


def through_polog(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO + '/polog/'):
            return True
        tb = tb.tb_next
    return False


def out_of_the_model(e):
    """
    An oracle that takes apart what it was given, and cannot: a record without a field, None instead of an object, a list that is too short.
    Absent attributes of modules and objects of the code under test are another thing: the harness looks for something that is not there (any more).
    """
    if isinstance(e, AttributeError):
        kind = type(e.obj)
        return not isinstance(e.obj, (types.ModuleType, type)) and not kind.__module__.startswith('polog')
    return isinstance(e, (LookupError, TypeError, ValueError))


def run_one(facet, case):
    """Run a case; every exception becomes Violation (the code under test) or HarnessError (us)."""
    random.seed(0)  # names of handlers are made of it; the same in the search and in replays
    try:
        result = facet.run(case)
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        if through_polog(e.__traceback__):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            raise Violation('unexpected exception from the code under test: ' + ''.join(lines)[-1500:])
        if out_of_the_model(e):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            raise Violation('what the code under test gave cannot be compared with the model (a field is absent, a value is of a wrong type): ' + ''.join(lines)[-1500:])
        raise HarnessError(''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    return result if isinstance(result, Result) else Result()


def derive_seed(*parts):
    digest = hashlib.sha256('/'.join(str(x) for x in parts).encode()).digest()
    return int.from_bytes(digest[:6], 'big')


def case_hash(facet_name, case):
    return hashlib.sha256((facet_name + json.dumps(case, sort_keys=True, default=str)).encode()).hexdigest()[:20]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = {}
        self.per_facet = {}

    def add(self, facet, case, result):
        self.evaluations += 1
        self.per_facet[facet.name] = self.per_facet.get(facet.name, 0) + 1
        if result is None:
            return
        for label in result.labels:
            key = f'{facet.name}:{label}'
            self.labels[key] = self.labels.get(key, 0) + 1
        if result.nontrivial:
            digest = case_hash(facet.name, case)
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                bucket = self.samples.setdefault(facet.name, [])
                number = len(self.nontrivial)
                if len(bucket) < 2 or (len(bucket) < 4 and number % 37 == 0):
                    text = json.dumps(case, default=str)
                    if len(text) < 4000:
                        bucket.append({'facet': facet.name, 'case': json.loads(text)})


class Watchdog:
    """If one case runs for too long, the case is written down and the process ends."""
    def __init__(self, path):
        self.path = path
        self.current = None
        self.started = None
        thread = threading.Thread(target=self.loop, daemon=True)
        thread.start()

    def begin(self, facet, case):
        self.started = time.monotonic()
        self.current = (facet.name, case)

    def end(self):
        self.current = None

    def loop(self):
        while True:
            time.sleep(1)
            current = self.current
            if current is not None and time.monotonic() - self.started > HANG_SECONDS and self.current is current:
                import faulthandler
                faulthandler.dump_traceback(all_threads=True)
                with open(self.path, 'w') as file:
                    json.dump({'status': 'hang', 'facet': current[0], 'case': current[1]}, file)
                os._exit(4)


def explore(facet, seed_value, examples, stats, watchdog):
    """Returns None or (case, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    failure = {}
    strategy = facet.strategy() if callable(facet.strategy) else facet.strategy

    @hypothesis.seed(seed_value)
    @settings(max_examples=examples, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @hypothesis.given(case=strategy)
    def test(case):
        watchdog.begin(facet, case)
        result = None
        try:
            result = run_one(facet, case)
        except Violation as e:
            failure['case'] = case
            failure['message'] = str(e)
            raise
        finally:
            watchdog.end()
            stats.add(facet, case, result)

    try:
        test()
    except Violation:
        return failure['case'], failure['message']
    except HarnessError:
        raise
    except BaseException as e:
        # Flaky and friends: a violation was observed, and the oracle does not depend on its repetition.
        if 'case' in failure and type(e).__module__.startswith('hypothesis'):
            return failure['case'], failure['message'] + f' (not reproduced on every run: {type(e).__name__})'
        raise
    return None


def child(module, args):
    """One shard. Writes a result file; exit code 0 (done, maybe with a failure inside), 3 harness error, 4 hang."""
    stats = Stats()
    watchdog = Watchdog(args.out)
    index, total = (int(x) for x in args.shard.split('/'))
    failure = None
    try:
        for facet in module.FACETS:
            if args.facet and facet.name != args.facet:
                continue
            count = facet.quick if args.tier == 'quick' else facet.thorough
            if args.scale:
                count = max(1, int(count * args.scale))
            if facet.shards:
                count = count // total + (1 if index < count % total else 0)
            elif index != derive_seed(facet.name) % total:
                continue
            if not count:
                continue
            started = time.time()
            found = explore(facet, derive_seed(args.seed, module.ID, facet.name, index), count, stats, watchdog)
            if args.verbose:
                print(f'# shard {index} {facet.name}: {count} cases, {time.time() - started:.1f}s', file=sys.stderr)
            if found is not None:
                failure = {'facet': facet.name, 'case': found[0], 'message': found[1]}
                break
    except BaseException:
        text = traceback.format_exc()
        with open(args.out, 'w') as file:
            json.dump({'status': 'error', 'text': text}, file)
        os._exit(3)
    with open(args.out, 'w') as file:
        json.dump({
            'status': 'done', 'failure': failure, 'evaluations': stats.evaluations, 'per_facet': stats.per_facet,
            'nontrivial': sorted(stats.nontrivial), 'labels': stats.labels, 'samples': stats.samples,
        }, file, default=str)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def child_env():
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env.pop('PYTHONPATH', None)
    return env


def save_replay(module, failure):
    os.makedirs(REPLAYS, exist_ok=True)
    digest = case_hash(failure['facet'], failure['case'])
    path = os.path.join(REPLAYS, f"{module.ID}-{failure['facet']}-{digest}.json")
    with open(path, 'w') as file:
        json.dump({'property': module.ID, 'facet': failure['facet'], 'case': failure['case'], 'message': failure.get('message')}, file, indent=1, default=str)
    return path


def report(module, failure):
    path = save_replay(module, failure)
    print(f"# property {module.ID}, facet {failure['facet']}")
    print('# case: ' + _short(failure['case'], 3000))
    print('# ' + str(failure.get('message', '')).replace('\n', '\n# '))
    print(f'VIOLATION property={module.ID} replay={path}')
    sys.stdout.flush()


def replay_in_child(module, path):
    """Run a replay file in a fresh process; returns 'hang', 'violation' or 'ok'."""
    command = [sys.executable, '-B', os.path.join(VERIF, 'run.py'), module.ID, '--replay', path]
    try:
        code = subprocess.run(command, env=child_env(), cwd=VERIF, timeout=HANG_SECONDS, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return 'hang'
    return 'violation' if code == 1 else 'ok'


def replay(module, path):
    with open(path) as file:
        data = json.load(file)
    facet = next(x for x in module.FACETS if x.name == data['facet'])
    tempfile.tempdir = tempfile.mkdtemp(prefix=f'verif-{module.ID}-')
    os.environ['TMPDIR'] = tempfile.tempdir
    try:
        try:
            run_one(facet, data['case'])
        finally:
            subprocess.run(['rm', '-rf', tempfile.tempdir])
    except Violation as e:
        print('# ' + str(e).replace('\n', '\n# '))
        print(f'VIOLATION property={module.ID} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    except HarnessError as e:
        sys.stderr.write(str(e))
        sys.stderr.flush()
        os._exit(2)
    print('ok: the case does not violate the property')
    sys.stdout.flush()
    os._exit(0)


def parent(module, args):
    started = time.time()
    total = args.shards
    procs = []
    directory = tempfile.mkdtemp(prefix=f'verif-{module.ID}-')
    base = [sys.executable, '-B', os.path.join(VERIF, 'run.py'), module.ID, '--tier', args.tier, '--seed', str(args.seed)]
    if args.facet:
        base += ['--facet', args.facet]
    if args.verbose:
        base += ['--verbose']
    if args.scale:
        base += ['--scale', str(args.scale)]
    env = child_env()
    env['TMPDIR'] = directory
    for index in range(total):
        out = os.path.join(directory, f'shard{index}.json')
        command = base + ['--shard', f'{index}/{total}', '--out', out]
        procs.append((subprocess.Popen(command, env=env, cwd=VERIF, stdout=sys.stderr), out))

    failure = None
    errors = []
    notes = []
    results = []
    pending = list(procs)
    while pending and failure is None:
        time.sleep(0.05)
        for item in list(pending):
            proc, out = item
            if proc.poll() is None:
                continue
            pending.remove(item)
            try:
                with open(out) as file:
                    data = json.load(file)
            except Exception:
                errors.append(f'shard ended with code {proc.returncode} and no result')
                continue
            if data['status'] == 'error':
                errors.append(data['text'])
            elif data['status'] == 'hang':
                data['message'] = f'the case did not finish in {HANG_SECONDS} s'
                path = save_replay(module, data)
                verdict = replay_in_child(module, path)
                if verdict in ('hang', 'violation'):
                    failure = data
                else:
                    notes.append(f'a case of facet {data["facet"]} ran out of time once and finished when repeated; inconclusive')
            else:
                results.append(data)
                if data['failure'] is not None:
                    failure = data['failure']
    for proc, out in procs:
        if proc.poll() is None:
            proc.kill()
            proc.wait()
    subprocess.run(['rm', '-rf', directory])

    evaluations = sum(x['evaluations'] for x in results)
    nontrivial = set()
    labels = {}
    per_facet = {}
    samples = []
    for data in results:
        nontrivial.update(data['nontrivial'])
        for key, value in data['labels'].items():
            labels[key] = labels.get(key, 0) + value
        for key, value in data['per_facet'].items():
            per_facet[key] = per_facet.get(key, 0) + value
    seen = {}
    for data in results:
        for name, bucket in data['samples'].items():
            for sample in bucket:
                if seen.get(name, 0) < 3:
                    seen[name] = seen.get(name, 0) + 1
                    samples.append(sample)
    evidence = {
        'property': module.ID,
        'tier': args.tier,
        'seed': args.seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': module.RULE,
            'samples': samples or [{'note': 'no non-trivial case was completed'}],
            'cases_per_facet': per_facet,
            'labels': dict(sorted(labels.items())),
            'shards': total,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - started, 2),
        'violations': 0 if failure is None else 1,
    }
    if notes:
        evidence['coverage']['notes'] = notes
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{module.ID}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
        file.write('\n')

    for line in known_findings(module.ID):
        print(f'KNOWN-FINDING: property={module.ID} {line}')
    if failure is not None:
        report(module, failure)
        return 1
    if errors:
        sys.stderr.write(errors[0][-4000:] + f'\n({len(errors)} shards failed)\n')
        return 2
    if not evaluations:
        sys.stderr.write('nothing was explored\n')
        return 2
    print(f'OK property={module.ID} tier={args.tier} seed={args.seed} evaluations={evaluations} nontrivial={len(nontrivial)} wall={evidence["wall_s"]}s')
    return 0


def known_findings(property_id):
    path = os.path.join(VERIF, 'known_findings.txt')
    result = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                prefix = f'known: property={property_id} '
                if line.startswith(prefix):
                    result.append(line[len(prefix):])
    return result


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    parser.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument('--shard')
    parser.add_argument('--out')
    parser.add_argument('--facet')
    parser.add_argument('--scale', type=float)
    parser.add_argument('--replay')
    parser.add_argument('--verbose', action='store_true')
    args = parser.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    module = importlib.import_module('checks.' + args.property.lower())
    if args.replay:
        replay(module, args.replay)
    elif args.shard:
        child(module, args)
    else:
        sys.exit(parent(module, args))
