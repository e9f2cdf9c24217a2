"""
Runs the workloads of a check under its monitors and decides: held, violated or inconclusive.

A check module (checks/cNN.py) declares workloads with the decorator `workload`. Each workload is run for a number of
seeded cases, spread over worker processes. Whatever the monitors see is counted, so that a run that observed too little
is reported as inconclusive rather than as held.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
KEEP_GOING = bool(os.environ.get('VERIF_KEEP_GOING'))  # for debugging: do not stop at the first violation
WALL_STOP = {'quick': 600, 'thorough': 3000}  # no new cases are started after this many seconds
STOP_EXIT, VIOLATED, INCONCLUSIVE = 0, 1, 3


class Violation(Exception):
    pass


class Skip(Exception):
    """ The generated case is outside the domain of the property """


class NoProgress(BaseException):
    pass


class Ctx:
    def __init__(self, tier, listed_known):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.events = collections.Counter()
        self.signatures = set()
        self.samples = []
        self.failures = []
        self.known_found = {}
        self._listed = listed_known
        self.rng = None
        self.verbose = False

    # ---- what the monitors report
    def event(self, name, n=1):
        self.events[name] += n

    def check(self, cond, msg, *args):
        self.events['oracle_evaluations'] += 1
        if not cond:
            self.fail(msg, *args)

    def fail(self, msg, *args):
        text = msg.format(*args) if args else msg
        self.failures.append(text)
        raise Violation(text)

    def finding(self, mechanism, msg, *args):
        """ A violation which is reported as known if (and only if) the known findings file lists its mechanism """
        if mechanism not in self._listed:
            self.fail(msg, *args)
        self.known_found.setdefault(mechanism, msg.format(*args) if args else msg)

    def case(self, *signature):
        """ Counts the case as non-trivial; cases with different signatures are distinct """
        self.signatures.add(hashlib.md5(repr(signature).encode()).hexdigest()[:12])

    def sample(self, **what):
        if len(self.samples) < 3:
            self.samples.append({k: brief(v) for k, v in what.items()})

    # ---- frequent oracles
    def close(self, got, want, msg, *args, rtol=1e-9, atol=1e-12):
        import numpy as np
        self.events['oracle_evaluations'] += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail('{}: shape {} instead of {}'.format(msg.format(*args) if args else msg, got.shape, want.shape))
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=False) | (got == want)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0]
            g, w = np.atleast_1d(got)[tuple(bad)], np.atleast_1d(want)[tuple(bad)]
            self.fail('{}: at {} got {!r}, expected {!r}'.format(msg.format(*args) if args else msg, bad.tolist(), float(g), float(w)))

    def same(self, got, want, msg, *args):
        """ exact equality of arrays (shape and values) """
        import numpy as np
        self.events['oracle_evaluations'] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail('{}: got {}, expected {}'.format(msg.format(*args) if args else msg, brief(got), brief(want)))

    def raises(self, exceptions, func, msg, *args):
        self.events['oracle_evaluations'] += 1
        try:
            func()
        except exceptions as e:
            self.events['expected_errors'] += 1
            return e
        self.fail(msg + ': no error was raised', *args)


def brief(v, limit=300):
    import numpy as np
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        v = v.item()
    if isinstance(v, (int, float, bool)) or v is None:
        return v
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= limit else s[:limit] + '...'


WORKLOADS = {}


class Workload:
    def __init__(self, func, quick, thorough, cpu, batch):
        self.func, self.quick, self.cpu, self.batch = func, quick, cpu, batch
        self.thorough = quick * 15 if thorough is None else thorough
        self.name = func.__name__

    def cases(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def workload(quick, thorough=None, cpu=60, batch=1):
    """
    :param quick, thorough: number of cases per tier
    :param cpu: user CPU seconds after which a case counts as making no progress (cases take orders of magnitude less)
    """
    def decorate(func):
        w = Workload(func, quick, thorough, cpu, batch)
        WORKLOADS.setdefault(func.__module__, collections.OrderedDict())[w.name] = w
        return func
    return decorate


def case_seed(prop, name, seed, index):
    return int.from_bytes(hashlib.sha256('{}/{}/{}/{}'.format(prop, name, seed, index).encode()).digest()[:4], 'little')


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.module = importlib.import_module('checks.' + prop.lower())
        self.workloads = WORKLOADS[self.module.__name__]
        self.required = getattr(self.module, 'REQUIRED', {})
        self.rule = self.module.RULE
        self.assumptions = getattr(self.module, 'ASSUMPTIONS', [])


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)
    return {e['mechanism']: e['what'] for e in entries['known'] if e['property'] == prop}


def run_case(check, ctx, w, seed, index):
    """ :return: None, or the description of the violation """
    import numpy as np
    cs = case_seed(check.prop, w.name, seed, index)
    ctx.rng = np.random.RandomState(cs)
    ctx.index = index
    ctx.failures = []
    np.random.seed(cs ^ 0x5bd1e995)
    random.seed(cs)
    metric_logger = sys.modules.get('aideme.utils.metric_logger')
    if metric_logger is not None:
        metric_logger.flush()

    state = {'late': False}

    def late(signum, frame):
        state['late'] = True
        raise NoProgress()

    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, w.cpu, 1.0)
    error = None
    try:
        w.func(ctx, ctx.rng)
    except Violation as e:
        error = str(e)
    except Skip:
        ctx.event('skipped_out_of_domain')
    except NoProgress:
        pass
    except MemoryError:
        raise
    except (KeyboardInterrupt, SystemExit) as e:
        error = 'unexpected {}: {}'.format(type(e).__name__, e)
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        in_repo = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in frames)
        owner = getattr(e, 'obj', None)  # an object of the code under test which was left without one of its attributes
        in_repo = in_repo or isinstance(e, AttributeError) and any(c.__module__.split('.')[0] == 'aideme' for c in type(owner).__mro__)
        if not in_repo and isinstance(e, (AttributeError, ImportError, NameError)) and 'NoneType' not in str(e):
            raise
        where = [f for f in frames if 'aideme' in f.filename] or frames
        error = 'unexpected {}: {} (at {}:{})'.format(type(e).__name__, brief(str(e)), os.path.basename(where[-1].filename), where[-1].lineno)
        if ctx.verbose:
            traceback.print_exc()
    finally:
        while True:  # the timer may strike until it is off
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.signal(signal.SIGVTALRM, old)
                break
            except NoProgress:
                pass

    if state['late']:
        return 'no bounded progress: the case was still running after {} s of CPU time'.format(w.cpu)
    if error is None and ctx.failures:  # raised inside code which swallowed it
        error = ctx.failures[0]
    return error


def _worker(check, tier, seed, tasks, shared, slot, pipe):
    from . import env
    ctx = Ctx(tier, known_findings(check.prop))
    result = {'violations': [], 'done': collections.Counter(), 'error': None}
    if 'VERIF_DEBUG' not in os.environ:  # some learners print messages
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.close(devnull)
    try:
        while True:
            with shared['next'].get_lock():
                i = shared['next'].value
                shared['next'].value += 1
            if i >= len(tasks) or shared['stop'].value:
                break
            name, index = tasks[i]
            w = check.workloads[name]
            shared['task'][slot] = i
            shared['cpu0'][slot] = time.process_time()
            before = env.poison.stats()[3] if env.poison else 0
            error = run_case(check, ctx, w, seed, index)
            if env.poison and error is None and env.poison.stats()[3] > before:
                error = 'memory monitor: a buffer was written outside its bounds'
            result['done'][name] += 1
            if error is not None:
                result['violations'].append((name, index, error))
                if not KEEP_GOING:
                    shared['stop'].value = 1
            if time.time() > shared['deadline']:
                shared['stop'].value = 2 if not shared['stop'].value else shared['stop'].value
    except BaseException:
        result['error'] = traceback.format_exc()
    shared['task'][slot] = -1
    if env.poison:
        stats = env.poison.stats()
        ctx.events['monitored_buffers'] += stats[0]
    result.update(events=ctx.events, signatures=ctx.signatures, samples=ctx.samples, known=ctx.known_found)
    pipe.send_bytes(pickle.dumps(result))
    pipe.close()
    os._exit(0)


def _child_cpu(pid):
    try:
        with open('/proc/{}/stat'.format(pid)) as f:
            parts = f.read().rsplit(')', 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.


def run_check(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    check = Check(prop)

    more = getattr(check.module, 'QUICK', 1) if tier == 'quick' else 1
    per_workload = []
    for w in check.workloads.values():
        if only and w.name not in only:
            continue
        n = max(1, int(round(w.cases(tier) * scale * more))) if w.cases(tier) else 0
        per_workload.append([(w.name, i) for i in range(n)])

    # interleave the workloads, so that each is covered from the start
    tasks = []
    total = max(map(len, per_workload))
    keyed = [((i + 0.5) / len(ts), k, t) for k, ts in enumerate(per_workload) for i, t in enumerate(ts)]
    tasks = [t for _, _, t in sorted(keyed)]

    n_workers = min(WORKERS, len(tasks))
    shared = {
        'next': multiprocessing.Value('i', 0), 'stop': multiprocessing.Value('i', 0, lock=False),
        'task': multiprocessing.Array('i', [-1] * n_workers, lock=False), 'cpu0': multiprocessing.Array('d', [0.] * n_workers, lock=False),
        'deadline': t0 + WALL_STOP[tier],
    }

    procs = []
    for slot in range(n_workers):
        recv, send = multiprocessing.Pipe(duplex=False)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            recv.close()
            _worker(check, tier, seed, tasks, shared, slot, send)
        send.close()
        procs.append([pid, recv, slot, None])

    results, violations, problems = [], [], []
    waiting = list(procs)
    while waiting:
        for p in list(waiting):
            pid, recv, slot, _ = p
            if recv.poll(0.02):
                try:
                    results.append(pickle.loads(recv.recv_bytes()))
                    os.waitpid(pid, 0)
                    waiting.remove(p)
                    continue
                except EOFError:
                    _, status = os.waitpid(pid, 0)
                    waiting.remove(p)
                    i = shared['task'][slot]
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and i >= 0:
                        violations.append((*tasks[i], 'the process crashed with {}'.format(signal.Signals(sig).name)))
                        shared['stop'].value = 1
                    elif p[3] == 'stuck':
                        violations.append((*tasks[i], 'no bounded progress inside native code'))
                        shared['stop'].value = 1
                    else:
                        problems.append('a worker ended with status {}'.format(status))
                    continue
            i = shared['task'][slot]
            if i >= 0 and p[3] is None:
                limit = check.workloads[tasks[i][0]].cpu
                used = _child_cpu(pid) - shared['cpu0'][slot]
                if used > 4 * limit + 30 and shared['task'][slot] == i:
                    p[3] = 'stuck'
                    os.kill(pid, signal.SIGKILL)

    events, signatures, samples, known, done = collections.Counter(), set(), [], {}, collections.Counter()
    for r in results:
        events.update(r['events'])
        signatures |= r['signatures']
        samples += r['samples']
        done.update(r['done'])
        for k, v in r['known'].items():
            known.setdefault(k, v)
        violations += r['violations']
        if r['error']:
            problems.append(r['error'])

    wall = time.time() - t0
    violations.sort()
    replays = []
    for name, index, error in violations[:40 if KEEP_GOING else 5]:
        path = os.path.join(EVIDENCE, 'replays', '{}-{}-{}-{}.json'.format(prop, name, seed, index))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'workload': name, 'index': index, 'seed': seed, 'tier': tier, 'error': error}, f, indent=1)
        replays.append((path, name, error))

    for mech, text in sorted(known.items()):
        print('KNOWN-FINDING: property={} [{}] {}'.format(prop, mech, text))

    listed = known_findings(prop)
    short = {}
    if not violations:
        for name, minimum in check.required.items():
            if events[name] < minimum * min(1.0, scale):
                short[name] = (events[name], minimum)
        if len(done) < len([x for x in per_workload if x]):
            short['workloads'] = (len(done), len(per_workload))
        if shared['stop'].value == 2:
            short['time'] = (sum(done.values()), len(tasks))

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(done.values()),
            'distinct_nontrivial': len(signatures),
            'rule': check.rule,
            'samples': samples[:8],
            'cases_per_workload': dict(sorted(done.items())),
            'monitor_events': dict(sorted(events.items())),
            'known_findings_seen': sorted(known),
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': [{'workload': n, 'index': i, 'what': e} for n, i, e in violations[:5]],
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if violations:
        for path, name, error in replays:
            print('{}: {}'.format(name, error))
        print('VIOLATION property={} replay={}'.format(prop, replays[0][0]))
        return VIOLATED

    if problems:
        print('INCONCLUSIVE {}: {}'.format(prop, problems[0]))
        return INCONCLUSIVE
    if short:
        print('INCONCLUSIVE {}: too little was observed: {}'.format(prop, short))
        return INCONCLUSIVE

    print('HELD {} on {} cases ({} distinct), {} oracle evaluations, {:.1f} s'.format(
        prop, sum(done.values()), len(signatures), events['oracle_evaluations'], wall))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    check = Check(r['property'])
    ctx = Ctx(r['tier'], known_findings(r['property']))
    ctx.verbose = True
    error = run_case(check, ctx, check.workloads[r['workload']], r['seed'], r['index'])
    print('replayed {} case {}: {}'.format(r['workload'], r['index'], error or 'no violation'))
    if error:
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        return VIOLATED
    return 0
