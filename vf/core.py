"""
Runner for the runtime monitors.

One property = one module vf.checks.<id> with

    CASES = {"quick": n, "thorough": m}
    RULE  = "how cases are made, what makes one non-trivial"
    def gen(rng, i, tier) -> case            (JSON serialisable)
    def run(case, st)  -> list of (kind, message)   (empty: the oracle was satisfied)
    MINIMUM = {"counter": lower bound}        below it the run is inconclusive
    def probes(st) -> list of (finding_key, bool reproduces, text)   optional: the known findings

Workers are forked processes; every case has its own PRNG seeded from (VERIF_SEED, property, index),
so that a case does not depend on the number of workers or on what ran before.

Exit 0: held on everything explored. 1: VIOLATION line. 3: inconclusive (monitor not reached, worker lost).
"""

import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

REPO = Path(os.environ.get('VF_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
CASE_CPU_SECONDS = 60
SHRINK_SECONDS = 15
MEMORY = 3 << 30   # per worker


class SutError(Exception):
    """ the code under test raised although it must not """


class SutTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.counters = Counter()
        self.keys = set()
        self.samples = []
        self.known = {}

    def count(self, name, n=1):
        self.counters[name] += n

    def key(self, *parts):
        """ remember a distinct non-trivial case """
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.keys.add(h)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)


def call(fn, *args, **kwargs):
    """ call the code under test; every exception becomes a SutError with a short trace """
    try:
        return fn(*args, **kwargs)
    except (SutTimeout, KeyboardInterrupt):
        raise
    except BaseException as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = ' <- '.join(f'{Path(f.filename).name}:{f.lineno}' for f in reversed(tb[-3:]))
        raise SutError(f'{getattr(fn, "__name__", fn)} raised {type(err).__name__}: {str(err)[:200]!r} at {where}') from err


# ---------------------------------------------------------------- line reach

class Reach:
    """ which lines of the code under test were executed (evidence only, never part of a verdict) """
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = str(REPO / 'creole') + os.sep

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        mon.use_tool_id(self.TOOL, 'vf-reach')
        prefix, lines = self.prefix, self.lines
        disable = mon.DISABLE

        def on_line(code, line):
            name = code.co_filename
            if name.startswith(prefix):
                lines.add((name[len(prefix):], line))
            return disable
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)


# ---------------------------------------------------------------- import of the code under test

def import_sut():
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    sys.path[:] = [str(REPO)] + [p for p in sys.path if p not in (str(REPO), '')]
    import creole
    here = Path(creole.__file__).resolve()
    if REPO.resolve() not in here.parents:
        raise Inconclusive(f'creole was imported from {here}, not from {REPO}')
    return creole


# ---------------------------------------------------------------- one case

def _on_cpu_limit(signum, frame):
    raise SutTimeout()


def run_case(mod, case, st):
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU_SECONDS', CASE_CPU_SECONDS))
    try:
        return list(mod.run(case, st) or ())
    except SutTimeout:
        return [('timeout', 'the conversion used more than the CPU limit')]
    except SutError as err:
        return [('exception', str(err))]
    except (MemoryError, OSError, Inconclusive):
        raise
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = ' <- '.join(f'{Path(f.filename).name}:{f.lineno}' for f in reversed(tb[-4:]))
        return [('uninterpretable', f'the oracle could not interpret what it observed: {type(err).__name__}: {str(err)[:200]} at {where}')]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def case_rng(seed, pid, i):
    return random.Random(f'{seed}:{pid}:{i}')


def load_known(pid):
    """ known findings of one property: {key: description} """
    path = VERIF / 'known_findings.json'
    if not path.is_file():
        return {}
    data = json.loads(path.read_text(encoding='utf-8'))
    return {f['key']: f for f in data['known'] if f['property'] == pid}


def worker(mod, pid, seed, tier, indices, known):
    st = Stats()
    reach = Reach()
    reach.start()
    bad = []
    done = 0
    for i in indices:
        case = mod.gen(case_rng(seed, pid, i), i, tier)
        problems = run_case(mod, case, st)
        done += 1
        for kind, msg in problems:
            if kind in known:
                st.count(f'known:{kind}')
                st.known.setdefault(kind, msg)
            else:
                bad.append((i, case, kind, msg))
                break
        if len(bad) >= 2:
            break
    return {'done': done, 'counters': st.counters, 'keys': st.keys, 'samples': st.samples,
            'known': st.known, 'bad': bad, 'lines': reach.lines}


def run_workers(mod, pid, seed, tier, n, known, nproc):
    """ fork nproc workers, results over files """
    tmp = Path(tempfile.mkdtemp(prefix=f'vf-{pid}-'))
    pids = []
    try:
        for k in range(nproc):
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                code = 1
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    res = worker(mod, pid, seed, tier, range(k, n, nproc), known)
                    (tmp / f'{k}.pickle').write_bytes(pickle.dumps(res))
                    code = 0
                except BaseException:
                    (tmp / f'{k}.err').write_text(traceback.format_exc())
                finally:
                    os._exit(code)
            pids.append(child)
        deadline = time.monotonic() + (840 if tier == 'quick' else 6 * 3600)
        left = set(pids)
        while left:
            for p in list(left):
                done, status = os.waitpid(p, os.WNOHANG)
                if done:
                    left.discard(p)
            if left and time.monotonic() > deadline:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                raise Inconclusive('watchdog: workers did not finish')
            if left:
                time.sleep(0.02)
        results, errors = [], []
        for k in range(nproc):
            f = tmp / f'{k}.pickle'
            if f.is_file():
                results.append(pickle.loads(f.read_bytes()))
            else:
                e = tmp / f'{k}.err'
                errors.append(e.read_text() if e.is_file() else f'worker {k} died')
        return results, errors
    finally:
        for f in tmp.iterdir():
            f.unlink()
        tmp.rmdir()


# ---------------------------------------------------------------- shrinking

SHRINK_LISTS = ('c', 'lines', 'rows', 'items', 'blocks', 'parts', 'ops', 'cells')


def _candidates(obj, path=()):
    """ smaller variants of a JSON case: drop list elements, shorten text """
    if isinstance(obj, dict):
        for k, v in obj.items():
            for c in _candidates(v, path + (k,)):
                yield {**obj, k: c}
    elif isinstance(obj, list):
        if path and path[-1] in SHRINK_LISTS and obj:
            n = len(obj)
            size = n // 2
            while size >= 1:
                for s in range(0, n, size):
                    yield obj[:s] + obj[s + size:]
                size //= 2
        for i, v in enumerate(obj):
            for c in _candidates(v, path + (i,)):
                yield obj[:i] + [c] + obj[i + 1:]
    elif isinstance(obj, str):
        if path and path[-1] == 'text' and obj:
            n = len(obj)
            size = max(n // 2, 1)
            while size >= 1:
                for s in range(0, n, size):
                    yield obj[:s] + obj[s + size:]
                size //= 2


def shrink(mod, case, kind, known):
    if getattr(mod, 'NO_SHRINK', False):
        return case, None
    end = time.monotonic() + SHRINK_SECONDS
    best_msg = None
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in _candidates(case):
            if time.monotonic() > end:
                break
            try:
                problems = run_case(mod, cand, Stats())
            except Exception:
                continue
            hit = [m for k, m in problems if k == kind]
            if hit:
                case, best_msg, improved = cand, hit[0], True
                break
    return case, best_msg


# ---------------------------------------------------------------- main

def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    scale = 1.0
    global SHRINK_SECONDS
    while argv:
        a = argv.pop(0)
        if a == '--tier':
            tier = argv.pop(0)
        elif a == '--replay':
            replay = argv.pop(0)
        elif a == '--no-shrink':
            SHRINK_SECONDS = 0
        elif a == '--scale':
            scale = float(argv.pop(0))
        else:
            raise SystemExit(f'unknown argument {a}')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    started = time.monotonic()
    try:
        return _main(pid, tier, seed, replay, scale, started)
    except Inconclusive as err:
        print(f'INCONCLUSIVE property={pid} {err}')
        return 3


def _main(pid, tier, seed, replay, scale, started):
    import_sut()
    mod = importlib.import_module(f'vf.checks.{pid.lower()}')
    known = load_known(pid)

    if replay:
        data = json.loads(Path(replay).read_text(encoding='utf-8'))
        if data['seed'] is not None:
            seed = data['seed']
        problems = [p for p in run_case(mod, data['case'], Stats()) if p[0] not in known]
        for kind, msg in problems:
            print(f'[{kind}] {msg}')
        if problems:
            print(f'VIOLATION property={pid} replay={replay}')
            return 1
        print('not reproduced')
        return 0

    if hasattr(mod, 'setup'):
        mod.setup(seed, tier)

    n = max(1, int(mod.CASES[tier] * scale))
    nproc = min(getattr(mod, 'WORKERS', 8), os.cpu_count() or 1, n)
    results, errors = run_workers(mod, pid, seed, tier, n, known, nproc)

    counters, keys, lines, samples, bad, seen_known, done = Counter(), set(), set(), [], [], {}, 0
    for r in results:
        counters.update(r['counters'])
        keys |= r['keys']
        lines |= r['lines']
        samples += r['samples'][:1]
        bad += r['bad']
        done += r['done']
        for k, m in r['known'].items():
            seen_known.setdefault(k, m)
    bad.sort(key=lambda b: b[0])

    if hasattr(mod, 'finish') and not bad:
        st = Stats()
        for kind, msg, case in mod.finish(seed, tier, st) or ():
            if kind in known:
                seen_known.setdefault(kind, msg)
            else:
                bad.append((-1, case, kind, msg))
        counters.update(st.counters)
        keys |= st.keys
        samples = st.samples + samples

    # the listed findings, each shown by its own input
    st = Stats()
    for key, reproduces, text in (mod.probes(st) if hasattr(mod, 'probes') else ()):
        if not reproduces:
            continue
        if key in known:
            seen_known.setdefault(key, text)
        else:
            bad.append((-1, {'probe': key}, key, text))
    for key in sorted(seen_known):
        print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')

    replay_path = None
    if bad:
        i, case, kind, msg = bad[0]
        if i >= 0 and kind != 'timeout':
            case, better = shrink(mod, case, kind, known)
            msg = better or msg
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        (VERIF / 'replays').mkdir(exist_ok=True)
        replay_path = VERIF / 'replays' / f'{pid}-{h}.json'
        replay_path.write_text(json.dumps(
            {'property': pid, 'seed': seed, 'index': i, 'kind': kind, 'message': msg, 'case': case},
            indent=1, ensure_ascii=True), encoding='utf-8')
        print(f'[{kind}] {msg}')

    per_file = Counter(f for f, _ in lines)
    coverage = {
        'evaluations': done,
        'distinct_nontrivial': len(keys),
        'rule': mod.RULE,
        'samples': samples[:6] or [{'none': True}],
        'observed': dict(sorted(counters.items())),
        'repo_lines_reached': dict(sorted(per_file.items())),
        'known_findings_seen': sorted(seen_known),
    }
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - started, 2),
        'violations': len(bad),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + '\n')

    if bad:
        print(f'VIOLATION property={pid} replay={replay_path}')
        return 1
    if errors:
        print(errors[0])
        raise Inconclusive('a worker did not finish')
    for name, minimum in getattr(mod, 'MINIMUM', {}).items():
        need = minimum if isinstance(minimum, int) else minimum[tier]
        if counters[name] < need * min(scale, 1):
            raise Inconclusive(f'monitor {name!r} observed only {counters[name]} events, {need} expected')
    print(f'ok property={pid} tier={tier} seed={seed} evaluations={done} distinct={len(keys)} '
          f'wall={evidence["wall_s"]}s observed={dict(counters)}')
    return 0
