"""
Bounded exhaustive exploration engine.

A *family* is a finite, completely enumerated space of cases.  A case is a JSON
value which fully determines one execution (an operation sequence, an input, a
schedule, a fault position ...).  ``Family.run(case)`` executes the case on the
real code from /repo, compares it with a reference model and returns an
``Outcome``.  Every case of every family is executed; nothing is sampled and no
time cap is applied.  Cases are enumerated simplest first, so the reported
counterexample is the smallest one in enumeration order.
"""
import collections
import hashlib
import json
import os
import pickle
import re
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVIDENCE = os.path.join(VERIF, 'evidence')
CASE_TIMEOUT = 40
RETRY_TIMEOUT = 100       # a timeout has to repeat itself (busy machine)
WORKER_MEMORY = 3 << 30
MAX_TIMEOUTS_PER_WORKER = 2


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(Violation):
    pass


class Outcome:
    """
    states: canonical keys (any hashable / str) of the states visited
    transitions: number of operations executed on the implementation
    traces: how many complete model traces were compared with the real code
    """
    __slots__ = ('states', 'transitions', 'traces', 'trivial')

    def __init__(self, states=(), transitions=0, traces=1, trivial=False):
        self.states = states
        self.transitions = transitions
        self.traces = traces
        self.trivial = trivial


class Family:
    """
    name: identifier; cases: callable returning an iterable of JSON cases;
    run: callable(case) -> Outcome, raises Violation;
    setup: optional callable executed once per worker process.
    """

    def __init__(self, name, cases, run, bound, setup=None):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.setup = setup


def key(*objs):
    """Stable 64 bit key of nested plain data / numpy arrays."""
    h = hashlib.blake2b(digest_size=8)
    _feed(h, objs)
    return int.from_bytes(h.digest(), 'big')


def _feed(h, obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        h.update(str((obj.dtype.str, obj.shape)).encode())
        if isinstance(obj, np.ma.MaskedArray):
            h.update(np.ascontiguousarray(np.ma.getmaskarray(obj)).tobytes())
            obj = obj.filled(0)
        h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (tuple, list)):
        h.update(b'(%d' % len(obj))
        for o in obj:
            _feed(h, o)
    elif isinstance(obj, dict):
        _feed(h, sorted(obj.items(), key=lambda kv: str(kv[0])))
    else:
        h.update(repr(obj).encode())


def _alarm(signum, frame):
    raise CaseTimeout('the case did not terminate in time')


def execute(family, case):
    """Run one case; any unexpected exception is itself a violation."""
    try:
        return _execute(family, case, CASE_TIMEOUT)
    except CaseTimeout:
        return _execute(family, case, RETRY_TIMEOUT)


def _execute(family, case, limit):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return family.run(case)
    except Violation:
        raise
    except HarnessError:
        raise
    except RecursionError as ex:
        raise Violation(f'unbounded recursion: {ex!r}')
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = ' <- '.join(
            f'{os.path.basename(f.filename)}:{f.name}' for f in tb[::-1][:5])
        try:
            text = str(ex)
        except Exception:
            text = '(no message)'
        raise Violation(f'unexpected {type(ex).__name__}: {text} [{where}]')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class HarnessError(Exception):
    """The harness (not the code under test) is broken: never a verdict."""


MAX_VIOLATIONS_PER_WORKER = 400


def _explore(families, shard, nshards, progress, prop=None):
    """Run this shard; ``progress`` is a file recording the current case."""
    first = load_known() if os.environ.get('MC_FIRST') else None    # development
    try:
        import cv2
        cv2.setNumThreads(1)
    except Exception:
        pass
    try:
        from osgeo import gdal
        gdal.DontUseExceptions()
    except Exception:
        pass
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    res = []
    timeouts = 0
    for fi, fam in enumerate(families):
        if fam.setup is not None:
            fam.setup()
        states = set()
        st = collections.Counter()
        viols = []
        sample = None
        for ci, case in enumerate(fam.cases()):
            if ci % nshards != shard:
                continue
            st['cases'] += 1
            rec = json.dumps([fi, ci, case]).encode()
            os.pwrite(progress, b'%10d' % len(rec) + rec, 0)
            try:
                out = execute(fam, case)
            except Violation as ex:
                st['violating'] += 1
                if len(viols) < MAX_VIOLATIONS_PER_WORKER:
                    viols.append((ci, case, str(ex)))
                if first is not None and match_known(first, prop, fam.name, case, str(ex)) is None:
                    res.append((fi, states, dict(st), viols, sample))
                    return res
                if isinstance(ex, CaseTimeout):
                    timeouts += 1
                    if timeouts >= MAX_TIMEOUTS_PER_WORKER:
                        st['aborted'] += 1
                        break
                continue
            for s in out.states:
                states.add(s if isinstance(s, int) else key(s))
            st['transitions'] += out.transitions
            st['traces'] += out.traces
            if not out.trivial:
                st['nontrivial'] += 1
                if sample is None:
                    sample = (ci, case)
        res.append((fi, states, dict(st), viols, sample))
        if timeouts >= MAX_TIMEOUTS_PER_WORKER:
            break
    return res


def _child(families, shard, nshards, rpath, ppath, prop):
    """Body of one forked worker process (never returns)."""
    rc = 3
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        progress = os.open(ppath, os.O_CREAT | os.O_RDWR, 0o600)
        try:
            res = ('ok', _explore(families, shard, nshards, progress, prop))
            rc = 0
        except BaseException:
            res = ('harness', traceback.format_exc())
        with open(rpath, 'wb') as f:
            pickle.dump(res, f)
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stderr.flush()
        os._exit(rc)


def _fork_all(families, nproc, prop):
    """Explore in nproc forked workers.  A worker killed by a signal (a crash
    in native code) is reported as a violation of the case it was running."""
    base = tempfile.mkdtemp(prefix='mcw.')
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(nproc):
        rpath, ppath = os.path.join(base, f'r{i}'), os.path.join(base, f'p{i}')
        pid = os.fork()
        if pid == 0:
            _child(families, i, nproc, rpath, ppath, prop)
        pids[pid] = (i, rpath, ppath)
    results = [None] * nproc
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        i, rpath, ppath = pids.pop(pid)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig == signal.SIGKILL:
                results[i] = ('harness', 'a worker was killed (memory?)\n')
                continue
            with open(ppath, 'rb') as f:
                raw = f.read()
            n = int(raw[:10])
            fi, ci, case = json.loads(raw[10:10 + n])
            msg = f'the process died with signal {sig} while running this case'
            empty = [(k, set(), {}, [], None) for k in range(fi)]
            results[i] = ('ok', empty + [
                (fi, set(), {'cases': 1, 'violating': 1}, [(ci, case, msg)], None)])
        else:
            try:
                with open(rpath, 'rb') as f:
                    results[i] = pickle.load(f)
            except Exception as ex:
                results[i] = ('harness', f'worker {i} gave no result: {ex!r}\n')
            if os.environ.get('MC_FIRST') and results[i][0] == 'ok' and len(results[i][1]) < len(families):
                for other in pids:
                    os.kill(other, signal.SIGKILL)
                    os.waitpid(other, 0)
                return [results[i]]
    return results


def load_known():
    fpath = os.path.join(VERIF, 'known_findings.json')
    with open(fpath) as f:
        known = json.load(f)
    for k in known.get('findings', []):
        k['_caseset'] = {case_id(c) for c in k.get('cases', [])}
    return known


def match_known(known, prop, fam, case, msg):
    cid = case_id(case)
    for k in known.get('findings', []):
        if k['property'] != prop or k['family'] != fam:
            continue
        if cid in k.get('_caseset', ()) and re.search(k.get('match', ''), msg):
            return k
    return None


def case_id(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def run_check(prop, level, families, tier, assumptions=(), explain=''):
    """Explore all families; print verdict lines; write evidence; return rc."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nproc = max(1, min(8, os.cpu_count() or 1))
    if os.environ.get('MC_NPROC'):
        nproc = int(os.environ['MC_NPROC'])
    results = _fork_all(families, nproc, prop)
    bad = [r for r in results if r[0] != 'ok']
    if bad:
        sys.stderr.write(bad[0][1])
        return 3

    known = load_known()
    fam_stats = []
    vacuous = []
    all_states = 0
    tot = collections.Counter()
    new_viols = []
    hits = collections.OrderedDict()
    samples = []
    for fi, fam in enumerate(families):
        states = set()
        st = collections.Counter()
        viols = []
        samp = []
        for _, res in results:
            if fi >= len(res):      # the worker stopped early (timeouts)
                continue
            _, s, c, v, sm = res[fi]
            states |= s
            st.update(c)
            viols.extend(v)
            if sm is not None:
                samp.append(sm)
        viols.sort(key=lambda v: v[0])
        for ci, case, msg in viols:
            k = match_known(known, prop, fam.name, case, msg)
            if k is not None:
                hits.setdefault(k['id'], [k, 0])[1] += 1
            else:
                new_viols.append((fam, ci, case, msg))
        samp.sort(key=lambda v: v[0])
        if samp:
            samples.append({'family': fam.name, 'case': samp[0][1]})
        fam_stats.append({
            'family': fam.name, 'bound': fam.bound,
            'cases': st['cases'], 'nontrivial': st['nontrivial'],
            'distinct_states': len(states),
            'transitions': st['transitions'], 'traces': st['traces'],
            'violating_cases': st['violating'],
        })
        all_states += len(states)
        tot.update(st)
        if st['cases'] == 0 or (not viols and st['nontrivial'] == 0):
            vacuous.append(f'vacuous family {fam.name}: {dict(st)}\n')

    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': all_states,
            'transitions': tot['transitions'],
            'traces_validated_against_impl': tot['traces'],
            'evaluations': tot['cases'],
            'distinct_nontrivial': tot['nontrivial'],
            'rule': explain or 'every case of every family, in order; '
                    'non-trivial: the oracle compared at least one value',
            'samples': samples,
            'families': fam_stats,
            'exhaustive': True,
        },
        'assumptions': list(assumptions),
        'wall_s': round(wall, 3),
        'violations': len(new_viols),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for fs in fam_stats:
        print('  {family}: cases={cases} states={distinct_states} '
              'transitions={transitions} violating={violating_cases}'.format(**fs))
    for kid, (k, n) in hits.items():
        print(f'KNOWN-FINDING: property={prop} {k["what"]} ({n} case(s), {kid})')
    if vacuous and not new_viols:
        sys.stderr.write(''.join(vacuous))
        return 3
    if new_viols:
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        new_viols.sort(key=lambda v: len(case_id(v[2])))
        for fam, ci, case, msg in new_viols[:int(os.environ.get("MC_SHOW", "10"))]:
            rp = os.path.join(
                rdir, f'{prop}-{fam.name}-{key(case_id(case)):016x}.json')
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'family': fam.name, 'tier': tier,
                           'case': case, 'message': msg,
                           'replay': f'bash /verif/run.sh replay {rp}'}, f, indent=1)
            print(f'VIOLATION property={prop} replay={rp}')
            print(f'    {fam.name} {case_id(case)[:400]}\n    {msg[:600]}')
        print(f'{prop}: {len(new_viols)} violating case(s), wall={wall:.1f}s')
        return 1
    print(f'{prop}: OK states={all_states} transitions={tot["transitions"]} '
          f'cases={tot["cases"]} wall={wall:.1f}s')
    return 0
