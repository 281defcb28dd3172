"""Exploration driver: enumerates the cases of a property's families completely, in parallel, and reports.

A property module defines
    PID       the property id
    families(tier) -> [Family]     the bounded spaces, simplest first
    evaluate(case, st)             explores one case on the real code; raises Violation

A case is a JSON-able dict, so that every violation can be replayed by itself (python -m mc.replay FILE)."""
from . import env  # noqa: F401  (first)

import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

CASE_TIMEOUT = float(os.environ.get('MC_CASE_TIMEOUT', '120'))


class Violation(Exception):
    """The property is broken. `key` identifies the failure independently of the message (for known findings)."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Family:
    """A bounded space of cases: `gen()` yields all of them, always in the same order."""

    def __init__(self, name, gen, bound):
        self.name, self.gen, self.bound = name, gen, bound


class Stats:
    """Everything measured while exploring; merged over the workers."""

    def __init__(self):
        self.cases = 0          # cases explored
        self.states = 0         # model states visited (tree nodes, history states, scheduler states ...)
        self.transitions = 0    # model transitions taken (splits, stops, operations, scheduler steps ...)
        self.traces = 0         # executions of the implementation compared with the model
        self.nontrivial = 0     # cases that are non-trivial by the property's rule
        self.outcomes = collections.Counter()
        self.samples = []
        self.extra = collections.Counter()

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def merge(self, o):
        self.cases += o.cases
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.nontrivial += o.nontrivial
        self.outcomes.update(o.outcomes)
        self.extra.update(o.extra)
        self.samples.extend(o.samples)


def known_findings(pid):
    """-> {key: description} of the findings (not the fixed entries) listed for pid"""
    result = {}
    path = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property={} '.format(pid)):
                parts = line.split(None, 3)  # finding: property=.. key=.. text
                result[parts[2][len('key='):]] = parts[3].strip()
    return result


def case_key(case, violation_key=None):
    return violation_key or hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, st):
    """-> None, or (key, message). Whatever goes wrong while the real code runs on a case of the space is a violation:
    the unchanged code runs through all of them."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(module, 'CASE_TIMEOUT', CASE_TIMEOUT))
    try:
        module.evaluate(case, st)
        return None
    except Violation as e:
        return case_key(case, e.key), str(e)
    except CaseTimeout:
        return case_key(case), 'did not terminate within the time limit'
    except MemoryError:
        return case_key(case), 'ran out of memory'
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        return case_key(case), 'unexpected {}: {}\n{}'.format(type(e).__name__, e, tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_G = {}


def _task(task, slot=None):
    fam_index, shard, n_shards = task
    module, fams, known, stop = _G['module'], _G['families'], _G['known'], _G['stop']
    st = Stats()
    found = []
    known_hits = set()
    for i, case in enumerate(fams[fam_index].gen()):
        if i % n_shards != shard:
            continue
        if stop.value and (fam_index, i) > (stop.value - 1, 1 << 60):
            break
        st.cases += 1
        if slot is not None:
            slot[0], slot[1] = fam_index, i
        res = run_case(module, case, st)
        if i % 997 == 3 and len(st.samples) < 2 or i == 0:
            st.samples.append({'family': fams[fam_index].name, 'index': i, 'case': case})
        if res is not None:
            if res[0] in known:
                known_hits.add(res[0])
                continue
            found.append((fam_index, i, case, res[0], res[1]))
            with stop.get_lock():
                stop.value = 1
            break
    return fam_index, st, found, known_hits


def _worker(tasks, counter, slot, conn):
    """takes task after task; the slot tells which case is under way (should the process die in it)"""
    while True:
        with counter.get_lock():
            k = counter.value
            counter.value += 1
        if k >= len(tasks):
            break
        conn.send(_task(tasks[k], slot))
    conn.send(None)
    conn.close()


def n_workers():
    return max(1, int(os.environ.get('MC_JOBS', len(os.sched_getaffinity(0)))))


def explore(module, tier):
    fams = module.families(tier)
    only = os.environ.get('MC_FAMILY')
    if only:
        fams = [f for f in fams if only in f.name]
    workers = n_workers()
    shards = workers * getattr(module, 'SHARDS_PER_WORKER', 4)
    _G.update(module=module, families=fams, known=known_findings(module.PID), stop=multiprocessing.Value('i', 0))
    tasks = [(f, s, shards) for f in range(len(fams)) for s in range(shards)]
    total = Stats()
    per_family = [Stats() for _ in fams]
    fam_time = [0.0 for _ in fams]
    found, known_hits = [], set()
    ctx = multiprocessing.get_context('fork')
    sys.stdout.flush()
    counter = ctx.Value('i', 0)
    running = {}
    for _ in range(min(workers, len(tasks))):
        slot = ctx.Array('q', [-1, -1], lock=False)
        recv, send = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(tasks, counter, slot, send), daemon=True)
        p.start()
        send.close()
        running[recv] = (p, slot)
    t_prev = time.time()
    deadline = None
    while running:
        ready = multiprocessing.connection.wait(list(running), timeout=5 if deadline is None else max(0.01, deadline - time.time()))
        for conn in ready:
            p, slot = running[conn]
            try:
                msg = conn.recv()
            except EOFError:
                # the process died (crash of the interpreter, killed): the case it was exploring is the culprit
                p.join()
                del running[conn]
                fam_index, i = slot
                case = next(itertools.islice(fams[fam_index].gen(), i, None)) if i >= 0 else {}
                found.append((fam_index, i, case, case_key(case), 'the process died (exit code {})'.format(p.exitcode)))
                _G['stop'].value = 1
                continue
            if msg is None:
                p.join()
                del running[conn]
                continue
            fam_index, st, f, k = msg
            per_family[fam_index].merge(st)
            now = time.time()
            fam_time[fam_index] += now - t_prev
            t_prev = now
            found.extend(f)
            known_hits |= k
        if deadline is None and (found or _G['stop'].value):
            deadline = time.time() + 20  # let the other workers finish their current case
        if deadline is not None and time.time() >= deadline:
            break
    for p, _ in running.values():
        p.kill()
        p.join()
    for p in per_family:
        total.merge(p)
    if hasattr(module, 'finish') and not found:
        # cross-case obligations, e.g. that the exploration was not vacuous
        module.finish(total)
    return fams, per_family, fam_time, total, found, known_hits


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        raise SystemExit('unknown tier ' + tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module = importlib.import_module('mc.props.' + pid.lower())
    t0 = time.time()
    fams, per_family, fam_time, total, found, known_hits = explore(module, tier)
    wall = time.time() - t0

    for key, text in known_findings(pid).items():
        print('KNOWN-FINDING: property={} {}{}'.format(pid, text, '' if key in known_hits else ' (not reached in this run)'))

    samples = [s for p in per_family for s in p.samples[:1]][:8]
    coverage = {
        'states': total.states,
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'evaluations': total.cases,
        'distinct_nontrivial': total.nontrivial,
        'rule': module.RULE,
        'exhaustive': not found,
        'families': [{'name': f.name, 'bound': f.bound, 'cases': p.cases, 'states': p.states, 'transitions': p.transitions, 'traces': p.traces}
                     for f, p in zip(fams, per_family)],
        'distinct_outcomes': len(total.outcomes),
        'outcomes': dict(total.outcomes.most_common(12)),
        'samples': samples,
    }
    coverage.update({'measured_' + k: v for k, v in total.extra.items()})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': len(found),
    }
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print('{} {}: cases={} states={} transitions={} traces={} nontrivial={} outcomes={} wall={:.1f}s'.format(
        pid, tier, total.cases, total.states, total.transitions, total.traces, total.nontrivial, len(total.outcomes), wall))
    for f, p in zip(fams, per_family):
        print('  {:28s} cases={:8d} states={:9d} traces={:8d}  {}'.format(f.name, p.cases, p.states, p.traces, f.bound))

    if not found:
        if total.cases == 0 or total.traces == 0:
            print('nothing was explored')
            return 2
        return 0

    found.sort(key=lambda v: v[:2])
    fam_index, i, case, key, message = found[0]
    os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
    path = os.path.join(env.VERIF, 'replays', '{}-{}.json'.format(pid, case_key(case)))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'family': fams[fam_index].name, 'index': i, 'key': key, 'message': message, 'case': case,
                   'replay': 'cd {} && ./check replay {}'.format(env.VERIF, path)}, f, indent=1)
        f.write('\n')
    print('family {} case {}: {}'.format(fams[fam_index].name, i, message))
    print('VIOLATION property={} replay={}'.format(pid, path))
    return 1


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


if __name__ == '__main__':
    # run the module under its package name, so that there is only one Violation class
    from mc import core
    sys.exit(core.main())
