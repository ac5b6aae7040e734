"""Runner of the runtime monitors.

    python -B -m mon.core C01 [--tier quick|thorough] [--seed N] [--replay FILE]

A check module (mon/checks/<id>.py) provides a *plan* (list of small case descriptions, made from the
seed alone) and *run(case, rec)*, which drives the real code from /repo and feeds what it observes to
monitors.  Verdicts are three-valued: exit 0 = held on everything observed, exit 1 = violated
(VIOLATION line + replay file), exit 2 = inconclusive (a monitor was not reached often enough, or the
harness itself failed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'bayesian_decision_tree')

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


class Abort(Exception):
    """This case cannot be continued (the reason has been recorded)."""


class CaseTimeout(BaseException):
    pass


class Recorder:
    """What one case observed."""

    def __init__(self, case):
        self.case = case
        self.counts = collections.Counter()
        self.keys = set()
        self.violations = []
        self.samples = []
        self.known = []

    def event(self, kind, n=1):
        self.counts[kind] += int(n)

    def nontrivial(self, key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def violation(self, what, /, **detail):
        self.violations.append({'what': what, 'detail': {k: _plain(v) for k, v in detail.items()}})

    def check(self, ok, what, /, **detail):
        self.counts['assertions'] += 1
        if not ok:
            self.violation(what, **detail)
        return bool(ok)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(_plain(s))

    def api(self, what, fn, *args, **kwargs):
        """Calls into the code under test; on valid input it must not raise."""
        self.counts['api_calls'] += 1
        try:
            return fn(*args, **kwargs)
        except Exception as e:
            self.violation('{}: unexpected {}: {}'.format(what, type(e).__name__, e),
                           traceback=traceback.format_exc()[-1500:])
            raise Abort()

    def expect_error(self, what, errors, fn, *args, **kwargs):
        self.counts['api_calls'] += 1
        self.counts['expected_errors'] += 1
        try:
            r = fn(*args, **kwargs)
        except errors:
            return True
        except Exception as e:
            self.violation('{}: expected {} but got {}: {}'.format(
                what, errors, type(e).__name__, e))
            return False
        self.violation('{}: expected {} but the call returned'.format(what, errors), returned=repr(r)[:300])
        return False


def _plain(v, depth=0):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 400 else '{} array, head {}'.format(v.shape, v.ravel()[:20].tolist())
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if depth < 4 and isinstance(v, dict):
        return {str(k): _plain(x, depth+1) for k, x in v.items()}
    if depth < 4 and isinstance(v, (list, tuple, set)):
        return [_plain(x, depth+1) for x in list(v)[:400]]
    return repr(v)[:500]


# ---------------------------------------------------------------- line coverage of the package
_lines = set()


def _start_line_monitor():
    """Records which lines of the package ran, through sys.monitoring (each line reports once)."""
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(PKG):
            _lines.add((os.path.basename(code.co_filename), line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


# ---------------------------------------------------------------- floating point sanitizer
fp_events = collections.Counter()


def _fp_handler(kind, flag):
    fp_events[kind] += 1


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _start_line_monitor()


_module = None


def _from_package(tb):
    """did the exception come out of (or interrupt) the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


def _run_case(case):
    rec = Recorder(case)
    warnings.simplefilter('ignore')
    np.seterrcall(_fp_handler)
    np.seterr(all='call', under='ignore')
    fp_events.clear()
    _lines.clear()
    limit = case.get('_limit', getattr(_module, 'CASE_LIMIT', 120))
    # CPU time, not wall time: does not depend on how loaded the machine is
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    state = 'ok'
    try:
        np.random.seed(12345)
        _module.run(case, rec)
    except Abort:
        pass
    except CaseTimeout as e:
        state = 'timeout'
        if getattr(_module, 'TIMEOUT_IS_VIOLATION', False) or _from_package(e.__traceback__):
            rec.violation('no termination within {} s of CPU time'.format(limit), traceback=traceback.format_exc()[-1500:])
    except Exception as e:
        state = 'harness: ' + traceback.format_exc()[-2000:]
        if _from_package(e.__traceback__):
            # all calls of the harness are valid unless they are made through expect_error
            rec.violation('the code under test raised {}: {}'.format(type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)) or getattr(e, 'name', None) == 'search_space_is_unit_hypercube':
            # the oracles understand every well-formed answer: this one has the wrong type, shape or content
            rec.violation('malformed answer, {} while judging it: {}'.format(type(e).__name__, e), traceback=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    for k, v in fp_events.items():
        rec.counts['fp_' + k] += v
    return {'case': case, 'state': state, 'counts': dict(rec.counts), 'keys': rec.keys,
            'violations': rec.violations, 'samples': rec.samples, 'known': rec.known,
            'lines': set(_lines)}


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == prop and d.get('status') == 'open':
                        out.append(d)
    return out


def main(argv=None):
    global _module
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args(argv)
    prop = args.prop
    t0 = time.time()

    try:
        pkg = importlib.import_module('bayesian_decision_tree')
        assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep), pkg.__file__
        _module = importlib.import_module('mon.checks.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE property={} cannot import the code under test'.format(prop))
        return 2

    if args.replay:
        with open(args.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = _module.plan(args.tier, args.seed)
    deadline = t0 + (800 if args.tier == 'thorough' else getattr(_module, 'QUICK_DEADLINE', 420))

    counts = collections.Counter()
    keys, lines, samples, bad, timeouts, harness = set(), set(), [], [], [], []
    known = collections.Counter()
    n_run = 0
    stopped = False
    ctx = mp.get_context('fork')
    jobs = min(args.jobs, max(1, len(cases)), getattr(_module, 'MAX_JOBS', 64))
    with ctx.Pool(jobs, initializer=_worker_init) as pool:
        for r in pool.imap_unordered(_run_case, cases, chunksize=1 if len(cases) < 400 else 4):
            n_run += 1
            counts.update(r['counts'])
            keys |= r['keys']
            lines |= r['lines']
            for k in r['known']:
                known[k] += 1
            if len(samples) < 6 and r['samples']:
                samples.extend(r['samples'][:1])
            if r['violations']:
                bad.append(r)
            if r['state'] == 'timeout':
                timeouts.append(r['case'])
            elif r['state'] != 'ok':
                harness.append((r['case'], r['state']))
            if len(bad) >= 5 or time.time() > deadline:
                stopped = True
                pool.terminate()
                break

    # ---- verdict
    minimum = getattr(_module, 'MINIMUM', {})
    short = {k: (counts[k], v) for k, v in minimum.items() if counts[k] < v}
    status = 0
    if bad:
        status = 1
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, r in enumerate(bad[:5]):
            path = os.path.join(rdir, '{}-{}.json'.format(prop, i))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': r['case'], 'violations': r['violations'][:5]}, f,
                          indent=1, default=repr)
            print('VIOLATION property={} replay={}'.format(prop, path))
            for v in r['violations'][:2]:
                print('  case {}: {} {}'.format(r['case'], v['what'], str(v['detail'])[:700]))
    elif not args.replay:
        if harness:
            status = 2
            print('INCONCLUSIVE property={} harness failure in {} cases, first: {}\n{}'.format(
                prop, len(harness), *harness[0]))
        elif timeouts:
            status = 2
            print('INCONCLUSIVE property={} watchdog fired in {} cases, first: {}'.format(
                prop, len(timeouts), timeouts[0]))
        elif short:
            status = 2
            print('INCONCLUSIVE property={} monitors not reached often enough: {}'.format(prop, short))
    elif harness or timeouts:
        status = 2
        print('INCONCLUSIVE', harness, timeouts)
    entries = load_known(prop)
    for e in entries:
        if known[e['mechanism']]:
            print('KNOWN-FINDING: property={} {}'.format(prop, e['what']))
    unlisted = set(known) - {e['mechanism'] for e in entries}
    if unlisted and status == 0:
        status = 1
        print('VIOLATION property={} replay=- unlisted finding mechanisms {}'.format(prop, unlisted))

    wall = time.time() - t0
    per_file = collections.Counter(f for f, _ in lines)
    if not args.no_evidence and not args.replay:
        ev = {
            'property': prop, 'tier': args.tier, 'seed': args.seed,
            'level': getattr(_module, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': n_run,
                'distinct_nontrivial': len(keys),
                'rule': _module.RULE,
                'samples': samples or ['none'],
                'planned_cases': len(cases),
                'observed': {k: counts[k] for k in sorted(counts)},
                'package_lines_executed': dict(sorted(per_file.items())),
                'minimum_required': minimum,
                'inconclusive_cases': len(timeouts) + len(harness),
            },
            'assumptions': getattr(_module, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2),
            'violations': len(bad),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    print('{} {} cases={}/{} nontrivial={} violations={} {}wall={:.1f}s'.format(
        prop, {0: 'HELD', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[status], n_run, len(cases), len(keys), len(bad),
        'stopped early ' if stopped else '', wall))
    print('  observed: ' + ', '.join('{}={}'.format(k, counts[k]) for k in sorted(counts)))
    return status


if __name__ == '__main__':
    # run as the importable module so that workers and check modules share its state
    from mon import core
    sys.exit(core.main())
