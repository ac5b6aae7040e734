"""C21: models can be used from several threads: predictions of a shared model, training of different models."""
import hashlib
import os
import random
import sys
import threading
import time

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix
from sklearn.base import clone

from mon import core, gen, view
from mon.checks import c06, c12

RULE = ('random models are trained and queried by 3-6 threads at once, with the data, prior and optimizer objects shared between '
        'them; thread switches are forced at random lines of the package (sys.monitoring) and every result is compared with that '
        'of the same call made alone; non-trivial = distinct interleaving, by hash of the (thread, line) sequence at the switches')
MINIMUM = {'interleavings': 100, 'switches': 20000, 'concurrent_calls': 2000, 'concurrent_fits': 400, 'concurrent_hyper_fits': 80,
           'concurrent_predictions': 1200, 'shared_sparse': 60}
CASE_LIMIT = 200
ASSUMPTIONS = ['CPython with its global lock: switches happen between bytecodes; calls on one model while that same model is '
               'being trained are outside of the property']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 25
    return gen.plan(seed, [(20 * f, {'mt': mt, 'w': w}) for mt in ('PC', 'PR') for w in ('query', 'fit', 'mixed')] +
                    [(8 * f, {'mt': mt, 'w': w}) for mt in ('HC', 'HR') for w in ('query', 'fit', 'mixed')])


class Switcher:
    """Forces thread switches at random lines of the package while active, and records them."""
    def __init__(self, seed, rate):
        self.random = random.Random(seed)
        self.rate = rate
        self.names = {}
        self.last = None
        self.trace = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.lines = 0

    def on_line(self, code, line):
        if not code.co_filename.startswith(core.PKG):
            return sys.monitoring.DISABLE
        me = self.names.get(threading.get_ident())
        if me is None:
            return
        self.lines += 1
        if me != self.last:
            self.last = me
            self.switches += 1
            self.trace.update('{}:{}:{};'.format(me, os.path.basename(code.co_filename), line).encode())
        if self.random.random() < self.rate:
            time.sleep(0 if self.random.random() < .7 else 1e-5)

    def __enter__(self):
        m = sys.monitoring
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        m.use_tool_id(m.DEBUGGER_ID, 'switcher')
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, self.on_line)
        m.restart_events()
        m.set_events(m.DEBUGGER_ID, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.DEBUGGER_ID, 0)
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, None)
        m.free_tool_id(m.DEBUGGER_ID)
        sys.setswitchinterval(self.old)


def together(rec, case, jobs, rate):
    """runs jobs (callables) in one thread each, with forced switches; returns results or exceptions"""
    results = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))
    s = Switcher(case['i'] * 1000003 + case['seed'], rate)

    def work(k):
        s.names[threading.get_ident()] = k
        barrier.wait()
        out = []
        for job in jobs[k]:
            try:
                out.append((True, job()))
            except Exception as e:
                out.append((False, e))
        results[k] = out

    with s:
        threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    rec.event('switches', s.switches)
    rec.event('monitored_lines', s.lines)
    rec.event('interleavings')
    rec.nontrivial(s.trace.hexdigest())
    rec.event('concurrent_calls', sum(len(j) for j in jobs))
    return results


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = {}
    if hyper:
        kw = dict(n=int(r.choice([20, 40, 60])), d=int(r.integers(2, 4)), xkind='cont')
    else:
        kw = dict(n=int(r.choice([40, 80, 150])), how='deep', pp=.5)
    problems = [gen.problem(r, mt, **kw)]
    while len(problems) < 4:
        # siblings share the data, the targets, the prior object and the optimizer object, with other parameters
        p = problems[0]
        q = gen.Problem(mt, dict(p.params), p.X, p.y, p.k, p.prior, p.pp, p.delta, 0.)
        c = len(problems)
        if c == 1:
            q.params['partition_prior'] = .3
        elif c == 2:
            q.params['delta'] = .4
        else:
            q.X = np.ascontiguousarray(p.X[::-1])
            q.y = p.y[::-1].copy()
        problems.append(q)
    X, y = problems[0].X, problems[0].y
    # the form of the shared training data
    form = str(r.choice(['dense', 'dense', 'csr', 'csc', 'csr unsorted', 'csc unsorted', 'csr repeated', 'csc repeated']))
    made = {id(p.X): p.X if form == 'dense' else c06.sparse_form(form, p.X) for p in problems}
    data = {id(p): made[id(p.X)] for p in problems}
    rec.event('shared_sparse', form != 'dense')
    shared = {'X': X, 'data': list(made.values()), 'y': y, 'prior': problems[0].params['prior'], 'optimizer': problems[0].params.get('optimizer')}
    frozen = c12.freeze(shared)
    info = dict(problem=problems[0].describe(), form=form)
    alone = [p.model().fit(p.X if form == 'dense' else c06.sparse_form(form, p.X), p.y) for p in problems]
    sigs = [view.signature(m) for m in alone]
    model = alone[0]
    root = view.tree(model)
    Q = gen.queries(r, X, root if not hyper else None, 25)
    near = view.route(root, Q)[1] if hyper else np.zeros(len(Q), dtype=bool)

    parts = [np.sort(r.choice(np.where(~near)[0], int(r.integers(1, 30)))) for _ in range(6)]
    forms = [lambda A: A, csr_matrix, csc_matrix, np.asfortranarray, lambda A: A.tolist() if len(A) > 1 else A]

    def queries(k, target, n):
        out = []
        for _ in range(n):
            rows = parts[r.integers(len(parts))]
            A = forms[r.integers(len(forms))](Q[rows])
            names = ['predict', 'predict', 'importance', 'text', 'depth', 'leaves']
            if mt[1] == 'C':
                names += ['proba', 'proba']
            if not hyper:
                names += ['paths', 'paths']
            what = names[r.integers(len(names))]
            fn = {'predict': lambda A=A: target.predict(A), 'proba': lambda A=A: target.predict_proba(A),
                  'paths': lambda A=A: target.prediction_paths(A), 'importance': target.feature_importance,
                  'text': lambda: str(target), 'depth': target.get_depth, 'leaves': target.get_n_leaves}[what]
            out.append((what, fn, fn()))
        return out

    n_threads = int(r.integers(3, 7))
    rate = float(r.choice([.02, .1, .3]))
    w = case['w']
    jobs, expected = [], []
    if w == 'query':
        for k in range(n_threads):
            q = queries(k, model, 8 if hyper else 12)
            jobs.append([f for _, f, _ in q])
            expected.append([(a, e) for a, _, e in q])
    elif w == 'fit':
        for k in range(n_threads):
            c = k % len(problems)
            p = problems[c]
            reps = 1 if hyper else 2
            m = p.model()
            jobs.append([lambda m=m, p=p: m.fit(data[id(p)], p.y)] * reps)
            expected.append([('fit', c)] * reps)
    else:
        for k in range(n_threads):
            c = k % len(problems)
            p = problems[c]
            if k % 2:
                q = queries(k, model, 12)
                jobs.append([f for _, f, _ in q])
                expected.append([(a, e) for a, _, e in q])
            else:
                # a clone of the shared model with the parameters of a sibling
                def job(p=p):
                    m = clone(model)
                    m.set_params(**p.params)
                    m.set_params(delta=p.params.get('delta', 0))
                    return m.fit(data[id(p)], p.y)
                jobs.append([job])
                expected.append([('fit', c)])
    got = together(rec, case, jobs, rate)
    for k, (g, e) in enumerate(zip(got, expected)):
        if g is None:
            raise AssertionError('thread died')
        for (ok, value), (what, ref) in zip(g, e):
            if not ok:
                rec.violation('{} fails when other threads are active: {}: {}'.format(what, type(value).__name__, value), thread=k, **info)
                continue
            if what == 'fit':
                rec.event('concurrent_fits')
                if hyper:
                    rec.event('concurrent_hyper_fits')
                rec.check(view.same(view.signature(value), sigs[ref]), 'training among other threads gives another tree',
                          thread=k, alone=view.describe(alone[ref]), got=view.describe(value), **info)
            else:
                if what in ('predict', 'proba', 'paths'):
                    rec.event('concurrent_predictions')
                same = value == ref if what in ('paths', 'text', 'depth', 'leaves') else np.array_equal(value, ref)
                rec.check(same, '{} among other threads gives another result'.format(what), thread=k, got=value, alone=ref, **info)
    rec.check(c12.freeze(shared) == frozen, 'shared arguments changed', **info)
    rec.check(view.same(view.signature(model), sigs[0]), 'the shared model changed', **info)
    rec.sample({'case': case, 'threads': n_threads, 'rate': rate, 'nodes': [len(s) for s in sigs], 'X': list(X.shape)})
