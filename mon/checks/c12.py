"""C12: training is a deterministic function of its arguments, has no side effects, and forgets the past."""
import copy
import gc
import os
import random
import sys
import threading
import warnings

import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, csc_matrix

from mon import gen, view
from mon.checks import c06

RULE = ('random models incl. all optimizers: repeated fits, refits after fits on other data, different global random '
        'states, frozen inputs, reused parameter objects; non-trivial = refit on a tree with a split; distinct by (case, step)')
MINIMUM = {'fits': 3000, 'split_trees': 150, 'hyper_fits': 700, 'refits': 350, 'frozen_inputs': 240,
           'odd_sparse_inputs': 30, 'frozen_queries': 1000, 'refit_answers': 300, 'other_number_of_classes': 10, 'refits_after_other_sizes': 100}
ASSUMPTIONS = ['hyperplane results are compared up to the last bits (BLAS rounding depends on memory alignment)']


def plan(tier, seed):
    f = 1 if tier == 'quick' else 14
    return gen.plan(seed, [(12 * f, {'mt': 'HC', 'opt': 'sa'}), (12 * f, {'mt': 'HR', 'opt': 'sa'}),   # longest first
                           (70 * f, {'mt': 'PC'}), (70 * f, {'mt': 'PR'}), (15 * f, {'mt': 'PC', 'default': 1}), (15 * f, {'mt': 'PR', 'default': 1}),
                           (5 * f, {'mt': 'HC', 'opt': 'random', 'default': 1}), (5 * f, {'mt': 'HR', 'opt': 'quasi', 'default': 1})] +
                    [(12 * f, {'mt': mt, 'opt': o}) for mt in ('HC', 'HR') for o in ('gd', 'de', 'random', 'quasi', 'two')
                     if (mt, o) != ('HR', 'two')] + [(1, {'mt': 'HC', 'opt': 'none'}), (1, {'mt': 'HR', 'opt': 'none'})])


def rng_state():
    return repr(np.random.get_state()) + repr(random.getstate())


def settings():
    """global settings of the interpreter and of NumPy"""
    return {'errors': np.geterr(), 'print options': repr(np.get_printoptions()), 'warning filters': list(map(str, warnings.filters)),
            'recursion limit': sys.getrecursionlimit(), 'directory': os.getcwd(), 'environment': dict(os.environ),
            'garbage collection': (gc.isenabled(), gc.get_threshold()), 'threads': threading.active_count(),
            'output': (id(sys.stdout), id(sys.stderr)), 'error call': id(np.geterrcall()), 'buffer size': np.getbufsize(),
            'hooks': (id(sys.excepthook), id(sys.gettrace()), sys.getswitchinterval()), 'pandas': pd.get_option('display.precision')}


def freeze(obj):
    """comparable deep copy of any argument"""
    if obj is None or np.isscalar(obj):
        return obj
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, pd.DataFrame):
        return ('frame', tuple(map(str, obj.columns)), tuple(obj.index), obj.to_numpy().tobytes())
    if isinstance(obj, pd.Series):
        return ('series', tuple(obj.index), obj.to_numpy().tobytes())
    if hasattr(obj, 'toarray'):
        return (type(obj).__name__, obj.data.tobytes(), obj.indices.tobytes(), obj.indptr.tobytes(), obj.shape)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(freeze(o) for o in obj))
    if isinstance(obj, dict):
        return ('dict', tuple((k, freeze(v)) for k, v in sorted(obj.items())))
    if hasattr(obj, 'solve'):
        return ('optimizer', type(obj).__name__, freeze({k: v for k, v in vars(obj).items() if not callable(v)}))
    return repr(obj)


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = {}
    if hyper:
        kw = dict(xkind='cont', n=int(r.choice([10, 25, 50])), d=int(r.integers(2, 5)), optimizer=gen.make_optimizer(
            r, mt == 'HC', name=case['opt'] if case['opt'] != 'none' else 'random'))
        if case['opt'] == 'none':
            kw.update(n=12, d=2)
    if case.get('default'):
        # default priors depend on the number of rows
        kw['n'] = int(r.choice([10, 50, 130, 250, 420, 700]) if not hyper else r.choice([20, 220, 310]))
    p = gen.problem(r, mt, **kw)
    if case.get('default'):
        from mon import oracle
        p.params['prior'], p.prior = None, oracle.default_prior(p.kind, len(p.X), p.k)
    if case.get('opt') == 'none':
        p.params['optimizer'] = None
    X, y = p.X, p.y
    info = dict(problem=p.describe())
    Xs = {'dense': X, 'csr': csr_matrix(X), 'csc': csc_matrix(X), 'frame': pd.DataFrame(X), 'list': X.tolist(), 'int': None}
    form = r.choice(['dense', 'csr', 'csc', 'frame', 'list']) if not hyper else r.choice(['dense', 'dense', 'csr', 'csc'])
    Xf = Xs[form]
    if form in ('csr', 'csc') and r.random() < .6:
        # entries in any order, or given as sums
        form += str(r.choice([' unsorted', ' repeated']))
        Xf = c06.sparse_form(form, X)
        rec.event('odd_sparse_inputs')
    before = settings()
    ys = [y, y.astype(float), y.tolist(), pd.Series(y)]
    yf = ys[r.integers(len(ys))]

    def fit(m, X_=None, y_=None):
        rec.event('fits')
        rec.event('hyper_fits', hyper)
        return rec.api('fit', m.fit, Xf if X_ is None else X_, yf if y_ is None else y_)

    def equal(a, b):
        return view.same(view.signature(a), view.signature(b))

    # --- side effects
    frozen = (freeze(Xf), freeze(yf))
    params = freeze(p.params)
    names = ['f{}'.format(j) for j in range(X.shape[1])]
    m = p.model()
    declared = freeze(m.get_params(deep=False))
    state = rng_state()
    rec.api('fit', m.fit, Xf, yf, feature_names=names)
    rec.event('fits')
    rec.check(rng_state() == state, 'training consumes or reseeds the global random state', **info)
    rec.check((freeze(Xf), freeze(yf)) == frozen, 'training modifies its input', form=str(form), **info)
    rec.check(freeze(p.params) == params, 'training modifies the parameter objects it was given', before=params,
              after=freeze(p.params), **info)
    rec.check(freeze(m.get_params(deep=False)) == declared, 'training changes the parameters of the model', **info)
    rec.check(names == ['f{}'.format(j) for j in range(X.shape[1])], 'training modifies the feature names', **info)
    rec.event('frozen_inputs')
    after = settings()
    rec.check(after == before, 'training changes a global setting', changed={k: (before[k], after[k]) for k in before if before[k] != after[k]}, **info)
    sig = view.signature(m)
    if len(sig) > 1:
        rec.event('split_trees')
    # --- queries do not change anything
    Q = gen.queries(r, X, view.tree(m), 12)
    q0 = freeze(Q)
    for sparse in ('csr', 'csc', 'csr unsorted', 'csc unsorted', 'csr repeated', 'csc repeated'):
        Qs = c06.sparse_form(sparse, Q)
        s0 = freeze(Qs)
        rec.api('predict ' + sparse, m.predict, Qs)
        if p.kind == 'cls':
            rec.api('predict_proba ' + sparse, m.predict_proba, Qs)
        if not hyper:
            rec.api('prediction_paths ' + sparse, m.prediction_paths, Qs)
        rec.check(freeze(Qs) == s0, 'a query modifies its input', form=sparse, **info)
        rec.event('frozen_queries')
    for _ in range(2):
        a = rec.api('predict', m.predict, Q)
        if p.kind == 'cls':
            rec.api('predict_proba', m.predict_proba, Q)
        if not hyper:
            rec.api('prediction_paths', m.prediction_paths, Q)
        rec.api('feature_importance', m.feature_importance)
        rec.api('text', str, m)
        m.get_depth(), m.get_n_leaves()
    b = rec.api('predict', m.predict, Q)
    rec.check(np.array_equal(a, b), 'repeated prediction differs', **info)
    a *= 0
    rec.check(np.array_equal(m.predict(Q), b), 'the returned array is shared with the model', **info)
    if p.kind == 'cls':
        pr = m.predict_proba(Q)
        keep = pr.copy()
        pr *= 0
        rec.check(np.array_equal(m.predict_proba(Q), keep), 'the returned probabilities are shared with the model', **info)
    fi = m.feature_importance()
    keep = fi.copy()
    fi += 1
    rec.check(np.array_equal(m.feature_importance(), keep), 'the returned importances are shared with the model', **info)
    rec.check(freeze(Q) == q0 and view.signature(m) == sig and rng_state() == state, 'a query has side effects', **info)
    after = settings()
    rec.check(after == before, 'a query changes a global setting', changed={k: (before[k], after[k]) for k in before if before[k] != after[k]}, **info)
    # --- the model does not depend on what happens to the training data afterwards
    Xc, yc = np.array(X, copy=True), np.array(p.y, dtype=float)
    m2 = fit(p.model(), Xc, yc)
    s2 = view.signature(m2)
    pred = m2.predict(Q)
    Xc[:] = 0
    yc[:] = 0
    rec.check(view.signature(m2) == s2 and np.array_equal(m2.predict(Q), pred), 'the model changes with the caller\'s data', **info)
    # --- determinism, with other global random states
    for s in (0, 99):
        np.random.seed(s)
        random.seed(s)
        again = fit(p.model())
        rec.check(equal(m, again) or named(m, again), 'training twice gives different models', first=view.describe(m), second=view.describe(again), **info)
    # --- refit forgets
    other = gen.problem(r, mt, xkind='cont', n=int(r.choice([3, 20, 60]) if not case.get('default') else r.choice([30, 210, 500])), d=int(r.integers(2, 6)),
                        k=p.k if p.kind == 'cls' and p.params['prior'] is not None or r.random() < .4 else int(r.choice([1, 2, 3, 5, 8])),
                        optimizer=p.params.get('optimizer') or (gen.make_optimizer(r, name='random') if hyper else None))
    const = np.zeros(len(p.y))
    for step in range(4):
        used = p.model()
        rec.event('other_number_of_classes', int(step == 0 and p.kind == 'cls' and other.k != p.k and p.params['prior'] is None))
        try:
            if step == 0 and (p.kind == 'reg' or p.params['prior'] is None or other.k == p.k):
                used.fit(other.X, other.y)
            elif step == 3 and (p.kind == 'reg' or r.random() < .6):
                # the same rows several times over, or many of them left out
                rows = np.tile(np.arange(len(p.y)), int(r.choice([2, 5]))) if len(p.y) < 100 or r.random() < .4 else np.arange(0, len(p.y), int(r.choice([2, 4])))
                used.fit(X[rows], p.y[rows])
                rec.event('refits_after_other_sizes')
            elif step == 1 and p.kind == 'reg':
                used.fit(X, const)
            else:
                used.fit(X, p.y[::-1].copy())
        except ValueError:
            rec.event('skipped_refits')
            continue
        used.predict(used_data(used))
        Qu = np.array(Q if used.n_dim_ == Q.shape[1] else gen.queries(r, other.X, view.tree(used), 12))
        if r.random() < .1:
            Qu = np.tile(Qu, (1500 // len(Qu) + 1, 1))
        used.predict(Qu)
        if p.kind == 'cls':
            used.predict_proba(Qu)
        fit(used)
        rec.event('refits')
        if len(sig) > 1:
            rec.nontrivial((case['i'], step))
        fresh = fit(p.model())
        rec.check(equal(used, fresh), 'a refitted model differs from a fresh one', step=step, refit=view.describe(used),
                  fresh=view.describe(fresh), **info)
        if Qu.shape[1] == used.n_dim_:
            near = view.route(view.tree(fresh), Qu)[1]
            for name in ['predict'] + ['predict_proba'] * (p.kind == 'cls'):
                a, b = getattr(used, name)(Qu), getattr(fresh, name)(Qu.copy())
                rec.check(a.shape == b.shape and np.allclose(a[~near], b[~near], rtol=1e-9), 'a refitted model answers differently from a fresh one',
                          query=name, step=step, shapes=(a.shape, b.shape), **info)
                rec.event('refit_answers')
        rec.check(np.allclose(used.feature_importance(), fresh.feature_importance(), rtol=1e-7, atol=1e-9), 'importance after refit', **info)
        rec.check(str(used) == str(fresh) or hyper, 'text after refit', **info)
        rec.check(used.get_depth() == fresh.get_depth() and used.get_n_leaves() == fresh.get_n_leaves(), 'depth after refit', **info)
    # --- a shared optimizer / prior object has no memory
    if hyper and p.params['optimizer'] is not None:
        o = p.params['optimizer']
        fresh_o = copy.deepcopy(o)
        a = fit(p.model())
        b = fit(p.model(optimizer=fresh_o))
        rec.check(equal(a, b), 'an optimizer object remembers earlier use', optimizer=str(o), **info)
        rec.event('shared_optimizers')
    rec.sample({'case': case, 'form': str(form), 'params': str(p.params), 'tree': view.describe(m, 200)})


def used_data(m):
    return np.zeros((1, m.n_dim_))


def named(a, b):
    """same up to feature names (the first model was trained with names)"""
    sa = [s[:6] if len(s) < 7 else s[:6] for s in view.signature(a)]
    sb = [s[:6] if len(s) < 7 else s[:6] for s in view.signature(b)]
    return view.same(sa, sb)


def freeze_result(v):
    """comparable copy of anything a query returns"""
    return ('array', v.shape, v.dtype.str, v.tobytes()) if isinstance(v, np.ndarray) else repr(v)
