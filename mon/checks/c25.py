"""C25: a fitted model owns its state: changing inputs or results afterwards does not change it."""
import copy

import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from mon import gen, view
from mon.checks import c12, c23

RULE = ('after training, everything that was handed in (features, targets, names, prior, optimizer) and everything that was handed out '
        '(predictions, probabilities, paths, importances, parameters) is overwritten in place, in random order, between queries; all '
        'answers must stay the same; non-trivial = overwritten object of a tree with a split; distinct by (case, object)')
MINIMUM = {'overwritten_inputs': 1500, 'overwritten_results': 1500, 'split_trees': 250, 'hyper_trees': 60, 'kept_results': 1000,
           'array_priors': 100}
ASSUMPTIONS = []


def plan(tier, seed):
    f = 2 if tier == 'quick' else 30
    return gen.plan(seed, [(130 * f, {'mt': 'PC'}), (130 * f, {'mt': 'PR'}), (50 * f, {'mt': 'HC'}), (50 * f, {'mt': 'HR'})])


def overwrite(obj, r):
    """changes an object in place as far as possible; False if it cannot be changed"""
    if isinstance(obj, np.ndarray):
        if not obj.flags.writeable:
            return False
        obj[...] = 'changed' if obj.dtype.kind in 'USO' else 0 if r.random() < .5 else (r.random(obj.shape) * 7).astype(obj.dtype)
    elif isinstance(obj, pd.DataFrame):
        for c in obj.columns:
            obj[c] = r.random(len(obj))
    elif isinstance(obj, pd.Series):
        obj[:] = 0
    elif hasattr(obj, 'toarray'):
        obj.data[:] = r.random(obj.data.shape)
        obj.indices[:] = 0
        obj.indptr[:] = 0
    elif isinstance(obj, list):
        for i in range(len(obj)):
            if isinstance(obj[i], list):
                overwrite(obj[i], r)
            else:
                obj[i] = 'changed' if isinstance(obj[i], str) else .125
        if r.random() < .3:
            obj.clear()
    elif hasattr(obj, 'solve'):
        for k, v in list(vars(obj).items()):
            if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                setattr(obj, k, int(v) + 3)
    elif isinstance(obj, dict):
        for k in list(obj):
            obj[k] = None
    else:
        return False
    return True


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = {}
    if hyper:
        kw = dict(xkind=str(r.choice(['cont', 'int'])), n=int(r.choice([10, 25, 50])), d=int(r.integers(1, 5)),
                  optimizer=gen.make_optimizer(r, mt == 'HC', name=str(r.choice(['random', 'quasi']))))
    p = gen.problem(r, mt, **kw)
    if p.params['prior'] is not None and r.random() < .6:
        p.params['prior'] = np.array(p.params['prior'], dtype=float)
        rec.event('array_priors')
    X, y = p.X.copy(), p.y
    n, d = X.shape
    forms = {'array': lambda: X.copy(), 'fortran': lambda: np.asfortranarray(X.copy()), 'frame': lambda: pd.DataFrame(X.copy(), columns=['f{}'.format(j) for j in range(d)]),
             'list': lambda: X.tolist(), 'csr': lambda: csr_matrix(X), 'csc': lambda: csc_matrix(X), 'view': lambda: np.repeat(X, 2, axis=0)[::2]}
    form = str(r.choice(list(forms)))
    Xf = forms[form]()
    yf = [lambda: y.astype(float), lambda: y.copy(), lambda: y.tolist(), lambda: pd.Series(y.astype(float)), lambda: y.astype(float)[:, None]][int(r.integers(5))]()
    names = [None, ['n{}'.format(j) for j in range(d)], np.array(['n{}'.format(j) for j in range(d)], dtype=object)][int(r.integers(3))]
    opt = copy.deepcopy(p.params.get('optimizer'))
    prior = copy.deepcopy(p.params['prior'])
    m = p.model(prior=prior, **({'optimizer': opt} if hyper else {}))
    rec.api('fit', m.fit, Xf, yf, feature_names=names)
    info = dict(form=form, problem=p.describe())
    Q = gen.queries(r, p.X, None if hyper else view.tree(m), 15)
    Q = Q[~view.route(view.tree(m), Q)[1]]
    sig = view.signature(m)
    if len(sig) > 1:
        rec.event('split_trees')
    rec.event('hyper_trees', hyper)

    def ask():
        a = c23.ask(m, Q)
        if not hyper:
            a['one path'] = m.prediction_paths(Q[:1])
        return a

    live = ask()
    ref = copy.deepcopy(live)
    # results of other rows must not go through the same memory
    half = copy.deepcopy(Q[: len(Q) // 2])
    as_many = p.X[r.integers(0, n, len(Q))]
    later = [lambda: c23.ask(m, half), lambda: m.predict(Q[:1]), lambda: c23.ask(m, Q[::-1].copy()), lambda: c23.ask(m, as_many)]
    for j in (r.permutation(4) if r.random() < .5 else [3, 2, 1, 0]):
        later[j]()
    for k in ref:
        rec.event('kept_results')
        rec.check(c12.freeze_result(live[k]) == c12.freeze_result(ref[k]), 'a later query changes an earlier result', query=k, **info)

    def unchanged(what):
        got = ask()
        for k in ref:
            if hyper and k == 'text':
                continue
            rec.check(c12.freeze_result(got[k]) == c12.freeze_result(ref[k]), 'overwriting {} changes the answer to {}'.format(what, k), before=ref[k], after=got[k], **info)
        rec.check(view.signature(m) == sig, 'overwriting {} changes the tree'.format(what), **info)

    inputs = {'the features': Xf, 'the targets': yf, 'the names': names, 'the prior': prior, 'the optimizer': opt}
    queue = [('i', k) for k in inputs] + [('r', k) for k in live] + [('r', 'params'), ('r', 'query')]
    for j in r.permutation(len(queue)):
        t, k = queue[j]
        if t == 'i':
            if inputs[k] is None or not overwrite(inputs[k], r):
                continue
            rec.event('overwritten_inputs')
        elif k == 'params':
            overwrite(m.get_params(), r)
        elif k == 'query':
            c = copy.deepcopy(Q)
            a = m.predict(c)
            overwrite(c, r)
            rec.check(c12.freeze_result(a) == c12.freeze_result(ref['predict']), 'overwriting a query changes its result', **info)
        else:
            a = live[k]
            if k in ('paths', 'one path'):
                for path in a:
                    path.clear()
                a.clear()
            elif not overwrite(a, r):
                continue
            rec.event('overwritten_results')
        if len(sig) > 1:
            rec.nontrivial((case['i'], k))
        unchanged(k)
    # results of training do not depend on what was done to the results of earlier training
    m2 = p.model()
    rec.api('fit', m2.fit, p.X, p.y)
    m3 = p.model()
    m3.fit(p.X, p.y)
    rec.check(view.same(view.signature(m2), view.signature(m3)), 'training again gives another tree', **info)
    rec.sample({'case': case, 'form': form, 'nodes': len(sig)})
