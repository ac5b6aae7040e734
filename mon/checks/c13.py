"""C13: the models are proper scikit-learn estimators: clone, parameters, persistence, selection, pipelines."""
import copy
import pickle

import numpy as np
import pandas as pd
from sklearn.base import clone, is_classifier, is_regressor
from sklearn import metrics
from sklearn.calibration import CalibratedClassifierCV
from sklearn.compose import TransformedTargetRegressor
from sklearn.ensemble import (AdaBoostRegressor, BaggingClassifier, BaggingRegressor, StackingClassifier, StackingRegressor, VotingClassifier,
                              VotingRegressor)
from sklearn.exceptions import NotFittedError
from sklearn.inspection import partial_dependence, permutation_importance
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import GridSearchCV, KFold, StratifiedKFold, cross_val_predict, cross_val_score
from sklearn.multiclass import OneVsRestClassifier
from sklearn.multioutput import MultiOutputRegressor
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.utils.validation import check_is_fitted

from mon import gen, view

RULE = ('random estimators are cloned, re-parameterised, pickled, copied, cross-validated, searched and put into '
        'pipelines, each compared with doing the same by hand; non-trivial = comparison on a tree with a split; distinct by (case, step)')
MINIMUM = {'steps': 2500, 'split_trees': 150, 'cv_folds': 400, 'searches': 60, 'pickles': 300}


def plan(tier, seed):
    f = 1 if tier == 'quick' else 25
    return gen.plan(seed, [(90 * f, {'mt': 'PC'}), (90 * f, {'mt': 'PR'}), (60 * f, {'mt': 'HC'}), (60 * f, {'mt': 'HR'}), (1, {'mt': 'PC', 'what': 'known'})])


def known(rec):
    """deep trees are pickled and copied; listed finding: copy.deepcopy exceeds the recursion limit at some 250 levels"""
    from bayesian_decision_tree.classification import PerpendicularClassificationTree
    for n, limited in ((100, False), (150, False), (500, True)):
        X, y = np.arange(n, dtype=float)[:, None], np.arange(n) % 2
        m = PerpendicularClassificationTree(1 - 1e-9, [.01, .01]).fit(X, y)
        for what, fn in (('pickle', lambda o: pickle.loads(pickle.dumps(o))), ('copy', copy.copy), ('deepcopy', copy.deepcopy)):
            try:
                q = fn(m)
            except RecursionError:
                if limited and what == 'deepcopy':
                    rec.known.append('deepcopy-recursion')
                else:
                    rec.violation('a tree of moderate depth cannot be copied', how=what, depth=m.get_depth())
                continue
            rec.event('pickles')
            rec.check(np.array_equal(q.predict(X), y) and q.get_depth() == m.get_depth(), 'a copied deep model differs', how=what, n=n)
            if not limited:
                same = {'importance': np.array_equal(q.feature_importance(), m.feature_importance()), 'text': str(q) == str(m),
                        'probabilities': np.array_equal(q.predict_proba(X), m.predict_proba(X)), 'leaves': q.get_n_leaves() == m.get_n_leaves(),
                        'paths': list(map(str, q.prediction_paths(X))) == list(map(str, m.prediction_paths(X))),
                        'state': view.same(view.signature(q), view.signature(m))}
                rec.check(all(same.values()), 'a copied deep model answers differently', how=what, n=n, same=same)


def eq(a, b):
    if hasattr(a, 'solve'):
        return type(a) is type(b) and str(a) == str(b)
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


def run(case, rec):
    if case.get('what') == 'known':
        return known(rec)
    r = gen.rng(case)
    mt = case['mt']
    kw = {}
    hyper = mt[0] == 'H'
    if hyper:
        kw['optimizer'] = gen.make_optimizer(r, mt == 'HC', name=r.choice(['random', 'quasi', 'two'] if mt == 'HC' else ['random', 'quasi']))
    n = gen.sometimes(r, [30, 60], [130, 270])
    k = int(r.integers(2, 4)) if mt[1] == 'C' else None
    X = gen.make_X(r, 'cont' if hyper else r.choice(['cont', 'grid', 'mixed', 'int']), n, gen.sometimes(r, [2, 3, 4], [9, 12]))
    y = None
    if mt[1] == 'C':
        y = np.argsort(np.argsort(X @ r.normal(0, 1, X.shape[1]))) * k // n
        y = np.where(r.random(n) < .1, r.integers(0, k, n), y)
        y[:3 * k] = np.tile(np.arange(k), 3)
    p = gen.problem(r, mt, X=X, y=y, k=k, pp=float(r.choice([.9, .99])), **kw)
    X, y = p.X, p.y
    info = dict(problem=p.describe())
    m = p.model()

    def step(name):
        rec.event('steps')
        if splits:
            rec.nontrivial((case['i'], name))

    # --- parameters
    P = m.get_params()
    expected = {'partition_prior', 'prior', 'delta', 'prune', 'split_precision', 'level'} | ({'optimizer'} if hyper else set())
    rec.check(set(P) == expected, 'get_params', got=sorted(P), **info)
    rec.check(all(eq(P[k_], v) or P[k_] is v for k_, v in p.params.items()), 'constructor arguments are not kept as given', got=P, **info)
    fitted = rec.api('fit', m.fit, X, y)
    splits = m.get_n_leaves() > 1
    if splits:
        rec.event('split_trees')
    rec.check(fitted is m, 'fit does not return self', **info)
    step('params')
    P2 = m.get_params()
    rec.check(all(eq(P[k_], P2[k_]) for k_ in P), 'fit changes parameters', before=P, after=P2, **info)
    rec.check(is_classifier(m) == (p.kind == 'cls') and is_regressor(m) == (p.kind == 'reg'), 'estimator type', **info)
    Q = gen.queries(r, X, view.tree(m), 20)
    if hyper:
        Q = Q[~view.route(view.tree(m), Q)[1]]
    fn = 'predict_proba' if p.kind == 'cls' else 'predict'
    ref = getattr(m, fn)(Q)
    # --- clone
    c = rec.api('clone', clone, m)
    step('clone')
    rec.check(not c.is_fitted() and type(c) is type(m), 'a clone is fitted', **info)
    rec.check(all(eq(P[k_], c.get_params()[k_]) for k_ in P), 'a clone has other parameters', got=c.get_params(), **info)
    rec.api('fit clone', c.fit, X, y)
    rec.check(view.same(view.signature(c), view.signature(m)), 'a clone trains to another model', **info)
    rec.check(np.array_equal(getattr(m, fn)(Q), ref), 'training a clone changes the original', **info)
    # --- set_params
    for key, value in (('partition_prior', .3), ('delta', .7), ('prune', True), ('split_precision', .25), ('prior', None)):
        s = rec.api('set_params', p.model().set_params, **{key: value})
        step('set_' + key)
        rec.check(s.get_params()[key] is value or s.get_params()[key] == value, 'set_params is not kept', key=key, **info)
        a = rec.api('fit', s.fit, X, y)
        b = rec.api('fit', p.model(**{key: value}).fit, X, y)
        rec.check(view.same(view.signature(a), view.signature(b)), 'set_params is not the same as constructing with it', key=key,
                  **info)
        # on a fitted model the new parameter takes effect at the next fit, and the old ones are forgotten
        t = p.model().fit(X, y).set_params(**{key: value})
        rec.check(np.array_equal(getattr(t, fn)(Q).shape, ref.shape), 'prediction after set_params', **info)
        rec.api('refit', t.fit, X, y)
        rec.check(view.same(view.signature(t), view.signature(b)), 'a refit after set_params differs from a fresh fit', key=key, **info)
    rec.expect_error('unknown parameter', ValueError, p.model().set_params, no_such_parameter=1)
    # --- persistence
    for what, copyfn in (('pickle', lambda o: pickle.loads(pickle.dumps(o))), ('deepcopy', copy.deepcopy), ('copy', copy.copy),
                         ('pickle 2', lambda o: pickle.loads(pickle.dumps(o, protocol=2)))):
        q = rec.api(what, copyfn, m)
        rec.event('pickles')
        step(what)
        rec.check(np.array_equal(getattr(q, fn)(Q), ref), 'a copied model predicts differently', how=what, **info)
        rec.check(str(q) == str(m) and np.array_equal(q.feature_importance(), m.feature_importance())
                  and q.get_depth() == m.get_depth() and q.get_n_leaves() == m.get_n_leaves(), 'a copied model differs', how=what, **info)
        rec.check(view.signature(q) == view.signature(m), 'a copied model is another tree', how=what, **info)
        if what == 'deepcopy':
            q.fit(X[::2], y[::2] if p.kind == 'reg' or len(np.unique(y[::2])) == p.k else y[::2] * 0) if p.kind == 'reg' else None
            rec.check(np.array_equal(getattr(m, fn)(Q), ref), 'training a copy changes the original', **info)
    u = pickle.loads(pickle.dumps(p.model()))
    rec.check(not u.is_fitted(), 'an unfitted model is unfitted after pickling', **info)
    # --- score
    pred = m.predict(X)
    rec.check(abs(m.score(X, y) - (accuracy_score(y, pred) if p.kind == 'cls' else r2_score(y, pred))) < 1e-12, 'score', **info)
    w = r.random(len(y))
    rec.check(abs(m.score(X, y, sample_weight=w) - (accuracy_score(y, pred, sample_weight=w) if p.kind == 'cls'
                                                      else r2_score(y, pred, sample_weight=w))) < 1e-12, 'weighted score', **info)
    step('score')
    # --- cross validation, search, pipeline
    cv = StratifiedKFold(3, shuffle=True, random_state=1) if p.kind == 'cls' else KFold(3, shuffle=True, random_state=1)
    mine = []
    for tr, te in cv.split(X, y):
        f = p.model().fit(X[tr], y[tr])
        mine.append(f.score(X[te], y[te]))
        rec.event('cv_folds')
    got = rec.api('cross_val_score', cross_val_score, p.model(), X, y, cv=cv, error_score='raise')
    step('cv')
    near = hyper and p.kind == 'cls'
    rec.check(np.allclose(got, mine, atol=1e-9) or near and np.abs(got - mine).max() < .2, 'cross_val_score differs from '
              'cross-validating by hand', got=got, expected=mine, **info)
    got = rec.api('cross_val_predict', cross_val_predict, m, X, y, cv=cv)
    rec.check(len(got) == len(y), 'cross_val_predict', **info)
    got = rec.api('cross_val_score on a frame', cross_val_score, p.model(), pd.DataFrame(X), pd.Series(y), cv=cv, error_score='raise')
    rec.check(np.allclose(got, mine, atol=1e-9) or near and np.abs(got - mine).max() < .2, 'cross-validation of a frame', **info)
    if r.random() < .5:
        grid = {'partition_prior': [.2, .9], 'delta': [0, .5]}
        gs = rec.api('GridSearchCV', GridSearchCV(p.model(), grid, cv=cv, error_score='raise').fit, X, y)
        rec.event('searches')
        step('grid')
        best = p.model(**gs.best_params_).fit(X, y)
        rec.check(view.same(view.signature(best), view.signature(gs.best_estimator_)), 'grid search refit', **info)
        rec.check(np.array_equal(gs.predict(X), gs.best_estimator_.predict(X)), 'grid search predict', **info)
    pipe = rec.api('pipeline', make_pipeline(StandardScaler(), p.model()).fit, X, y)
    Z = StandardScaler().fit_transform(X)
    hand = p.model().fit(Z, y)
    step('pipeline')
    rec.check(view.same(view.signature(hand), view.signature(pipe[-1])), 'a pipeline trains another model', **info)
    rec.check(np.allclose(pipe.predict(X), hand.predict(Z)), 'a pipeline predicts differently', **info)
    tools(case, rec, r, p, step, info, near)
    if p.kind == 'reg' and not hyper:
        bag = rec.api('bagging', BaggingRegressor(p.model(), n_estimators=3, random_state=0).fit, X, y)
        step('bagging')
        rec.check(np.allclose(bag.predict(X), np.mean([e.predict(X[:, f]) for e, f in zip(bag.estimators_, bag.estimators_features_)],
                                                       axis=0)), 'bagging', **info)
    rec.sample({'case': case, 'params': str(p.params), 'leaves': m.get_n_leaves()})


METRICS = {'accuracy': (metrics.accuracy_score, 'predict'), 'balanced_accuracy': (metrics.balanced_accuracy_score, 'predict'),
           'f1_macro': (lambda t, q: metrics.f1_score(t, q, average='macro'), 'predict'),
           'neg_log_loss': (lambda t, q: -metrics.log_loss(t, q, labels=np.arange(q.shape[1])), 'predict_proba'),
           'roc_auc': (lambda t, q: metrics.roc_auc_score(t, q[:, 1]), 'predict_proba'),
           'neg_brier_score': (lambda t, q: -metrics.brier_score_loss(t, q[:, 1]), 'predict_proba'),
           'r2': (metrics.r2_score, 'predict'), 'neg_mean_squared_error': (lambda t, q: -metrics.mean_squared_error(t, q), 'predict'),
           'neg_median_absolute_error': (lambda t, q: -metrics.median_absolute_error(t, q), 'predict')}


def tools(case, rec, r, p, step, info, near):
    """scorers, voting, bagging, calibration, stacking, inspection: each against the same work done by hand"""
    X, y = p.X, p.y
    n = len(y)
    cls = p.kind == 'cls'
    cv = StratifiedKFold(3, shuffle=True, random_state=1) if cls else KFold(3, shuffle=True, random_state=1)

    def close(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        # a row within rounding of a hyperplane may be predicted by the other side when it comes in another batch
        return a.shape == b.shape and (np.allclose(a, b, atol=1e-9) or near and np.mean(np.abs(a - b) > 1e-9) < .1)

    m = p.model().fit(X, y)
    if cls:
        c = rec.api('classes_', getattr, m, 'classes_')
        rec.check(np.array_equal(c, np.arange(p.k)), 'classes_ are not the classes', got=c, **info)
        # (integers: other components of scikit-learn count predictions)
        rec.check(np.array_equal(np.bincount(rec.api('predict', m.predict, X), minlength=p.k).shape, (p.k,)), 'predicted classes', **info)
    rec.api('check_is_fitted', check_is_fitted, m)
    try:
        check_is_fitted(p.model())
        rec.violation('an untrained model is taken for a fitted one', **info)
    except NotFittedError:
        pass
    names = (['accuracy', 'balanced_accuracy', 'f1_macro', 'neg_log_loss'] + (['roc_auc', 'neg_brier_score'] if p.k == 2 else [])
             if cls else ['r2', 'neg_mean_squared_error', 'neg_median_absolute_error'])
    name = str(r.choice(names))
    metric, method = METRICS[name]
    folds = [(te, p.model().fit(X[tr], y[tr])) for tr, te in cv.split(X, y)]
    mine = [metric(y[te], getattr(f, method)(X[te])) for te, f in folds]
    got = rec.api('cross_val_score ' + name, cross_val_score, p.model(), X, y, cv=cv, scoring=name, error_score='raise')
    step('scorer ' + name)
    rec.check(np.allclose(got, mine, atol=1e-9) or near and np.abs(got - mine).max() < .5, 'a scorer of scikit-learn differs from the metric by hand',
              scorer=name, got=got, expected=mine, **info)
    method = str(r.choice(['predict', 'predict_proba'])) if cls else 'predict'
    got = rec.api('cross_val_predict', cross_val_predict, p.model(), X, y, cv=cv, method=method)
    step('cvp ' + method)
    want = np.zeros_like(got)
    for te, f in folds:
        want[te] = getattr(f, method)(X[te])
    rec.check(close(got, want), 'cross_val_predict differs from cross-validating by hand', method=method, **info)
    a, b, c = p.model(), p.model(partition_prior=.5), p.model(delta=.25)
    A, B, C = (clone(q).fit(X, y) for q in (a, b, c))
    named = [('a', a), ('b', b), ('c', c)]
    what = str(r.choice(['voting', 'bagging', 'inspect', 'stacking', 'other']))
    rec.event('tools_' + what)
    step('tool ' + what)
    if what == 'voting' and cls:
        hard = rec.api('hard voting', VotingClassifier(named).fit, X, y)
        votes = np.stack([q.predict(X).astype(int) for q in (A, B, C)])
        rec.check(close(rec.api('predict', hard.predict, X), [np.bincount(v, minlength=p.k).argmax() for v in votes.T]), 'hard voting', **info)
        soft = rec.api('soft voting', VotingClassifier(named, voting='soft').fit, X, y)
        rec.check(close(rec.api('predict_proba', soft.predict_proba, X), np.mean([q.predict_proba(X) for q in (A, B, C)], axis=0)), 'soft voting', **info)
    elif what == 'voting':
        v = rec.api('voting', VotingRegressor(named).fit, X, y)
        rec.check(close(v.predict(X), np.mean([q.predict(X) for q in (A, B, C)], axis=0)), 'voting', **info)
    elif what == 'bagging' and cls:
        # (each sub-sample has to contain all classes)
        bag = BaggingClassifier(p.model(), n_estimators=3, max_samples=n - 2, bootstrap=False, max_features=min(2, X.shape[1]), random_state=0)
        rec.api('bagging', bag.fit, X, y)
        rec.check(close(bag.predict_proba(X), np.mean([e.predict_proba(X[:, f]) for e, f in zip(bag.estimators_, bag.estimators_features_)], axis=0)),
                  'bagging', **info)
    elif what == 'bagging':
        ada = rec.api('boosting', AdaBoostRegressor(p.model(), n_estimators=2, random_state=0).fit, X, y)
        rec.check(np.all(np.isfinite(ada.predict(X))), 'boosting', **info)
    elif what == 'inspect':
        res = rec.api('permutation_importance', permutation_importance, m, X, y, n_repeats=2, random_state=0)
        used = m.feature_importance() != 0
        rec.check(np.all(res.importances[~used] == 0) or near, 'a feature without importance influences predictions', got=res.importances, **info)
        j = int(r.integers(X.shape[1]))
        grid = partial_dependence(m, X, [j], grid_resolution=5)
        values = grid['grid_values'][0] if 'grid_values' in grid else grid['values'][0]
        want = []
        for v in values:
            Z = X.copy()
            Z[:, j] = v
            want.append(m.predict_proba(Z)[:, 1].mean() if cls and p.k == 2 else m.predict_proba(Z).mean(axis=0) if cls else m.predict(Z).mean())
        got = grid['average']
        rec.check(close(got.T if cls and p.k > 2 else got[0], want), 'partial dependence', got=got, expected=want, **info)
    elif what == 'stacking':
        if cls:
            s = rec.api('stacking', StackingClassifier(named[:2], final_estimator=p.model(prior=None, partition_prior=.9), cv=cv).fit, X, y)
            rec.check(set(s.predict(X)) <= set(range(p.k)), 'stacking', **info)
        else:
            s = rec.api('stacking', StackingRegressor(named[:2], final_estimator=p.model(), cv=cv).fit, X, y)
            rec.check(np.all(np.isfinite(s.predict(X))), 'stacking', **info)
    elif cls:
        cal = rec.api('calibration', CalibratedClassifierCV(p.model(), cv=cv).fit, X, y)
        q = cal.predict_proba(X)
        rec.check(q.shape == (n, p.k) and np.allclose(q.sum(axis=1), 1), 'calibration', **info)
        if p.k > 2 and p.prior is None:
            ovr = rec.api('one against rest', OneVsRestClassifier(p.model()).fit, X, y)
            hand = [p.model().fit(X, (y == i).astype(int)).predict_proba(X)[:, 1] for i in range(p.k)]
            rec.check(close(ovr.predict(X), np.argmax(hand, axis=0)), 'one against rest', **info)
    else:
        t = rec.api('transformed target', TransformedTargetRegressor(p.model(), func=lambda v: 2 * v + 1, inverse_func=lambda v: (v - 1) / 2, check_inverse=False).fit, X, y)
        hand = p.model().fit(X, 2 * y + 1)
        rec.check(close(t.predict(X), (hand.predict(X) - 1) / 2), 'transformed target', **info)
        mo = rec.api('several outputs', MultiOutputRegressor(p.model()).fit, X, np.c_[y, -y])
        rec.check(close(mo.predict(X), np.c_[m.predict(X), p.model().fit(X, -y).predict(X)]), 'several outputs', **info)
