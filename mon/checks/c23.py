"""C23: training and queries can be interrupted anywhere and simply be repeated."""
import contextlib
import copy
import io
import sys

import numpy as np
from sklearn.base import clone

from mon import core, gen, view
from mon.checks import c12

RULE = ('training (first, repeated, on other data, verbose or not) and queries are interrupted at a random executed line of the '
        'package, by an exception of the optimizer at a random evaluation, or by a failing standard output, up to three times; '
        'then the same call is repeated and compared with that of an undisturbed model; non-trivial = interruption that was '
        'delivered; distinct by (case, line)')
MINIMUM = {'interrupted_fits': 1200, 'interrupted_queries': 1000, 'interrupted_hyper_fits': 150, 'optimizer_failures': 40,
           'output_failures': 80, 'interrupted_below_root': 300, 'distinct_lines': 150}
ASSUMPTIONS = ['interruptions arrive at line boundaries of the package, or come out of the optimizer or the output stream']
TOOL = sys.monitoring.DEBUGGER_ID


class Stop(BaseException):
    """like KeyboardInterrupt"""


class StopError(Exception):
    """like MemoryError"""


def plan(tier, seed):
    f = 1 if tier == 'quick' else 20
    return gen.plan(seed, [(150 * f, {'mt': 'PC'}), (150 * f, {'mt': 'PR'}), (40 * f, {'mt': 'HC'}), (40 * f, {'mt': 'HR'})])


class Interrupter:
    """counts the executed lines of the package; raises at the k-th one"""
    def __init__(self, at=None, what=Stop):
        self.at, self.what = at, what
        self.n, self.where, self.depth = 0, None, 0

    def on_line(self, code, line):
        if not code.co_filename.startswith(core.PKG):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at:
            self.where = (code.co_filename.rsplit('/', 1)[-1], line)
            f = sys._getframe(1)
            while f is not None:
                self.depth += f.f_code.co_name == '_fit'
                f = f.f_back
            raise self.what('injected')

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'interrupter')
        m.register_callback(TOOL, m.events.LINE, self.on_line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


class Failing(gen.ho.HyperplaneOptimizer):
    """an optimizer that fails at its n-th evaluation, over all nodes"""
    def __init__(self, inner, at):
        super().__init__(inner.search_space_is_unit_hypercube)
        self.inner, self.left = inner, at

    def solve(self, optimization_function):
        inner = self

        class F:
            def compute(self, arg, *a, **k):
                if inner.left is not None:
                    inner.left -= 1
                    if inner.left < 0:
                        raise StopError('optimizer')
                return optimization_function.compute(arg, *a, **k)

            def __getattr__(self, name):
                return getattr(optimization_function, name)

        self.inner.solve(F())


class BrokenPipe(io.StringIO):
    def __init__(self, at):
        super().__init__()
        self.at = at

    def write(self, s):
        self.at -= 1
        if self.at < 0:
            raise StopError('output')
        return len(s)


def run(case, rec):
    r = gen.rng(case)
    mt = case['mt']
    hyper = mt[0] == 'H'
    kw = dict(n=int(r.choice([12, 30, 60])), how='deep' if r.random() < .5 else None)
    if hyper:
        kw.update(d=int(r.integers(2, 4)), xkind=r.choice(['cont', 'dup']),
                  optimizer=gen.make_optimizer(r, mt == 'HC', name=str(r.choice(['random', 'quasi', 'random', 'quasi', 'de', 'sa', 'gd'] +
                                                                                (['two'] if mt == 'HC' else [])))))
    p = gen.problem(r, mt, **kw)
    other = gen.problem(r, mt, X=gen.make_X(r, 'cont', int(r.integers(8, 40)), p.X.shape[1] if r.random() < .5 else int(r.integers(2, 5))),
                        k=p.k, **({'optimizer': p.params['optimizer']} if hyper else {}))
    if p.kind == 'cls':
        other = None if other.k != p.k else other
    ref = rec.api('fit', p.model().fit, p.X, p.y)
    sig = view.signature(ref)
    Q = gen.queries(r, p.X, None if hyper else view.tree(ref), 12)
    Q = Q[~view.route(view.tree(ref), Q)[1]]
    answers = ask(ref, Q)
    info = dict(problem=p.describe())
    shared = {'X': p.X, 'y': p.y, 'prior': p.params['prior'], 'optimizer': p.params.get('optimizer')}
    frozen = c12.freeze(shared)
    verbose = bool(r.random() < .4)

    def fit(m, X=p.X, y=p.y, out=None):
        with contextlib.redirect_stdout(out or io.StringIO()):
            return m.fit(X, y, verbose=verbose or out is not None)

    def interrupted(what, call, *args, n=None, **kwargs):
        """True if the interruption was delivered; it must come out as it is"""
        kind = Stop if r.random() < .5 else StopError
        # lines of deep nodes, of the beginning and of the end
        at = 1 + int(n * (r.random() if r.random() < .8 else r.random() ** 4 if r.random() < .5 else 1 - r.random() ** 4))
        i = Interrupter(min(at, n), kind)
        state = np.random.get_state()[1].tobytes()
        try:
            with i:
                call(*args, **kwargs)
        except (Stop, StopError) as e:
            rec.check(type(e) is kind, 'another exception than the one that interrupted ' + what, **info)
        except Exception as e:
            rec.violation('{} turns an interruption into {}: {}'.format(what, type(e).__name__, e), line=i.where, **info)
        else:
            rec.check(i.where is None, what + ' swallows an interruption', line=i.where, **info)
        if i.where is None:
            rec.event('not_delivered')
            return False
        rec.nontrivial((case['i'], i.where))
        if i.where not in _seen:
            _seen.add(i.where)
            rec.event('distinct_lines')
        rec.check(np.random.get_state()[1].tobytes() == state, 'an interrupted call changes the global random state', **info)
        return i

    with Interrupter() as dry:
        fit(p.model())
    n_fit = dry.n
    # ---- training
    for _ in range(4 if hyper else 6):
        m = p.model()
        history = str(r.choice(['fresh', 'fitted', 'other'] if other is not None else ['fresh', 'fitted']))
        if history == 'fitted':
            fit(m)
        elif history == 'other':
            fit(m, other.X, other.y)
        how = str(r.choice(['line', 'line', 'line', 'output', 'optimizer'] if hyper else ['line', 'line', 'line', 'output']))
        for _ in range(int(r.integers(1, 4))):
            if how == 'line':
                i = interrupted('training', fit, m, n=n_fit)
                if i:
                    rec.event('interrupted_fits')
                    rec.event('interrupted_hyper_fits', hyper)
                    rec.event('interrupted_below_root', i.depth > 1)
            elif how == 'output':
                try:
                    fit(m, out=BrokenPipe(int(r.integers(0, 2 * len(sig)))))
                except StopError:
                    rec.event('output_failures')
                    rec.event('interrupted_fits')
            else:
                # the optimizer of the model fails, at most once
                m.set_params(optimizer=Failing(p.params['optimizer'], int(r.integers(0, 150))))
                try:
                    fit(m)
                except StopError:
                    rec.event('optimizer_failures')
                    rec.event('interrupted_fits')
                m.optimizer.left = None
        rec.check(c12.freeze(shared) == frozen, 'interrupted training changes its arguments', history=history, how=how, **info)
        after = str(r.choice(['fit', 'fit', 'clone', 'copy']))
        if after == 'clone':
            m = rec.api('clone', clone, m)
        elif after == 'copy':
            m = rec.api('copy', copy.deepcopy, m)
        rec.api('training after an interruption', fit, m)
        rec.check(view.same(view.signature(m), sig), 'training after an interruption gives another tree', history=history, how=how,
                  after=after, undisturbed=view.describe(ref), got=view.describe(m), **info)
        got = ask(m, Q)
        for k in answers:
            rec.check(equal(got[k], answers[k]), k + ' after an interrupted training', history=history, how=how, after=after,
                      undisturbed=answers[k], got=got[k], **info)
    # ---- other models that share the objects
    m = rec.api('fit', p.model().fit, p.X, p.y)
    rec.check(view.same(view.signature(m), sig), 'interrupted training changes the tree of another model', **info)
    # ---- queries
    m = ref
    for k in list(answers):
        with Interrupter() as dry:
            ask(m, Q, k)
        if dry.n == 0:
            continue
        for _ in range(2):
            if interrupted(k, ask, m, Q, k, n=dry.n):
                rec.event('interrupted_queries')
            rec.check(equal(ask(m, Q, k)[k], answers[k]), 'another answer after an interrupted query', query=k, **info)
    got = ask(m, Q)
    rec.check(all(equal(got[k], answers[k]) for k in answers) and view.same(view.signature(m), sig),
              'an interrupted query changes the model', **info)
    rec.sample({'case': case, 'lines_of_training': n_fit, 'nodes': len(sig), 'verbose': verbose})


_seen = set()


def ask(m, Q, only=None):
    fns = {'predict': lambda: m.predict(Q), 'importance': m.feature_importance, 'depth': m.get_depth, 'leaves': m.get_n_leaves,
           'text': lambda: str(m)}
    if view.is_cls(m):
        fns['proba'] = lambda: m.predict_proba(Q)
    if not view.is_hyper(m):
        fns['paths'] = lambda: m.prediction_paths(Q)
    return {k: f() for k, f in fns.items() if only is None or k == only}


def equal(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)
    if isinstance(a, str):
        return True   # numbers of hyperplanes are printed to the last digit; the trees are compared in full
    return a == b
