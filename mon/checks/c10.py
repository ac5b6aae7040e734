"""C10: depth, number of leaves, printed tree and training log describe the fitted tree."""
import contextlib
import io
import re

import numpy as np
import pandas as pd

from mon import gen, view
from mon.checks import c07

RULE = ('random models, fitted silently and verbosely; the printed text is parsed line by line against the tree, the '
        'training log against the nodes that had to be trained; non-trivial = tree with depth >= 2; distinct by case')
MINIMUM = {'odd_names': 60, 'wide_problems': 10, 'trees': 600, 'depth_ge_2': 200, 'lines': 3000, 'log_lines': 1500, 'large_leaves': 8}


def plan(tier, seed):
    f = 7 if tier == 'quick' else 60
    return gen.plan(seed, [(150 * f, {'mt': 'PC'}), (150 * f, {'mt': 'PR'}), (60 * f, {'mt': 'HC'}), (60 * f, {'mt': 'HR'})] +
                    [(n, {'mt': mt, t: 1}) for mt in ('PC', 'PR', 'HC', 'HR') for t, n in (('large', max(6, f // 4)), ('wide', max(4, f // 2)))])


def run(case, rec):
    r = gen.rng(case)
    kw = {}
    if case['mt'][0] == 'H':
        kw['optimizer'] = gen.make_optimizer(r, case['mt'] == 'HC', name=r.choice(['random', 'quasi']))
    if case.get('large'):
        # leaves with thousands of rows
        kw.update(n=int(r.choice([1500, 2600, 4000, 9500, 17000])), d=int(r.integers(1, 4)), xkind='cont', how=str(r.choice(['axis', 'imbalance']) if case['mt'][1] == 'C' else 'step'))
        if case['mt'][0] == 'H':
            kw['optimizer'] = gen.make_optimizer(r, case['mt'] == 'HC', name='random')
            kw['optimizer'].n_mc = 10
            kw['n'] = int(r.choice([2600, 9500, 17000]))
            kw['prune'] = False
    if case.get('wide'):
        p = gen.wide(r, case['mt'])
        rec.event('wide_problems')
    else:
        p = gen.problem(r, case['mt'], **kw)
    d = p.X.shape[1]
    m = p.model()
    info = dict(problem=p.describe())
    rec.check(str(m) == 'Unfitted model' and repr(m) == str(m), 'text of an unfitted model', got=str(m), **info)
    names = ['x{}'.format(j) for j in range(d)]
    form = r.choice(['plain', 'names', 'frame', 'both'])
    X, args = p.X, {}
    if form in ('frame', 'both'):
        names = ['Col {}'.format(j) for j in range(d)]
        X = pd.DataFrame(p.X, columns=names)
    if form in ('names', 'both'):
        names = ['n{}!'.format(j) for j in range(d)]
        if r.random() < .2:
            # names of any length and script
            names = [str(r.choice(['a long name ' * 6, 'x' * 33, '\u03b1\u00e9 ' * 20, 'rate=%', '{}{0}', '%s%d', 'y=0', ''])) + str(j) for j in range(d)]
            if form == 'both':
                X = pd.DataFrame(p.X, columns=names)
            rec.event('odd_names')
        args['feature_names'] = c07.name_form(names, r)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rec.api('fit', m.fit, X, p.y, **args)
    rec.check(out.getvalue() == '', 'silent training prints something', got=out.getvalue()[:200], **info)
    root = view.tree(m, p.X)
    rec.event('trees')
    depth = max(v.depth for v in root)
    if depth >= 2:
        rec.event('depth_ge_2')
        rec.nontrivial(case['i'])
    leaves = root.leaves()
    rec.event('large_leaves', sum(len(v.rows) >= 1000 for v in leaves))
    rec.check(rec.api('get_depth', m.get_depth) == depth, 'get_depth', got=m.get_depth(), expected=depth, **info)
    rec.check(rec.api('get_n_leaves', m.get_n_leaves) == len(leaves), 'get_n_leaves', got=m.get_n_leaves(),
              expected=len(leaves), **info)
    rec.check(m.is_fitted() and m.is_leaf() == (len(leaves) == 1), 'is_fitted / is_leaf', **info)
    # text
    text = rec.api('str', str, m)
    rec.check(repr(m) == text, 'repr is not str', **info)
    if not p.hyper:
        check_perpendicular(rec, p, root, text, names, info)
    else:
        check_hyper(rec, p, root, text, info)
    # log
    v = p.model()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rec.api('verbose fit', v.fit, X, p.y, verbose=True, **args)
    rec.check(view.same(view.signature(v), view.signature(m)), 'verbose training gives another tree', **info)
    if not p.params['prune']:
        got = []
        for line in out.getvalue().splitlines():
            if line.strip():
                g = re.search(r'level\s+(\d+)\s+(\w*)\D*?(\d+)\s+data points', line)
                if not rec.check(bool(g), 'unreadable line in the training log', line=line, **info):
                    return
                got.append((int(g.group(1)), g.group(2), int(g.group(3))))
                rec.event('log_lines')
        y = np.asarray(p.y)
        sides = ('back', 'front') if p.hyper else ('LHS', 'RHS')
        expected = [(w.depth, 'root' if w.depth == 0 else sides[w.path[-1]], len(w.rows)) for w in root
                    if w.depth == 0 or (len(w.rows) > 1 and len(np.unique(y[w.rows])) > 1)]
        rec.check(got == expected, 'the training log does not list the trained nodes in order', got=got, expected=expected, **info)
    rec.sample({'case': case, 'text': text[:400]})


DRAW = ' \u251c\u2514\u2502'


def drawing(v):
    """the characters in front of a node: a bar for each ancestor (or itself) with a sibling below, and the connector"""
    if v.parent is None:
        return ''
    above = ''.join('\u2502' if side == 0 else ' ' for side in v.path[:-1]).replace(' ', '')
    return above + '\u251c\u2514'[v.path[-1]]


def lines(text):
    """(number of tree-drawing characters and spaces in front, content, drawing) of each node"""
    out = []
    for i, s in enumerate(text.split('\n')):
        content = s.lstrip(DRAW)
        if i and s.strip(' ')[:1] not in DRAW[1:]:
            # continuation of a long array
            out[-1] = (out[-1][0], out[-1][1] + ' ' + content, out[-1][2])
        else:
            out.append((len(s) - len(content), content, s[:len(s) - len(content)].replace(' ', '')))
    return out


def check_leaf(rec, p, v, content, info):
    post = np.asarray(v.node.posterior_, dtype=float)
    g = re.match(r'y=(\S+), n=(\d+)(?:, p\(y\)=(.*))?$', content, re.S)
    if not rec.check(bool(g), 'unreadable leaf', line=content, **info):
        return
    val = post.argmax() if p.kind == 'cls' else post[0]
    rec.check(np.isclose(float(g.group(1)), val, rtol=1e-12, atol=0), 'the printed prediction of a leaf is not its prediction',
              line=content, expected=float(val), **info)
    rec.check(int(g.group(2)) == len(v.rows), 'the printed row count of a leaf is wrong', line=content, expected=len(v.rows), **info)
    rec.check((g.group(3) is not None) == (p.kind == 'cls'), 'probabilities are printed for a regression or not for a classification',
              line=content, **info)
    if p.kind == 'cls' and g.group(3):
        pr = np.array([float(t) for t in g.group(3).strip('[] ').replace('\n', ' ').split()])
        rec.check(np.allclose(pr, post / post.sum(), atol=1e-7), 'the printed probabilities of a leaf are wrong',
                  line=content, expected=post / post.sum(), **info)


def check_perpendicular(rec, p, root, text, names, info):
    for v, content in each(rec, root, text, info):
        if v.parent is not None:
            sign = '<' if v.path[-1] == 0 else '\u2265'
            head = '{}{}: '.format(sign, v.parent.value)
            if not rec.check(content.startswith(head), 'the text shows another branch condition', line=content, expected=head, **info):
                return
            content = content[len(head):]
        if v.leaf:
            check_leaf(rec, p, v, content, info)
        else:
            e = '{}={}'.format(names[v.dim], v.value)
            rec.check(content == e and str(v.name) == names[v.dim], 'the text shows another split', line=content, expected=e, **info)


def each(rec, root, text, info):
    ls = lines(text)
    nodes = list(root)
    if not rec.check(len(ls) == len(nodes), 'the text does not have one line per node', text=text[:800], **info):
        return
    indent = {}
    for (ind, content, drawn), v in zip(ls, nodes):
        rec.event('lines')
        indent[id(v)] = ind
        rec.check(drawn == drawing(v), 'the drawn branches do not lead to the parent', line=content, got=drawn, expected=drawing(v),
                  text=text[:800], **info)
        if v.parent is not None:
            rec.check(ind > indent[id(v.parent)], 'a node is not indented more than its parent', line=content, text=text[:500], **info)
        yield v, content


def numbers(s):
    return np.array([float(t) for t in re.findall(r'[-+0-9.einfa]+', s)])


def check_hyper(rec, p, root, text, info):
    for v, content in each(rec, root, text, info):
        if v.parent is not None:
            g = re.match(r'(back|front)\s*: ', content)
            if not rec.check(bool(g) and g.group(1) == ('back', 'front')[v.path[-1]], 'the text shows the wrong side', line=content, **info):
                return
            content = content[g.end():]
        if v.leaf:
            check_leaf(rec, p, v, content, info)
            continue
        g = re.match(r'HP\(origin=(.*), normal=(.*)\)$', content, re.S)
        if not rec.check(bool(g), 'the text does not show the split', line=content, **info):
            return
        for what, got, e in (('origin', g.group(1), v.node.best_hyperplane_origin_), ('normal', g.group(2), v.node.best_hyperplane_normal_)):
            got = numbers(got)
            rec.check(got.shape == e.shape and np.allclose(got, e, rtol=1e-6, atol=2e-8 + 1e-7 * np.abs(e).max()), 'the text shows another ' + what,
                      line=content, expected=e, **info)
