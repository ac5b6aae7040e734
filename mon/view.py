"""Reads a fitted tree through its fitted attributes and replays which rows reach which node."""
import numpy as np

from mon import oracle


def is_hyper(model):
    return hasattr(model, 'optimizer')


def is_cls(model):
    return hasattr(model, 'predict_proba')


class Node:
    __slots__ = ('node', 'depth', 'rows', 'leaf', 'dim', 'value', 'name', 'normal', 'origin', 'left', 'right',
                 'path', 'parent', 'prior', 'post')

    def __iter__(self):
        """preorder"""
        stack = [self]
        while stack:
            v = stack.pop()
            yield v
            if not v.leaf:
                stack.append(v.right)
                stack.append(v.left)

    def leaves(self):
        return [v for v in self if v.leaf]

    def splits(self):
        return [v for v in self if not v.leaf]


def left_mask(v, X):
    if v.normal is None:
        return X[:, v.dim] < v.value
    return oracle.project(X, v.normal, v.origin) < 0


def near_plane(v, X, rel=1e-9):
    """rows so close to a hyperplane that rounding decides their side"""
    if v.normal is None:
        return np.zeros(len(X), dtype=bool)
    scale = np.abs(X) @ np.abs(v.normal) + np.dot(np.abs(v.normal), np.abs(v.origin)) + 1e-300
    return np.abs(oracle.project(X, v.normal, v.origin)).astype(float) <= rel * scale


def tree(model, X=None, kind=None, y=None, root_prior=None, delta=0.):
    """View of the tree.  With X: .rows = indices of the rows reaching the node.  With y and root_prior:
    .prior = prior the node must have been trained with, .post = its posterior (both from the reference
    model, not from the tree)."""
    hyper = is_hyper(model)

    def make(node, depth, rows, path, parent, prior):
        v = Node()
        v.node, v.depth, v.rows, v.path, v.parent = node, depth, rows, path, parent
        v.leaf = bool(node.is_leaf())
        v.dim = v.value = v.name = v.normal = v.origin = None
        v.left = v.right = None
        v.prior = prior
        v.post = oracle.posterior(kind, prior, y[rows]) if prior is not None and rows is not None else None
        if not v.leaf:
            if hyper:
                v.normal = np.asarray(node.best_hyperplane_normal_, dtype=np.float64)
                v.origin = np.asarray(node.best_hyperplane_origin_, dtype=np.float64)
            else:
                v.dim, v.value, v.name = node.split_dimension_, node.split_value_, node.split_feature_name_
        return v

    root = make(model, 0, np.arange(len(X)) if X is not None else None, (), None, root_prior)
    todo = [root]
    while todo:
        v = todo.pop()
        if v.leaf:
            continue
        r1 = r2 = p1 = p2 = None
        if v.rows is not None:
            m = left_mask(v, X[v.rows])
            r1, r2 = v.rows[m], v.rows[~m]
            if v.prior is not None:
                p1 = oracle.posterior(kind, v.prior, y[r1], delta)
                p2 = oracle.posterior(kind, v.prior, y[r2], delta)
        v.left = make(v.node.child1_, v.depth + 1, r1, v.path + (0,), v, p1)
        v.right = make(v.node.child2_, v.depth + 1, r2, v.path + (1,), v, p2)
        todo += [v.left, v.right]
    return root


def route(root, X):
    """leaf (position in root.leaves()) and 'decided by rounding' flag of each row of X"""
    X = np.asarray(X, dtype=np.float64)
    leaves = {id(v): i for i, v in enumerate(root.leaves())}
    where = np.zeros(len(X), dtype=int)
    near = np.zeros(len(X), dtype=bool)
    todo = [(root, np.arange(len(X)))]
    while todo:
        v, rows = todo.pop()
        if len(rows) == 0:
            continue
        if v.leaf:
            where[rows] = leaves[id(v)]
            continue
        near[rows] |= near_plane(v, X[rows])
        m = left_mask(v, X[rows])
        todo.append((v.left, rows[m]))
        todo.append((v.right, rows[~m]))
    return where, near


def signature(model, X=None):
    """Everything visible of a fitted tree, for equality comparisons."""
    out = []
    for v in tree(model):
        s = (v.path, v.leaf, int(v.node.n_data_),
             np.asarray(v.node.posterior_, dtype=np.float64).tobytes())
        if not v.leaf:
            s += (v.dim, v.value, str(v.name)) if v.normal is None else (v.normal.tobytes(), v.origin.tobytes())
        out.append(s)
    return out


def same(a, b, rel=1e-9):
    """Same tree, up to rounding of posteriors and hyperplanes (BLAS results depend on memory alignment in the
    last bit, so two fits to the same data need not agree to the bit)."""
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if s[:3] != t[:3]:
            return False
        ps, pt = np.frombuffer(s[3]), np.frombuffer(t[3])
        if not np.allclose(ps, pt, rtol=rel, atol=1e-12):
            return False
        if len(s) != len(t):
            return False
        if len(s) > 4:
            if isinstance(s[4], bytes):
                if not all(np.allclose(np.frombuffer(u), np.frombuffer(w), rtol=1e-9, atol=1e-12 * (1 + np.abs(np.frombuffer(u)).max()))
                           for u, w in zip(s[4:6], t[4:6])):
                    return False
            elif s[4] != t[4] or s[5] != t[5]:
                return False
    return True


def describe(model, limit=600):
    return str(model)[:limit]
