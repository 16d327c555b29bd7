"""Executable model of the training-data store of a preference model.

Items are identified by their (unique) feature values, labels by the item they were given
for, so a label that moves to another item is visible whatever the storage layout is."""
import numpy as np
from collections import Counter
from .gen import key, decode_pairs


class Shadow:
    def __init__(self, pareto=False):
        self.pareto = pareto
        self.clear()

    def clear(self):
        self.items = []            # in order of arrival
        self.labels = Counter()    # ('pair', winner, loser) / ('abs', item, v) / ('ord', item, r)
        self.prior = None

    def add(self, X, y, type):
        new = [key(x) for x in X]
        if type == 'relative_discrete':
            for d, u, v in y:
                a, b = (u, v) if d < 0 else (v, u)
                self.labels[('pair', new[a], new[b])] += 1
        elif type == 'abs':
            for x, v in zip(new, y):
                self.labels[('abs', x, min(max(float(v), 0.001), 0.999))] += 1
        elif type == 'ordinal':
            for x, v in zip(new, y):
                self.labels[('ord', x, int(v))] += 1
        self.items += new
        if self.pareto:
            for x in new:
                for o in self.items:
                    if all(a > b for a, b in zip(x, o)):
                        self.labels[('pair', x, o)] += 1

    def add_label(self, kind, x, v):
        """one further rating of an item already there"""
        self.labels[(kind, key(x), min(max(float(v), 0.001), 0.999) if kind == 'abs' else int(v))] += 1

    def add_prior(self, pts):
        self.add(pts, [], 'relative_discrete')
        ref = set()
        for l in self.labels:
            ref.update(t for t in l[1:] if isinstance(t, tuple))
        self.items = [i for i in self.items if i in ref]
        self.prior = [key(p) for p in pts if key(p) in ref]


def read(model):
    """(items, labels) as stored by the model, decoded to item identities; None on dangling index"""
    labels = Counter()
    X = model.X_train
    its = [] if X is None else [key(x) for x in X]
    idx = model.probit_idxs

    def at(i):
        if not (0 <= int(i) < len(its)) or int(i) != i:
            raise IndexError('label refers to item %r of %d' % (i, len(its)))
        return its[int(i)]
    for w, l in decode_pairs(model.y_train[idx['relative_discrete']]):
        labels[('pair', at(w), at(l))] += 1
    a = model.y_train[idx['abs']]
    if a is not None:
        if len(a[0]) != len(a[1]):
            raise IndexError('ratings and item references differ in number')
        for v, i in zip(a[0], a[1]):
            labels[('abs', at(i), float(v))] += 1
    o = model.y_train[idx['ordinal']]
    if o is not None:
        if len(o[0]) != len(o[1]):
            raise IndexError('ordinals and item references differ in number')
        for v, i in zip(o[0], o[1]):
            labels[('ord', at(i), int(v))] += 1
    return its, labels


def diff(got, want):
    g, w = Counter(got), Counter(want)
    return dict(missing=list((w - g).elements())[:5], extra=list((g - w).elements())[:5])
