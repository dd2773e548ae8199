"""Ledger of values that must stay what they were when they changed hands."""

import copy

import numpy as np


def frozen(x):
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype
            and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
        )
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b or (a != a and b != b)


class Ledger:
    def __init__(self, case, readonly=False):
        self.case, self.readonly = case, readonly
        self.items = []
        self.members = []

    def lend(self, name, obj):
        """The caller's own data, handed to the code under test."""
        self.items.append(("caller", name, obj, frozen(obj)))
        if isinstance(obj, list):
            self.members.append((name, obj, list(obj)))
        if self.readonly:
            for a in obj if isinstance(obj, (list, tuple)) else [obj]:
                if isinstance(a, np.ndarray):
                    a.setflags(write=False)
        self.case.hit("lent")
        return obj

    def receive(self, name, obj):
        """Something the code under test handed out earlier."""
        if obj is not None:
            self.items.append(("result", name, obj, frozen(obj)))
            self.case.hit("received")
        return obj

    def audit(self, when):
        for side, name, obj, snap in self.items:
            self.case.hit("audited")
            if not same(obj, snap):
                what = "the caller's data were modified" if side == "caller" else "a value handed out earlier changed"
                self.case.check(False, what, item=name, when=when, was=snap, now=obj)
        for name, obj, was in self.members:
            self.case.check(
                len(obj) == len(was) and all(p is q for p, q in zip(obj, was)),
                "an element of the caller's list was replaced", item=name, when=when,
            )
        self.case.check(True, "")
