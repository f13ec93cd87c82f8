"""Things which have the names of others, in `zoo` and elsewhere."""
from __future__ import annotations

import typing

from . import zoo


class Plain(zoo.Attr):
    def method(self, x=1):
        return [x]


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = b, a


class NT2(typing.NamedTuple):
    y: int = 0
    x: int = 0


class LogisticRegression(zoo.Attr):
    pass


class StandardScaler(zoo.Attr):
    pass


def idy(x):
    return [x]


def sqrt(x):
    return x
