"""Importable classes and callables of many shapes, for C04/C18/C20.

`make(name, vals)` builds one instance from generated component values.
"""
from __future__ import annotations

import array
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import io
import ipaddress
import itertools
import operator
import threading
import pathlib
import re
import time
import types
import typing
import uuid
import weakref

import numpy as np
import pandas as pd
import scipy.sparse as sp


def idy(x):
    return x


class Attr:
    """Plain attribute bag."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Plain(Attr):
    def method(self, x=1):
        return x

    @classmethod
    def cmethod(cls):
        return cls

    alias = method


class Calls:
    """Calls a function (of this thread) whenever its state is read or set."""

    local = threading.local()

    def __init__(self, n):
        self.n = n

    @classmethod
    def call(cls):
        fn = getattr(cls.local, "fn", None)
        if fn is not None:
            cls.local.fn = None  # not within its own calls
            try:
                fn()
            finally:
                cls.local.fn = fn

    def __getstate__(self):
        self.call()
        return {"n": self.n}

    def __setstate__(self, state):
        self.call()
        self.__dict__.update(state)


class AttrHook(Attr):
    def __setattr__(self, k, v):
        raise AttributeError("read only")


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class SlottedState:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return {"a": self.a, "b": self.b}

    def __setstate__(self, s):
        self.a, self.b = s["a"], s["b"]


class SlottedTupleState(SlottedState):
    __slots__ = ()

    def __getstate__(self):
        return (self.a, self.b)

    def __setstate__(self, s):
        self.a, self.b = s


class SlottedNoSet:
    __slots__ = ("a", "__dict__")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return None, {"a": self.a, "b": self.b}


class GetStateNone:
    def __init__(self, a):
        self.a = a

    def __getstate__(self):
        return None


class GetStateList:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return [self.a, self.b]

    def __setstate__(self, s):
        self.a, self.b = s


class GetStatePairs:
    """State is not a dict and there is no __setstate__."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __getstate__(self):
        return [("a", self.a), ("b", self.b)]


class FalsyState:
    def __init__(self, a):
        self.a = a
        self.restored = False

    def __getstate__(self):
        return {}

    def __setstate__(self, s):
        self.a = "restored"
        self.restored = True


class ValueState:
    """The state is a value of any kind, e.g. one that is false."""

    def __init__(self, a):
        self.a = a

    def __getstate__(self):
        return self.a

    def __setstate__(self, a):
        self.a = a


class SlottedValueState(ValueState):
    __slots__ = ()


class ReduceCtor:
    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __reduce__(self):
        return (type(self), (self.a, self.b))


class ReduceCtorState(ReduceCtor):
    def __reduce__(self):
        return (type(self), (self.a,), {"b": self.b})


class ReduceNoneState(ReduceCtor):
    def __reduce__(self):
        return (type(self), (self.a, self.b), None)


class ReduceItems:
    def __init__(self):
        self.xs, self.kv = [], {}

    def append(self, x):
        self.xs.append(x)

    def __setitem__(self, k, v):
        self.kv[k] = v

    def __reduce__(self):
        return (type(self), (), None, iter(self.xs), iter(self.kv.items()))


def _rebuild(a, b):
    return ReduceFunc(a, b)


class ReduceFunc:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __reduce__(self):
        return (_rebuild, (self.a, self.b))


class ReduceFuncState:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __reduce__(self):
        return (_new_reduce_func_state, (), {"a": self.a, "b": self.b})


def _new_reduce_func_state():
    return ReduceFuncState(None, None)


class Singleton:
    def __reduce__(self):
        return "SINGLETON"


SINGLETON = Singleton()


class NewArgs:
    def __new__(cls, a):
        self = super().__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return (self.a,)


class NewArgsEx:
    def __new__(cls, *, a):
        self = super().__new__(cls)
        self.a = a
        return self

    def __getnewargs_ex__(self):
        return ((), {"a": self.a})


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyFloat(float):
    pass


class MyComplex(complex):
    pass


class MyBytes(bytes):
    pass


class MyByteArray(bytearray):
    pass


class MyList(list):
    pass


class MySlotList(list):
    __slots__ = ("a",)


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySlotDict(dict):
    __slots__ = ("a",)


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class MyOD(collections.OrderedDict):
    pass


class MyDD(collections.defaultdict):
    pass


class MyCounter(collections.Counter):
    pass


class MyDeque(collections.deque):
    pass


class MyPartial(functools.partial):
    pass


class MyND(np.ndarray):
    def __array_finalize__(self, obj):
        pass


class MyRS(np.random.RandomState):
    pass


class MyGen(np.random.Generator):
    pass


class MyCSR(sp.csr_matrix):
    pass


class MyMasked(np.ma.MaskedArray):
    pass


class MyGetter(Attr):
    pass


NT = collections.namedtuple("NT", "a b")


class NT2(typing.NamedTuple):
    a: object
    b: object = 5


class NTSub(NT):
    pass


class NTSlotSub(NT):
    __slots__ = ()

    def total(self):
        return 0


class NTNew(NT):
    __slots__ = ()

    def __new__(cls, a, b):
        return super().__new__(cls, a, b)


class Fields(tuple):
    """Looks like a namedtuple but takes one iterable."""

    _fields = ("a", "b")


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class IColor(enum.IntEnum):
    RED = 1
    BLUE = 2


class SColor(str, enum.Enum):
    RED = "red"


class Flags(enum.Flag):
    A = 1
    B = 2


@dataclasses.dataclass
class DC:
    a: object
    b: object


@dataclasses.dataclass(frozen=True)
class FrozenDC:
    a: object
    b: object


@dataclasses.dataclass(slots=True)
class SlotDC:
    a: object
    b: object


class MyError(Exception):
    def __init__(self, a, b=None):
        super().__init__(a)
        self.b = b


class Outer:
    class Plain:  # same name as a module attribute
        def __init__(self, a):
            self.a = a

    class Hidden:
        def __init__(self, a):
            self.a = a

    class NT(collections.namedtuple("NT", "x y")):
        __slots__ = ()

    class MyList(list):
        pass

    @staticmethod
    def idy(x):  # same name as the module function
        return (x,)

    class MyDict(dict):
        pass


def outer():
    def idy(x):
        return [x]

    return idy


class DescrAttr:
    def __init__(self, a):
        self._a = a

    @property
    def a(self):
        return self._a


class Callable_:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return x


class ShadowedMethod:
    def __init__(self):
        self.run = "shadow"

    def run(self):
        return 1


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    def __init__(self, a):
        self.a = a


def _attrs(x, v):
    for i, val in enumerate(v[1:3]):
        setattr(x, "xyz"[i], val)
    return x


def _h(v):
    """A hashable stand-in for a component."""
    try:
        hash(v)
        return v
    except TypeError:
        return repr(type(v))


def _i(v):
    try:
        return sum(map(ord, repr(v)[:20])) % 1000
    except ValueError:  # ints too large to print
        return 7


MAKERS = {}


def maker(*names):
    def deco(f):
        for n in names:
            MAKERS[n] = functools.partial(f, n)
        return f

    return deco


G = globals()


@maker("Plain", "Attr", "MyGetter")
def _(n, v):
    return G[n](a=v[0], b=v[1], c=v[2])


@maker("Slotted", "SlottedState", "SlottedTupleState", "SlottedNoSet", "GetStateList", "GetStatePairs", "ReduceCtor",
       "ReduceCtorState", "ReduceNoneState", "ReduceFunc", "ReduceFuncState", "NT", "NT2", "NTSlotSub", "NTNew", "NTSub",
       "DC", "FrozenDC", "SlotDC", "MyError")
def _(n, v):
    return G[n](v[0], v[1])


@maker("GetStateNone", "FalsyState", "NewArgs", "DescrAttr", "Callable_", "WithMeta")
def _(n, v):
    return G[n](v[0])


@maker("ValueState", "SlottedValueState")
def _(n, v):
    return G[n]("" if v[0] is None else v[0])  # a state of None stands for no state


@maker("ZeroState")
def _(n, v):
    return ValueState([0, "", False, (), [], {}, 0.0, set(), b""][_i(v[0]) % 9])


@maker("NewArgsEx")
def _(n, v):
    return NewArgsEx(a=v[0])


@maker("ReduceItems")
def _(n, v):
    x = ReduceItems()
    if v[1] is not None:
        x.append(v[0])
        x[_h(v[1])] = v[2]
    return x


@maker("SINGLETON")
def _(n, v):
    return SINGLETON


@maker("MyInt")
def _(n, v):
    return MyInt(_i(v[0]))


@maker("MyIntAttr")
def _(n, v):
    return _attrs(MyInt(_i(v[0])), v)


@maker("MyStr")
def _(n, v):
    return MyStr(repr(v[0])[:9])


@maker("MyFloat")
def _(n, v):
    return MyFloat(_i(v[0]) / 7)


@maker("MyComplex")
def _(n, v):
    return MyComplex(_i(v[0]), 2)


@maker("MyBytes")
def _(n, v):
    return MyBytes(repr(v[0])[:5].encode("utf8", "replace"))


@maker("MyByteArray")
def _(n, v):
    return MyByteArray(repr(v[0])[:5].encode("utf8", "replace"))


@maker("MyList", "MyTuple", "MyDeque")
def _(n, v):
    return G[n](v)


@maker("MySet", "MyFrozen")
def _(n, v):
    return G[n](_h(x) for x in v)


@maker("MyDict", "MyOD", "MyCounter")
def _(n, v):
    return G[n]({"a": v[0], _i(v[1]): v[2]})


@maker("MyDD")
def _(n, v):
    return MyDD(list, {"a": v[0]})


@maker("MyListAttr", "MyDictAttr", "MySetAttr", "MyODAttr", "MyTupleAttr", "NTSubAttr", "MyDequeAttr")
def _(n, v):
    return _attrs(MAKERS[n[:-4]](v), v)


@maker("MySlotListAttr")
def _(n, v):
    x = MySlotList([v[1]])
    x.a = v[0]
    return x


@maker("MySlotDictAttr")
def _(n, v):
    x = MySlotDict(k=v[1])
    x.a = v[0]
    return x


@maker("MyPartial", "MyPartialAttr")
def _(n, v):
    p = MyPartial(idy, v[0])
    return _attrs(p, v) if n.endswith("Attr") else p


@maker("partial_plain")
def _(n, v):
    return _attrs(functools.partial(Plain, a=v[0]), v)


@maker("MyND", "MyNDAttr", "matrix", "recarray", "chararray", "MyND0", "objMyND")
def _(n, v):
    a = np.arange(4 + _i(v[0]) % 3, dtype="f8")
    if n == "matrix":
        return np.asmatrix(a)
    if n == "recarray":
        return np.rec.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")])
    if n == "chararray":
        return np.char.array(["a", "bb"])
    if n == "MyND0":
        return np.array(3.0).view(MyND)
    if n == "objMyND":
        o = np.empty(2, object)
        o[0] = v[0]
        return o.view(MyND)
    x = a.view(MyND)
    if n == "MyNDAttr":
        x.info = v[0]
    return x


@maker("objarr_nested", "objarr_0d", "objarr_empty", "objarr_arrs", "objarr_scalars0d")
def _(n, v):
    if n == "objarr_0d":
        a = np.empty((), object)
        a[()] = v[0]
        return a
    if n == "objarr_empty":
        return np.empty((0, _i(v[0]) % 4), object)
    a = np.empty((2, 2) if _i(v[1]) % 2 else (3,), object)
    it = a.reshape(-1)
    for i in range(it.size):
        if n == "objarr_nested":
            it[i] = [v[0], v[1]]
        elif n == "objarr_scalars0d":
            it[i] = np.float64(i)
        else:
            it[i] = np.arange(3)
    return a


@maker("obj_struct")
def _(n, v):
    a = np.zeros(2, dtype=[("a", "O"), ("b", "i4")])
    a["a"][0] = v[0]
    return a


@maker("Color", "IColor", "SColor", "Flags")
def _(n, v):
    c = G[n]
    if n == "Flags":
        return Flags.A | Flags.B
    return list(c)[_i(v[0]) % len(c)]


@maker("OuterPlain", "OuterHidden", "OuterNT", "OuterMyList", "OuterMyDict")
def _(n, v):
    c = getattr(Outer, n[5:])
    if n == "OuterNT":
        return c(v[0], v[1])
    if n == "OuterMyList":
        return c([v[0]])
    if n == "OuterMyDict":
        return c(a=v[0])
    return c(v[0])


@maker("cls_nested", "fn_nested", "fn_local", "fn_lambda", "fn_module", "cls_hidden", "bound", "bound_alias", "bound_cls",
       "bound_builtin", "bound_shadow", "bound_str", "unbound", "staticm", "cls_module", "np_func", "wrapped")
def _(n, v):
    if n == "cls_nested":
        return Outer.Plain
    if n == "cls_hidden":
        return Outer.Hidden
    if n == "cls_module":
        return Plain
    if n == "fn_nested":
        return Outer.idy
    if n == "fn_local":
        return outer()
    if n == "fn_lambda":
        return lambda x: x
    if n == "fn_module":
        return idy
    if n == "bound":
        return Plain(a=v[0]).method
    if n == "bound_alias":
        return Plain(a=v[0]).alias
    if n == "bound_cls":
        return Plain.cmethod
    if n == "bound_builtin":
        return [v[0]].append
    if n == "bound_str":
        return "abc".upper
    if n == "bound_shadow":
        x = Plain(a=v[0])
        m = x.method
        x.method = "shadow"
        return m
    if n == "unbound":
        return str.upper
    if n == "staticm":
        return staticmethod(idy)
    if n == "np_func":
        return np.mean
    return functools.wraps(idy)(lambda x: 2)


@maker("frozenset", "deque", "deque_max", "Counter", "ChainMap", "UserDict", "UserList", "UserString", "range", "complex",
       "array", "memoryview", "SimpleNamespace", "mappingproxy", "struct_time", "count", "chain", "cycle", "list_iter",
       "generator", "enumerate", "zip", "map", "BytesIO", "StringIO", "module", "Ellipsis", "NotImplemented", "NoneType",
       "lru", "weakref", "property", "bigint", "surrogates", "slice_odd", "slice_np", "slice_tuple", "methodcaller",
       "methodcaller_kw", "methodcaller_args_kw", "itemgetter_odd", "Exception", "KeyError", "OSError", "date", "datetime", "tzdatetime",
       "time", "timedelta", "Decimal", "Fraction", "UUID", "Path", "PurePath", "Pattern", "ip", "uuid1", "Mock", "bool_keys", "none_key",
       "tuple_key", "mixed_keys", "nan_keys", "np_bool_key", "td_key", "myint_key", "enum_key", "mystr_key", "frozen_key",
       "prop_value", "obj_in_set", "dict_views", "dt_key", "bytes_key", "str_num_keys", "nt_key")
def _(n, v):
    f = {
        "frozenset": lambda: frozenset(_h(x) for x in v),
        "deque": lambda: collections.deque(v),
        "deque_max": lambda: collections.deque(v, maxlen=2),
        "Counter": lambda: collections.Counter({"a": 2, _i(v[0]): 3}),
        "ChainMap": lambda: collections.ChainMap({"a": v[0]}, {"b": v[1]}),
        "UserDict": lambda: collections.UserDict({"a": v[0]}),
        "UserList": lambda: collections.UserList(v),
        "UserString": lambda: collections.UserString(repr(v[0])),
        "range": lambda: range(1, _i(v[0]), 3),
        "complex": lambda: complex(1, _i(v[0])),
        "array": lambda: array.array("d", [1.5, _i(v[0])]),
        "memoryview": lambda: memoryview(b"abc"),
        "SimpleNamespace": lambda: types.SimpleNamespace(a=v[0], b=v[1]),
        "mappingproxy": lambda: types.MappingProxyType({"a": v[0]}),
        "struct_time": lambda: time.gmtime(_i(v[0])),
        "count": lambda: itertools.count(5),
        "chain": lambda: itertools.chain([1], [2]),
        "cycle": lambda: itertools.cycle([1, 2]),
        "list_iter": lambda: iter([v[0], 2]),
        "generator": lambda: (x for x in [1, 2]),
        "enumerate": lambda: enumerate([v[0]]),
        "zip": lambda: zip([v[0]], [2]),
        "map": lambda: map(idy, [1, 2]),
        "BytesIO": lambda: io.BytesIO(b"abc"),
        "StringIO": lambda: io.StringIO("abc"),
        "module": lambda: operator,
        "Ellipsis": lambda: Ellipsis,
        "NotImplemented": lambda: NotImplemented,
        "NoneType": lambda: type(None),
        "lru": lambda: functools.lru_cache(idy),
        "weakref": lambda: weakref.ref(Plain),
        "property": lambda: Plain.__dict__.get("x", property(idy)),
        "bigint": lambda: 10 ** (4000 + _i(v[0])),
        "surrogates": lambda: "\ud83d\ude00" + str(_i(v[0])),
        "slice_odd": lambda: slice(v[0], v[1], v[2]),
        "slice_np": lambda: slice(np.float64(1), np.int64(3)),
        "slice_tuple": lambda: slice((1, 2), [3]),
        "methodcaller": lambda: operator.methodcaller("m", v[0]),
        "methodcaller_kw": lambda: operator.methodcaller("m", k=v[0]),
        "methodcaller_args_kw": lambda: operator.methodcaller("m", "n", k=v[0]),
        "itemgetter_odd": lambda: operator.itemgetter(_h(v[0]), v[1]),
        "Exception": lambda: ValueError(v[0], v[1]),
        "KeyError": lambda: _attrs(KeyError(v[0]), v),
        "OSError": lambda: OSError(2, "msg", "file"),
        "date": lambda: datetime.date(2020, 1, 1 + _i(v[0]) % 28),
        "datetime": lambda: datetime.datetime(2020, 1, 1, 2, 3, 4, _i(v[0])),
        "tzdatetime": lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=2))),
        "time": lambda: datetime.time(1, 2, 3, fold=1),
        "timedelta": lambda: datetime.timedelta(_i(v[0]), 2, 3),
        "Decimal": lambda: decimal.Decimal(_i(v[0])) / 7,
        "Fraction": lambda: fractions.Fraction(_i(v[0]), 7),
        "UUID": lambda: uuid.UUID(int=_i(v[0])),
        "Path": lambda: pathlib.Path("/a/b") / str(_i(v[0])),
        "PurePath": lambda: pathlib.PurePosixPath("a/../b"),
        "Pattern": lambda: re.compile("a+", re.I),
        "ip": lambda: ipaddress.ip_address("10.0.0.1"),
        "uuid1": lambda: uuid.UUID(int=7),
        "Mock": lambda: object(),
        "bool_keys": lambda: {False: v[0], True: v[1]},
        "none_key": lambda: {None: v[0], "None": v[1], "null": v[2]},
        "tuple_key": lambda: {(1, 2): v[0], ("a",): v[1]},
        "mixed_keys": lambda: {1: v[0], "1": v[1], 1.5: v[2], "1.5": 4},
        "nan_keys": lambda: {float("nan"): v[0], float("nan"): v[1], "NaN": v[2]},
        "np_bool_key": lambda: {np.bool_(False): v[0]},
        "td_key": lambda: {np.timedelta64(5, "s"): v[0], np.datetime64("2020-01-01"): v[1]},
        "myint_key": lambda: {MyInt(3): v[0]},
        "enum_key": lambda: {IColor.RED: v[0], Color.BLUE: v[1]},
        "mystr_key": lambda: {MyStr("a"): v[0]},
        "frozen_key": lambda: {frozenset([1]): v[0]},
        "prop_value": lambda: {"a": v[0], "p": property(idy), 3: v[1]},
        "obj_in_set": lambda: {Color.RED, SINGLETON.__class__, (1, v[0]) if _h(v[0]) is v[0] else 1},
        "dict_views": lambda: {"a": v[0]}.keys(),
        "dt_key": lambda: {datetime.date(2020, 1, 2): v[0]},
        "bytes_key": lambda: {b"a": v[0], "a": v[1]},
        "str_num_keys": lambda: {"1": v[0], np.int64(1): v[1], np.str_("x"): v[2]},
        "nt_key": lambda: {NT(1, 2): v[0], (1, 3): v[1]},
    }[n]
    return f()


@maker("bitgen", "seedseq", "np.ma.masked", "mvoid", "MyMasked", "poly1d", "vectorize", "ndindex", "finfo", "np_void_obj", "lil",
       "dok", "MyCSR", "csr_attr", "csr_obj", "MyRS", "MyGen", "MyRSAttr", "StringDType", "str_nul", "bytes_nul", "memmap_like", "dtype_meta",
       "big_dtype", "ma_hard", "ma_obj", "dtype_obj_field", "rs_shared", "broadcast")
def _(n, v):
    i = _i(v[0])
    f = {
        "bitgen": lambda: getattr(np.random, ["PCG64", "MT19937", "SFC64", "Philox"][i % 4])(i),
        "seedseq": lambda: np.random.SeedSequence(i),
        "np.ma.masked": lambda: np.ma.masked,
        "mvoid": lambda: np.ma.array([(1, 2)], dtype=[("a", "i4"), ("b", "i4")], mask=[(0, 1)])[0],
        "MyMasked": lambda: np.ma.array([1, 2], mask=[0, 1]).view(MyMasked),
        "poly1d": lambda: np.poly1d([1, i, 3]),
        "vectorize": lambda: np.vectorize(idy),
        "ndindex": lambda: np.ndindex(2, 3),
        "finfo": lambda: np.finfo("f4"),
        "np_void_obj": lambda: np.zeros(1, dtype=[("a", "O")])[0],
        "lil": lambda: sp.lil_matrix(np.eye(3)),
        "dok": lambda: sp.dok_matrix(np.eye(3)),
        "MyCSR": lambda: MyCSR(np.eye(3)),
        "csr_attr": lambda: _attrs(sp.csr_matrix(np.eye(3)), v),
        "csr_obj": lambda: sp.csr_matrix(np.eye(3)).astype(object),
        "MyRS": lambda: MyRS(i),
        "MyRSAttr": lambda: _attrs(MyRS(i), v),
        "MyGen": lambda: _attrs(MyGen(np.random.PCG64(i)), v),
        "StringDType": lambda: np.array(["a", "bcd"], dtype=np.dtypes.StringDType()),
        "str_nul": lambda: np.str_("a\x00"),
        "bytes_nul": lambda: np.bytes_(b"a\x00\x00"),
        "memmap_like": lambda: np.frombuffer(b"12345678", dtype="<i4"),
        "dtype_meta": lambda: np.dtype("i4", metadata={"a": 1}) if False else np.dtype([(("title", "a"), "i4")]),
        "big_dtype": lambda: np.dtype({"names": ["a", "b"], "formats": ["i4", "f8"], "offsets": [4, 16], "itemsize": 32}),
        "ma_hard": lambda: np.ma.array([1, 2, 3], mask=[0, 1, 0], hard_mask=True, fill_value=7),
        "ma_obj": lambda: np.ma.array(np.array([1, "a", None], dtype=object), mask=[0, 1, 0]),
        "dtype_obj_field": lambda: np.dtype([("a", "O"), ("b", "i4")]),
        "rs_shared": lambda: [np.random.RandomState(3)] * 2,
        "broadcast": lambda: np.broadcast_to(np.arange(3), (4, 3)),
    }[n]
    return f()


@maker("DataFrame", "Series", "Index", "Timestamp", "Categorical", "Interval", "RangeIndex", "MultiIndex", "pdNA", "pdNaT", "Timedelta",
       "pdarr", "DatetimeIndex", "CategoricalDtype")
def _(n, v):
    i = _i(v[0])
    return {
        "DataFrame": lambda: pd.DataFrame({"a": [1, i], "b": ["x", "y"]}),
        "Series": lambda: pd.Series([1.5, i], name="s"),
        "Index": lambda: pd.Index(["a", "b"]),
        "Timestamp": lambda: pd.Timestamp(2020, 1, 1 + i % 28),
        "Categorical": lambda: pd.Categorical(["a", "b", "a"]),
        "Interval": lambda: pd.Interval(0, i + 1),
        "RangeIndex": lambda: pd.RangeIndex(i),
        "MultiIndex": lambda: pd.MultiIndex.from_tuples([(1, "a"), (2, "b")]),
        "pdNA": lambda: pd.NA,
        "pdNaT": lambda: pd.NaT,
        "Timedelta": lambda: pd.Timedelta(seconds=i),
        "pdarr": lambda: pd.array([1, None, i]),
        "DatetimeIndex": lambda: pd.date_range("2020", periods=3),
        "CategoricalDtype": lambda: pd.CategoricalDtype(["a"]),
    }[n]()


@maker("KDTree", "BallTree", "DistanceMetric", "Bunch", "ckdtree", "interp1d", "rv_frozen", "BSpline", "gp_kernel", "scorer",
       "tree_", "loss", "Parallel", "linop", "Path3", "BunchNested", "SGDLoss", "cyloss", "hist_pred", "isotonic_f", "cv", "sk_tags", "birch", "birch_fit")
def _(n, v):
    i = _i(v[0])
    X = np.random.RandomState(i).rand(12, 3)

    def kd():
        from sklearn.neighbors import BallTree, KDTree

        return {"KDTree": KDTree, "BallTree": BallTree}[n](X, leaf_size=3)

    def others():
        import scipy.interpolate
        import scipy.spatial
        import scipy.stats
        import scipy.sparse.linalg
        from sklearn.gaussian_process import kernels
        from sklearn.metrics import make_scorer, accuracy_score
        from sklearn.utils import Bunch
        from sklearn.tree import DecisionTreeClassifier
        import sklearn._loss._loss as L
        from sklearn.ensemble import HistGradientBoostingRegressor
        from sklearn.isotonic import IsotonicRegression
        from sklearn.metrics import DistanceMetric
        from sklearn.model_selection import KFold, StratifiedShuffleSplit
        from sklearn.cluster import Birch

        return {
            "DistanceMetric": lambda: DistanceMetric.get_metric("minkowski", p=3),
            "Bunch": lambda: Bunch(a=v[0], b=v[1]),
            "BunchNested": lambda: Bunch(a=Bunch(b=v[1])),
            "ckdtree": lambda: scipy.spatial.cKDTree(X),
            "interp1d": lambda: scipy.interpolate.interp1d([0, 1, 2], [1, 2, i]),
            "rv_frozen": lambda: scipy.stats.norm(0, i + 1),
            "BSpline": lambda: scipy.interpolate.BSpline([0, 1, 2, 3], [1, i], 1),
            "gp_kernel": lambda: kernels.RBF(1.5) + kernels.WhiteKernel(),
            "scorer": lambda: make_scorer(accuracy_score),
            "tree_": lambda: DecisionTreeClassifier(random_state=0).fit(X, np.arange(12) % 3).tree_,
            "loss": lambda: L.CyPinballLoss(0.3),
            "cyloss": lambda: L.CyHuberLoss(0.3),
            "Parallel": lambda: __import__("joblib").Parallel(1),
            "linop": lambda: scipy.sparse.linalg.aslinearoperator(X),
            "Path3": lambda: pathlib.PureWindowsPath("c:/x"),
            "SGDLoss": lambda: __import__("sklearn.linear_model._sgd_fast", fromlist=["x"]).Huber(0.2),
            "hist_pred": lambda: HistGradientBoostingRegressor(max_iter=2, min_samples_leaf=2).fit(X, X[:, 0])._predictors[0][0],
            "isotonic_f": lambda: IsotonicRegression().fit(X[:, 0], X[:, 1]).f_,
            "cv": lambda: StratifiedShuffleSplit(3, random_state=i),
            "sk_tags": lambda: KFold(3),
            "birch": lambda: Birch(),
            "birch_fit": lambda: Birch(n_clusters=2).fit(X),
        }[n]()

    return kd() if n in ("KDTree", "BallTree") else others()


def make(name, vals):
    return MAKERS[name](vals)
