"""Annotations around array types with their meaning and their values.

A node has ``source`` (the annotation as Python source), ``check(value, cfg)`` (``None`` when the
value is not accepted, else the equations it brings), ``values`` (sources of values: fitting, near
misses, junk), ``small`` (a few of them, for use inside containers) and ``arrays(value, cfg)`` (how
many array annotations an accepted check examines).
"""
import abc
import collections.abc
import datetime
import enum
import functools
import inspect
import io
import itertools
import numbers
import re
import types
import typing

from mc import lib, model

# Mappings which are no dictionaries.
MAPPINGS = ["collections.UserDict", "types.MappingProxyType", "collections.ChainMap"]


class Cfg:
    """The two options that take part in the meaning of annotations."""

    def __init__(self, config):
        self.plain = config.get("check-non-asta-types", "no") == "yes"
        self.all = config.get("check-all-sequence-elements", "yes") == "yes"


JUNK = [
    "None", "3", "True", "1.5", "'ab'", "''", "b'x'", "[]", "()", "{}", "set()", "[None]", "(None,)",
    "[[]]", "{'a': None}", "object()", "int", "arr(7)", "arr()", "(lambda v: v)", "range(2)", "iter([])",
    "[arr(7)]", "(arr(7),)", "{'a': arr(7)}", "[3, 'x']", "frozenset()", "np.float64(2.0)", "...",
    "Nasty()",
]


class Node:
    union = False
    values = ()
    small = ()

    def annotation(self):
        return evaluate(self.source)

    def arrays(self, value, cfg):
        return 0


class Arr(Node):
    """An array annotation; ``pattern`` may contain expression sources."""

    def __init__(self, pattern=None, dtype=None, family="Array", attrs="", more=(), small=None, source=None):
        self.family = family
        self.dtype = dtype
        tokens = [] if dtype is None else [dtype]
        if pattern is not None:
            tokens += [{"...": "..."}.get(t, t) if isinstance(t, str) else ("..." if t is ... else str(t)) for t in pattern]
            if not pattern:
                tokens.append("()")
        if attrs:
            tokens.append(attrs)
        self.source = source or (f"{family}[{', '.join(tokens)}]" if tokens else family)
        self.pattern = pattern
        make = {"Array": "arr", "TFTensor": "tfv", "Tensor": "tov"}[family]
        fitting = self._fitting()
        wrong = "9, 9, 9, 9, 8"
        odd = ", ".join(filter(None, [fitting, "dtype='bool'"]))
        self.values = [f"{make}({fitting})", f"{make}({wrong})", f"{make}({odd})"]
        self.values += [f"{make}({', '.join(str(n) for n in s)})" for s in more] + JUNK
        self.small = small or [f"{make}({fitting})"] + [
            f"{make}({', '.join(str(n) for n in s)})" for s in more[:1]
        ] + [f"{make}({wrong})"]
        if pattern is None:
            self.small = [f"{make}(2)", "'no'"]

    def _fitting(self):
        dims = []
        for token in self.pattern or ():
            if token is ...:
                continue
            if isinstance(token, str):
                dims.append("2")
            else:
                dims.append(str(5 if token == -1 else token))
        return ", ".join(dims)

    def of_family(self, value):
        np = lib.NS["np"]
        if self.family == "Array":
            if not isinstance(value, np.ndarray):
                return False
            return self.dtype is None or value.dtype == np.dtype(self.dtype)
        module = lib.NS["tf"] if self.family == "TFTensor" else lib.NS["torch"]
        if not isinstance(value, module.Tensor):
            return False
        return self.dtype is None or value.dtype == module.float32

    def check(self, value, cfg):
        if not self.of_family(value):
            return None
        if self.pattern is None:
            return ()
        pattern = tuple(model.poly(t) if isinstance(t, str) else t for t in self.pattern)
        for equations in model.readings(pattern, tuple(value.shape)):
            if model.solvable(equations):
                return equations
        return None

    def arrays(self, value, cfg):
        return 1


class Never(Arr):
    """An annotation with a placeholder that has no value."""

    def check(self, value, cfg):
        return None


class Attr(Arr):
    """``Array[{...}]`` on ndarray subclasses made by ``att(*shape, **attributes)``."""

    def __init__(self, attrs, pattern=None):
        self.table = attrs
        text = "{" + ", ".join(f"'{k}': {v if isinstance(v, str) else repr(v)}" for k, v in attrs.items()) + "}"
        super().__init__(pattern, attrs=text)
        fitting = ", ".join(f"{k}={2 if isinstance(v, str) else v!r}" for k, v in attrs.items())
        dims = self._fitting()
        self.values = [f"att(({dims}{',' if dims else ''}), {fitting})", "att((2,), tag=1)", "att((2,))"] + JUNK
        self.values += [f"att(({dims}{',' if dims else ''}), " + ", ".join(f"{k}={v}" for k in attrs) + ")" for v in ("3", "None", "'x'")]
        self.small = self.values[:2]

    def check(self, value, cfg):
        equations = super().check(value, cfg)
        if equations is None:
            return None
        for key, want in self.table.items():
            if not hasattr(value, key):
                return None
            got = getattr(value, key)
            if isinstance(want, str):
                if not isinstance(got, (int, float)):
                    return None
                equations += (model.poly(want).minus(got),)
            elif got != want:
                return None
        return equations if model.solvable(equations) else None


class Plain(Node):
    """An annotation without arrays; only enforced on request."""

    def __init__(self, source, accepts, good, bad):
        self.source = source
        self.accepts = accepts
        self.values = list(good) + list(bad) + JUNK
        self.small = [good[0]] + list(bad[:1])

    def check(self, value, cfg):
        if not cfg.plain or self.accepts(value):
            return ()
        return None


class Kind(Node):
    """A container annotation without element types: only the kind counts."""

    def __init__(self, source, *classes):
        self.source = source
        self.classes = classes
        good = {list: "[7]", dict: "{7: 7}", tuple: "(7,)", collections.abc.Set: "{7}", collections.abc.Sequence: "[7]"}[classes[0]]
        self.values = [good, "MyList([1])", "MyDict({1: 2})", "MyTuple((1,))", "deque([1])", "[[], 1]", "{'a': [], 2: 3}", "((), 1)"]
        self.values += [j for j in JUNK if "frozenset" not in j]
        self.small = [good, "3"]

    def check(self, value, cfg):
        return () if isinstance(value, self.classes) else None


def joined(parts):
    out = ()
    for part in parts:
        if part is None:
            return None
        out += part
    return out


class Listing(Node):
    """List[...] and Sequence[...]."""

    def __init__(self, kind, elem, longer=0, spelling=None):
        self.kind = kind
        self.elem = elem
        self.union = elem.union
        self.source = f"{spelling or kind}[{elem.source}]"
        pool = list(elem.small)
        combos = [c for n in range(3 + longer) for c in itertools.product(pool, repeat=n)]
        self.values = ["[" + ", ".join(c) + "]" for c in combos]
        self.values += ["(" + ", ".join(c) + ("," if len(c) == 1 else "") + ")" for c in combos[: 1 + len(pool)]]
        self.values += [f"deque([{', '.join(c)}])" for c in combos[: 1 + len(pool)]]
        self.values += [f"same(lambda v: [v, {p}, v], {q})" for p in pool[-1:] for q in pool[:1]] + [f"same(lambda v: [v, v, v], {p})" for p in pool]
        self.values += [f"MyList([{pool[0]}])", f"iter([{pool[0]}])", f"{{'a': {pool[0]}}}", f"{{1: {pool[-1]}}}"]
        self.values += [f"collections.UserList([{p}])" for p in (pool[0], pool[-1])] + [f"nt({p})" for p in (pool[0], pool[-1])] + JUNK
        self.small = [self.values[1], f"[{pool[0]}, {pool[-1]}]", "[]", f"({pool[0]},)"]

    def container(self, value):
        return isinstance(value, list if self.kind == "List" else collections.abc.Sequence)

    def examined(self, value, cfg):
        return list(value) if cfg.all else list(value)[:1]

    def check(self, value, cfg):
        if not self.container(value):
            return None
        return joined(self.elem.check(v, cfg) for v in self.examined(value, cfg))

    def arrays(self, value, cfg):
        return sum(self.elem.arrays(v, cfg) for v in self.examined(value, cfg))


class Setting(Node):
    """Set[...] and AbstractSet[...]; elements must be hashable."""

    def __init__(self, kind, elem, spelling=None):
        self.kind = kind
        self.elem = elem
        self.union = elem.union
        self.source = f"{spelling or kind}[{elem.source}]"
        pool = [p.replace("arr(", "harr(") for p in elem.small]
        self.values = ["set()"] + [f"{{{p}}}" for p in pool]
        self.values += [f"{{{a}, {b}}}" for a, b in itertools.combinations_with_replacement(pool, 2)]
        self.values += [f"[{pool[0]}]", f"({pool[0]},)", f"{{{pool[0]}: 1}}"]
        if kind == "AbstractSet":
            self.values += [f"frozenset([{p}])" for p in pool] + [f"{{{p}: 1}}.keys()" for p in pool]
        self.values += [j for j in JUNK if "frozenset" not in j]
        self.small = [f"{{{pool[0]}}}", f"{{{pool[-1]}}}", "set()"]

    def check(self, value, cfg):
        if not isinstance(value, collections.abc.Set):
            return None
        return joined(self.elem.check(v, cfg) for v in value)

    def arrays(self, value, cfg):
        return sum(self.elem.arrays(v, cfg) for v in value)


class Mapping(Node):
    """Dict[key, value]."""

    def __init__(self, key, elem, spelling="Dict"):
        self.key, self.elem = key, elem
        self.union = key.union or elem.union
        self.source = f"{spelling}[{key.source}, {elem.source}]"
        keys = [k.replace("arr(", "harr(") for k in key.small]
        self.values = ["{}"] + [f"{{{k}: {v}}}" for k in keys for v in elem.small]
        first, last = elem.small[0], elem.small[-1]
        self.values += [f"{{'k1': {a}, 'k2': {b}}}" for a in (first, last) for b in (first, last)]
        self.values += [f"same(lambda v: {{'k1': v, 'k2': v}}, {p})" for p in elem.small]
        self.values += [f"MyDict({{{keys[0]}: {first}}})", f"collections.defaultdict(list, {{{keys[0]}: {last}}})"]
        self.values += [f"collections.OrderedDict({{{keys[0]}: {first}}})", f"[({keys[0]}, {first})]", f"{{{keys[0]}: {first}}}.items()"]
        self.values += [f"{make}({{{k}: {first}}})" for make in MAPPINGS for k in keys[:1]]
        self.values += JUNK
        self.small = [f"{{{keys[0]}: {first}}}", f"{{{keys[0]}: {last}}}", f"{{{keys[-1]}: {first}}}", "{}"]

    def check(self, value, cfg):
        if not isinstance(value, dict):
            return None
        return joined(p for k, v in value.items() for p in (self.key.check(k, cfg), self.elem.check(v, cfg)))

    def arrays(self, value, cfg):
        return sum(self.key.arrays(k, cfg) + self.elem.arrays(v, cfg) for k, v in value.items())


class Fixed(Node):
    """Tuple[a, b], Tuple[()] and Tuple[a, ...]."""

    def __init__(self, elems, ellipsis=False, spelling="Tuple"):
        self.elems = elems
        self.ellipsis = ellipsis
        self.union = any(e.union for e in elems)
        inner = ", ".join(e.source for e in elems) + (", ..." if ellipsis else "")
        self.source = f"{spelling}[{inner or '()'}]"

        def tup(parts):
            return "(" + ", ".join(parts) + ("," if len(parts) == 1 else "") + ")"

        if ellipsis:
            combos = [c for n in range(3) for c in itertools.product(elems[0].small, repeat=n)]
        else:
            combos = list(itertools.product(*(e.small for e in elems)))
        base = tuple(c for c in combos[0] if True) if combos else ()
        self.values = [tup(c) for c in combos]
        if not ellipsis:
            full = [e.small[0] for e in elems]
            self.values += [tup(full + ["arr(1)"]), tup(full[:-1]), tup(full[::-1])]
        else:
            full = [elems[0].small[0]] * 2
        if len(elems) > 1:
            self.values += [f"same(lambda v: {tup(['v'] * len(elems))}, {p})" for e in elems for p in e.small]
        if ellipsis:
            self.values += [f"same(lambda v: (v, v, v), {p})" for p in elems[0].small]
        if full:
            self.values += [f"nt({', '.join(full)})", f"nt({', '.join(full + full[:1])})"]
            self.values += [f"nt({', '.join(c)})" for c in combos[-1:]]
        self.values += ["[" + ", ".join(full) + "]", f"MyTuple([{', '.join(full)}])"] + JUNK
        self.small = [tup(full), "()", self.values[-len(JUNK) - 2], tup(list(combos[-1]))] if full else ["()", "(3,)"]
        del base

    def parts(self, value):
        return [(e, v) for e, v in zip(self.elems * (len(value) if self.ellipsis else 1), value)]

    def check(self, value, cfg):
        if not isinstance(value, tuple):
            return None
        if not self.ellipsis and len(value) != len(self.elems):
            return None
        return joined(e.check(v, cfg) for e, v in self.parts(value))

    def arrays(self, value, cfg):
        return sum(e.arrays(v, cfg) for e, v in self.parts(value))


class Choice(Node):
    """Union, Optional, X | Y; alternatives bring no equations (or only one can match)."""

    union = True

    def __init__(self, elems, spelling="Union"):
        self.elems = elems
        sources = [e.source for e in elems]
        if spelling == "Optional":
            self.source = f"Optional[{sources[0]}]"
            self.elems = elems + [NONE]
        elif spelling == "|":
            self.source = "(" + " | ".join(sources) + ")"
        else:
            self.source = f"Union[{', '.join(sources)}]"
        self.values = ["None"] + [v for e in elems for v in e.values[: max(8, len(e.values) - len(JUNK))]] + JUNK
        if "Literal" not in self.source:  # whose message shows the value
            self.values += ["Unprintable()", "[Unprintable()]"]
        self.small = [elems[0].small[0], elems[-1].small[0], "None", elems[0].small[-1]]

    def check(self, value, cfg):
        for elem in self.elems:
            equations = elem.check(value, cfg)
            if equations is not None:
                return equations
        return None


class Noted(Node):
    """Annotated[...] means what it is about."""

    def __init__(self, elem):
        self.elem = elem
        self.union = elem.union
        self.source = f"Annotated[{elem.source}, 'note']"
        self.values, self.small = elem.values, elem.small

    def check(self, value, cfg):
        return self.elem.check(value, cfg)

    def arrays(self, value, cfg):
        return self.elem.arrays(value, cfg)


class NoneNode(Node):
    source = "None"
    values = ["None", "3"]
    small = ["None"]

    def check(self, value, cfg):
        return () if value is None else None


NONE = NoneNode()


class Named(Node):
    """A NamedTuple class, defined in the environment on first use."""

    def __init__(self, name, fields):
        self.source = name
        self.fields = fields
        self.union = any(n.union for _, n in fields)
        combos = list(itertools.product(*(n.small for _, n in fields)))
        self.values = [f"{name}({', '.join(c)})" for c in combos]
        good = ", ".join(n.small[0] for _, n in fields)
        bad = ", ".join(n.small[-1] for _, n in fields)
        if len(fields) > 1:
            self.values += [f"same(lambda v: {name}({', '.join(['v'] * len(fields))}), {p})" for _, n in fields for p in n.small]
        self.values += [f"({good},)", f"Other{name}({good})", f"Sub{name}({good})", f"Sub{name}({bad})", f"[{good}]"]
        self.values += JUNK
        self.small = [self.values[0], f"{name}({bad})", f"({good},)"]

    def define(self, env):
        fields = [(f, evaluate(n.source)) for f, n in self.fields]
        env[self.source] = typing.NamedTuple(self.source, fields)
        env["Other" + self.source] = typing.NamedTuple("Other" + self.source, fields)
        env["Sub" + self.source] = type("Sub" + self.source, (env[self.source],), {})

    def check(self, value, cfg):
        if not isinstance(value, evaluate(self.source)):
            return None
        return joined(n.check(getattr(value, f), cfg) for f, n in self.fields)

    def arrays(self, value, cfg):
        return sum(n.arrays(getattr(value, f), cfg) for f, n in self.fields)


class Typed(Node):
    """A TypedDict class; ``fields`` are (key, node, required).

    ``marks`` tells how it is written which keys are required: by classes with and without ``total``, or by
    ``Required[...]`` and ``NotRequired[...]`` in one class (with ``total``, without, also within ``Annotated``).
    """

    def __init__(self, name, fields, marks="classes"):
        self.source = name
        self.marks = marks if hasattr(typing, "Required") else "classes"
        self.fields = fields
        self.union = any(n.union for _, n, _ in fields)
        keys = [f for f, _, _ in fields]
        self.values = []
        for present in itertools.product((0, 1), repeat=len(fields)):
            pools = [n.small if p else [None] for p, (_, n, _) in zip(present, fields)]
            for combo in itertools.product(*pools):
                self.values.append("{" + ", ".join(f"'{k}': {v}" for k, v in zip(keys, combo) if v) + "}")
        full = ", ".join(f"'{k}': {n.small[0]}" for k, n, _ in fields)
        self.values += [f"{{{full}, 'extra': 1}}", f"{{{full}, 1: arr(1)}}", f"MyDict({{{full}}})", f"[{{{full}}}]"]
        self.values += [f"{make}({{{full}}})" for make in MAPPINGS]
        self.values += [f"collections.{kind}({extra}{v})" for kind, extra in (("defaultdict", "list, "), ("OrderedDict", "")) for v in self.values[: 3 + len(fields)]]
        self.values += [f"same(lambda v: {{{', '.join(repr(k) + ': v' for k in keys)}}}, {p})" for _, n, _ in fields for p in n.small]
        self.values += JUNK
        self.small = [f"{{{full}}}", "{}", f"{{{full}, 'extra': 1}}", "{" + ", ".join(f"'{k}': {n.small[-1]}" for k, n, _ in fields) + "}"]

    def define(self, env):
        if self.marks != "classes":
            marked = {}
            for field, node, required in self.fields:
                inner = evaluate(node.source)
                if self.marks == "noted":
                    inner = typing.Annotated[inner, "note"]
                if self.marks == "both" or required != (self.marks != "total=False"):
                    inner = typing.Required[inner] if required else typing.NotRequired[inner]
                if self.marks == "noted":
                    inner = typing.Annotated[inner, "note"]
                marked[field] = inner
            env[self.source] = typing.TypedDict(self.source, marked, total=self.marks != "total=False")
            return
        required = {f: evaluate(n.source) for f, n, r in self.fields if r}
        optional = {f: evaluate(n.source) for f, n, r in self.fields if not r}
        if not optional:
            env[self.source] = typing.TypedDict(self.source, required)
        elif not required:
            env[self.source] = typing.TypedDict(self.source, optional, total=False)
        else:
            base = typing.TypedDict("Base", required)
            meta = type(base)
            space = {"__annotations__": optional, "__module__": __name__}
            env[self.source] = meta(self.source, (base,), space, total=False)

    def check(self, value, cfg):
        if not isinstance(value, dict):
            return None
        keys = {f for f, _, _ in self.fields}
        if set(value) - keys or {f for f, _, r in self.fields if r} - set(value):
            return None
        return joined(n.check(value[f], cfg) for f, n, _ in self.fields if f in value)

    def arrays(self, value, cfg):
        return sum(n.arrays(value[f], cfg) for f, n, _ in self.fields if f in value)


# ---------------------------------------------------------------- environment

ENV = {}


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class User:
    pass


class SubUser(User):
    pass


class Duck:
    def quack(self):
        pass


@typing.runtime_checkable
class Quacks(typing.Protocol):
    def quack(self):
        ...


@typing.runtime_checkable
class HasName(typing.Protocol):
    name: str


class Named_(User):
    name = "x"


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Gen(typing.Generic[typing.TypeVar("T")]):
    pass


class MyFloat(float):
    pass


class MyRaw(io.RawIOBase):
    def readable(self):
        return True


class MyText(io.TextIOBase):
    pass


class Registered(abc.ABC):
    """ Has virtual subclasses. """


Registered.register(Duck)


class Odd(type):
    def __instancecheck__(cls, value):
        return type(value) in (int, float) and value == 7

    def __subclasscheck__(cls, value):
        return value is bool


class Lucky(metaclass=Odd):
    """ Decides about its instances itself. """


class Slots:
    __slots__ = ("a",)

    def method(self, one, two):
        return one


class Nasty:
    """ No array, and nothing may be asked of it. """

    def refuse(self, *args):
        raise RuntimeError("not to be asked")

    shape = property(refuse)
    dtype = property(refuse)
    tag = property(refuse)
    __eq__ = __ne__ = __bool__ = __len__ = __hash__ = __iter__ = __getitem__ = __contains__ = refuse
    __repr__ = __str__ = __format__ = lambda self, *args: "Nasty()"


class Unprintable:
    def refuse(self, *args):
        raise RuntimeError("not to be printed")

    __repr__ = __str__ = __format__ = refuse


class CallMe:
    def __call__(self, one, two=2):
        return one


def same(make, value):
    """One object in several places."""
    return make(value)


def nt(*values):
    """A named tuple."""
    return collections.namedtuple("NT", [f"f{i}" for i in range(len(values))])(*values)


def arr_maker():
    np = lib.NS["np"]

    class Hashable(np.ndarray):
        __hash__ = object.__hash__

    class WithAttributes(np.ndarray):
        pass

    def arr(*shape, dtype=float):
        return np.zeros(shape, dtype=dtype)

    def harr(*shape, dtype=float):
        return np.zeros(shape, dtype=dtype).view(Hashable)

    def att(shape, **attributes):
        value = np.zeros(shape).view(WithAttributes)
        for key, given in attributes.items():
            setattr(value, key, given)
        return value

    return arr, harr, att


def prepare(nodes=()):
    arr, harr, att = arr_maker()
    ENV.clear()
    ENV.update(lib.NS)
    ENV.update(
        arr=arr, harr=harr, att=att, deque=collections.deque, MyList=MyList, MyDict=MyDict, MyTuple=MyTuple, same=same, nt=nt, types=types,
        User=User, SubUser=SubUser, Registered=Registered, Lucky=Lucky, Slots=Slots, Nasty=Nasty, Unprintable=Unprintable, numbers=numbers, Duck=Duck, Quacks=Quacks, HasName=HasName, Named_=Named_, Color=Color,
        Gen=Gen, MyRaw=MyRaw, MyText=MyText, MyFloat=MyFloat, CallMe=CallMe, io=io, re=re, datetime=datetime, functools=functools,
        typing=typing, collections=collections,
    )
    for name in ("Iterator", "Hashable", "Sized", "Mapping", "Deque", "TypeVar", "Pattern", "SupportsInt",
                 "Awaitable", "ContextManager", "Collection", "DefaultDict", "Annotated"):
        ENV[name] = getattr(typing, name)
    ENV["T"] = typing.TypeVar("T")
    ENV.update(TC=typing.TypeVar("TC", int, str), TB=typing.TypeVar("TB", bound=object), TV=typing.TypeVar("TV", covariant=True))
    if "tf" in lib.NS:
        import tensorflow as tf

        ENV["tfv"] = lambda *shape, dtype="float32": tf.zeros(shape, dtype=dtype)
    if "torch" in lib.NS:
        import torch

        ENV["tov"] = lambda *shape, dtype="float32": torch.zeros(shape, dtype=getattr(torch, dtype))
    define(nodes)


def define(nodes):
    """Defines the classes of NamedTuple and TypedDict nodes, innermost first."""
    for node in nodes:
        for sub in children(node):
            define([sub])
        if hasattr(node, "define") and node.source not in ENV:
            node.define(ENV)


def children(node):
    out = []
    for attr in ("elem", "key"):
        if hasattr(node, attr):
            out.append(getattr(node, attr))
    out += list(getattr(node, "elems", ()))
    out += [f[1] for f in getattr(node, "fields", ())]
    return out


def evaluate(source):
    return eval(source, ENV)  # pylint: disable=eval-used


# ---------------------------------------------------------------- plain annotations


def bindable(count):
    def accepts(value):
        if not callable(value):
            return False
        try:
            signature = inspect.signature(value)
        except (TypeError, ValueError):
            return True
        try:
            signature.bind(*range(count))
        except TypeError:
            return False
        return True

    return accepts


def inst(*classes):
    return lambda value: isinstance(value, classes)


def subclass(cls):
    return lambda value: inspect.isclass(value) and issubclass(value, cls)


def plain_nodes():
    """Called after the environment exists."""
    def option(*options):
        return lambda value: any(type(value) is type(o) and value == o for o in options)

    nodes = [
        Plain("int", inst(int), ["7"], ["'x'", "2.5"]),
        Plain("float", inst(float), ["2.5"], ["7", "1j", "'1.5'"]),
        Plain("complex", inst(complex), ["1j"], ["2.5", "7"]),
        Plain("bool", inst(bool), ["True"], ["1", "0"]),
        Plain("str", inst(str), ["'x'"], ["b'x'", "7"]),
        Plain("bytes", inst(bytes, bytearray), ["b'x'", "bytearray(2)"], ["'x'", "memoryview(b'')"]),
        Plain("bytearray", inst(bytearray), ["bytearray(2)"], ["b'x'"]),
        Plain("object", lambda value: True, ["7"], []),
        Plain("Any", lambda value: True, ["7"], []),
        Plain("User", inst(User), ["User()", "SubUser()"], ["Duck()", "User"]),
        Plain("MyFloat", inst(MyFloat), ["MyFloat(1)"], ["1.5", "7", "'x'"]),
        Plain("MyTuple", inst(MyTuple), ["MyTuple()"], ["(7,)", "'x'"]),
        Plain("MyList", inst(MyList), ["MyList()"], ["[7]"]),
        Plain("MyDict", inst(MyDict), ["MyDict()"], ["{7: 7}"]),
        Plain("np.float64", lambda v: isinstance(v, lib.NS["np"].float64), ["np.float64(1)"], ["1.5", "7"]),
        Plain("np.ndarray", lambda v: isinstance(v, lib.NS["np"].ndarray), ["arr(2)"], ["[2]", "7"]),
        Plain("list", inst(list), ["[7]"], ["(7,)"]),
        Plain("dict", inst(dict), ["{7: 7}"], ["[7]"]),
        Plain("set", inst(set), ["{7}"], ["[7]"]),
        Plain("datetime.datetime", inst(datetime.datetime), ["datetime.datetime(2020, 1, 1)"], ["datetime.date(2020, 1, 1)"]),
        Plain("Color", inst(Color), ["Color.RED"], ["1", "'RED'"]),
        Plain("type", inst(type), ["int", "User"], ["User()"]),
        Plain("Type", inst(type), ["int", "User"], ["User()", "'int'"]),
        Plain("Type[User]", subclass(User), ["User", "SubUser"], ["Duck", "User()", "int"]),
        Plain("Type[Any]", inst(type), ["User", "int"], ["User()"]),
        Plain("Type[T]", inst(type), ["User", "int"], ["User()"]),
        Plain("Type[TC]", inst(type), ["int", "str"], ["7", "'int'"]),
        Plain("Type[TB]", inst(type), ["User", "int"], ["7", "User()"]),
        Plain("Type[TV]", inst(type), ["int", "User"], ["7", "User()"]),
        Plain("Callable", callable, ["len", "CallMe()", "User"], ["7", "User()"]),
        Plain("Callable[..., int]", callable, ["len", "CallMe()", "(lambda: 1)"], ["7"]),
        Plain("Callable[[], int]", bindable(0), ["(lambda: 1)", "(lambda a=1: 1)", "User", "(lambda *a: 1)"], ["(lambda a: 1)", "CallMe()", "7"]),
        Plain("Callable[[int], int]", bindable(1), ["(lambda a: 1)", "len", "CallMe()", "(lambda a, b=1: 1)", "functools.partial((lambda a, b: 1), 1)", "(lambda *a: 1)"], ["(lambda: 1)", "(lambda a, b: 1)", "7"]),
        Plain("Callable[[int, int], Any]", bindable(2), ["(lambda a, b: 1)", "CallMe()", "(lambda a, b=1, c=1: 1)", "(lambda a, *b: 1)"], ["(lambda a: 1)", "(lambda a, b, c: 1)", "(lambda: 1)", "(lambda a=1: 1)"]),
        Plain("Literal[1, 'a']", option(1, "a"), ["1", "'a'"], ["2", "'b'", "None"]),
        Plain("Literal[None, Color.RED]", option(None, Color.RED), ["Color.RED"], ["Color.BLUE", "0"]),
        Plain("Quacks", inst(Quacks), ["Duck()"], ["User()", "7"]),
        Plain("HasName", inst(HasName), ["Named_()"], ["User()", "7"]),
        Plain("IO", inst(io.IOBase), ["io.StringIO()", "io.BytesIO()", "MyRaw()"], ["'x'", "7"]),
        Plain("IO[str]", inst(io.IOBase), ["io.StringIO()"], ["'x'"]),
        Plain("TextIO", inst(io.TextIOBase), ["io.StringIO()", "MyText()"], ["io.BytesIO()", "MyRaw()", "'x'"]),
        Plain("BinaryIO", inst(io.RawIOBase, io.BufferedIOBase), ["io.BytesIO()", "MyRaw()", "io.BufferedReader(MyRaw())"], ["io.StringIO()", "io.IOBase()", "b'x'"]),
        Plain("Iterable[int]", inst(collections.abc.Iterable), ["[7]", "range(2)"], ["7"]),
        Plain("Iterator[int]", inst(collections.abc.Iterator), ["iter([7])"], ["[7]"]),
        Plain("Mapping[str, int]", inst(collections.abc.Mapping), ["{'a': 7}"], ["[7]"]),
        Plain("Hashable", inst(collections.abc.Hashable), ["7"], ["[7]"]),
        Plain("Sized", inst(collections.abc.Sized), ["[7]"], ["7"]),
        Plain("Deque[int]", inst(collections.deque), ["collections.deque()"], ["[7]"]),
        Plain("DefaultDict[str, int]", inst(collections.defaultdict), ["collections.defaultdict(int)"], ["{7: 7}"]),
        Plain("SupportsInt", inst(typing.SupportsInt), ["7", "2.5"], ["'x'", "[]"]),
        Plain("ContextManager", inst(typing.ContextManager), ["io.StringIO()"], ["7"]),
        Plain("Pattern", inst(re.Pattern), ["re.compile('a')"], ["'a'"]),
        Plain("Type[numbers.Number]", subclass(numbers.Number), ["int", "np.float64"], ["str", "7"]),
        Plain("Type[Registered]", subclass(Registered), ["Registered", "Duck"], ["User", "Duck()"]),
        Plain("Type[collections.abc.Sized]", subclass(collections.abc.Sized), ["list", "str"], ["int", "[7]"]),
        Plain("Type[Lucky]", subclass(Lucky), ["bool"], ["int", "7"]),
        Plain("Registered", inst(Registered), ["Duck()"], ["User()", "Duck"]),
        Plain("Lucky", inst(Lucky), ["7", "7.0"], ["'7'", "User()"]),
        Plain("numbers.Number", inst(numbers.Number), ["7", "2.5", "np.float64(1)"], ["'x'", "User"]),
        Plain("numbers.Integral", inst(numbers.Integral), ["7", "True", "np.int64(1)"], ["2.5"]),
        Plain("collections.abc.Sequence", inst(collections.abc.Sequence), ["[7]", "'x'", "range(2)"], ["{7}", "7"]),
        Plain("collections.abc.Callable", callable, ["len", "User"], ["7"]),
        Plain("Slots", inst(Slots), ["Slots()"], ["User()"]),
        Plain("T", lambda value: True, ["7", "'x'"], []),
        Plain("Callable[[int, int], str]", bindable(2), ["Slots().method", "max", "(lambda a, b, *, c=1: 1)", "(lambda *a, **k: 1)", "functools.partial((lambda a, b, c: 1), 1)"], ["Slots.method", "Slots().__init_subclass__", "(lambda a, /: 1)", "User()"]),
        Plain("Gen[int]", inst(Gen), ["Gen()"], ["7"]),
    ]
    return nodes


# ---------------------------------------------------------------- calls


RAN = []
RESULT = [None]


def make_function(nodes, returns=None, names=("p", "q", "r")):
    """A decorated function with the nodes' annotations; the body returns RESULT[0]."""
    if len(nodes) == 0:
        def func():
            RAN.append(())
            return RESULT[0]
    elif len(nodes) == 1:
        def func(p):
            RAN.append((p,))
            return RESULT[0]
    elif len(nodes) == 2:
        def func(p, q):
            RAN.append((p, q))
            return RESULT[0]
    else:
        def func(p, q, r):
            RAN.append((p, q, r))
            return RESULT[0]
    func.__annotations__ = dict(zip(names, [n.annotation() for n in nodes]))
    if returns is not None:
        func.__annotations__["return"] = returns.annotation()
    return lib.NS["typechecked"](func)


def verdict(nodes, args, returns, result, cfg):
    """'accepted', 'rejected before' or 'rejected after', by the model."""
    equations = joined(n.check(a, cfg) for n, a in zip(nodes, args))
    if equations is None or not model.solvable(equations):
        return "rejected before"
    if returns is not None:
        after = returns.check(result, cfg)
        if after is None or not model.solvable(equations + after):
            return "rejected after"
    return "accepted"


def call(func, args, result):
    """(outcome, body runs, returned object is the result, printed text)."""
    RAN.clear()
    RESULT[0] = result
    lib.SINK.start()
    same = None
    try:
        with lib.limit(60):
            got = func(*args)
        outcome = "ok"
        same = got is result
    except lib.Alarm:
        outcome = "Alarm"
    except TypeError:
        outcome = "TypeError"
    except Exception as err:  # pylint: disable=broad-except
        outcome = f"raises {type(err).__name__}: {err}"
    text = lib.SINK.stop()
    fine = len(RAN) <= 1 and all(len(r) == len(args) and all(a is b for a, b in zip(r, args)) for r in RAN)
    return outcome, len(RAN), same and fine if outcome == "ok" else None, text


def judge(func, nodes, sources, returns, result_source, cfg):
    """Runs one call; returns (model verdict, observation, args, result)."""
    args = [evaluate(s) for s in sources]
    result = evaluate(result_source)
    want = verdict(nodes, args, returns, result, cfg)
    return want, call(func, args, result), args, result


HARD = {
    "accepted": ("ok", 1, True),
    "rejected before": ("TypeError", 0, None),
    "rejected after": ("TypeError", 1, None),
}
