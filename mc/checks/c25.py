"""C25: checking leaves alone what it looks at."""
import atexit
import collections
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import random
import socket
import sys
import tempfile
import threading
import types
import warnings
import weakref

from mc import grammar as g
from mc import lib
from mc.checks import c14

LEVEL = "exploration"
RULE = (
    "every annotation of the container grammar of C14, symbolic, attribute and placeholder annotations and "
    "plain ones x their fitting, unfitting and junk values, values that are used up or filled in by looking at "
    "them (iterators, generators, files, default dictionaries, lazily filled attributes), as parameter and as result, "
    "with errors raised or printed: before and after the call, everything reachable from the value (identity and "
    "order of elements, bytes, shape, strides, flags and attributes of arrays), the annotation, the placeholders and "
    "the process-wide settings are the same; the body gets and returns the very objects; and once the caller drops "
    "them, they are freed. Non-trivial: the value is a container, an array or can be used up"
)
ASSUMPTIONS = [
    "freed means after garbage collection; what the raised error itself refers to is dropped with it",
    "process-wide settings: NumPy's print, error and random states, random, warnings, environment, working directory, "
    "standard streams, recursion limit, import system, tracing, signal handlers, locale, decimal context, logging, "
    "hooks and limits of sys, threading, atexit and socket",
]

USED_UP = [
    "iter([7, arr(2)])", "(n for n in [7, arr(1), 'x'])", "map(str, [1, 2])", "zip([1], [2])", "enumerate([arr(1)])", "reversed([1, 2])",
    "io.StringIO('abc')", "io.BytesIO(b'abc')", "collections.defaultdict(list, {'k': arr(1)})", "collections.defaultdict(list)",
    "Counting({'a': arr(1)})", "Lazy()", "[iter([arr(1)])]", "(iter([1]), arr(2))", "{'a': iter([1])}", "[Lazy(), Lazy()]", "Once([arr(1), arr(1)])",
    "collections.deque([arr(1), arr(2)])", "arr(0)", "arr(0, 2)", "arr(2, 0)[1:]", "readonly(arr(1))", "readonly(arr(2))", "readonly(arr(0))", "readonly(arr(2, 3))",
    "[readonly(arr(1))]", "(arr(0), readonly(arr(2)))", "arr(2, 2)[::-1, ::2]", "readonly(arr(2, 3).T)", "arr(3)[1:]", "[arr(4)[::2]]", "[arr(1)] * 3", "memoryview(bytearray(b'ab'))", "bytearray(b'abc')", "itertools.count()",
]


def bounds(tier):
    return {
        "annotations": "those of C14 (quick: those of nesting one), symbolic, attribute, placeholder and plain ones",
        "values": f"the annotations' own, and {len(USED_UP)} that are used up or filled in",
        "places": "parameter, result",
        "configurations": "raise-errors x print-passes x check-all-sequence-elements",
    }


def jobs(tier):
    out = []
    for raising, passes in (("yes", "no"), ("no", "yes")) if tier == "quick" else itertools.product(("yes", "no"), repeat=2):
        for every in ("yes",) if tier == "quick" else ("yes", "no"):
            config = {
                "raise-errors": raising, "print-passes": passes, "check-non-asta-types": "yes", "check-all-sequence-elements": every,
            }
            out += lib.split(4, name=f"raise={raising}", params={"family": "Array"}, config=config)
    out += lib.split(1, name="tf", backend="tf", params={"family": "TFTensor"})
    out += lib.split(1, name="torch", backend="torch", params={"family": "Tensor"})
    return out


class Counting(dict):
    """Makes up what is missing, and remembers it."""

    def __missing__(self, key):
        self[key] = 1
        return 1


class Lazy:
    """Has attributes once they are asked for; only these may be."""

    allowed = ("shape", "dtype", "tag", "size_")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = 1
        return 1


class Once(list):
    """A list that counts how it was changed."""

    changes = 0

    def changed(self, *args):
        self.changes += 1

    append = insert = extend = pop = remove = sort = reverse = clear = __setitem__ = __delitem__ = __iadd__ = changed


def readonly(array):
    array.flags.writeable = False
    return array


def nodes(family, tier):
    f = dict(family=family)
    out = [
        g.Arr(("X", "Y", "X + Y"), **f, more=[(2, 3, 5), (2, 2, 2), (2, 3, 0)]), g.Arr(("X*Y", "X + Y"), **f, more=[(6, 5), (6, 4), (0, 1)]),
        g.Arr(("X", "Y", "Z", "X*Y*Z - 1"), **f, more=[(1, 2, 3, 5), (1, 2, 3, 4)]), g.Arr(("X**2", "X*Y", -1), **f, more=[(4, 6, 1), (5, 6, 1)]),
        g.Arr((0, 2), **f, more=[(2, 0), (0, 3)]), g.Arr(None, source=None, **f, more=[(0, 2), (0,)]), g.Listing("List", g.Arr((0,), **f, more=[(1,)])),
        g.Arr(None, **f), g.Arr((), **f), g.Arr(("X", "X + 1"), **f, more=[(1, 2)]), g.Listing("List", g.Arr(("X",), **f, more=[(3,)])),
    ]
    a, b, c, i, s = c14.leaves(family)
    if family == "Array":
        out += [
            g.Attr({"tag": 1}), g.Attr({"size_": "X"}, ("X",)), g.Arr((2,), source="Array[D]", more=[(3,)]),
            g.Arr((1, 2, 3), source="Array[1, W]", more=[(1, 2)]), g.Arr((2, 3, 1), source="Array[W + (1,)]", more=[(1, 2)]),
            g.Never((2,), source="Array[U]", more=[(3,)]), g.Never((2, 1), source="Array[V + (1,)]", more=[(3,)]),
        ]
        if tier == "thorough":
            out += c14.nodes(family, "quick")
        else:
            first = c14.once("1", a, b, s, [g.Fixed([])])
            out += [a, b, c] + first + c14.sets(a) + c14.once("i0", first[0], a, s) + c14.once("i2", first[2], a, s)
        out += g.plain_nodes()
    else:
        out += [a, b] + c14.once("1", a, b, s, [])
    return out


# --- what there is to see of a value -------------------------------------------------------

LEAVES = (int, float, complex, str, bytes, type(None), bool, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type(...))


def snapshot(value, seen=None):
    """Everything reachable from a value that a caller can notice, without using anything up."""
    seen = {} if seen is None else seen
    if id(value) in seen:
        return ("again", seen[id(value)])
    seen[id(value)] = len(seen)
    if isinstance(value, LEAVES):
        # What others can hang on to functions and classes.
        hung = {}
        if isinstance(value, (types.FunctionType, type)):
            hung = {k: id(v) for k, v in vars(value).items() if not k.startswith("_abc") and k not in ("__dict__", "__weakref__")}
        if isinstance(value, types.FunctionType):
            hung["itself"] = [id(value.__code__), repr(value.__defaults__), repr(value.__kwdefaults__), sorted(value.__annotations__)]
        return ("leaf", type(value).__name__, id(value), hung)
    np = lib.NS["np"]
    inside = []
    if isinstance(value, np.ndarray):
        flags = value.flags
        inside.append((value.shape, value.strides, str(value.dtype), value.tobytes(), flags.writeable, flags.owndata, id(value.base)))
    elif isinstance(value, io.StringIO):
        inside.append((value.tell(), value.getvalue(), value.closed))
    elif isinstance(value, io.BytesIO):
        inside.append((value.tell(), value.getvalue(), value.closed))
    elif isinstance(value, (bytearray, memoryview)):
        inside.append(bytes(value))
    elif isinstance(value, dict):
        inside += [(snapshot(k, seen), snapshot(v, seen)) for k, v in dict.items(value)]
    elif isinstance(value, list):
        inside += [snapshot(v, seen) for v in list.__iter__(value)]
    elif isinstance(value, tuple):
        inside += [snapshot(v, seen) for v in tuple.__iter__(value)]
    elif isinstance(value, (set, frozenset, collections.deque)):
        inside += [snapshot(v, seen) for v in value]
    elif "tf" in lib.NS and isinstance(value, lib.NS["tf"].Tensor):
        inside.append((tuple(value.shape), str(value.dtype), value.numpy().tobytes()))
    elif type(value).__name__ in ("generator",):
        inside.append((value.gi_running, value.gi_frame is None, value.gi_frame and value.gi_frame.f_lasti))
    elif hasattr(type(value), "__length_hint__"):
        inside.append(value.__length_hint__())
    elif type(value).__name__ in ("count", "zip", "map", "enumerate"):
        inside.append(repr(value.__reduce__()) if type(value).__name__ == "count" else [r.__length_hint__() for r in gc.get_referents(value) if hasattr(r, "__length_hint__")])
    space = getattr(value, "__dict__", None) if not isinstance(value, g.Nasty) else None
    if isinstance(space, dict) and "torch" not in type(value).__module__:
        allowed = Lazy.allowed if isinstance(value, Lazy) else ()
        inside.append({k: snapshot(v, seen) for k, v in space.items() if k not in allowed})
    return (type(value).__name__, id(value), inside)


def settings():
    """What the process has besides values."""
    np = lib.NS["np"]
    import signal

    return {
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)), "np.geterr": np.geterr(),
        "np.random": repr(np.random.get_state()[1][:5]) + str(np.random.get_state()[2]), "random": hash(random.getstate()),
        "warnings": list(map(str, warnings.filters)), "environment": dict(os.environ), "working directory": os.getcwd(),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "stdin": id(sys.stdin), "recursion": sys.getrecursionlimit(),
        "import path": list(sys.path), "finders": list(map(id, sys.meta_path)), "hook": id(sys.excepthook), "trace": sys.gettrace(),
        "profile": sys.getprofile(), "signal": str(signal.getsignal(signal.SIGINT)), "gc": (gc.isenabled(), gc.get_threshold()),
        "display": id(sys.displayhook), "digits": sys.get_int_max_str_digits(), "switching": sys.getswitchinterval(),
        "threads": (id(threading.excepthook), threading.stack_size(), threading.active_count()), "locale": locale.setlocale(locale.LC_ALL),
        "decimal": str(decimal.getcontext()), "coroutines": sys.get_coroutine_origin_tracking_depth(), "dlopen": sys.getdlopenflags(),
        "print functions": repr(np.format_float_positional(0.1)), "buffer": np.getbufsize(), "err call": np.geterrcall(),
        "warnings shown": (id(warnings.showwarning), id(warnings.formatwarning)), "asyncgen": sys.get_asyncgen_hooks(),
        "logging": (logging.root.level, list(map(id, logging.root.handlers)), logging.root.manager.disable), "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "exit": atexit._ncallbacks(), "default timeout": socket.getdefaulttimeout(), "tempdir": tempfile.tempdir, "encodings": sys.getfilesystemencoding(),
    }


def placeholders():
    dims, shapes = lib.NS["dims"], lib.NS["shapes"]
    out = {f"dims.{k}": getattr(dims, k) for k in ("D", "U")}
    out.update({f"shapes.{k}": getattr(shapes, k) for k in ("W", "V")})
    return {k: repr(v) for k, v in out.items()}


def described(function):
    """The annotations of the decorated function, by identity and by what they say."""
    out = {}
    for name, annotation in function.__annotations__.items():
        out[name] = (id(annotation), repr(annotation), str(getattr(annotation, "shape", "")), str(getattr(annotation, "dtype", "")),
                     str(getattr(annotation, "kwattrs", "")))
    return out


# --- calls -----------------------------------------------------------------------------------


BODY = {"got": None, "result": None}


def make(annotation, place):
    if place == "parameter":
        def function(p):
            BODY["got"] = (id(p), snapshot(p))
            return p
        function.__annotations__ = {"p": annotation}
    else:
        def function():
            return BODY["result"]
        function.__annotations__ = {"return": annotation}
    return function, lib.NS["typechecked"](function)


def mortal(value, found=None, depth=0):
    """Weak references to all that is reachable through containers."""
    found = [] if found is None else found
    try:
        found.append((type(value).__name__, weakref.ref(value)))
    except TypeError:
        pass
    if isinstance(value, (list, tuple, set, frozenset, collections.deque)) and depth < 4:
        for v in value:
            mortal(v, found, depth + 1)
    elif isinstance(value, dict) and depth < 4:
        for k, v in dict.items(value):
            mortal(k, found, depth + 1)
            mortal(v, found, depth + 1)
    return [f for f in found if not isinstance(f[1](), (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType))] if depth == 0 else found


def unusual():
    """Settings nobody but this check has, so that setting them shows, even if calls before did so too."""
    np = lib.NS["np"]
    sys.set_int_max_str_digits(5003)
    sys.setswitchinterval(0.0059)
    sys.setrecursionlimit(1003)
    gc.set_threshold(703, 11, 9)
    np.set_printoptions(precision=7, threshold=997, edgeitems=4, linewidth=77)
    np.seterr(divide="ignore", over="warn", under="warn", invalid="ignore")
    decimal.getcontext().prec = 29
    socket.setdefaulttimeout(17.0)
    logging.root.setLevel(31)
    warnings.simplefilter("default")


def one(function, decorated, source, place):
    """What went wrong in one call, or None."""
    value = g.evaluate(source)
    unusual()
    before, around, held, said = snapshot(value), settings(), placeholders(), described(function)
    BODY.update(got=None, result=value if place == "result" else None)
    lib.SINK.start()
    result = outcome = None
    try:
        with lib.limit(60):
            result = decorated(value) if place == "parameter" else decorated()
        outcome = "ok"
    except lib.Alarm:
        outcome = "Alarm"
    except Exception as err:  # pylint: disable=broad-except
        outcome = type(err).__name__
    lib.SINK.stop()
    BODY["result"] = None
    if outcome == "ok" and result is not value:
        return outcome, "the result is another object"
    result = None
    if BODY["got"] and BODY["got"] != (id(value), before):
        return outcome, "the body was given something else, or something changed"
    for label, was, now in (
        ("the value", before, snapshot(value)), ("the process", around, settings()), ("the placeholders", held, placeholders()),
        ("the annotation", said, described(function)),
    ):
        if was != now:
            return outcome, f"{label} changed: before {str(was)[:300]}, afterwards {str(now)[:300]}"
    BODY["got"] = before = None
    references = mortal(value)
    value = None
    alive = [name for name, reference in references if reference() is not None]
    if alive:
        gc.collect()
        alive = [name for name, reference in references if reference() is not None]
    if alive:
        # Not everything dies with its last user: compare with the same without a call.
        value = g.evaluate(source)
        references = mortal(value)
        value = None
        gc.collect()
        if len([1 for _, reference in references if reference() is not None]) < len(alive):
            return outcome, f"{alive} of the value still there after everybody dropped it"
    return outcome, None


def classes():
    """How many annotation classes there are."""
    gc.collect()
    todo, seen = [lib.NS[n] for n in ("Array", "TFTensor", "Tensor") if n in lib.NS], set()
    todo += [m for m in todo[0].__mro__[1:-1]]
    while todo:
        cls = todo.pop()
        if cls is object or id(cls) in seen:
            continue
        seen.add(id(cls))
        todo += type.__subclasses__(cls)
    return len(seen)


def prepare(everything):
    g.prepare()
    g.ENV.update(Counting=Counting, Lazy=Lazy, Once=Once, itertools=itertools, readonly=readonly)
    dims, shapes = lib.NS["dims"], lib.NS["shapes"]
    g.ENV.update(D=dims.D, U=dims.U, W=shapes.W, V=shapes.V)
    dims.D = 2
    shapes.W = (2, 3)
    g.define(everything)
    gc.collect()
    gc.freeze()


def decide(ctx, index, node, source, place, made):
    outcome, error = one(*made, source, place)
    ctx.count("evaluations")
    ctx.outcome(outcome)
    if not source[0].isdigit() and source[0] not in "'.Nb":
        ctx.count("distinct_nontrivial")
        ctx.sample({"annotation": node.source, "value": source, "place": place}, 3)
    if error:
        ctx.violation(
            {"index": index, "value": source, "place": place},
            f"{source} as {place} annotated {node.source} ({outcome}): {error}",
        )


def left(ctx, index, node, place, around):
    """Calls leave no annotation classes behind."""
    ctx.count("evaluations")
    if classes() != around:
        ctx.violation(
            {"index": index, "value": None, "place": place},
            f"calls of {node.source} as {place} leave {classes() - around} annotation classes behind",
        )


def values(node, family):
    extra = USED_UP
    if family != "Array":
        extra = [v for v in USED_UP if "arr(" not in v]
    return dict.fromkeys(list(node.values) + extra)


def run(ctx):
    family = ctx.params["family"]
    g.prepare()
    everything = nodes(family, ctx.tier)
    prepare(everything)
    done = set()
    for index, node in enumerate(everything):
        if node.source in done or not ctx.mine():
            continue
        done.add(node.source)
        for place in ("parameter", "result"):
            made = make(node.annotation(), place)
            one(*made, "None", place)  # The configuration keeps the function it saw last.
            around = classes()
            for source in values(node, family):
                decide(ctx, index, node, source, place, made)
            left(ctx, index, node, place, around)
            made = None


def replay(case, ctx):
    g.prepare()
    everything = nodes(ctx.params["family"], ctx.tier)
    prepare(everything)
    node = everything[case["index"]]
    made = make(node.annotation(), case["place"])
    one(*made, "None", case["place"])
    around = classes()
    for source in [case["value"]] if case["value"] else values(node, ctx.params["family"]):
        decide(ctx, case["index"], node, source, case["place"], made)
    if not case["value"]:
        left(ctx, case["index"], node, case["place"], around)
