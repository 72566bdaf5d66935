"""C14: containers of array types are checked element by element."""
import collections.abc

from mc import grammar as g
from mc import lib
from mc.checks import c04

LEVEL = "exploration"
RULE = (
    "every annotation of the stated container grammar over array (and plain) leaves up to the stated "
    "nesting, as parameter and as result annotation x its values: every combination of fitting and "
    "unfitting elements up to two, the same elements in other containers, missing and additional keys, "
    "and junk of every kind; verdict, body runs and result of the real call against the recursive "
    "reference model, with check-all-sequence-elements and check-non-asta-types on and off; and "
    "containers and Unions of symbolic arrays, with a second parameter using the symbols (the spaces "
    "'unions' and 'containers' of C04), where an alternative or element which matches only in part must leave no trace; and long containers, "
    "class bodies and Unions of every stated length with one unfitting element at every position. "
    "Non-trivial: the value has the outer container's kind"
)
ASSUMPTIONS = [
    "containers have at most two elements, or up to the stated length with one that does not fit",
    "Set is not tested with frozenset values; sets contain hashable subclasses of ndarray",
]


def bounds(tier):
    return {
        "nesting": 3 if tier == "thorough" else 2,
        "constructors": "List Sequence Set AbstractSet Dict Tuple[a,b] Tuple[a,...] Tuple[()] Optional Union | NamedTuple TypedDict",
        "lengths": LENGTHS[tier],
        "long": list(LONG),
        "configurations": "check-all-sequence-elements x check-non-asta-types",
    }


def jobs(tier):
    out = []
    for every in ("yes", "no"):
        for plain in ("no", "yes"):
            out += lib.split(
                8 if tier == "thorough" else 4, name=f"all={every} plain={plain}", params={"family": "Array"},
                config={"check-all-sequence-elements": every, "check-non-asta-types": plain},
            )
    for space in ("unions", "containers") if tier == "thorough" else ("unions",):
        out += lib.split(8 if tier == "thorough" else 2, name=f"symbols, {space}", params={"space": space})
    out += lib.split(8 if tier == "thorough" else 4, name="long", params={"space": "long"})
    out += lib.split(1, name="long, first only", params={"space": "long", "short": 1}, config={"check-all-sequence-elements": "no"})
    out += lib.split(2, name="tf", backend="tf", params={"family": "TFTensor"})
    out += lib.split(1, name="torch", backend="torch", params={"family": "Tensor"})
    return out


LENGTHS = {"quick": [4, 9, 17, 33, 65, 130], "thorough": [*range(3, 20), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 257, 520]}


def keyed(values):
    return {f"k{i}": v for i, v in enumerate(values)}


def fields(n, how, leaf):
    """A class with n fields which share an annotation, or a Tuple or Union of that many."""
    N = lib.NS
    if how == "NamedTuple":
        return N["NamedTuple"]("Long", [(f"k{i}", leaf) for i in range(n)])
    if how == "TypedDict":
        return N["TypedDict"]("LongDict", {f"k{i}": leaf for i in range(n)})
    return N["Tuple"][tuple([leaf] * n)]


# name: (annotation for n elements, value from the list of its elements, only the first element counts on request)
LONG = {
    "List": (lambda n, a: lib.NS["List"][a], list, True),
    "Sequence of list": (lambda n, a: lib.NS["Sequence"][a], list, True),
    "Sequence of tuple": (lambda n, a: lib.NS["Sequence"][a], tuple, True),
    "Sequence of deque": (lambda n, a: lib.NS["Sequence"][a], lambda v: collections.deque(v), True),
    "Tuple[a, ...]": (lambda n, a: lib.NS["Tuple"][a, ...], tuple, False),
    "Tuple[a, a]": (lambda n, a: fields(n, "Tuple", a), tuple, False),
    "Dict values": (lambda n, a: lib.NS["Dict"][str, a], keyed, False),
    "Dict keys": (lambda n, a: lib.NS["Dict"][a, str], lambda v: {h: "x" for h in hashables(v)}, False),
    "Set": (lambda n, a: lib.NS["Set"][a], lambda v: set(hashables(v)), False),
    "frozenset": (lambda n, a: lib.NS["AbstractSet"][a], lambda v: frozenset(hashables(v)), False),
    "NamedTuple": (lambda n, a: fields(n, "NamedTuple", a), lambda v: v, False),
    "TypedDict": (lambda n, a: fields(n, "TypedDict", a), keyed, False),
    "List of List": (lambda n, a: lib.NS["List"][lib.NS["List"][a]], lambda v: [[x] for x in v], True),
    "List in Tuple": (lambda n, a: lib.NS["Tuple"][lib.NS["List"][a], int], lambda v: (v, 1), True),
    "List of Optional": (lambda n, a: lib.NS["List"][lib.NS["Optional"][a]], list, True),
    "Union": (None, None, False),
    "parameters": (None, None, False),
}


def hashables(values):
    return [v.view(HASHABLE[0]) for v in values]


HASHABLE = []


def long_verdict(function, *args):
    try:
        with lib.limit(120):
            return "ok" if function(*args) is args[0] else "something else"
    except lib.Alarm:
        return "Alarm"
    except TypeError:
        return "TypeError"
    except Exception as err:  # pylint: disable=broad-except
        return f"raises {type(err).__name__}"


def long_case(kind, n, bad, every):
    """(got, want) for n elements of which the one at ``bad`` (None: none) does not fit."""
    N = lib.NS
    np, Array = N["np"], N["Array"]
    leaf = Array[2, N["X"]]
    parts = [np.zeros((2, 4)) for _ in range(n)]
    if bad is not None:
        parts[bad] = np.zeros((2, 5) if bad and bad % 2 else (3, 4))
    want = "ok" if bad is None else "TypeError"
    if kind == "Union":
        # here the only alternative which fits is the one at ``bad``
        annotation = N["Union"][tuple(Array[7 if i == bad else i + 10, 3] for i in range(n))]
        parts, want = [np.zeros((7, 3))], "TypeError" if bad is None else "ok"
    if kind in ("Union", "parameters"):
        names = [f"k{i}" for i in range(len(parts))]
        space = {}
        exec(f"def function({', '.join(names)}):\n    return k0", space)  # pylint: disable=exec-used
        function = space["function"]
        function.__annotations__ = {name: annotation if kind == "Union" else leaf for name in names}
        return long_verdict(N["typechecked"](function), *parts), want
    make, build, sequence = LONG[kind]
    annotation = make(n, leaf)
    value = annotation(*parts) if kind == "NamedTuple" else build(parts)

    def function(p):
        return p

    function.__annotations__ = {"p": annotation}
    if sequence and not every and bad:
        want = "ok"
    return long_verdict(N["typechecked"](function), value), want


def run_long(ctx):
    np = lib.NS["np"]
    HASHABLE[:] = [type("HashableArray", (np.ndarray,), {"__hash__": object.__hash__})]
    every = ctx.job.get("config", {}).get("check-all-sequence-elements", "yes") == "yes"
    for kind in LONG:
        for n in LENGTHS[ctx.tier]:
            if n > 40 and (ctx.params.get("short") or ctx.tier == "quick" and kind in ("Union", "parameters", "TypedDict", "NamedTuple")):
                continue
            for bad in [None, *range(n)]:
                if not ctx.mine():
                    continue
                if kind in ("Dict keys", "Set", "frozenset") and bad not in (None, 0) and n > 33 and bad % 5:
                    continue  # no order to speak of
                got, want = long_case(kind, n, bad, every)
                ctx.count("evaluations")
                ctx.count("distinct_nontrivial")
                ctx.outcome(f"long {want}")
                if got != want:
                    ctx.violation(
                        {"kind": kind, "n": n, "bad": bad},
                        f"{kind} of {n} elements, of which the one at {bad} {'fits' if kind == 'Union' else 'does not fit'}: got {got}, "
                        f"should be {want}",
                    )


def leaves(family):
    f = dict(family=family)
    dtype = None if family == "TFTensor" else "float"
    return (
        g.Arr((1,), **f, more=[(2,)]),
        g.Arr((2, -1), dtype="float", **f, more=[(2, 7)]),
        g.Arr((..., 3), dtype=dtype, **f, more=[(5, 3)]),
        g.Plain("int", g.inst(int), ["7"], ["'x'"]),
        g.Plain("str", g.inst(str), ["'k'"], ["7"]),
    )


def once(tag, x, y, key, more=()):
    """Every constructor applied to the given nodes."""
    out = [
        g.Listing("List", x), g.Listing("Sequence", x), g.Mapping(key, x), g.Fixed([x, y]), g.Fixed([x]),
        g.Fixed([x], ellipsis=True), g.Choice([x], "Optional"), g.Choice([x, y]), g.Choice([y, x], "|"),
        g.Named(f"NT{tag}", [("a", x), ("b", y)]),
        g.Typed(f"TD{tag}", [("a", x, True), ("b", y, True)]),
        g.Typed(f"TP{tag}", [("a", x, False), ("b", y, False)]),
        g.Typed(f"TM{tag}", [("a", x, True), ("b", y, False)]),
    ]
    return out + list(more)


def sets(x):
    return [g.Setting("Set", x), g.Setting("AbstractSet", x)]


def nodes(family, tier):
    a, b, c, i, s = leaves(family)
    first = once("1", a, b, s, [g.Fixed([])])
    hashable = [] if family == "TFTensor" else sets(a) + ([g.Mapping(a, b)] if family == "Array" else [])
    out = [a, b, c] + first + hashable
    out += once("2", c, i, s) + once("3", i, a, s)
    out += [g.Fixed([a, a]), g.Fixed([a, b, a]), g.Named("NS", [("a", a), ("b", b), ("c", a)]), g.Typed("TS", [("a", a, True), ("b", b, True), ("c", a, False)])]
    out += [g.Choice([a, b, c]), g.Choice([g.Choice([a], "Optional"), b]), g.Fixed([a, b, c]), g.Listing("List", a, 1)]
    # Unions which share a prefix, or of which a later alternative must be reached
    lists = [g.Listing("List", a), g.Listing("List", b)]
    out += [
        g.Choice(lists), g.Choice([g.Fixed([a]), g.Fixed([b])]), g.Choice([a, lists[1]]), g.Choice([lists[0], a]),
        g.Choice([g.Mapping(s, a), g.Mapping(s, b), g.NONE]), g.Choice([g.Fixed([a, b]), g.Fixed([b, a])]),
        g.Listing("List", g.Choice([a, b])), g.Mapping(s, g.Choice([a], "Optional")),
    ]
    if family != "Array":
        return out
    # The same containers in other spellings, and without element types
    out += [
        g.Listing("List", a, spelling="list"), g.Listing("Sequence", a, spelling="collections.abc.Sequence"),
        g.Mapping(s, a, "dict"), g.Mapping(i, c, "dict"), g.Fixed([a, b], spelling="tuple"), g.Fixed([], spelling="tuple"),
        g.Fixed([a], ellipsis=True, spelling="tuple"), g.Fixed([a], spelling="tuple"),
        g.Setting("Set", a, "set"), g.Setting("AbstractSet", a, "collections.abc.Set"), g.Noted(a), g.Noted(g.Listing("List", a)),
        g.Listing("List", g.Listing("List", a, spelling="list"), spelling="list"), g.Choice([g.Listing("List", a, spelling="list"), b], "|"),
        g.Kind("List", list), g.Kind("Dict", dict), g.Kind("Tuple", tuple), g.Kind("Sequence", collections.abc.Sequence),
        g.Kind("Set", collections.abc.Set), g.Kind("AbstractSet", collections.abc.Set),
        g.Kind("List[Any]", list), g.Kind("Dict[Any, Any]", dict), g.Kind("Tuple[Any, ...]", tuple),
        g.Kind("Sequence[Any]", collections.abc.Sequence), g.Kind("Set[Any]", collections.abc.Set),
        g.Listing("List", g.Kind("List", list)), g.Choice([g.Kind("Dict", dict), a]), g.Mapping(s, g.Kind("Tuple", tuple)),
        g.Mapping(g.Plain("Any", lambda value: True, ["7"], []), a), g.Mapping(s, g.Plain("Any", lambda value: True, ["7"], [])),
    ]
    # Keys marked as required or not
    for index, marks in enumerate(("both", "total=True", "total=False", "noted")):
        marked = [
            g.Typed(f"TR{index}", [("a", a, True), ("b", b, False)], marks), g.Typed(f"TA{index}", [("a", a, True), ("b", b, True)], marks),
            g.Typed(f"TN{index}", [("a", g.Listing("List", a), False), ("b", g.Choice([b], "Optional"), True)], marks),
            g.Typed(f"TI{index}", [("a", i, True), ("b", a, False)], marks),
        ]
        out += marked + [g.Listing("List", marked[0]), g.Choice([marked[0], b]), g.Typed(f"TT{index}", [("a", marked[0], False), ("b", a, True)], marks)]
    second = []
    for index, inner in enumerate(first + sets(a)):
        second += once(f"i{index}", inner, a, s)
    out += second
    if tier == "thorough":
        for index, inner in enumerate(second):
            if index % 3 == 0:
                out += once(f"t{index}", inner, a, s)
        for i1, n1 in enumerate(first):
            for i2, n2 in enumerate(first):
                if i1 != i2:
                    out += [g.Fixed([n1, n2]), g.Choice([n1, n2]), g.Mapping(s, g.Fixed([n1, n2]))]
    return out


def container_of(node, value):
    try:
        return not isinstance(node, (g.Arr, g.Choice)) and not isinstance(value, str) and hasattr(value, "__len__") and len(value) > 0
    except Exception:  # pylint: disable=broad-except
        return False


def run(ctx):
    if ctx.params.get("space") == "long":
        run_long(ctx)
        return
    if "space" in ctx.params:
        c04.run(ctx)
        return
    family = ctx.params["family"]
    everything = nodes(family, ctx.tier)
    g.prepare(everything)
    cfg = g.Cfg({**ctx.job.get("config", {})})
    seen = set()
    for index, node in enumerate(everything):
        if node.source in seen:
            continue
        seen.add(node.source)
        if not ctx.mine():
            continue
        ctx.count("annotations")
        explore(ctx, index, node, cfg)


def explore(ctx, index, node, cfg):
    as_param = g.make_function([node])
    as_result = g.make_function([], node)
    for source in dict.fromkeys(node.values):
        for place, func in (("parameter", as_param), ("result", as_result)):
            decide(ctx, index, node, source, place, func, cfg)


def decide(ctx, index, node, source, place, func, cfg):
    if place == "parameter":
        want, seen, args, _ = g.judge(func, [node], [source], None, "object()", cfg)
        value = args[0]
    else:
        want, seen, _, value = g.judge(func, [], [], node, source, cfg)
    ctx.count("evaluations")
    ctx.outcome(want)
    if container_of(node, value):
        ctx.count("distinct_nontrivial")
        ctx.sample({"annotation": node.source, "value": source, "place": place, "verdict": want}, 3)
    if seen[:3] != g.HARD[want]:
        ctx.violation(
            {"index": index, "annotation": node.source, "value": source, "place": place},
            f"{source} as {place} annotated {node.source} should be {want}: outcome {seen[0]}, body runs "
            f"{seen[1]}, the object itself returned: {seen[2]}",
        )


def replay(case, ctx):
    if "bad" in case:
        HASHABLE[:] = [type("HashableArray", (lib.NS["np"].ndarray,), {"__hash__": object.__hash__})]
        every = ctx.job.get("config", {}).get("check-all-sequence-elements", "yes") == "yes"
        got, want = long_case(case["kind"], case["n"], case["bad"], every)
        if got != want:
            ctx.violation(case, f"{case}: got {got}, should be {want}")
        return
    if "space" in ctx.params:
        c04.replay(case, ctx)
        return
    everything = nodes(ctx.params["family"], ctx.tier)
    g.prepare(everything)
    node = everything[case["index"]]
    func = g.make_function([node]) if case["place"] == "parameter" else g.make_function([], node)
    decide(ctx, case["index"], node, case["value"], case["place"], func, g.Cfg(ctx.job.get("config", {})))
