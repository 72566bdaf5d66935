"""C05: every call is judged on its own: no leakage between calls."""
import itertools

from mc import lib

LEVEL = "model_checking"
RULE = (
    "histories: every sequence of the stated operations up to the stated depth, each edge executed "
    "on the real code in a forked process (so every history starts from the same state) in lockstep "
    "with a model whose only state is the current dims value; pumped histories: (a b)^n c for every "
    "a, b, c; programs: every chain of nested type-checked calls up to the stated depth over shared "
    "and distinct functions, sizes, outcomes and catch/propagate, and every body making two inner "
    "calls; look-alikes: every pair of annotations that print, compare, hash or are named alike, used one "
    "after the other on every value, and the same object changed between calls. Non-trivial / states: distinct model states"
)
ASSUMPTIONS = [
    "operations outside the stated alphabet and longer histories are not explored",
    "single-threaded (C20 explores interleavings)",
]


def bounds(tier):
    deep = tier == "thorough"
    return {
        "operations": [f.__name__ for f in OPS],
        "depth": 4 if deep else 3,
        "pumped": {"repetitions": 40 if deep else 12},
        "look-alikes": [group[0] for group in ALIKE],
        "nesting depth": 4 if deep else 3,
    }


def jobs(tier):
    out = lib.split(8, name="histories", params={"space": "histories"})
    out += lib.split(8, name="pumped", params={"space": "pumped"})
    out += lib.split(4, name="programs", params={"space": "programs"})
    out += lib.split(2, name="alike", params={"space": "alike"}, config={"check-non-asta-types": "yes"})
    if tier == "thorough":
        out += lib.split(8, name="histories-soft", params={"space": "histories"},
                         config={"check-non-asta-types": "yes"})
    return out


# --- the program under test -------------------------------------------------------------

G = {}
LOG = []


def arr(*shape):
    return lib.NS["np"].zeros(shape)


def prepare():
    N = lib.NS
    Array, X, Y, typechecked = N["Array"], N["X"], N["Y"], N["typechecked"]
    List, Union, Tuple = N["List"], N["Union"], N["Tuple"]
    K = N["dims"].K
    G.clear()
    G["square"] = Array[X, X]
    G["col"] = Array[X]

    def pair(p: G["col"], q: Array[X + 1], mode: str) -> G["col"]:
        LOG.append("pair")
        if mode == "raise":
            raise ValueError("body")
        if mode == "interrupt":
            raise KeyboardInterrupt
        return arr(9) if mode == "bad" else p

    G["pair"] = typechecked(pair)

    @typechecked
    def one(p: G["col"]) -> Array[X]:
        LOG.append("one")
        return p

    G["one"] = one

    @typechecked
    def withdim(p: Array[K], q: Array[K + X, X]) -> Array[K]:
        LOG.append("withdim")
        return p

    G["withdim"] = withdim

    @typechecked
    def outer(p: Array[X], q: Array[Y]) -> Array[X]:
        LOG.append("outer")
        one(q)
        return p

    G["outer"] = outer

    @typechecked
    def many(p: List[Array[X]], q: Array[X]):
        LOG.append("many")

    G["many"] = many

    @typechecked
    def union(p: Union[Array[X, X], Array[X, 3], Tuple[Array[X], Array[X]]], q: Array[X]):
        LOG.append("union")

    G["union"] = union

    @typechecked
    def default(p: Array[X], q: Array[X] = arr(2), *, r: Array[2 * X] = arr(4)) -> Array[X]:
        LOG.append("default")
        return q

    G["default"] = default


def outcome(func, *args, **kwargs):
    LOG.clear()
    got = lib.typechecked_call(func, *args, **kwargs)
    return got, len(LOG)


def expect(label, got, want):
    return label, None if got == want else f"got {got}, should be {want}"


# Every operation: (state) -> (new state, label, error). The state is the value of dims.K.


def pair_ok_1(k):
    return k, *expect("accept", outcome(G["pair"], arr(1), arr(2), "ok"), ("ok", 1))


def pair_ok_2(k):
    return k, *expect("accept", outcome(G["pair"], arr(2), arr(3), "ok"), ("ok", 1))


def pair_conflict(k):
    return k, *expect("reject", outcome(G["pair"], arr(1), arr(3), "ok"), ("TypeError", 0))


def pair_bad_return(k):
    return k, *expect("reject after", outcome(G["pair"], arr(1), arr(2), "bad"), ("TypeError", 1))


def pair_raises(k):
    want = ("raises ValueError", 1)
    return k, *expect("body raises", outcome(G["pair"], arr(3), arr(4), "raise"), want)


def pair_interrupted(k):
    """No Exception: what is put right in ``except Exception`` stays as it is."""
    LOG.clear()
    try:
        G["pair"](arr(6), arr(7), "interrupt")
        got = "ok"
    except KeyboardInterrupt:
        got = "interrupted"
    return k, *expect("body interrupted", (got, len(LOG)), ("interrupted", 1))


def pair_unbound(k):
    """Arguments are missing; by the time that shows, the others may have been looked at."""
    got = outcome(G["pair"], arr(6), q=arr(7))
    return k, *expect("unbound", got[1], 0)


class Broken(list):
    def __iter__(self):
        yield self[0]
        raise RuntimeError("broken")


def shapeless():
    np = lib.NS["np"]

    class Shapeless(np.ndarray):
        @property
        def shape(self):
            raise RuntimeError("broken")

    return np.zeros(6).view(Shapeless)


def many_broken(k):
    """A check that ends in an error of the value; what it says is not judged, what it leaves behind is."""
    outcome(G["many"], Broken([arr(6), arr(6)]), arr(6))
    outcome(G["union"], (arr(6), shapeless()), arr(6))
    outcome(G["one"], shapeless())
    return k, "broken value", None


def one_5(k):
    return k, *expect("accept", outcome(G["one"], arr(5)), ("ok", 1))


def one_wrong_rank(k):
    return k, *expect("reject", outcome(G["one"], arr(5, 5)), ("TypeError", 0))


def check_square_no(k):
    got = lib.check_isinstance(arr(2, 3), G["square"])
    return k, *expect("isinstance", got, False)


def check_square_yes(k):
    got = lib.check_isinstance(arr(4, 4), G["square"])
    return k, *expect("isinstance", got, True)


def annotate(k):
    """Makes new annotations out of the ones in use, and checks against them."""
    N = lib.NS
    made = G["col"][7]
    also = N["Array"][N["X"], 5]
    N["List"][made], N["Union"][made, also]
    got = (
        lib.check_isinstance(arr(7), made),
        lib.check_isinstance(arr(6), made),
        lib.check_isinstance(arr(2, 5), also),
        lib.check_isinstance(arr(6), G["col"]),
    )
    return k, *expect("annotate", got, (True, False, True, True))


def redefine(k):
    """A new function with the same symbols and annotations."""
    N = lib.NS

    @N["typechecked"]
    def new(p: G["col"], q: N["Array"][2 * N["X"]]):
        LOG.append("new")

    got = (outcome(new, arr(3), arr(6)), outcome(new, arr(3), arr(5)))
    return k, *expect("redefine", got, (("ok", 1), ("TypeError", 0)))


def set_k_2(k):
    lib.NS["dims"].K = 2
    return 2, "set", None


def set_k_3(k):
    lib.NS["dims"].K = 3
    return 3, "set", None


def withdim_2(k):
    want = ("ok", 1) if k == 2 else ("TypeError", 0)
    return k, *expect(f"K={k}", outcome(G["withdim"], arr(2), arr(6, 4)), want)


def withdim_3(k):
    want = ("ok", 1) if k == 3 else ("TypeError", 0)
    return k, *expect(f"K={k}", outcome(G["withdim"], arr(3), arr(4, 1)), want)


def outer_ok(k):
    return k, *expect("nested", outcome(G["outer"], arr(3), arr(6)), ("ok", 2))


def many_ok(k):
    return k, *expect("list", outcome(G["many"], [arr(2), arr(2)], arr(2)), ("ok", 1))


def many_conflict(k):
    got = outcome(G["many"], [arr(2), arr(2), arr(1)], arr(2))
    return k, *expect("list", got, ("TypeError", 0))


def union_second(k):
    return k, *expect("union", outcome(G["union"], arr(2, 3), arr(2)), ("ok", 1))


def union_third(k):
    return k, *expect("union", outcome(G["union"], (arr(2), arr(2)), arr(2)), ("ok", 1))


def union_none(k):
    return k, *expect("union", outcome(G["union"], arr(2, 4), arr(2)), ("TypeError", 0))


def default_used(k):
    return k, *expect("defaults", outcome(G["default"], arr(2)), ("ok", 1))


def default_conflict(k):
    return k, *expect("defaults", outcome(G["default"], arr(3)), ("TypeError", 0))


def default_given(k):
    got = outcome(G["default"], arr(3), r=arr(6), q=arr(3))
    return k, *expect("keywords", got, ("ok", 1))


def default_given_bad(k):
    got = outcome(G["default"], arr(2), q=arr(1))
    return k, *expect("keywords", got, ("TypeError", 0))


def default_by_position(k):
    got = outcome(G["default"], arr(2), arr(2), r=arr(5))
    return k, *expect("keywords", got, ("TypeError", 0))


OPS = [
    pair_ok_1, pair_ok_2, pair_conflict, pair_bad_return, pair_raises, pair_interrupted, pair_unbound, many_broken, one_5, one_wrong_rank,
    check_square_no, check_square_yes, annotate, redefine, set_k_2, set_k_3, withdim_2, withdim_3,
    outer_ok, many_ok, many_conflict, union_second, union_third, union_none,
    default_used, default_conflict, default_given, default_given_bad, default_by_position,
]


def step(op, state):
    return op(state)


def run_histories(ctx):
    depth = bounds(ctx.tier)["depth"]
    lib.fork_dfs(ctx, OPS, depth, step, None)


def run_pumped(ctx):
    reps = bounds(ctx.tier)["pumped"]["repetitions"]
    for a, b in itertools.combinations_with_replacement(range(len(OPS)), 2):
        if not ctx.mine():
            continue

        def child(sub, a=a, b=b):
            state = None
            path = [a, b] * reps
            done = []
            for index in path + list(range(len(OPS))):
                done.append(index)
                with lib.limit(120):
                    state, label, error = OPS[index](state)
                sub.count("transitions")
                sub.outcome(label)
                if error:
                    sub.violation({"history": done}, f"{OPS[index].__name__}: {error}")
                    return
            sub.count("traces_validated_against_impl")

        lib.forked(child, ctx)


# --- nested programs --------------------------------------------------------------------


def nested_functions():
    """Functions whose bodies follow a script: a list of what each activation does."""
    N = lib.NS
    Array, X, Y, typechecked = N["Array"], N["X"], N["Y"], N["typechecked"]
    script = []

    def body(p, depth):
        entry = script[depth]
        log = G["log"]
        log.append(("enter", depth))
        for inner in entry["inner"]:
            got = lib.typechecked_call(FUNCS[script[inner]["func"]], arr(script[inner]["size"]), inner)
            log.append(("inner", inner, got))
            if got != "ok" and not entry["catch"]:
                raise TypeError("propagated") if got == "TypeError" else ValueError("propagated")
        if entry["end"] == "raise":
            raise ValueError("body")
        return arr(entry["size"] if entry["end"] == "same" else entry["size"] + 1)

    @typechecked
    def f1(p: Array[X], depth: int) -> Array[X]:
        return body(p, depth)

    @typechecked
    def f2(p: Array[Y], depth: int) -> Array[Y]:
        return body(p, depth)

    FUNCS = [f1, f2]
    return script, FUNCS


def expected_program(script, index, log):
    """The verdict of activation ``index`` on its own."""
    entry = script[index]
    log.append(("enter", index))
    for inner in entry["inner"]:
        got = expected_program(script, inner, log)
        log.append(("inner", inner, got))
        if got != "ok" and not entry["catch"]:
            return got
    if entry["end"] == "raise":
        return "raises ValueError"
    return "ok" if entry["end"] == "same" else "TypeError"


def programs(depth):
    choices = [
        dict(func=f, size=s, end=e, catch=c)
        for f in (0, 1)
        for s in (2, 3)
        for e in ("same", "other", "raise")
        for c in (True, False)
    ]
    leaves = [c for c in choices if c["catch"]]
    for length in range(1, depth + 1):
        # no need to vary what does not differ: the outermost function is f1 with size 2
        outer = [c for c in choices if c["func"] == 0 and c["size"] == 2]
        for combo in itertools.product(*([outer] + [choices] * (length - 2) + [leaves] * (length > 1))):
            yield [dict(c, inner=[i + 1] if i + 1 < length else []) for i, c in enumerate(combo)]
    for combo in itertools.product(
        [c for c in choices if c["func"] == 0 and c["size"] == 2], leaves, leaves
    ):
        yield [dict(combo[0], inner=[1, 2]), dict(combo[1], inner=[]), dict(combo[2], inner=[])]


def run_program(script, funcs, program):
    script[:] = program
    G["log"] = []
    with lib.limit(120):
        got = lib.typechecked_call(funcs[program[0]["func"]], arr(program[0]["size"]), 0)
    want_log = []
    want = expected_program(program, 0, want_log)
    if got != want or G["log"] != want_log:
        return want, f"got {got} with {G['log']}, should be {want} with {want_log}"
    return want, None


def run_programs(ctx):
    script, funcs = nested_functions()
    for program in programs(bounds(ctx.tier)["nesting depth"]):
        if not ctx.mine():
            continue
        want, error = run_program(script, funcs, program)
        ctx.count("transitions", len(program))
        ctx.count("traces_validated_against_impl")
        ctx.outcome(f"program {want}")
        if error:
            ctx.violation({"program": program}, error)


# --- look-alikes --------------------------------------------------------------------------


def twin(name="Twin", **members):
    """A new class each time, all of one name."""
    return type(name, (), {"__module__": "twins", "__qualname__": name, "__repr__": lambda self: "twin", **members})


TWINS = [twin(), twin(), twin()]


class Shown:
    """All of these print alike."""

    def __init__(self, size):
        self.size = size

    def __repr__(self):
        return "shown"

    def __eq__(self, other):
        return isinstance(other, Shown) and other.size == self.size

    def __hash__(self):
        return 1


# Each group: annotations and values, as sources. What each annotation says about each value with no
# history, in a process of its own, is what it has to say after any other history.
ALIKE = [
    (
        ["Array[np.dtype('<f4'), 2]", "Array[np.dtype('>f4'), 2]", "Array[np.dtype('f8'), 2]",
         "Array[float, 2]", "Array[2]", "Array[(2,)]", "Array[np.float64, 2]"],
        ["np.zeros(2, '<f4')", "np.zeros(2, '>f4')", "np.zeros(2, 'f8')"],
    ),
    (
        ["Array[-1]", "Array[1]", "Array[2]", "Array[...]", "Array[X]",
         "Array[X, ...]", "Array[-1, -1]", "Array[X, X]", "Array[X, Y]", "Array[Y]",
         "Array[X, 2]", "Array[X + 0]", "Array[2*X, X]"],
        ["np.zeros(1)", "np.zeros(2)", "np.zeros((1, 1))"],
    ),
    (
        ["Array[{'size': S(3)}]", "Array[{'size': S(2)}]", "Array[{'ndim': 1}]", "Array[{'ndim': 2}]",
         "Array[{'size': 3}]", "Array[{'size': 2}]"],
        ["Sub(np.zeros(3), S(3))", "np.zeros(2)", "np.zeros((3, 1))"],
    ),
    (
        ["T0", "T1", "T2", "List[T0]", "List[T1]", "Union[T0, T1]",
         "Union[T1, T2]", "Optional[T0]", "Optional[T2]", "Tuple[T0]", "Tuple[T1]",
         "Dict[str, T0]", "Dict[str, T1]"],
        ["T0()", "T1()", "T2()", "[T0()]", "[T1()]", "None", "(T0(),)", "(T1(),)", "{'a': T0()}", "{'a': T1()}"],
    ),
    (
        ["int", "bool", "float", "Literal[1]", "Literal[True]", "Literal['1']",
         "Union[Literal[True], str]", "Union[Literal[1], str]", "List[Literal[1]]", "List[Literal[True]]",
         "Optional[Literal[1]]", "Optional[Literal[True]]"],
        ["1", "1.0", "True", "'1'", "[1]", "[True]"],
    ),
    (
        ["NTA", "NTB", "TDA", "TDB", "List[NTA]", "List[NTB]"],
        ["NTA(np.zeros(2))", "NTB(np.zeros(3))", "dict(a=np.zeros(2))", "dict(a=np.zeros(3))", "[NTA(np.zeros(2))]", "[NTB(np.zeros(3))]"],
    ),
    (
        ["Tuple[Array[X], Array[X]]", "Tuple[Array[X], Array[Y]]", "List[Array[X]]", "List[Array[2]]",
         "List[Array[...]]", "Tuple[Array[X], ...]", "Tuple[Array[2], ...]", "Sequence[Array[X]]"],
        ["(np.zeros(2), np.zeros(2))", "(np.zeros(2), np.zeros(3))", "[np.zeros(2)]", "[np.zeros(2), np.zeros(3)]", "(np.zeros(2),)"],
    ),
    (
        ["Callable[[int], Array[2]]", "Callable[[int], Array[3]]", "Callable[[str], Array[2]]",
         "Callable[[int, int], Array[2]]"],
        ["calls(int, Array[2])", "calls(int, Array[3])", "calls(str, Array[2])", "calls(int, Array[2], 2)"],
    ),
    (
        ["Scalar", "List[Scalar]", "Union[Scalar, List[Scalar]]", "Optional[Scalar]", "int", "float", "Array[()]", "Array"],
        ["1", "1.0", "True", "np.float32(1)", "np.array(1)", "np.array(1, dtype=object)", "np.zeros(1)", "[1]", "[np.array(1)]", "None", "'1'"],
    ),
]


def calls(param, ret, n=1):
    def function(a, b=None):
        return a, b

    if n == 1:
        def function(a):  # pylint: disable=function-redefined
            return a
        function.__annotations__ = {"a": param, "return": ret}
    else:
        function.__annotations__ = {"a": param, "b": param, "return": ret}
    return function


def alike_names():
    N = lib.NS
    np = N["np"]

    class Sub(np.ndarray):  # pylint: disable=too-few-public-methods
        def __new__(cls, array, size):
            made = array.view(cls)
            made.own = size
            return made

        @property
        def size(self):
            return self.own

    def tuples(size):
        return N["NamedTuple"]("NT", [("a", N["Array"][size])])

    def dicts(size):
        return N["TypedDict"]("TD", {"a": N["Array"][size]})

    return {
        "S": Shown, "Sub": Sub, "calls": calls, "T0": TWINS[0], "T1": TWINS[1], "T2": TWINS[2], "NTA": tuples(2),
        "NTB": tuples(3), "TDA": dicts(2), "TDB": dicts(3),
    }


def function_for(annotation, place):
    def function(p):
        LOG.append("alike")
        return p

    function.__annotations__ = {place: annotation} if place == "p" else {"p": lib.NS["Any"], "return": annotation}
    return lib.NS["typechecked"](function)


def verdict_of(annotation, value, kind):
    """'ok' or 'TypeError'."""
    return lib.typechecked_call(function_for(annotation, kind), value)


def alone(group, names):
    """What each annotation says about each value, each in a process of its own."""
    out = {}
    for annotation, value, kind in itertools.product(range(len(group[0])), range(len(group[1])), ("p", "return")):
        def child(sub, annotation=annotation, value=value, kind=kind):
            made = lib.ev(group[0][annotation], **names)
            sub.outcome(verdict_of(made, lib.ev(group[1][value], **names), kind))

        covered = lib.forked_raw(child, lib.Ctx({"tier": "quick"}))
        if covered["violations"]:
            raise AssertionError(f"{group[0][annotation]} on {group[1][value]}: {covered['violations']}")
        (out[annotation, value, kind],) = covered["outcomes"]
    return out


def run_alike(ctx, only=None):
    names = alike_names()
    for number, group in enumerate(ALIKE):
        mine = [first for first in range(len(group[0])) if (ctx.mine() if only is None else only == [number, first])]
        if not mine:
            continue
        want = alone(group, names)
        for first in mine:
            lib.forked(lambda sub, n=number, f=first, w=want: after(sub, n, f, names, w), ctx)


def after(sub, number, first, names, want):
    """Uses one annotation on every value, then all the others, each in both places."""
    annotations, values = ALIKE[number]
    made = [lib.ev(source, **names) for source in annotations]
    built = [lib.ev(value, **names) for value in values]
    functions = [{kind: function_for(a, kind) for kind in ("p", "return")} for a in made]
    order = [first] + [i for i in range(len(made)) if i != first]
    for number_of_step, index in enumerate(order + order[::-1]):
        for position, value in enumerate(values):
            for kind in ("p", "return"):
                for given in (built[position], lib.ev(value, **names)):
                    got = lib.typechecked_call(functions[index][kind], given)
                    sub.count("transitions")
                    sub.outcome(f"alike {want[index, position, kind]}")
                    if got != want[index, position, kind]:
                        sub.violation(
                            {"alike": [number, first]},
                            f"{annotations[index]} on {value} as {kind}, after {[annotations[i] for i in order[:number_of_step]]}: got "
                            f"{got}, on its own it is {want[index, position, kind]}",
                        )
                        return
    sub.count("traces_validated_against_impl")


def run_changed(ctx):
    """One object, changed between the calls: what counts is what it is now."""
    N = lib.NS
    np, Array = N["np"], N["Array"]

    def reshaped(value, shape):
        value.shape = shape

    def listed(value, sizes):
        value[:] = [np.zeros(n) for n in sizes]

    def keyed(value, sizes):
        value.clear()
        value.update((k, np.zeros(n)) for k, n in zip("ab", sizes))

    def attributed(value, size):
        value.own = size

    names = alike_names()
    plans = [
        (Array[N["X"], N["X"]], np.zeros(4), reshaped, [((2, 2), True), ((4, 1), False), ((1, 4), False), ((4,), False), ((1, 2, 2), False)]),
        (Array[2, ...], np.zeros(4), reshaped, [((2, 2), True), ((4, 1), False), ((2, 1, 2), True), ((4,), False)]),
        (N["List"][Array[2]], [], listed, [((2, 2), True), ((2, 3), False), ((3,), False), ((2,), True), ((2, 2, 2, 2, 4), False)]),
        (N["List"][Array[N["X"]]], [], listed, [((2, 2), True), ((2, 3), False), ((3,), True), ((2, 2, 2, 4), False)]),
        (N["Dict"][str, Array[2]], {}, keyed, [((2, 2), True), ((2, 3), False), ((3,), False), ((2,), True)]),
        (names["TDA"], {}, keyed, [((2,), True), ((3,), False)]),
        (Array[{"size": 3}], names["Sub"](np.zeros(2), 3), attributed, [(3, True), (4, False)]),
    ]
    for number, (annotation, value, change, states) in enumerate(plans):
        for history in itertools.product(range(len(states)), repeat=3):
            function = function_for(annotation, "p")
            for state in history:
                change(value, states[state][0])
                for check in (lambda: lib.typechecked_call(function, value), lambda: verdict_of(annotation, value, "return")):
                    got = check()
                    want = "ok" if states[state][1] else "TypeError"
                    ctx.count("transitions")
                    ctx.outcome(f"changed {want}")
                    if got != want:
                        ctx.violation(
                            {"changed": number},
                            f"{annotation!r} on one object that was made {[states[s][0] for s in history]} one after the other: at "
                            f"{states[state][0]} got {got}, should be {want}",
                        )
                        return


def run_look_alikes(ctx):
    run_alike(ctx)
    if ctx.job["shard"][0] == 0:
        run_changed(ctx)


def run(ctx):
    prepare()
    {"alike": run_look_alikes, "histories": run_histories, "pumped": run_pumped, "programs": run_programs}[
        ctx.params["space"]
    ](ctx)


def replay(case, ctx):
    prepare()
    if "alike" in case:
        run_alike(ctx, list(case["alike"]))
    elif "changed" in case:
        run_changed(ctx)
    elif "program" in case:
        script, funcs = nested_functions()
        _, error = run_program(script, funcs, case["program"])
        if error:
            ctx.violation(case, error)
    else:
        lib.run_history(ctx, OPS, case["history"], step, None)
