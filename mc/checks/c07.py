"""C07: shapes placeholders are read at call time and concatenate like tuples."""
import collections
import enum
import itertools

from mc import lib, model, names

LEVEL = "model_checking"
RULE = (
    "every sequence of the stated operations (assignments, invalid assignments, reads, calls, "
    "definitions) up to the stated depth, each edge executed on the real code in a forked process in "
    "lockstep with a model holding the last valid tuple per name; plus every annotation of the stated "
    "list x every assignment of tuples (or none) to the names x every argument shape; plus every sum of "
    "up to four summands in every grouping; plus every pair of the stated names: what is assigned to one "
    "is never seen at the other"
)
ASSUMPTIONS = [
    "tuples of plain integers (a -1 inside an assigned tuple is a wildcard); bool elements and "
    "tuple subclasses are not explored",
    "assignments happen between calls or in the body, not between two checks of one call",
]

# Annotation sources with the pattern they denote: a list of tokens, "S"/"T" for the names.
FORMS = [
    ("S", ["S"]),
    ("(*S,)", ["S"]),
    ("float, S", ["S"]),
    ("1, S", [1, "S"]),
    ("S, 2", ["S", 2]),
    ("1, S, 2", [1, "S", 2]),
    ("(1, *S, 2)", [1, "S", 2]),
    ("S, T", ["S", "T"]),
    ("T, S", ["T", "S"]),
    ("S, S", ["S", "S"]),
    ("(*T, *S)", ["T", "S"]),
    ("(S, (T, 2))", ["S", "T", 2]),
    ("S + (3,)", ["S", 3]),
    ("(1,) + S", [1, "S"]),
    ("S + T", ["S", "T"]),
    ("T + S", ["T", "S"]),
    ("S + S", ["S", "S"]),
    ("(1,) + S + T", [1, "S", "T"]),
    ("S + (2,) + T", ["S", 2, "T"]),
    ("S + T + (2,)", ["S", "T", 2]),
    ("(2,) + S + (1, 3)", [2, "S", 1, 3]),
    ("S + (T + (1,))", ["S", "T", 1]),
    ("((1,) + S) + ((2,) + T)", [1, "S", 2, "T"]),
    ("S + T + S", ["S", "T", "S"]),
    ("float, S + (3,)", ["S", 3]),
    ("1, S + (2,)", [1, "S", 2]),
    ("S + (2,), 1", ["S", 2, 1]),
    ("S, T + (1,)", ["S", "T", 1]),
    ("S + (), 1", ["S", 1]),
    ("() + S", ["S"]),
    ("..., S", [..., "S"]),
    ("S, ...", ["S", ...]),
    ("-1, S", [-1, "S"]),
    ("X, S", ["X", "S"]),
    ("S, X", ["S", "X"]),
    ("S + (X,)", ["S", "X"]),
    ("(X, 1) + S", ["X", 1, "S"]),
    ("X, S, X", ["X", "S", "X"]),
    ("S + (X + 1,), X", ["S", "X + 1", "X"]),
    # sums which are used again
    ("[b := S + (1,), b + (2,), b + (3,)][2]", ["S", 1, 3]),
    ("[b := S + (1,), b + (2,), T + b, (2,) + b, b][4]", ["S", 1]),
    ("[b := (1,) + S, b + T, (2,) + b][2]", [2, 1, "S"]),
    ("[b := S + T, b + b, b][2]", ["S", "T"]),
    ("[b := S + T, b + b, b + S][1]", ["S", "T", "S", "T"]),
    ("[b := S + (2,), T + b, S + b, b + T][3]", ["S", 2, "T"]),
    ("[b := S + (2,), Array[b], b + (3,), b][3]", ["S", 2]),
]


def trees(n, leaves=("S", "T", "(1,)")):
    """Every sum of n leaves, however it is grouped: (source, tokens)."""
    if n == 1:
        for leaf in leaves:
            yield leaf, [1] if leaf == "(1,)" else [leaf]
        return
    for k in range(1, n):
        for left, one in trees(k, leaves):
            for right, two in trees(n - k, leaves):
                yield (f"({left})" if " + " in left else left) + " + " + (f"({right})" if " + " in right else right), one + two


def sums(tier):
    """Sums of two to four (thorough: five) summands with at least one name."""
    out = []
    for n in (2, 3, 4, 5) if tier == "thorough" else (2, 3, 4):
        out += [t for t in trees(n) if "S" in t[1] or "T" in t[1]]
    return out


TUPLES = [None, (2,), (), (3, 1), (1, 2, 3), (0,), (-1,)]


def bounds(tier):
    deep = tier == "thorough"
    return {
        "operations": [f.__name__ for f in OPS],
        "depth": 4 if deep else 3,
        "core operations": [f.__name__ for f in CORE],
        "core depth": 6 if deep else 5,
        "annotations": [f"Array[{s}]" for s, _ in FORMS],
        "names": names.NAMES,
        "pairs of names": len(names.pairs(tier)),
        "tuples assigned": TUPLES,
        "argument shapes": "all shapes of rank <= 4 over {1, 2, 3}, rank <= 2 with 0, the denoted shape",
    }


def jobs(tier):
    out = lib.split(8, name="all", params={"space": "all"})
    out += lib.split(8, name="core", params={"space": "core"})
    out += lib.split(8 if tier == "thorough" else 4, name="sums", params={"space": "sums"})
    out += lib.split(6, name="fresh", params={"space": "inputs", "shared": 0})
    out += lib.split(6, name="shared", params={"space": "inputs", "shared": 1})
    out += lib.split(4, name="names", params={"space": "names"})
    out += lib.split(2, name="tf", backend="tf", params={"space": "inputs", "family": "TFTensor", "few": 1})
    out += lib.split(1, name="torch", backend="torch", params={"space": "inputs", "family": "Tensor", "few": 1})
    return out


G = {}
RAN = []


def arr(*shape):
    return lib.NS["np"].zeros(shape)


def prepare():
    N = lib.NS
    Array, shapes, typechecked, Tuple = N["Array"], N["shapes"], N["typechecked"], N["Tuple"]
    S, T = shapes.S, shapes.T

    @typechecked
    def plain(p: Array[S]) -> Array[S]:
        RAN.append(1)
        return p

    @typechecked
    def around(p: Array[1, S, 2], q: Tuple[Array[float, T + (3,)], Array[S]]):
        RAN.append(1)

    @typechecked
    def unpacked(p: Array[(*S, *T)]):
        RAN.append(1)

    @typechecked
    def added(p: Array[(1,) + S + T]):
        RAN.append(1)

    @typechecked
    def result(n: int) -> Array[S + T]:
        RAN.append(1)
        return arr(2, 1, 4)

    @typechecked
    def other(p: Array[T]):
        RAN.append(1)
        shapes.S = (2,)

    G.update(plain=plain, around=around, unpacked=unpacked, added=added, result=result, other=other, late=None)


def verdict(func, *args):
    RAN.clear()
    got = lib.typechecked_call(func, *args)
    return got, len(RAN)


def judge(state, label, got, ok, after=False):
    want = ("ok", 1) if ok else ("TypeError", 1 if after else 0)
    return state, f"{label} {'accept' if ok else 'reject'}", (
        None if got == want else f"{label} with shapes {state}: got {got}, should be {want}"
    )


def set_s_2(s):
    lib.NS["shapes"].S = (2,)
    return ((2,),) + s[1:], "set", None


def set_s_31(s):
    import asta.shapes as module

    module.S = (3, 1)
    return ((3, 1),) + s[1:], "set", None


def set_s_empty(s):
    setattr(lib.NS["asta"].shapes, "S", ())
    return ((),) + s[1:], "set", None


def set_t_14(s):
    lib.NS["shapes"].T = (1, 4)
    return (s[0], (1, 4), s[2]), "set", None


def set_t_2(s):
    lib.NS["shapes"].T = tuple([2])
    return (s[0], (2,), s[2]), "set", None


Pair = collections.namedtuple("Pair", "height width")


class Sizes(tuple):
    """A tuple."""


class Size(enum.IntEnum):
    """Integers."""

    FOUR = 4


def set_s_named(s):
    lib.NS["shapes"].S = Pair(3, 1)
    return ((3, 1),) + s[1:], "set", None


def set_t_sizes(s):
    lib.NS["shapes"].T = Sizes((True, Size.FOUR))
    return (s[0], (1, 4), s[2]), "set", None


def set_invalid(s):
    for name in ("S", "T"):
        for value in (2, "23", [2], None, (2.0,), ("2",), (1, None), ((1, 2),), (1, lib.NS["X"]), {2: 1}):
            got, _ = lib.attempt(setattr, lib.NS["shapes"], name, value)
            if got != "TypeError":
                return s, "invalid set", f"shapes.{name} = {value!r} gave {got}, should be TypeError"
    return s, "invalid set", None


def read(s):
    for name, want in zip("ST", s):
        got = getattr(lib.NS["shapes"], name)
        if want is None and isinstance(got, tuple):
            return s, "read", f"shapes.{name} is {got} without any assignment"
        if want is not None and got != want:
            return s, "read", f"shapes.{name} is {got}, should be {want}"
    return s, "read", None


def call_plain_2(s):
    return judge(s, "Array[S] with (2,)", verdict(G["plain"], arr(2)), s[0] == (2,))


def call_plain_0d(s):
    return judge(s, "Array[S] with ()", verdict(G["plain"], arr()), s[0] == ())


def call_plain_31(s):
    return judge(s, "Array[S] with (3, 1)", verdict(G["plain"], arr(3, 1)), s[0] == (3, 1))


def call_around(s):
    got = verdict(G["around"], arr(1, 2, 2), (arr(1, 4, 3), arr(2)))
    return judge(s, "Array[1, S, 2], (Array[T + (3,)], Array[S])", got, s[:2] == ((2,), (1, 4)))


def call_around_2(s):
    got = verdict(G["around"], arr(1, 3, 1, 2), (arr(2, 3), arr(3, 1)))
    return judge(s, "Array[1, S, 2], (Array[T + (3,)], Array[S]) 2", got, s[:2] == ((3, 1), (2,)))


def call_unpacked(s):
    ok = None not in s[:2] and s[0] + s[1] == (3, 1, 2)
    return judge(s, "Array[(*S, *T)] with (3, 1, 2)", verdict(G["unpacked"], arr(3, 1, 2)), ok)


def call_added(s):
    ok = None not in s[:2] and s[0] + s[1] == (1, 4)
    return judge(s, "Array[(1,) + S + T] with (1, 1, 4)", verdict(G["added"], arr(1, 1, 4)), ok)


def call_result(s):
    ok = None not in s[:2] and s[0] + s[1] == (2, 1, 4)
    return judge(s, "-> Array[S + T]", verdict(G["result"], 1), ok, after=True)


def call_other(s):
    ok = s[1] == (2,)
    new, label, error = judge(s, "Array[T], body sets S", verdict(G["other"], arr(2)), ok)
    return (((2,),) + s[1:] if ok else s), label, error


def define_late(s):
    N = lib.NS

    @N["typechecked"]
    def late(p: N["Array"][N["shapes"].S + (5,)]):
        RAN.append(1)

    G["late"] = late
    return s[:2] + ("placeholder" if s[0] is None else s[0],), "define", None


def call_late(s):
    if s[2] is None:
        return s, "no late", None
    shape = s[0] if s[2] == "placeholder" else s[2]
    return judge(s, "late Array[S + (5,)] with (2, 5)", verdict(G["late"], arr(2, 5)), shape == (2,))


OPS = [
    set_s_2, set_s_31, set_s_empty, set_t_14, set_t_2, set_invalid, read, call_plain_2, call_plain_0d,
    call_plain_31, call_around, call_around_2, call_unpacked, call_added, call_result, call_other,
    define_late, call_late, set_s_named, set_t_sizes,
]
CORE = [set_s_2, set_s_31, set_invalid, call_plain_2, define_late, call_late]
START = (None, None, None)


def step(op, state):
    return op(state)


def all_shapes():
    out = []
    for rank in range(5):
        out += itertools.product((1, 2, 3), repeat=rank)
    for rank in (1, 2, 3):
        out += [s for s in itertools.product((0, 1, 2), repeat=rank) if 0 in s]
    return out


def make(family, form, suffix):
    """One decorated function; placeholders are named S<suffix> and T<suffix>."""
    shapes = lib.NS["shapes"]
    S, T = getattr(shapes, "S" + suffix), getattr(shapes, "T" + suffix)
    source = f"{family}[{form}]"
    annotation = lib.ev(source, S=S, T=T)

    def func(p):  # pylint: disable=unused-argument
        RAN.append(1)

    func.__annotations__ = {"p": annotation}
    return source, lib.NS["typechecked"](func)


def expected(tokens, given, shape):
    pattern = ()
    for token in tokens:
        if token in ("S", "T"):
            if token not in given:
                return False, None
            pattern += given[token]
        elif isinstance(token, str):
            pattern += (model.poly(token),)
        else:
            pattern += (token,)
    return model.shape_accepts(pattern, shape), pattern


def decide(ctx, family, index, item, given, shape):
    from mc.checks.c01 import make_value

    source, func = item
    want_ok, _ = expected(FORMS[index][1], given, shape)
    RAN.clear()
    with lib.limit(60):
        got = lib.typechecked_call(func, make_value(family, shape)), len(RAN)
    ctx.count("transitions")
    ctx.outcome("input accept" if want_ok else "input reject")
    want = ("ok", 1) if want_ok else ("TypeError", 0)
    if got != want:
        ctx.violation(
            {"family": family, "index": index, "given": given, "shape": shape, "source": source},
            f"{source} with {given} on shape {shape}: got {got}, should be {want}",
        )


def run_inputs(ctx):
    family = ctx.params.get("family", "Array")
    few = ctx.params.get("few")
    shared = ctx.params.get("shared")
    deep = ctx.tier == "thorough"
    items = {}
    for index, (form, _) in enumerate(FORMS):
        if family == "TFTensor" and "float" in form:
            continue
        if ctx.mine():
            items[index] = make(family, form, "" if shared else str(index))
    base = all_shapes()
    if few or not deep:
        base = [s for s in base if len(s) <= (2 if few else 3)]
    given = {}
    tuples_t = TUPLES if deep else [None, (2,), (), (1, 3)]
    pairs = list(itertools.product(TUPLES, tuples_t))
    # A name cannot be unset, so pairs with unset names come first (others are explored
    # in a forked process).
    order = [(None, None)] + [p for p in pairs if p[0] is None and p[1] is not None]

    def explore(sub, todo):
        given.clear()
        for s_value, t_value in todo:
            for name, value in (("S", s_value), ("T", t_value)):
                if value is None:
                    continue
                given[name] = value
                for suffix in [""] if shared else [str(i) for i in items]:
                    setattr(lib.NS["shapes"], name + suffix, value)
            for index, item in items.items():
                tokens = FORMS[index][1]
                if "T" not in tokens and t_value != tuples_t[1] and s_value is not None:
                    continue
                if "T" not in tokens and t_value is not None and s_value is None:
                    continue
                shapes = list(base)
                exact = []
                for token in tokens:
                    if token in given:
                        exact += [abs(x) for x in given[token]]
                    elif isinstance(token, int):
                        exact.append(abs(token))
                    else:
                        exact.append(2)
                exact = tuple(exact)
                if exact not in shapes:
                    shapes.append(exact)
                if tuple(reversed(exact)) not in shapes:
                    shapes.append(tuple(reversed(exact)))
                if not all(n in given for n in ("S", "T") if n in tokens):
                    shapes = shapes[:20] + [exact]
                for shape in shapes:
                    decide(sub, family, index, item, given, shape)

    lib.forked(lambda sub: explore(sub, order), ctx)
    lib.forked(lambda sub: explore(sub, [p for p in pairs if p[1] is None and p[0] is not None]), ctx)
    explore(ctx, [p for p in pairs if None not in p])


def run_sums(ctx, only=None):
    """Every sum before and after its names get values."""
    todo = [only] if only else [t for t in sums(ctx.tier) if ctx.mine()]
    built = []
    for source, tokens in todo:
        found = make("Array", source, "")
        built.append((source, tokens, found[1]))
    given = {}
    for s_value, t_value in ((None, None), (None, (3,)), ((2,), (3,)), ((2, 4), (3,)), ((3,), ()), ((), (2, 3)), ((5,), (5,))):
        for name, value in (("S", s_value), ("T", t_value)):
            if value is not None:
                given[name] = value
                setattr(lib.NS["shapes"], name, value)
        for source, tokens, func in built:
            exact = sum((given.get(t, (2,)) if isinstance(t, str) else (t,) for t in tokens), ())
            shapes = [exact, exact[:-1], exact[1:], exact[::-1], exact + (2,), (3,) + exact]
            for shape in dict.fromkeys(shapes):
                want = shape == exact and all(t in given for t in tokens if isinstance(t, str))
                RAN.clear()
                got = lib.typechecked_call(func, arr(*shape)), len(RAN)
                ctx.count("transitions")
                ctx.outcome("sum accept" if want else "sum reject")
                if got != (("ok", 1) if want else ("TypeError", 0)):
                    ctx.violation(
                        {"sum": source, "tokens": tokens},
                        f"Array[{source}] with {given} on shape {shape}: got {got}, should {'accept' if want else 'reject'}",
                    )


def decide_names(ctx, one, two):
    """Assigns to both names, one after the other, and looks at both after every step."""
    N = lib.NS
    shapes = N["shapes"]
    annotation = N["Array"][getattr(shapes, one), 9, getattr(shapes, two)]

    def func(p):  # pylint: disable=unused-argument
        RAN.append(1)

    func.__annotations__ = {"p": annotation}
    func = N["typechecked"](func)
    state = {}
    # another kind of placeholder of the same name is another placeholder
    setattr(N["dims"], one, 7)
    values = [(2,), (3,), (4, 1), ()]
    for name, value in (None, None), (one, (2,)), (two, (3,)), (one, (4, 1)), (two, ()), (one, (3,)):
        if name is not None:
            setattr(shapes, name, value)
            state[name] = value
        for each in (one, two):
            got = getattr(shapes, each)
            if each in state and not (isinstance(got, tuple) and got == state[each]):
                return ctx.violation({"names": [one, two]}, f"shapes.{each} is {got} after the assignments {state}")
            if each not in state and isinstance(got, tuple):
                return ctx.violation({"names": [one, two]}, f"shapes.{each} is {got}, only {state} were assigned")
        for left, right in itertools.product(values, repeat=2):
            ok = (left, right) == (state.get(one), state.get(two))
            RAN.clear()
            got = lib.typechecked_call(func, arr(*left, 9, *right)), len(RAN)
            ctx.count("transitions")
            ctx.outcome("names accept" if ok else "names reject")
            if got != (("ok", 1) if ok else ("TypeError", 0)):
                return ctx.violation(
                    {"names": [one, two]},
                    f"Array[shapes.{one}, 9, shapes.{two}] on shape {left + (9,) + right} after {state}: got {got}, should "
                    f"{'accept' if ok else 'reject'}",
                )
    ctx.count("traces_validated_against_impl")
    return None


def run_names(ctx):
    for one, two in names.pairs(ctx.tier):
        if ctx.mine():
            lib.forked(lambda sub, one=one, two=two: decide_names(sub, one, two), ctx)


def run(ctx):
    space = ctx.params["space"]
    if space == "names":
        return run_names(ctx)
    if space == "sums":
        return run_sums(ctx)
    if space == "inputs":
        return run_inputs(ctx)
    prepare()
    if space == "all":
        lib.fork_dfs(ctx, OPS, bounds(ctx.tier)["depth"], step, START)
    else:
        lib.fork_dfs(ctx, CORE, bounds(ctx.tier)["core depth"], step, START)
    return None


def replay(case, ctx):
    if "names" in case:
        decide_names(ctx, *case["names"])
        return
    if "sum" in case:
        run_sums(ctx, (case["sum"], case["tokens"]))
        return
    if "index" in case:
        # With the names in the same state of use as in the run.
        shared = ctx.params.get("shared")
        items = {}
        for index, (form, _) in enumerate(FORMS):
            if case["family"] == "TFTensor" and "float" in form:
                continue
            if ctx.mine():
                items[index] = make(case["family"], form, "" if shared else str(index))
        given = {k: tuple(v) for k, v in case["given"].items()}
        for name, value in given.items():
            for suffix in [""] if shared else [str(i) for i in items]:
                setattr(lib.NS["shapes"], name + suffix, value)
        decide(ctx, case["family"], case["index"], items[case["index"]], given, tuple(case["shape"]))
    else:
        prepare()
        ops = OPS if ctx.params["space"] == "all" else CORE
        lib.run_history(ctx, ops, case["history"], step, START)
