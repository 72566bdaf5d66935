"""C06: dims placeholders are read at call time, with the latest value."""
import enum
import itertools

from mc import lib, model, names

LEVEL = "model_checking"
RULE = (
    "every sequence of the stated operations (assignments, invalid assignments, reads, calls, "
    "definitions) up to the stated depth, each edge executed on the real code in a forked process in "
    "lockstep with a model holding the last valid value per name; plus every expression annotation x "
    "every assignment of values (or none) x every argument shape; plus every pair of the stated names: what is "
    "assigned to one is never seen at the other"
)
ASSUMPTIONS = [
    "a placeholder and a symbol of the same name are the same sympy symbol, so names are distinct",
    "values are >= 0 (-1 would act as a wildcard); bool values are not explored",
    "the result annotation is checked without reassignment during the body",
]

EXPRESSIONS = ["A", "B", "A + 1", "2*A", "A*B", "A + B", "A - B", "A/2", "A**2", "3 - A", "A + X"]


def bounds(tier):
    deep = tier == "thorough"
    return {
        "operations": [f.__name__ for f in OPS],
        "depth": 4 if deep else 3,
        "core operations": [f.__name__ for f in CORE],
        "core depth": 6 if deep else 5,
        "expressions": EXPRESSIONS,
        "values": "none, 0, 1, 2, 3, 300",
        "names": names.NAMES,
        "pairs of names": len(names.pairs(tier)),
        "ranks": "1 and 2 (pairs of expressions)",
    }


def jobs(tier):
    out = lib.split(8, name="all", params={"space": "all"})
    out += lib.split(8, name="core", params={"space": "core"})
    out += lib.split(8, name="inputs", params={"space": "inputs"})
    out += lib.split(4, name="names", params={"space": "names"})
    out += lib.split(1, name="tf", backend="tf", params={"space": "inputs1", "family": "TFTensor"})
    out += lib.split(1, name="torch", backend="torch", params={"space": "inputs1", "family": "Tensor"})
    return out


G = {}
RAN = []


def arr(*shape):
    return lib.NS["np"].zeros(shape)


def prepare():
    N = lib.NS
    Array, dims, X, typechecked, List = N["Array"], N["dims"], N["X"], N["typechecked"], N["List"]
    A, B = dims.A, dims.B

    @typechecked
    def plain(p: Array[A]) -> Array[A]:
        RAN.append(1)
        return p

    @typechecked
    def expr(p: Array[A + 1, 2 * B], q: List[Array[float, A]]):
        RAN.append(1)

    @typechecked
    def mixed(p: Array[A * X, X], q: Array[..., B]):
        RAN.append(1)

    @typechecked
    def half(p: Array[A / 2]):
        RAN.append(1)

    @typechecked
    def result(n: int) -> Array[A, B]:
        RAN.append(1)
        return arr(2, 3)

    @typechecked
    def other(p: Array[B]):
        RAN.append(1)
        dims.A = 2

    G.update(plain=plain, expr=expr, mixed=mixed, half=half, result=result, other=other, late=None)


def verdict(func, *args):
    RAN.clear()
    got = lib.typechecked_call(func, *args)
    return got, len(RAN)


def judge(state, label, got, ok, after=False):
    want = ("ok", 1) if ok else ("TypeError", 1 if after else 0)
    return state, f"{label} {'accept' if ok else 'reject'}", (
        None if got == want else f"{label} with dims {state}: got {got}, should be {want}"
    )


# The state is (A, B, late): late is None, 'placeholder' or the size it was defined with.


def set_a_2(s):
    lib.NS["dims"].A = 2
    return (2,) + s[1:], "set", None


def set_a_3(s):
    import asta.dims as module

    module.A = 3
    return (3,) + s[1:], "set", None


def set_a_0(s):
    setattr(lib.NS["asta"].dims, "A", 0)
    return (0,) + s[1:], "set", None


def set_b_3(s):
    lib.NS["dims"].B = 3
    return (s[0], 3, s[2]), "set", None


def set_b_300(s):
    lib.NS["dims"].B = int("300")
    return (s[0], 300, s[2]), "set", None


class Size(enum.IntEnum):
    TWO = 2
    THREE = 3


class Whole(int):
    """An integer."""


def set_a_enum(s):
    lib.NS["dims"].A = Size.TWO
    return (2,) + s[1:], "set", None


def set_b_true(s):
    lib.NS["dims"].B = True
    return (s[0], 1, s[2]), "set", None


def set_b_whole(s):
    lib.NS["dims"].B = Whole(3)
    return (s[0], 3, s[2]), "set", None


def set_invalid(s):
    for name in ("A", "B"):
        for value in ("2", 2.0, None, (2,), [3], lib.NS["X"]):
            got, _ = lib.attempt(setattr, lib.NS["dims"], name, value)
            if got != "TypeError":
                return s, "invalid set", f"dims.{name} = {value!r} gave {got}, should be TypeError"
    return s, "invalid set", None


def read(s):
    for name, want in zip("AB", s):
        got = getattr(lib.NS["dims"], name)
        if want is None and isinstance(got, int):
            return s, "read", f"dims.{name} is {got} without any assignment"
        if want is not None and not (isinstance(got, int) and got == want):
            return s, "read", f"dims.{name} is {got}, should be {want}"
    return s, "read", None


def call_plain_2(s):
    return judge(s, "Array[A] with (2,)", verdict(G["plain"], arr(2)), s[0] == 2)


def call_plain_3(s):
    return judge(s, "Array[A] with (3,)", verdict(G["plain"], arr(3)), s[0] == 3)


def call_expr(s):
    got = verdict(G["expr"], arr(3, 6), [arr(2), arr(2)])
    return judge(s, "Array[A+1, 2*B], List[Array[A]]", got, s[:2] == (2, 3))


def call_expr_bad(s):
    got = verdict(G["expr"], arr(3, 6), [arr(2), arr(3)])
    return judge(s, "list element of size 3", got, False)


def call_mixed(s):
    got = verdict(G["mixed"], arr(6, 2), arr(5, 300))
    return judge(s, "Array[A*X, X], Array[..., B]", got, s[:2] == (3, 300))


def call_half(s):
    return judge(s, "Array[A/2] with (1,)", verdict(G["half"], arr(1)), s[0] == 2)


def call_b_1(s):
    return called_other(s, 1)


def called_other(s, size):
    got = verdict(G["other"], arr(size))
    ok = s[1] == size
    _, label, error = judge(s, f"Array[B] with ({size},), body sets A", got, ok)
    return ((2,) + s[1:] if ok else s), label, error


def call_result(s):
    ok = s[:2] == (2, 3)
    return judge(s, "-> Array[A, B]", verdict(G["result"], 1), ok, after=True)


def call_other(s):
    return called_other(s, 3)


def define_late(s):
    N = lib.NS

    @N["typechecked"]
    def late(p: N["Array"][N["dims"].A]):
        RAN.append(1)

    G["late"] = late
    return s[:2] + ("placeholder" if s[0] is None else s[0],), "define", None


def call_late(s):
    if s[2] is None:
        return s, "no late", None
    size = s[0] if s[2] == "placeholder" else s[2]
    return judge(s, "late Array[A] with (2,)", verdict(G["late"], arr(2)), size == 2)


OPS = [
    set_a_2, set_a_3, set_a_0, set_b_3, set_b_300, set_invalid, read, call_plain_2, call_plain_3,
    call_expr, call_expr_bad, call_mixed, call_half, call_result, call_other, define_late, call_late,
    set_a_enum, set_b_whole, set_b_true, call_b_1,
]
CORE = [set_a_2, set_a_3, set_invalid, call_plain_2, define_late, call_late]
START = (None, None, None)


def step(op, state):
    return op(state)


def run_inputs(ctx, family="Array", ranks=(1, 2)):
    N = lib.NS
    dims = N["dims"]
    placeholders = {"A": dims.A, "B": dims.B}
    funcs = []
    for rank in ranks:
        for combo in itertools.product(EXPRESSIONS, repeat=rank):
            if not ctx.mine():
                continue
            funcs.append((combo, make(family, combo, placeholders)))
    values = (None, 1, 2, 3, 0)
    sizes = (0, 1, 2, 3, 4, 6)
    for a in values:
        for b in values if ctx.tier == "thorough" else (None, 1, 2):
            if (a is None and dims.symbol_map.get(placeholders["A"]) is not None) or (
                b is None and dims.symbol_map.get(placeholders["B"]) is not None
            ):
                # names cannot be unset again: a fresh process for this part
                continue
            for name, value in (("A", a), ("B", b)):
                if value is not None:
                    setattr(dims, name, value)
            for combo, func in funcs:
                for shape in itertools.product(sizes if len(combo) == 1 else (0, 1, 2, 4), repeat=len(combo)):
                    decide_input(ctx, family, combo, func, (a, b), shape)


def make(family, combo, placeholders):
    source = f"{family}[{', '.join(combo)}]"
    annotation = lib.ev(source, **placeholders)

    def func(p):  # pylint: disable=unused-argument
        RAN.append(1)

    func.__annotations__ = {"p": annotation}
    return lib.NS["typechecked"](func)


def decide_input(ctx, family, combo, func, values, shape):
    from mc.checks.c01 import make_value

    given = {n: v for n, v in zip("AB", values) if v is not None}
    polys = [model.poly(e) for e in combo]
    used = set().union(*(p.names for p in polys))
    if any(n in used and n not in given for n in "AB"):
        ok = False
    else:
        after = [p.subs(given) for p in polys]
        constants = [p.constant() for p in after]
        if any(c == -1 for c in constants):
            return  # would act as a wildcard
        ok = all(c is None or c.denominator == 1 for c in constants) and model.solvable(
            [p.minus(d) for p, d in zip(after, shape)]
        )
    RAN.clear()
    with lib.limit(60):
        got = lib.typechecked_call(func, make_value(family, shape)), len(RAN)
    ctx.count("transitions")
    ctx.outcome("input accept" if ok else "input reject")
    want = ("ok", 1) if ok else ("TypeError", 0)
    if got != want:
        ctx.violation(
            {"family": family, "combo": combo, "values": values, "shape": shape},
            f"{family}{list(combo)} with A, B = {values} on shape {shape}: got {got}, should be {want}",
        )


def decide_names(ctx, one, two):
    """Assigns to both names, one after the other, and looks at both after every step."""
    N = lib.NS
    dims = N["dims"]
    annotation = N["Array"][getattr(dims, one), getattr(dims, two)]

    def func(p):  # pylint: disable=unused-argument
        RAN.append(1)

    func.__annotations__ = {"p": annotation}
    func = N["typechecked"](func)
    state = {}
    # another kind of placeholder of the same name is another placeholder
    setattr(N["shapes"], one, (7, 7))
    for name, value in (None, None), (one, 2), (two, 3), (one, 4), (two, 2), (one, 3):
        if name is not None:
            setattr(dims, name, value)
            state[name] = value
        for each in (one, two):
            got = getattr(dims, each)
            if each in state and not (isinstance(got, int) and got == state[each]):
                return ctx.violation({"names": [one, two]}, f"dims.{each} is {got} after the assignments {state}")
            if each not in state and isinstance(got, int):
                return ctx.violation({"names": [one, two]}, f"dims.{each} is {got}, only {state} were assigned")
        for shape in itertools.product((2, 3, 4, 7), repeat=2):
            ok = shape == (state.get(one), state.get(two))
            RAN.clear()
            got = lib.typechecked_call(func, arr(*shape)), len(RAN)
            ctx.count("transitions")
            ctx.outcome("names accept" if ok else "names reject")
            if got != (("ok", 1) if ok else ("TypeError", 0)):
                return ctx.violation(
                    {"names": [one, two]},
                    f"Array[dims.{one}, dims.{two}] on shape {shape} after {state}: got {got}, should {'accept' if ok else 'reject'}",
                )
    ctx.count("traces_validated_against_impl")
    return None


def run_names(ctx):
    for one, two in names.pairs(ctx.tier):
        if ctx.mine():
            lib.forked(lambda sub, one=one, two=two: decide_names(sub, one, two), ctx)


def run(ctx):
    space = ctx.params["space"]
    if space == "names":
        return run_names(ctx)
    if space == "inputs1":
        return run_inputs(ctx, ctx.params["family"], (1,))
    if space == "inputs":
        return run_inputs(ctx)
    prepare()
    if space == "all":
        lib.fork_dfs(ctx, OPS, bounds(ctx.tier)["depth"], step, START)
    else:
        lib.fork_dfs(ctx, CORE, bounds(ctx.tier)["core depth"], step, START)
    return None


def replay(case, ctx):
    if "names" in case:
        decide_names(ctx, *case["names"])
    elif "combo" in case:
        dims = lib.NS["dims"]
        func = make(case["family"], case["combo"], {"A": dims.A, "B": dims.B})
        for name, value in zip("AB", case["values"]):
            if value is not None:
                setattr(dims, name, value)
        decide_input(ctx, case["family"], tuple(case["combo"]), func, tuple(case["values"]), tuple(case["shape"]))
    else:
        prepare()
        ops = OPS if ctx.params["space"] == "all" else CORE
        lib.run_history(ctx, ops, case["history"], step, START)
