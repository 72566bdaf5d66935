"""C08: type checking never changes what an accepted call does."""
import builtins
import itertools

from mc import lib

LEVEL = "exploration"
RULE = (
    "every signature of up to three annotated parameters (every order-respecting choice of "
    "positional-only, ordinary and keyword-only kinds; no default, a fitting, an unfitting one, None) x how it "
    "is reached (function, method, class method, static method, metaclass method; through instance or "
    "class) x every way to pass the arguments (position, keyword in every order, left to the default) x "
    "values (all fitting, each one unfitting, each pair exchanged, all rotated) x every body outcome; "
    "the body records what it gets. Non-trivial: the call is accepted, or is rejected although every "
    "value fits some other parameter"
)
ASSUMPTIONS = [
    "every parameter except self/cls/mcs is annotated; no *args or **kwargs parameters",
    "calls that do not bind are only required not to run the body",
]

NAMES = {
    "plain": ("p", "q", "r"),
    "inner": ("decorated", "args", "kwargs"),
    "reversed": ("z", "y", "x"),
    "refs": ("self", "cls", "mcs"),
    "class refs": ("cls", "mcs", "self"),
    "metaclass refs": ("mcs", "self", "cls"),
    "refs behind": ("p", "self", "cls"),
    "messages": ("name", "value", "annotation"),
}
RECEIVERS = {
    # label: (decorator line, first parameter, how to reach it)
    "function": None,
    "instance": ("", "self", "K.OBJ.f"),
    "unbound": ("", "self", "K.f"),
    "class": ("@classmethod", "cls", "K.f"),
    "class from instance": ("@classmethod", "cls", "K.OBJ.f"),
    "class from subclass": ("@classmethod", "cls", "Sub.f"),
    "static": ("@staticmethod", None, "K.f"),
    "static from instance": ("@staticmethod", None, "K.OBJ.f"),
    "metaclass": ("", "cls", "K.f"),
    "metaclass class": ("@classmethod", "mcs", "M.f"),
}
BODIES = ["object", "argument", "good result", "bad result", "argument as result", "raises", "raises TypeError"]
# What else a body may raise.
OTHERS = ["StopIteration", "StopAsyncIteration", "SystemExit", "KeyboardInterrupt", "GeneratorExit", "Exacting", "AttributeError", "ImportError"]


class Own(Exception):
    """What the body raises."""


class Exacting(Exception):
    """Cannot be made from its args."""

    def __init__(self, one, two):
        super().__init__("exacting")
        self.both = one, two


def thrown(body):
    kind = body.partition(" ")[2]
    if not kind:
        return Own("own")
    if kind == "Exacting":
        return Exacting(1, 2)
    return getattr(builtins, kind)("own")


def bounds(tier):
    deep = tier == "thorough"
    return {
        "parameters": 3,
        "receivers": list(RECEIVERS),
        "names": {k: NAMES[k] for k in NAMES},
        "bodies": BODIES + [f"raises {kind} (up to one parameter)" for kind in OTHERS],
        "three parameters": "all receivers and bodies" if deep else "function and method; bodies in rotation",
    }


def jobs(tier):
    deep = tier == "thorough"
    out = lib.split(8, name="arrays", params={"names": "plain", "kinds": "arrays", "n": 3})
    for names in ("inner", "reversed", "refs", "class refs", "metaclass refs", "refs behind", "messages"):
        out += lib.split(2 if deep else 1, name=names, params={"names": names, "kinds": "arrays", "n": 3 if deep else 2})
    out += lib.split(
        4 if deep else 2, name="mixed", params={"names": "plain", "kinds": "mixed", "n": 3 if deep else 2},
        config={"check-non-asta-types": "yes"},
    )
    out += lib.split(
        2, name="quiet", params={"names": "plain", "kinds": "arrays", "n": 2}, config={"print-passes": "no"}
    )
    out += lib.split(2, name="unbound", params={"names": "plain", "kinds": "arrays", "n": 2, "binding": 1})
    return out


# Annotation, a fitting value; a value never fits another parameter's annotation.
def annotations(kinds):
    N = lib.NS
    np, Array = N["np"], N["Array"]
    if kinds == "arrays":
        return (
            [Array[1], Array[float, 2, -1], Array[..., 3]],
            [lambda: np.zeros(1), lambda: np.zeros((2, 5)), lambda: np.zeros((4, 3))],
            Array[float, 7],
            lambda: np.zeros(7),
        )
    typing = N["typing"]
    return (
        [N["List"][Array[1]], typing.Iterator[Array], N["Dict"][str, Array[2]]],
        [lambda: [np.zeros(1), np.zeros(1)], lambda: iter([np.zeros(1), np.zeros(2)]), lambda: {"a": np.zeros(2)}],
        typing.Iterator[Array],
        lambda: iter([np.zeros(7)]),
    )


def signatures(n):
    """Kinds and defaults per parameter."""
    for kinds in itertools.combinations_with_replacement(("posonly", "normal", "kwonly"), n):
        for defaults in itertools.product((None, "good", "bad", "none"), repeat=n):
            seen = False
            legal = True
            for kind, default in zip(kinds, defaults):
                if kind == "kwonly":
                    continue
                if default is None and seen:
                    legal = False
                seen = seen or default is not None
            if legal:
                yield kinds, defaults


def passings(kinds, defaults):
    """How each parameter is passed, and the keyword order."""
    options = []
    for kind, default in zip(kinds, defaults):
        option = {"posonly": ["pos"], "normal": ["pos", "kw"], "kwonly": ["kw"]}[kind]
        options.append(option + (["default"] if default else []))
    for styles in itertools.product(*options):
        positional = [i for i, s in enumerate(styles) if s == "pos"]
        if positional != list(range(len(positional))):
            continue
        keywords = [i for i, s in enumerate(styles) if s == "kw"]
        for order in itertools.permutations(keywords):
            yield styles, order


def fillings(n):
    """Which value each parameter gets: an index of a fitting value or 'odd'."""
    base = tuple(range(n))
    yield base
    for i in range(n):
        yield base[:i] + ("odd",) + base[i + 1 :]
    for i, j in itertools.combinations(range(n), 2):
        swapped = list(base)
        swapped[i], swapped[j] = j, i
        yield tuple(swapped)
    if n == 3:
        yield (1, 2, 0)
        yield (2, 0, 1)


SEEN = []
SCRIPT = [None]


def hook(*received):
    SEEN.append(received)
    return SCRIPT[0](received)


def build(receiver, names, kinds, defaults, returns, setup):
    """The function as a user would write it; returns what to call and the default objects."""
    anns, makers, result_ann, _ = setup
    env = {"typechecked": lib.NS["typechecked"], "hook": hook, "RA": result_ann}
    params = []
    default_objects = {}
    previous = None
    for i, (name, kind, default) in enumerate(zip(names, kinds, defaults)):
        if previous == "posonly" and kind != "posonly":
            params.append("/")
        if kind == "kwonly" and previous != "kwonly":
            params.append("*")
        env[f"A{i}"] = anns[i]
        text = f"{name}: A{i}"
        if default:
            value = {"good": makers[i], "bad": makers[(i + 1) % len(makers)], "none": lambda: None}[default]()
            env[f"D{i}"] = default_objects[i] = value
            text += f" = D{i}"
        params.append(text)
        previous = kind
    if previous == "posonly":
        params.append("/")
    spec = RECEIVERS[receiver]
    arrow = " -> RA" if returns else ""
    passed = ", ".join(names[: len(kinds)])
    if spec is None:
        source = f"@typechecked\ndef f({', '.join(params)}){arrow}:\n    return hook({passed})\nTARGET = f\n"
    else:
        line, first, reach = spec
        inner = [first] + params if first else params
        if first and kinds and kinds[0] == "posonly":
            pass  # "self" is positional-only as well
        given = ", ".join([first] * bool(first) + list(names[: len(kinds)]))
        body = f"    {line}\n" if line else ""
        body += f"    @typechecked\n    def f({', '.join(inner)}){arrow}:\n        return hook({given})\n"
        source = "class M(type):\n    pass\n"
        if receiver.startswith("metaclass"):
            source = f"class M(type):\n{body}"
            body = "    pass\n"
        source += f"class K(metaclass=M):\n{body}\nclass Sub(K):\n    pass\nK.OBJ = K()\nTARGET = {reach}\n"
    exec(source, env)  # pylint: disable=exec-used
    return env, default_objects, source


def receiver_object(receiver, env):
    return {
        "instance": lambda: env["K"].OBJ,
        "unbound": lambda: env["K"].OBJ,
        "class": lambda: env["K"],
        "class from instance": lambda: env["K"],
        "class from subclass": lambda: env["Sub"],
        "metaclass": lambda: env["K"],
        "metaclass class": lambda: env["M"],
    }.get(receiver, lambda: None)()


def decide(ctx, built, receiver, names, kinds, defaults, returns, styles, order, filling, body, setup):
    env, default_objects, source = built
    _, makers, _, good_result = setup
    n = len(kinds)
    given = []
    for i in range(n):
        if styles[i] == "default":
            given.append(default_objects[i])
        elif filling[i] == "odd":
            given.append("odd")
        else:
            given.append(makers[filling[i]]())
    fits = all(
        defaults[i] == "good" if styles[i] == "default" else filling[i] == i for i in range(n)
    )
    args = [given[i] for i in range(n) if styles[i] == "pos"]
    kwargs = {names[i]: given[i] for i in order}
    me = receiver_object(receiver, env)
    if receiver == "unbound":
        args = [me] + args
    raised = thrown(body) if body.startswith("raises") else None
    cause = KeyError("cause")
    result = {"object": object(), "good result": good_result(), "bad result": object()}.get(body)
    if body in ("argument", "argument as result"):
        result = given[0]

    def script(_received):
        if body == "raises":
            raise raised from cause
        if body.startswith("raises"):
            try:
                raise cause
            except KeyError:
                raise raised  # pylint: disable=raise-missing-from
        return result

    SCRIPT[0] = script
    SEEN.clear()
    before = dict(kwargs)
    try:
        with lib.limit(60):
            got = ("returns", env["TARGET"](*args, **kwargs))
    except lib.Alarm:
        got = ("Alarm", None)
    except BaseException as err:  # pylint: disable=broad-except
        got = ("raises", err)
    result_fits = not returns or body == "good result"
    expect_seen = tuple(([me] if me is not None else []) + given)
    error = None
    if not fits:
        want = "rejected"
        if SEEN:
            error = f"the body ran {len(SEEN)} times although an argument does not fit"
        elif got[0] != "raises" or not isinstance(got[1], TypeError) or got[1] is raised:
            error = f"should be TypeError, got {got}"
    else:
        if len(SEEN) != 1:
            error = f"the body ran {len(SEEN)} times (then {got})"
        elif len(SEEN[0]) != len(expect_seen) or any(a is not b for a, b in zip(SEEN[0], expect_seen)):
            error = f"the body got other arguments: {SEEN[0]} instead of {expect_seen}"
        elif kwargs != before:
            error = "the caller's keyword arguments were changed"
        elif body.startswith("raises"):
            want = "raises"
            if got[0] != "raises" or got[1] is not raised:
                error = f"should raise the body's exception, got {got}"
            elif (raised.__cause__, raised.__suppress_context__) != ((cause, True) if body == "raises" else (None, False)):
                error = f"the exception's cause was changed: {raised.__cause__!r}, context hidden {raised.__suppress_context__}"
            elif body != "raises" and raised.__context__ is not cause:
                error = f"the exception's context was changed: {raised.__context__!r}"
        elif result_fits:
            want = "returns"
            if got[0] != "returns" or got[1] is not result:
                error = f"should return the body's object, got {got}"
            elif hasattr(result, "__next__") and len(list(result)) not in (1, 2):
                error = "the result was consumed"
        else:
            want = "result rejected"
            if got[0] != "raises" or not isinstance(got[1], TypeError):
                error = f"the result does not fit, should be TypeError, got {got}"
        if not error:
            for i in range(n):
                if hasattr(given[i], "__next__") and given[i] is not result and not styles[i] == "default":
                    if len(list(given[i])) != 2:
                        error = "an iterator argument was consumed by the check"
    ctx.count("evaluations")
    if fits or "odd" not in filling:
        ctx.count("distinct_nontrivial")
    if error:
        case = dict(receiver=receiver, names=names, kinds=kinds, defaults=defaults, returns=returns,
                    styles=styles, order=order, filling=filling, body=body, source=source)
        ctx.violation(case, f"{error}; passing {styles} order {order} values {filling} body '{body}' to\n{source}")
        return
    ctx.outcome(want)
    if fits and n > 1:
        ctx.sample({"receiver": receiver, "kinds": kinds, "defaults": defaults, "styles": styles, "body": body, "verdict": want})


def bodies_for(index, n, tier):
    """(body, returns) pairs."""
    pairs = [
        ("object", 0), ("raises", 0), ("raises TypeError", 1), ("good result", 1), ("bad result", 1),
        ("argument", 0), ("argument as result", 1), ("raises", 1),
    ]
    if n < 2:
        pairs += [(f"raises {kind}", returns) for kind in OTHERS for returns in (0, 1)]
    if tier == "thorough" or n < 3:
        return pairs
    return [pairs[index % len(pairs)], pairs[(index + 3) % len(pairs)]]


def run(ctx):
    params = ctx.params
    names = NAMES[params["names"]]
    setup = annotations(params["kinds"])
    if params.get("binding"):
        return run_binding(ctx, names, setup)
    index = 0
    for n in range(params["n"] + 1):
        receivers = list(RECEIVERS)
        if "refs" in params["names"]:
            receivers = ["function", "static", "static from instance"]
        elif n == 3 and ctx.tier == "quick":
            receivers = ["function", "instance"]
        for receiver in receivers:
            for kinds, defaults in signatures(n):
                if params["kinds"] == "mixed" and any(defaults):
                    # an iterator as a default would be shared by the calls
                    if defaults[1:2] != (None,) and n > 1:
                        continue
                    if "bad" in defaults or "none" in defaults:
                        continue
                if "none" in defaults and ctx.tier == "quick":
                    if n == 3 or "bad" in defaults or receiver not in ("function", "instance", "static"):
                        continue
                if not ctx.mine():
                    continue
                built = {r: build(receiver, names, kinds, defaults, r, setup) for r in (0, 1)}
                for styles, order in passings(kinds, defaults):
                    for filling in fillings(n):
                        if any(s == "default" and f != i for i, (s, f) in enumerate(zip(styles, filling))):
                            continue
                        if n == 3 and params["kinds"] == "arrays" and ctx.tier == "quick" and any(defaults):
                            if filling not in ((0, 1, 2), (1, 0, 2), (0, 2, 1), (1, 2, 0)):
                                continue
                        index += 1
                        for body, returns in bodies_for(index, n, ctx.tier):
                            if not n and body.startswith("argument"):
                                continue
                            decide(ctx, built[returns], receiver, names, kinds, defaults, returns, styles,
                                   order, filling, body, setup)
    return None


def run_binding(ctx, names, setup):
    """Calls that do not bind: the body must not run and the call must not return."""
    for n in (1, 2):
        for receiver in RECEIVERS:
            for kinds, defaults in signatures(n):
                if "bad" in defaults or "none" in defaults or not ctx.mine():
                    continue
                env, _, source = build(receiver, names, kinds, defaults, 0, setup)
                SCRIPT[0] = lambda received: None
                values = [m() for m in setup[1]]
                me = receiver_object(receiver, env) if receiver == "unbound" else None
                for count in range(4):
                    for keywords in ((), ("p",), ("q",), ("p", "q"), ("r",), ("p", "r"), ("q", "r")):
                        if binds(kinds, defaults, names, count, keywords):
                            continue
                        args = ([me] if me is not None else []) + values[:count]
                        kwargs = {k: values[names.index(k)] for k in keywords}
                        SEEN.clear()
                        got, text = lib.attempt(env["TARGET"], *args, **kwargs)
                        ctx.count("evaluations")
                        ctx.outcome("does not bind")
                        if SEEN or got == "ok":
                            ctx.violation(
                                dict(receiver=receiver, kinds=kinds, defaults=defaults, count=count, keywords=keywords),
                                f"a call with {count} positional arguments and keywords {keywords} does not bind, "
                                f"but the body ran {len(SEEN)} times ({got} {text}):\n{source}",
                            )


def binds(kinds, defaults, names, count, keywords):
    positional = [i for i, k in enumerate(kinds) if k != "kwonly"]
    if count > len(positional):
        return False
    filled = set(positional[:count])
    for keyword in keywords:
        i = names.index(keyword)
        if i >= len(kinds) or i in filled or kinds[i] == "posonly":
            return False
        filled.add(i)
    return all(i in filled or defaults[i] for i in range(len(kinds)))


def replay(case, ctx):
    setup = annotations(ctx.params["kinds"])
    if "keywords" in case:
        return run_binding(ctx, NAMES[ctx.params["names"]], setup)
    names, kinds, defaults = tuple(case["names"]), tuple(case["kinds"]), tuple(case["defaults"])
    built = build(case["receiver"], names, kinds, defaults, case["returns"], setup)
    decide(ctx, built, case["receiver"], names, kinds, defaults, case["returns"], tuple(case["styles"]),
           tuple(case["order"]), tuple(case["filling"]), case["body"], setup)
    return None
