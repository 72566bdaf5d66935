"""C04: symbols have one value across a whole type-checked call."""
import itertools

from mc import lib, model, names as mc_names

LEVEL = "exploration"
RULE = (
    "every signature of two parameters and a result (three parameters over a smaller set) over "
    "the stated symbolic annotations, plain or in containers, x every tuple of argument and result "
    "shapes from each annotation's list (passed by position, keyword or mixed in rotation, all three "
    "in the thorough tier); the real call's verdict and number of body runs are compared with "
    "exact solvability of all equations together; plus every pair of the stated names as symbols; non-trivial: every value fits its own annotation, "
    "so only the joint system decides"
)
ASSUMPTIONS = [
    "at most one ellipsis per symbolic annotation (with more, several readings of one shape exist)",
    "polynomial expressions; a symbolic or fractional solution counts as a solution",
    "of a Union, values which fit at most one alternative by themselves",
]


def arr(family, shape):
    from mc.checks.c01 import make_value

    return make_value(family, shape)


class Atom:
    """An annotation with its possible values: (description, build, equations or None)."""

    def __init__(self, source, values):
        self.source = source
        self.values = values

    def annotation(self):
        return lib.ev(self.source)


class WithFields(Atom):
    """A class with fields, made on first use."""

    def __init__(self, source, values, fields):
        super().__init__(source, values)
        self.fields = fields

    def annotation(self):
        if self.source not in lib.NS:
            types = [(f, a.annotation()) for f, a in self.fields]
            if self.source.startswith("NT"):
                lib.NS[self.source] = lib.NS["NamedTuple"](self.source, types)
            else:
                lib.NS[self.source] = lib.NS["TypedDict"](self.source, dict(types))
        return super().annotation()


def leaf(family, pattern, shapes):
    tokens = tuple(model.poly(t) if isinstance(t, str) else t for t in pattern)
    text = ", ".join("..." if t is ... else str(t) for t in pattern)
    values = []
    for shape in shapes:
        found = list(model.readings(tokens, shape))
        assert len(found) <= 1
        values.append(
            (str(shape), (lambda s=shape: arr(family, s)), found[0] if found else None)
        )
    return Atom(f"{family}[{text}]", values)


def both(parts):
    """Equations of several values together; None when one does not fit."""
    out = ()
    for part in parts:
        if part is None:
            return None
        out += part
    return out


def tuple_of(*atoms):
    values = []
    for combo in itertools.product(*(a.values for a in atoms)):
        values.append(
            (
                "(" + ", ".join(c[0] for c in combo) + ")",
                (lambda cs=combo: tuple(c[1]() for c in cs)),
                both([c[2] for c in combo]),
            )
        )
    return Atom("Tuple[" + ", ".join(a.source for a in atoms) + "]", values)


def list_of(atom, lengths=(0, 1, 2), kind="List"):
    values = []
    for n in lengths:
        for combo in itertools.product(atom.values, repeat=n):
            values.append(
                (
                    "[" + ", ".join(c[0] for c in combo) + "]",
                    (lambda cs=combo: [c[1]() for c in cs]),
                    both([c[2] for c in combo]),
                )
            )
    return Atom(f"{kind}[{atom.source}]", values)


def dict_of(atom, lengths=(1, 2)):
    values = []
    for n in lengths:
        for combo in itertools.product(atom.values, repeat=n):
            values.append(
                (
                    "{" + ", ".join(f"{k}: {c[0]}" for k, c in zip("ab", combo)) + "}",
                    (lambda cs=combo: {k: c[1]() for k, c in zip("ab", cs)}),
                    both([c[2] for c in combo]),
                )
            )
    return Atom(f"Dict[str, {atom.source}]", values)


def optional(atom):
    return Atom(f"Optional[{atom.source}]", [("None", lambda: None, ())] + atom.values)


def list_ellipsis(atom, lengths=(0, 1, 2)):
    found = list_of(atom, lengths)
    values = [(d.replace("[", "(", 1)[:-1] + ")", (lambda b=b: tuple(b())), e) for d, b, e in found.values]
    return Atom(f"Tuple[{atom.source}, ...]", values)


def named(tag, *atoms):
    """A NamedTuple and a TypedDict class with these fields."""
    fields = [(f"f{i}", a) for i, a in enumerate(atoms)]
    inner = tuple_of(*atoms).values
    first = [(d, (lambda b=b: lib.NS["NT" + tag](*b())), e) for d, b, e in inner]
    keys = [f for f, _ in fields]
    second = [("{" + d + "}", (lambda b=b: dict(zip(keys, b()))), e) for d, b, e in inner]
    return WithFields("NT" + tag, first, fields), WithFields("TD" + tag, second, fields)


def choice(source, alternatives, values):
    """A Union; only values which fit at most one alternative on their own (else: left open).

    ``alternatives`` are functions from the shapes of a value to its equations or None; ``values`` are
    (description, build, shapes).
    """
    kept = []
    for text, make, shapes in values:
        found = [e for e in (a(shapes) for a in alternatives) if e is not None]
        if len(found) <= 1:
            kept.append((text, make, found[0] if found else None))
    return Atom(source, kept)


def unions(family):
    """Unions of which an alternative may match in part before it fails."""
    def reads(*patterns):
        patterns = [tuple(model.poly(t) if isinstance(t, str) else t for t in p) for p in patterns]

        def equations(shapes):
            if len(shapes) != len(patterns):
                return None
            return both([next(iter(model.readings(p, s)), None) for p, s in zip(patterns, shapes)])

        return equations

    def every(pattern):
        return lambda shapes: reads(*[pattern] * len(shapes))(shapes)

    shapes = [(1,), (2,), (1, 2), (2, 1), (1, 1)]
    pairs = list(itertools.product(shapes[:4], repeat=2))
    lists = [(f"[{a}, {b}]", (lambda a=a, b=b: [arr(family, a), arr(family, b)]), (a, b)) for a, b in pairs]
    tuples = [(f"({a}, {b})", (lambda a=a, b=b: (arr(family, a), arr(family, b))), (a, b)) for a, b in pairs]
    dicts = [(f"{{{a}, {b}}}", (lambda a=a, b=b: {"a": arr(family, a), "b": arr(family, b)}), (a, b)) for a, b in pairs]
    return [
        choice(f"Union[List[{family}[X]], List[{family}[..., 2]]]", [every(("X",)), every((..., 2))], lists),
        choice(f"Union[Dict[str, {family}[X]], Dict[str, {family}[..., 2]]]", [every(("X",)), every((..., 2))], dicts),
        choice(
            f"Union[Tuple[{family}[X], {family}[2]], Tuple[{family}[Y], {family}[X, 2]], Tuple[{family}[X], {family}[1]]]",
            [reads(("X",), (2,)), reads(("Y",), ("X", 2)), reads(("X",), (1,))], tuples,
        ),
    ]


def atoms(name, tier):
    deep = tier == "thorough"
    f = {"tf": "TFTensor", "torch": "Tensor"}.get(name, "Array")
    x = leaf(f, ("X",), [(1,), (2,)] + ([(3,)] if deep else []))
    y = leaf(f, ("Y",), [(1,), (2,)])
    if name in ("tf", "torch"):
        other = leaf("Array", ("X",), [(1,), (2,)])
        return [x, y, leaf(f, ("X", "Y"), [(1, 2), (2, 2)]), leaf(f, ("X + 1",), [(2,), (3,)]), other]
    if name == "three":
        return [
            leaf(f, ("X",), [(1,), (2,), (3,)] if deep else [(1,), (2,)]),
            leaf(f, ("Y",), [(1,), (2,), (3,)] if deep else [(1,), (2,)]),
            leaf(f, ("X + Y",), [(2,), (3,)] + ([(4,)] if deep else [])),
            leaf(f, ("X - 1", 2), [(1, 2), (0, 2), (1, 3)]),
        ]
    plain = [
        x,
        leaf(f, ("X", "Y"), [(1, 2), (2, 2), (2, 1), (1,)]),
        leaf(f, ("X + 1",), [(2,), (3,)]),
        leaf(f, ("2*X", -1), [(2, 1), (4, 3), (3, 3)]),
        leaf(f, ("X + Y",), [(2,), (3,)]),
        leaf(f, (..., "X"), [(1,), (5, 2), (5, 5, 1), (0, 1)]),
        leaf(f, ("X*Y",), [(1,), (2,)]),
        leaf(f, (3,), [(3,), (2,)]),
    ]
    if name == "plain":
        return plain + [leaf(f, ("Y",), [(1,), (2,)]), leaf(f, ("X - Y", "X + Y"), [(0, 2), (1, 3)])]
    xs = leaf(f, ("X",), [(1,), (2,)])
    ys = leaf(f, ("Y",), [(1,), (2,)])
    cont = [
        xs,
        leaf(f, ("Y", "X"), [(1, 2), (2, 1)]),
        tuple_of(xs, leaf(f, ("X + 1",), [(2,), (3,)])),
        list_of(xs),
        dict_of(xs),
        optional(xs),
        list_of(tuple_of(xs, ys), (1,)),
        dict_of(list_of(ys, (1,)), (2,)),
        list_of(ys, (2,), kind="Sequence"),
        list_ellipsis(xs, (1, 2)),
        *named("1", xs, leaf(f, ("Y", "X"), [(1, 2), (2, 1)])),
    ]
    if name == "unions":
        return [xs, leaf(f, ("X + 1",), [(2,), (3,)])] + unions(f)
    if deep:
        cont += [tuple_of(list_of(xs, (1,)), optional(ys)), list_of(dict_of(xs, (1,)), (2,))]
    return cont


def bounds(tier):
    return {
        "names": mc_names.NAMES,
        "pairs of names": len(mc_names.pairs(tier)),
        **{name: [f"{a.source}: {[v[0] for v in a.values]}" for a in atoms(name, tier)]
        for name in ("plain", "containers", "unions", "three", "tf", "torch")},
    }


def jobs(tier):
    out = []
    seeds = [0, 1] if tier == "thorough" else [0]
    for name, n in (("plain", 8), ("containers", 8), ("unions", 2), ("three", 4), ("names", 3), ("tf", 2), ("torch", 1)):
        backend = name if name in ("tf", "torch") else "np"
        for seed in seeds:
            out += lib.split(
                8 if tier == "thorough" else n, name=name, backend=backend, hashseed=seed,
                params={"space": name},
            )
    return out


RAN = []
RESULT = [None]


def build(annotations, returns):
    names = ["p", "q", "r"][: len(annotations)]
    if len(names) == 1:
        def func(p):  # pylint: disable=unused-argument
            RAN.append(1)
            return RESULT[0]
    elif len(names) == 2:
        def func(p, q):  # pylint: disable=unused-argument
            RAN.append(1)
            return RESULT[0]
    else:
        def func(p, q, r):  # pylint: disable=unused-argument
            RAN.append(1)
            return RESULT[0]
    func.__annotations__ = dict(zip(names, annotations))
    func.__annotations__["return"] = returns
    return lib.NS["typechecked"](func), names


STYLES = ("positional", "keyword", "mixed")


def call(func, names, args, style):
    if style == "positional":
        return lib.typechecked_call(func, *args)
    if style == "keyword":
        return lib.typechecked_call(func, **dict(reversed(list(zip(names, args)))))
    return lib.typechecked_call(func, args[0], **dict(reversed(list(zip(names[1:], args[1:])))))


def decide(func, names, arg_values, ret_value, style):
    """(expected, error)."""
    arg_equations = both([v[2] for v in arg_values])
    args_ok = arg_equations is not None and model.solvable(arg_equations)
    all_equations = both([arg_equations, ret_value[2]])
    want = "rejected before the body"
    if args_ok:
        all_ok = all_equations is not None and model.solvable(all_equations)
        want = "accepted" if all_ok else "rejected after the body"
    RAN.clear()
    RESULT[0] = ret_value[1]()
    args = [v[1]() for v in arg_values]
    with lib.limit(120):
        got = call(func, names, args, style)
    expected = {
        "accepted": ("ok", 1),
        "rejected before the body": ("TypeError", 0),
        "rejected after the body": ("TypeError", 1),
    }[want]
    if (got, len(RAN)) != expected:
        return want, f"outcome {got} with {len(RAN)} body runs, should be {want} ({expected})"
    return want, None


def decide_names(ctx, one, two):
    """Two names are two symbols, equal names are one."""
    N = lib.NS
    symbols = __import__("asta.symbols").symbols
    a, b, again = getattr(symbols, one), getattr(symbols, two), getattr(symbols, one)

    def func(p, q, r):  # pylint: disable=unused-argument
        RAN.append(1)
        return RESULT[0]

    func.__annotations__ = {"p": N["Array"][a, 9], "q": N["Array"][b], "r": N["Array"][a + b], "return": N["Array"][again]}
    func = N["typechecked"](func)
    for x, y, z, w in itertools.product((1, 2), (1, 2), (2, 3), (1, 2)):
        RAN.clear()
        RESULT[0] = arr("Array", (w,))
        got = lib.typechecked_call(func, arr("Array", (x, 9)), arr("Array", (y,)), arr("Array", (z,))), len(RAN)
        want = ("TypeError", 0) if x + y != z else ("TypeError", 1) if w != x else ("ok", 1)
        ctx.count("evaluations")
        ctx.count("distinct_nontrivial")
        ctx.outcome(f"names {want[0]}")
        if got != want:
            ctx.violation(
                {"names": [one, two]},
                f"f(Array[{one}, 9], Array[{two}], Array[{one} + {two}]) -> Array[{one}] called with sizes {(x, y, z)} returning "
                f"{w}: got {got}, should be {want}",
            )
            return


def run(ctx):
    name = ctx.params["space"]
    if name == "names":
        for one, two in mc_names.pairs(ctx.tier):
            if ctx.mine():
                decide_names(ctx, one, two)
        return
    pool = atoms(name, ctx.tier)
    arity = 3 if name == "three" else 2
    built = [a.annotation() for a in pool]
    styles = STYLES[:1]
    for combo in itertools.product(range(len(pool)), repeat=arity + 1):
        if not ctx.mine():
            continue
        func, names = build([built[i] for i in combo[:-1]], built[combo[-1]])
        signature = [pool[i].source for i in combo]
        ctx.count("signatures")
        for picks in itertools.product(*(range(len(pool[i].values)) for i in combo)):
            values = [pool[i].values[p] for i, p in zip(combo, picks)]
            fits = all(v[2] is not None for v in values)
            arg_equations = both([v[2] for v in values[:-1]])
            if picks[-1] and (arg_equations is None or not model.solvable(arg_equations)):
                continue  # rejected before the body, whatever the result would be
            if name == "plain":
                styles = STYLES if ctx.tier == "thorough" else (STYLES[sum(picks) % 3],)
            for style in styles:
                want, error = decide(func, names, values[:-1], values[-1], style)
                ctx.count("evaluations")
                ctx.outcome(want)
                if fits:
                    ctx.count("distinct_nontrivial")
                if error:
                    case = {"space": name, "combo": combo, "picks": picks, "style": style,
                            "signature": signature, "values": [v[0] for v in values]}
                    ctx.violation(
                        case,
                        f"f({', '.join(signature[:-1])}) -> {signature[-1]} called ({style}) with "
                        f"{[v[0] for v in values[:-1]]} returning {values[-1][0]}: {error}",
                    )
                if want == "rejected after the body":
                    ctx.sample({"signature": signature, "shapes": [v[0] for v in values], "verdict": want})


def replay(case, ctx):
    if "names" in case:
        decide_names(ctx, *case["names"])
        return
    pool = atoms(case["space"], ctx.tier)
    func, names = build(
        [pool[i].annotation() for i in case["combo"][:-1]], pool[case["combo"][-1]].annotation()
    )
    values = [pool[i].values[p] for i, p in zip(case["combo"], case["picks"])]
    _, error = decide(func, names, values[:-1], values[-1], case["style"])
    if error:
        ctx.violation(case, error)
