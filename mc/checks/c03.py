"""C03: symbolic dimensions match exactly when the equations can be solved."""
import itertools

from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every pattern over the stated expressions, integers, wildcards and ellipses (no two "
    "ellipses in a row, at least one expression) x every shape over the stated sizes, decided by "
    "the real isinstance check and by exact solvability over the complex numbers (rational Gauss "
    "elimination; Groebner basis, Nullstellensatz, for non-linear systems); patterns of up to 12 (16) expressions "
    "which go on in the stated ways; non-trivial: the "
    "shape can be read off the pattern, so the equations decide"
)
ASSUMPTIONS = [
    "expressions are polynomials with rational coefficients; a symbolic solution counts, "
    "positive or whole or not, as asta documents",
    "values are numpy.broadcast_to arrays, TensorFlow eager tensors and stand-in torch tensors",
]

E = ...
# sympy takes half a minute for one system of these.
SLOW = ("X**2 + Y**2", "(X + Y)*(X - Y)")
LINEAR = ["X", "Y", "X + 1", "X - 1", "2*X", "X + Y", "X - Y", "Y + 1", "3*X - 2", "X/2", "1 - X"]
NONLINEAR = ["X*Y", "X**2", "X**2 + 1", "X*Y + X"]
# Expressions without symbols once they are simplified: some by sympy when they are written, some when expanded.
CONSTANT = ["X - X + 2", "X*0 + 1", "X - X", "(X + 1)**2 - X**2 - 2*X", "X*(Y + 1) - X*Y - X + 2", "(X + 1)*2 - 2*X"]
HIGHER = ["X**2 + Y**2", "X**3", "X**2 - Y", "(X + Y)*(X - Y)", "X*Y*Z", "(X + Y)**2", "X*(Y + 1) - X*Y"]


def spaces(tier):
    deep = tier == "thorough"
    return {
        "pairs": dict(
            family="Array",
            tokens=LINEAR + NONLINEAR + ["Z", "X + Y + Z", 0, 1, 2, -1, E, None],
            length=2,
            sizes=[0, 1, 2, 3, 4],
            rank=2,
        ),
        "constant": dict(
            family="Array", tokens=CONSTANT + ["X", "X + 1", "Y", 2, -1, E], length=3 if deep else 2, sizes=[0, 1, 2, 3], rank=2,
        ),
        "higher": dict(
            family="Array", tokens=HIGHER + ["X", "Y", "X + Y", "X*Y", 1], length=3 if deep else 2, sizes=[0, 1, 2, 4],
            rank=3 if deep else 2,
        ),
        "triples": dict(
            family="Array",
            tokens=["X", "Y", "X + 1", "X + Y", "2*X", "X - Y", "X*Y", 2, -1, E],
            length=3,
            sizes=[0, 1, 2, 3, 4, 6] if deep else [1, 2, 3],
            rank=4 if deep else 3,
        ),
        "quads": dict(
            family="Array",
            tokens=["X", "Y", "X + Y", "X + 1", 2, -1, E] if deep else ["X", "Y", "X + Y", E],
            length=4,
            sizes=[0, 1, 2, 3] if deep else [1, 2, 3],
            rank=4,
            minlength=4,
        ),
        "ellipses": dict(
            family="Array",
            tokens=["X", "X + 1", E, -1] if deep else ["X", "X + 1", E],
            length=5,
            sizes=[0, 1, 2] if deep else [1, 2],
            rank=5 if deep else 4,
            minlength=3,
        ),
        "tf": dict(
            family="TFTensor",
            tokens=["X", "Y", "X + 1", "X + Y", "X*Y", 2, -1, E],
            length=3 if deep else 2,
            sizes=[0, 1, 2, 3],
            rank=3,
        ),
        "torch": dict(
            family="Tensor",
            tokens=["X", "Y", "X + 1", "X + Y", "X*Y", 2, -1, E],
            length=3 if deep else 2,
            sizes=[0, 1, 2, 3],
            rank=3,
        ),
    }


# How the expressions of a long pattern go on.
WORDS = {
    "multiples": lambda i: f"{i + 1}*X",
    "successors": lambda i: f"X + {i}",
    "two": lambda i: f"{i + 1}*X + {i % 3}*Y",
    "alternating": lambda i: [f"X + {i}", f"{i}*Y", f"Y + {i}*X"][i % 3],
    "three": lambda i: [f"{i + 1}*X + Z", f"X + {i}*Y", f"Z + {i}", f"{i}*Y + {i + 1}"][i % 4],
    "products": lambda i: f"X*Y + {i}" if i % 2 else f"{i + 1}*X",
    "powers": lambda i: f"X**2 + {i}" if i % 2 else f"{i + 1}*Y",
}


def long_patterns(tier):
    """(pattern, shape) of more sizes than the other spaces have: what fits, and that with a size changed."""
    values = {"X": 2, "Y": 3, "Z": 1}
    for (_, word), length in itertools.product(WORDS.items(), range(5, 17 if tier == "thorough" else 13)):
        tokens = [word(i) for i in range(length)]
        sizes = [int(eval(t, {}, values)) for t in tokens]  # pylint: disable=eval-used
        for at in (None, 0, length // 2, length):
            pattern = tokens if at is None else tokens[:at] + [E] + tokens[at:]
            extra = [()] if at is None else [(), (7,), (1, 7)]
            for more in extra:
                whole = sizes if at is None else sizes[:at] + list(more) + sizes[at:]
                yield tuple(pattern), tuple(whole)
                if len(more) > 1 or (at and tier == "quick" and more):
                    continue
                for place in range(len(whole)):
                    for change in (1, -1) if tier == "thorough" else (1,):
                        yield tuple(pattern), tuple(n + change * (k == place) for k, n in enumerate(whole))


def bounds(tier):
    return {**{k: str(v) for k, v in spaces(tier).items()}, "long": f"{list(WORDS)}, 5 to {16 if tier == 'thorough' else 12} sizes, one of them changed"}


def jobs(tier):
    out = []
    seeds = [0, 1, 2] if tier == "thorough" else [0]
    for name, space in spaces(tier).items():
        backend = {"Array": "np", "TFTensor": "tf", "Tensor": "torch"}[space["family"]]
        n = 8 if tier == "thorough" or name in ("triples", "pairs") else 4
        for seed in seeds:
            out += lib.split(n, name=name, backend=backend, hashseed=seed, params={"space": name})
    out += lib.split(6, name="long", params={"space": "long"})
    return out


def patterns(space):
    for length in range(space.get("minlength", 1), space["length"] + 1):
        for pattern in itertools.product(space["tokens"], repeat=length):
            if any(a is E and b is E for a, b in zip(pattern, pattern[1:])):
                continue
            if "X**3" in pattern and (length > 2 or any(t in pattern for t in SLOW)):
                continue
            if any(isinstance(t, str) for t in pattern):
                yield pattern


def spell(pattern):
    return ", ".join("..." if t is E else str(t) for t in pattern)


def compiled(pattern):
    return tuple(model.poly(t) if isinstance(t, str) else t for t in pattern)


def decide(family, source, annotation, pattern, shape):
    from mc.checks.c01 import make_value

    with lib.limit(60):
        got = lib.check_isinstance(make_value(family, shape), annotation)
    want = model.shape_accepts(pattern, shape)
    if got is not want:
        return want, f"isinstance(<{family} of shape {shape}>, {source}) is {got}, should be {want}"
    return want, None


def key(source, raw, shape, want):
    """
    What identifies a violation. Which of the shapes of a cubic beside a square of a sum sympy misses depends on the
    random numbers it tests solutions with, so these count as one.
    """
    which = "missed" if want and "X**3" in raw and "(X + Y)**2" in raw else shape
    return f"{source}:{which}".replace(" ", "")


def run_long(ctx):
    last = None
    for raw, shape in long_patterns(ctx.tier):
        if not ctx.mine():
            continue
        source = f"Array[{spell(raw)}]"
        if source != last:
            annotation, last = lib.ev(source), source
            ctx.count("patterns")
        want, error = decide("Array", source, annotation, compiled(raw), shape)
        ctx.count("evaluations")
        ctx.count("distinct_nontrivial")
        ctx.outcome("solvable" if want else "unsolvable")
        if error:
            ctx.violation({"family": "Array", "pattern": [str(t) if t is E else t for t in raw], "shape": list(shape)}, error, key=key(source, raw, shape, want))


def run(ctx):
    if ctx.params["space"] == "long":
        return run_long(ctx)
    space = spaces(ctx.tier)[ctx.params["space"]]
    family = space["family"]
    shapes = [
        s for r in range(space["rank"] + 1) for s in itertools.product(space["sizes"], repeat=r)
    ]
    for raw in patterns(space):
        if not ctx.mine():
            continue
        pattern = compiled(raw)
        source = f"{family}[{spell(raw)}]"
        status, annotation = lib.attempt(lib.ev, source)
        if status != "ok":
            ctx.violation({"annotation": source}, f"{source} raises {status}: {annotation}")
            continue
        ctx.count("patterns")
        for shape in shapes:
            if E not in raw and len(shape) != len(raw) and len(shape) > 2:
                continue  # length mismatches are covered for ranks up to 2
            want, error = decide(family, source, annotation, pattern, shape)
            ctx.count("evaluations")
            if any(True for _ in model.readings(pattern, shape)):
                ctx.count("distinct_nontrivial")
                ctx.outcome("solvable" if want else "unsolvable")
                if not want:
                    ctx.sample({"annotation": source, "shape": shape, "verdict": "unsolvable"})
            else:
                ctx.outcome("no reading")
            if error:
                ctx.violation(
                    {"family": family, "pattern": [str(t) if t is E else t for t in raw], "shape": list(shape)},
                    error,
                    key=key(source, raw, shape, want),
                )


def replay(case, ctx):
    if "annotation" in case:
        status, annotation = lib.attempt(lib.ev, case["annotation"])
        if status != "ok":
            ctx.violation(case, f"{case['annotation']} raises {status}: {annotation}")
        return
    raw = tuple(E if t == "Ellipsis" else t for t in case["pattern"])
    source = f"{case['family']}[{spell(raw)}]"
    _, error = decide(
        case["family"], source, lib.ev(source), compiled(raw), tuple(case["shape"])
    )
    if error:
        ctx.violation(case, error)
