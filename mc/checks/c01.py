"""C01: shape patterns accept exactly the shapes they describe."""
import itertools

from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every pattern over the stated token alphabet up to the stated length (no two "
    "ellipses in a row) x every value shape over the stated sizes up to the stated rank, "
    "decided by the real isinstance check and by a recursive matcher; a case counts as "
    "non-trivial when pattern and shape have compatible lengths (equal, or the pattern has "
    "an ellipsis and is not longer than the rank + 1), so that single dimensions decide"
)
ASSUMPTIONS = [
    "values are arrays made by numpy.broadcast_to, TensorFlow eager tensors, and tensors of a "
    "stand-in torch module (PyTorch is not installed)",
    "sizes, lengths and ranks beyond the stated bounds are not explored",
]

E = ...


def spaces(tier):
    deep = tier == "thorough"
    return {
        "full": dict(
            family="Array",
            tokens=[0, 1, 2, 3, -1, E, None],
            length=5 if deep else 4,
            sizes=[0, 1, 2, 3],
            rank=5 if deep else 4,
        ),
        "long": dict(
            family="Array",
            tokens=[1, 2, -1, E],
            length=8 if deep else 6,
            sizes=[0, 1, 2],
            rank=6 if deep else 5,
        ),
        "wide": dict(
            family="Array", tokens=[1, -1, E], length=7, sizes=[0, 1, 2], rank=7 if deep else 6
        ),
        "dtype": dict(
            family="Array",
            tokens=[0, 1, 2, -1, -2, E, None],
            length=3,
            sizes=[0, 1, 2],
            rank=3,
            prefix="float",
        ),
        "big": dict(
            family="Array",
            tokens=[255, 256, 257, 1000, 65537, -1, E],
            length=2,
            sizes=[255, 256, 257, 1000, 65537, 0],
            rank=2,
        ),
        "tf": dict(
            family="TFTensor",
            tokens=[0, 1, 2, -1, E, None],
            length=5 if deep else 4,
            sizes=[0, 1, 2],
            rank=5 if deep else 4,
        ),
        "torch": dict(
            family="Tensor",
            tokens=[0, 1, 2, -1, E, None],
            length=5 if deep else 4,
            sizes=[0, 1, 2],
            rank=5 if deep else 4,
        ),
        "ranks": dict(family="Array", ranks=[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32]),
    }


def bounds(tier):
    return {k: str(v) for k, v in spaces(tier).items()}


def jobs(tier):
    out = []
    for name, space in spaces(tier).items():
        backend = {"Array": "np", "TFTensor": "tf", "Tensor": "torch"}[space["family"]]
        n = {"full": 8, "long": 8, "wide": 4, "tf": 4}.get(name, 1)
        if tier == "thorough" and n > 1:
            n = 8
        out += lib.split(n, name=name, backend=backend, params={"space": name})
    return out


def patterns(space):
    for length in range(0, space["length"] + 1):
        for pattern in itertools.product(space["tokens"], repeat=length):
            if any(a is E and b is E for a, b in zip(pattern, pattern[1:])):
                continue
            yield pattern


def shapes(space):
    for rank in range(0, space["rank"] + 1):
        yield from itertools.product(space["sizes"], repeat=rank)


def spell(pattern):
    return "()" if not pattern else ", ".join("..." if t is E else repr(t) for t in pattern)


def make_value(family, shape):
    shape = tuple(shape)
    if family == "Array":
        np = lib.NS["np"]
        return np.broadcast_to(np.zeros((), dtype=np.float64), shape)
    if family == "TFTensor":
        return lib.NS["tf"].zeros(shape)
    return lib.NS["torch"].zeros(shape)


def decide(family, annotation, pattern, value, shape):
    got = lib.check_isinstance(value, annotation)
    want = True if pattern is None else model.literal_accepts(pattern, shape)
    return got, want


def run(ctx):
    space = spaces(ctx.tier)[ctx.params["space"]]
    family = space["family"]
    base = lib.NS[family]
    if ctx.params["space"] == "ranks":
        return run_ranks(ctx, space, base)
    values = [(s, make_value(family, s)) for s in shapes(space)]
    first = True
    for pattern in patterns(space):
        if not ctx.mine():
            continue
        source = spell(pattern)
        if "prefix" in space:
            source = f"{space['prefix']}, {source}"
        source = f"{family}[{source}]"
        status, annotation = lib.attempt(lib.ev, source)
        if status != "ok":
            ctx.violation(
                {"annotation": source}, f"{source} raises {status}: {annotation}"
            )
            continue
        ctx.count("patterns")
        with lib.limit(120):
            check_all(ctx, family, annotation, source, pattern, values)
        if first:
            first = False
            for src in (family, f"{family}[Scalar]", f"{family}[()]"):
                check_all(
                    ctx, family, lib.ev(src), src, None if src == family else (), values
                )


def check_all(ctx, family, annotation, source, pattern, values):
    has_ellipsis = pattern is not None and E in pattern
    yes = nontrivial = 0
    for shape, value in values:
        got, want = decide(family, annotation, pattern, value, shape)
        if got is not want:
            ctx.violation(
                {"annotation": source, "family": family, "shape": list(shape)},
                f"isinstance(<{family} of shape {shape}>, {source}) is {got}, should be {want}",
            )
        yes += want
        if pattern is not None and (
            len(pattern) == len(shape) or (has_ellipsis and len(pattern) <= len(shape) + 1)
        ):
            nontrivial += 1
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", nontrivial)
    ctx.outcome("accept", yes)
    ctx.outcome("reject", len(values) - yes)
    ctx.sample({"annotation": source, "shapes": len(values), "accepted": yes})


def run_ranks(ctx, space, base):
    """High ranks: single deviations and single ellipses at every position."""
    for rank in space["ranks"]:
        plain = (2,) * rank
        shape_list = [plain]
        shape_list += [plain[:i] + (d,) + plain[i + 1 :] for i in range(rank) for d in (0, 3)]
        pattern_list = [plain, plain + (2,), plain[:-1], plain + (E,), (-1,) * rank]
        pattern_list += [plain[:i] + (E,) + plain[i + 1 :] for i in range(rank)]
        pattern_list += [plain[:i] + (-1,) + plain[i + 1 :] for i in range(rank)]
        pattern_list += [(E,), (E, 3), (3, E), (E, 3, E), (2, E, 2), (E, 2, 3, 2, E), (E, 3, E, 3, E)]
        values = [(s, make_value("Array", s)) for s in dict.fromkeys(shape_list)]
        for pattern in dict.fromkeys(pattern_list):
            source = f"Array[{spell(pattern)}]"
            annotation = lib.ev(source)
            ctx.count("patterns")
            with lib.limit(120):
                check_all(ctx, "Array", annotation, source, pattern, values)


def replay(case, ctx):
    source, family = case["annotation"], case.get("family")
    status, annotation = lib.attempt(lib.ev, source)
    if status != "ok":
        return ctx.violation(case, f"{source} raises {status}: {annotation}")
    import re

    inner = source[len(family) + 1 : -1] if "[" in source else None
    inner = re.sub(r"^float,? ?", "", inner) if inner is not None else None
    pattern = None
    if inner is not None:
        pattern = () if inner in ("()", "Scalar", "") else tuple(eval(f"({inner},)"))
    shape = tuple(case["shape"])
    got, want = decide(family, annotation, pattern, make_value(family, shape), shape)
    if got is not want:
        ctx.violation(case, f"isinstance(<{shape}>, {source}) is {got}, should be {want}")
    return None
