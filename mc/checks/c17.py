"""C17: equal annotations are interchangeable; unequal ones are kept apart."""
import itertools
import typing

from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every ordered pair of annotations of the stated grammar (within and across families): ==, != both ways "
    "and hashes against equality of (family, dtype, shape, attributes); every order of giving the parts with "
    "hashing, comparing and checking in between; every ordered pair of a core in one typing construct each "
    "after the other, with the typing caches emptied before, and the checks done with them. "
    "Non-trivial: pairs of one family that differ in something"
)
ASSUMPTIONS = [
    "Array[object] against Array[np.dtype('O')], empty attribute dictionaries against none, and sums of "
    "placeholders built twice are left open",
    "PyTorch is a stand-in module (not installed)",
    "transitivity follows from agreement with an equivalence on all pairs",
]

DTYPES = {
    "Array": {
        "": None, "float": "f8", "np.dtype('float64')": "f8", "np.float64": "f8", "int": "i8", "np.float32": "f4",
        "str": "any str", "np.dtype('U3')": "U3", "bytes": "any bytes", "datetime.datetime": "any M8",
        "np.dtype('M8[s]')": "M8[s]", "np.dtype('>f8')": ">f8", "bool": "b",
    },
    "TFTensor": {"": None, "float": "f4", "tf.float32": "f4", "int": "i4", "tf.float64": "f8", "str": "s", "bytes": "s"},
    "Tensor": {"": None, "float": "f4", "torch.float32": "f4", "int": "i4", "torch.float64": "f8", "bytes": "u1"},
}
SHAPES = {
    "": None, "()": (), "Scalar": (), "2": (2,), "(2,)": (2,), "2, 3": (2, 3), "3, 2": (3, 2), "(2, 3)": (2, 3),
    "-1": (-1,), "...": (...,), "None": (None,), "X": ("X",), "Y": ("Y",), "X, Y": ("X", "Y"), "Y, X": ("Y", "X"),
    "X + 1": ("X+1",), "1 + X": ("X+1",), "2*X": ("2X",), "X, X": ("X", "X"), "..., 2": (..., 2), "2, ...": (2, ...), "0": (0,), "1": (1,),
    "-2": (-2,), "2305843009213693951": (2305843009213693951,),
    "D": ("D",), "D + 1": ("D+1",), "W": ("#W",), "V": ("#V",), "*W, 1": ("#W", 1), "1, *W": (1, "#W"),
}
ATTRS = {
    "": None, "{'tag': 1}": (("tag", 1),), "{'size_': 1}": (("size_", 1),),
    "{'tag': X}": (("tag", "X"),), "{'tag': 1, 'size_': 1}": (("size_", 1), ("tag", 1)),
    "{'size_': 1, 'tag': 1}": (("size_", 1), ("tag", 1)), "{'tag': 'X'}": (("tag", "'X'"),),
    "{'tag': [1, 2]}": (("tag", [1, 2]),), "{'tag': {}}": (("tag", {}),),
    "{'tag': np.zeros(2)}": (("tag", "zeros 2"),), "{'tag': np.zeros(3)}": (("tag", "zeros 3"),), "{'tag': np.zeros(1)}": (("tag", "zeros 1"),),
    "{'tag': np.ones(2)}": (("tag", "ones 2"),),
    "{'tag': -1}": (("tag", -1),), "{'tag': -2}": (("tag", -2),),
}
OTHERS = ["None", "3", "'x'", "()", "(2,)", "np.ndarray", "np.float64", "float", "object()", "List[int]", "Any", "Scalar"]


def bounds(tier):
    return {
        "dtype arguments": {k: len(v) for k, v in DTYPES.items()},
        "shape arguments": list(SHAPES),
        "attribute arguments": list(ATTRS),
        "typing constructs": list(CONSTRUCTS),
        "typing pairs": "all ordered pairs of a core of each family" + (", and triples in List" if tier == "thorough" else ""),
    }


def jobs(tier):
    out = []
    for family, backend in (("Array", "np"), ("TFTensor", "tf"), ("Tensor", "torch")):
        n = 4 if family == "Array" else 2
        out += lib.split(n if tier == "quick" else 8, name="pairs", backend=backend, params={"family": family, "space": "pairs"})
        out += lib.split(n // 2, name="orders", backend=backend, params={"family": family, "space": "orders"})
        out += lib.split(2 * n, name="typing", backend=backend, params={"family": family, "space": "typing"})
    out += lib.split(1, name="across", backend="tf+torch", params={"space": "across"})
    out += lib.split(2, name="typing across", backend="tf+torch", params={"space": "typing", "family": "all"})
    return out


def make_env():
    np = lib.NS["np"]
    dims, shapes = lib.NS["dims"], lib.NS["shapes"]
    lib.NS.update(D=dims.D, W=shapes.W, V=shapes.V, WithAttributes=type("WithAttributes", (np.ndarray,), {}))


def grammar(family, tier, dtypes=None, shapes=None, attrs=None):
    """(source, key, parts); equal keys mean equal annotations."""
    all_attrs = attrs or list(ATTRS)
    for dtype in dtypes or DTYPES[family]:
        for shape in shapes or SHAPES:
            for attr in all_attrs:
                if ("np." in attr or "[" in attr or "{}" in attr) and (dtype not in ("", "float") or shape not in ("", "2", "X")):
                    continue
                parts = [p for p in (dtype, shape, attr) if p]
                source = f"{family}[{', '.join(parts)}]" if parts else family
                yield source, (family, DTYPES[family][dtype], SHAPES[shape], ATTRS[attr]), parts


def compare(ctx, case, one, two, want, names):
    """All comparisons of two annotations."""
    error = None
    for label, a, b in ((f"{names[0]} == {names[1]}", one, two), (f"{names[1]} == {names[0]}", two, one)):
        status, got = lib.attempt(lambda a=a, b=b: (a == b, a != b))
        if status != "ok":
            error = f"{label} raises {status}: {got}"
        elif got != (want, not want):
            error = f"{label} is {got[0]} and != is {got[1]}, should be {want} and {not want}"
    ctx.count("evaluations", 2)
    if not error and want and hash(one) != hash(two):
        error = f"{names[0]} and {names[1]} are equal but have different hashes"
    if error:
        ctx.violation(case, error)


def run_pairs(ctx):
    family = ctx.params["family"]
    items = list(grammar(family, ctx.tier))
    built = [lib.ev(source) for source, _, _ in items]
    again = [lib.ev(source) for source, _, _ in items]
    hashes = [hash(a) for a in built]
    for i, (source, key, _) in enumerate(items):
        if not ctx.mine():
            continue
        for j, (other, other_key, _) in enumerate(items):
            if j < i:
                continue
            want = key == other_key
            ctx.outcome("equal" if want else "unequal")
            if not want:
                ctx.count("distinct_nontrivial")
            compare(ctx, {"pair": [source, other], "want": want}, built[i], again[j], want, (source, other))
        for text in OTHERS:
            compare(ctx, {"pair": [source, text], "want": False}, built[i], lib.ev(text), False, (source, text))
        if hash(built[i]) != hashes[i]:
            ctx.violation({"hash": source}, f"the hash of {source} changed after comparisons")
    ctx.sample({"pair": [items[5][0], items[-1][0]]})


def run_across(ctx):
    families = [list(grammar(f, "quick", attrs=list(ATTRS)[:3])) for f in DTYPES]
    for one, two in itertools.combinations(families, 2):
        first = [(s, lib.ev(s)) for s, _, _ in one]
        second = [(s, lib.ev(s)) for s, _, _ in two]
        for source, a in first:
            for other, b in second:
                ctx.count("distinct_nontrivial")
                ctx.outcome("different families")
                compare(ctx, {"pair": [source, other], "want": False}, a, b, False, (source, other))


def run_orders(ctx):
    """The parts given one after the other, with hashing, comparing and checking in between."""
    family = ctx.params["family"]
    value = {"Array": "np.zeros(2)", "TFTensor": "tf.zeros(2)", "Tensor": "torch.zeros(2)"}[family]
    for source, key, parts in grammar(family, ctx.tier):
        if not parts or not ctx.mine():
            continue
        for order in itertools.permutations(parts):
            for uses in range(4):
                decide_order(ctx, {"source": source, "order": order, "uses": uses, "family": family, "value": value})


def decide_order(ctx, case):
    current = lib.NS[case["family"]]
    stages = [(current, hash(current) if case["uses"] & 1 else None)]
    for part in case["order"]:
        current = eval(f"_[{part}]", {**lib.NS, "_": current})  # pylint: disable=eval-used
        before = None
        if case["uses"] & 1:
            before = hash(current)
        if case["uses"] & 2:
            current == lib.NS[case["family"]]  # pylint: disable=pointless-statement
            if "X" not in case["source"] and "Y" not in case["source"]:
                lib.check_isinstance(lib.ev(case["value"]), current)
        stages.append((current, before))
    ctx.count("transitions", len(case["order"]))
    direct = lib.ev(case["source"])
    chain = case["family"] + "".join(f"[{p}]" for p in case["order"])
    compare(ctx, case, current, direct, True, (chain, case["source"]))
    for stage, before in stages:
        if before is not None and hash(stage) != before:
            ctx.violation(case, f"the hash of a part of {chain} changed")


CORE = {
    "Array": dict(dtypes=["", "float", "int", "str"], shapes=["", "()", "2", "-1", "...", "2, 3", "X, X", "None"], attrs=list(ATTRS)[:3]),
    "TFTensor": dict(dtypes=["", "float", "int"], shapes=["", "()", "2", "-1", "...", "X, X"], attrs=list(ATTRS)[:2]),
    "Tensor": dict(dtypes=["", "float", "int"], shapes=["", "()", "2", "-1", "...", "X, X"], attrs=list(ATTRS)[:2]),
}
CONSTRUCTS = {
    "List": ("List[_]", lambda v: [v]),
    "Union": ("Union[_, Dict[str, __]]", None),
    "Both": ("Union[__, _]", None),
    "|": ("__ | _", None),
    "Tuple": ("Tuple[_, ...]", lambda v: (v,)),
}


def accepts(key, info):
    """Whether an annotation with this key accepts a value."""
    family, dtype, pattern, attrs = key
    if info["family"] != family or dtype not in (None, info["dtype"]):
        return False
    if dtype == "any str" and info["dtype"] != "any str":
        return False
    for name, want in attrs or ():
        if info["attrs"].get(name) != want:
            return False
    if pattern is not None:
        pattern = tuple(model.poly(t) if isinstance(t, str) else t for t in pattern)
    return model.shape_accepts(pattern, info["shape"])


def values(families):
    out = []
    for family in families:
        names = {"Array": ("float64", "int64", "U2"), "TFTensor": ("float32", "int32"), "Tensor": ("float32", "int32")}[family]
        keys = {"float64": "f8", "int64": "i8", "U2": "any str"} if family == "Array" else {"float32": "f4", "int32": "i4"}
        for shape, name, attrs in [
            ((), names[0], {}), ((2,), names[0], {"tag": 1}), ((2,), names[1], {}), ((3,), names[0], {"tag": -2}), ((0,), names[0], {}),
            ((2, 3), names[-1], {"tag": 1}), ((2, 2), names[0], {}),
        ]:
            if family == "Array":
                value = lib.NS["np"].zeros(shape, dtype=name).view(lib.NS["WithAttributes"])
            elif family == "TFTensor":
                value = lib.NS["tf"].zeros(shape, dtype=name)
            else:
                value = lib.NS["torch"].zeros(shape, dtype=getattr(lib.NS["torch"], name))
            for key, attr in attrs.items():
                setattr(value, key, attr)
            out.append((value, dict(family=family, dtype=keys[name], shape=shape, attrs=attrs)))
    return out


def empty_caches():
    for cleanup in typing._cleanups:  # pylint: disable=protected-access
        cleanup()


def run_typing(ctx):
    family = ctx.params["family"]
    families = list(DTYPES) if family == "all" else [family]
    pool = []
    for name in families:
        core = CORE[name]
        if family == "all":
            core = dict(dtypes=["", "float"], shapes=["", "2", "()"], attrs=[""])
        pool += list(grammar(name, "quick", **core))
    things = values(families)
    for (one, key, _), (two, other, _) in itertools.product(pool, repeat=2):
        if ctx.mine() and one != two:
            decide_typing(ctx, [one, two], [key, other], things)
    if ctx.tier == "thorough" and family != "all":
        small = [p for p in pool if "tag" not in p[0] and "X" not in p[0]][:16]
        for trio in itertools.permutations(small, 3):
            if ctx.mine():
                decide_typing(ctx, [t[0] for t in trio], [t[1] for t in trio], things, ["List", "Tuple"])


def decide_typing(ctx, sources, keys, things, constructs=tuple(CONSTRUCTS)):
    """Builds the construct with the annotations one after the other, then checks with the last."""
    annotations = [lib.ev(s) for s in sources]
    for name in constructs:
        text, wrap = CONSTRUCTS[name]
        empty_caches()
        case = {"sources": sources, "construct": name, "keys": keys}
        if "__" not in text:
            for annotation in annotations[:-1]:
                eval(text, {**lib.NS, "_": annotation})  # pylint: disable=eval-used
        built = eval(text, {**lib.NS, "_": annotations[-1], "__": annotations[0]})  # pylint: disable=eval-used

        def func(p):
            return p

        func.__annotations__ = {"p": built}
        func = lib.NS["typechecked"](func)
        for value, info in things:
            want = accepts(keys[-1], info)
            if name in ("Both", "|"):
                want = want or accepts(keys[0], info)
            got = lib.typechecked_call(func, wrap(value) if wrap else value)
            ctx.count("evaluations")
            ctx.outcome(f"{name} {'accepts' if want else 'rejects'}")
            if got != ("ok" if want else "TypeError"):
                ctx.violation(
                    case,
                    f"with _ = {sources[-1]}, __ = {sources[0]}, {text} (built after {sources[:-1]}): {info} is "
                    f"{got}, should be {'accepted' if want else 'rejected'}",
                )
                break


def run(ctx):
    make_env()
    {"pairs": run_pairs, "across": run_across, "orders": run_orders, "typing": run_typing}[ctx.params["space"]](ctx)



def replay(case, ctx):
    make_env()
    if "pair" in case:
        one, two = case["pair"]
        compare(ctx, case, lib.ev(one), lib.ev(two), case["want"], (one, two))
    elif "order" in case:
        decide_order(ctx, case)
    elif "sources" in case:
        families = list(DTYPES) if ctx.params["family"] == "all" else [ctx.params["family"]]
        by_source = {s: k for f in families for s, k, _ in grammar(f, "thorough")}
        decide_typing(ctx, case["sources"], [by_source[s] for s in case["sources"]], values(families), [case["construct"]])
    else:
        run_pairs(ctx)
