"""C16: subscripting is compositional and never changes existing annotations."""
from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every chain of subscriptions up to the stated depth, each step giving any combination of a dtype, a "
    "shape in any spelling and an attribute dictionary; after every step the new annotation is compared "
    "with the canonical spelling (==, hash) and every annotation of the chain is probed with every value "
    "against a model that keeps (dtype, shape, attributes). Non-trivial: at least two steps"
)
ASSUMPTIONS = ["PyTorch is a stand-in module (not installed)", "an empty attribute dictionary asks for nothing"]

# pattern -> spellings (as source inside the brackets)
SPELLINGS = {
    (2, 3): ["2, 3", "(2, 3)", "(2, 3), ", "(2,), 3", "2, (3,)", "(2,), (3,)", "((2,), (3,))", "(2, (3,))", "((2, 3),)"],
    (): ["()", "Scalar", "((),)", "(Scalar,)"],
    (2,): ["2", "(2,)", "((2,),)"],
    (...,): ["...", "(...,)"],
    (-1, 3): ["-1, 3", "(-1, 3)", "-1, (3,)"],
    (..., 3): ["..., 3", "(..., 3)", "(...,), 3", "..., (3,)"],
    ("X", "X"): ["X, X", "(X, X)", "X, (X,)"],
    ("X", 3): ["X, 3", "(X,), 3"],
    (0,): ["0", "(0,)"],
}
OWN = {
    "Array": {},
    "TFTensor": {
        (2, 3): ["tf.TensorShape([2, 3])", "tf.TensorShape([2]), 3", "(tf.TensorShape([2]), tf.TensorShape([3]))",
                 "tf.TensorShape([2, 3]), "],
        (): ["tf.TensorShape([])", "(tf.TensorShape([]),)"],
        (2,): ["tf.TensorShape([2])"],
        (..., 3): ["..., tf.TensorShape([3])"],
    },
    "Tensor": {
        (2, 3): ["torch.Size((2, 3))", "torch.Size((2,)), 3", "2, torch.Size((3,))", "(torch.Size((2, 3)),)"],
        (): ["torch.Size(())", "(torch.Size(()),)"],
        (2,): ["torch.Size((2,))"],
    },
}
DTYPES = {
    "Array": {"float": ("float64",), "np.int32": ("int32",), "str": ("U1", "U3"), "np.dtype('float64')": ("float64",)},
    "TFTensor": {"float": ("float32",), "int": ("int32",), "tf.float64": ("float64",)},
    "Tensor": {"float": ("float32",), "int": ("int32",), "torch.float64": ("float64",)},
}
ELEMENTS = {
    "Array": ("float64", "int32", "U3"), "TFTensor": ("float32", "int32", "float64"),
    "Tensor": ("float32", "int32", "float64"),
}
ATTRS = {"{'tag': 1}": {"tag": 1}, "{'tag': 2}": {"tag": 2}, "{'size_': 3}": {"size_": 3}, "{}": {}}
SHAPES = [(), (2,), (3,), (2, 3), (3, 3), (0,), (4, 2, 3)]
GIVEN = [{}, {"tag": 1}, {"tag": 2, "size_": 3}]


def bounds(tier):
    return {
        "depth": "2 with every spelling in one of the steps, 3 with canonical spellings"
        + ("" if tier == "quick" else "; 2 with every spelling in both, 4 with a core"),
        "dtype arguments": DTYPES,
        "shapes": {str(k): v for k, v in SPELLINGS.items()},
        "attributes": list(ATTRS),
        "values": f"{len(SHAPES)} shapes, {len(GIVEN)} attribute sets and 3 element types"
        + (": 18 combinations" if tier == "quick" else ": all combinations"),
    }


def jobs(tier):
    out = []
    for family, backend, n in (("Array", "np", 8), ("TFTensor", "tf", 4), ("Tensor", "torch", 4)):
        out += lib.split(n, name="spellings", backend=backend, params={"family": family, "space": "spellings"})
        out += lib.split(n // 2, name="chains", backend=backend, params={"family": family, "space": "chains"})
        if tier == "thorough":
            out += lib.split(n, name="long", backend=backend, params={"family": family, "space": "long"})
    return out


def steps(family, space, tier):
    """(source inside brackets, dtype, pattern, attrs); 0 means: not given."""
    dtypes, attrs = list(DTYPES[family]), list(ATTRS)
    shapes = [(s, p) for p, list_ in SPELLINGS.items() for s in list_ + OWN[family].get(p, [])]
    if space == "spellings":
        shapes = [(s, p) for s, p in shapes if p != ("X", 3)]
        attrs = attrs[:1]
        if tier == "quick" and family != "Array":
            dtypes = dtypes[:1]
            shapes = [(s, p) for s, p in shapes if "X" not in p]
    elif space == "chains":
        dtypes = dtypes[::2] if tier == "thorough" else dtypes[: 1 if family == "Array" else 2]
        shapes = [(SPELLINGS[p][0], p) for p in ((2, 3), (), ("X", "X"), (..., 3))]
        attrs = [attrs[0], attrs[2]]
        if tier == "quick":
            shapes = shapes[:3]
    else:
        dtypes = dtypes[:1]
        shapes = [(SPELLINGS[p][0], p) for p in ((2, 3), ())]
        attrs = attrs[:1]
    out = []
    for dtype in [0] + dtypes:
        for source, pattern in [("", 0)] + shapes:
            for attr in [0] + attrs:
                parts = [dtype or "", source, attr or ""]
                if any(parts):
                    text = ", ".join(p.rstrip(", ") if any(parts[i + 1:]) else p for i, p in enumerate(parts) if p)
                    out.append((text, dtype, pattern, attr))
    return out


def make(family, shape, element, given):
    if family == "Array":
        np = lib.NS["np"]
        value = np.zeros(shape, dtype=element).view(lib.NS["WithAttributes"])
    elif family == "TFTensor":
        tf = lib.NS["tf"]
        value = tf.zeros(shape, dtype=element)
    else:
        torch = lib.NS["torch"]
        value = torch.zeros(shape, dtype=getattr(torch, element))
    for key, attr in given.items():
        setattr(value, key, attr)
    return value


class World:
    def __init__(self, family, tier):
        self.family = family
        lib.NS["WithAttributes"] = type("WithAttributes", (lib.NS["np"].ndarray,), {})
        self.values = []
        for shape in SHAPES:
            for element in ELEMENTS[family]:
                for given in GIVEN:
                    usual = element == ELEMENTS[family][0] and given == GIVEN[1]
                    if tier == "quick" and not usual and shape != (2, 3) and (shape, given) != ((), {}):
                        continue
                    self.values.append((make(family, shape, element, given), shape, element, given))
        self.cache = {}
        self.patterns = {
            p: tuple(model.poly(t) if isinstance(t, str) else t for t in p) for p in SPELLINGS
        }

    def accepted(self, state):
        """Which values the model accepts, as a list of bools."""
        if state not in self.cache:
            dtype, pattern, attr = state
            wants = []
            for _, shape, element, given in self.values:
                want = dtype is None or any(element == d for d in DTYPES[self.family][dtype])
                want = want and (pattern is None or model.shape_accepts(self.patterns[pattern], shape))
                for key, needed in (ATTRS[attr] if attr else {}).items():
                    want = want and given.get(key) == needed
                wants.append(want)
            self.cache[state] = wants
        return self.cache[state]

    def canonical(self, state):
        dtype, pattern, attr = state
        parts = [dtype, SPELLINGS[pattern][0] if pattern is not None else None, attr]
        text = ", ".join(p for p in parts if p)
        return lib.ev(f"{self.family}[{text}]" if text else self.family)

    def wrong(self, annotation, state):
        """An explanation if the annotation does not accept what the model accepts."""
        for (value, shape, element, given), want in zip(self.values, self.accepted(state)):
            got = lib.check_isinstance(value, annotation)
            if got is not want:
                return f"value of shape {shape}, element type {element}, attributes {given}: isinstance is {got}, should be {want}"
        return None


def new_state(state, step):
    _, dtype, pattern, attr = step
    return (
        dtype if dtype != 0 else state[0],
        pattern if not isinstance(pattern, int) else state[1],
        attr if attr != 0 else state[2],
    )


def extend(ctx, world, chain, step, texts):
    """One subscription of the last annotation of the chain, with all checks."""
    annotation, state = chain[-1]
    try:
        with lib.limit(60):
            new = eval(f"_[{step[0]}]", {**lib.NS, "_": annotation})  # pylint: disable=eval-used
    except lib.Alarm:
        raise
    except Exception as err:  # pylint: disable=broad-except
        ctx.violation({"family": world.family, "chain": texts}, f"{show(world, texts)} raises {type(err).__name__}: {err}")
        return None
    after = new_state(state, step)
    ctx.count("transitions")
    if len(texts) > 1:
        ctx.count("distinct_nontrivial")
    longer = chain + [(new, after)]
    for depth, (node, its) in enumerate(longer):
        ctx.count("evaluations", len(world.values))
        wrong = world.wrong(node, its)
        if wrong:
            when = "" if depth == len(longer) - 1 else f", probed after {show(world, texts)}"
            ctx.violation({"family": world.family, "chain": texts}, f"{show(world, texts[:depth])}{when}: {wrong}")
            return None
    same = world.canonical(after)
    if not (new == same and same == new and hash(new) == hash(same)):
        ctx.violation(
            {"family": world.family, "chain": texts},
            f"{show(world, texts)} and {same!r} should denote the same annotation: "
            f"== is {new == same}, hashes are {'equal' if hash(new) == hash(same) else 'different'}",
        )
    return longer


def names(step, plain):
    """The step's text in the canonical spellings of its shape."""
    _, dtype, pattern, attr = step
    return {", ".join(p for p in (dtype, shape, attr) if p) for shape in plain if shape in SPELLINGS.get(pattern, ())}


def show(world, texts):
    return world.family + "".join(f"[{t}]" for t in texts)


def run(ctx):
    family, space = ctx.params["family"], ctx.params["space"]
    world = World(family, ctx.tier)
    depth = {"spellings": 2, "chains": 3, "long": 4}[space]
    every = steps(family, space, ctx.tier)
    plain = {SPELLINGS[p][0] for p in SPELLINGS} | {""}
    canonical = [s for s in every if s[2] == 0 or s[0] in names(s, plain)]
    if space == "spellings" and ctx.tier == "quick":
        allowed = {s[0] for s in canonical}
    else:
        allowed = None
    root = [(lib.NS[family], (None, None, None))]
    states = ctx.numbers.setdefault("_states", {})

    def explore(chain, texts):
        for step in every:
            if len(texts) == 1:
                if allowed and texts[0] not in allowed and step[0] not in allowed:
                    continue
                if not ctx.mine():
                    continue
            now = texts + [step[0]]
            longer = extend(ctx, world, chain, step, now)
            if longer is None:
                continue
            states[repr((family, longer[-1][1]))] = 1
            if len(now) < depth:
                explore(longer, now)
            else:
                ctx.sample({"chain": show(world, now), "means": str(longer[-1][1])}, 1)
                ctx.outcome("chain")

    explore(root, [])


def replay(case, ctx):
    world = World(case["family"], ctx.tier)
    by_text = {s[0]: s for space in ("spellings", "chains", "long") for s in steps(case["family"], space, ctx.tier)}
    chain, texts = [(lib.NS[case["family"]], (None, None, None))], []
    for text in case["chain"]:
        texts.append(text)
        longer = extend(ctx, world, chain, by_text[text], list(texts))
        if longer is None:
            return
        chain = longer
