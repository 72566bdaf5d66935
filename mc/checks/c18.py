"""C18: attribute constraints are enforced wherever the annotation is used."""
import itertools

from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every annotation (dtype x shape x attribute dictionary) x every value (element type x shape x every "
    "setting of the named attributes, set on the instance, its class, by a property or native), decided by "
    "isinstance, as a parameter and as a result, against the model; every signature of two parameters and a "
    "result over a core of annotations; every history of assignments and calls with a placeholder in an "
    "attribute. Non-trivial: the value is of the family and the dtype and shape alone accept it"
)
ASSUMPTIONS = [
    "an array-valued attribute equals an array of the same shape with equal elements; lists and tuples next to arrays are left open",
    "shapes placeholders as attribute values are not explored",
    "symbolic annotations have at most one ellipsis (the first reading is documented to be kept)",
    "PyTorch is a stand-in module (not installed)",
]

DTYPES = {
    "Array": {"": None, "float": "float64", "str": "U2"},
    "TFTensor": {"": None, "float": "float32"},
    "Tensor": {"": None, "float": "float32"},
}
ELEMENTS = {"Array": ("float64", "U2"), "TFTensor": ("float32", "int32"), "Tensor": ("float32", "int32")}
SHAPES = {
    "": None, "()": (), "2": (2,), "X": ("X",), "X + 1": ("X + 1",), "..., X": (..., "X"), "X, Y": ("X", "Y"), "-1, X": (-1, "X"),
    "2*X": ("2*X",), "...": (...,), "Y": ("Y",),
}
SHAPES_OF_VALUES = [(2,), (3,), (2, 3), ()]

# Attribute dictionaries: name -> ("is", source) or ("eq", expression)
ATTRS = [
    {"tag": ("is", "1")}, {"tag": ("is", "'a'")}, {"tag": ("is", "None")}, {"tag": ("is", "False")}, {"tag": ("is", "0")},
    {"tag": ("is", "''")}, {"tag": ("is", "(1, 2)")}, {"tag": ("is", "[]")}, {"tag": ("is", "int")},
    {"tag": ("is", "np.zeros(2)")}, {"tag": ("is", "np.ones((2, 2))")},
    {"size_": ("eq", "X")}, {"size_": ("eq", "X + 1")}, {"size_": ("eq", "2*X")}, {"size_": ("eq", "X**2")}, {"size_": ("eq", "X*Y")},
    {"size_": ("eq", "X"), "other": ("eq", "X")}, {"size_": ("eq", "X"), "other": ("eq", "Y")},
    {"size_": ("eq", "X"), "other": ("eq", "X + 1")}, {"size_": ("eq", "X + Y"), "other": ("eq", "X - Y")},
    {"tag": ("is", "1"), "size_": ("eq", "X")}, {"size_": ("eq", "X"), "tag": ("is", "None")},
    {"tag": ("is", "1"), "other": ("is", "2")}, {"tag": ("is", "1"), "other": ("is", "2"), "size_": ("eq", "Y")},
]
NATIVE = {
    "Array": [
        {"ndim": ("is", "1")}, {"ndim": ("eq", "X")}, {"size": ("eq", "X")}, {"size": ("eq", "X*Y")}, {"size": ("is", "6")},
        {"itemsize": ("is", "8")}, {"shape": ("is", "(2, 3)")}, {"dtype": ("is", "np.dtype('float64')")},
        {"nbytes": ("eq", "8*X")}, {"missing": ("is", "None")}, {"ndim": ("eq", "X"), "size": ("eq", "2*X")},
        {"ndim": ("is", "1"), "tag": ("is", "1")}, {"base": ("is", "None")}, {"T": ("is", "np.zeros((3, 2))")}, {"T": ("is", "1")},
    ],
    "TFTensor": [{"ndim": ("is", "1")}, {"ndim": ("eq", "X")}, {"dtype": ("is", "tf.float32")}, {"missing": ("is", "None")}],
    "Tensor": [
        {"ndim": ("is", "1")}, {"ndim": ("eq", "X")}, {"requires_grad": ("is", "False")}, {"dtype": ("is", "torch.float32")},
        {"missing": ("is", "None")},
    ],
}
SETTINGS = {
    "tag": ["1", "'a'", "None", "False", "0", "2", "''", "(1, 2)", "[]", "1.0", "int", "'1'",
            "np.zeros(2)", "np.zeros(3)", "np.zeros(0)", "np.array([0, 0])", "np.array([0., 1.])", "np.ones((2, 2))", "np.ones((4, 4))"],
    "size_": ["2", "3", "4", "2.5", "'2'", "None", "np.int64(2)", "(2,)", "1", "np.float64(3)", "int", "-1", "0"],
    "other": ["2", "3", "1", "None"],
}
UNSET = "(unset)"


def bounds(tier):
    return {
        "dtype x shape x attributes": f"{list(DTYPES['Array'])} x {list(SHAPES)} x {len(ATTRS)} + native ones",
        "attribute settings of values": SETTINGS,
        "signatures": "two parameters and a result over a core" + ("" if tier == "quick" else ", three parameters"),
        "placeholder histories": f"length {history_depth(tier)} over assignments of two values and calls",
    }


def history_depth(tier):
    return 4 if tier == "quick" else 6


def jobs(tier):
    out = lib.split(8, name="check", backend="np", params={"family": "Array", "space": "check"})
    for family, backend in (("TFTensor", "tf"), ("Tensor", "torch")):
        out += lib.split(3, name="check", backend=backend, params={"family": family, "space": "check"})
        out += lib.split(1, name="joint", backend=backend, params={"family": family, "space": "joint"})
    out += lib.split(5, name="joint", backend="np", params={"family": "Array", "space": "joint"})
    out += lib.split(1, name="history", backend="np", params={"space": "history", "family": "Array"})
    return out



def prepare():
    np = lib.NS["np"]

    class Plain(np.ndarray):
        pass

    class OnClass(np.ndarray):
        tag = 1
        size_ = 2
        other = 2

    class Computed(np.ndarray):
        @property
        def tag(self):
            return 1

        @property
        def size_(self):
            return 2

        @property
        def other(self):
            raise AttributeError("no value yet")

    class Dynamic(np.ndarray):
        def __getattr__(self, name):
            if name == "tag":
                return 1
            if name == "size_":
                return 2
            raise AttributeError(name)

    lib.NS.update(Plain=Plain, OnClass=OnClass, Computed=Computed, Dynamic=Dynamic)


def make(family, shape, element, settings, cls="Plain"):
    if family == "Array":
        value = lib.NS["np"].zeros(shape, dtype=element).view(lib.NS[cls])
    elif family == "TFTensor":
        value = lib.NS["tf"].zeros(shape, dtype=element)
    else:
        value = lib.NS["torch"].zeros(shape, dtype=getattr(lib.NS["torch"], element))
    for key, source in settings.items():
        if source != UNSET:
            setattr(value, key, lib.ev(source))
    return value


def source_of(family, dtype, shape, attrs):
    table = "{" + ", ".join(f"'{k}': {v}" for k, (_, v) in attrs.items()) + "}" if attrs else ""
    parts = [p for p in (dtype, shape, table) if p]
    return f"{family}[{', '.join(parts)}]" if parts else family


def element_name(value):
    if isinstance(value, lib.NS["np"].ndarray):
        return str(value.dtype).lstrip("<>|")
    return value.dtype.name


def same(got, want):
    ndarray = lib.NS["np"].ndarray
    if isinstance(got, ndarray) != isinstance(want, ndarray):
        return False
    if isinstance(got, ndarray):
        return got.shape == want.shape and all(a == b for a, b in zip(got.ravel(), want.ravel()))
    return got == want


def equations_of(spec, value):
    """None if the value is not accepted, else the equations (like the nodes of mc.grammar)."""
    family, dtype, pattern, attrs = spec
    own = {"Array": lambda: lib.NS["np"].ndarray, "TFTensor": lambda: lib.NS["tf"].Tensor, "Tensor": lambda: lib.NS["torch"].Tensor}
    if not isinstance(value, own[family]()):
        return None, False
    if dtype is not None and element_name(value) != dtype:
        return None, False
    chosen = ()
    if pattern is not None:
        tokens = tuple(model.poly(t) if isinstance(t, str) else t for t in pattern)
        chosen = next((e for e in model.readings(tokens, tuple(value.shape)) if model.solvable(e)), None)
        if chosen is None:
            return None, False
    for name, (kind, text) in attrs.items():
        if not hasattr(value, name):
            return None, True
        got = getattr(value, name)
        if kind == "is":
            if not same(got, lib.ev(text)):
                return None, True
        else:
            if isinstance(got, bool) or not isinstance(got, (int, float, lib.NS["np"].number)):
                return None, True
            chosen += (model.poly(text).minus(got),)
    return (chosen if model.solvable(chosen) else None), True


def functions(annotation):
    def one(p):
        RAN.append(1)
        return p

    def two():
        RAN.append(1)
        return RESULT[0]

    one.__annotations__ = {"p": annotation}
    two.__annotations__ = {"return": annotation}
    return lib.NS["typechecked"](one), lib.NS["typechecked"](two)


RAN, RESULT = [], [None]


def decide(ctx, case, spec, annotation, funcs, value):
    equations, interesting = equations_of(spec, value)
    want = equations is not None
    with lib.limit(60):
        got = [lib.check_isinstance(value, annotation)]
        RAN.clear()
        got.append(lib.typechecked_call(funcs[0], value))
        runs = len(RAN)
        RESULT[0] = value
        got.append(lib.typechecked_call(funcs[1]))
    ctx.count("evaluations", 3)
    if interesting:
        ctx.count("distinct_nontrivial")
    ctx.outcome("accept" if want else "reject")
    call = "ok" if want else "TypeError"
    if got != [want, call, call] or runs != int(want):
        ctx.violation(
            case,
            f"{case['annotation']} and a value {case['value']}: should be {'accepted' if want else 'rejected'}, but "
            f"isinstance is {got[0]}, as a parameter {got[1]} (body runs {runs}), as a result {got[2]}",
        )


def values_for(family, attrs, tier):
    """(shape, element, settings, class) of values for an annotation with these attributes."""
    named = [k for k in attrs if k in SETTINGS]
    pools = []
    for k in named:
        pool = SETTINGS[k][: 8 if tier == "quick" and k == "size_" else None]
        if len(named) > 1:
            pool = pool[:5] if len(named) == 2 and tier == "quick" else pool[:4] if tier == "quick" else pool
        pools.append([UNSET] + pool)
    for shape in SHAPES_OF_VALUES:
        for index, combo in enumerate(itertools.product(*pools)):
            yield shape, ELEMENTS[family][0], dict(zip(named, combo)), "Plain"
            if index == 1 or (index == 0 and not named):
                yield shape, ELEMENTS[family][1], dict(zip(named, combo)), "Plain"
        if family == "Array" and named:
            for cls in ("OnClass", "Computed", "Dynamic"):
                yield shape, ELEMENTS[family][0], {}, cls
            yield shape, ELEMENTS[family][0], {named[0]: SETTINGS[named[0]][1]}, "OnClass"


def run_check(ctx):
    family = ctx.params["family"]
    for attrs in ATTRS + NATIVE[family] + [{}]:
        symbolic = any(kind == "eq" for kind, _ in attrs.values())
        for dtype in DTYPES[family]:
            for shape in SHAPES:
                if ctx.tier == "quick" and dtype and shape not in ("", "()", "X") and symbolic:
                    continue
                if ctx.tier == "quick" and (shape == "Y" or len(attrs) > 1 and shape in ("2", "X + 1", "2*X", "...")):
                    continue
                if ctx.tier == "quick" and family != "Array" and shape in ("-1, X", "2*X", "X + 1"):
                    continue
                if not ctx.mine():
                    continue
                source = source_of(family, dtype, shape, attrs)
                spec = (family, DTYPES[family][dtype], SHAPES[shape], attrs)
                annotation = lib.ev(source)
                funcs = functions(annotation)
                for shape_, element, settings, cls in values_for(family, attrs, ctx.tier):
                    if attrs.get("tag") == ("is", "[]") and settings.get("tag") == "np.zeros(0)":
                        continue  # left open
                    value = make(family, shape_, element, settings, cls)
                    case = {
                        "annotation": source, "key": [dtype, shape, attrs],
                        "value": {"shape": shape_, "element": element, "settings": settings, "class": cls},
                    }
                    decide(ctx, case, spec, annotation, funcs, value)
                for other in ("None", "3", "'x'", "[1]", "np.float64(2)", "type('Duck', (), {'tag': 1, 'size_': 2, 'shape': (2,)})()"):
                    case = {"annotation": source, "key": [dtype, shape, attrs], "value": other}
                    decide(ctx, case, spec, annotation, funcs, lib.ev(other))
    # No verdict is claimed for booleans against expressions, but it is one.
    if family == "Array" and ctx.shard == 0:
        for text in ("True", "np.bool_(True)", "float('nan')", "float('inf')", "1j"):
            for source in ("Array[{'size_': X}]", "Array[X, {'size_': X + 1}]"):
                got = lib.check_isinstance(make(family, (2,), "float64", {"size_": text}), lib.ev(source))
                if got not in (True, False):
                    ctx.violation({"bool": text}, f"isinstance(value with size_ = {text}, {source}) {got}")


# ------------------------------------------------------------ joint equations

CORE = [
    ("", "", {"size_": ("eq", "X")}), ("", "X", {}), ("", "Y", {"size_": ("eq", "X")}), ("", "", {"size_": ("eq", "X + 1")}),
    ("", "X", {"tag": ("is", "1")}), ("float", "Y", {}), ("", "", {"size_": ("eq", "X*Y")}), ("", "...", {"tag": ("is", "1"), "size_": ("eq", "Y")}),
]
VALUES = [((2,), {"size_": "2", "tag": "1"}), ((3,), {"size_": "2", "tag": "1"}), ((2,), {"size_": "3"}), ((3,), {"tag": "1"})]


def run_joint(ctx):
    family = ctx.params["family"]
    core = CORE if family == "Array" else CORE[:4]
    combos = itertools.product(range(len(core)), repeat=3)
    if ctx.tier == "thorough":
        combos = itertools.chain(combos, itertools.product(range(len(core)), repeat=4))
    for combo in combos:
        if not ctx.mine():
            continue
        for nested in (False, True) if len(combo) == 3 else (False,):
            if nested and ctx.tier == "quick" and (max(combo) > 3 or family != "Array"):
                continue
            joint(ctx, family, combo, nested, None)


def joint(ctx, family, combo, nested, only):
    sources = [source_of(family, *CORE[i]) for i in combo]
    specs = [(family, DTYPES[family][CORE[i][0]], SHAPES[CORE[i][1]], CORE[i][2]) for i in combo]
    annotations = [lib.ev(s) for s in sources]
    if nested:
        annotations[0] = lib.NS["List"][annotations[0]]
        annotations[-1] = lib.NS["Tuple"][annotations[-1], int]

    def func(p, q, r=None):
        RAN.append(1)
        return RESULT[0]

    if len(combo) == 3:
        def func(p, q):  # pylint: disable=function-redefined
            RAN.append(1)
            return RESULT[0]
    func.__annotations__ = dict(zip(["p", "q", "r"], annotations[:-1]), **{"return": annotations[-1]})
    func = lib.NS["typechecked"](func)
    pool = VALUES if ctx.tier == "thorough" and not nested else VALUES[:3]
    for picks in itertools.product(range(len(pool)), repeat=len(combo)):
        if only is not None and list(picks) != only:
            continue
        values = [make(family, pool[i][0], ELEMENTS[family][0], pool[i][1]) for i in picks]
        equations, want = (), "ok"
        for index, (spec, value) in enumerate(zip(specs, values)):
            more, _ = equations_of(spec, value)
            equations = None if more is None or equations is None else equations + more
            if equations is not None and index >= len(specs) - 2 and not model.solvable(equations):
                equations = None
            if equations is None:
                want = "TypeError"
                break
        runs = 0 if equations is None and index < len(specs) - 1 else 1
        args = values[:-1]
        RESULT[0] = values[-1]
        if nested:
            args = [[args[0]]] + args[1:]
            RESULT[0] = (values[-1], 1)
        RAN.clear()
        with lib.limit(60):
            got = lib.typechecked_call(func, *args)
        ctx.count("evaluations")
        ctx.count("distinct_nontrivial")
        ctx.outcome(f"joint {want} {runs}")
        if (got, len(RAN)) != (want, runs):
            ctx.violation(
                {"combo": combo, "nested": nested, "picks": picks},
                f"f({', '.join(sources[:-1])}) -> {sources[-1]}{' (nested)' if nested else ''} with values "
                f"{[pool[i] for i in picks]}: {got} with {len(RAN)} body runs, should be {want} with {runs}",
            )


# ------------------------------------------------------------ placeholders in attributes

OPS = ["D = 2", "D = 3", "f(2)", "f(3)", "g(2, 2)", "g(3, 4)"]


def run_history(ctx, only=None):
    dims, typechecked = lib.NS["dims"], lib.NS["typechecked"]
    depth = history_depth(ctx.tier)
    serial = 0
    for path in itertools.product(range(len(OPS)), repeat=depth) if only is None else [only]:
        serial += 1
        name = f"Attr{serial}"
        lib.NS["D"] = getattr(dims, name)

        def f(p):
            pass

        def g(p, q):
            pass

        f.__annotations__ = {"p": lib.ev("Array[{'size_': D}]")}
        g.__annotations__ = {"p": lib.ev("Array[{'size_': D + X - 2, 'tag': 1}]"), "q": lib.ev("Array[X]")}
        f, g = typechecked(f), typechecked(g)
        value = None
        for step, index in enumerate(path):
            op = OPS[index]
            ctx.count("transitions")
            if op.startswith("D"):
                value = int(op[-1])
                setattr(dims, name, value)
                continue
            if op.startswith("f"):
                size = int(op[2])
                want = value == size
                got = lib.typechecked_call(f, make("Array", (1,), "float64", {"size_": str(size)}))
            else:
                size, dim = int(op[2]), int(op[5])
                want = value is not None and value + dim - 2 == size
                got = lib.typechecked_call(
                    g, make("Array", (1,), "float64", {"size_": str(size), "tag": "1"}), make("Array", (dim,), "float64", {})
                )
            ctx.outcome(f"history {'accept' if want else 'reject'}")
            if got != ("ok" if want else "TypeError"):
                ctx.violation(
                    {"path": path},
                    f"after {[OPS[i] for i in path[:step]]}, {op} is {got}, should be {'ok' if want else 'TypeError'} "
                    "(f: size_ is D; g: size_ is D + X - 2, X the dimension of the second)",
                )
                break


def run(ctx):
    prepare()
    {"check": run_check, "joint": run_joint, "history": run_history}[ctx.params["space"]](ctx)


def replay(case, ctx):
    prepare()
    if "path" in case:
        run_history(ctx, case["path"])
    elif "combo" in case:
        joint(ctx, ctx.params["family"], case["combo"], case["nested"], list(case["picks"]))
    elif "bool" in case:
        run_check(ctx)
    else:
        family = ctx.params["family"]
        dtype, shape, attrs = case["key"]
        attrs = {k: tuple(v) for k, v in attrs.items()}
        annotation = lib.ev(case["annotation"])
        value = case["value"]
        if isinstance(value, str):
            value = lib.ev(value)
        else:
            value = make(family, tuple(value["shape"]), value["element"], value["settings"], value["class"])
        decide(ctx, case, (family, DTYPES[family][dtype], SHAPES[shape], attrs), annotation, functions(annotation), value)
