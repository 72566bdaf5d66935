"""C21: the decorator accepts exactly what isinstance accepts."""
import itertools

from mc import lib

LEVEL = "exploration"
RULE = (
    "every annotation of the stated spaces (dtype arguments x shapes in every spelling x attributes; every shape "
    "pattern up to a length; every chain of two subscriptions) x every value: the verdict of isinstance against the "
    "verdict of a type-checked call with that annotation on the parameter (by position, by keyword, as a default) and on the "
    "result; with raise-errors=no against whether FAILED is printed. Non-trivial: the value is of the family"
)
ASSUMPTIONS = [
    "PyTorch is a stand-in module (not installed)",
]

BACKENDS = {"Array": "np", "TFTensor": "tf", "Tensor": "torch"}

DTYPES = {
    "Array": [
        "int", "float", "bool", "complex", "bytes", "str", "object", "datetime.datetime", "datetime.timedelta", "np.int8", "np.int64",
        "np.float32", "np.float64", "np.complex64", "np.bool_", "np.uint8", "np.str_", "np.bytes_", "np.object_", "np.datetime64",
        "np.timedelta64", "np.longdouble", "np.dtype('>f4')", "np.dtype('float64')", "np.dtype('U3')", "np.dtype('S3')", "np.dtype('O')",
        "np.dtype('M8[s]')", "np.dtype('M8')", "np.dtype('m8[us]')", "np.dtype([('a', 'i4'), ('b', 'f8')])", "np.dtype('V4')", "np.dtype(('f8', (2,)))",
    ],
    "TFTensor": [
        "int", "float", "bool", "complex", "bytes", "str", "tf.float16", "tf.float32", "tf.float64", "tf.bfloat16", "tf.int8", "tf.int32",
        "tf.int64", "tf.uint8", "tf.bool", "tf.complex64", "tf.complex128", "tf.string", "tf.qint8",
    ],
    "Tensor": [
        "int", "float", "bool", "bytes", "torch.uint8", "torch.int8", "torch.int16", "torch.int32", "torch.int64", "torch.float16",
        "torch.float32", "torch.float64", "torch.bool", "torch.long",
    ],
}
ELEMENTS = {
    "Array": [
        "bool", "int8", "int64", "uint8", "float32", "float64", "complex64", "complex128", ">f4", ">f8", "S1", "S3", "U1", "U3", "O", "M8[s]",
        "M8[D]", "M8", "m8[us]", "m8", "longdouble", "i4, f8", "V4",
    ],
    "TFTensor": [
        "float16", "float32", "float64", "bfloat16", "int8", "int32", "int64", "uint8", "bool", "complex64", "complex128", "string", "qint8",
    ],
    "Tensor": ["uint8", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "bool"],
}
SHAPES = [
    "", "()", "Scalar", "(Scalar,)", "((),)", "2", "(2,)", "0", "...", "(...,)", "-1", "None", "2, 3", "(2, 3)", "(2,), 3", "2, (3,)",
    "((2, 3),)", "(2, (3,))", "-1, 3", "..., 3", "2, ...", "(...,), 3", "X", "X, X", "(X, X)", "X, (X + 1,)", "X, 3", "2*X, Y", "X*Y, X", "..., X",
    "X, ..., Y", "0*X", "X - X, 2", "-1, X", "None, 3",
]
OWN_SHAPES = {
    "Array": [],
    "TFTensor": ["tf.TensorShape([2, 3])", "tf.TensorShape([])", "tf.TensorShape([2]), 3", "2, tf.TensorShape([3])", "..., tf.TensorShape([3])"],
    "Tensor": ["torch.Size((2, 3))", "torch.Size(())", "torch.Size((2,)), 3", "2, torch.Size((3,))", "..., torch.Size((3,))"],
}
ATTRS = [
    "", "{'tag': 1}", "{'tag': None}", "{'size_': 3}", "{'size_': X}", "{'size_': X + 1}", "{}", "{'tag': 1, 'size_': X}", "{'ndim': X}",
    "{'ndim': 1}", "{'missing': None}", "{'shape': (2, 3)}",
]
GIVEN = [{}, {"tag": 1}, {"tag": None, "size_": 2}, {"tag": 1, "size_": 3}, {"size_": "x"}, {"size_": 2.5}]
VALUE_SHAPES = [(), (2,), (3,), (2, 3), (2, 2), (0,), (1, 2, 3)]
OTHERS = [
    "None", "1", "2.5", "True", "'abc'", "b'x'", "[1.0, 2.0]", "(1, 2)", "{}", "set()", "object()", "float", "np.float64(1)", "np.int64(1)",
    "np.str_('a')", "np.dtype('float64')", "np.ndarray", "Array", "Array[float]", "Scalar", "Array[2, 3]", "...", "X", "range(3)", "iter([])",
    "type('Duck', (), {'shape': (2, 3), 'dtype': np.dtype('float64'), 'ndim': 2, 'tag': 1})()", "memoryview(b'ab')", "(lambda: 1)", "[np.zeros(2)]",
    "np.ma.zeros((2, 3))", "np.matrix([[1.0, 2.0]])", "np.rec.array([(1, 2.0)])", "np.zeros((2, 3)).T", "np.zeros((4, 6))[::2, ::2]",
    "np.broadcast_to(np.zeros(()), (2, 3))", "np.float64(1).reshape(())", "np.zeros(2).flat", "np.nditer(np.zeros(2))",
    "type('Sub', (np.ndarray,), {})((2, 3))", "type('Sub', (np.ndarray,), {'tag': 1, 'size_': 3})((2, 3))",
]
OWN_OTHERS = {
    "tf": ["tf.zeros((2, 3))", "tf.zeros(())", "tf.Variable([1.0, 2.0])", "tf.float32", "tf.TensorShape([2])", "tf.ragged.constant([[1], [1, 2]])",
           "tf.sparse.eye(2)", "tf.Tensor", "TFTensor", "TFTensor[2]", "tf.constant('x')"],
    "torch": ["torch.zeros((2, 3))", "torch.zeros(())", "torch.float32", "torch.Size((2,))", "torch.Tensor", "Tensor", "Tensor[2]"],
}
TOKENS = ["0", "1", "2", "-1", "...", "None", "X", "X + 1", "2*X", "X*Y", "Y"]


def bounds(tier):
    return {
        "dtype arguments": DTYPES, "shapes": SHAPES, "own shapes": OWN_SHAPES, "attributes": ATTRS, "attributes of values": [str(d) for d in GIVEN],
        "other values": OTHERS + OWN_OTHERS["tf"] + OWN_OTHERS["torch"],
        "patterns": f"tokens {TOKENS} up to length {3 if tier == 'quick' else 4} (Array; one less for the tensors), shapes up to rank 3",
        "chains": "two subscriptions over dtypes, shapes and attributes",
    }


def jobs(tier):
    out = []
    for family, short in BACKENDS.items():
        big = family == "Array"
        base = dict(backend=short if not big else "tf+torch")
        deep = 4 if tier == "thorough" else 1
        out += lib.split(1 if tier == "quick" else 2, name="dtypes", params={"family": family, "space": "dtypes"}, **base)
        out += lib.split((3 if big else 2) * deep, name="cross", params={"family": family, "space": "cross"}, **base)
        out += lib.split((3 if big else 1) * deep, name="patterns", params={"family": family, "space": "patterns"}, backend=short)
        out += lib.split((2 if big else 1) * deep, name="chains", params={"family": family, "space": "chains"}, backend=short)
        out += lib.split(deep, name="quiet", params={"family": family, "space": "quiet"}, backend=short, config={"print-passes": "no"})
        out += lib.split(deep, name="soft", params={"family": family, "space": "soft"}, backend=short, config={"raise-errors": "no"})
        out += lib.split(deep, name="plain", params={"family": family, "space": "quiet"}, backend=short, config={"check-non-asta-types": "yes"})
    return out


# ------------------------------------------------------------ annotations and values


def text_of(family, *parts):
    inner = ", ".join(p for p in parts if p)
    return f"{family}[{inner}]" if inner else family


def annotations(family, space, tier):
    shapes = SHAPES + OWN_SHAPES[family]
    if space == "dtypes":
        for dtype in [""] + DTYPES[family]:
            for shape in ("", "2", "()", "X"):
                yield text_of(family, dtype, shape)
    elif space == "cross":
        for dtype in ["", "float", "object" if family == "Array" else "int"]:
            for shape in shapes:
                for attr in ATTRS:
                    yield text_of(family, dtype, shape, attr)
    elif space == "patterns":
        longest = (4 if family == "Array" else 3) if tier == "thorough" else 3 if family == "Array" else 2
        for length in range(1, longest + 1):
            for tokens in itertools.product(TOKENS, repeat=length):
                if not any(a == b == "..." for a, b in zip(tokens, tokens[1:])):
                    yield text_of(family, *tokens)
    elif space == "chains":
        some = ["", "()", "2, 3", "X, X + 1", "..., 3", "(2,), 3", "-1, X"] + OWN_SHAPES[family][:2]
        attrs = ["", "{'tag': 1}", "{'size_': X}"] if tier == "thorough" else ["", "{'tag': 1}"]
        steps = [text_of("", d, s, a) for d in ("", "float", DTYPES[family][-1]) for s in some for a in attrs]
        steps = [s for s in steps if s]
        for one in steps:
            for two in steps:
                if tier == "thorough" or (steps.index(one) + steps.index(two)) % 3 == 0:
                    yield family + one + two
    else:
        for shape in shapes:
            for attr in ("", "{'tag': 1}", "{'size_': X}"):
                yield text_of(family, shape, attr)
                if shape:
                    yield text_of(family, "float", shape, attr)


def make(family, shape, element, given):
    if family == "Array":
        np = lib.NS["np"]
        value = np.zeros(shape, dtype=element).view(lib.NS["WithAttributes"])
    elif family == "TFTensor":
        tf = lib.NS["tf"]
        value = tf.zeros(shape, dtype="int8") if element == "qint8" else tf.zeros(shape, dtype=element)
        value = tf.bitcast(value, tf.qint8) if element == "qint8" else value
    else:
        torch = lib.NS["torch"]
        value = torch.zeros(shape, dtype=getattr(torch, element))
    for key, attr in given.items():
        setattr(value, key, attr)
    return value


def values(family, space, tier, backend):
    """[(label, value, whether it is of the family)]"""
    out = []
    usual = {"Array": ["float64", "O"], "TFTensor": ["float32", "int32"], "Tensor": ["float32", "int32"]}[family]
    if space == "dtypes":
        for element in ELEMENTS[family]:
            for shape in ((2,), (), (3,)):
                out.append((f"{element} {shape}", make(family, shape, element, {}), True))
    elif space == "cross":
        for shape in VALUE_SHAPES:
            for element in usual:
                for given in GIVEN:
                    rare = element == usual[1] or shape not in ((2,), (2, 3), ())
                    if tier == "thorough" or not rare or given == GIVEN[3]:
                        out.append((f"{element} {shape} {given}", make(family, shape, element, given), True))
    elif space == "patterns":
        for rank in range(4):
            for shape in itertools.product(range(4 if rank < 3 else 3), repeat=rank):
                out.append((f"{usual[0]} {shape}", make(family, shape, usual[0], {}), True))
        return out
    else:
        for shape in VALUE_SHAPES:
            for given in (GIVEN[0], GIVEN[3]):
                out.append((f"{usual[0]} {shape} {given}", make(family, shape, usual[0], given), True))
        out.append((f"{usual[1]} (2, 3)", make(family, (2, 3), usual[1], {"tag": 1}), True))
    if space in ("dtypes", "soft", "quiet") or tier == "thorough":
        others = list(OTHERS)
        for short, more in OWN_OTHERS.items():
            if short in backend.split("+"):
                others += more
        np = lib.NS["np"]
        for text in others:
            value = lib.ev(text)
            out.append((text, value, family == "Array" and isinstance(value, np.ndarray)))
    else:
        out.append(("None", None, False))
    return out


# ------------------------------------------------------------ the ways to be checked


class Ways:
    """The functions type-checked with one annotation."""

    def __init__(self, annotation):
        self.ran = 0
        self.result = None

        def func(p):
            self.ran += 1

        def back():
            self.ran += 1
            return self.result

        func.__annotations__ = {"p": annotation}
        back.__annotations__ = {"return": annotation}
        self.annotation = annotation
        self.func = lib.NS["typechecked"](func)
        self.back = lib.NS["typechecked"](back)

    def position(self, value):
        return self.seen(0, self.func, value)

    def keyword(self, value):
        return self.seen(0, self.func, p=value)

    def returned(self, value):
        self.result = value
        return self.seen(1, self.back)

    def default(self, value):
        def func(p=value):
            self.ran += 1

        func.__annotations__ = {"p": self.annotation}
        return self.seen(0, lib.NS["typechecked"](func))

    def seen(self, late, func, *args, **kwargs):
        """True / False, or what went wrong."""
        self.ran = 0
        lib.SINK.start()
        status, text = lib.attempt(func, *args, **kwargs)
        printed = lib.SINK.stop()
        if status == "ok" and self.ran == 1:
            return "FAILED" not in printed
        if status == "TypeError" and self.ran == late:
            return False
        return f"{status} with {self.ran} runs of the body: {text}"


def compare(ctx, case, annotation, ways, label, value, names):
    want = lib.check_isinstance(value, annotation)
    ctx.count("evaluations")
    ctx.outcome(str(want))
    if not isinstance(want, bool):
        ctx.violation(case, f"isinstance({label}, {case['annotation']}) {want}")
        return
    for name in names:
        ctx.count("transitions")
        got = getattr(ways, name)(value)
        if got is not want:
            ctx.violation({**case, "way": name}, f"{label} with {case['annotation']}: isinstance is {want}, {name} by the decorator is {got}")
            return
    if lib.check_isinstance(value, annotation) is not want:
        ctx.violation(case, f"isinstance({label}, {case['annotation']}) was {want}, but no longer after the calls")


def decide(ctx, text, pairs, space):
    status, annotation = lib.attempt(lib.ev, text)
    if status != "ok":
        ctx.violation({"annotation": text, "value": None}, f"{text} raises {status}: {annotation}")
        return
    ways = Ways(annotation)
    for label, value, own in pairs:
        names = ["position", "returned"]
        if space in ("dtypes", "quiet", "soft"):
            names += ["keyword", "default"]
        if own:
            ctx.count("distinct_nontrivial")
        with lib.limit(120):
            compare(ctx, {"annotation": text, "value": label}, annotation, ways, label, value, names)


def prepare():
    lib.NS["WithAttributes"] = type("WithAttributes", (lib.NS["np"].ndarray,), {})


def run(ctx):
    prepare()
    family, space = ctx.params["family"], ctx.params["space"]
    pairs = values(family, space, ctx.tier, ctx.job["backend"])
    for text in annotations(family, space, ctx.tier):
        if ctx.mine():
            decide(ctx, text, pairs, space)
    ctx.sample({"family": family, "space": space, "values": [p[0] for p in pairs[:5]]}, 1)


def replay(case, ctx):
    prepare()
    family, space = ctx.params["family"], ctx.params["space"]
    pairs = [p for p in values(family, space, ctx.tier, ctx.job["backend"]) if case["value"] in (None, p[0])]
    decide(ctx, case["annotation"], pairs, space)
