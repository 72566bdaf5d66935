"""C23: Scalar means exactly the zero-dimensional arrays and the plain single values."""
from mc import lib

LEVEL = "exploration"
RULE = (
    "every value of the stated list (plain values and subclasses of each scalar type, zero- and "
    "higher-dimensional arrays and tensors of every kind, everything else) x every use of Scalar "
    "(isinstance, parameter and result annotation, inside containers and Unions, as the shape of an array "
    "annotation with and without dtype) under both settings of check-non-asta-types and every set of "
    "installed libraries, each verdict against a table. Every ordered pair of values is asked about in "
    "sequence, for the independence from earlier questions. Non-trivial: the value is a scalar or an array"
)
ASSUMPTIONS = [
    "NumPy scalar objects that are no instances of a Python scalar type (np.int64, np.float32, np.bool_, "
    "np.datetime64) and tensors of unknown rank are not explored",
    "PyTorch is a stand-in module (not installed)",
]

# (source, backend needed, is a scalar, is an ndarray / tf / torch tensor: element type and shape)
SCALARS = [
    "True", "False", "0", "7", "-3", "10**30", "0.0", "1.5", "float('nan')", "float('inf')", "1j", "0j", "b''", "b'ab'",
    "''", "'ab'", "datetime.datetime(2020, 1, 1)", "datetime.timedelta(0)", "datetime.timedelta(days=2)",
    "np.float64(1.5)", "np.complex128(1j)", "np.str_('a')", "np.bytes_(b'a')", "MyInt(3)", "MyFloat(1)", "MyStr('s')",
    "MyBytes(b'b')", "MyComplex(1)", "MyDateTime(2020, 1, 1)", "MyDelta(1)", "Number.ONE", "WithShape(3)",
    "twin(int)", "twin(str)",
]
OTHERS = [
    "None", "...", "[]", "[1]", "()", "(1,)", "{}", "{1}", "set()", "frozenset()", "bytearray(b'a')", "memoryview(b'a')",
    "range(1)", "object()", "int", "float", "type", "len", "Scalar", "Array", "Array[()]", "datetime.date(2020, 1, 1)",
    "datetime.time(1)", "datetime.timezone.utc", "fractions.Fraction(1, 2)", "decimal.Decimal(1)", "X", "X + 1",
    "twin(list)", "twin(object)", "twin(tuple)", "np.nditer(np.zeros(()))",
    "np", "np.dtype('float64')", "np.float64", "iter([1])", "ShapeOnly()", "Plain.ONE", "slice(1)", "lambda: 1",
]
DTYPES = ["bool", "int64", "int8", "uint16", "float32", "float64", "complex128", "S3", "U3", "O", "M8[s]", "m8[s]", ">f8", "i4, f8", "V4", "float16"]
# Arrays of other classes: source, element type, shape.
ARRAYS = [
    ("np.ma.array(1)", "int64", ()), ("np.ma.array([1])", "int64", (1,)), ("np.ma.masked", "float64", ()),
    ("np.zeros(3).view(Sub)[0:1].reshape(())", "float64", ()), ("np.recarray((), dtype='i4, f8')", "record", ()),
    ("np.recarray((1,), dtype='i4, f8')", "record", (1,)), ("np.matrix([[1.0]])", "float64", (1, 1)), ("arr0.T", "float64", ()),
    ("arr0[...]", "float64", ()), ("np.broadcast_to(np.zeros(()), ())", "float64", ()), ("np.char.array(['a'])", "U1", (1,)),
]
SHAPES = [(), (1,), (0,), (2,), (1, 1), (0, 3), (2, 3)]
TF_DTYPES = ["float32", "float64", "int32", "bool", "string", "complex64"]
TORCH_DTYPES = ["float32", "float64", "int32", "int64", "bool", "uint8"]


def bounds(tier):
    return {
        "values": f"{len(SCALARS)} scalars, {len(OTHERS)} others, {len(DTYPES)}+{len(TF_DTYPES)}+{len(TORCH_DTYPES)} element "
        f"types x {len(SHAPES)} shapes, ndarray subclasses",
        "uses": "isinstance, parameter, result, List, Tuple, Dict, Optional, Union, Array[Scalar], Array[dtype, Scalar], "
        "and the same of TFTensor and Tensor",
        "classes": "among the values are some of one name and several kinds",
        "libraries": "NumPy alone, with TensorFlow, with PyTorch, with both",
        "sequence": "two questions",
    }


def jobs(tier):
    out = []
    for backend in ("np", "tf", "torch", "tf+torch"):
        for plain in ("yes", "no"):
            out += lib.split(
                2 if backend == "np" else 1, name=f"{backend} plain={plain}", backend=backend,
                config={"check-non-asta-types": plain},
            )
    return out


def prepare():
    import decimal
    import enum
    import fractions

    np, datetime = lib.NS["np"], lib.NS["datetime"]

    class MyInt(int):
        pass

    class MyFloat(float):
        pass

    class MyStr(str):
        pass

    class MyBytes(bytes):
        pass

    class MyComplex(complex):
        pass

    class MyDateTime(datetime.datetime):
        pass

    class MyDelta(datetime.timedelta):
        pass

    class WithShape(int):
        shape = (2, 3)

    class ShapeOnly:
        shape = ()
        dtype = np.dtype("float64")

    class Number(enum.IntEnum):
        ONE = 1

    class Plain(enum.Enum):
        ONE = 1

    class Sub(np.ndarray):
        pass

    def twin(base):
        return type("Twin", (base,), {})()

    lib.NS.update(
        twin=twin, arr0=np.zeros(()), MyInt=MyInt, MyFloat=MyFloat, MyStr=MyStr, MyBytes=MyBytes, MyComplex=MyComplex, MyDateTime=MyDateTime,
        MyDelta=MyDelta, WithShape=WithShape, ShapeOnly=ShapeOnly, Number=Number, Plain=Plain, Sub=Sub,
        fractions=fractions, decimal=decimal,
    )


def values(backend):
    """(source, scalar or not, (library, element type, shape) of arrays)."""
    for source in SCALARS:
        yield source, True, None
    for source in OTHERS:
        yield source, False, None
    for source, name, shape in ARRAYS:
        yield source, shape == (), ("Array", name, shape)
    for shape in SHAPES:
        for name in DTYPES:
            yield f"np.zeros({shape}, dtype='{name}')", shape == (), ("Array", name, shape)
        yield f"np.zeros({shape}).view(Sub)", shape == (), ("Array", "float64", shape)
        if "tf" in backend:
            for name in TF_DTYPES:
                fill = "'a'" if name == "string" else f"tf.zeros((), dtype=tf.{name})"
                yield f"tf.fill({shape}, {fill})", shape == (), ("TFTensor", name, shape)
        if "torch" in backend:
            for name in TORCH_DTYPES:
                yield f"torch.zeros({shape}, dtype=torch.{name})", shape == (), ("Tensor", name, shape)


def uses(backend, plain):
    """(source of annotation, wrapper of the value, verdict by (scalar, array)); annotation None means isinstance."""

    def enforced(scalar, _array):
        return scalar or not plain

    def shape_is(family, dtype=None, shape=()):
        return lambda _scalar, array: array is not None and array[0] == family and array[2] == shape and dtype in (None, array[1])

    out = [
        (None, "{}", lambda scalar, _array: scalar),
        ("Scalar", "{}", enforced),
        ("List[Scalar]", "[{}]", enforced),
        ("List[Scalar]", "[1, {}]", enforced),
        ("Tuple[Scalar, Array[1]]", "({}, np.zeros(1))", enforced),
        ("Tuple[Scalar, ...]", "({}, 2.5)", enforced),
        ("Dict[str, Scalar]", "{{'k': {}}}", enforced),
        ("Optional[Scalar]", "{}", lambda scalar, array: scalar or not plain or array == "None"),
        ("Union[Array[1], Scalar]", "{}", lambda scalar, array: scalar or not plain or shape_is("Array", shape=(1,))(scalar, array)),
        ("Array[Scalar]", "{}", shape_is("Array")),
        ("Array[()]", "{}", shape_is("Array")),
        ("Array[float, Scalar]", "{}", shape_is("Array", "float64")),
        ("Array[(Scalar,)]", "{}", shape_is("Array")),
    ]
    if "tf" in backend:
        out += [("TFTensor[Scalar]", "{}", shape_is("TFTensor")), ("TFTensor[float, Scalar]", "{}", shape_is("TFTensor", "float32"))]
    if "torch" in backend:
        out += [("Tensor[Scalar]", "{}", shape_is("Tensor")), ("Tensor[int, Scalar]", "{}", shape_is("Tensor", "int32"))]
    return out


def functions(annotation):
    returned = []

    def param(p):
        return p

    def result():
        return returned[0]

    param.__annotations__ = {"p": annotation}
    result.__annotations__ = {"return": annotation}
    check = lib.NS["typechecked"]
    return check(param), check(result), returned


def run(ctx):
    prepare()
    backend = ctx.job["backend"]
    plain = ctx.job["config"]["check-non-asta-types"] == "yes"
    everything = list(values(backend))
    for position, (annotation, wrap, verdict) in enumerate(uses(backend, plain)):
        made = None if annotation is None else functions(lib.ev(annotation))
        for index in range(len(everything)):
            if ctx.mine():
                decide(ctx, {"use": position, "value": index}, everything[index], annotation, wrap, verdict, made)
    # Two questions in a row; plain isinstance, every ordered pair
    scalar = lib.NS["Scalar"]
    objects = [lib.ev(source) for source, _, _ in everything]
    for first in range(len(everything)):
        if not ctx.mine():
            continue
        for second in range(len(everything)):
            pair(ctx, everything, objects, scalar, first, second)


def pair(ctx, everything, objects, scalar, first, second):
    lib.check_isinstance(objects[first], scalar)
    got = lib.check_isinstance(objects[second], scalar)
    ctx.count("evaluations")
    if got is not everything[second][1]:
        ctx.violation(
            {"pair": [first, second]},
            f"after isinstance({everything[first][0]}, Scalar), isinstance({everything[second][0]}, Scalar) is {got}",
        )


def decide(ctx, case, value, annotation, wrap, verdict, made):
    source, scalar, array = value
    given = lib.ev(wrap.format(source))
    want = verdict(scalar, "None" if source == "None" and annotation == "Optional[Scalar]" else array)
    ctx.count("evaluations")
    ctx.outcome("accepted" if want else "rejected")
    if scalar or array:
        ctx.count("distinct_nontrivial")
        ctx.sample({"value": source, "annotation": annotation or "isinstance", "accepted": want}, 4)
    if made is None:
        got = lib.check_isinstance(given, lib.NS["Scalar"])
        if got is not want:
            ctx.violation(case, f"isinstance({source}, Scalar) should be {want}, is {got}")
        return
    param, result, returned = made
    returned[:] = [given]
    for place, outcome in (("parameter", lib.typechecked_call(param, given)), ("result", lib.typechecked_call(result))):
        if outcome != ("ok" if want else "TypeError"):
            ctx.violation(
                dict(case, place=place),
                f"{wrap.format(source)} as {place} annotated {annotation} should be {'accepted' if want else 'rejected'}: {outcome}",
            )


def replay(case, ctx):
    prepare()
    backend = ctx.job["backend"]
    plain = ctx.job["config"]["check-non-asta-types"] == "yes"
    everything = list(values(backend))
    if "pair" in case:
        objects = [lib.ev(source) for source, _, _ in everything]
        pair(ctx, everything, objects, lib.NS["Scalar"], *case["pair"])
        return
    annotation, wrap, verdict = uses(backend, plain)[case["use"]]
    made = None if annotation is None else functions(lib.ev(annotation))
    decide(ctx, case, everything[case["value"]], annotation, wrap, verdict, made)
