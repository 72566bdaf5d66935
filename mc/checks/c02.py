"""C02: dtype annotations accept exactly the requested element type."""
from mc import lib, model

LEVEL = "exploration"
RULE = (
    "every dtype argument x every shape argument x every value (arrays of every listed "
    "element type x shape, arrays of other libraries, and non-arrays), decided by the real "
    "isinstance check and by an explicit element-type table; non-trivial: the value is an array "
    "of the annotation's own library"
)
ASSUMPTIONS = [
    "structured dtypes, flexible scalar types (np.str_, np.datetime64, ...) and dtype strings "
    "as arguments are not explored",
    "PyTorch is a stand-in module (not installed)",
]

# Element types of NumPy values, and which of them each dtype argument accepts.
NP_VALUES = (
    "bool int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 "
    "complex64 complex128 >i4 >f4 >f8 >i8 S1 S3 S7 U1 U3 U9 O M8[s] M8[ns] M8[D] M8 "
    "m8[s] m8[us] m8 longdouble clongdouble"
).split()


def np_args():
    """(source, accepted NP_VALUES)."""
    args = [
        ("int", ["int64"]),
        ("float", ["float64"]),
        ("bool", ["bool"]),
        ("complex", ["complex128"]),
        ("bytes", ["S1", "S3", "S7"]),
        ("str", ["U1", "U3", "U9"]),
        ("object", ["O"]),
        ("datetime.datetime", ["M8[s]", "M8[ns]", "M8[D]", "M8"]),
        ("datetime.timedelta", ["m8[s]", "m8[us]", "m8"]),
        ("np.longdouble", ["longdouble"]),
    ]
    for name in (
        "int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 float64 "
        "complex64 complex128"
    ).split():
        args.append((f"np.{name}", [name]))
        args.append((f"np.dtype('{name}')", [name]))
    for name in NP_VALUES[13:]:
        args.append((f"np.dtype('{name}')", [name]))
    args.append(("np.bool_", ["bool"]))
    args.append(("np.dtype(bool)", ["bool"]))
    return args


TF_VALUES = (
    "float16 float32 float64 bfloat16 int8 int16 int32 int64 uint8 uint16 uint32 uint64 "
    "bool complex64 complex128 string qint8 qint32 quint8"
).split()


def tf_args():
    args = [
        ("int", ["int32"]),
        ("float", ["float32"]),
        ("complex", ["complex128"]),
        ("bool", ["bool"]),
        ("bytes", ["string"]),
        ("str", ["string"]),
    ]
    args += [(f"tf.{name}", [name]) for name in TF_VALUES]
    return args + [("tf.double", ["float64"]), ("tf.half", ["float16"])]


TORCH_VALUES = (
    "uint8 int8 int16 int32 int64 float16 float32 float64 complex64 bool".split()
)


def torch_args():
    args = [
        ("int", ["int32"]),
        ("float", ["float32"]),
        ("bool", ["bool"]),
        ("bytes", ["uint8"]),
    ]
    args += [(f"torch.{name}", [name]) for name in TORCH_VALUES]
    return args + [("torch.double", ["float64"]), ("torch.long", ["int64"])]


SHAPE_ARGS = [
    ("", None),
    (", ...", (...,)),
    (", 2", (2,)),
    (", 2, 3", (2, 3)),
    (", (2, 3)", (2, 3)),
    (", -1, 3", (-1, 3)),
    (", ..., 3", (..., 3)),
    (", ()", ()),
    (", Scalar", ()),
    (", 0", (0,)),
    (", None", (None,)),
]
SHAPES = [(), (2,), (3,), (2, 3), (3, 2), (0,), (1, 2, 3)]

OTHERS = [
    "1", "1.5", "True", "None", "'abc'", "b'abc'", "[1.0, 2.0]", "(1, 2)", "{}", "object()",
    "float", "np.float64(1)", "np.int64(1)", "np.bool_(True)", "np.str_('a')",
    "np.dtype('float64')", "np.ndarray", "Array", "Array[float]", "datetime.datetime(2020, 1, 1)",
    "type('Duck', (), {'shape': (2, 3), 'dtype': np.dtype('float64'), 'ndim': 2})()",
]

FAMILIES = {
    "np": ("Array", np_args, NP_VALUES),
    "tf": ("TFTensor", tf_args, TF_VALUES),
    "torch": ("Tensor", torch_args, TORCH_VALUES),
}


def bounds(tier):
    return {
        "dtype arguments": {k: len(v[1]()) for k, v in FAMILIES.items()},
        "value element types": {k: len(v[2]) for k, v in FAMILIES.items()},
        "shape arguments": [s for s, _ in SHAPE_ARGS],
        "value shapes": str(SHAPES),
        "other values": OTHERS,
    }


def jobs(tier):
    out = lib.split(2, name="np", backend="np", params={"lib": "np"})
    out += lib.split(2, name="tf", backend="tf", params={"lib": "tf"})
    out += lib.split(1, name="torch", backend="torch", params={"lib": "torch"})
    out += lib.split(1, name="np+tf+torch", backend="tf+torch", params={"lib": "cross"})
    return out


def array_sources(which):
    """(source, element type, shape) of every array value of a library."""
    for shape in SHAPES:
        if which == "np":
            for name in NP_VALUES:
                yield f"np.zeros({shape}, dtype='{name}')", name, shape
        elif which == "tf":
            for name in TF_VALUES:
                if name == "string":
                    yield f"tf.fill({list(shape)}, 'a')", name, shape
                elif name.startswith("q"):
                    yield (
                        f"tf.bitcast(tf.zeros({shape}, tf.{name[1:] if name != 'quint8' else 'uint8'}), tf.{name})",
                        name,
                        shape,
                    )
                else:
                    yield f"tf.zeros({shape}, tf.{name})", name, shape
        else:
            for name in TORCH_VALUES:
                yield f"torch.zeros({shape}, dtype=torch.{name})", name, shape
    if which == "np":
        yield "np.zeros((2, 3)).T.T", "float64", (2, 3)
        yield "np.asfortranarray(np.zeros((2, 3)))", "float64", (2, 3)
        yield "np.matrix([[1., 2, 3], [4, 5, 6]])", "float64", (2, 3)
        yield "np.ma.masked_array(np.zeros((2, 3)))", "float64", (2, 3)
        yield "np.zeros((4, 6))[::2, ::2]", "float64", (2, 3)
    if which == "tf":
        yield "tf.constant([[1., 2, 3], [4, 5, 6]])", "float32", (2, 3)


def other_sources(which):
    yield from OTHERS
    if which == "tf":
        yield from ["np.zeros((2, 3), np.float32)", "tf.float32", "tf.Tensor", "tf.TensorShape([2, 3])"]
    if which == "torch":
        yield from ["np.zeros((2, 3), np.float32)", "torch.float32", "torch.Size((2, 3))"]


def annotations(family, args):
    yield family, None, None
    for source, accepted in args:
        for shape_source, pattern in SHAPE_ARGS:
            yield f"{family}[{source}{shape_source}]", accepted, pattern
            if pattern is not None:
                # the same annotation by way of an alias
                yield f"{family}[{source}][{shape_source[2:]}]", accepted, pattern
                yield f"{family}[{shape_source[2:]}][{source}]", accepted, pattern
    for shape_source, pattern in SHAPE_ARGS[1:]:
        yield f"{family}[{shape_source[2:]}]", None, pattern


def judge(ctx, annotation_source, annotation, value_source, value, want):
    with lib.limit(60):
        got = lib.check_isinstance(value, annotation)
    ctx.count("evaluations")
    ctx.outcome("accept" if want else "reject")
    if got is not want:
        ctx.violation(
            {"annotation": annotation_source, "value": value_source, "want": want},
            f"isinstance({value_source}, {annotation_source}) is {got}, should be {want}",
        )


def run(ctx):
    which = ctx.params["lib"]
    if which == "cross":
        return run_cross(ctx)
    family, args, _ = FAMILIES[which]
    values = [(s, lib.ev(s), name, shape) for s, name, shape in array_sources(which)]
    for source, value, name, shape in values:
        assert tuple(value.shape) == shape, source
    others = [(s, lib.ev(s)) for s in other_sources(which)]
    for source, accepted, pattern in annotations(family, args()):
        if not ctx.mine():
            continue
        status, annotation = lib.attempt(lib.ev, source)
        if status != "ok":
            ctx.violation({"annotation": source}, f"{source} raises {status}: {annotation}")
            continue
        ctx.sample({"annotation": source, "accepts element types": accepted})
        for value_source, value, name, shape in values:
            want = (accepted is None or name in accepted) and (
                pattern is None or model.literal_accepts(pattern, shape)
            )
            ctx.count("distinct_nontrivial")
            judge(ctx, source, annotation, value_source, value, want)
        for value_source, value in others:
            judge(ctx, source, annotation, value_source, value, False)
    return None


def run_cross(ctx):
    """With all libraries present, no family accepts another library's arrays."""
    values = []
    for which in ("np", "tf", "torch"):
        for source, name, shape in array_sources(which):
            if shape in ((2, 3), ()):
                values.append((which, source, lib.ev(source), name, shape))
    for which, (family, args, _) in FAMILIES.items():
        for arg, accepted in [(None, None)] + args():
            for suffix, pattern in (("", None), (", 2, 3", (2, 3)), (", ()", ())):
                if arg is None and suffix:
                    continue
                source = family if arg is None else f"{family}[{arg}{suffix}]"
                annotation = lib.ev(source)
                for owner, value_source, value, name, shape in values:
                    want = owner == which and (accepted is None or name in accepted)
                    want = want and (pattern is None or pattern == shape)
                    if owner == which:
                        ctx.count("distinct_nontrivial")
                    judge(ctx, source, annotation, value_source, value, want)


def replay(case, ctx):
    status, annotation = lib.attempt(lib.ev, case["annotation"])
    if status != "ok":
        ctx.violation(case, f"{case['annotation']} raises {status}: {annotation}")
    else:
        judge(ctx, case["annotation"], annotation, case["value"], lib.ev(case["value"]), case["want"])
