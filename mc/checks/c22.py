"""C22: malformed annotations are refused when they are written."""
import itertools
import operator

from mc import lib

LEVEL = "exploration"
RULE = (
    "every argument list up to a bounded length over well-formed and malformed tokens, loose or grouped in (nested) tuples, "
    "for every array family, on the bare class and on already subscripted ones: TypeError exactly when the grammar says so, "
    "any other exception is a violation; after every refusal the class still accepts what it accepted; every "
    "annotation called with every argument list. Non-trivial: argument lists of at least two tokens"
)
ASSUMPTIONS = [
    "for Array, classes NumPy takes for the object dtype, and tuple subclasses as groups, are not explored; neither are "
    "attribute dictionaries with keys that are no strings and shape objects of unknown rank",
    "PyTorch is a stand-in module (not installed)",
]

# token -> kind
COMMON = {
    "2": "dim", "-1": "dim", "0": "dim", "None": "dim", "X": "dim", "X + 1": "dim", "D": "dim", "W": "dim", "W + (1,)": "dim",
    "X/2": "dim", "sympy.Integer(3)": "dim", "...": "ellipsis", "()": "scalar", "Scalar": "scalar", "{'tag': 1}": "attrs",
    "float": "dtype", "int": "dtype", "1.5": "bad", "'x'": "bad", "True": "bad", "[1]": "bad", "np.zeros((2, 2))": "bad", "X > 1": "bad",
    "np.int64(2)": "bad", "object()": "bad", "_[3]": "bad later",
}
MORE = {
    "7": "dim", "2*D": "dim", "D*X": "dim", "(1,) + W": "dim", "W + W": "dim", "{}": "attrs", "{'size_': X}": "attrs", "bool": "dtype", "b'x'": "bad", "1j": "bad",
    "{1}": "bad", "''": "bad", "len": "bad", "NotImplemented": "bad", "range(2)": "bad", "slice(1, 2)": "bad", "np.array([1, 2])": "bad",
    "np.array([])": "bad", "np.array(2)": "bad", "np.float64(2)": "bad", "False": "bad", "sympy.true": "bad", "dims": "bad", "shapes": "bad", "symbols": "bad", "Array": "bad later",
    "tf.zeros(2)": "bad", "torch.zeros(2)": "bad", "2.0": "bad", "float('nan')": "bad", "iter([])": "bad", "np": "bad", "frozenset()": "bad",
    "bytearray(b'x')": "bad", "type": "bad later", "'2'": "bad", "'...'": "bad", "Scalar()": "bad", "Ellipsis": "ellipsis", "int.__add__": "bad",
}
OWN = {
    "Array": {"np.dtype('float64')": "dtype", "np.float32": "dtype", "complex": "dtype", "tf.float32": "bad", "torch.float32": "bad", "tf.TensorShape([2])": "bad"},
    "TFTensor": {"tf.float32": "dtype", "complex": "dtype", "np.float32": "bad", "np.dtype('float32')": "bad", "torch.float32": "bad", "list": "bad", "object": "bad",
                 "tf.TensorShape([2])": "dim", "tf.TensorShape([])": "scalar"},
    "Tensor": {"torch.float32": "dtype", "np.float32": "bad", "np.dtype('float32')": "bad", "tf.float32": "bad", "list": "bad", "str": "bad",
               "tf.TensorShape([2])": "bad", "torch.Size((2,))": "dim", "torch.Size(())": "scalar"},
}
FAMILIES = ("Array", "TFTensor", "Tensor")
BASES = ["", "[float]", "[2, 3]", "[()]", "[{'tag': 1}]", "[float, ..., X]", "[float, (), {'tag': None}]"]


def bounds(tier):
    return {
        "tokens": COMMON, "more tokens, in lists of two": MORE, "tokens of the families": OWN,
        "lists": "up to 3 tokens, and up to 3 elements of which one is a group of up to 2 tokens or a group in a group"
        + ("" if tier == "quick" else "; up to 4 tokens of a core, two groups, every token in every place"),
        "classes subscripted": BASES,
    }


def jobs(tier):
    out = []
    for family in FAMILIES:
        for space, n in (("flat", 2), ("groups", 3), ("bases", 1), ("call", 1)):
            n = n if tier == "quick" else 2 * n
            out += lib.split(n, name=space, backend="tf+torch", params={"family": family, "space": space})
    return out


class Token:
    def __init__(self, text, kind, value):
        self.text, self.kind, self.value = text, kind, value


class Group:
    def __init__(self, items):
        self.items = items
        self.text = "(" + ", ".join(i.text for i in items) + ("," if len(items) == 1 else "") + ")"
        self.value = tuple(i.value for i in items)


def leaves(items):
    for item in items:
        if isinstance(item, Group):
            yield from leaves(item.items)
        else:
            yield item


def well_formed(items):
    """Whether the argument list (of tokens and groups) denotes an annotation."""
    items = list(items)
    if len(items) == 1 and isinstance(items[0], Group):
        items = items[0].items  # Array[(2, 3)] is Array[2, 3]
    if items and getattr(items[0], "kind", None) in ("dtype", "bad later"):
        if items[0].kind == "bad later":
            return None if FAMILY[0] == "Array" else False
        items = items[1:]
    if items and getattr(items[-1], "kind", None) == "attrs":
        items = items[:-1]
    kinds = [t.kind for t in leaves(items)]
    if any(k not in ("dim", "ellipsis", "scalar") for k in kinds):
        return False
    if "scalar" in kinds and len(kinds) > 1:
        return False
    return not any(a == b == "ellipsis" for a, b in zip(kinds, kinds[1:]))


FAMILY = ["Array"]


def tokens(family, more=False):
    table = {**COMMON, **OWN[family], **(MORE if more else {})}
    out = []
    for text, kind in table.items():
        value = lib.ev(text, _=lib.NS[family], D=lib.NS["dims"].D, W=lib.NS["shapes"].W, sympy=__import__("sympy"))
        out.append(Token(text, kind, value))
    return out


def core(pool):
    keep = ("2", "None", "X", "W", "...", "()", "Scalar", "{'tag': 1}", "float", "1.5", "'x'", "np.zeros((2, 2))", "_[3]", "tf.TensorShape([2])", "torch.Size((2,))",
            "tf.TensorShape([])", "torch.Size(())", "tf.float32", "np.float32")
    return [t for t in pool if t.text in keep]


def lists(family, space, tier):
    pool = tokens(family)
    if space == "flat":
        for length in (1, 2, 3):
            yield from itertools.product(pool, repeat=length)
        wide = tokens(family, more=True)
        for length in (1, 2):
            yield from itertools.product(wide, repeat=length)
        if tier == "thorough":
            yield from itertools.product(core(pool), repeat=4)
            yield from itertools.product(wide, core(pool), wide)
        return
    small = core(pool) if tier == "quick" else pool
    singles = [Group([t]) for t in pool]
    pairs = [Group(list(c)) for c in itertools.product(small, repeat=2)]
    nested = [Group([g]) for g in singles + pairs] + [Group([t, g]) for t in core(pool) for g in [Group([u]) for u in core(pool)]]
    nested += [Group([Group([u]), t]) for t in core(pool) for u in core(pool)]
    groups = singles + pairs + nested
    for group in groups:
        yield (group,)
    for group in groups:
        for token in small:
            yield token, group
            yield group, token
    for group in singles + pairs:
        for one, two in itertools.product(core(pool), repeat=2):
            if len(group.items) == 1 or (one.text, two.text) in (("2", "2"), ("...", "2"), ("2", "..."), ("float", "2"), ("2", "{'tag': 1}"), ("float", "{'tag': 1}")):
                yield one, group, two
    if tier == "thorough":
        few = [Group(list(c)) for n in (1, 2) for c in itertools.product(core(pool), repeat=n)]
        yield from itertools.product(few, repeat=2)


def decide(ctx, family, base, items, label, probes):
    ctx.count("evaluations")
    want = well_formed(items)
    if want is None:
        return
    if len(list(leaves(items))) > 1:
        ctx.count("distinct_nontrivial")
    key = items[0].value if len(items) == 1 else tuple(i.value for i in items)
    with lib.limit(60):
        status, got = lib.attempt(operator.getitem, base, key)
    ctx.outcome("well-formed" if want else "malformed")
    text = f"{label}[{', '.join(i.text for i in items)}]"
    case = {"family": family, "base": label, "items": [i.text for i in items]}
    if want and (status != "ok" or not isinstance(got, type)):
        ctx.violation(case, f"{text} is well-formed but {'raises ' + status if status != 'ok' else 'gives'} {got}")
    elif not want and status != "TypeError":
        ctx.violation(case, f"{text} is malformed but {'raises ' + status if status != 'ok' else 'gives'} {got}")
    elif not want:
        for value, accepted in probes:
            if lib.check_isinstance(value, base) is not accepted:
                ctx.violation(case, f"after {text} was refused, {label} no longer gives isinstance {accepted} for {value!r}")
                break


def probes_of(family, base):
    make = {"Array": lambda s: lib.NS["np"].zeros(s), "TFTensor": lambda s: lib.NS["tf"].zeros(s), "Tensor": lambda s: lib.NS["torch"].zeros(s)}[family]
    return [(v, lib.check_isinstance(v, base)) for v in (make((2, 3)), make(()), None)]


def run_calls(ctx, family):
    """No annotation class can be instantiated."""
    cls = lib.NS[family]
    args = [(), (2,), ((2, 3),), ([1.0, 2.0],), (lib.NS["np"].zeros(2),), (None,), (2, 3), (float,), ("x", 1)]
    kwargs = [{}, {"shape": (2,)}, {"dtype": float}]
    sub = type("Sub", (cls,), {})
    pool = [("", cls), (" subclass", sub)] + [
        (f"[{t.text}]", cls[t.value]) for t in tokens(family) if t.kind not in ("bad", "bad later")
    ] + [(b, lib.ev(family + b)) for b in BASES]
    for label, annotation in pool:
        for one, two in itertools.product(args, kwargs):
            for how, make in (("()", annotation), (".__new__", lambda *a, annotation=annotation, **k: annotation.__new__(annotation, *a, **k))):
                ctx.count("evaluations")
                ctx.count("distinct_nontrivial")
                status, got = lib.attempt(make, *one, **two)
                if status != "TypeError":
                    ctx.violation(
                        {"family": family, "call": label, "how": how},
                        f"{family}{label}{how} with {one} {two} should raise TypeError: {status} {got}",
                    )
        ctx.outcome("not instantiated")


def run(ctx):
    family, space = ctx.params["family"], ctx.params["space"]
    FAMILY[0] = family
    if space == "call":
        run_calls(ctx, family)
        return
    if space == "bases":
        pool = tokens(family, more=ctx.tier == "thorough")
        for text in BASES[1:]:
            base = lib.ev(family + text)
            probes = probes_of(family, base)
            for length in (1, 2):
                for items in itertools.product(pool, repeat=length):
                    if ctx.mine():
                        decide(ctx, family, base, items, family + text, probes)
        return
    base = lib.NS[family]
    probes = probes_of(family, base)
    for items in lists(family, space, ctx.tier):
        if ctx.mine():
            decide(ctx, family, base, items, family, probes)
            if len(items) == 3:
                ctx.sample({"family": family, "items": [i.text for i in items], "well-formed": well_formed(items)}, 2)


def replay(case, ctx):
    run(ctx)
