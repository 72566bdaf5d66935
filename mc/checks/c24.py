"""C24: reports name the function, the argument and what was expected."""
import itertools
import re

from mc import grammar as g
from mc import lib, programs

LEVEL = "exploration"
RULE = (
    "every signature of the stated spaces x its values, with raise-errors=yes (text of the TypeError) and no (FAILED "
    "messages printed): the paths named ('p', 'p[0]', 'p.a', 'return', ...) against the paths of the values which do not "
    "match their own annotation by the model; with print-passes=yes the paths named PASSED on accepted calls without "
    "Unions; the text of an array mismatch shows the annotation and the shape found. Every program of the stated "
    "nesting of type-checked calls, each with good or bad argument and result: which function the header above each "
    "report names; the same for functions and methods of every kind defined in classes and functions nested in every way "
    "up to the stated depth. Non-trivial: something is reported as FAILED"
)
ASSUMPTIONS = [
    "mismatches of placeholders without a value and unsolvable systems of equations are reported without a path, and "
    "only have to report no matching value",
    "a path is recognised by its quotes",
    "one thread",
]


def bounds(tier):
    return {
        "signatures": "as for C12",
        "places": f"{4 if tier == 'thorough' else 3} classes and functions around the definition; {KINDS}",
        "nesting": "three functions, each calling up to two others" if tier == "thorough" else "two levels, up to two inner calls",
    }


def jobs(tier):
    out = []
    for raising in ("yes", "no"):
        for passes in ("yes", "no"):
            for plain in ("yes", "no"):
                config = {"raise-errors": raising, "print-passes": passes, "check-non-asta-types": plain}
                if passes == "yes" or plain == "yes":
                    out += lib.split(2, name="single", params={"space": "single"}, config=config)
                if plain == "yes":
                    out += lib.split(1, name="pairs", params={"space": "pair"}, config=config)
        config = {"raise-errors": raising, "print-passes": "yes", "check-all-sequence-elements": "no"}
        out += lib.split(1, name="first elements", params={"space": "single"}, config=config)
        config = {"raise-errors": raising}
        out += lib.split(1, name="tf", backend="tf", params={"space": "single", "family": "TFTensor"}, config=config)
        out += lib.split(1, name="torch", backend="torch", params={"space": "single", "family": "Tensor"}, config=config)
        for passes in ("yes", "no"):
            config = {"raise-errors": raising, "print-passes": passes}
            out += lib.split(4 if tier == "thorough" else 2, name="nested", params={"space": "nested"}, config=config)
            out += lib.split(1, name="placed", params={"space": "placed"}, config=config)
    return out


# ---------------------------------------------------------------- the model of the paths


class Paths:
    """Paths which must be reported, may be reported, and of all values with an array annotation that were examined."""

    def __init__(self):
        self.must, self.may, self.arrays = [], [], []
        self.known = set()
        self.details = {}


def walk(node, value, path, cfg, out, optional=False):
    """Follows the annotation into the value."""
    out.known.add(path)

    def report(detail=None):
        (out.may if optional else out.must).append(path)
        if detail is not None:
            out.details[path] = detail

    if isinstance(node, g.Noted):
        walk(node.elem, value, path, cfg, out, optional)
    elif isinstance(node, g.Arr):
        if node.check(value, cfg) is None:
            report((node, value))
        else:
            out.arrays.append(path)
    elif isinstance(node, g.Listing):
        if not node.container(value):
            return report()
        for index, elem in enumerate(node.examined(value, cfg)):
            walk(node.elem, elem, f"{path}[{index}]", cfg, out, optional)
    elif isinstance(node, g.Setting):
        if not isinstance(value, g.collections.abc.Set):
            return report()
        for elem in value:
            walk(node.elem, elem, f"{path}.<set_element>", cfg, out, optional)
    elif isinstance(node, g.Mapping):
        if not isinstance(value, dict):
            return report()
        for key, elem in value.items():
            walk(node.key, key, f"{path}.<key>", cfg, out, optional)
            walk(node.elem, elem, f"{path}[{key}]", cfg, out, optional)
    elif isinstance(node, g.Fixed):
        if not isinstance(value, tuple):
            return report()
        if not node.ellipsis and len(value) != len(node.elems):
            report()
            optional = True
        for index, (inner, elem) in enumerate(node.parts(value)):
            walk(inner, elem, f"{path}[{index}]", cfg, out, optional)
    elif isinstance(node, g.Named):
        if not isinstance(value, g.evaluate(node.source)):
            return report()
        for field, inner in node.fields:
            walk(inner, getattr(value, field), f"{path}.{field}", cfg, out, optional)
    elif isinstance(node, g.Typed):
        if not isinstance(value, dict):
            return report()
        keys = {f for f, _, _ in node.fields}
        if set(value) - keys or {f for f, _, r in node.fields if r} - set(value):
            report()
            optional = True
        for field, inner, _ in node.fields:
            if field in value:
                walk(inner, value[field], f"{path}[{field}]", cfg, out, optional)
    elif node.check(value, cfg) is None:  # Union, plain types, bare containers
        report()
    return None


def placeholders(node):
    return isinstance(node, g.Never) or any(placeholders(c) for c in g.children(node))


COLOR = re.compile("\033\\[[0-9;]*m")


def messages(text):
    """[(FAILED or PASSED, text)] in order; headers excluded."""
    out = []
    for line in re.split(r"(?=FAILED|PASSED)", COLOR.sub("", text)):
        if line[:6] in ("FAILED", "PASSED"):
            out.append((line[:6], re.split(r"\n={5,}<", line)[0]))
    return out


def named(message, known):
    return {path for path in known if f"'{path}'" in message}


def decide(ctx, case, nodes, returns, func, sources, result):
    config = ctx.job["config"]
    cfg = g.Cfg(config)
    if any(placeholders(n) for n in nodes) or (returns is not None and placeholders(returns)):
        return
    args = [g.evaluate(s) for s in sources]
    given = g.evaluate(result)
    want = g.verdict(nodes, args, returns, given, cfg)
    before, after = Paths(), Paths()
    for name, node, arg in zip("pqr", nodes, args):
        walk(node, arg, name, cfg, before)
    if returns is not None:
        walk(returns, given, "return", cfg, after)
    known = before.known | after.known
    g.RAN.clear()
    g.RESULT[0] = given
    lib.SINK.start()
    raised = None
    with lib.limit(60):
        try:
            func(*args)
        except Exception as err:  # pylint: disable=broad-except
            raised = err
    text = lib.SINK.stop()
    ctx.count("evaluations")
    ctx.outcome(want)
    error = None
    said = messages(text)
    unions = any(n.union for n in nodes) or (returns is not None and returns.union)
    if config.get("raise-errors") == "no":
        error = soft(ctx, said, before, after, known, want)
    elif want == "accepted":
        if raised is not None:
            error = f"accepted call raises {type(raised).__name__}"
    elif not isinstance(raised, TypeError):
        error = f"rejected call raises {type(raised).__name__}"
    else:
        ctx.count("distinct_nontrivial")
        paths = before if want == "rejected before" else after
        error = judged(str(raised), paths, known)
    if want == "accepted" and not error and config.get("print-passes", "yes") == "yes" and not unions:
        passed = [path for kind, text in said if kind == "PASSED" for path in named(text, known)]
        # The same path may occur more than once (elements of a set, equal keys)
        if sorted(passed) != sorted(before.arrays + after.arrays):
            error = f"PASSED names {passed} instead of {before.arrays + after.arrays}"
    if error:
        ctx.violation(case, f"{programs.describe(nodes, returns, sources, result)} [{config}]: {error}")


def soft(ctx, said, before, after, known, want):
    failed = [text for kind, text in said if kind == "FAILED"]
    if failed:
        ctx.count("distinct_nontrivial")
    reported = {path for text in failed for path in named(text, known)}
    must = set(before.must + after.must)
    allowed = must | set(before.may + after.may)
    if must - reported:
        return f"{sorted(must - reported)} does not match, but no FAILED message names it: {failed}"
    if reported - allowed:
        return f"{sorted(reported - allowed)} matches, but is named in a FAILED message: {failed}"
    if want != "accepted" and not failed:
        return "nothing is reported"
    for path, detail in {**before.details, **after.details}.items():
        problem = shown([t for t in failed if path in named(t, known)], detail)
        if problem:
            return problem
    return None


def judged(text, paths, known):
    """The text of a TypeError."""
    reported = named(text, known)
    allowed = set(paths.must + paths.may)
    if allowed and not reported & allowed:
        return f"the error names none of {sorted(allowed)}: {text!r}"
    if reported - allowed:
        return f"the error names {sorted(reported - allowed)}, which matches its annotation: {text!r}"
    for path in reported:
        problem = shown([text], paths.details.get(path))
        if problem:
            return problem
    return None


def shown(texts, detail):
    """Annotation and shape found, for an array annotation without placeholders."""
    if detail is None or not texts:
        return None
    node, value = detail
    if any(c in node.source for c in ("D", "W")):
        return None
    if not any(repr(node.annotation()) in text for text in texts):
        return f"the annotation {node.annotation()!r} is not shown: {texts}"
    np = lib.NS["np"]
    tensor = isinstance(value, np.ndarray) or any(
        module in lib.NS and isinstance(value, lib.NS[module].Tensor) for module in ("tf", "torch")
    )
    if tensor and not any(repr(tuple(value.shape)) in text for text in texts):
        return f"the shape {tuple(value.shape)} found is not shown: {texts}"
    return None


# ---------------------------------------------------------------- which function is named

LOG = []


def nested_programs(tier):
    """Programs: (name, argument good, calls, caught or not, result good)."""
    def leaf(name):
        for arg, result in itertools.product((1, 0), repeat=2):
            yield (name, arg, (), 1, result)

    def inner(name, below):
        yield from leaf(name)
        if below is not None:
            for arg, result, caught in itertools.product((1, 0), repeat=3):
                for call in below():
                    yield (name, arg, (call,), caught, result)

    lower = (lambda: leaf("h")) if tier == "thorough" else None
    for arg, result, caught in itertools.product((1, 0), repeat=3):
        for first in inner("g", lambda: leaf("h")):
            yield ("f", arg, (first,), caught, result)
        for first in inner("g", lower):
            for second in leaf("h"):
                yield ("f", arg, (first, second), caught, result)
        for first in leaf("f"):
            yield ("f", arg, (first,), caught, result)  # recursion


def make(name):
    np = lib.NS["np"]

    def function(p, calls, caught, result):
        for call in calls:
            try:
                perform(call)
            except TypeError:
                if not caught:
                    raise
        return np.zeros(2 if result else 9)

    function.__name__ = function.__qualname__ = f"function_{name}"
    function.__annotations__ = {"p": lib.ev("Array[1]"), "calls": tuple, "caught": int, "result": int, "return": lib.ev("Array[2]")}
    return lib.NS["typechecked"](function)


FUNCTIONS = {}


def perform(call):
    name, arg, calls, caught, result = call
    np = lib.NS["np"]
    FUNCTIONS[name](np.zeros(1 if arg else 9), calls, caught, result)


def expected(call, hard, out, starts):
    """Appends (function, path) of every report; whether the call raises."""
    name, arg, calls, caught, result = call
    starts.append(name)
    if not arg:
        out.append((name, "p"))
        if hard:
            return True
    for inner in calls:
        if expected(inner, hard, out, starts) and not caught:
            return True
    if not result:
        out.append((name, "return"))
        return hard
    return False


def nested(ctx, index, call):
    config = ctx.job["config"]
    hard = config["raise-errors"] == "yes"
    want, starts = [], []
    raises = expected(call, hard, want, starts)
    lib.SINK.start()
    raised = None
    with lib.limit(60):
        try:
            perform(call)
        except Exception as err:  # pylint: disable=broad-except
            raised = err
    text = COLOR.sub("", lib.SINK.stop())
    headers = re.findall(r"=+<asta::\S*?function_(\w+)\(\)>=+", text)
    ctx.count("evaluations")
    ctx.outcome("nested raising" if raises else "nested fine")
    if want:
        ctx.count("distinct_nontrivial")
        ctx.sample({"program": call, "reports": want}, 2)
    error = None
    if raises != isinstance(raised, TypeError) or (raised is not None and not raises):
        error = f"raises {raised!r}"
    elif raises and named(str(raised), {"p", "return"}) != {want[-1][1]}:
        error = f"the error should name {want[-1][1]!r}: {raised}"
    elif config["print-passes"] == "yes":
        if headers != starts:
            error = f"headers name {headers}, the calls were {starts}"
    elif headers != [name for name, _ in want]:
        error = f"headers name {headers}, the reports were {want}"
    if not error and not hard:
        failed = [path for kind, message in messages(text) if kind == "FAILED" for path in named(message, {"p", "return"})]
        if failed != [path for _, path in want]:
            error = f"FAILED names {failed}, should be {want}"
    if error:
        ctx.violation({"nested": index}, f"program {call} [{config}]: {error}")


# ---------------------------------------------------------------- where the function was defined

LAYERS = ["class", "function"]
KINDS = ["function", "method", "class method", "static method", "call", "init", "property"]


def placed_programs(tier):
    """(layers around the definition, outermost first; what is defined; its name)"""
    for depth in range(5 if tier == "thorough" else 4):
        for layers in itertools.product(LAYERS, repeat=depth):
            inside = bool(layers) and layers[-1] == "class"
            for kind in KINDS if inside else ["function"]:
                if (kind == "function") == inside:
                    continue
                for name in ("target", "_hidden", "t", "ünder_scored", "locals_"):
                    special = {"call": "__call__", "init": "__init__"}.get(kind)
                    if special and name != "target":
                        continue
                    yield layers, kind, special or name


def placed_source(layers, kind, name):
    """Source which leaves the way to call the function with (p, result) in OUT."""
    lines, indent, path = [], "", ""
    lines.append("OUT = []")
    for depth, layer in enumerate(layers):
        if layer == "class":
            lines.append(f"{indent}class K{depth}:")
        else:
            lines.append(f"{indent}def g{depth}():")
        path += f"{layer[0]}{depth}"
        indent += "    "
    head = {
        "class method": ["@classmethod", "@typechecked"], "static method": ["@staticmethod", "@typechecked"],
        "property": ["@property", "@typechecked"],
    }.get(kind, ["@typechecked"])
    first = {"method": "self, ", "class method": "cls, ", "call": "self, ", "init": "self, "}.get(kind, "")
    lines += [indent + line for line in head]
    if kind == "property":
        lines.append(f"{indent}def {name}(self) -> Array[2]:")
        lines.append(f"{indent}    return RESULT[0]")
    elif kind == "init":
        lines.append(f"{indent}def {name}(self, p: Array[1]) -> None:")
        lines.append(f"{indent}    pass")
    else:
        lines.append(f"{indent}def {name}({first}p: Array[1]) -> Array[2]:")
        lines.append(f"{indent}    return RESULT[0]")
    # Hand what is innermost out, layer by layer.
    innermost = name
    for depth in reversed(range(len(layers))):
        indent = "    " * depth
        if layers[depth] == "class":
            if depth < len(layers) - 1:
                lines.append(f"{indent}    hand = staticmethod({innermost}) if {innermost!r}.startswith('g') else {innermost}")
            innermost = f"K{depth}"
        else:
            lines.append(f"{indent}    return {innermost}")
            innermost = f"g{depth}"
    lines.append(f"OUT.append({innermost})")
    return "\n".join(lines)


def reach(layers, kind, name, out):
    """The function that calls it."""
    here = out
    for depth, layer in enumerate(layers):
        if layer == "function":
            here = here()
        elif depth < len(layers) - 1:
            here = here.hand
    if kind == "function":
        return here
    if kind == "init":
        return here
    made = here.__new__(here)
    if kind == "property":
        return lambda p: getattr(made, name)
    if kind == "call":
        return made
    return getattr(here if kind in ("class method", "static method") else made, name)


def placed(ctx, index, layers, kind, name):
    np = lib.NS["np"]
    config = ctx.job["config"]
    hard = config["raise-errors"] == "yes"
    source = placed_source(layers, kind, name)
    env = dict(lib.NS, RESULT=[None], __name__="placed")
    exec(source, env)  # pylint: disable=exec-used
    func = reach(layers, kind, name, env["OUT"][0])
    parts = [f"K{d}" if layer == "class" else f"g{d}.<locals>" for d, layer in enumerate(layers)] + [name]
    for size, good in itertools.product((1, 9), (2, 9)):
        env["RESULT"][0] = np.zeros(good)
        wrong = []
        if kind != "property" and size != 1:
            wrong.append("p")
        if kind != "init" and good != 2 and not (hard and wrong):
            wrong.append("return")
        lib.SINK.start()
        raised = None
        try:
            func(np.zeros(size))
        except Exception as err:  # pylint: disable=broad-except
            raised = err
        text = COLOR.sub("", lib.SINK.stop())
        headers = re.findall(r"=+<asta::(.*?)>=+", text)
        ctx.count("evaluations")
        ctx.outcome("placed")
        error = None
        if bool(wrong and hard) != isinstance(raised, TypeError) or (raised is not None and not (wrong and hard)):
            error = f"raises {raised!r}"
        elif len(headers) != (1 if config["print-passes"] == "yes" else len(wrong)):
            error = f"headers {headers}"
        elif headers:
            ctx.count("distinct_nontrivial")
            if any(re.split(r"[.:]", header)[-1] != f"{name}()" for header in headers):
                error = f"the header does not name {name}: {headers}"
            elif not all(part in header for header in headers for part in parts if "K" in part):
                error = f"the header does not name all of {parts}: {headers}"
        if error:
            ctx.violation({"placed": index, "space": "placed"}, f"[{config}] argument of size {size}, result of size {good}: {error}; in\n{source}")


def run(ctx):
    space = ctx.params["space"]
    if space == "placed":
        for index, program in enumerate(placed_programs(ctx.tier)):
            if ctx.mine():
                placed(ctx, index, *program)
                ctx.sample({"place": program}, 2)
        return
    if space == "nested":
        FUNCTIONS.update({name: make(name) for name in "fgh"})
        for index, call in enumerate(nested_programs(ctx.tier)):
            if ctx.mine():
                nested(ctx, index, call)
        return
    for call in programs.calls(ctx, space, ctx.params.get("family", "Array")):
        decide(ctx, *call)


def replay(case, ctx):
    if "placed" in case:
        placed(ctx, case["placed"], *next(itertools.islice(placed_programs(ctx.tier), case["placed"], None)))
        return
    if "nested" in case:
        FUNCTIONS.update({name: make(name) for name in "fgh"})
        nested(ctx, case["nested"], next(itertools.islice(nested_programs(ctx.tier), case["nested"], None)))
        return
    decide(ctx, *programs.again(ctx, case, ctx.params.get("family", "Array")))
