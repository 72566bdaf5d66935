"""C19: missing backends never break the others and fail only when used."""
import itertools

from mc import grammar as g
from mc import lib, programs

LEVEL = "exploration"
RULE = (
    "every subset of {TensorFlow, PyTorch} (missing, or there but failing to import): every use of every "
    "missing class, alone and in every order of two uses, must raise ImportError; for the installed libraries "
    "the same batteries of isinstance checks, Scalar checks and type-checked calls as with everything "
    "installed, against the model. Non-trivial: uses of missing classes"
)
ASSUMPTIONS = [
    "PyTorch is a stand-in module (not installed); missing libraries are blocked at import",
    "comparisons are those with the missing class on the left",
]

CLASSES = {"tf": "TFTensor", "torch": "Tensor"}
ENVIRONMENTS = ["np", "tf", "torch", "tf+torch"]


def bounds(tier):
    return {"environments": ENVIRONMENTS, "missing by": ["no such module", "ImportError inside"], "uses": len(uses("Tensor")),
            "battery": "annotations and values of C12's single space" + ("" if tier == "thorough" else ", every third annotation")}


def jobs(tier):
    out = []
    for backend in ENVIRONMENTS:
        for broken in (False, True) if backend != "tf+torch" else (False,):
            if backend != "tf+torch":
                for on in ("yes", "no"):
                    out.append(dict(name="uses", backend=backend, broken=broken, params={"space": "uses"},
                                    config={"raise-errors": "yes" if on == "yes" else "no"}))
                out.append(dict(name="off", backend=backend, broken=broken, params={"space": "off"}, config={"on": "no"}))
            if not broken or tier == "thorough":
                out += lib.split(3, name="battery", backend=backend, broken=broken, params={"space": "battery"})
    return out


# ------------------------------------------------------------ missing classes


VALUES = ["None", "3", "1.5", "'x'", "np.zeros(2)", "np.zeros(())", "np.zeros((2, 3))", "[np.zeros(2)]", "object()", "_", "Array", "int"]


def called(wrap, value, back=False, keyword=False):
    """A type-checked call annotated with the class (inside ``wrap``)."""
    def use(env):
        ran = []

        def func(p):
            ran.append(1)
            return p

        def result():
            return eval(value, env)  # pylint: disable=eval-used

        annotation = eval(wrap, env)  # pylint: disable=eval-used
        if back:
            result.__annotations__ = {"return": annotation}
            return lib.NS["typechecked"](result)()
        func.__annotations__ = {"p": annotation}
        func = lib.NS["typechecked"](func)
        given = eval(value, env)  # pylint: disable=eval-used
        try:
            return func(p=given) if keyword else func(given)
        finally:
            if ran:
                raise AssertionError("the body ran")

    return use


def uses(name):
    """label -> source to evaluate, or function; ``_`` is the missing class."""
    out = {}
    for item in ("1", "2, 3", "(2, 3)", "...", "()", "None", "Scalar", "-1, ...", "float", "int, 2", "float, ...", "X", "X, X + 1",
                 "{'tag': 1}", "float, 2, {'tag': X}", "np.dtype('float64')", "object()", "'x'", "D", "W", "*W, 1"):
        out[f"_[{item}]"] = f"_[{item}]"
    for value in VALUES:
        out[f"isinstance({value}, _)"] = f"isinstance({value}, _)"
        out[f"_ == {value}"] = f"_ == ({value})"
        out[f"_ != {value}"] = f"_ != ({value})"
    out["isinstance(v, (int, _))"] = "isinstance('x', (int, _))"
    out["_ in [0]"] = "_ in [0]"
    out["_ == Array[1]"] = "_ == Array[1]"
    for text in ("repr(_)", "str(_)", "f'{_}'", "'%s' % _", "'{}'.format([_])", "print(_)"):
        out[text] = text
    for value in VALUES:
        out[f"f(p: _) with {value}"] = called("_", value)
        out[f"f() -> _ with {value}"] = called("_", value, back=True)
    out["f(p: _) by keyword"] = called("_", "np.zeros(2)", keyword=True)
    out["List[_]"] = called("List[_]", "[np.zeros(2)]")
    out["Tuple[_, ...]"] = called("Tuple[_, ...]", "(3,)")
    out["Tuple[int, _]"] = called("Tuple[int, _]", "(3, np.zeros(2))")
    out["Dict[str, _]"] = called("Dict[str, _]", "{'a': 3}")
    out["Sequence[_]"] = called("Sequence[_]", "[3]")
    out["List[_] result"] = called("List[_]", "[np.zeros(2)]", back=True)
    return out


def use(ctx, backend, name, label, action, before):
    cls = getattr(lib.NS["asta"], name)
    env = {**lib.NS, "_": cls, "D": lib.NS["dims"].D, "W": lib.NS["shapes"].W}
    try:
        if callable(action):
            action(env)
        else:
            eval(action, env)  # pylint: disable=eval-used
        got = "returned"
    except ImportError:
        got = "ImportError"
    except lib.Alarm:
        raise
    except BaseException as err:  # pylint: disable=broad-except
        got = f"raised {type(err).__name__}: {err}"
    ctx.count("evaluations")
    ctx.count("distinct_nontrivial")
    ctx.outcome(got.split(":")[0])
    if got != "ImportError":
        ctx.violation(
            {"class": name, "use": label, "before": before},
            f"[installed: {backend}] with _ = {name}: {label} {got}, should raise ImportError"
            + (f" (after {before})" if before else ""),
        )


def run_uses(ctx):
    backend = ctx.job["backend"]
    missing = [c for short, c in CLASSES.items() if short not in backend.split("+")]
    for name in missing:
        from_asta = {}
        status, _ = lib.attempt(exec, f"from asta import {name}; from asta.switchboard import {name} as other", from_asta)
        if status != "ok" or from_asta[name] is not from_asta["other"]:
            ctx.violation({"import": name}, f"[installed: {backend}] importing {name} failed: {status}")
            continue
        table = uses(name)
        for label, action in table.items():
            use(ctx, backend, name, label, action, None)
        ctx.sample({"class": name, "installed": backend, "use": "List[_]"})
        for one, two in itertools.product(table, repeat=2):
            ctx.count("transitions")
            use(ctx, backend, name, one, table[one], None)
            use(ctx, backend, name, two, table[two], one)
        for other in CLASSES.values():
            if other != name:
                use(ctx, backend, name, f"_ == {other}", f"_ == {other}", None)


def run_off(ctx):
    """With checking off an annotation with the bare class is no use of it."""
    backend = ctx.job["backend"]
    for short, name in CLASSES.items():
        if short in backend.split("+"):
            continue
        cls = getattr(lib.NS["asta"], name)

        def func(p):
            return p

        func.__annotations__ = {"p": cls, "return": cls}
        status, got = lib.attempt(lambda func=func: lib.NS["typechecked"](func)(3))
        ctx.count("evaluations")
        ctx.count("distinct_nontrivial")
        if (status, got) != ("ok", 3):
            ctx.violation({"off": name}, f"[installed: {backend}, on=no] a function annotated with {name} {status}: {got}")


# ------------------------------------------------------------ what is installed

SCALARS = {
    "1": True, "True": True, "1.5": True, "1j": True, "'ab'": True, "b'a'": True, "datetime.datetime(2020, 1, 1)": True,
    "datetime.timedelta(1)": True, "None": False, "[1]": False, "()": False, "{}": False, "object()": False, "int": False,
    "np.zeros(())": True, "np.zeros(2)": False, "np.zeros((1, 1))": False, "np.zeros(0)": False, "np.float64(1)": True,
    "np.array('x')": True, "Scalar": False, "Array": False, "...": False,
}
OWN_SCALARS = {
    "tf": {"tf.zeros(())": True, "tf.zeros(2)": False, "tf.zeros((1, 1))": False, "tf.constant('x')": True, "tf.float32": False},
    "torch": {"torch.zeros(())": True, "torch.zeros(2)": False, "torch.zeros((1, 1))": False, "torch.float32": False},
}


def run_battery(ctx):
    installed = [s for s in ctx.job["backend"].split("+") if s in CLASSES]
    table = dict(SCALARS)
    for short in installed:
        table.update(OWN_SCALARS[short])
    for text, want in table.items():
        got = lib.check_isinstance(lib.ev(text), lib.NS["Scalar"])
        ctx.count("evaluations")
        if got is not want:
            ctx.violation({"scalar": text}, f"[installed: {ctx.job['backend']}] isinstance({text}, Scalar) is {got}, should be {want}")
    cfg = g.Cfg(ctx.job.get("config", {}))
    for family in ["Array"] + [CLASSES[s] for s in installed]:
        last = None
        kept = -1
        for case, nodes, returns, func, sources, result in programs.calls(ctx, "single", family):
            if (case["index"], case["place"]) != last:
                last = (case["index"], case["place"])
                kept += 1
            if ctx.tier == "quick" and family == "Array" and (kept // 2) % 3:
                continue
            decide(ctx, {"family": family, **case}, nodes, returns, func, sources, result, cfg)


def decide(ctx, case, nodes, returns, func, sources, result, cfg):
    want, seen, args, value = g.judge(func, nodes, sources, returns, result, cfg)
    ctx.count("evaluations")
    ctx.outcome(want)
    error = None
    if seen[:3] != g.HARD[want]:
        error = f"should be {want}: {seen[0]}, body runs {seen[1]}"
    node = (nodes or [returns])[0]
    plain = isinstance(node, g.Arr) and not any(t in node.source for t in ("D", "U", "V", "W"))
    if not error and plain:
        thing = args[0] if nodes else value
        got = lib.check_isinstance(thing, node.annotation())
        if got is not (want == "accepted"):
            error = f"isinstance is {got}, should be {want == 'accepted'}"
    if error:
        ctx.violation(case, f"[installed: {ctx.job['backend']}] {programs.describe(nodes, returns, sources, result)}: {error}")


def run(ctx):
    {"uses": run_uses, "off": run_off, "battery": run_battery}[ctx.params["space"]](ctx)


def replay(case, ctx):
    if "use" in case:
        table = {**uses(case["class"]), **{f"_ == {c}": f"_ == {c}" for c in CLASSES.values()}}
        if case["before"]:
            use(ctx, ctx.job["backend"], case["class"], case["before"], table[case["before"]], None)
        use(ctx, ctx.job["backend"], case["class"], case["use"], table[case["use"]], case["before"])
    elif "index" in case:
        family = case.pop("family")
        _, nodes, returns, func, sources, result = programs.again(ctx, case, family)
        decide(ctx, {"family": family, **case}, nodes, returns, func, sources, result, g.Cfg(ctx.job.get("config", {})))
    else:
        run(ctx)
