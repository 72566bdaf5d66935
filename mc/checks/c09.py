"""C09: decorating a class equals decorating each of its methods."""
import itertools

from mc import lib

LEVEL = "exploration"
RULE = (
    "(a) every class made of up to the stated number of members from the stated menu, decorated as a "
    "class (once, twice, or again after its methods were decorated), compared with the same class "
    "undecorated (identity of everything that is no annotated method, receiver, arguments, result) and "
    "with the verdict each member's own annotations give, for every way to reach the member x "
    "fitting/unfitting argument and result; (b) every chain of three classes x kind of method x per "
    "level: absent, plain, calling super, decorated itself, each class decorated or not; (c) every pair of "
    "special methods, reached by their syntax, on the class and a subclass. Non-trivial: "
    "the call reaches an annotated method of a decorated class"
)
ASSUMPTIONS = [
    "members: functions, class/static methods, properties, attributes, nested classes, functions "
    "defined elsewhere, aliases; no abstract methods",
    "what happens inside a nested class is not judged, only that it stays the same class",
]

# name: (source, annotated?) — {n} is the member's number; annotations A{n} are all different.
MENU = {
    "inst": ("    def inst(self, p: A) -> A:\n        return hook(self, p)\n", "inst"),
    "inst_two": ("    def inst_two(self, p: A, q: B = DB) -> A:\n        return hook(self, p)\n", "inst"),
    "only_result": ("    def only_result(self) -> A:\n        return hook(self, None)\n", "result"),
    "cm": ("    @classmethod\n    def cm(cls, p: A) -> A:\n        return hook(cls, p)\n", "class"),
    "sm": ("    @staticmethod\n    def sm(p: A) -> A:\n        return hook(None, p)\n", "static"),
    "sm_self": ("    @staticmethod\n    def sm_self(self: A) -> A:\n        return hook(None, self)\n", "static"),
    "result_cm": ("    @classmethod\n    def result_cm(cls) -> A:\n        return hook(cls, None)\n", "result class"),
    "result_sm": ("    @staticmethod\n    def result_sm() -> A:\n        return hook(None, None)\n", "result static"),
    "keyword": ("    def keyword(self, *, p: A) -> A:\n        return hook(self, p)\n", "keyword"),
    "call": ("    def __call__(self, p: A) -> A:\n        return hook(self, p)\n", "call"),
    "getitem": ("    def __getitem__(self, p: A) -> A:\n        return hook(self, p)\n", "getitem"),
    "done": ("    @typechecked\n    def done(self, p: A) -> A:\n        return hook(self, p)\n", "inst"),
    "done_cm": ("    @classmethod\n    @typechecked\n    def done_cm(cls, p: A) -> A:\n        return hook(cls, p)\n", "class"),
    "done_sm": ("    @staticmethod\n    @typechecked\n    def done_sm(p: A) -> A:\n        return hook(None, p)\n", "static"),
    "free": ("    def free(self, p):\n        return hook(self, p)\n", "free"),
    "free_cm": ("    @classmethod\n    def free_cm(cls, p):\n        return hook(cls, p)\n", "free class"),
    "free_sm": ("    @staticmethod\n    def free_sm(p):\n        return hook(None, p)\n", "free static"),
    "prop": ("    @property\n    def prop(self) -> A:\n        return hook(self, None)\n", "untouched"),
    "attr": ("    attr: int = 3\n    other = ARRAY\n", "untouched"),
    "ext": ("    ext = external\n", "untouched"),
    "ext_sm": ("    ext_sm = staticmethod(external)\n", "untouched"),
    "borrowed": ("    borrowed = KB.f\n    borrowed_cm = KB.__dict__['c']\n    borrowed_local = KBL\n", "untouched"),
    "ext_ann": ("    ext_ann = ARRAYTYPE\n", "untouched"),
    "lam": ("    lam = lambda self, p: hook(self, p)\n", "free"),
    "alias": ("    def target(self, p: A) -> A:\n        return hook(self, p)\n    alias = target\n", "inst"),
    "nested": ("    class nested:\n        x: int = 1\n        def f(self, p: A):\n            return p\n", "same"),
    "private": ("    def __private(self, p: A) -> A:\n        return hook(self, p)\n", "private"),
    "slot": ("    __slots__ = ()\n", "untouched"),
    "local_wrapped": ("    local_wrapped = partial(external, 1)\n", "untouched"),
}


def bounds(tier):
    deep = tier == "thorough"
    return {"menu": list(MENU), "members": 4 if deep else 3, "decorations": ["once", "twice", "in a function"],
            "special methods": list(SPECIAL),
            "chain": "3 classes x 3 kinds x 5 forms per level x decorated or not"}


def jobs(tier):
    out = lib.split(8, name="members", params={"space": "members"})
    out += lib.split(4, name="chains", params={"space": "chains"})
    out += lib.split(2, name="special", params={"space": "special"})
    out += lib.split(1, name="quiet", params={"space": "members", "size": 1}, config={"print-passes": "no"})
    return out


SEEN = []
SCRIPT = [None]


def hook(receiver, argument):
    SEEN.append((receiver, argument))
    return SCRIPT[0](argument)


def external(p):
    return p


class KB:
    """Its name starts like that of the class under test."""

    def f(self, p: int) -> int:
        return p

    @classmethod
    def c(cls, p: int) -> int:
        return p


KB.__qualname__, KB.f.__qualname__, KB.c.__func__.__qualname__ = "KB", "KB.f", "KB.c"


def KBL(self, p: int) -> int:
    return p


KBL.__qualname__ = "outer.<locals>.KB.f"


def env_for():
    import functools

    N = lib.NS
    np, Array = N["np"], N["Array"]
    external.__annotations__ = {"p": Array[9]}
    return {
        "typechecked": N["typechecked"], "hook": hook, "A": Array[2, -1], "B": Array[float, 5],
        "DB": np.zeros(5), "ARRAY": np.zeros(3), "ARRAYTYPE": Array[3], "external": external,
        "partial": functools.partial, "KB": KB, "KBL": KBL,
    }


def class_source(members, decoration):
    body = "".join(MENU[m][0] for m in members) or "    pass\n"
    if decoration == "in a function":
        inner = "".join("    " + line + "\n" for line in ("class K:\n    'doc'\n" + body).splitlines())
        return "def outer():\n" + inner + "    return K\nK = outer()\n"
    return "class K:\n    'doc'\n" + body


def build(members, decoration):
    env = env_for()
    source = class_source(members, decoration)
    exec(source, env)  # pylint: disable=exec-used
    K = env["K"]
    before = dict(K.__dict__)
    facts = (K.__name__, K.__qualname__, K.__module__, K.__mro__, K.__doc__)
    again = lib.NS["typechecked"](K)
    error = None
    if again is not K:
        error = f"typechecked(K) is {again!r}, another object"
    if decoration == "twice" and lib.NS["typechecked"](K) is not K:
        error = "the second typechecked(K) is another object"
    if (K.__name__, K.__qualname__, K.__module__, K.__mro__, K.__doc__) != facts:
        error = "name, module, bases or doc of the class changed"
    if list(before) != list(K.__dict__):
        error = f"the members changed: {list(before)} became {list(K.__dict__)}"
    return K, before, source, error


def unchanged(K, before, name):
    keys = {"attr": ["attr", "other"], "borrowed": ["borrowed", "borrowed_cm", "borrowed_local"], "slot": ["__slots__"]}.get(name, [name])
    for key in keys:
        if K.__dict__.get(key) is not before[key]:
            return f"the member '{key}' changed"
    return None


def reaches(kind, name, K, Sub):
    obj, sub = K(), Sub()
    if kind == "keyword":
        return [
            (lambda p: obj.keyword(p=p), (), obj), (lambda p: K.keyword(obj, p=p), (), obj), (lambda p: sub.keyword(p=p), (), sub),
        ]
    if kind in ("inst", "free", "private", "result"):
        attr = "_K__private" if kind == "private" else name
        return [
            (getattr(obj, attr), (), obj), (getattr(K, attr), (obj,), obj), (getattr(sub, attr), (), sub),
            (getattr(Sub, attr), (sub,), sub),
        ]
    if kind == "call":
        return [(obj, (), obj), (sub, (), sub), (K.__call__, (obj,), obj)]
    if kind == "getitem":
        return [(obj.__getitem__, (), obj), (lambda p: obj[p], (), obj), (lambda p: sub[p], (), sub)]
    if kind in ("class", "free class", "result class"):
        return [(getattr(K, name), (), K), (getattr(obj, name), (), K), (getattr(Sub, name), (), Sub),
                (getattr(sub, name), (), Sub)]
    return [(getattr(K, name), (), None), (getattr(obj, name), (), None), (getattr(Sub, name), (), None)]


def decide_member(ctx, members, decoration, name, K, before, source):
    kind = MENU[name][1]
    np = lib.NS["np"]
    problem = None
    label = "unchanged"
    if kind in ("untouched", "same"):
        ctx.count("evaluations")
        problem = unchanged(K, before, name)
        if name == "prop" and not problem:
            SCRIPT[0] = lambda _p: "anything"
            if K().prop != "anything":
                problem = "the property changed its behaviour"
        ctx.outcome("unchanged")
        return report(ctx, members, decoration, name, problem, source)
    if kind.startswith("free"):
        problem = unchanged(K, before, name)
        if problem:
            return report(ctx, members, decoration, name, problem, source)
    Sub = type("Sub", (K,), {})
    good, bad = np.zeros((2, 3)), np.zeros((3, 2))
    for index, (target, prefix, receiver) in enumerate(reaches(kind, name, K, Sub)):
        for arg, result in itertools.product((good, bad), ("argument", "good", "bad", "raises")):
            value = {"argument": arg, "good": np.ones((2, 1)), "bad": "bad"}.get(result)
            raised = KeyError("own")

            def script(_argument):
                if result == "raises":
                    raise raised
                return value

            SCRIPT[0] = script
            SEEN.clear()
            args = prefix + (() if kind.startswith("result") else (arg,))
            try:
                got = ("returns", target(*args))
            except Exception as err:  # pylint: disable=broad-except
                got = ("raises", err)
            arg_fits = kind.startswith("free") or kind.startswith("result") or arg is good
            result_fits = kind.startswith("free") or result == "good" or (result == "argument" and arg is good)
            if not arg_fits:
                fine = not SEEN and got[0] == "raises" and isinstance(got[1], TypeError)
                label = "argument rejected"
            else:
                fine = len(SEEN) == 1 and SEEN[0][0] is receiver
                fine = fine and (kind.startswith("result") or SEEN[0][1] is arg)
                if result == "raises":
                    fine = fine and got[0] == "raises" and got[1] is raised
                    label = "raises"
                elif result_fits:
                    fine = fine and got[0] == "returns" and got[1] is value
                    label = "accepted"
                else:
                    fine = fine and got[0] == "raises" and isinstance(got[1], TypeError)
                    label = "result rejected"
            ctx.count("evaluations")
            ctx.outcome(label)
            if not kind.startswith("free"):
                ctx.count("distinct_nontrivial")
            if not fine:
                problem = (
                    f"reach {index}, argument {'fits' if arg is good else 'does not fit'}, result "
                    f"{result}: should be {label}, got {got} and body runs {len(SEEN)}"
                )
                return report(ctx, members, decoration, name, problem, source)
    ctx.sample({"members": members, "decoration": decoration, "member": name, "last": label})
    return None


def report(ctx, members, decoration, name, problem, source):
    if problem:
        ctx.violation(
            {"members": members, "decoration": decoration, "member": name},
            f"class decorated {decoration}, member '{name}': {problem}\n{source}",
        )


def run_members(ctx):
    size = ctx.params.get("size") or bounds(ctx.tier)["members"]
    for n in range(1, size + 1):
        for members in itertools.permutations(MENU, n) if n < 3 else itertools.combinations(MENU, n):
            if not ctx.mine():
                continue
            for decoration in ("once", "twice", "in a function"):
                one_class(ctx, members, decoration)


def one_class(ctx, members, decoration):
    K, before, source, error = build(members, decoration)
    ctx.count("classes")
    report(ctx, members, decoration, "class", error, source)
    for name in members:
        decide_member(ctx, members, decoration, name, K, before, source)


FORMS = ("absent", "plain", "super", "done", "done super")
LEVELS = ("(2,)", "(-1,)", "(..., 2)")


def chain_source(kind, forms, decorated):
    source = ""
    for level, (form, deco) in enumerate(zip(forms, decorated)):
        name = "ABC"[level]
        source += "@typechecked\n" * deco
        source += f"class {name}{'(' + 'ABC'[level - 1] + ')' if level else ''}:\n"
        if form == "absent":
            source += "    pass\n"
            continue
        line = {"inst": "", "class": "    @classmethod\n"}[kind]
        first = {"inst": "self", "class": "cls"}[kind]
        source += line
        if form.startswith("done"):
            source += "    @typechecked\n"
        source += f"    def f({first}, p: A{level}) -> A{level}:\n        note({level}, {first}, p)\n"
        source += "        return super().f(p)\n" if "super" in form else "        return RESULT[0]\n"
    return source


def chain_expected(forms, decorated, shape, result_shape, fits):
    """Body runs and verdict of C().f(value)."""
    runs = []

    def call(level):
        while level >= 0 and forms[level] == "absent":
            level -= 1
        if level < 0:
            return "none"
        checked = decorated[level] or forms[level].startswith("done")
        if checked and not fits(level, shape):
            return "TypeError"
        runs.append(level)
        out = call(level - 1) if "super" in forms[level] else "ok"
        if out != "ok":
            return out
        if checked and not fits(level, result_shape):
            return "TypeError"
        return "ok"

    return call(2), runs


def decide_chain(ctx, kind, forms, decorated):
    from mc import model

    np, Array = lib.NS["np"], lib.NS["Array"]
    patterns = [(2,), (-1,), (..., 2)]
    source = chain_source(kind, forms, decorated)
    runs = []
    result = [None]

    def note(level, receiver, p):
        runs.append((level, receiver, p))

    env = {"typechecked": lib.NS["typechecked"], "note": note, "RESULT": result}
    for level, pattern in enumerate(patterns):
        env[f"A{level}"] = Array[pattern]
    exec(source, env)  # pylint: disable=exec-used
    C = env["C"]
    if not hasattr(C, "f"):
        return
    obj = C()
    if kind == "inst":
        reach = [(obj.f, obj), (lambda p: C.f(obj, p), obj)]
    else:
        reach = [(C.f, C), (obj.f, C)]

    def fits(level, shape):
        return model.literal_accepts(patterns[level], shape)

    for (target, receiver), shape, result_shape in itertools.product(
        reach, ((2,), (3,), (1, 2), ()), ((2,), (3,), (1, 2))
    ):
        want, want_runs = chain_expected(forms, decorated, shape, result_shape, fits)
        if want == "none":
            continue
        value = np.zeros(shape)
        result[0] = np.zeros(result_shape)
        runs.clear()
        try:
            got = target(value)
            verdict = "ok" if got is result[0] else f"returned {got!r}"
        except Exception as err:  # pylint: disable=broad-except
            verdict = type(err).__name__
        ctx.count("evaluations")
        ctx.outcome(f"chain {want}")
        if any(decorated):
            ctx.count("distinct_nontrivial")
        fine = verdict == want and [r[0] for r in runs] == want_runs
        fine = fine and all(r[1] is receiver and r[2] is value for r in runs)
        if not fine:
            ctx.violation(
                {"kind": kind, "forms": forms, "decorated": decorated},
                f"C().f with shape {shape} and result {result_shape}: {verdict}, bodies run "
                f"{[r[0] for r in runs]}; should be {want}, bodies {want_runs}\n{source}",
            )


def run_chains(ctx):
    for kind in ("inst", "class"):
        for forms in itertools.product(FORMS, repeat=3):
            lowest = next((f for f in forms if f != "absent"), None)
            if lowest is None or "super" in lowest:
                continue
            for decorated in itertools.product((0, 1), repeat=3):
                if ctx.mine():
                    ctx.count("classes", 3)
                    decide_chain(ctx, kind, forms, decorated)


def _setitem(k, a):
    k[0] = a


def _setattr(k, a):
    k.field = a


def _iadd(k, a):
    k += a
    return k


def _with(k):
    with k as got:
        return got


# name: (parameters with annotations, what the body does, how the class or its instance and the argument are used,
# whether the annotation is on the result)
SPECIAL = {
    "__init__": ("self, p: A", "return None", lambda K, a: K(a), False),
    "__new__": ("cls, p: A", "return object.__new__(cls)", lambda K, a: K(a), False),
    "__init_subclass__": ("cls, p: A = DA", "return None", lambda K, a: type("D", (K,), {}, p=a), False),
    "__class_getitem__": ("cls, p: A", "return p", lambda K, a: K[a], False),
    "__call__": ("self, p: A", "return p", lambda K, a: make(K)(a), False),
    "__getitem__": ("self, p: A", "return p", lambda K, a: make(K)[a], False),
    "__delitem__": ("self, p: A", "return p", lambda K, a: make(K).__delitem__(a), False),
    "__contains__": ("self, p: A", "return True", lambda K, a: a in make(K), False),
    "__add__": ("self, p: A", "return p", lambda K, a: make(K) + a, False),
    "__iadd__": ("self, p: A", "return p", lambda K, a: _iadd(make(K), a), False),
    "__matmul__": ("self, p: A", "return p", lambda K, a: make(K) @ a, False),
    "__eq__": ("self, p: A", "return True", lambda K, a: make(K) == a, False),
    "__lt__": ("self, p: A", "return True", lambda K, a: make(K) < a, False),
    "__setitem__": ("self, index: int, p: A", "return None", lambda K, a: _setitem(make(K), a), False),
    "__setattr__": ("self, name: str, p: A", "return None", lambda K, a: _setattr(make(K), a), False),
    "__getattr__": ("self, name: str", "return RESULT[0]", lambda K, a: make(K).missing, True),
    "__next__": ("self", "return RESULT[0]", lambda K, a: next(make(K)), True),
    "__neg__": ("self", "return RESULT[0]", lambda K, a: -make(K), True),
    "__enter__": ("self", "return RESULT[0]", lambda K, a: _with(make(K)), True),
    "__missing__": ("self, p: A", "return p", lambda K, a: make(K).__missing__(a), False),
    "_private": ("self, p: A", "return p", lambda K, a: make(K)._private(a), False),  # pylint: disable=protected-access
    "__mangled": ("self, p: A", "return p", lambda K, a: getattr(make(K), "_K__mangled")(a), False),
}
RESULT = [None]


def make(K):
    """An instance, with an argument for the constructor where it takes one."""
    good = lib.NS["np"].zeros((2, 3))
    takes = any(n in c.__dict__ for c in K.__mro__[:-1] for n in ("__init__", "__new__"))
    made = K(good) if takes else K()
    SEEN.clear()
    return made


def special_source(members):
    source = "class K:\n"
    for name in members:
        params, body, _, on_result = SPECIAL[name]
        arrow = " -> A" if on_result else ""
        value = "None" if on_result else "p"
        source += f"    def {name}({params}){arrow}:\n        hook({name!r}, {value})\n        {body}\n"
    if "__enter__" in members:
        source += "    def __exit__(self, *rest):\n        return None\n"
    return source


def decide_special(ctx, members, decoration):
    env = env_for()
    np = lib.NS["np"]
    good, bad = np.zeros((2, 3)), np.zeros((3, 2))
    env.update(RESULT=RESULT, DA=good)
    source = special_source(members)
    SCRIPT[0] = lambda argument: None
    exec(source, env)  # pylint: disable=exec-used
    K = env["K"]
    for _ in range(2 if decoration == "twice" else 1):
        K = lib.NS["typechecked"](K)
    Sub = type("Sub", (K,), {})
    for name in members:
        on_result = SPECIAL[name][3]
        for cls, value in itertools.product((K, Sub), (good, bad, good, "no array")):
            ok = value is good
            SEEN.clear()
            RESULT[0] = value
            got = lib.typechecked_call(SPECIAL[name][2], cls, value)
            runs = [argument for receiver, argument in SEEN if receiver == name]
            want = "ok" if ok else "TypeError"
            fine = got == want and len(runs) == (1 if ok or on_result else 0) and (on_result or not ok or runs[0] is value)
            ctx.count("evaluations")
            ctx.count("distinct_nontrivial")
            ctx.outcome(f"special {want}")
            if not fine:
                ctx.violation(
                    {"special": members, "decoration": decoration},
                    f"class decorated {decoration}: {name} of {cls.__name__} with {'a fitting' if ok else 'another'} value gave "
                    f"{got} with {len(runs)} body runs, should be {want}\n{source}",
                )
                return


def run_special(ctx):
    for n in (1, 2):
        for members in itertools.permutations(SPECIAL, n):
            if "__init__" in members and "__new__" in members:
                continue
            for decoration in ("once", "twice"):
                if ctx.mine():
                    ctx.count("classes")
                    decide_special(ctx, members, decoration)


def run(ctx):
    if ctx.params["space"] == "special":
        run_special(ctx)
    elif ctx.params["space"] == "members":
        run_members(ctx)
    else:
        run_chains(ctx)


def replay(case, ctx):
    if "special" in case:
        decide_special(ctx, tuple(case["special"]), case["decoration"])
    elif "members" in case:
        one_class(ctx, tuple(case["members"]), case["decoration"])
    else:
        decide_chain(ctx, case["kind"], tuple(case["forms"]), tuple(case["decorated"]))
