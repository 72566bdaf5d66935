"""C10: checking is on exactly when config and environment both allow it."""
import os

from mc import lib

LEVEL = "model_checking"
RULE = (
    "every sequence, up to the stated depth, of setting or removing ASTA_TYPECHECK and decorating a "
    "function or a class, for every configuration (on=yes, on=no, no file) x value of the variable "
    "when asta is imported; after each step everything decorated so far is called with a fitting and an "
    "unfitting argument; each edge runs on the real code in a forked process, in lockstep with a model"
)
ASSUMPTIONS = [
    "on is 'yes' or 'no'",
    "the variable is set through os.environ (how a Python program changes its environment)",
]

VALUES = ("1", "0", "", "yes", "01")
MORE = ("True", " 1", "1 ", "2", "-1", "on")


def bounds(tier):
    deep = tier == "thorough"
    return {
        "values": [None] + list(VALUES),
        "values to depth 3": list(VALUES + MORE),
        "depth": 5 if deep else 4,
        "at import": [None, "0", "1", "other"],
        "on": ["yes", "no", "no file"],
    }


def jobs(tier):
    out = []
    for on in ("yes", "no", None):
        for imported in (None, "0", "1", "other"):
            config = None if on is None else {"on": on}
            env = {} if imported is None else {"ASTA_TYPECHECK": imported}
            params = {"on": on or "yes", "imported": imported}
            out += lib.split(2, name=f"{on}/{imported}", config=config, env=env, params=params)
    # Every other value, one step deep
    for on in ("yes", "no"):
        out.append(dict(name=f"values {on}", config={"on": on}, params={"on": on, "imported": None, "values": 1}))
    return out


MADE = []


def decorate_function():
    N = lib.NS

    def func(p: N["Array"][2]) -> N["Array"][-1]:
        return p

    return func, N["typechecked"](func), None


def decorate_class():
    N = lib.NS
    Array = N["Array"]

    class K:
        """Two methods and a property."""

        def f(self, p: Array[2]) -> Array[-1]:
            return p

        @classmethod
        def g(cls, p: Array[2]):
            return p

        @staticmethod
        def h(p: Array[2]):
            return p

    before = dict(K.__dict__)
    return K, N["typechecked"](K), before


def checked(target):
    """Whether an unfitting argument is rejected; fitting ones must always pass."""
    np = lib.NS["np"]
    good, bad = np.zeros(2), np.zeros(3)
    if target(good) is not good:
        return "a fitting argument did not pass"
    got, value = lib.attempt(target, bad)
    if got == "ok" and value is bad:
        return False
    return True if got == "TypeError" else f"unexpected {got}"


def verify_all(state):
    env, made = state
    for (kind, status), (original, result, before) in zip(made, MADE):
        if kind == "function":
            targets = [result]
        else:
            targets = [result().f, result.g, result.h]
        for target in targets:
            got = checked(target)
            if got is not status:
                return f"a {kind} decorated with checking {'on' if status else 'off'}: checked is {got} now"
        if not status:
            if result is not original:
                return f"decorating a {kind} with checking off returned another object"
            if before is not None and any(original.__dict__[k] is not v for k, v in before.items() if k != "__dict__"):
                return "decorating a class with checking off changed its members"
        elif kind == "function" and result is original:
            return "decorating a function with checking on returned it unchanged"
        elif kind == "class" and result is not original:
            return "decorating a class returned another class"
    return None


def step(op, state, on=None):
    env, made = state
    if op == "decorate function" or op == "decorate class":
        kind = op.split()[1]
        MADE.append(decorate_function() if kind == "function" else decorate_class())
        status = ON[0] == "yes" and env in (None, "1")
        made = made + ((kind, status),)
        label = f"decorated {'on' if status else 'off'}"
    elif op == "remove":
        os.environ.pop("ASTA_TYPECHECK", None)
        env, label = None, "environment"
    else:
        os.environ["ASTA_TYPECHECK"] = op[4:]
        env, label = op[4:], "environment"
    state = (env, made)
    return state, label, verify_all(state)


ON = ["yes"]


def ops_for(ctx):
    values = VALUES
    if ctx.params.get("values"):
        values = VALUES + MORE
    return ["decorate function", "decorate class", "remove"] + [f"set {v}" for v in values]


def run(ctx):
    ON[0] = ctx.params["on"]
    if ctx.params.get("values"):
        depth = 3
    else:
        depth = bounds(ctx.tier)["depth"]
    lib.fork_dfs(ctx, ops_for(ctx), depth, step, (ctx.params["imported"], ()))


def replay(case, ctx):
    ON[0] = ctx.params["on"]
    lib.run_history(ctx, ops_for(ctx), case["history"], step, (ctx.params["imported"], ()))
