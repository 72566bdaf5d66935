"""C20: concurrent type-checked calls do not influence each other."""
import base64
import gc
import itertools
import json
import os
import pickle
import sys
import threading
import types

from mc import lib

LEVEL = "exploration"
RULE = (
    "every pair of operations from the stated list (sharing functions, annotations and symbols), each "
    "schedule in a forked process of its own starting from the state right after import: real threads under "
    "a controlled scheduler whose switch points are the executed lines (or functions entered, or bytecodes) "
    "of asta, all schedules up to the preemption bound; outcome of every operation against what it is alone. "
    "Non-trivial: schedules with a preemption inside asta"
)
ASSUMPTIONS = [
    "threads are switched between lines (thorough: bytecodes) of asta's own files, not inside sympy or numpy",
    "a thread blocked on a lock of its own accord lets the others run on (not controlled from then on)",
]
PATIENCE = 0.5


def bounds(tier):
    out = {
        "operations": len(list(operations())),
        "bound 1 at lines": "all ordered pairs of operations" if tier == "thorough" else [list(p) for p in PAIRS],
        f"bound {2 if tier == 'quick' else 3} at lines": [list(p) for p in TINY],
        "bound 2 at functions entered": [list(p) for p in DEEP + (DEEPER if tier == "thorough" else [])],
    }
    if tier == "thorough":
        out["bound 1 at bytecodes"] = "the listed pairs"
        out["bound 2 at lines too"] = [list(p) for p in DEEP]
        out["three threads, bound 2 at functions entered"] = [list(t) for t in TRIPLES]
    return out


# ------------------------------------------------------------ operations


class World:
    """Fresh functions and annotations for one execution, shared by its threads."""

    def __init__(self):
        ns = lib.NS
        np, dims, shapes, typechecked = ns["np"], ns["dims"], ns["shapes"], ns["typechecked"]
        Array, List, Union, Optional, X, Y = (ns[n] for n in "Array List Union Optional X Y".split())
        self.np, self.dims, self.shapes, self.Array, self.X, self.ns = np, dims, shapes, Array, X, ns
        self.local = threading.local()
        self.D, self.U, self.W = dims.D, dims.U, shapes.W
        dims.D = 2
        shapes.W = (2, 3)
        self.shared = Array[X, X]

        def ran(value):
            self.local.runs = getattr(self.local, "runs", 0) + 1
            return value

        @typechecked
        def pair(a: Array[X], b: Array[X + 1]) -> Array[X]:
            return ran(a)

        @typechecked
        def square(a: self.shared) -> Array[X]:
            return ran(a[0])

        @typechecked
        def back(a: Array[X]) -> Array[X + 1]:
            return ran(np.zeros(a.shape[0] + (1 if a[0] == 0 else 0)))

        @typechecked
        def union(a: Union[Array[1, 2], Array[X], None]) -> Optional[Array[X]]:
            return ran(a)

        @typechecked
        def many(a: List[Array[X]], b: Array[X]) -> None:
            return ran(None)

        @typechecked
        def dim(a: Array[self.D, X], b: Array[2 * self.D]) -> None:
            return ran(None)

        @typechecked
        def unset(a: Array[self.U]) -> None:
            return ran(None)

        @typechecked
        def shape(a: Array[self.W], b: Array[(1,) + self.W]) -> None:
            return ran(None)

        @typechecked
        def attribute(a: Array[X, {"ndim": X}]) -> None:
            return ran(None)

        @typechecked
        def outer(a: Array[X], b: Array[Y]) -> Array[X]:
            pair(b, np.zeros(b.shape[0] + 1))
            return ran(a)

        @typechecked
        def down(a: Array[X], n: int) -> Array[X]:
            return ran(down(np.zeros(a.shape[0] + 1), n - 1)[:-1] if n else a)

        @typechecked
        def kinds(a: Array[str], b: Array[float, ...], c: Array[bytes, 2]) -> None:
            return ran(None)

        for name, func in list(locals().items()):
            if callable(func) and name not in ("typechecked", "ran"):
                setattr(self, name, func)

    def z(self, *shape, dtype=float):
        return self.np.zeros(shape, dtype=dtype)

    def call(self, func, *args, **kwargs):
        self.local.runs = 0
        got = lib.attempt(func, *args, **kwargs)
        return got[0], self.local.runs


def operations():
    """(name, function of the world, outcome alone)."""
    ok, bad, late = ("ok", 1), ("TypeError", 0), ("TypeError", 1)
    yield "pair good", lambda w: w.call(w.pair, w.z(2), w.z(3)), ok
    yield "pair good 5", lambda w: w.call(w.pair, w.z(5), w.z(6)), ok
    yield "pair bad", lambda w: w.call(w.pair, w.z(2), w.z(2)), bad
    yield "square good", lambda w: w.call(w.square, w.z(3, 3)), ok
    yield "square bad", lambda w: w.call(w.square, w.z(3, 4)), bad
    yield "isinstance", lambda w: (isinstance(w.z(4, 4), w.shared), isinstance(w.z(4, 5), w.shared)), (True, False)
    yield "isinstance Array", lambda w: (isinstance(w.z(4), w.Array[float]), isinstance(w.z(4), w.Array[int, 4])), (True, False)
    yield "back good", lambda w: w.call(w.back, w.z(2)), ok
    yield "back bad", lambda w: w.call(w.back, w.z(2) + 1), late
    yield "union good", lambda w: w.call(w.union, w.z(7)), ok
    yield "union bad", lambda w: w.call(w.union, w.z(7, 7)), bad
    yield "many good", lambda w: w.call(w.many, [w.z(2), w.z(2)], w.z(2)), ok
    yield "many bad", lambda w: w.call(w.many, [w.z(2), w.z(3)], w.z(2)), bad
    yield "dim good", lambda w: w.call(w.dim, w.z(2, 9), w.z(4)), ok
    yield "dim bad", lambda w: w.call(w.dim, w.z(2, 9), w.z(5)), bad
    yield "unset", lambda w: w.call(w.unset, w.z(2)), bad
    yield "shape good", lambda w: w.call(w.shape, w.z(2, 3), w.z(1, 2, 3)), ok
    yield "shape bad", lambda w: w.call(w.shape, w.z(2, 3), w.z(2, 3, 1)), bad
    yield "attribute", lambda w: (w.call(w.attribute, w.z(1)), w.call(w.attribute, w.z(2))), (ok, bad)
    yield "outer good", lambda w: w.call(w.outer, w.z(2), w.z(4)), ("ok", 2)
    yield "recursion", lambda w: w.call(w.down, w.z(2), 2), ("ok", 3)
    yield "kinds good", lambda w: w.call(w.kinds, w.z(2, dtype="U3"), w.z(2), w.z(2, dtype="S2")), ok
    yield "kinds bad", lambda w: w.call(w.kinds, w.z(2, dtype="S3"), w.z(2), w.z(2, dtype="S2")), bad
    yield "create", create, (True, False, True, True, True)
    yield "derive", derive, (True, False, True, True, False, False)
    yield "create typing", create_typing, (True, False, ok, bad)
    yield "decorate", decorate, (ok, bad)
    yield "decorate class", decorate_class, (("ok", None), "TypeError")
    yield "malformed", lambda w: lib.attempt(lambda: w.Array[2, "x"])[0], "TypeError"
    yield "read name", lambda w: isinstance(w.z(6), w.Array[w.dims.N]), True
    yield "set name", set_name, (ok, bad)
    yield "read shape", lambda w: w.shapes.M is not None, True
    yield "set shape", set_shape, (ok, bad)
    yield "touch name", lambda w: (lambda v: v == 6 or bool(getattr(v, "free_symbols", ())))(w.dims.K), True
    yield "give name", lambda w: (setattr(w.dims, "K", 6), w.dims.K, w.dims.K), (None, 6, 6)
    yield "touch shape", lambda w: w.shapes.K is not None, True
    yield "give shape", lambda w: (setattr(w.shapes, "K", (4, 5)), w.shapes.K, w.shapes.K), (None, (4, 5), (4, 5))
    yield "assign other", lambda w: (setattr(w.dims, "Other", 9), w.dims.Other), (None, 9)


def create(w):
    one = w.Array[float][2, w.X]
    two = w.Array[float, 2, w.X]
    return (
        isinstance(w.z(2, 5), one), isinstance(w.z(3, 5), one), one == two, hash(one) == hash(two),
        isinstance(w.z(2, 5), w.Array[..., w.X]),
    )


def derive(w):
    """Annotations made from other annotations, the last one with everything."""
    one, two = w.Array[float], w.Array[int, {"ndim": 1}]
    three = w.Array[3]
    return (
        isinstance(w.z(2), one[2]), isinstance(w.z(2, dtype=int), one[2]), isinstance(w.z(2, 2), one[2, 2]),
        isinstance(w.z(3, dtype=int), three[int]), isinstance(w.z(2, 2, dtype=int), two[2, 2]), isinstance(w.z(3), two[3]),
    )


def create_typing(w):
    List, Union = w.ns["List"], w.ns["Union"]

    @w.ns["typechecked"]
    def func(a: List[w.Array[w.X, 2]], b: Union[w.Array[3], w.Array[w.X]]) -> None:
        w.local.runs = getattr(w.local, "runs", 0) + 1

    kept = List[w.Array[w.X, 2]].__args__[0]
    return (
        isinstance(w.z(3, 2), kept), isinstance(w.z(2, 3), kept), w.call(func, [w.z(4, 2)], w.z(3)),
        w.call(func, [w.z(2, 4)], w.z(3)),
    )


def decorate(w):
    def func(a: w.Array[w.X], b: w.Array[w.X]) -> None:
        w.local.runs = getattr(w.local, "runs", 0) + 1

    func = w.ns["typechecked"](func)
    return w.call(func, w.z(8), w.z(8)), w.call(func, w.z(8), w.z(9))


def decorate_class(w):
    @w.ns["typechecked"]
    class Some:
        def method(self, a: w.Array[w.X], b: w.Array[2 * w.X]) -> None:
            pass

        @staticmethod
        def static(a: w.Array[w.X]) -> w.Array[w.X]:
            return w.z(1)

    return lib.attempt(Some().method, w.z(2), w.z(4)), lib.attempt(Some.static, w.z(4))[0]


def set_name(w):
    w.dims.N = 6
    N = w.dims.N

    @w.ns["typechecked"]
    def func(a: w.Array[N]) -> None:
        w.local.runs = getattr(w.local, "runs", 0) + 1

    return w.call(func, w.z(6)), w.call(func, w.z(7))


def set_shape(w):
    w.shapes.M = (4, 5)
    M = w.shapes.M

    @w.ns["typechecked"]
    def func(a: w.Array[(*M, 1)]) -> None:
        w.local.runs = getattr(w.local, "runs", 0) + 1

    return w.call(func, w.z(4, 5, 1)), w.call(func, w.z(4, 5))


OPS = {name: (func, want) for name, func, want in operations()}

PAIRS = [
    ("pair good", "pair good 5"), ("pair good", "pair bad"), ("pair good", "square good"), ("square good", "isinstance"),
    ("square bad", "isinstance"), ("back good", "back bad"), ("back good", "pair bad"), ("union good", "union bad"),
    ("union good", "pair bad"), ("many good", "many bad"), ("many good", "union bad"), ("dim good", "dim bad"), ("dim good", "unset"),
    ("dim good", "assign other"), ("shape good", "shape bad"), ("shape good", "dim bad"), ("attribute", "pair good"),
    ("outer good", "pair good 5"), ("recursion", "pair good"), ("kinds good", "kinds bad"), ("create", "pair good"), ("create", "create"), ("derive", "derive"), ("derive", "pair good"),
    ("create typing", "create typing"), ("create typing", "many bad"), ("decorate", "pair good"), ("decorate", "decorate class"),
    ("malformed", "create"), ("read name", "set name"), ("read shape", "set shape"), ("isinstance Array", "create"),
    ("isinstance", "isinstance Array"),
]
DEEP = [("isinstance", "square bad"), ("read name", "set name"), ("read shape", "set shape"), ("isinstance", "isinstance Array"), ("pair bad", "unset")]
DEEPER = [("pair good", "pair bad"), ("back good", "back bad"), ("union good", "union bad"), ("many good", "many bad")]
TINY = [("touch name", "give name"), ("touch shape", "give shape"), ("touch name", "touch name"), ("give shape", "give name")]
TRIPLES = [("pair good", "pair bad", "create"), ("isinstance", "square bad", "back good"), ("dim good", "set name", "read name"),
           ("union bad", "union good", "many bad")]
SOFT = [("pair good", "pair bad"), ("union good", "union bad"), ("many good", "union bad"), ("dim good", "unset")]


# ------------------------------------------------------------ scheduler


class Scheduler:
    """Runs the operations in threads; ``plan`` is a list of (thread, count, next thread)."""

    def __init__(self, ops, plan, grain, first):
        self.ops, self.plan, self.grain, self.first = ops, list(plan), grain, first
        self.tokens = [threading.Semaphore(0) for _ in ops]
        self.counts = [0] * len(ops)
        self.finished = [False] * len(ops)
        self.results = [None] * len(ops)
        self.places = []
        self.texts = [[] for _ in ops]
        self.blocked = 0

    def point(self, code, place):
        me = getattr(THREAD, "me", None)
        if me is None:
            return
        self.counts[me] += 1
        if self.plan and self.plan[0][:2] == (me, self.counts[me]):
            _, _, target = self.plan.pop(0)
            if self.finished[target]:
                return
            self.places.append(f"{os.path.basename(code.co_filename)}:{code.co_name}:{place}")
            self.tokens[target].release()
            if not self.tokens[me].acquire(timeout=PATIENCE):
                self.blocked += 1

    def body(self, me, world):
        self.tokens[me].acquire()
        THREAD.texts = self.texts[me]
        THREAD.me = me
        try:
            result = self.ops[me](world)
        except lib.Alarm:
            result = "Alarm"
        except Exception as err:  # pylint: disable=broad-except
            result = f"raises {type(err).__name__}: {err}"
        THREAD.me = None
        self.results[me] = result
        self.finished[me] = True
        for other, done in enumerate(self.finished):
            if not done:
                self.tokens[other].release()
                break

    def run(self, world):
        monitor(self)
        threads = [threading.Thread(target=self.body, args=(i, world), daemon=True) for i in range(len(self.ops))]
        for thread in threads:
            thread.start()
        self.tokens[self.first].release()
        for thread in threads:
            thread.join(timeout=60)
        return not any(thread.is_alive() for thread in threads)


THREAD = threading.local()


def codes():
    """Every code object of asta's functions."""
    root = os.path.join(os.path.realpath(lib.NS["asta"].__path__[0]), "")
    found = {}

    def add(code):
        if id(code) not in found:
            found[id(code)] = code
            for const in code.co_consts:
                if isinstance(const, types.CodeType):
                    add(const)

    for thing in gc.get_objects():
        if isinstance(thing, types.FunctionType) and os.path.realpath(thing.__code__.co_filename).startswith(root):
            add(thing.__code__)
    return list(found.values())


def monitor(scheduler):
    """Calls ``scheduler.point`` at every switch point of asta's code."""
    tool = sys.monitoring
    event = {"line": tool.events.LINE, "call": tool.events.PY_START, "opcode": tool.events.INSTRUCTION}[scheduler.grain]
    tool.use_tool_id(4, "scheduler")
    tool.register_callback(4, event, scheduler.point)
    for code in CODES:
        tool.set_local_events(4, code, event)


CODES = []
MEMO = lib.SOLUTIONS


class Output:
    """Standard output that keeps what each thread printed apart."""

    def write(self, text):
        texts = getattr(THREAD, "texts", None)
        if texts is not None:
            texts.append(text)
        return len(text)

    def flush(self):
        pass


def execute(names, plan, grain, first=0):
    """One schedule, in this process."""
    sys.stdout = Output()
    world = World()
    scheduler = Scheduler([OPS[n][0] for n in names], plan, grain, first)
    ended = scheduler.run(world)
    failed = [("FAILED" in "".join(t)) for t in scheduler.texts]
    return {
        "results": scheduler.results, "counts": scheduler.counts, "places": scheduler.places,
        "blocked": scheduler.blocked, "ended": ended, "failed": failed,
        "memo": "" if plan else base64.b64encode(pickle.dumps(MEMO)).decode(),
    }


def forked(names, plan, grain, first=0):
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read)
        try:
            data = json.dumps(execute(names, plan, grain, first), default=repr)
        except BaseException as err:  # pylint: disable=broad-except
            import traceback

            data = json.dumps({"error": f"{type(err).__name__}: {err}\n{traceback.format_exc()}", "asta": lib.blamed(err, {"repo": REPO[0]})})
        with os.fdopen(write, "w") as handle:
            handle.write(data)
        os._exit(0)
    os.close(write)
    with os.fdopen(read) as handle:
        data = handle.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"error": "process died", "asta": False}


REPO = ["/repo"]


def plain(value):
    return [plain(v) for v in value] if isinstance(value, (list, tuple)) else value


def wanted(name, soft):
    """(outcome, FAILED printed) of the operation alone; the latter None where not compared."""
    want = OPS[name][1]
    if soft:
        return plain(("ok", 1)), want[0] != "ok"
    return plain(want), None


def judge(ctx, names, plan, grain, first, soft):
    """Runs one schedule; returns the observation."""
    seen = forked(names, plan, grain, first)
    case = {"ops": names, "plan": plan, "grain": grain, "first": first, "soft": soft}
    if "error" in seen:
        if seen["asta"]:
            ctx.violation(case, f"asta raised before the threads started: {seen['error']}")
            raise lib.StopJob
        raise RuntimeError(seen["error"])
    if seen["memo"]:
        MEMO.update(pickle.loads(base64.b64decode(seen["memo"])))
    ctx.count("schedules")
    if seen["places"]:
        ctx.count("distinct_nontrivial")
    ctx.count("threads let go because another one blocked", seen["blocked"])
    for index, name in enumerate(names):
        want, failed = wanted(name, soft)
        got = seen["results"][index]
        error = None
        if not seen["ended"]:
            error = "the threads did not end"
        elif got != want:
            error = f"'{name}' gave {got}, alone it gives {want}"
        elif failed is not None and seen["failed"][index] != failed:
            error = f"'{name}' {'did not print' if failed else 'printed'} FAILED, alone it is the other way round"
        if error:
            others = [n for i, n in enumerate(names) if i != index]
            ctx.violation(case, f"{error}; together with {others}, switches at {seen['places']}, first {names[first]}")
            break
    ctx.outcome("ok" if len(ctx.violations) == 0 else "violation")
    return seen


def jobs(tier):
    out = []
    n = len(PAIRS)
    groups = 10
    for i in range(groups):
        out.append(dict(name="bound 1", params={"pairs": PAIRS[i::groups], "grain": "line", "bound": 1}))
    for pair in SOFT:
        config = {"raise-errors": "no", "print-passes": "no"}
        out.append(dict(name="bound 1 soft", params={"pairs": [pair], "grain": "line", "bound": 1, "soft": True}, config=config))
    for pair in TINY:
        out.append(dict(name="tiny", params={"pairs": [pair], "grain": "line", "bound": 2 if tier == "quick" else 3}))
    for pair in DEEP:
        out += lib.split(2, name="bound 2", params={"pairs": [pair], "grain": "call", "bound": 2})
    if tier == "thorough":
        every = [n for n in OPS if n != "recursion"]
        rest = [p for p in itertools.product(every, repeat=2) if p not in PAIRS]
        for i in range(40):
            out.append(dict(name="bound 1 all", params={"pairs": rest[i::40], "grain": "line", "bound": 1}))
        for i in range(n):
            out += lib.split(2, name="bytecodes", params={"pairs": [PAIRS[i]], "grain": "opcode", "bound": 1})
        for pair in DEEP:
            out += lib.split(8, name="bound 2 lines", params={"pairs": [pair], "grain": "line", "bound": 2})
        for pair in DEEPER:
            out += lib.split(8, name="bound 2", params={"pairs": [pair], "grain": "call", "bound": 2})
        for trio in TRIPLES:
            out += lib.split(4, name="three", params={"pairs": [trio], "grain": "call", "bound": 2})
    return out


def schedules(lengths, bound):
    """Every (first, plan) with up to ``bound`` preemptions."""
    threads = range(len(lengths))

    def extend(current, progress, left, plan):
        yield plan
        if not left:
            return
        for at in range(progress[current] + 1, lengths[current] + 1):
            for target in threads:
                if target != current:
                    ahead = list(progress)
                    ahead[current] = at
                    yield from extend(target, ahead, left - 1, plan + [(current, at, target)])

    for first in threads:
        for plan in extend(first, [0] * len(lengths), bound, []):
            yield first, plan


def run(ctx):
    REPO[0] = ctx.job.get("repo", "/repo")
    warm()
    params = ctx.params
    for names in params["pairs"]:
        names = list(names)
        lengths = []
        for index, name in enumerate(names):
            seen = judge(ctx, names, [], params["grain"], index, params.get("soft", False))
            lengths.append(seen["counts"][index])
        slack = [n + 2 for n in lengths]
        blocked = 0
        for first, plan in schedules(slack, params["bound"]):
            if not plan or not ctx.mine():
                continue
            if blocked > 20:
                ctx.note(f"{names}: threads block each other; the remaining schedules were left out")
                break
            seen = judge(ctx, names, plan, params["grain"], first, params.get("soft", False))
            blocked += seen["blocked"]
        ctx.sample({"operations": names, "points": lengths, "grain": params["grain"], "bound": params["bound"]}, 3)


def warm():
    """Loads what sympy loads on first use, without touching asta."""
    import sympy

    x, y = sympy.symbols("warm_x warm_y")
    for system in ([x - 2], [x - 2, x - 3], [2 * x - 4, x + y - 3], [x * y - 6, x - 2]):
        sympy.solve(system, [x, y], dict=True)
    sympy.simplify(x - y)
    MEMO.clear()
    CODES[:] = codes()
    gc.collect()
    gc.freeze()


def replay(case, ctx):
    REPO[0] = ctx.job.get("repo", "/repo")
    warm()
    judge(ctx, list(case["ops"]), [tuple(p) for p in case["plan"]], case["grain"], case["first"], case["soft"])
