"""Shared machinery of the workers: set-up of asta, calls, values, sharding."""
import contextlib
import copy
import io
import json
import os
import signal
import sys


class StopJob(Exception):
    """Enough violations were found."""


class Alarm(BaseException):
    """A single case took too long."""


MAX_VIOLATIONS = 3


class Ctx:
    def __init__(self, job):
        self.job = job
        self.tier = job.get("tier", "quick")
        self.params = job.get("params", {})
        self.shard, self.shards = job.get("shard", [0, 1])
        self.numbers = {}
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.known = set()
        self.notes = []
        self._index = -1

    def mine(self):
        """Whether the next enumerated item belongs to this worker's shard."""
        self._index += 1
        return self._index % self.shards == self.shard

    def count(self, key, n=1):
        self.numbers[key] = self.numbers.get(key, 0) + n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def sample(self, case, limit=4):
        if len(self.samples) < limit:
            self.samples.append(case)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def violation(self, case, message, key=None):
        key = key or json.dumps(case, sort_keys=True, default=str)
        if key in self.job.get("known", ()):
            self.known.add(key)  # Goes on as if nothing had happened.
            return
        job = {k: v for k, v in self.job.items() if k not in ("out", "scratch", "replay", "known")}
        self.violations.append(
            {
                "key": key,
                "message": message,
                "case": case,
                "job": job,
            }
        )
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopJob

    def dump(self):
        return {
            "numbers": self.numbers,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "violations": self.violations,
            "known": sorted(self.known),
            "notes": self.notes,
        }

    def absorb(self, other):
        for key, value in other["numbers"].items():
            self.count(key, value)
        for key, value in other["outcomes"].items():
            self.outcome(key, value)
        for sample in other["samples"]:
            self.sample(sample)
        for note in other["notes"]:
            self.note(note)
        self.known.update(other["known"])
        for violation in other["violations"]:
            self.violations.append(violation)

    def write(self, path):
        with open(path + ".tmp", "w") as handle:
            json.dump(self.dump(), handle, default=str)
        os.rename(path + ".tmp", path)


class Sink(io.TextIOBase):
    """Swallows what asta prints; keeps it only while asked to."""

    def __init__(self):
        super().__init__()
        self.parts = None

    def writable(self):
        return True

    def write(self, text):
        if self.parts is not None:
            self.parts.append(text)
        return len(text)

    def start(self):
        self.parts = []

    def stop(self):
        text = "".join(self.parts)
        self.parts = None
        return text


SINK = Sink()
NS = {}


def _on_alarm(_signum, _frame):
    raise Alarm("no answer within the time limit for one case")


class Broken:
    """A finder for libraries that are there but cannot be imported."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            raise ImportError(f"lib{name}.so.1: cannot open shared object file", name=name)
        return None


def block(backend, broken=False):
    missing = [name for name, short in (("tensorflow", "tf"), ("torch", "torch")) if short not in backend.split("+")]
    if broken:
        sys.meta_path.insert(0, Broken(missing))
    else:
        for name in missing:
            sys.modules[name] = None


SOLUTIONS = {}


def remember_solutions():
    """
    Keeps the answers of ``sympy.solve`` within the process. It draws random numbers to see
    whether a solution holds, so it is given the same ones each time: a function of its arguments.
    """
    import sympy
    import sympy.core.random
    import sympy.solvers
    import sympy.solvers.solvers as home

    real = home.solve

    def solve(f, *symbols, **flags):
        try:
            key = (
                frozenset(f) if isinstance(f, (set, frozenset)) else tuple(f), tuple(frozenset(s) if isinstance(s, (set, frozenset, list, tuple)) else s for s in symbols),
                tuple(sorted(flags.items())),
            )
            if key not in SOLUTIONS:
                sympy.core.random.seed(0)
                SOLUTIONS[key] = real(f, *symbols, **flags)
            known = SOLUTIONS[key]
            if type(known) is not list:
                return copy.copy(known)
            return [dict(s) if isinstance(s, dict) else s for s in known]
        except TypeError:
            sympy.core.random.seed(0)
            return real(f, *symbols, **flags)

    sympy.solve = sympy.solvers.solve = home.solve = solve


def setup(job):
    """Imports asta (from the repository only) with the job's backends."""
    backend = job.get("backend", "np")
    block(backend, job.get("broken", False))
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.stdout = SINK
    SINK.start()
    import numpy as np

    import asta

    job_repo = os.path.realpath(job.get("repo", "/repo"))
    assert os.path.realpath(asta.__file__).startswith(job_repo + os.sep), asta.__file__
    from asta import Array, Scalar, Tensor, TFTensor, dims, shapes, symbols, typechecked

    NS.update(
        import_output=SINK.stop(),
        np=np,
        asta=asta,
        Array=Array,
        Scalar=Scalar,
        Tensor=Tensor,
        TFTensor=TFTensor,
        dims=dims,
        shapes=shapes,
        symbols=symbols,
        typechecked=typechecked,
    )
    import datetime
    import typing

    NS["datetime"] = datetime
    for name in (
        "Any List Sequence Set Dict Tuple Optional Union NamedTuple TypedDict Callable "
        "Type Literal Iterable AbstractSet FrozenSet Protocol IO TextIO BinaryIO"
    ).split():
        NS[name] = getattr(typing, name)
    NS["typing"] = typing
    for name in ("X", "Y", "Z", "W"):
        NS[name] = getattr(symbols, name)
    if "tf" in backend.split("+"):
        import tensorflow as tf

        NS["tf"] = tf
    if "torch" in backend.split("+"):
        import torch

        NS["torch"] = torch


def ev(source, **extra):
    """Evaluates an annotation or value written as Python source."""
    return eval(source, {**NS, **extra})  # pylint: disable=eval-used


@contextlib.contextmanager
def limit(seconds=60):
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)


def attempt(func, *args, **kwargs):
    """('ok', result) or (exception type name, text)."""
    try:
        return "ok", func(*args, **kwargs)
    except Alarm as err:
        return "Alarm", str(err)
    except TypeError as err:
        return "TypeError", str(err)
    except Exception as err:  # pylint: disable=broad-except
        return type(err).__name__, str(err)


def check_isinstance(value, annotation):
    """True / False, or the name of the exception it raised."""
    try:
        return isinstance(value, annotation)
    except Alarm:
        return "Alarm"
    except Exception as err:  # pylint: disable=broad-except
        return f"raises {type(err).__name__}"


def typechecked_call(func, *args, **kwargs):
    """'ok' / 'TypeError' / 'raises X'."""
    try:
        func(*args, **kwargs)
        return "ok"
    except Alarm:
        return "Alarm"
    except TypeError:
        return "TypeError"
    except Exception as err:  # pylint: disable=broad-except
        return f"raises {type(err).__name__}"


def forked(func, ctx):
    """Runs ``func(ctx)`` in a forked child and absorbs what it covered."""
    result = forked_raw(func, ctx)
    ctx.absorb(result)
    if len(ctx.violations) >= MAX_VIOLATIONS:
        raise StopJob
    return result


def blamed(err, job):
    """Whether an unexpected exception came out of asta's own code."""
    root = os.path.join(os.path.realpath(job.get("repo", "/repo")), "asta") + os.sep
    trace = err.__traceback__
    while trace is not None:
        if os.path.realpath(trace.tb_frame.f_code.co_filename).startswith(root):
            return True
        trace = trace.tb_next
    return False


def unexpected(err, ctx):
    """Records an exception where the check expected none, or re-raises it.

    The checks are deterministic and raise nothing on code that has the property; what the machine may
    cause (memory, files, processes that died) is no violation.
    """
    if isinstance(err, (MemoryError, KeyboardInterrupt)):
        raise err
    if isinstance(err, (OSError, RuntimeError)) and not isinstance(err, RecursionError) and not blamed(err, ctx.job):
        raise err
    import traceback

    place = traceback.extract_tb(err.__traceback__)
    ours = [f for f in place if f"{os.sep}mc{os.sep}checks{os.sep}" in f.filename]
    where = f" (from {os.path.basename(ours[-1].filename)}: {ours[-1].line})" if ours else ""
    ctx.violation(
        {"unexpected": True},
        f"{type(err).__name__}: {err} where it should not raise{where}",
        key="unexpected",
    )


def split(n, base=None, **job):
    """``n`` shards of one job."""
    return [{**(base or {}), **job, "shard": [i, n]} for i in range(n)]


def fork_dfs(ctx, ops, depth, step, state, prefix=(), shard_depth=2):
    """Runs every operation sequence up to ``depth`` on the real code.

    ``step(op, state)`` performs the operation in the current process, compares with the
    model and returns ``(new model state, outcome label, error or None)``. Every edge of the
    tree is executed in a forked child, so each sequence starts from the same real state.
    """
    for index, op in enumerate(ops):
        path = prefix + (index,)
        if len(path) == shard_depth and not ctx.mine():
            continue

        def child(sub, op=op, path=path):
            with limit(120):
                new_state, label, error = step(op, state)
            owned = len(path) >= shard_depth or ctx.shard == 0
            if owned:
                sub.count("transitions")
                sub.outcome(label)
                if len(path) == depth:
                    sub.count("traces_validated_against_impl")
                    sub.sample({"history": [ops[i].__name__ if callable(ops[i]) else ops[i] for i in path]}, 1)
                sub.numbers.setdefault("_states", {})[repr(new_state)] = 1
            if error:
                sub.violation({"history": list(path)}, error)
                return
            if len(path) < depth:
                sub._index = ctx._index
                sub.shard, sub.shards = ctx.shard, ctx.shards
                fork_dfs(sub, ops, depth, step, new_state, path, shard_depth)
                sub.numbers["_index"] = sub._index

        result = forked_raw(child, ctx)
        states = result["numbers"].pop("_states", {})
        index_after = result["numbers"].pop("_index", None)
        if index_after is not None:
            ctx._index = index_after
        ctx.numbers.setdefault("_states", {}).update(states)
        ctx.absorb(result)
        if len(ctx.violations) >= MAX_VIOLATIONS:
            raise StopJob


def forked_raw(func, ctx):
    """Like ``forked`` but returns what was covered without absorbing it."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read)
        sub = Ctx(ctx.job)
        try:
            try:
                func(sub)
            except StopJob:
                pass
            except (Exception, Alarm) as err:  # pylint: disable=broad-except
                unexpected(err, sub)
            data = json.dumps(sub.dump(), default=str).encode()
        except BaseException:  # pylint: disable=broad-except
            import traceback

            data = json.dumps({"crash": traceback.format_exc()}).encode()
        with os.fdopen(write, "wb") as handle:
            handle.write(data)
        os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as handle:
        data = handle.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked child died")
    result = json.loads(data)
    if "crash" in result:
        raise RuntimeError(result["crash"])
    return result


def run_history(ctx, ops, path, step, state):
    """Replays one operation sequence in this process."""
    for index in path:
        with limit(120):
            state, _, error = step(ops[index], state)
        if error:
            ctx.violation({"history": list(path)}, error)
            return

