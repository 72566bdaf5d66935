"""C13: print-passes changes only what is printed, never the verdict."""
import itertools

from mc import grammar as g
from mc import lib, programs

LEVEL = "exploration"
RULE = (
    "every signature of the stated spaces x its values, under print-passes=yes and no x raise-errors x "
    "check-non-asta-types: verdict, body runs and result against the model (the same for both settings), "
    "number of PASSED messages at least the number of array checks on accepted calls, no FAILED there "
    "(without unions), nothing at all printed with print-passes=no, the same printed when the call is made once more; every combination of on, "
    "print-passes and ASTA_TYPECHECK for the warning at import. Non-trivial: the call is accepted"
)
ASSUMPTIONS = [
    "Union alternatives bring no equations",
    "the warning is recognised as any output while asta is imported",
]


def bounds(tier):
    return {
        "annotations": "as for C12",
        "check-all-sequence-elements": "yes everywhere, no for one annotation and raise-errors=yes",
        "import": "on (yes, no) x print-passes (yes, no) x ASTA_TYPECHECK (unset, 1, 0, empty, other) x backend; "
        "every combination of all five options with ASTA_TYPECHECK unset and 1",
    }


def jobs(tier):
    out = []
    for passes in ("yes", "no"):
        for raising in ("yes", "no"):
            for plain in ("yes", "no"):
                config = {"raise-errors": raising, "print-passes": passes, "check-non-asta-types": plain}
                out += lib.split(2, name="single", params={"space": "single"}, config=config)
                if plain == "yes":
                    out += lib.split(2, name="pairs", params={"space": "pair"}, config=config)
        config = {"print-passes": passes, "check-all-sequence-elements": "no"}
        out += lib.split(2, name="first elements", params={"space": "single"}, config=config)
        config = {"print-passes": passes}
        out += lib.split(1, name="tf", backend="tf", params={"space": "single", "family": "TFTensor"}, config=config)
        out += lib.split(1, name="torch", backend="torch", params={"space": "single", "family": "Tensor"}, config=config)
        for on in ("yes", "no"):
            for value in (None, "1", "0", "", "other"):
                env = {} if value is None else {"ASTA_TYPECHECK": value}
                for backend in ("np", "torch"):
                    out.append(dict(name="import", backend=backend, params={"space": "import"},
                                    config={"on": on, "print-passes": passes}, env=env))
                others = itertools.product(("yes", "no"), repeat=3)
                for raising, plain, every in others if value in (None, "1") else ():
                    config = {"on": on, "print-passes": passes, "raise-errors": raising,
                              "check-non-asta-types": plain, "check-all-sequence-elements": every}
                    out.append(dict(name="import", params={"space": "import"}, config=config, env=env))
    return out


def decide(ctx, case, nodes, returns, func, sources, result):
    config = ctx.job["config"]
    cfg = g.Cfg(config)
    want, seen, args, value = g.judge(func, nodes, sources, returns, result, cfg)
    outcome, runs, same, text = seen
    ctx.count("evaluations")
    ctx.outcome(want)
    error = None
    expected = ("ok", 1, True) if config.get("raise-errors") == "no" else g.HARD[want]
    if (outcome, runs, same) != expected:
        error = f"should be {want}: outcome {outcome}, body runs {runs}, result itself returned: {same}"
    elif want == "accepted":
        ctx.count("distinct_nontrivial")
        unions = any(n.union for n in nodes) or (returns is not None and returns.union)
        checks = sum(n.arrays(a, cfg) for n, a in zip(nodes, args))
        checks += returns.arrays(value, cfg) if returns is not None else 0
        if config["print-passes"] == "no":
            if text:
                error = f"print-passes=no, but the accepted call printed {text!r}"
        elif not unions:
            again = g.call(func, args, value)[3] if config.get("raise-errors") != "no" else text
            if again != text:
                error = f"the first call printed {text!r}, the same call once more {again!r}"
            elif text.count("PASSED") < checks:
                error = f"{checks} array checks, but {text.count('PASSED')} PASSED messages"
            elif "FAILED" in text:
                error = "FAILED printed on an accepted call"
            elif checks:
                ctx.sample({"call": programs.describe(nodes, returns, sources, result), "PASSED": checks}, 2)
    if error:
        ctx.violation(case, f"{programs.describe(nodes, returns, sources, result)} [{config}]: {error}")


def run_import(ctx):
    config = ctx.job["config"]
    value = ctx.job.get("env", {}).get("ASTA_TYPECHECK")
    want = config["on"] == "yes" and value in (None, "1") and config["print-passes"] == "no"
    text = lib.NS["import_output"]
    ctx.count("evaluations")
    ctx.count("distinct_nontrivial")
    ctx.outcome("warning" if want else "no warning")
    if bool(text.strip()) != want:
        ctx.violation(
            {"import of asta": True},
            f"{config}, ASTA_TYPECHECK={value!r}: the warning should {'' if want else 'not '}be printed "
            f"at import; printed: {text[:200]!r}",
        )


def run(ctx):
    if ctx.params["space"] == "import":
        return run_import(ctx)
    for call in programs.calls(ctx, ctx.params["space"], ctx.params.get("family", "Array")):
        decide(ctx, *call)
    return None


def replay(case, ctx):
    if ctx.params["space"] == "import":
        run_import(ctx)
    else:
        decide(ctx, *programs.again(ctx, case, ctx.params.get("family", "Array")))
