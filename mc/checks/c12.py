"""C12: with raise-errors=no mismatches are printed, never raised."""
from mc import grammar as g
from mc import lib, programs

LEVEL = "exploration"
RULE = (
    "every signature of the stated spaces (one annotation of every kind as parameter and as result; two "
    "parameters and a result over a core) x its values, run with raise-errors=no under every setting of "
    "print-passes, check-non-asta-types and check-all-sequence-elements, and with raise-errors=yes; "
    "body runs, result and presence of FAILED against the model's verdict, which the raise-errors=yes "
    "runs must show as TypeError. Non-trivial: the model rejects the call"
)
ASSUMPTIONS = [
    "Union alternatives bring no equations",
    "mismatches only: the body does not raise and the arguments bind",
]


def bounds(tier):
    return {
        "annotations": "21 array leaves (patterns, symbols, attributes, set and unset placeholders), 8-10 "
        "containers around each, nested containers, 50 plain annotations",
        "signatures": f"one annotation; two parameters and a result over {len(programs.cores(tier))} annotations",
    }


def jobs(tier):
    out = []
    for passes in ("yes", "no"):
        for plain in ("yes", "no"):
            for every in ("yes", "no"):
                config = {
                    "raise-errors": "no", "print-passes": passes, "check-non-asta-types": plain,
                    "check-all-sequence-elements": every,
                }
                out += lib.split(2, name="soft", params={"space": "single"}, config=config)
                if every == "yes":
                    out += lib.split(2, name="soft pairs", params={"space": "pair"}, config=config)
    for plain in ("yes", "no"):
        config = {"check-non-asta-types": plain}
        out += lib.split(2, name="hard", params={"space": "single"}, config=config)
        out += lib.split(2, name="hard pairs", params={"space": "pair"}, config=config)
    for raising in ("no", "yes"):
        config = {"raise-errors": raising}
        out += lib.split(1, name="tf", backend="tf", params={"space": "single", "family": "TFTensor"}, config=config)
        out += lib.split(1, name="torch", backend="torch", params={"space": "single", "family": "Tensor"}, config=config)
    return out


def decide(ctx, case, nodes, returns, func, sources, result):
    config = ctx.job["config"]
    cfg = g.Cfg(config)
    want, seen, _, _ = g.judge(func, nodes, sources, returns, result, cfg)
    soft = config.get("raise-errors") == "no"
    failed = "FAILED" in seen[3]
    ctx.count("evaluations")
    ctx.outcome(f"{'soft' if soft else 'hard'} {want}")
    if want != "accepted":
        ctx.count("distinct_nontrivial")
        if soft:
            ctx.sample({"call": programs.describe(nodes, returns, sources, result), "verdict": want}, 2)
    error = None
    if soft:
        if seen[:3] != ("ok", 1, True):
            error = f"raise-errors=no, but outcome {seen[0]}, body runs {seen[1]}, result itself returned: {seen[2]}"
        elif failed != (want != "accepted"):
            error = f"raise-errors=no, model says {want}, but FAILED was {'' if failed else 'not '}printed"
    elif seen[:3] != g.HARD[want]:
        error = f"raise-errors=yes, should be {want}: outcome {seen[0]}, body runs {seen[1]}"
    if error:
        ctx.violation(case, f"{programs.describe(nodes, returns, sources, result)} [{config}]: {error}")


def run(ctx):
    for call in programs.calls(ctx, ctx.params["space"], ctx.params.get("family", "Array")):
        decide(ctx, *call)


def replay(case, ctx):
    decide(ctx, *programs.again(ctx, case, ctx.params.get("family", "Array")))
