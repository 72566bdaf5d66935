"""Runs one job of a check in its own process (see run.py)."""
import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = ROOT


def main():
    with open(sys.argv[1]) as handle:
        job = json.load(handle)
    from mc import lib

    ctx = lib.Ctx(job)
    check = importlib.import_module(f"mc.checks.{job['check']}")
    try:
        try:
            if not getattr(check, "NO_SETUP", False):
                lib.remember_solutions()
                lib.setup(job)
        except lib.Alarm:
            raise
        except BaseException as err:  # asta itself cannot be imported
            ctx.violation(
                {"import": True},
                f"importing asta failed: {type(err).__name__}: {err}",
                key="import",
            )
            raise lib.StopJob from err
        if "replay" in job:
            if job["replay"] == {"unexpected": True}:
                check.run(ctx)
            elif job["replay"] != {"import": True}:
                check.replay(job["replay"], ctx)
        else:
            check.run(ctx)
    except lib.StopJob:
        pass
    except BaseException as err:  # pylint: disable=broad-except
        try:
            lib.unexpected(err, ctx)
        except lib.StopJob:
            pass
        except BaseException:  # pylint: disable=broad-except
            sys.stderr.write(traceback.format_exc())
            sys.stderr.flush()
            os._exit(3)
    ctx.write(job["out"])
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
