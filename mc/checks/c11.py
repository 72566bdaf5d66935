"""C11: options come from the first configuration file found, defaults fill gaps."""
import itertools
import os
import shutil
import sys

from mc import lib

LEVEL = "exploration"
NO_SETUP = True
RULE = (
    "(a) every combination of present and absent configuration files (with and without asta sections, "
    "enclosing packages, ASTARC unset/missing/valid, the user's files), each file with its own setting "
    "of the options; (b) for each kind of file alone, every choice of given (yes/no) and omitted "
    "options, next to a later file that says the opposite; (c) empty and foreign sections, the stated texts of other tools in the same files; (d) every stated way of writing a file, for every kind of "
    "file and several settings; (e) working directories within 0 to 6 nested packages, with and without gaps, and "
    "files at every level, alone and in pairs. Each "
    "scenario imports asta in a fresh forked process in a scratch directory; the options in force are "
    "read off the behaviour of decorated functions. Non-trivial: at least two files exist, or some but "
    "not all options are given"
)
ASSUMPTIONS = [
    "there is no /etc/astarc (never written; the check stops otherwise)",
    "HOME is not /root; option values are yes or no",
    "search order as in find_default_config_files' documentation (pylint's order)",
]

OPTIONS = ("on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements")
DEFAULT = {"on": 1, "raise-errors": 1, "print-passes": 1, "check-non-asta-types": 0, "check-all-sequence-elements": 1}
CONTENT = {
    "rc": "[MASTER]\n\n",
    "toml": "[build-system]\nrequires = ['x']\n\n[tool.black]\nline-length = 88\n\n[tool.asta.MASTER]\n",
    "cfg": "[metadata]\nname = thing\n\n[asta.MASTER]\n",
}
PLAIN = {
    "toml": "[build-system]\nrequires = ['x']\n\n[tool.black]\nline-length = 88\n\n"
    "[tool.fasta.MASTER]\non = 'no'\n\n[tool.other.asta.MASTER]\non = 'no'\n\n[asta.MASTER]\non = 'no'\n"
    "\n[tool.asta-extra]\nx = 'asta'\n",
    "cfg": "[metadata]\nname = asta\n\n[flake8]\nformat = %(path)s\n\n[fasta.MASTER]\non=no\n\n"
    "[mypy-asta.config]\non=no\n\n[tool:asta]\non=no\n\n[astarc]\non=no\n\n[other.asta.MASTER]\non=no\n",
}
# In search order; paths relative to the scenario's directory, whose working directory is g/p/w.
SOURCES = {
    "astarc": ("g/p/w/astarc", "rc"),
    ".astarc": ("g/p/w/.astarc", "rc"),
    "pyproject.toml": ("g/p/w/pyproject.toml", "toml"),
    "setup.cfg": ("g/p/w/setup.cfg", "cfg"),
    "parent astarc": ("g/p/astarc", "rc"),
    "parent .astarc": ("g/p/.astarc", "rc"),
    "grandparent astarc": ("g/astarc", "rc"),
    "grandparent .astarc": ("g/.astarc", "rc"),
    "ASTARC": ("elsewhere/some.rc", "rc"),
    "~/.astarc": ("home/.astarc", "rc"),
    "~/.config/astarc": ("home/.config/astarc", "rc"),
}
# Directories around the working directory in the scenarios of (e).
DEPTH = 6


def around(other, own, kind):
    """One file with the text of another tool and asta's section, which is the last of CONTENT."""
    header = {"toml": "[tool.asta.MASTER]", "cfg": "[asta.MASTER]"}[kind]
    return other + ("\r\n" if "\r" in other else "\n") + own[own.index(header):]


def directory(level):
    return "/".join(f"d{k}" for k in range(DEPTH, level - 1, -1))


for level in range(1, DEPTH + 1):
    for basename in ("astarc", ".astarc"):
        SOURCES[f"{level} up {basename}"] = (directory(level) + "/" + basename, "rc")
SHALLOW = [name for name in SOURCES if " up " not in name]


def bounds(tier):
    return {
        "sources": SHALLOW,
        "nested packages": DEPTH,
        "assignments of settings to files": 8 if tier == "thorough" else 1,
        "options": list(OPTIONS),
        "texts of other tools": {kind: list(FOREIGN[kind]) for kind in FOREIGN},
        "ways of writing": {kind: list(STYLES[kind]) for kind in STYLES},
    }


def jobs(tier):
    rotations = range(8) if tier == "thorough" else range(1)
    out = []
    for rotation in rotations:
        out += lib.split(8, name="present", config=None, params={"space": "present", "rotation": rotation})
    out += lib.split(8, name="partial", config=None, params={"space": "partial"})
    out += lib.split(2, name="written", config=None, params={"space": "written"})
    out += lib.split(2, name="deep", config=None, params={"space": "deep"})
    return out


def lines(settings, form="{}={}", words=("no", "yes"), between=""):
    return "".join(form.format(option, words[value]) + "\n" + between for option, value in settings.items())


def ini(section, before="", after="", **form):
    return lambda settings: before + f"[{section}]\n" + lines(settings, **form) + after


def ini_styles(section, lower):
    return {
        "BOM": lambda settings: "\ufeff" + ini(section)(settings),
        "line ends of Windows": lambda settings: ini(section)(settings).replace("\n", "\r\n"),
        "colons": ini(section, form="{}: {}"),
        "spaces": ini(section, form="{}   =    {}   "),
        "comments": ini(section, before="# on=no\n; raise-errors=no\n", between="# print-passes = no \u00e9\n; on=no\n\n"),
        "comments first": ini(section, before="# \u00fc\n\n\n"),
        "upper-case options": lambda settings: ini(section)({k.upper(): v for k, v in settings.items()}),
        "lower-case section": ini(lower),
        "no line end": lambda settings: ini(section)(settings).rstrip("\n"),
        "other sections": ini(section, before="[OTHER]\non=no\nprint-passes=no\n", after="\n[MORE]\non=no\nraise-errors=no\n"),
        "percent signs": ini(section, after="\n[other]\nformat = %(path)s %d\n"),
        "further options": ini(section, after="another-option=no\n"),
        "reversed": lambda settings: ini(section)(dict(reversed(settings.items()))),
    }


# How a file with some settings may look: kind of file -> name -> text.
STYLES = {
    "rc": ini_styles("MASTER", "master"),
    "cfg": {
        **{k: v for k, v in ini_styles("asta.MASTER", "asta.master").items() if k != "BOM"},
        # Of other tools, which share the file.
        "a master before": ini("asta.MASTER", before="[MASTER]\non=no\nraise-errors=no\nprint-passes=no\n"),
        "a master after": ini("asta.MASTER", after="[MASTER]\non=no\nraise-errors=no\nprint-passes=no\n"),
        "a lower-case master before": ini("asta.MASTER", before="[master]\non=no\nraise-errors=no\nprint-passes=no\n"),
        "a lower-case master after": ini("asta.MASTER", after="[master]\non=no\nraise-errors=no\nprint-passes=no\n"),
        "lower-case sections": ini("asta.master", before="[x.master]\non=no\n", after="[master]\non=no\nraise-errors=no\n"),
        "a master of another name": ini("asta.master", before="[MASTER]\non=no\nraise-errors=no\n", after="[asta.]\non=no\n[other.master]\non=no\n"),
    },
    "toml": {
        "single quotes": ini("tool.asta.MASTER", form="{} = '{}'"),
        "booleans": ini("tool.asta.MASTER", form="{} = {}", words=("false", "true")),
        "lower-case section": ini("tool.asta.master", form='{} = "{}"'),
        "comments": ini("tool.asta.MASTER", form='{} = "{}"  # on = "no"', before="# [tool.asta.MASTER]\n", between='# on = "no"\n\n'),
        "quoted keys": ini("tool.asta.MASTER", form='"{}" = "{}"'),
        "inline table": lambda settings: "[tool.asta]\nMASTER = {" + ", ".join(f'{k} = "{("no", "yes")[v]}"' for k, v in settings.items()) + "}\n",
        "all tables": ini("tool.asta.MASTER", form='{} = "{}"', before="[tool]\n[tool.asta]\n"),
        "other tables": ini("tool.asta.MASTER", form='{} = "{}"', before="[tool.asta.OTHER]\non = 'no'\n", after="[tool.asta.MORE]\non = 'no'\n"),
        "line ends of Windows": lambda settings: ini("tool.asta.MASTER", form='{} = "{}"')(settings).replace("\n", "\r\n"),
        "indented": ini("tool.asta.MASTER", form='    {} = "{}"'),
        "other tools": ini("tool.asta.MASTER", form='{} = "{}"', before="[tool.x]\na = 1\nb = [1, 2]\nc = '%(d)s'\n", after="[tool.y]\non = false\n"),
        "further options": ini("tool.asta.MASTER", form='{} = "{}"', after="another-option = 7\n"),
        "dotted keys": ini("tool", form='asta.MASTER.{} = "{}"'),
        "keys dotted from the top": lambda settings: lines(settings, form='tool.asta.MASTER.{} = "{}"'),
        "spaces in the header": ini(" tool . asta . MASTER ", form='{} = "{}"'),
        "quoted tables": ini("tool.\"asta\".'MASTER'", form='{} = "{}"'),
        "tables in a table": lambda settings: "tool = {asta = {MASTER = {" + ", ".join(f'{k} = "{("no", "yes")[v]}"' for k, v in settings.items()) + "}}}\n",
    },
}


# Files of other tools: kind of file -> name -> text. None has a section of asta.
FOREIGN = {
    "toml": {
        "several types in an array": "[tool.x]\na = [1, 'a', 2.0, [true]]\n",
        "numbers": "[tool.x]\na = 0xff\nb = 1_000\nc = inf\nd = -nan\ne = 0o7\nf = 0b1\ng = 1e3\n",
        "times": "[tool.x]\na = 1979-05-27T07:32:00Z\nb = 1979-05-27\nc = 07:32:00\n",
        "tables in an array": "[tool.x]\na = [\n  {b = 1, c = 'asta'},\n  {b = 2},  # d\n]\n",
        "array of tables": "[[tool.x.asta]]\na = 'b'\n[[tool.x.asta]]\na = ['b']\n",
        "dotted keys": "tool.x.asta = 1\n[project]\nurls.home = 'x'\nurls.asta = 'y'\n",
        "dotted tables": "[tool.x]\na = {b.c = 1, asta.MASTER = {on = 'no'}}\n",
        "long text": "[tool.x]\na = \"\"\"\n[tool.asta.MASTER]\non = 'no'\n\"\"\"\nb = '''\nx = [\n[tool.asta]\n'''\n",
        "quoted names": "[tool.\"x.asta\"]\na = 1\n['tool'.'asta ']\nb = 2\n[\"tool.asta\"]\nc = 3\n",
        "comments in arrays": "[tool.x]\na = [ # c\n 1, # [tool.asta] ]\n 2\n]\nb = '# [tool.asta]'\n",
        "backslashes": "[tool.x]\na = \"\\u00e9\\t\\\\d\"\nb = '\\.pyi?$'\n",
        "not ASCII": "[tool.x]\na = '\u00e9\u4e2d\U0001f600'\n\"\u00e9\" = 1\n# \u00fc\n",
        "spaces": "[ tool . x ]\n\ta   =   1\n",
        "outer table last": "[tool.x.y]\na = 1\n[tool.x]\nb = 2\n",
        "no tool": "[project]\nname = 'asta'\n[asta]\non = 'no'\n[asta.MASTER]\non = 'no'\n",
        "nothing": "", "only a comment": "# [tool.asta.MASTER]\n# on = 'no'\n",
    },
    "cfg": {
        "several lines": "[metadata]\nname = x\nclassifiers =\n    A :: B\n    [asta.MASTER]\n    on = no\n",
        "percent signs": "[tool:pytest]\naddopts = %(x)s %d %%\n",
        "not ASCII": "[metadata]\nauthor = \u00e9\u4e2d\U0001f600\n# \u00fc\n",
        "names alike": "[asta]\non=no\n[ASTA.MASTER]\non=no\n[ asta.MASTER]\non=no\n[astaMASTER]\non=no\n[Asta.master]\non=no\n",
        "defaults": "[DEFAULT]\nasta.MASTER = 1\n[other]\na = 1\n",
        "comments": "# [asta.MASTER]\n; on=no\n[other]\n# on=no\na = 1 ; [asta.MASTER]\n",
        "line ends of Windows": "[other]\r\na = 1\r\n",
        "nothing": "", "only a comment": "# [asta.MASTER]\n# on = no\n",
    },
}


def preload():
    for name in ("torch", "tensorflow"):
        sys.modules[name] = None
    import configparser  # noqa: F401
    import sympy  # noqa: F401
    import toml  # noqa: F401
    import numpy
    import oxentiel  # noqa: F401

    return numpy


def text(kind, settings):
    out = CONTENT[kind]
    for option, value in settings.items():
        word = "yes" if value else "no"
        out += f'{option} = "{word}"\n' if kind == "toml" else f"{option}={word}\n"
    return out


def code(index):
    """A setting of every option, distinguishable from every other index below 16."""
    bits = [(index >> k) & 1 for k in range(4)]
    return dict(zip(OPTIONS, [1] + bits))


def write(base, path, content):
    full = os.path.join(base, path)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "w", encoding="utf-8", newline="") as handle:
        handle.write(content)


def effective(scenario):
    """The model: which source decides, by the documented order."""
    files = scenario["files"]
    inits = scenario["inits"]
    order = ["astarc", ".astarc", "pyproject.toml", "setup.cfg"]
    if "w" in inits:
        order += ["parent astarc", "parent .astarc"]
        if "p" in inits:
            order += ["grandparent astarc", "grandparent .astarc"]
    for level in range(1, DEPTH + 1):
        if level - 1 not in inits:
            break
        order += [f"{level} up astarc", f"{level} up .astarc"]
    if scenario["ASTARC"] == "file":
        order += ["ASTARC"]
    else:
        order += ["~/.astarc", "~/.config/astarc"]
    for name in order:
        given = files.get(name)
        if given is None or given == "no section":
            continue
        return name, {**DEFAULT, **(given if isinstance(given, dict) else {})}
    return "defaults", dict(DEFAULT)


def prepare(base, scenario):
    for sub in ("g/p/w", "home/.config", "elsewhere", directory(0)):
        os.makedirs(os.path.join(base, sub))
    for name in scenario["inits"]:
        path = directory(name) if isinstance(name, int) else {"w": "g/p/w", "p": "g/p", "g": "g"}[name]
        write(base, path + "/__init__.py", "")
    for name, given in scenario["files"].items():
        path, kind = SOURCES[name]
        if given == "no section":
            write(base, path, FOREIGN[kind][scenario["foreign"]] if "foreign" in scenario else PLAIN[kind])
        elif given == "empty":
            write(base, path, "")
        elif given == "other section":
            write(base, path, "[OTHER]\non=no\nraise-errors=no\n")
        elif given == "other section of asta":
            others = {"toml": "[MASTER]\non = 'no'\n[master]\non = 'no'\n[tool.asta.other]\non = 'no'\n"}
            write(base, path, others.get(kind, "[MASTER]\non=no\nraise-errors=no\n[asta.other]\non=no\n[master]\non=no\n"))
        elif "style" in scenario and name == scenario["source"]:
            write(base, path, STYLES[kind][scenario["style"]](given))
        elif "foreign" in scenario and name == scenario["source"]:
            write(base, path, around(FOREIGN[kind][scenario["foreign"]], text(kind, given), kind))
        else:
            write(base, path, text(kind, given))


def observe(base, scenario, np):
    """Runs in the forked child: the options in force, by behaviour."""
    os.chdir(os.path.join(base, directory(0) if "deep" in scenario else "g/p/w"))
    os.environ["HOME"] = os.path.join(base, "home")
    os.environ.pop("ASTA_TYPECHECK", None)
    os.environ.pop("ASTARC", None)
    if scenario["ASTARC"] != "unset":
        name = {"file": "some.rc", "missing": "missing.rc"}[scenario["ASTARC"]]
        os.environ["ASTARC"] = os.path.join(base, "elsewhere", name)
    sys.stdout = lib.SINK
    lib.SINK.start()
    from typing import List

    import asta
    from asta import Array, typechecked

    warned = bool(lib.SINK.stop().strip())

    def run(func, value):
        lib.SINK.start()
        got, _ = lib.attempt(func, value)
        return got, lib.SINK.stop()

    def arrays(p: Array[1]):
        return p

    def numbers(n: int):
        return n

    def lists(p: List[Array[1]]):
        return p

    found = {}
    decorated = typechecked(arrays)
    found["on"] = int(decorated is not arrays)
    found["warned"] = int(warned)
    if not found["on"]:
        return found
    good, bad = np.zeros(1), np.zeros(2)
    got, output = run(decorated, good)
    found["print-passes"] = int("PASSED" in output)
    found["accepts"] = int(got == "ok")
    got, output = run(decorated, bad)
    found["raise-errors"] = int(got == "TypeError")
    found["rejects"] = int(got == "TypeError" or "FAILED" in output)
    got, output = run(typechecked(numbers), "text")
    found["check-non-asta-types"] = int(got == "TypeError" or "FAILED" in output)
    got, output = run(typechecked(lists), [good, bad])
    found["check-all-sequence-elements"] = int(got == "TypeError" or "FAILED" in output)
    return found


def decide(ctx, base, scenario, np):
    # The real path: no symbolic links between the directories of a scenario.
    base = os.path.join(base, "scenario")
    os.makedirs(base)
    prepare(base, scenario)

    def child(sub):
        with lib.limit(120):
            sub.numbers["found"] = observe(base, scenario, np)

    result = lib.forked_raw(child, ctx)
    shutil.rmtree(base)
    if result["violations"]:
        ctx.absorb(result)
        raise lib.StopJob
    found = result["numbers"]["found"]
    winner, want = effective(scenario)
    want = dict(want)
    want["warned"] = int(want["on"] and not want["print-passes"])
    if want["on"]:
        want["accepts"] = want["rejects"] = 1
    else:
        want = {"on": 0, "warned": 0}
    ctx.count("evaluations")
    ctx.outcome(f"decided by {winner}")
    if len(scenario["files"]) > 1 or any(
        isinstance(f, dict) and 0 < len(f) < len(OPTIONS) for f in scenario["files"].values()
    ):
        ctx.count("distinct_nontrivial")
        ctx.sample({**scenario, "decided by": winner})
    if found != want:
        ctx.violation(scenario, f"{winner} decides, so {want}; behaviour shows {found}")


def presence():
    for rc, dotrc, toml, cfg in itertools.product((0, 1), (0, 1), (None, 0, 1), (None, 0, 1)):
        # With a file that wins early, the rest varies less: it must simply have no effect.
        for inits, packages in (
            ("", ()),
            ("", ("parent astarc", "grandparent .astarc")),
            ("w", ()),
            ("w", ("parent astarc",)),
            ("w", ("parent .astarc",)),
            ("w", ("parent astarc", "parent .astarc")),
            ("w", ("grandparent astarc",)),
            ("p", ("parent astarc", "grandparent astarc")),
            ("wp", ("grandparent astarc",)),
            ("wp", ("grandparent .astarc",)),
            ("wp", ("parent .astarc", "grandparent astarc")),
            ("wpg", ("grandparent astarc", "grandparent .astarc")),
        ):
            for variable, home in itertools.product(
                ("unset", "missing", "file"),
                ((), ("~/.astarc",), ("~/.config/astarc",), ("~/.astarc", "~/.config/astarc")),
            ):
                files = ["astarc"] * rc + [".astarc"] * dotrc
                files += [] if toml is None else ["pyproject.toml"]
                files += [] if cfg is None else ["setup.cfg"]
                files += list(packages) + list(home)
                # The file named by ASTARC exists whether or not the variable names it.
                files += ["ASTARC"]
                lacking = ["pyproject.toml"] * (toml == 0) + ["setup.cfg"] * (cfg == 0)
                yield files, lacking, inits, variable


def deep():
    """Packages within packages: which levels have an __init__.py, and which have a file."""
    whole = [list(range(n)) for n in range(DEPTH + 2)]
    gaps = [[k for k in range(DEPTH + 1) if k != gap] for gap in range(DEPTH)]
    ups = [name for name in SOURCES if " up " in name]
    for inits in whole + gaps:
        for count in (1, 2):
            for names in itertools.combinations(ups, count):
                # With two files, of the same or of the following level, or the outermost.
                levels = [int(name[0]) for name in names]
                if count == 2 and levels[1] - levels[0] > 1 and levels[1] != DEPTH:
                    continue
                files = {name: code(5 * k + 3) for k, name in enumerate((*names, "~/.astarc"))}
                yield {"files": files, "inits": inits, "ASTARC": "unset", "deep": DEPTH}
    for variable in ("missing", "file"):
        for name in ups:
            files = {key: code(3 * k + 6) for k, key in enumerate((name, "ASTARC", "~/.astarc"))}
            yield {"files": files, "inits": whole[-1], "ASTARC": variable, "deep": DEPTH}


def scenarios(ctx):
    if ctx.params["space"] == "present":
        names = SHALLOW
        for files, lacking, inits, variable in presence():
            table = {}
            for name in files:
                index = (names.index(name) * 5 + 1 + 3 * ctx.params["rotation"]) % 16
                table[name] = "no section" if name in lacking else code(index)
            yield {"files": table, "inits": list(inits), "ASTARC": variable}
        return
    if ctx.params["space"] == "written":
        for name, (_, kind) in ((name, SOURCES[name]) for name in SHALLOW):
            for style in STYLES[kind]:
                settings = [{"on": 0}, *(dict(code(n)) for n in (5, 10, 15, 0)), {"print-passes": 0}, {"raise-errors": 0, "on": 1}]
                for given in settings:
                    yield {
                        "files": {name: given}, "inits": {"parent": ["w"], "grandpar": ["w", "p"]}.get(name.split(" ")[0][:8], []),
                        "ASTARC": "file" if name == "ASTARC" else "unset", "source": name, "style": style,
                    }
        for name in ("pyproject.toml", "setup.cfg"):
            for foreign in FOREIGN[SOURCES[name][1]]:
                for later in ("setup.cfg", "ASTARC", "~/.config/astarc", None):
                    if later == name:
                        continue
                    files = {name: "no section", **({later: code(4)} if later else {})}
                    yield {"files": files, "inits": [], "ASTARC": "file" if later == "ASTARC" else "unset", "source": name, "foreign": foreign}
                    for given in (code(0), code(11), {"on": 0}, {"print-passes": 0}):
                        yield {
                            "files": {**files, name: given}, "inits": [], "ASTARC": "file" if later == "ASTARC" else "unset",
                            "source": name, "foreign": foreign,
                        }
        return
    if ctx.params["space"] == "deep":
        yield from deep()
        return
    for name in SHALLOW:
        base = {"files": {}, "inits": [], "ASTARC": "unset"}
        if name.startswith("parent"):
            base["inits"] = ["w"]
        if name.startswith("grandparent"):
            base["inits"] = ["w", "p"]
        if name == "ASTARC":
            base["ASTARC"] = "file"
        later = SHALLOW[-1] if name != SHALLOW[-1] else None
        for choice in itertools.product((None, 0, 1), repeat=len(OPTIONS)):
            given = {o: c for o, c in zip(OPTIONS, choice) if c is not None}
            files = {name: given}
            if later:
                files[later] = {o: 1 - given.get(o, DEFAULT[o]) for o in OPTIONS}
                files[later]["on"] = 1
            yield {**base, "files": files}
        for content in ("empty", "other section", "other section of asta"):
            if (name in ("pyproject.toml", "setup.cfg")) != (content == "other section of asta"):
                continue
            files = {name: content}
            if later:
                files[later] = code(4)
            yield {**base, "files": files}


def run(ctx):
    if os.path.exists("/etc/astarc"):
        raise RuntimeError("/etc/astarc exists")
    np = preload()
    base = os.path.realpath(ctx.job["scratch"])
    for scenario in scenarios(ctx):
        if ctx.mine():
            decide(ctx, base, scenario, np)


def replay(case, ctx):
    decide(ctx, os.path.realpath(ctx.job["scratch"]), case, preload())
