"""Mutants of asta: source edits of one place each, to find what the checks do not see.

    mutate.py list DIR FILE...    writes DIR/mutants.jsonl
    mutate.py gate DIR N          which of them build and pass the repository's stable tests -> DIR/gated.jsonl
    mutate.py check DIR N         runs the checks meant for a file on copies with the mutants of
                                  DIR/sample.jsonl -> DIR/results.jsonl

Everything happens in copies below DIR (run it from a copy of /verif, since the checks write evidence); nothing here is part of a registered check.
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("ASTA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SWAPS = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = text.encode()
        self.out = []
        self.skip = 0

    def at(self, line, col):
        return self.starts[line - 1] + col

    def span(self, node):
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, new, kind):
        a, b = self.span(node)
        if self.raw[a:b].decode() != new:
            self.out.append({"start": a, "end": b, "new": new, "kind": kind, "line": node.lineno,
                             "old": self.raw[a:b].decode()})

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in SWAPS:
            self.put(node, f"{self.src(node.left)} {SWAPS[type(node.ops[0])]} {self.src(node.comparators[0])}", "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        word = " and " if isinstance(node.op, ast.And) else " or "
        other = " or " if word == " and " else " and "
        parts = ["(" + self.src(v) + ")" for v in node.values]
        self.put(node, "(" + other.join(parts) + ")", "boolop")
        for i in range(len(parts)):
            self.put(node, "(" + word.join(parts[:i] + parts[i + 1:]) + ")", "operand")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, "(" + self.src(node.operand) + ")", "not")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            self.put(node, str(not value), "constant")
        elif isinstance(value, int):
            self.put(node, str(value + 1), "constant")
            self.put(node, str(value - 1), "constant")
        elif isinstance(value, str) and value and "\n" not in value and len(value) < 30:
            self.put(node, repr(value + "x"), "string")

    def visit_JoinedStr(self, node):
        pass

    def condition(self, node):
        self.put(node.test, "True", "condition")
        self.put(node.test, "False", "condition")

    def visit_If(self, node):
        self.condition(node)
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.condition(node)
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not isinstance(node.value, ast.Constant):
            if not (isinstance(node.value, ast.Tuple)):
                self.put(node.value, "None", "return")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, (ast.Add, ast.Sub)):
            sign = "-" if isinstance(node.op, ast.Add) else "+"
            self.put(node, f"{self.src(node.left)} {sign} {self.src(node.right)}", "binop")
            if isinstance(node.op, ast.Add):
                self.put(node, f"{self.src(node.right)} + {self.src(node.left)}", "order")
                self.put(node, self.src(node.left), "half")
                self.put(node, self.src(node.right), "half")
        self.generic_visit(node)

    def visit_Call(self, node):
        name = getattr(node.func, "id", "")
        if name.startswith(("fail_", "pass_")) or name in ("assert_", "print", "TypeError"):
            return  # arguments which only go into messages
        if len(node.args) > 1 and not node.keywords:
            for i, arg in enumerate(node.args):
                if isinstance(node.func, ast.Attribute) and node.func.attr == "union":
                    rest = [self.src(a) for j, a in enumerate(node.args) if j != i]
                    self.put(node, f"{self.src(node.func)}({', '.join(rest)})", "argument")
            for i in range(len(node.args) - 1):
                args = [self.src(a) for a in node.args]
                args[i], args[i + 1] = args[i + 1], args[i]
                self.put(node, f"{self.src(node.func)}({', '.join(args)})", "swap")
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            self.put(node, self.src(node.value), "slice")
        self.generic_visit(node)

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
            for i in range(len(node.elts)):
                rest = [self.src(e) for j, e in enumerate(node.elts) if j != i]
                self.put(node, "(" + ", ".join(rest) + ",)", "element")
        self.generic_visit(node)

    def visit_List(self, node):
        for i in range(len(node.elts)):
            rest = [self.src(e) for j, e in enumerate(node.elts) if j != i]
            self.put(node, "[" + ", ".join(rest) + "]", "element")
        self.generic_visit(node)

    def visit_Dict(self, node):
        for i in range(len(node.keys)):
            rest = [
                ("**" + self.src(v)) if k is None else f"{self.src(k)}: {self.src(v)}"
                for j, (k, v) in enumerate(zip(node.keys, node.values)) if j != i
            ]
            self.put(node, "{" + ", ".join(rest) + "}", "element")
        self.generic_visit(node)

    def body(self, statements):
        for statement in statements:
            doc = isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant)
            if isinstance(statement, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Assert)) and not doc:
                self.put(statement, "pass", "delete")
            if isinstance(statement, ast.Return):
                self.put(statement, "pass", "delete")
            if isinstance(statement, ast.AnnAssign) and statement.value is not None and not isinstance(statement.value, ast.Constant):
                pass
            if isinstance(statement, ast.If) and not statement.orelse:
                pass
            if isinstance(statement, ast.Try):
                for handler in statement.handlers:
                    if handler.type is not None:
                        self.put(handler.type, "BaseException", "handler")

    def generic_visit(self, node):
        for field in ("body", "orelse", "finalbody"):
            part = getattr(node, field, None)
            if isinstance(part, list):
                self.body(part)
        # Annotations and decorators are left alone.
        for name, value in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for item in value if isinstance(value, list) else [value]:
                if isinstance(item, ast.AST):
                    self.visit(item)


def mutants(path):
    text = open(os.path.join(REPO, path)).read()
    finder = Finder(text)
    finder.visit(ast.parse(text))
    seen = set()
    for m in finder.out:
        new = finder.raw[: m["start"]] + m["new"].encode() + finder.raw[m["end"]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        yield {"file": path, **m}


def copy(where, m):
    shutil.rmtree(where, ignore_errors=True)
    shutil.copytree(REPO, where, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    path = os.path.join(where, m["file"])
    raw = open(path, "rb").read()
    open(path, "wb").write(raw[: m["start"]] + m["new"].encode() + raw[m["end"]:])


def tests(where):
    env = {k: v for k, v in os.environ.items() if k not in ("ASTARC", "ASTA_TYPECHECK", "PYTHONPATH")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", TF_CPP_MIN_LOG_LEVEL="3",
               TF_ENABLE_ONEDNN_OPTS="0", CUDA_VISIBLE_DEVICES="-1", HYPOTHESIS_STORAGE_DIRECTORY=where + "/.hyp",
               OMP_NUM_THREADS="1")
    out = where + ".xml"
    try:
        subprocess.run(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "--hypothesis-profile=ci", "--tb=no",
             "--ignore=asta/tests/test_tensor.py", "--ignore=asta/tests/test_decorator.py", "--ignore=asta/tests/rl",
             "-o", "junit_family=xunit2", f"--junitxml={out}", "asta/tests"],
            cwd=where, env=env, capture_output=True, timeout=300, check=False)
        import xml.etree.ElementTree as ET
        passed = set()
        for case in ET.parse(out).getroot().iter("testcase"):
            if not any(case.find(x) is not None for x in ("skipped", "failure", "error")):
                passed.add(case.get("classname") + "::" + case.get("name"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        return stable <= passed
    except (subprocess.TimeoutExpired, OSError, ET.ParseError):
        return False
    finally:
        if os.path.exists(out):
            os.remove(out)


ORDER = {
    "decorators": "C08 C09 C05 C12 C04 C21 C10 C13", "utils": "C03 C18 C01 C22 C17 C04 C14", "parser": "C16 C22 C17 C18 C01",
    "substitution": "C06 C07 C12 C18", "origins": "C15 C14 C12 C18 C04 C21 C13", "classes": "C22 C17 C16 C19 C01",
    "_array": "C02 C22 C03 C18 C17 C16 C01", "_tftensor": "C02 C22 C03 C18 C17 C16 C01", "_tensor": "C02 C22 C03 C18 C17 C16 C01",
    "dims": "C06 C22 C07", "shapes": "C07 C22 C06", "placeholder": "C07 C22 C16", "config": "C11 C10 C13",
    "constants": "C02 C22 C19 C06 C07 C15 C01", "unusable": "C19", "warning": "C13 C10", "_internal": "C11 C10",
    "display": "C12 C13 C15 C14",
}


def environment(where, threads):
    return {**os.environ, "ASTA_REPO": where, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_WORKERS": str(threads)}


def run_checks(m, where, threads):
    env = environment(where, threads)
    for name in ORDER.get(os.path.basename(m["file"])[:-3], "C02 C19").split():
        try:
            done = subprocess.run([PY, "-B", VERIF + "/mc/run.py", name], cwd=VERIF, env=env, capture_output=True, text=True, timeout=1500, check=False)
        except subprocess.TimeoutExpired:
            return name + "?timeout", ""
        if done.returncode != 0:
            text = (done.stdout + done.stderr)[-400:]
            return name if "VIOLATION" in done.stdout else name + f"?rc{done.returncode}", text
    return None, ""


def main():
    command, base = sys.argv[1:3]
    os.makedirs(base, exist_ok=True)
    if command == "list":
        with open(base + "/mutants.jsonl", "w") as out:
            n = 0
            for path in sys.argv[3:]:
                for m in mutants(path):
                    m["id"] = n
                    n += 1
                    out.write(json.dumps(m) + "\n")
        print(n)
        return
    source = {"gate": "mutants.jsonl", "check": "sample.jsonl"}[command]
    target = {"gate": "gated.jsonl", "check": "results.jsonl"}[command]
    todo = [json.loads(line) for line in open(f"{base}/{source}")]
    log = f"{base}/{target}.done"
    done = set(map(int, open(log).read().split())) if os.path.exists(log) else set()
    todo = [m for m in todo if m["id"] not in done]
    workers = int(sys.argv[3])

    def one(m):
        where = f"{base}/copy{m['id']}"
        copy(where, m)
        try:
            if command == "gate":
                return m, (m if tests(where) else None)
            caught, text = run_checks(m, where, max(1, 8 // workers))
            return m, {**m, "caught": caught, "text": text}
        finally:
            shutil.rmtree(where, ignore_errors=True)

    with concurrent.futures.ThreadPoolExecutor(workers) as pool, open(f"{base}/{target}", "a") as out, open(log, "a") as logged:
        for m, result in pool.map(one, todo):
            if result is not None:
                out.write(json.dumps(result) + "\n")
                out.flush()
            logged.write(f"{m['id']}\n")
            logged.flush()


if __name__ == "__main__":
    main()
