"""Reference models, independent of asta and written to be boring.

Patterns are tuples over
  int            that very dimension
  -1             one dimension of positive size
  ...            a possibly empty run of positive dimensions
  None           matches nothing
  Poly           an expression over symbols, equal to the dimension
"""
import functools
from fractions import Fraction


class Poly:
    """A polynomial: {monomial: coefficient}, a monomial being ((name, power), ...)."""

    def __init__(self, terms, src):
        self.terms = {m: Fraction(c) for m, c in terms.items() if c != 0}
        self.src = src

    def __repr__(self):
        return self.src

    def subs(self, values):
        """The polynomial with some names replaced by numbers."""
        out = {}
        for mono, coef in self.terms.items():
            rest = []
            for name, power in mono:
                if name in values:
                    coef = coef * Fraction(values[name]) ** power
                else:
                    rest.append((name, power))
            rest = tuple(rest)
            out[rest] = out.get(rest, 0) + coef
        return Poly(out, self.src)

    @property
    def names(self):
        return {name for mono in self.terms for name, _ in mono}

    def constant(self):
        """Its value if it has no symbols, else None."""
        if any(self.terms[m] for m in self.terms if m):
            return None
        return self.terms.get((), Fraction(0))

    def linear(self):
        return all(sum(p for _, p in m) <= 1 for m in self.terms)

    def minus(self, number):
        terms = dict(self.terms)
        terms[()] = terms.get((), Fraction(0)) - number
        return Poly(terms, f"{self.src} - {number}")

    def key(self):
        return tuple(sorted(self.terms.items()))


def poly(src):
    """Parses a small expression (+, -, *, ** with integers) into a Poly."""
    import ast

    def walk(node):
        if isinstance(node, ast.Expression):
            return walk(node.body)
        if isinstance(node, ast.Constant):
            return {(): Fraction(node.value)}
        if isinstance(node, ast.Name):
            return {((node.id, 1),): Fraction(1)}
        if isinstance(node, ast.Attribute):  # ``dims.K`` -> ``K``
            return {((node.attr, 1),): Fraction(1)}
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            return {m: -c for m, c in walk(node.operand).items()}
        if isinstance(node, ast.BinOp):
            left, right = walk(node.left), walk(node.right)
            if isinstance(node.op, ast.Add):
                return add(left, right, 1)
            if isinstance(node.op, ast.Sub):
                return add(left, right, -1)
            if isinstance(node.op, ast.Mult):
                return mul(left, right)
            if isinstance(node.op, ast.Div):
                (mono, coef), = right.items()
                assert mono == ()
                return {m: c / coef for m, c in left.items()}
            if isinstance(node.op, ast.Pow):
                (mono, power), = right.items()
                assert mono == ()
                out = {(): Fraction(1)}
                for _ in range(int(power)):
                    out = mul(out, left)
                return out
        raise ValueError(ast.dump(node))

    def add(left, right, sign):
        out = dict(left)
        for mono, coef in right.items():
            out[mono] = out.get(mono, 0) + sign * coef
        return out

    def mul(left, right):
        out = {}
        for m1, c1 in left.items():
            for m2, c2 in right.items():
                powers = {}
                for name, power in m1 + m2:
                    powers[name] = powers.get(name, 0) + power
                mono = tuple(sorted(powers.items()))
                out[mono] = out.get(mono, 0) + c1 * c2
        return out

    return Poly(walk(ast.parse(src, mode="eval")), src)


def solvable(equations):
    """Whether polynomial equations (each ``poly == 0``) have a common complex root."""
    todo = []
    for equation in equations:
        const = equation.constant()
        if const is None:
            todo.append(equation)
        elif const != 0:
            return False
    if not todo:
        return True
    return _solvable(tuple(sorted({eq.key() for eq in todo})))


@functools.lru_cache(maxsize=None)
def _solvable(keys):
    polys = [dict(key) for key in keys]
    if all(sum(p for _, p in m) <= 1 for terms in polys for m in terms):
        return _gauss(polys)
    import sympy

    exprs = []
    names = set()
    for terms in polys:
        expr = sympy.Integer(0)
        for mono, coef in terms.items():
            term = sympy.Rational(coef.numerator, coef.denominator)
            for name, power in mono:
                names.add(name)
                term = term * sympy.Symbol("m_" + name) ** power
            expr = expr + term
        exprs.append(expr)
    gens = [sympy.Symbol("m_" + name) for name in sorted(names)]
    # Nullstellensatz: no common complex root iff the ideal contains 1.
    basis = sympy.groebner(exprs, *gens, order="grevlex")
    return list(basis.exprs) != [sympy.Integer(1)]


def _gauss(polys):
    names = sorted({n for terms in polys for m in terms for n, _ in m})
    rows = []
    for terms in polys:
        row = [terms.get(((n, 1),), Fraction(0)) for n in names]
        row.append(terms.get((), Fraction(0)))
        rows.append(row)
    rank = 0
    for col in range(len(names)):
        pivot = next((r for r in range(rank, len(rows)) if rows[r][col]), None)
        if pivot is None:
            continue
        rows[rank], rows[pivot] = rows[pivot], rows[rank]
        lead = rows[rank][col]
        rows[rank] = [x / lead for x in rows[rank]]
        for r in range(len(rows)):
            if r != rank and rows[r][col]:
                factor = rows[r][col]
                rows[r] = [x - factor * y for x, y in zip(rows[r], rows[rank])]
        rank += 1
    return all(any(row[:-1]) or row[-1] == 0 for row in rows)


def readings(pattern, shape):
    """Every way to read ``shape`` off ``pattern``, as a list of equations each."""
    if not pattern:
        if not shape:
            yield ()
        return
    head, rest = pattern[0], pattern[1:]
    if head is Ellipsis:
        for size in range(len(shape) + 1):
            if 0 in shape[:size]:
                break
            yield from readings(rest, shape[size:])
        return
    if not shape:
        return
    dim = shape[0]
    if head is None:
        return
    if isinstance(head, Poly):
        for tail in readings(rest, shape[1:]):
            yield (head.minus(dim),) + tail
        return
    if head == -1:
        if dim != 0:
            yield from readings(rest, shape[1:])
        return
    if head == dim:
        yield from readings(rest, shape[1:])


def shape_accepts(pattern, shape, extra=()):
    """``pattern`` is None (no shape given), or a tuple as above."""
    if pattern is None:
        return solvable(extra)
    return any(solvable(eqs + tuple(extra)) for eqs in readings(pattern, shape))


@functools.lru_cache(maxsize=None)
def literal_accepts(pattern, shape):
    """``shape_accepts`` for patterns without expressions, cached by suffix."""
    if not pattern:
        return not shape
    head = pattern[0]
    if head is Ellipsis:
        if literal_accepts(pattern[1:], shape):
            return True
        return bool(shape) and shape[0] != 0 and literal_accepts(pattern, shape[1:])
    if not shape or head is None:
        return False
    if head == -1:
        return shape[0] != 0 and literal_accepts(pattern[1:], shape[1:])
    return head == shape[0] and literal_accepts(pattern[1:], shape[1:])
