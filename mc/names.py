"""Names for placeholders and symbols which differ little, or mean something elsewhere."""

NAMES = [
    "N", "n", "N1", "n1", "N2", "N10", "N01", "_N", "N_", "NN", "N_1", "Alpha", "alpha", "ALPHA", "batch", "batch_size", "size",
    "X", "x", "I", "i", "pi", "E", "e", "S", "O", "Q", "T", "shape", "dtype", "name", "value", "items", "self", "None_", "lambda_",
    "\u03b1", "\u0391", "symbol", "map", "unset", "y", "Y", "Z", "zoo", "oo", "Symbol",
]


def pairs(tier):
    """Every ordered pair of different names; quick: with the first name from a few."""
    first = NAMES if tier == "thorough" else NAMES[:6] + ["I", "E", "alpha", "\u03b1", "X", "S"]
    return [(a, b) for a in first for b in NAMES if a != b]
