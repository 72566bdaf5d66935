"""Signatures of every kind, and their calls, for the checks about the two output options."""
import itertools

from mc import grammar as g
from mc import lib


def leaves(family):
    if family != "Array":
        f = dict(family=family)
        return [g.Arr((1,), **f), g.Arr((..., 3), **f), g.Arr(("X", "X + 1"), **f, more=[(1, 2), (3, 3)]), g.Arr(None, **f)]
    return [
        g.Arr((1,)),
        g.Arr((..., 3), dtype="float", more=[(5, 3), (0, 3)]),
        g.Arr(None),
        g.Arr(()),
        g.Arr(("X", "X + 1"), more=[(1, 2), (3, 3), (2, 3)]),
        g.Arr(("X*Y", "X", "Y"), more=[(6, 2, 3), (5, 2, 3)]),
        g.Attr({"tag": 1}),
        g.Attr({"size_": "X"}, ("X",)),
        g.Attr({"tag": 1, "size_": "X + 1"}, ("X", -1)),
        g.Arr((2,), source="Array[D]", more=[(3,)]),
        g.Arr((4, 2), source="Array[2*D, D]", more=[(4, 3)]),
        g.Arr((1, 2, 3), source="Array[1, W]", more=[(1, 2)]),
        g.Arr((2, 3, 1), source="Array[W + (1,)]", more=[(1, 2)]),
        g.Never((2,), source="Array[U]", more=[(3,)]),
        g.Never((2, 2), source="Array[U + 1, X]", more=[(3,)]),
        g.Never((2,), source="Array[V]", more=[(3,)]),
        g.Never((1, 2, 3), source="Array[1, V]", more=[(3,)]),
        g.Never((2, 1), source="Array[(*V, 1)]", more=[(3,)]),
        g.Never((2, 1), source="Array[V + (1,)]", more=[(3,)]),
        g.Never((2, 3), source="Array[V + W]", more=[(3,)]),
        g.Never((1,), source="Array[D/4]", more=[(2,)]),
    ]


def around(x, y, tag):
    s = g.Plain("str", g.inst(str), ["'k'"], ["7"])
    out = [
        g.Listing("List", x), g.Listing("Sequence", x), g.Mapping(s, x), g.Fixed([x, y]), g.Fixed([x], ellipsis=True),
        g.Choice([x], "Optional"), g.Named(f"NT{tag}", [("a", x), ("b", y)]),
        g.Typed(f"TD{tag}", [("a", x, True), ("b", y, False)]),
    ]
    if isinstance(x, g.Arr) and "X" not in x.source and not isinstance(x, g.Never):
        out.append(g.Choice([x, y]))
        out.append(g.Choice([y, x]))
    return out


def singles(family, tier):
    base = leaves(family)
    out = list(base)
    y = g.Arr((2, -1), family=family, more=[(2, 7)])
    for index, leaf in enumerate(base):
        out += around(leaf, y, f"p{index}")
    inner = list(out[len(base):])
    for index, node in enumerate(inner):
        if tier == "thorough" or index % 7 == 0:
            out += [g.Listing("List", node), g.Fixed([node, y])]
            if not node.union:
                out.append(g.Named(f"NN{index}", [("a", node)]))
    # Elements which have one annotation
    for index, leaf in enumerate(base[:5]):
        out += [
            g.Fixed([leaf, leaf]), g.Fixed([leaf, y, leaf]), g.Named(f"NS{index}", [("a", leaf), ("b", y), ("c", leaf)]),
            g.Typed(f"TS{index}", [("a", leaf, True), ("b", y, True), ("c", leaf, False)]), g.Fixed([g.Listing("List", leaf)] * 2),
        ]
    if family == "Array":
        # Names and messages of unusual length and with unusual characters
        table = {f"attribute_number_{i}": i for i in range(30)}
        wide = g.Attr({**table, "size_": "X"}, ("X", ...))
        long = g.Arr(tuple([1, 2] * 14), more=[[1, 2] * 13])
        foreign = g.Attr({"gr\u00f6\u00dfe": 1})
        out += [wide, long, foreign, g.Arr((0, 123456789012345))]
        keys = ("a much longer key with \u00e4\u00f6\u00fc and spaces in it" * 3, "{}", "{0}", "%s %d", "\u5f62\u72b6", "[0].k: <x>")
        for index, key in enumerate(keys):
            s = g.Plain("str", g.inst(str), [repr(key)], ["7"])
            for elem in (base[0], base[4], long, g.Listing("List", base[0])):
                out.append(g.Mapping(s, elem))
            fields = [(key, base[0], True), ("b", y, False)]
            out.append(g.Typed(f"TK{index}", fields))
        for index, marks in enumerate(("both", "total=False", "noted")):
            out.append(g.Typed(f"TR{index}", [("a", base[0], True), ("b", y, False)], marks))
        for index, field in enumerate(("gr\u00f6\u00dfe", "a_much_longer_field_name" * 8)):
            out.append(g.Named(f"NK{index}", [(field, base[0]), ("b", g.Listing("List", y))]))
        out += [g.Fixed([]), g.Setting("Set", base[0]), g.Choice([g.Fixed([base[0]]), g.Listing("List", base[0])])]
        out += g.plain_nodes()
        for index, node in enumerate(g.plain_nodes()):
            if tier == "thorough" or index % 4 == 0:
                out += [g.Listing("List", node), g.Choice([base[0], node]), g.Fixed([node, base[4]])]
    return out


def cores(tier):
    x = g.Arr(("X",), more=[(3,)])
    out = [
        g.Arr((1,)), x, g.Arr(("Y", "X"), more=[(2, 3)]), g.Listing("List", x), g.Choice([g.Arr((1,))], "Optional"),
        g.Plain("int", g.inst(int), ["7"], ["'x'"]), g.Attr({"size_": "X"}),
        g.Arr((2,), source="Array[D]", more=[(3,)]), g.Never((2,), source="Array[U]"),
    ]
    if tier == "thorough":
        out += [g.Fixed([x, g.Arr(("Y + 1",), more=[(3,)])]), g.Never((1, 2, 3), source="Array[1, V]"),
                g.Mapping(g.Plain("str", g.inst(str), ["'k'"], ["7"]), x)]
    return out


def prepare(nodes):
    g.prepare()
    dims, shapes = lib.NS["dims"], lib.NS["shapes"]
    g.ENV.update(D=dims.D, U=dims.U, W=shapes.W, V=shapes.V)
    dims.D = 2
    shapes.W = (2, 3)
    g.define(nodes)


def calls(ctx, space, family):
    """Yields (case, nodes, returns, function, argument sources, result source)."""
    if space == "single":
        g.prepare()
        nodes = singles(family, ctx.tier)
        prepare(nodes)
        done = set()
        for index, node in enumerate(nodes):
            if node.source in done or not ctx.mine():
                continue
            done.add(node.source)
            one, two = g.make_function([node]), g.make_function([], node)
            for source in dict.fromkeys(node.values):
                if "Literal" in node.source and "True" in source:
                    continue  # whether True is a 1 is left open
                yield {"index": index, "place": 0, "value": source}, [node], None, one, [source], "object()"
                yield {"index": index, "place": 1, "value": source}, [], node, two, [], source
        return
    nodes = cores(ctx.tier)
    prepare(nodes)
    for combo in itertools.product(range(len(nodes)), repeat=3):
        if not ctx.mine():
            continue
        p, q, r = (nodes[i] for i in combo)
        func = g.make_function([p, q], r)
        for sources in itertools.product(p.small[:3], q.small[:3], r.small[:3]):
            yield {"combo": combo, "values": sources}, [p, q], r, func, list(sources[:2]), sources[2]


def again(ctx, case, family):
    """The one call of a recorded case."""
    if "index" in case:
        g.prepare()
        nodes = singles(family, ctx.tier)
        prepare(nodes)
        node = nodes[case["index"]]
        if case["place"]:
            return case, [], node, g.make_function([], node), [], case["value"]
        return case, [node], None, g.make_function([node]), [case["value"]], "object()"
    nodes = cores(ctx.tier)
    prepare(nodes)
    p, q, r = (nodes[i] for i in case["combo"])
    return case, [p, q], r, g.make_function([p, q], r), list(case["values"][:2]), case["values"][2]


def describe(nodes, returns, sources, result):
    arrow = f" -> {returns.source}" if returns is not None else ""
    return f"f({', '.join(n.source for n in nodes)}){arrow} with {sources}, result {result}"
