"""C15: plain Python types are enforced only when asked for."""
import itertools

from mc import grammar as g
from mc import lib

LEVEL = "exploration"
RULE = (
    "every plain annotation of the stated list, as parameter and result, alone, inside every container "
    "constructor and next to an array parameter x the union of all annotations' fitting and unfitting "
    "values and junk of every kind, with check-non-asta-types on and off; plus every ordered pair of "
    "annotations: first one checked against each of its values, then, in the same process, the other "
    "one; verdict, body runs and result of the real call against the model. Non-trivial: the option is "
    "on, or an array annotation stands next to the plain one"
)
ASSUMPTIONS = [
    "literal None, string annotations, NewType and non-runtime protocols are not explored",
    "Callable is not tested with callables that have required keyword-only parameters",
    "Literal is tested with values of the options' own types (no True against 1)",
]


def bounds(tier):
    return {
        "annotations": "see grammar.plain_nodes (55)",
        "containers": "List Sequence Dict(key, value) Tuple Optional Union | NamedTuple TypedDict"
        + (", two levels" if tier == "thorough" else ""),
        "history": "two annotations" + (", three over every third" if tier == "thorough" else ""),
    }


def jobs(tier):
    out = []
    for plain in ("yes", "no"):
        config = {"check-non-asta-types": plain}
        out += lib.split(4, name=f"alone {plain}", params={"space": "alone"}, config=config)
        out += lib.split(6, name=f"inside {plain}", params={"space": "inside"}, config=config)
        out += lib.split(6, name=f"history {plain}", params={"space": "history"}, config=config)
    out += lib.split(
        2, name="first element", params={"space": "inside"},
        config={"check-non-asta-types": "yes", "check-all-sequence-elements": "no"},
    )
    return out


def skip(node, source):
    """Values about which 'an instance in the usual sense' says nothing certain."""
    if node.source.startswith("Literal"):
        return source in ("True", "[3, 'x']")
    if node.source == "Type[TC]":
        return source not in node.values  # classes other than the constraints
    return False


def universe(plain):
    return list(dict.fromkeys(v for n in plain for v in n.values))


def wrapped(node, tier):
    a = g.Arr((1,))
    s = g.Plain("str", g.inst(str), ["'k'"], ["7"])
    tag = "".join(c if c.isalnum() else "_" for c in node.source)
    level = [
        g.Listing("List", node), g.Listing("Sequence", node), g.Mapping(s, node), g.Fixed([a, node]),
        g.Fixed([node], ellipsis=True), g.Choice([node], "Optional"), g.Choice([node, a]), g.Choice([a, node]),
        g.Named("N" + tag, [("a", a), ("b", node)]), g.Typed("D" + tag, [("a", node, True), ("b", a, False)]),
    ]
    if hasattr(g.evaluate(node.source), "__or__") and node.source not in ("Any",):
        level.append(g.Choice([a, node], "|"))
    if node.source in ("int", "str", "bool", "bytes", "float", "object", "Color"):
        level.append(g.Mapping(node, a))
        level.append(g.Setting("Set", node))
    if tier == "thorough":
        for index, inner in enumerate(list(level)):
            level += [
                g.Listing("List", inner), g.Mapping(s, inner), g.Fixed([inner, a]), g.Choice([inner, a]),
                g.Named(f"N{index}{tag}", [("a", inner)]),
            ]
    return level


def run(ctx):
    g.prepare()
    cfg = g.Cfg(ctx.job.get("config", {}))
    plain = g.plain_nodes()
    space = ctx.params["space"]
    if space == "alone":
        values = universe(plain)
        for node in plain:
            functions = build(node)
            for source in values:
                if ctx.mine() and not skip(node, source):
                    alone(ctx, node, source, functions, cfg)
    elif space == "inside":
        for node in plain:
            for outer in wrapped(node, ctx.tier):
                if not ctx.mine():
                    continue
                g.define([outer])
                func = g.make_function([outer])
                for source in dict.fromkeys(outer.values):
                    if not skip_inside(node, source):
                        decide(ctx, "inside", outer, [outer], [source], None, func, cfg)
    else:
        history(ctx, plain, cfg)


def skip_inside(node, source):
    return node.source.startswith("Literal") and ("True" in source or "3" in source)


def build(node):
    array = g.Arr((1,))
    return {
        "parameter": ([node], None, g.make_function([node])),
        "result": ([], node, g.make_function([], node)),
        "before an array": ([node, array], None, g.make_function([node, array])),
        "after an array": ([array, node], array, g.make_function([array, node], array)),
    }


def alone(ctx, node, source, functions, cfg):
    for place, (nodes, returns, func) in functions.items():
        if place == "result":
            decide(ctx, place, node, nodes, [], returns, func, cfg, source)
        elif place == "parameter":
            decide(ctx, place, node, nodes, [source], returns, func, cfg)
        elif place == "before an array":
            for other in ("arr(1)", "arr(2)"):
                decide(ctx, place, node, nodes, [source, other], returns, func, cfg)
        else:
            for other, result in (("arr(1)", "arr(1)"), ("arr(2)", "arr(1)"), ("arr(1)", "arr(2)")):
                decide(ctx, place, node, nodes, [other, source], returns, func, cfg, result)


def decide(ctx, place, node, nodes, sources, returns, func, cfg, result="object()", case=None):
    want, seen, _, _ = g.judge(func, nodes, sources, returns, result, cfg)
    ctx.count("evaluations")
    ctx.outcome(want)
    if cfg.plain or "array" in place or place == "inside":
        ctx.count("distinct_nontrivial")
    if seen[:3] != g.HARD[want]:
        ctx.violation(
            case or {"place": place, "annotation": node.source, "sources": sources, "result": result},
            f"{place}, annotations {[n.source for n in nodes]} -> {returns.source if returns else None}, values "
            f"{sources}, result {result}: should be {want}; outcome {seen[0]}, body runs {seen[1]}, the object "
            f"itself returned: {seen[2]}",
        )
    elif want != "accepted" and place != "history":
        ctx.sample({"annotations": [n.source for n in nodes], "values": sources, "verdict": want}, 2)


def history(ctx, plain, cfg):
    a = g.Arr((1,))
    extra = [a, g.Listing("List", a), g.Choice([a], "Optional"), g.Fixed([a, plain[0]]), g.Listing("Sequence", plain[0])]
    nodes = plain + extra
    functions = [g.make_function([n]) for n in nodes]
    for first, node in enumerate(nodes):
        if not ctx.mine():
            continue

        def child(sub, first=first, node=node):
            for source in dict.fromkeys(node.values):
                if not skip(node, source):
                    case = {"history": [[first, source]]}
                    decide(sub, "history", node, [node], [source], None, functions[first], cfg, case=case)
            second_round(sub, nodes, functions, [first], cfg)

        lib.forked(child, ctx)
        if ctx.tier == "thorough" and first % 3 == 0:
            for second in range(0, len(nodes), 3):

                def deeper(sub, first=first, second=second):
                    for index in (first, second):
                        for source in dict.fromkeys(nodes[index].values):
                            g.judge(functions[index], [nodes[index]], [source], None, "None", cfg)
                    second_round(sub, nodes, functions, [first, second], cfg)

                lib.forked(deeper, ctx)


def second_round(ctx, nodes, functions, earlier, cfg):
    for index, node in enumerate(nodes):
        for source in dict.fromkeys(node.values[: max(4, len(node.values) - len(g.JUNK))] + g.JUNK[:14]):
            if not skip(node, source):
                case = {"history": [[i, None] for i in earlier] + [[index, source]]}
                decide(ctx, "history", node, [node], [source], None, functions[index], cfg, case=case)


def replay(case, ctx):
    g.prepare()
    cfg = g.Cfg(ctx.job.get("config", {}))
    plain = g.plain_nodes()
    if "history" in case:
        a = g.Arr((1,))
        extra = [a, g.Listing("List", a), g.Choice([a], "Optional"), g.Fixed([a, plain[0]]), g.Listing("Sequence", plain[0])]
        nodes = plain + extra
        for index, source in case["history"]:
            func = g.make_function([nodes[index]])
            for value in [source] if source else dict.fromkeys(nodes[index].values):
                if source:
                    decide(ctx, "history", nodes[index], [nodes[index]], [value], None, func, cfg, case=case)
                else:
                    g.judge(func, [nodes[index]], [value], None, "None", cfg)
        return
    for node in plain:
        if case["place"] == "inside":
            for outer in wrapped(node, ctx.tier):
                if outer.source == case["annotation"]:
                    g.define([outer])
                    decide(ctx, "inside", outer, [outer], case["sources"], None, g.make_function([outer]), cfg)
                    return
        elif node.source == case["annotation"]:
            nodes, returns, func = build(node)[case["place"]]
            decide(ctx, case["place"], node, nodes, case["sources"], returns, func, cfg, case["result"])
            return


del itertools
