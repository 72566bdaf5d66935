#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Shape patterns accept exactly the shapes they describe",
     "For every shape annotation built from integers, wildcards (-1), ellipses and the scalar markers () / Scalar, an "
     "isinstance check accepts an array or tensor if and only if its shape can be read off the pattern: an integer is that "
     "very dimension, a wildcard is one dimension of positive size, an ellipsis is a possibly empty run of positive "
     "dimensions, and no dimension is left over. With no shape given every shape is accepted, the scalar markers accept only "
     "zero-dimensional values, and None as a dimension matches nothing. Array, Tensor and TFTensor agree, and the answer "
     "does not depend on earlier checks.",
     ["inputs"], "every pattern over {integers, -1, ..., None, scalar markers} of any length, every value shape (zero sizes and rank 0 included), every array family",
     "The tests sample a few hand-written patterns and Hypothesis shapes with at most one ellipsis in one place; repeated "
     "sizes next to an ellipsis, several ellipses, and zero sizes inside or outside a run combine in ways a sample misses.",
     ["asta/utils.py", "asta/parser.py", "asta/classes.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("shapecheck", "asta/utils.py"), ("check_equal / is_subtuple", "asta/utils.py"), ("get_shape", "asta/classes.py"),
      ("__instancecheck__", "asta/_array.py, asta/_tftensor.py, asta/_tensor.py")],
     observe=["isinstance(value, Array[...])", "isinstance(value, TFTensor[...])", "isinstance(value, Tensor[...])"])

prop("C02", "Dtype annotations accept exactly the requested element type",
     "An isinstance check against an annotation with a dtype accepts a value if and only if it is an array of that library "
     "whose element type is the requested one: for Array a Python type means NumPy's native dtype for it, with str, bytes, "
     "object, datetime and timedelta covering every width or unit, and byte order and bit width otherwise matter; for TFTensor "
     "and Tensor a Python type means the documented mapping (int and float are the 32-bit types). Where a shape is also given, "
     "both must hold, independently of each other, and something that is not an array of that library is never accepted.",
     ["inputs"], "every accepted dtype argument, every value dtype, every shape argument combined with it, and values that are no arrays",
     "The tests try a handful of dtypes, mostly without a shape, and never widths of str/bytes, byte orders, units, or dtype combined with all shape forms.",
     ["asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py", "asta/constants.py", "asta/parser.py"],
     [("get_dtype", "asta/_array.py, asta/_tftensor.py, asta/_tensor.py"), ("__instancecheck__", "asta/_array.py"),
      ("TF_DTYPE_MAP, TORCH_DTYPE_MAP, NP_UNSIZED_TYPE_KINDS", "asta/constants.py")],
     observe=["isinstance(value, Array[dtype, ...])"])

prop("C03", "Symbolic dimensions match exactly when the equations can be solved",
     "When an annotation contains expressions over asta.symbols, an isinstance check accepts a value if and only if its shape "
     "can be read off the pattern such that all equations 'expression = dimension' together have at least one solution, each "
     "symbol having one value throughout the annotation. Solutions need not be positive or whole numbers, and integers, "
     "wildcards and ellipses keep their usual meaning next to expressions.",
     ["inputs"], "every sequence of expressions (polynomial in a few symbols), integers, wildcards and ellipses, against every shape",
     "One test with one shape and six patterns; whether a system is consistent depends on all dimensions together.",
     ["asta/utils.py", "asta/parser.py", "asta/symbols.py"],
     [("astasolver", "asta/utils.py"), ("check_equal", "asta/utils.py"), ("shapecheck", "asta/utils.py")],
     observe=["isinstance(value, Array[X, X + 1, ...])"])

prop("C04", "Symbols have one value across a whole type-checked call",
     "Within one call of a type-checked function a symbol stands for one and the same value in all parameter annotations and "
     "in the return annotation, including annotations nested in tuples, lists, dictionaries, NamedTuples and TypedDicts. The call is accepted if and "
     "only if every value matches its own annotation and the equations of all of them together have a solution; a conflict "
     "among the parameters is a TypeError before the body runs, a conflict with the result is a TypeError instead of the result.",
     ["inputs", "programs"], "every function signature over a small set of symbolic annotations (with at most one ellipsis each) and containers, every tuple of argument and result shapes, positional or keyword passing",
     "Each test calls one fixed signature with consistent shapes; conflicts that only appear between two parameters, or between a container element and the result, are not enumerated.",
     ["asta/decorators.py", "asta/origins.py", "asta/utils.py"],
     [("_wrapper equation set", "asta/decorators.py"), ("check_annotation and the per-container checkers", "asta/origins.py"), ("astasolver", "asta/utils.py")],
     state=[("equations", "equations collected so far in this call", "asta/decorators.py:_wrapper")],
     observe=["calling a function decorated with @typechecked"])

prop("C05", "Every call is judged on its own: no leakage between calls",
     "Whether a call of a type-checked function is accepted depends only on that call's arguments and result and on the "
     "values of dims and shapes at that moment. Earlier calls, rejected calls, calls whose body raised, isinstance checks, "
     "newly created annotations, and nested or recursive type-checked calls made by the body never change the verdict, even "
     "when they use the same symbols, annotations or functions.",
     ["histories", "programs"], "every sequence of calls, checks and annotation constructions up to a bounded length, every nesting of type-checked calls up to a bounded depth",
     "Tests run each decorated function once or twice in a fixed order and never nest two type-checked functions.",
     ["asta/decorators.py", "asta/origins.py", "asta/utils.py", "asta/classes.py"],
     [("per-call equation set", "asta/decorators.py"), ("refresh", "asta/origins.py"), ("checker dispatch tables", "asta/origins.py"), ("annotation hash cache", "asta/classes.py")],
     state=[("ORIGIN_TYPE_CHECKERS", "module-level dispatch table", "asta/origins.py"), ("_hash", "cached annotation hash", "asta/classes.py")],
     observe=["sequences of calls of decorated functions"])

prop("C06", "dims placeholders are read at call time, with the latest value",
     "A placeholder taken from asta.dims before it has a value, alone or inside an arithmetic expression, stands in every "
     "type-checked call for the value most recently assigned to that name, whoever assigned it and however often it changed, "
     "and a call that uses a name without a value is a TypeError. Assigning anything but an integer is a TypeError and leaves "
     "the previous value in force; after an assignment, reading the name gives the assigned integer.",
     ["histories", "inputs"], "every interleaving of assignments, invalid assignments, reads and type-checked calls over a few names, up to a bounded length",
     "The tests assign one dim once; re-assignment, failed assignment, call-before-assignment and several names in one expression are never combined.",
     ["asta/dims.py", "asta/substitution.py", "asta/origins.py"],
     [("Dimensions.__setattr__/__getattr__", "asta/dims.py"), ("substitute", "asta/substitution.py"), ("refresh", "asta/origins.py")],
     state=[("symbol_map", "current value of every dim", "asta/dims.py")],
     observe=["asta.dims attributes", "calling decorated functions"])

prop("C07", "shapes placeholders are read at call time and concatenate like tuples",
     "A placeholder taken from asta.shapes before it has a value stands in every type-checked call for the tuple most recently "
     "assigned to that name, wherever it is used: alone, unpacked, next to other dimensions, or in sums with tuples and other "
     "placeholders on either side, which denote the concatenation in the written order. A call that uses a name without a value "
     "is a TypeError. Assigning anything but a tuple of integers is a TypeError and leaves the previous value in force.",
     ["histories", "inputs"], "every sum of placeholders and tuples up to a bounded size, every assignment history up to a bounded length, every argument shape",
     "The tests use three fixed sums after one assignment each; order of the operands, empty tuples, re-assignment and unset operands are not enumerated.",
     ["asta/shapes.py", "asta/placeholder.py", "asta/substitution.py", "asta/origins.py"],
     [("Placeholder.__add__, __radd__, __iter__", "asta/placeholder.py"), ("Shapes.__setattr__", "asta/shapes.py"), ("substitute", "asta/substitution.py")],
     state=[("placeholder_map", "current value of every shape", "asta/shapes.py")],
     observe=["asta.shapes attributes", "calling decorated functions"])

prop("C08", "Type checking never changes what an accepted call does",
     "When a call of a type-checked function, method, class method or static method is accepted, the body runs exactly once "
     "with exactly the arguments given, defaults included, and the caller gets exactly the object it returned or the exception "
     "it raised; when an argument is rejected the body does not run at all, and when the result is rejected the caller gets a "
     "TypeError. Every annotated parameter is judged against its own annotation, whether it is passed by position, by keyword "
     "in any order, or left to its default.",
     ["inputs", "programs"], "every signature of up to a few fully annotated parameters (with or without defaults, keyword-only, with self/cls/mcs), every way to pass them, every assignment of good and bad values, every outcome of the body",
     "Tests call with positional arguments only and do not observe how often the body runs or which objects it gets.",
     ["asta/decorators.py"],
     [("validate_annotations", "asta/decorators.py"), ("_wrapper", "asta/decorators.py")],
     observe=["calling decorated callables with a recording body"])

prop("C09", "Decorating a class equals decorating each of its methods",
     "Applying @typechecked to a class makes every annotated instance method, class method and static method defined in it "
     "behave exactly as if that method had been decorated itself: bad arguments and results raise TypeError, good ones pass "
     "through, the binding of self or cls is preserved, and everything else in the class, and the class's identity, is unchanged. "
     "Methods that were already decorated, and subclass overrides, behave consistently.",
     ["programs", "inputs"], "every class of up to a few members over {instance, class, static, unannotated, already decorated, property, plain attribute} and every call on it",
     "No test decorates a class.",
     ["asta/decorators.py"], [("class branch of typechecked", "asta/decorators.py")],
     observe=["methods of a decorated class, called on the class, an instance and a subclass instance"])

prop("C10", "Checking is on exactly when config and environment both allow it",
     "A decorated function or class is type-checked if and only if the configuration says on=yes and the environment variable "
     "ASTA_TYPECHECK, if it is set at the moment of decoration, is \"1\"; otherwise decoration returns the very same object, "
     "unchanged. Each decoration is decided by the environment at that moment, whatever it was before, and changing the "
     "variable afterwards does not affect functions already decorated.",
     ["histories", "configurations"], "every configuration value, every value of the variable at import, and every sequence of changes, decorations and calls up to a bounded length",
     "The tests set the variable once at import and never look at the off state.",
     ["asta/decorators.py", "asta/config.py", "asta/warning.py"],
     [("on/ASTA_TYPECHECK test", "asta/decorators.py"), ("get_ox", "asta/config.py")],
     state=[("ox.on", "shared configuration flag", "asta/config.py")],
     observe=["identity and behaviour of typechecked(f)"])

prop("C11", "Options come from the first configuration file found, defaults fill gaps",
     "The options in force are those of the first existing configuration file in the documented search order (astarc, .astarc, "
     "pyproject.toml and setup.cfg with an asta section in the working directory, then rc files of enclosing packages, then "
     "the file named by ASTARC or else the user's rc files), and any option not given there has its built-in default. Files "
     "later in the order, and TOML or cfg files without an asta section, have no effect.",
     ["configurations"], "every subset of the possible configuration files and option settings within them",
     "The tests run with whatever file lies in the working directory.",
     ["asta/config.py", "asta/defaults/astarc"],
     [("find_default_config_files, find_astarc", "asta/config.py"), ("read_config, get_ox", "asta/config.py")],
     state=[("_internal.ox", "the options of this process", "asta/_internal.py")],
     observe=["options of a fresh process, seen through the behaviour of @typechecked and get_ox()"])

prop("C12", "With raise-errors=no mismatches are printed, never raised",
     "With raise-errors=no a call of a type-checked function with correctly bound arguments never raises because of a type, "
     "shape, attribute or uninitialised-placeholder mismatch: the body runs exactly once, its result is returned, and at least one FAILED message is "
     "printed. A FAILED message is printed if and only if the same call would raise a TypeError with raise-errors=yes.",
     ["inputs", "configurations"], "every annotation of a bounded grammar (asta types, containers, unions, plain types), every matching and mismatching value, for arguments and results",
     "No test runs with raise-errors=no.",
     ["asta/display.py", "asta/origins.py", "asta/decorators.py", "asta/substitution.py"],
     [("handle_error", "asta/display.py"), ("check_union and container checkers", "asta/origins.py")],
     observe=["stdout and result of decorated calls under both settings"])

prop("C13", "print-passes changes only what is printed, never the verdict",
     "With print-passes=yes every accepted check of an array annotation prints a PASSED message and nothing is reported as "
     "FAILED on an accepted call without unions; with print-passes=no an accepted call prints nothing at all. Acceptance, the "
     "number of body runs and the result are the same under both settings, and importing asta prints the slow-down warning "
     "exactly when checking is on and passes are not printed.",
     ["inputs", "configurations"], "every annotation and value of a bounded grammar, under both settings, plus every combination of on / print-passes / environment at import",
     "No test looks at the output or runs with print-passes=no.",
     ["asta/display.py", "asta/origins.py", "asta/warning.py", "asta/decorators.py"],
     [("handle_pass, handle_error", "asta/display.py"), ("import-time warning", "asta/warning.py")],
     observe=["stdout of decorated calls and of import asta"])

prop("C14", "Containers of array types are checked element by element",
     "For annotations built from List, Sequence, Set, Dict, Tuple (fixed length, Tuple[T, ...] and Tuple[()], also written list[...] "
     "etc.), Optional, Union (also X | Y), NamedTuple and TypedDict around array types, a value is accepted if and only if it has the container's kind (length and "
     "keys where these are fixed) and every element, key, value or field is accepted by its annotation, a Union when at least "
     "one alternative accepts. With check-all-sequence-elements=no only the first element of a List or Sequence is examined, "
     "and nothing else changes.",
     ["inputs", "programs", "configurations"], "every annotation of the container grammar up to a bounded depth, every value with up to a few elements, each element good or bad in any position",
     "The tests use one list and one pair, each with one kind of error.",
     ["asta/origins.py"],
     [("check_list, check_sequence, check_set, check_dict, check_tuple, check_union, check_typed_dict", "asta/origins.py"), ("check_annotation dispatch", "asta/origins.py")],
     observe=["calling decorated functions with container annotations"])

prop("C15", "Plain Python types are enforced only when asked for",
     "With check-non-asta-types=yes a parameter or result annotated with an ordinary class, numeric type, Type, Callable, "
     "Literal, protocol, I/O type or Any is accepted exactly when the value is an instance in the usual sense (float and complex "
     "take only floats and complexes, bytes also takes bytearray, a Callable must be able to take that many positional "
     "arguments), also inside containers. With check-non-asta-types=no such annotations never reject a value and never raise, and "
     "array annotations next to them are enforced as always; the answer does not depend on what was checked before.",
     ["inputs", "configurations", "histories"], "every annotation of a list of plain and generic types, every value of a list covering each kind, under both settings, in every order of two checks",
     "No test has a non-array annotation, and none runs with the option on.",
     ["asta/origins.py"],
     [("check_annotation", "asta/origins.py"), ("check_class, check_callable, check_literal, check_number, check_io, check_protocol", "asta/origins.py"), ("NON_ASTA_CHECKERS", "asta/origins.py")],
     observe=["calling decorated functions under both settings"])

prop("C16", "Subscripting is compositional and never changes existing annotations",
     "Equivalent ways to write an annotation (sizes listed or as a tuple, Scalar or (), a shape split into nested tuples, "
     "a backend shape object) denote the same annotation, and subscripting an already subscripted annotation keeps the dtype, shape "
     "and attributes that are not given again. Subscripting creates a new annotation and never changes what an existing one accepts.",
     ["histories", "inputs"], "every chain of subscriptions up to a bounded length over dtype, shape and attribute arguments in every spelling, with probes of all earlier annotations after each step",
     "The tests build each annotation once in one step.",
     ["asta/classes.py", "asta/parser.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("SubscriptableMeta.__getitem__, get_shape", "asta/classes.py"), ("parse_subscript", "asta/parser.py")],
     observe=["isinstance checks against every annotation of the chain"])

prop("C17", "Equal annotations are interchangeable; unequal ones are kept apart",
     "Two annotations of the same family compare equal if and only if they have the same dtype, shape and attributes, equality is "
     "symmetric and transitive, annotations of different families are unequal, and equal annotations have equal hashes in "
     "every order of construction and hashing. Consequently typing constructs such as List[...] and Union[...] never replace an "
     "annotation by one that accepts different values.",
     ["inputs", "histories"], "every pair and triple of annotations of a bounded grammar, every order of building, hashing and comparing them",
     "The tests compare a few annotations with == and never hash one.",
     ["asta/classes.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("__eq__", "asta/_array.py, asta/_tftensor.py, asta/_tensor.py"), ("__hash__", "asta/classes.py")],
     state=[("_hash", "cached hash of an annotation", "asta/classes.py")],
     observe=["==, hash(), typing.List[...] / Union[...] of annotations and the checks done with them"])

prop("C18", "Attribute constraints are enforced wherever the annotation is used",
     "An annotation with an attribute dictionary accepts a value only if the value has every named attribute, equal to the "
     "required value; an attribute required to equal a symbolic expression takes part in the equations like a dimension does, "
     "within one check and across all parameters and the result of a type-checked call. This holds whether or not a dtype or "
     "shape is given as well, for isinstance checks and for type-checked calls alike.",
     ["inputs", "programs"], "every combination of dtype, shape (with at most one ellipsis) and attribute constraints (constants, symbols, shared symbols) with every value having, lacking or mismatching the attributes",
     "No test uses attributes.",
     ["asta/utils.py", "asta/parser.py", "asta/origins.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("attrcheck", "asta/utils.py"), ("refresh, check_asta", "asta/origins.py"), ("parse_subscript", "asta/parser.py")],
     observe=["isinstance and decorated calls with attribute annotations"])

prop("C19", "Missing backends never break the others and fail only when used",
     "With PyTorch, TensorFlow, both or neither installed, importing asta and using everything that concerns installed libraries "
     "works the same. The class of a missing library can be imported, but subscripting it, checking an instance, comparing it, printing it "
     "or type-checking a call annotated with it raises ImportError.",
     ["configurations"], "every subset of installed backends times every use of every class",
     "Tests run in one environment only.",
     ["asta/unusable.py", "asta/switchboard.py", "asta/constants.py", "asta/origins.py", "asta/display.py"],
     [("UnusableMeta", "asta/unusable.py"), ("guarded imports", "asta/constants.py, asta/switchboard.py, asta/origins.py"), ("NonInstanceType", "asta/constants.py")],
     observe=["asta.Array, asta.Tensor, asta.TFTensor in each environment"])

prop("C20", "Concurrent type-checked calls do not influence each other",
     "When several threads call type-checked functions, do isinstance checks, create annotations or read and set dims and shapes at the same time, every call has "
     "the verdict, result and number of body runs that it would have alone, under every interleaving of the threads.",
     ["schedules"], "every interleaving of two or three threads up to a bounded number of preemptions, over pairs of calls that share functions, annotations and symbols",
     "The tests are single-threaded; a free-running thread test samples a few of the interleavings.",
     ["asta/decorators.py", "asta/origins.py", "asta/utils.py", "asta/classes.py"],
     [("call-local equation set", "asta/decorators.py"), ("shared dispatch tables", "asta/origins.py"), ("shared configuration object", "asta/config.py")],
     state=[("ox", "shared configuration object", "asta/config.py")],
     observe=["results of concurrent decorated calls"],
     hook=None)

prop("C21", "The decorator accepts exactly what isinstance accepts",
     "For every array annotation without dims or shapes placeholders, a type-checked function with that annotation on a single "
     "parameter (or on the result) accepts a value if and only if isinstance(value, annotation) is true, for every array family "
     "and every kind of value, arrays or not.",
     ["inputs"], "every annotation over dtype, shape, symbol and attribute arguments in every spelling, every value",
     "Tests of isinstance and tests of the decorator use different annotations; nothing compares the two paths.",
     ["asta/origins.py", "asta/decorators.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("refresh rebuilds the annotation at every call", "asta/origins.py"), ("check_asta", "asta/origins.py")],
     observe=["isinstance(value, A) versus calling f(x: A)"])

prop("C22", "Malformed annotations are refused when they are written",
     "Subscripting with something that is no dtype, dimension, placeholder, expression, scalar marker or attribute dictionary, "
     "with two ellipses in a row, or with a scalar marker next to other dimensions raises TypeError at once, however the "
     "arguments are arranged or nested; well-formed arguments never raise. Annotation classes can never be instantiated.",
     ["inputs"], "every argument list up to a bounded length over well-formed and malformed tokens, for every array family",
     "The tests try consecutive ellipses and repeated scalars only.",
     ["asta/parser.py", "asta/classes.py", "asta/_array.py", "asta/_tftensor.py", "asta/_tensor.py"],
     [("verify_dimensions, parse_subscript", "asta/parser.py"), ("get_shape", "asta/classes.py"), ("get_dtype", "asta/_tftensor.py, asta/_tensor.py"), ("__new__", "asta/_array.py, asta/_tftensor.py, asta/_tensor.py")],
     observe=["Array[...], TFTensor[...], Tensor[...] expressions", "Array(), Array[...]()"])

prop("C23", "Scalar means exactly single values and zero-dimensional arrays",
     "isinstance(value, Scalar) is true exactly for zero-dimensional arrays and tensors of the installed libraries, of any element "
     "type, and for instances of bool, int, float, complex, bytes, str, datetime and timedelta, subclasses included; arrays and "
     "tensors with any dimension, even of one element or none, and all other values are no scalars. A parameter or result "
     "annotated Scalar, alone or in a container or Union, is accepted exactly then with check-non-asta-types=yes and always "
     "with no; as a shape Scalar means zero-dimensional arrays of the annotation's own family only. The answer does not depend "
     "on what was asked before or which libraries are installed.",
     ["inputs", "configurations"], "every kind of value, every use of Scalar, every set of installed libraries, both settings of check-non-asta-types, every sequence of two questions",
     "The tests use Scalar only as a shape, in one environment, and never ask isinstance(value, Scalar).",
     ["asta/scalar.py", "asta/constants.py", "asta/parser.py", "asta/classes.py", "asta/origins.py"],
     [("ScalarMeta.__instancecheck__, ARRAY_TYPES, GENERIC_TYPES", "asta/constants.py"), ("Scalar", "asta/scalar.py")],
     observe=["isinstance(value, Scalar)", "calling decorated functions", "isinstance(value, Array[Scalar])"])

prop("C24", "Reports name the function, the argument and what was expected",
     "When a value does not match its own annotation, the TypeError, or with raise-errors=no the FAILED message, names it: the parameter "
     "or 'return', followed by the way into containers ([index], [key], .field, .<key>, .<set_element>), with the name in quotes; "
     "for an array annotation it also shows the annotation and the shape found. A value that matches its annotation is "
     "never named in a FAILED message, and with raise-errors=no every one that does not match is. With print-passes=yes exactly the accepted array "
     "checks (outside Unions) are named PASSED. The header above a report (print-passes=no) or at the start of a call (yes) names "
     "the function whose call it is, also when type-checked functions call each other.",
     ["inputs", "programs", "configurations"], "every annotation of a bounded grammar and every value, for arguments and results; every nesting of a few type-checked calls with good and bad arguments and results",
     "No test looks at the text of an error or message.",
     ["asta/display.py", "asta/origins.py", "asta/decorators.py"],
     [("fail_*, pass_argument, type_representation, get_header", "asta/display.py"), ("name of the value handed on by check_annotation", "asta/origins.py"), ("ox.decorated", "asta/decorators.py")],
     state=[("ox.decorated", "the function whose call is being checked", "asta/decorators.py:_wrapper")],
     observe=["text of the TypeError", "stdout of decorated calls"])

prop("C25", "Checking leaves alone what it looks at",
     "A type-checked call, accepted or rejected, raising or printing, changes nothing the caller can see: neither the values "
     "given and returned (elements, their identity and order, bytes, shape, flags and attributes of arrays, what iterators, generators and files "
     "still have to give, missing keys of default dictionaries, attributes of functions and classes) nor the annotations, the dims and shapes placeholders, or settings of the process "
     "and its libraries. The body gets the very objects given, the caller the very object returned. Nothing is kept: once caller and body have "
     "dropped a value, it is freed, and the annotation classes a call made for itself do not pile up.",
     ["inputs", "histories"], "every annotation of a bounded grammar and every value, fitting or not, including values that are used up or filled in by being looked at",
     "Tests look at verdicts only, never at the values afterwards, at the rest of the process, or at what is still in memory.",
     ["asta/origins.py", "asta/decorators.py", "asta/display.py", "asta/utils.py"],
     [("check_* walk the values", "asta/origins.py"), ("_wrapper hands on arguments and result", "asta/decorators.py"), ("type_representation", "asta/display.py"), ("refresh makes an annotation class per call", "asta/origins.py")],
     observe=["the values, annotations, placeholders and process settings before and after calls", "weak references to the values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
