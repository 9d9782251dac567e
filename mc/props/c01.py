"""C01: operators, comparisons and boolean logic agree with Python."""
from ..alpha import *
from ..diff import *

PROP = "C01"
LEVEL = "exploration"
RULE = (
    "every operator x ordered operand-type pair x full boundary-value cross product "
    "(depth 1), every two-operator integer expression shape, comparison chain and "
    "boolean formula up to the stated size (depth 2), every literal-literal operation "
    "(constant folding), compiled and run against CPython; non-trivial: the program "
    "compiled and this argument tuple was compared; distinct by (program, arguments, "
    "outcome)"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source text is the reference",
    "the uplc CEK machine and builtins are trusted",
    "values outside the boundary alphabet are not covered",
]
BIN = ["+", "-", "*", "//", "%", "**"]
CMP = ["==", "!=", "<", "<=", ">", ">=", "in", "not in", "is", "is not"]
ORD = ["==", "!=", "<", "<=", ">", ">="]


def cases(tier):
    m = Mk(tier)
    th = tier == "thorough"
    types = [t for t in TYPES if t not in ("N", "List[Union[A, B]]")]
    two = [
        "int", "bytes", "str", "bool", "None", "List[int]", "List[bytes]",
        "List[List[int]]", "Dict[int, int]", "A", "E", "Union[A, B]",
        "Union[int, bytes]", "List[A]", "Anything",
    ] if not th else types
    # unary
    for t in types:
        for op in ["-", "+", "not ", "~"]:
            yield m.expr(f"un:{op.strip()}:{t}", f"{op}a", {"a": t})
        yield m.expr(f"truth:{t}", "1 if a else 0", {"a": t})
    # binary
    for op in BIN + CMP:
        for t, s in itertools.product(two, two):
            av, bv = vals(t, tier), vals(s, tier)
            if op == "**":
                if s == "int":
                    bv = [repr(x) for x in (0, 1, 2, 3, 5, 8, 64, 65)]
                if t == "int":
                    av = [repr(x) for x in (0, 1, -1, 2, -2, 3, 10, 255, 2**63)]
            pairs = list(itertools.product(av, bv))
            if op == "*" and not t == s == "int":
                pairs = [(x, y) for x, y in pairs if len(x) < 10 and len(y) < 10]
            yield m.expr(
                f"bin:{op}:{t}:{s}", f"a {op} b", {"a": t, "b": s}, pairs, raw=True
            )
    yield m.expr("none:is", "a is None", {"a": "None"})
    yield m.expr("none:isnot", "a is not None", {"a": "None"})
    # two operators over integers
    small = (-3, -1, 0, 2, 5) if not th else (-7, -3, -1, 0, 1, 2, 5)
    tri = list(itertools.product(small, repeat=3))
    ops = ["+", "-", "*", "//", "%"]
    for o1, o2 in itertools.product(ops, ops):
        for nm, e in (
            ("l", f"(a {o1} b) {o2} c"),
            ("r", f"a {o1} (b {o2} c)"),
            ("p", f"a {o1} b {o2} c"),
        ):
            if nm == "p" and not th and (o1, o2) not in (("+", "*"), ("-", "//")):
                continue
            yield m.expr(f"arith2:{nm}{o1}{o2}", e, dict(a="int", b="int", c="int"), tri)
    for o in ops:
        for nm, e in (
            ("nl", f"-a {o} b"),
            ("nr", f"a {o} -b"),
            ("no", f"-(a {o} b)"),
            ("sq", f"(a ** 2) {o} b"),
            ("pq", f"-a ** 2 {o} b"),
        ):
            yield m.expr(
                f"arithun:{nm}{o}", e, dict(a="int", b="int"),
                list(itertools.product((-3, -1, 0, 1, 2, 7), repeat=2)),
            )
    # comparison chains
    tri3 = list(itertools.product((0, 1, 2), repeat=3))
    for o1, o2 in itertools.product(ORD, ORD):
        yield m.expr(f"chain3:{o1}{o2}", f"a {o1} b {o2} c", dict(a="int", b="int", c="int"), tri3)
        if th:
            for o3 in ORD:
                yield m.expr(
                    f"chain4:{o1}{o2}{o3}", f"a {o1} b {o2} c {o3} d",
                    dict(a="int", b="int", c="int", d="int"),
                    list(itertools.product((0, 1, 2), repeat=4)),
                )
    for o1, o2 in itertools.product(("<", "==", "!="), ("in", "not in", "==")):
        yield m.expr(
            f"chainmix:{o1}{o2}", f"a {o1} b {o2} c",
            dict(a="int", b="int", c="List[int]"),
            list(itertools.product((0, 1, 2), (0, 1, 2), ([], [0], [1, 2], [2, 0, 1]))),
        ) if "in" in o2 else m.expr(
            f"chainmix:{o1}{o2}", f"a {o1} b {o2} c", dict(a="int", b="int", c="int"), tri3
        )
    for o1, o2 in itertools.product(("<", "<=", ">", "=="), repeat=2):
        yield m.expr(
            f"chainb:{o1}{o2}", f"a {o1} b {o2} c", dict(a="bytes", b="bytes", c="bytes"),
            list(itertools.product((b"", b"a", b"ab", b"b"), repeat=3)),
        )
    # boolean formulas: all shapes over three operands with optional negation
    lits = ["a", "not a"], ["b", "not b"], ["c", "not c"]
    for x, y, z in itertools.product(*lits):
        for o1, o2 in itertools.product(("and", "or"), repeat=2):
            for nm, e in (
                ("f", f"{x} {o1} {y} {o2} {z}"),
                ("l", f"not ({x} {o1} {y}) {o2} {z}"),
                ("r", f"{x} {o1} ({y} {o2} {z})"),
            ):
                yield m.expr(
                    f"bool3:{nm}:{x}{o1}{y}{o2}{z}".replace(" ", "_"), e,
                    dict(a="bool", b="bool", c="bool"),
                )
    # connectives and conditions over non-boolean operands, seen as conditions
    for t in ("int", "bytes", "str", "List[int]", "Dict[int, int]", "bool", "None"):
        for s in ("int", "bytes", "bool", "List[int]"):
            for o in ("and", "or"):
                for neg in ("", "not "):
                    yield m.expr(
                        f"boolcond:{o}:{neg.strip()}:{t}:{s}",
                        f"1 if {neg}(a {o} b) else 0", dict(a=t, b=s), ret="int",
                    )
    for t in ("int", "bytes", "str", "bool"):
        for o in ("and", "or"):
            yield m.expr(f"boolval:{o}:{t}", f"a {o} b", dict(a=t, b=t))
    # conditional expressions, nested
    for t in ("int", "bytes", "str", "bool", "List[int]", "A"):
        yield m.expr(f"ifexp:{t}", "a if c else b", dict(a=t, b=t, c="bool"))
        yield m.expr(
            f"ifexp2:{t}", "a if c else (b if d else a)", dict(a=t, b=t, c="bool", d="bool"),
            list(itertools.product(vals(t, tier)[:3], vals(t, tier)[:3], ("False", "True"), ("False", "True"))), raw=True,
        )
    for t, s in (("int", "bytes"), ("A", "B"), ("int", "A"), ("A", "Union[A, B]")):
        yield m.expr(
            f"ifexpu:{t}:{s}", "a if c else b", dict(a=t, b=s, c="bool"), ret=f"Union[{t}, {s}]" if "U" not in s else s,
        )
    # literals on both sides: every folding level
    ints = [-7, -2, -1, 0, 1, 2, 3, 10]
    for o in ops + ORD:
        for a in ints:
            bs = [b for b in ints if not (o in ("//", "%") and b == 0)]
            e = "[" + ", ".join(f"{a} {o} {b}" for b in bs) + "]"
            yield m.expr(f"lit:{o}:{a}", e, {}, [()], cfgs=["O0", "O1", "O2", "O3"] if th else ["O1", "O2"])
    for o in ("//", "%"):
        for a in (-1, 0, 1):
            yield m.expr(f"litzero:{o}:{a}", f"{a} {o} 0", {}, [()], cfgs=["O1", "O2", "O3"])
    for a in (-3, -1, 0, 1, 2, 10):
        e = "[" + ", ".join(f"{a} ** {b}" for b in (0, 1, 2, 3, 10)) + "]"
        yield m.expr(f"litpow:{a}", e, {}, [()], cfgs=["O1", "O2"])
    sv = ["''", "'a'", "'ab'", "'b'"]
    for pfx in ("", "b"):
        for a in sv:
            for o in ORD:
                e = "[" + ", ".join(f"{pfx}{a} {o} {pfx}{b}" for b in sv) + "]"
                yield m.expr(f"lits:{pfx}{o}:{a}", e, {}, [()], cfgs=["O1", "O2"])
            e = "[" + ", ".join(
                [f"{pfx}{a} + {pfx}{b}" for b in sv]
                + [f"{pfx}{a} * {k}" for k in (-1, 0, 1, 3)]
                + [f"{k} * {pfx}{a}" for k in (-1, 0, 1, 3)]
            ) + "]"
            yield m.expr(f"litcat:{pfx}{a}", e, {}, [()], cfgs=["O1", "O2"])
    # variable against literal, both orders (peephole rewrites)
    for o in ops + ORD:
        for k in (-1, 0, 1, 2):
            for nm, e in (("vl", f"a {o} {k}"), ("lv", f"{k} {o} a")):
                yield m.expr(f"varlit:{nm}{o}{k}", e, dict(a="int"), cfgs=["O1", "O3"])


def run_case(case):
    return run_diff(case, PROP)
