"""C06: isinstance narrowing is sound and selects the branch CPython takes."""
import itertools

from ..alpha import HDR, Mk
from ..diff import prog, run_diff

PROP = "C06"
LEVEL = "exploration"
CPU_LIMIT = 120
GOLDEN_CFGS = ["O1", "O1+allow_isinstance_anything=True"]
RULE = (
    "All unions of two and three (thorough: four) members out of data classes (constructor numbers 0, 1, 2, 7, 200), "
    "int, bytes, List[Anything], Dict[Anything, Anything] x all test shapes (if, else, elif chains in every order, not, and, or, "
    "ternary, assert, early return, while, comprehension filter, two variables, tuples of classes, nested tests) "
    "x all member values, compared with CPython. Non-trivial: distinct (program, argument) whose outcome was compared."
)
ASSUMPTIONS = ["CPython and the uplc CEK machine are correct"]
H = HDR + """@dataclass
class G(PlutusData):
    CONSTR_ID = 7
    g: int
    h: bytes
@dataclass
class K(PlutusData):
    CONSTR_ID = 200
    x: int
"""
LST, DCT = "List[Anything]", "Dict[Anything, Anything]"
# name in isinstance, annotation, action on a narrowed variable, values
M = {
    "A": ("A", "A", "{v}.x", ["A(0)", "A(5)"]),
    "B": ("B", "B", "len({v}.y) + {v}.z[0]", ["B(b'ab', [9])", "B(b'', [])"]),
    "E": ("E", "E", "({v}.CONSTR_ID + 77)", ["E()"]),
    "G": ("G", "G", "{v}.g + len({v}.h)", ["G(4, b'abc')"]),
    "K": ("K", "K", "{v}.x * 3", ["K(11)", "K(0)"]),
    "I": ("int", "int", "({v} + 1)", ["0", "-7", "200"]),
    "Y": ("bytes", "bytes", "len({v}) + 50", ["b''", "b'xyz'"]),
    "L": ("List", LST, "len({v}) + 60", ["[]", "[1, b'a']"]),
    "D": ("Dict", DCT, "len({v}) + 70", ["{}", "{1: 2, b'a': b'b'}"]),
}


def isi(m, v="u", neg=False):
    return f"{'not ' if neg else ''}isinstance({v}, {M[m][0]})"


def act(m, v="u"):
    return M[m][2].format(v=v)


def union(ms):
    return "Union[" + ", ".join(M[m][1] for m in ms) + "]" if len(ms) > 1 else M[ms[0]][1]


def values(ms):
    return [x for m in ms for x in M[m][3]]


def rest(ms, *gone):
    r = [m for m in ms if m not in gone]
    return act(r[0]) if len(r) == 1 else "-1"


def shapes(ms, th):
    """(id, body) for the union ms of variable u"""
    for m in ms:
        r = rest(ms, m)
        yield f"if:{m}", f"if {isi(m)}:\n    return {act(m)}\nreturn {r}"
        yield f"else:{m}", f"if {isi(m)}:\n    return {act(m)}\nelse:\n    return {r}"
        yield f"not:{m}", f"if not {isi(m)}:\n    return {r}\nreturn {act(m)}"
        yield f"notelse:{m}", f"if not {isi(m)}:\n    k = {r}\nelse:\n    k = {act(m)}\nreturn k"
        yield f"ite:{m}", f"return {act(m)} if {isi(m)} else {r}"
        yield f"iten:{m}", f"return {r} if not {isi(m)} else {act(m)}"
        yield f"and:{m}", f"return 1 if {isi(m)} and {act(m)} > 1 else 0"
        yield f"or:{m}", f"return 1 if not {isi(m)} or {act(m)} > 1 else 0"
        yield f"ifand:{m}", f"if {isi(m)} and {act(m)} > 5:\n    return {act(m)}\nreturn -3"
        yield f"ifandelse:{m}", f"if {isi(m)} and {act(m)} > 5:\n    return {act(m)}\nelif {isi(m)}:\n    return {act(m)} - 100\nelse:\n    return {r}"
        yield f"ifor:{m}", f"if not {isi(m)} or {act(m)} > 5:\n    return -2\nelse:\n    return {act(m)}"
        yield f"nn:{m}", f"if not (not {isi(m)}):\n    return {act(m)}\nreturn {r}"
        yield f"assert:{m}", f"assert {isi(m)}\nreturn {act(m)}"
        yield f"assertn:{m}", f"assert not {isi(m)}\nreturn {r}"
        yield f"assertand:{m}", f"assert {isi(m)} and {act(m)} > 2\nreturn {act(m)}"
        yield f"val:{m}", f"k = {isi(m)}\nreturn 1 if k else 0"
        yield f"copy:{m}", f"w = u\nif {isi(m, 'w')}:\n    return {act(m, 'w')}\nreturn -1"
        yield f"alias:{m}", f"if {isi(m)}:\n    w = u\n    return {act(m, 'w')}\nreturn -1"
        yield f"loop:{m}", f"k = 0\nfor i in [1, 2]:\n    if {isi(m)}:\n        k += {act(m)}\n    else:\n        k += {r}\nreturn k"
        yield f"while:{m}", f"k = 0\nwhile {isi(m)} and k < 3:\n    k += 1 + abs({act(m)})\nreturn k"
        yield f"bothret:{m}", f"if {isi(m)}:\n    k = {act(m)}\nelse:\n    return {r} * 10\nreturn k + {act(m)}"
        yield f"bothret2:{m}", f"if {isi(m)}:\n    return {act(m)} * 10\nelse:\n    k = {r}\nreturn k + {r}"
        yield f"forret:{m}", f"for i in [1]:\n    if not {isi(m)}:\n        return {r}\nreturn 5"
        yield f"fn:{m}", f"def f(w: {M[m][1]}) -> int:\n    return {act(m, 'w')}\nif {isi(m)}:\n    return f(u)\nreturn -1"
        yield f"nested:{m}", f"def f() -> int:\n    return {act(m)} if {isi(m)} else {r}\nreturn f()"
        yield f"ll:{m}", f"return [{act(m)} for i in [1] if {isi(m)}]"
        yield f"le:{m}", f"return [{act(m, 'e')} for e in [u] if {isi(m, 'e')}]"
        yield f"lite:{m}", f"return [{act(m, 'e')} if {isi(m, 'e')} else -1 for e in [u, u]]"
        yield f"swap:{m}", f"if {isi(m)}:\n    return {act(m)}\nu = {M[m][3][0]}\nreturn {act(m)}"
        yield f"eqself:{m}", f"if {isi(m)}:\n    return 1 if u == u else 0\nreturn 2"
        yield f"ret:{m}", f"if {isi(m)}:\n    return u\nreturn u"
        yield f"list:{m}", f"if {isi(m)}:\n    return [u]\nreturn []"
        yield f"tern2:{m}", f"return ({act(m)} if {isi(m)} else 0) + ({r} if not {isi(m)} else 0)"
    for p in itertools.permutations(ms):
        n = "".join(p)
        if len(p) > 3 and not th and p != tuple(ms) and p != tuple(reversed(ms)):
            continue
        s = ""
        for i, m in enumerate(p[:-1]):
            s += f"{'el' if i else ''}if {isi(m)}:\n    k = {act(m)}\n"
        yield f"chain:{n}", s + f"else:\n    k = {act(p[-1])}\nreturn k"
        yield f"early:{n}", "".join(f"if {isi(m)}:\n    return {act(m)}\n" for m in p[:-1]) + f"return {act(p[-1])}"
        yield f"full:{n}", "k = 0\n" + "".join(f"if {isi(m)}:\n    k += {act(m)}\n" for m in p) + "return k"
        e = act(p[-1])
        for m in reversed(p[:-1]):
            e = f"({act(m)} if {isi(m)} else {e})"
        yield f"itec:{n}", f"return {e}"
    for a, b in itertools.permutations(ms, 2):
        others = [m for m in ms if m not in (a, b)]
        r = rest(ms, a, b) if others else "-9"
        yield f"or2:{a}{b}", f"if {isi(a)} or {isi(b)}:\n    return {act(a)} if {isi(a)} else {act(b)}\nreturn {r}"
        yield f"nand2:{a}{b}", f"if not {isi(a)} and not {isi(b)}:\n    return {r}\nreturn {act(a)} if {isi(a)} else {act(b)}"
        yield f"nor2:{a}{b}", f"if not ({isi(a)} or {isi(b)}):\n    return {r}\nif {isi(b)}:\n    return {act(b)}\nreturn {act(a)}"
        yield f"and2:{a}{b}", f"if {isi(a)} and {isi(b)}:\n    return 1\nreturn 0"
        yield f"tup:{a}{b}", f"if isinstance(u, ({M[a][0]}, {M[b][0]})):\n    return 1\nreturn 0"
        yield f"in:{a}{b}", f"if not {isi(a)}:\n    if {isi(b)}:\n        return {act(b)}\n    return -8\nreturn {act(a)}"
        yield f"oract:{a}{b}", f"return 1 if ({isi(a)} and {act(a)} > 3) or ({isi(b)} and {act(b)} > 3) else 0"
        yield f"andor:{a}{b}", f"if {isi(a)} or ({isi(b)} and {act(b)} > 3):\n    return 1\nreturn 0"
        yield f"notand:{a}{b}", f"if not ({isi(a)} and {act(a)} > 3):\n    return 1\nreturn {act(a)}"
        yield f"reass:{a}{b}", f"if {isi(a)}:\n    u = {M[b][3][0]}\nif {isi(b)}:\n    return {act(b)}\nreturn -1"
        yield f"elifn:{a}{b}", f"if {isi(a)}:\n    k = {act(a)}\nelif not {isi(b)}:\n    k = -1\nelse:\n    k = {act(b)}\nreturn k"


TWO = {
    "and": "if {a} and {b}:\n    return {x} + {y}\nreturn -1",
    "or": "if not {a} or not {b}:\n    return -1\nreturn {x} + {y}",
    "nest": "if {a}:\n    if {b}:\n        return {x} + {y}\n    return {x}\nreturn -1",
    "ite": "return {x} if {a} else ({y} if {b} else 0)",
    "assert": "assert {a} and {b}\nreturn {x} + {y}",
    "mix": "k = {x} if {a} else 3\nreturn k + ({y} if {b} else 5)",
    "eq": "return 1 if u == w else 0",
    "early": "if not {a}:\n    return -1\nif not {b}:\n    return {x}\nreturn {x} + {y}",
}
FIELD = """@dataclass
class W(PlutusData):
    CONSTR_ID = 9
    f: {t}
    n: int
"""
FIELDS = {
    "loc": "w = p.f\nif {i}:\n    return {x} + p.n\nreturn p.n",
    "ite": "w = p.f\nreturn {x} if {i} else p.n",
    "direct": "return 1 if isinstance(p.f, {c}) else 0",
    "helper": "def h(w: {t}) -> int:\n    return {x} if {i} else 40\nreturn h(p.f)",
    "cons": "w = W(p.f, 3).f\nreturn {x} if {i} else 40",
    "list": "return [{x} for w in [p.f] if {i}]",
}
CONTAINER = {
    "for": "k = 0\nfor w in l:\n    if {i}:\n        k = k * 10 + {x}\n    else:\n        k -= 1\nreturn k",
    "comp": "return [{x} for w in l if {i}]",
    "count": "return len([1 for w in l if {i}])",
    "idx": "w = l[0]\nif {i}:\n    return {x}\nreturn -1",
    "ite": "return [{x} if {i} else -2 for w in l]",
}
# mostly outside the supported subset
SELDOM = ("tup", "and2", "reass", "nor2", "swap")
SIMPLE = {
    # tests of variables of a single type
    "int": "int", "bytes": "bytes", "str": "str", "A": "A", "list": "List[int]", "dict": "Dict[int, int]",
}
SVALS = {"int": ["0", "3"], "bytes": ["b''", "b'a'"], "str": ["'a'"], "A": ["A(0)"], "list": ["[]", "[1]"], "dict": ["{}", "{1: 2}"]}


def ind(s):
    return "".join("    " + l + "\n" for l in s.splitlines())


def unions(k):
    return itertools.combinations(M, k)


def cases(tier):
    th = tier == "thorough"
    mk = Mk(tier, every=3)

    def case(cid, src, args, **kw):
        return mk.case(cid, src, args, **kw)

    n = 0
    for k in (2, 3, 4) if th else (2, 3):
        for ms in unions(k):
            if k == 4 and sum(m in "IYLD" for m in ms) > 2 and not th:
                continue
            for order in ([ms, ms[::-1]] if k == 2 else [ms]):
                for sid, body in shapes(order, th):
                    n += 1
                    if not th:
                        # every (shape, member) pair with several unions: rotate
                        if k == 2 and order is not ms and n % 3:
                            continue
                        if k == 3 and n % 8:
                            continue
                        if sid.split(":")[0] in SELDOM and n % 10:
                            continue
                        if k == 2 and n % 2 and sid.split(":")[0] not in ("if", "else", "and", "ifor", "chain", "early", "ite", "assert", "not"):
                            continue
                    if k == 4 and n % 5:
                        continue
                    src = H + f"def validator(u: {union(order)}):\n{ind(body)}"
                    yield case(f"{''.join(order)}:{sid}", src, [(v,) for v in values(order)])
    for ms in itertools.combinations("ABIY" if not th else "ABEKIYLD", 2):
        for (tn, t), a, b in itertools.product(TWO.items(), ms, ms):
            body = t.format(a=isi(a), b=isi(b, "w"), x=act(a), y=act(b, "w"))
            src = H + f"def validator(u: {union(ms)}, w: {union(ms)}):\n{ind(body)}"
            yield case(f"two:{''.join(ms)}:{tn}:{a}{b}", src, list(itertools.product(values(ms), values(ms))))
    for ms in [c for k in (2, 3) for c in (unions(k) if th else itertools.combinations("AEIYD", k))]:
        for (fn, f), m in itertools.product(FIELDS.items(), ms):
            t = union(ms)
            body = f.format(t=t, i=isi(m, "w"), x=act(m, "w"), c=M[m][0])
            src = H + FIELD.format(t=t) + f"def validator(p: W):\n{ind(body)}"
            yield case(f"field:{''.join(ms)}:{fn}:{m}", src, [(f"W({v}, 5)",) for v in values(ms)])
        for (fn, f), m in itertools.product(CONTAINER.items(), ms):
            body = f.format(i=isi(m, "w"), x=act(m, "w"))
            src = H + f"def validator(l: List[{union(ms)}]):\n{ind(body)}"
            vs = values(ms)
            yield case(f"cont:{''.join(ms)}:{fn}:{m}", src, [("[]",)] + [(f"[{v}]",) for v in vs] + [("[" + ", ".join(vs) + "]",), (f"[{vs[-1]}, {vs[0]}]",)])
    for (sn, st), m in itertools.product(SIMPLE.items(), list(M) + ["bool", "str"]):
        c = M[m][0] if m in M else m
        for shape in ("if isinstance(u, {c}):\n    return 1\nreturn 2", "return 1 if not isinstance(u, {c}) else 2", "return isinstance(u, {c}) and True"):
            n += 1
            if not th and sn != m and n % 4:
                continue
            yield case(f"simple:{sn}:{m}:{n % 3}", H + f"def validator(u: {st}):\n{ind(shape.format(c=c))}", [(v,) for v in SVALS[sn]])
    for v in ("u: bool",):
        for c in ("bool", "int", "bytes"):
            yield case(f"bool:{c}", f"def validator(u: bool):\n    return 1 if isinstance(u, {c}) else 2\n", [("True",), ("False",)])
    anyv = values(list(M)) + ["[]", "{}"]
    for m in M:
        for sid, body in shapes([m, "A" if m != "A" else "B"], th):
            if sid.split(":")[-1] != m or sid.split(":")[0] not in ("if", "else", "ite", "and", "not", "assert", "ifand", "ll", "val", "while"):
                continue
            body = body.replace(rest([m, "A" if m != "A" else "B"], m), "-1")
            src = H + f"def validator(u: Anything):\n{ind(body)}"
            yield prog(f"any:{sid}", src, [(v,) for v in anyv], ["O1+allow_isinstance_anything=True"])


def run_case(case):
    return run_diff(case, PROP)
