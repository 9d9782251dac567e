"""C09: accepted programs never get stuck on values of the wrong representation."""
import itertools

from ..diff import prog, run_diff
from ..engine import PyProg, canon_py, compile_src, config, py_args
from ..runner import result

PROP = "C09"
LEVEL = "exploration"
CPU_LIMIT = 120
RULE = (
    "Value flows: source type x second type x path (assignment, annotated assignment, branch merge, loop, conditional expression, list, dict and "
    "tuple elements, unpacking, call, return, closure, record field, field of a union, boolean operator, comprehension, widening of containers) x sink "
    "(return, str, print, comparison, membership, truth, arithmetic, subscript, len, isinstance, attribute, container element, key, record field, call, "
    "iteration), thorough: all of them and two paths after each other; quick: all (types, path) with rotating sinks. Every accepted program runs on all "
    "combinations of values and is compared with CPython."
)
ASSUMPTIONS = [
    "CPython and the CEK machine are correct",
    "Values of the type bool are the data 0 and 1 once they are Anything, values of the type str the data of their UTF-8 bytes (documented encoding): str() of such values is not compared",
]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    x: int
@dataclass(unsafe_hash=True)
class C(PlutusData):
    CONSTR_ID = 2
    l: List[int]
"""
T = {
    "int": ["0", "7"],
    "bool": ["False", "True"],
    "bytes": ["b''", "b'ab'"],
    "str": ["''", "'ab'"],
    "None": ["None"],
    "A": ["A(0)", "A(5)"],
    "B": ["B(b'q', 3)"],
    "C": ["C([])", "C([4])"],
    "Union[A, B]": ["A(0)", "B(b'q', 3)"],
    "Union[A, C]": ["A(5)", "C([4])"],
    "Union[A, B, C]": ["B(b'q', 3)", "C([])"],
    "Union[int, bytes]": ["7", "b'ab'"],
    "Union[A, int]": ["A(5)", "7"],
    "Anything": ["7", "b'ab'", "A(5)", "[1]", "{}"],
    "List[int]": ["[]", "[1, 2]"],
    "List[bytes]": ["[]", "[b'ab']"],
    "List[bool]": ["[True]"],
    "List[A]": ["[]", "[A(5)]"],
    "List[Union[A, B]]": ["[B(b'q', 3), A(0)]"],
    "List[Anything]": ["[]", "[7, b'ab']"],
    "List[List[int]]": ["[[1]]"],
    "Dict[int, bytes]": ["{}", "{7: b'ab'}"],
    "Dict[int, int]": ["{7: 0}"],
    "Dict[bytes, A]": ["{}", "{b'ab': A(5)}"],
    "Dict[int, Anything]": ["{7: b'ab'}"],
}
UNHASHABLE = ("List", "Dict", "C", "Anything")

# path: lines that bind y out of x (of type S) and z (of type T); %k is unique
# per step, so that paths can follow each other
STEPS = {
    "asg": "{y} = {x}",
    "ann": "{y}: {T} = {x}",
    "ite": "{y} = {x} if c else {z}",
    "if": "if c:\n    {y} = {x}\nelse:\n    {y} = {z}",
    "ifann": "{y}: {T} = {z}\nif c:\n    {y} = {x}",
    "re": "{y} = {z}\nif c:\n    {y} = {x}",
    "redef": "{y} = {z}\n{y} = {x}",
    "for": "{y} = {z}\nfor i% in range(2):\n    {y} = {x}",
    "while": "{y} = {z}\ni% = 0\nwhile i% < 1:\n    {y} = {x}\n    i% += 1",
    "list": "l% = [{x}, {z}]\n{y} = l%[0 if c else 1]",
    "tuple": "t% = ({z}, {x})\n{y} = t%[1]",
    "unpack": "u%, {y} = {z}, {x}",
    "dict": "d% = {{0: {x}, 1: {z}}}\n{y} = d%[0 if c else 1]",
    "get": "d% = {{0: {x}}}\n{y} = d%.get(0 if c else 1, {z})",
    "keys": "{y} = {z}\nfor k% in {{{x}: 1}}.keys():\n    {y} = k%",
    "values": "{y} = {z}\nfor k% in {{1: {x}}}.values():\n    {y} = k%",
    "items": "{y} = {z}\nfor k%, v% in {{1: {x}}}.items():\n    {y} = v%",
    "call": "def f%(p: {T}) -> {T}:\n    return p\n{y} = f%({x})",
    "ret": "def f%(p: {S}) -> {T}:\n    return p\n{y} = f%({x})",
    "ret2": "def f%(p: {S}, q: {T}, b: bool):\n    if b:\n        return p\n    return q\n{y} = f%({x}, {z}, c)",
    "ret2ann": "def f%(p: {S}, q: {T}, b: bool) -> {T}:\n    if b:\n        return p\n    else:\n        return q\n{y} = f%({x}, {z}, c)",
    "clos": "w% = {z}\ndef f%(b: bool):\n    return w%\nw% = {x}\n{y} = f%(c)",
    "field": "r% = R%({x})\n{y} = r%.f",
    "ufield": "r%: Union[R%, Q%] = R%({z}) if c else Q%(1, {x})\n{y} = r%.f",
    "or": "{y} = {x} or {z}",
    "and": "{y} = {x} and {z}",
    "comp": "{y} = [e% for e% in [{x}, {z}]][0]",
    "compite": "{y} = [{x} if i% < 1 else {z} for i% in range(2)][0 if c else 1]",
    "dcomp": "{y} = {{i%: {x} for i% in range(1)}}[0]",
    "lann": "l%: List[{T}] = [{x}]\n{y} = l%[0]",
    "lwide": "k% = [{x}]\nl%: List[{T}] = k%\n{y} = l%[0]",
    "lcat": "l%: List[{T}] = [{z}]\nl% = l% + [{x}]\n{y} = l%[1]",
    "lcat2": "l% = [{x}] + [{z}]\n{y} = l%[0 if c else 1]",
    "dann": "d%: Dict[int, {T}] = {{0: {x}}}\n{y} = d%[0]",
    "dwide": "k% = {{0: {x}}}\nd%: Dict[int, {T}] = k%\n{y} = d%[0]",
    "lcall": "def f%(p: List[{T}]) -> {T}:\n    return p[0]\n{y} = f%([{x}])",
    "isi": "{y}: {T} = {z}\nif isinstance({x}, A):\n    {y} = {x}",
    "nest": "def f%(p: {S}) -> {T}:\n    def g%(q: {T}) -> {T}:\n        return q\n    return g%(p)\n{y} = f%({x})",
}
REC = "@dataclass(unsafe_hash=True)\nclass R%(PlutusData):\n    CONSTR_ID = 7\n    f: {T}\n@dataclass(unsafe_hash=True)\nclass Q%(PlutusData):\n    CONSTR_ID = 8\n    g: int\n    f: {S}\n"

SINKS = {
    "ret": ("", "return y"),
    "rets": (" -> {S}", "return y"),
    "rett": (" -> {T}", "return y"),
    "any": (" -> Anything", "return y"),
    "str": (" -> str", "return str(y)"),
    "fmt": (" -> str", "return f'{y}|'"),
    "eqx": (" -> bool", "return y == x"),
    "eqz": (" -> bool", "return z == y"),
    "nez": (" -> bool", "return y != z"),
    "ltz": (" -> bool", "return y < z"),
    "in": (" -> bool", "return y in [x]"),
    "inz": (" -> bool", "return z in [y, y]"),
    "if": (" -> int", "if y:\n    return 1\nreturn 0"),
    "not": (" -> bool", "return not y"),
    "bool": (" -> bool", "return bool(y)"),
    "int": (" -> int", "return int(y)"),
    "addx": ("", "return y + x"),
    "addz": ("", "return z + y"),
    "mul": ("", "return y * 2"),
    "neg": ("", "return -y"),
    "plus": ("", "return +y"),
    "sub0": ("", "return y[0]"),
    "sub7": ("", "return y[7]"),
    "slice": ("", "return y[0:1]"),
    "len": (" -> int", "return len(y)"),
    "isi": ("", "if isinstance(y, int):\n    return y + 1\nelif isinstance(y, bytes):\n    return y + b'!'\nreturn b'?'"),
    "isA": ("", "if isinstance(y, A):\n    return y.x\nelif isinstance(y, B):\n    return y.y\nreturn y"),
    "isl": ("", "if isinstance(y, List):\n    return len(y)\nelif isinstance(y, Dict):\n    return len(y)\nreturn y"),
    "attr": ("", "return y.x"),
    "attr2": ("", "return y.y"),
    "cid": ("", "return y.CONSTR_ID"),
    "list": ("", "return [y, y]"),
    "listx": ("", "return [y, x]"),
    "listz": ("", "return [z, y]"),
    "dict": ("", "return {1: y}"),
    "dkey": ("", "return {y: 1}"),
    "rec": ("", "return R0(y)"),
    "recs": ("", "return Q0(2, y)"),
    "callx": ("", "def h(p: {S}) -> {S}:\n    return p\nreturn h(y)"),
    "callz": ("", "def h(p: {T}) -> {T}:\n    return p\nreturn h(y)"),
    "callstr": (" -> str", "def h(p: {T}) -> str:\n    return str(p)\nreturn h(y)"),
    "for": ("", "r = 0\nfor e in y:\n    r += 1\nreturn r"),
    "fore": ("", "r = [x]\nfor e in y:\n    r += [e]\nreturn r"),
    "comp": ("", "return [e for e in y]"),
    "sum": ("", "return sum(y)"),
    "anyall": ("", "return any(y)"),
    "print": (" -> None", "print(y)"),
    "keys": ("", "return [k for k in y.keys()]"),
    "get": ("", "return y.get(7, z)"),
    "min": ("", "return max([y, y])"),
    "annz": ("", "w: {T} = y\nreturn w"),
    "annx": ("", "w: {S} = y\nreturn w"),
    "iteT": ("", "return y if c else z"),
    "hex": (" -> str", "return y.hex()"),
    "dec": (" -> str", "return y.decode()"),
    "enc": (" -> bytes", "return y.encode()"),
}


def ind(s, n=1):
    return "".join("    " * n + l + "\n" for l in s.splitlines())


CLS = {"A": (0, ["int"]), "B": (1, ["bytes", "int"]), "C": (2, ["List[int]"])}


def targs(t):
    out, depth, cur = [], 0, ""
    for ch in t[t.index("[") + 1 : -1]:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def member(t, d):
    """is d the encoding of a value of type t"""
    if t == "Anything":
        return True
    if t in ("int", "bytes"):
        return d[0] == t[0].upper()
    if t.startswith("List["):
        return d[0] == "L" and all(member(targs(t)[0], x) for x in d[1])
    if t.startswith("Dict["):
        k, v = targs(t)
        return d[0] == "M" and all(member(k, a) and member(v, b) for a, b in d[1])
    if t.startswith("Union["):
        return any(member(x, d) for x in targs(t))
    if t in CLS:
        tag, fs = CLS[t]
        return d[0] == "C" and d[1] == tag and len(d[2]) == len(fs) and all(member(f, x) for f, x in zip(fs, d[2]))
    return False  # bool, str, None: other data in CPython


def wide(t):
    return "Anything" in t or "Union" in t


def plain(t):
    """types whose values as Anything differ from the values as themselves"""
    return not any(w in t for w in ("bool", "str", "None"))


def program(S, ts, steps, sink):
    """x: S, z: ts"""
    ann, tail = SINKS[sink]
    recs, body, cur = "", "", "x"
    sub = lambda s, k: s.replace("{S}", S).replace("{T}", ts).replace("%", str(k))
    used = [("field" in s) for s in steps]
    for k, s in enumerate(steps):
        if "field" in s or k == 0 and sink in ("rec", "recs"):
            recs += sub(REC, k)
        y = "y" if k == len(steps) - 1 else f"y{k}"
        # later steps start from the wider of the two types
        src = STEPS[s].replace("{S}", "{S}" if k == 0 else "{T}").replace("{x}", cur).replace("{z}", "z").replace("{y}", y)
        body += sub(src, k).replace("{{", "{").replace("}}", "}") + "\n"
        cur = y
    body += sub(tail, "_")
    return HDR + recs + f"def validator(x: {S}, z: {ts}, c: bool){sub(ann, '_')}:\n" + ind(body)


TEXT = ("str", "fmt", "print", "callstr")
EQ = ("eqx", "eqz", "nez", "in", "inz", "ltz")


def skip(S, ts, steps, sink):
    if ("keys" in steps or sink == "dkey") and any(w in S or w in ts for w in UNHASHABLE):
        return True
    # pycardano knows no such fields
    if (sink in ("rec", "recs") or any("field" in s for s in steps)) and not (plain(S) and plain(ts)):
        return True
    # and / or of other types have the type bool (recorded under C01)
    if ("or" in steps or "and" in steps) and (S, ts) != ("bool", "bool"):
        return True
    return False


def compare(S, ts, steps, sink):
    """None: only whether the run fails is compared"""
    if sink in TEXT and (S != ts or wide(S) or "ret2" in steps or "clos" in steps):
        return None
    if not (plain(S) and plain(ts)) and S != ts and sink in EQ + ("callstr",):
        return None
    return "value"


def applies(S, ts, steps, sink, dx, dz):
    """A cast to a narrower type inspects the value on-chain only: such casts
    run on values of the narrower type."""
    ann = SINKS[sink][0] + SINKS[sink][1]
    joins = any("{z}" in STEPS[s] for s in steps)
    if any("{T}" in STEPS[s] for s in steps) or "{T}" in ann or sink == "rec":
        if (wide(S) or joins and wide(ts) or joins and S != ts) and not (S == ts or member(ts, dx)):
            return False
    if "{S}" in ann or sink == "recs" or any("{S}" in STEPS[s] for s in steps[1:]):
        if (wide(ts) or wide(S) or joins and S != ts) and not (S == ts or member(S, dz)):
            return False
    return True


def args(S, ts, steps, sink):
    c = ["True", "False"] if any("if c" in STEPS[s] or "(c)" in STEPS[s] or ", c)" in STEPS[s] for s in steps) or "if c" in SINKS[sink][1] else ["True"]
    ns = ENV[0] or ENV.__setitem__(0, PyProg(HDR).ns) or ENV[0]
    D = lambda v: canon_py(py_args([v], ns)[0])
    return [(x, z, w) for x in T[S] for z in T[ts] if applies(S, ts, steps, sink, D(x), D(z)) for w in c]


ENV = [None]
CF = ["O1", "O2", "O0", "O3"]


def flows():
    for S in T:
        for ts in T:
            for st in STEPS:
                text = STEPS[st]
                yield S, ts, [st]


def cases(tier):
    th = tier == "thorough"
    n = 0
    for i, (S, ts, steps) in enumerate(flows()):
        n += 1
        if not th and (i // len(STEPS) + i) % 5:
            continue
        sinks = [k for k in SINKS if not skip(S, ts, steps, k)]
        if not th:
            sinks = [sinks[(n * 11 + j * 17) % len(sinks)] for j in range(2)] if sinks else []
        if sinks:
            yield dict(id=f"{S}:{ts}:{'+'.join(steps)}", S=S, T=ts, steps=steps, sinks=sinks, n=n)


def run_case(case):
    S, ts, steps = case["S"], case["T"], case["steps"]
    SINKS["probe"] = (" -> int", "return 1")
    total = None
    # most flows are refused by the type checker, whatever follows
    if compile_src(program(S, ts, steps, "probe"), config("P0"))[0] != "ok":
        return result(0, [], [], None, flows_refused=1)
    for j, sk in enumerate(case["sinks"]):
        al = args(S, ts, steps, sk)
        one = prog(f"{case['id']}:{sk}", program(S, ts, steps, sk), al, [CF[(case["n"] + j) % 4]])
        norm = None if compare(S, ts, steps, sk) else (lambda o: ("ok", ("I", 1)) if o[0] == "ok" else o)
        r = run_diff(one, PROP, strict_accept=False, normalise=norm)
        if total is None:
            total = r
        else:
            for k in ("evals",):
                total[k] += r[k]
            total["sigs"] += r["sigs"]
            total["violations"] += r["violations"]
            for k, v in r["extra"].items():
                total["extra"][k] = total["extra"].get(k, 0) + v
    total["extra"]["flows_accepted"] = 1
    return total
