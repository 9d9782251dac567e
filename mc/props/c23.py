"""C23: constructor ids are deterministic and unions stay distinguishable."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

from ..diff import prog, run_diff, sig
from ..engine import PyProg, canon_py, compile_src, config, run_uplc, show
from ..runner import result, violation

PROP = "C23"
LEVEL = "exploration"
CPU_LIMIT = 200
GOLDEN_CFGS = ["O1"]
RULE = (
    "Class shapes without CONSTR_ID: every field type of a grammar (classes with and without number, unions in every order, "
    "lists, dicts, nested), field counts 0 to 4, field orders, field and class names, methods, docstrings, redefinition; the number the script writes and tests for is "
    "compared with the number of the off-chain class and with the documented formula, different shapes have different numbers, under several hash "
    "seeds and compilation orders. Unions: all pairs and triples of classes with equal and different, given and derived numbers at every place a union "
    "can be written or inferred: refused exactly if two members share a number (places with inferred unions: refused or as in CPython)."
)
ASSUMPTIONS = ["CPython and the CEK machine are correct", "pycardano's CONSTR_ID is the off-chain number; it is checked against the formula as well"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    x: int
@dataclass(unsafe_hash=True)
class E(PlutusData):
    CONSTR_ID = 2
@dataclass(unsafe_hash=True)
class P(PlutusData):
    p: int
@dataclass(unsafe_hash=True)
class Q(PlutusData):
    q: P
    a: A
@dataclass(unsafe_hash=True)
class V(PlutusData):
    pass
Al = Union[A, B]
"""
# field type: value, description in the formula
P_ = "cons[P](%d;p:int)"


def derived(desc):
    return int(hashlib.sha256(desc.encode()).hexdigest(), 16) % 2**32


def cons(name, fields, cid=None, top=False):
    inner = ",".join(f"{n}:{d}" for n, d in fields)
    if top:
        return f"cons[{name}](_;{inner})"
    return f"cons[{name}]({derived(cons(name, fields, top=True)) if cid is None else cid};{inner})"


DP = cons("P", [("p", "int")])
DA = cons("A", [("x", "int")], 0)
DB = cons("B", [("y", "bytes"), ("x", "int")], 1)
DE = cons("E", [], 2)
DQ = cons("Q", [("q", DP), ("a", DA)])
DV = cons("V", [])
BASE = {
    "int": ("5", "int"),
    "bytes": ("b'w'", "bytes"),
    "Anything": ("7", "any"),
    "A": ("A(1)", DA),
    "P": ("P(2)", DP),
    "Q": ("Q(P(3), A(4))", DQ),
    "V": ("V()", DV),
    "Union[A, B]": ("A(5)", f"union<{DA},{DB}>"),
    "Union[B, A]": ("A(5)", f"union<{DB},{DA}>"),
    "Al": ("B(b'', 6)", f"union<{DA},{DB}>"),
    "Union[P, A]": ("P(7)", f"union<{DP},{DA}>"),
    "Union[E, Q, B]": ("E()", f"union<{DE},{DQ},{DB}>"),
    "Union[Al, E]": ("E()", f"union<{DA},{DB},{DE}>"),
    "Union[Union[P, E], Union[B, A]]": ("P(1)", f"union<{DP},{DE},{DB},{DA}>"),
    "Union[int, bytes]": ("8", "union<int,bytes>"),
    "Union[bytes, A]": ("b'8'", f"union<bytes,{DA}>"),
    "Union[A, int, List[Anything], Dict[Anything, Anything]]": ("A(9)", f"union<{DA},int,list<any>,map<any,any>>"),
}


def grammar():
    t = dict(BASE)
    for k, (v, d) in list(BASE.items()):
        t[f"List[{k}]"] = (f"[{v}]", f"list<{d}>")
        t[f"Dict[int, {k}]"] = (f"{{1: {v}}}", f"map<int,{d}>")
    for k in ("int", "P", "Union[A, B]", "Al"):
        v, d = BASE[k]
        t[f"List[List[{k}]]"] = (f"[[{v}]]", f"list<list<{d}>>")
        t[f"Dict[bytes, List[{k}]]"] = (f"{{b'': [{v}]}}", f"map<bytes,list<{d}>>")
        t[f"List[Dict[bytes, {k}]]"] = (f"[{{b'': {v}}}]", f"list<map<bytes,{d}>>")
    t["Dict[A, P]"] = ("{A(1): P(2)}", f"map<{DA},{DP}>")
    return t


G = grammar()


def rec(name, fields, cid=None, extra=""):
    return f"@dataclass(unsafe_hash=True)\nclass {name}(PlutusData):\n" + extra + (f"    CONSTR_ID = {cid}\n" if cid is not None else "") + ("".join(f"    {n}: {t}\n" for n, t in fields) or ("" if cid is not None or "def" in extra else "    pass\n"))


def clash(t, u):
    def order(x):
        return "[" in x.replace("Union[", "") and ("BA" if "Union[B, A]" in x else "AB" if "Union[A, B]" in x or "Al" in x else None)

    return {order(t), order(u)} == {"AB", "BA"}


def shapes(th):
    """name: (class name, fields, extra lines in the class, lines before)"""
    out = {}
    for t in G:
        out[f"one:{t}"] = ("R", [("f", t)], "", "")
    ts = list(G)
    for i, t in enumerate(ts):
        for k in range(len(ts)) if th else [1, 20]:
            u = ts[(i + k) % len(ts)]
            if not clash(t, u):
                out[f"two:{t}:{u}"] = ("R", [("f", t), ("g", u)], "", "")
    for p in itertools.permutations([("a", "int"), ("b", "bytes"), ("c", "P")]):
        out["perm:" + "".join(n for n, _ in p)] = ("R", list(p), "", "")
    for p in itertools.product(["int", "bytes", "P"], repeat=3):
        out["three:" + ",".join(p)] = ("R", list(zip("abc", p)), "", "")
    for n in range(5):
        out[f"count:{n}"] = ("R", [(f"f{i}", "int") for i in range(n)], "", "")
    for nm in ("a", "_a", "a_", "A", "CONSTR", "x1", "R", "field_with_a_long_name", "f_0", "self_"):
        out[f"fname:{nm}"] = ("R", [(nm, "int")], "", "")
    for nm in ("S", "R_", "_R", "R_0", "R0", "Rr", "LongName", "r", "Foo_Bar1"):
        out[f"cname:{nm}"] = (nm, [("f", "int")], "", "")
    out["doc"] = ("R", [("f", "int")], '    """doc"""\n', "")
    out["method"] = ("R", [("f", "int")], "    def m(self) -> int:\n        return self.f\n", "")
    out["dunder"] = ("R", [("f", "bytes")], "    def __add__(self, o: int) -> int:\n        return o\n", "")
    for a, b in itertools.permutations(["int", "bytes", "P", "Union[A, B]"], 2):
        out[f"redef:{a}:{b}"] = ("R", [("f", b)], "", rec("R", [("f", a)]))
    # a class is redefined after another class used it
    out["redefnested"] = ("R", [("f", "T0"), ("g", "int")], "", rec("T0", [("n", "int")]))
    out["uselater"] = ("R", [("f", "Z"), ("g", "Union[Z, A]")], "", rec("Z", [("n", "P")]) + "z0 = Z(P(1))\n")
    return out


def value(t):
    return {"T0": "T0(3)", "Z": "Z(P(1))", "Union[Z, A]": "A(2)"}.get(t) or G[t][0]


def desc(t):
    z = cons("Z", [("n", DP)])
    return {"T0": cons("T0", [("n", "int")]), "Z": z, "Union[Z, A]": f"union<{z},{DA}>"}.get(t) or G[t][1]


SHAPES = {"quick": shapes(False), "thorough": shapes(True)}
ALL = SHAPES["thorough"]
# CPython takes List[Union[A, B]] and List[Union[B, A]] for the same object
CLASH = HDR + """@dataclass(unsafe_hash=True)
class R(PlutusData):
    f: List[Union[A, B]]
    g: List[Union[B, A]]
def validator(n: int) -> int:
    return R([A(1)], [A(1)]).CONSTR_ID
"""


def sources(key):
    name, fields, extra, pre = ALL[key]
    # redefinitions of a class under another type are done with a new name
    h = HDR + pre + rec(name, fields, extra=extra)
    v = f"{name}({', '.join(value(t) for _, t in fields)})"
    yield "make", h + f"def validator(n: int) -> {name}:\n    return {v}\n", [("0",)]
    yield "isi", h + f"def validator(par: Union[{name}, E]) -> int:\n    if isinstance(par, {name}):\n        return 1\n    return 2\n", [(v,), ("E()",)]
    yield "isi2", h + f"def validator(par: Union[E, {name}]) -> int:\n    if isinstance(par, E):\n        return 1\n    return 2\n", [(v,), ("E()",)]
    yield "cid", h + f"def validator(n: int) -> int:\n    return {v}.CONSTR_ID\n", [("0",)]
    yield "cbor", h + f"def validator(n: int) -> bytes:\n    return {v}.to_cbor()\n", [("0",)]


# ---------------------------------------------------------------- unions
CL = {
    # name: (class text, number, value)
    "A0": (rec("A0", [("x", "int")], 0), 0, "A0(1)"),
    "B0": (rec("B0", [("y", "bytes")], 0), 0, "B0(b'q')"),
    "C1": (rec("C1", [("x", "int"), ("z", "int")], 1), 1, "C1(1, 2)"),
    "D1": (rec("D1", [], 1), 1, "D1()"),
    "E7": (rec("E7", [("x", "int")], 7), 7, "E7(3)"),
    "I": (rec("I", [("x", "int")]), derived(cons("I", [("x", "int")], top=True)), "I(4)"),
    # a number that happens to be the derived one of I
    "J": (rec("J", [("x", "int")], derived(cons("I", [("x", "int")], top=True))), derived(cons("I", [("x", "int")], top=True)), "J(5)"),
    "K": (rec("K", [("x", "bytes")]), derived(cons("K", [("x", "bytes")], top=True)), "K(b'')"),
}
PLACES = {
    # declared unions: refused exactly if two numbers are the same
    "param": "def validator(u: {U}) -> int:\n    return u.CONSTR_ID\n",
    "paramisi": "def validator(u: {U}) -> int:\n    if isinstance(u, {0}):\n        return 1\n    return 2\n",
    "list": "def validator(u: {U}) -> int:\n    l: List[{U}] = [u]\n    return len(l)\n",
    "fn": "def f(u: {U}) -> {U}:\n    return u\ndef validator(u: {U}) -> int:\n    return f(u).CONSTR_ID\n",
    "field": "@dataclass(unsafe_hash=True)\nclass R(PlutusData):\n    CONSTR_ID = 50\n    f: {U}\ndef validator(u: {U}) -> int:\n    return R(u).f.CONSTR_ID\n",
    "alias": "W = {U}\ndef validator(u: W) -> int:\n    return u.CONSTR_ID\n",
    "alias2": "W = Union[{rest}]\ndef validator(u: Union[{0}, W]) -> int:\n    return u.CONSTR_ID\n",
    "nested": "def validator(u: Union[{0}, Union[{rest}]]) -> int:\n    return u.CONSTR_ID\n",
    "int": "def validator(u: Union[int, {list}]) -> int:\n    if isinstance(u, int):\n        return -1\n    return 1\n",
    "dict": "def validator(u: {U}) -> int:\n    d: Dict[int, {U}] = {{1: u}}\n    return len(d)\n",
}
INFERRED = {
    # the compiler joins the types itself: refused or as in CPython
    "ite": "def validator(u: int) -> int:\n    v = {v0} if u == 0 else {v1}\n    if isinstance(v, {0}):\n        return 1\n    return 2\n",
    "if": "def validator(u: int) -> int:\n    if u == 0:\n        v = {v0}\n    else:\n        v = {v1}\n    if isinstance(v, {0}):\n        return 1\n    return 2\n",
    "lit": "def validator(u: int) -> int:\n    v = [{v0}, {v1}][u]\n    if isinstance(v, {1}):\n        return 1\n    return 2\n",
    "dct": "def validator(u: int) -> int:\n    v = {{0: {v0}, 1: {v1}}}[u]\n    if isinstance(v, {1}):\n        return 1\n    return 2\n",
    "reif": "def validator(u: int) -> int:\n    v: Union[{0}, E] = {v0}\n    w = E()\n    x = v if u == 0 else {v1}\n    if isinstance(x, {1}):\n        return 1\n    return 2\n",
    "widen": "def validator(u: int) -> int:\n    v = [{v0}] + [{v1}]\n    if isinstance(v[u], {1}):\n        return 1\n    return 2\n",
    "fieldjoin": rec("F1", [("f", "{0}")], 60) + rec("F2", [("f", "{1}")], 61) + "def validator(u: int) -> int:\n    l: List[Union[F1, F2]] = [F1({v0}), F2({v1})]\n    f = l[u].f\n    if isinstance(f, {0}):\n        return 1\n    return 2\n",
}
NUMBERS = {
    # CONSTR_ID spellings: refused or the number of CPython
    "zero": "    CONSTR_ID = 0\n    f: int\n",
    "after": "    f: int\n    CONSTR_ID = 4\n",
    "ann": "    CONSTR_ID: int = 5\n    f: int\n",
    "neg": "    CONSTR_ID = -1\n    f: int\n",
    "sum": "    CONSTR_ID = 1 + 2\n    f: int\n",
    "hex": "    CONSTR_ID = 0x10\n    f: int\n",
    "under": "    CONSTR_ID = 1_000\n    f: int\n",
    "bool": "    CONSTR_ID = True\n    f: int\n",
    "twice": "    CONSTR_ID = 1\n    CONSTR_ID = 2\n    f: int\n",
    "str": "    CONSTR_ID = 'a'\n    f: int\n",
    "float": "    CONSTR_ID = 1.0\n    f: int\n",
    "none": "    CONSTR_ID = None\n    f: int\n",
    "name": "    CONSTR_ID = NUM\n    f: int\n",
    "big": f"    CONSTR_ID = {2**32 - 1}\n    f: int\n",
    "six": "    CONSTR_ID = 6\n    f: int\n",
    "seven": "    CONSTR_ID = 7\n    f: int\n",
    "c127": "    CONSTR_ID = 127\n    f: int\n",
    "c128": "    CONSTR_ID = 128\n    f: int\n",
}


def cases(tier):
    th = tier == "thorough"
    for i, k in enumerate(SHAPES[tier]):
        for l in ("O0", "O1", "O2", "O3") if th else [("O1", "O2", "O0", "O3")[i % 4]]:
            yield dict(id=f"shape:{k}:{l}", fam="shape", k=k, cfg=l, all=th or not k.startswith("t"))
    yield dict(id="distinct", fam="distinct", tier=tier)
    yield dict(id="clash", fam="clash")
    for s in range(8 if th else 3):
        yield dict(id=f"seed:{s}", fam="seed", seed=s, th=th)
    n = 0
    for size in (2, 3):
        for c in itertools.permutations(CL, size):
            if size == 3 and not th and (list(CL).index(c[0]) + 2 * list(CL).index(c[1]) + 3 * list(CL).index(c[2])) % 6:
                continue
            for p in PLACES:
                n += 1
                if size == 2 and p in ("alias2", "nested"):
                    continue
                if th or size == 2 and (n % 2 or p == "param") or n % 4 == 0:
                    yield dict(id=f"union:{p}:{'/'.join(c)}", fam="union", p=p, c=list(c), n=n)
            if size == 2:
                for p in INFERRED:
                    yield dict(id=f"join:{p}:{'/'.join(c)}", fam="join", p=p, c=list(c), n=n)
    for k in NUMBERS:
        yield dict(id=f"number:{k}", fam="number", k=k)


def formula(key):
    name, fields, _, _ = ALL[key]
    return derived(cons(name, [(n, desc(t)) for n, t in fields], top=True))


def run_case(case):
    return globals()["do_" + case["fam"]](case)


def merge(a, b):
    if a is None:
        return b
    a["evals"] += b["evals"]
    a["sigs"] += b["sigs"]
    a["violations"] += b["violations"]
    for k, v in b["extra"].items():
        a["extra"][k] = a["extra"].get(k, 0) + v
    return a


def do_shape(case):
    key = case["k"]
    name, fields, extra, pre = ALL[key]
    total = None
    want = formula(key)
    for kind, src, args in sources(key):
        if not case["all"] and kind not in ("make", "isi"):
            continue
        r = run_diff(prog(f"shape:{key}:{kind}", src, args, [case["cfg"]]), PROP)
        for v in r["violations"]:
            v["case"] = case["id"]
        total = merge(total, r)
        if kind == "make":
            py = PyProg(src)
            o, _, e = py.call([0])
            py.close()
            if o[0] != "ok" or o[1][:2] != ("C", want):
                total["violations"].append(violation(case, f"off-chain number is not {want}: {show(o)} {e!r}", src=src))
            c = compile_src(src, config(case["cfg"]))
            if c[0] == "ok":
                got = run_uplc(c[1], [("I", 0)])[0]
                total["evals"] += 1
                if got[0] != "ok" or got[1][:2] != ("C", want):
                    total["violations"].append(violation(case, f"number is not {want}: {show(got)}", src=src))
    return total


def do_clash(case):
    return run_diff(prog("clash", CLASH, [("0",)], ["O1"]), PROP)


def do_distinct(case):
    """different name or fields, different number"""
    seen, viol = {}, []
    keys = SHAPES[case["tier"]]
    for k in keys:
        name, fields, _, _ = ALL[k]
        s = (name, tuple((n, desc(t)) for n, t in fields))
        src = list(sources(k))[0][1]
        py = PyProg(src)
        o, _, e = py.call([0])
        py.close()
        if o[0] != "ok":
            viol.append(violation(case, f"{k}: {e!r}"))
            continue
        if seen.setdefault(o[1][1], s) != s:
            viol.append(violation(case, f"{k} has the number of {seen[o[1][1]]}"))
    return result(len(keys), [sig("distinct", x) for x in seen], viol, None)


CHILD = """
import sys, json
sys.path[:0] = json.loads(sys.argv[2])
from mc.props import c23
from mc.engine import compile_src, config, run_uplc
keys = json.loads(sys.argv[1])
out = {}
for k in keys:
    src = list(c23.sources(k))[0][1]
    c = compile_src(src, config("O1"))
    out[k] = [c[0], run_uplc(c[1], [("I", 0)])[0][1][1] if c[0] == "ok" else None]
print("RESULT" + json.dumps(out))
"""


def do_seed(case):
    """another process, hash seed and order of compilation"""
    keys = list(ALL)[:: 7 if case["th"] else 29]
    k = case["seed"]
    keys = keys[k % len(keys) :] + keys[: k % len(keys)]
    if k % 2:
        keys.reverse()
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import opshin

    repo = os.path.dirname(os.path.dirname(os.path.abspath(opshin.__file__)))
    p = subprocess.run(
        [sys.executable, "-c", CHILD, json.dumps(keys), json.dumps([root, repo])],
        capture_output=True,
        text=True,
        env={**os.environ, "PYTHONHASHSEED": str(k * 7919 + 1), "PYTHONDONTWRITEBYTECODE": "1"},
        timeout=600,
    )
    lines = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    if not lines:
        return result(1, [], [violation(case, f"child failed: {p.stderr[-400:]}")], None)
    got = json.loads(lines[0][6:])
    viol = [violation(case, f"{x}: number {v} instead of {formula(x)} in another process") for x, v in got.items() if v[0] == "ok" and v[1] != formula(x)]
    return result(len(got), [sig("seed", k, x) for x in got], viol, None, processes=1)


def do_union(case):
    c = case["c"]
    ids = [CL[x][1] for x in c]
    dup = len(set(ids)) < len(ids)
    text = HDR + "".join(CL[x][0] for x in c) + PLACES[case["p"]].format(*c, U=f"Union[{', '.join(c)}]", list=", ".join(c), rest=", ".join(c[1:]))
    cfg = ("O1", "O2", "O3", "O0")[case["n"] % 4]
    if not dup:
        args = [(CL[x][2],) for x in c] + ([("5",)] if case["p"] == "int" else [])
        return run_diff(prog(case["id"], text, args, [cfg]), PROP)
    r = compile_src(text, config(cfg))
    if r[0] == "ok":
        return result(1, [], [violation(case, f"a union of classes with the same number is accepted {ids}", src=text)], None)
    return result(1, [sig(text)], [], dict(program=text, refused=str(r[2])[:200]), unions_refused=1)


def do_join(case):
    c = case["c"]
    text = HDR + "".join(CL[x][0] for x in c) + INFERRED[case["p"]].format(*c, v0=CL[c[0]][2], v1=CL[c[1]][2])
    cfg = ("O1", "O2", "O3", "O0")[case["n"] % 4]
    return run_diff(prog(case["id"], text, [("0",), ("1",)], [cfg]), PROP, strict_accept=CL[c[0]][1] != CL[c[1]][1] and case["p"] != "widen")


def do_number(case):
    text = HDR + "NUM = 9\n@dataclass(unsafe_hash=True)\nclass R(PlutusData):\n" + NUMBERS[case["k"]]
    total = None
    for kind, src, args in (
        ("make", text + "def validator(n: int) -> R:\n    return R(n)\n", [("3",)]),
        ("isi", text + "def validator(r: Union[R, E]) -> int:\n    return 1 if isinstance(r, R) else 2\n", [("R(3)",), ("E()",)]),
        ("cid", text + "def validator(n: int) -> int:\n    return R(n).CONSTR_ID\n", [("3",)]),
    ):
        py = PyProg(src)
        py.close()
        if py.load_error is not None:
            continue
        supported = case["k"] in ("zero", "after", "ann", "hex", "under", "big", "six", "seven", "c127", "c128")
        r = run_diff(prog(f"number:{case['k']}:{kind}", src, args if supported else args[:1], ["O1", "O3"]), PROP, strict_accept=supported)
        for v in r["violations"]:
            v["case"] = case["id"]
        total = merge(total, r)
    return total or result(0, [], [], None)
