"""C07: data crossing the script boundary has the documented Plutus encoding."""
import itertools

import uplc.ast

from ..diff import prog, run_diff, sig
from ..engine import *
from ..runner import result, violation

PROP = "C07"
LEVEL = "exploration"
CPU_LIMIT = 120
GOLDEN_CFGS = ["O1"]
RULE = (
    "All types of a grammar (int, bytes, str, bool, None, classes, unions, Anything; lists, dicts and records of them, nested two (thorough: three) deep) x "
    "(identity, as Anything, construction and access of the field at every position of records with 1 to 6 fields, by position and keyword, list and dict "
    "membership, element access, equality of all pairs of values, to_cbor/serialise) x unions of 2 to 5 classes with a common field at every combination of positions x constructor numbers {0, 1, 6, 7, 127, 128, 1000, 2**32} x boundary values; "
    "the encoding is written down independently of pycardano and uplc. Non-trivial: distinct (program, arguments)."
)
ASSUMPTIONS = ["CPython and the CEK machine are correct", "serialiseData of the machine encodes non-empty lists with definite length (a property of the uplc package)"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: List[int]
@dataclass(unsafe_hash=True)
class E(PlutusData):
    CONSTR_ID = 2
@dataclass(unsafe_hash=True)
class K(PlutusData):
    CONSTR_ID = 130
    k: bytes
    a: A
@dataclass(unsafe_hash=True)
class Q(PlutusData):
    q: int
    p: K
"""
BASE = {
    "int": ["0", "-1", "24", "2**64 - 1", "2**64", "-(2**64) - 1"],
    "bytes": ["b''", "b'a'", "bytes(63)"],
    "str": ["''", "'a'", "'\\u00e9'"],
    "bool": ["False", "True"],
    "None": ["None"],
    "A": ["A(0)", "A(-5)"],
    "B": ["B(b'', [])", "B(b'q', [1, 2])"],
    "E": ["E()"],
    "K": ["K(b'', A(1))", "K(b'zz', A(7))"],
    "Q": ["Q(3, K(b'', A(1)))"],
    "Union[A, B]": ["A(0)", "B(b'', [])"],
    "Union[A, K, E]": ["A(0)", "K(b'', A(1))", "E()"],
    "Union[int, bytes]": ["0", "-7", "b''", "b'a'"],
    "Union[A, int, bytes, List[Anything], Dict[Anything, Anything]]": ["A(1)", "0", "b'a'", "[]", "[1, b'a']", "{}", "{1: b'a'}"],
    "Anything": ["0", "b'a'", "A(0)", "[]", "[b'']", "{}", "{b'': 1}", "K(b'', A(1))"],
}
KEYS = {"int": ["0", "-1"], "bytes": ["b''", "b'a'"], "A": ["A(0)", "A(1)"], "str": ["''", "'a'"]}


def lists(vs):
    return ["[]", f"[{vs[0]}]", "[" + ", ".join(vs) + "]"]


def dicts(ks, vs):
    return ["{}", f"{{{ks[0]}: {vs[0]}}}", f"{{{ks[1]}: {vs[-1]}, {ks[0]}: {vs[0]}}}"]


def grammar(th):
    t = dict(BASE)
    for b, vs in BASE.items():
        t[f"List[{b}]"] = lists(vs)
        for k, ks in KEYS.items():
            if th or k == "int" or b in ("int", "A", "bytes"):
                t[f"Dict[{k}, {b}]"] = dicts(ks, vs)
    for b in ("int", "bytes", "A", "Union[A, B]", "Anything"):
        l, d = lists(BASE[b]), dicts(KEYS["int"], BASE[b])
        t[f"List[List[{b}]]"] = lists(l)
        t[f"List[Dict[int, {b}]]"] = lists(d)
        t[f"Dict[bytes, List[{b}]]"] = dicts(KEYS["bytes"], l)
        t[f"Dict[int, Dict[int, {b}]]"] = dicts(KEYS["int"], d)
        if th:
            t[f"List[List[List[{b}]]]"] = lists(lists(l))
            t[f"Dict[int, List[List[{b}]]]"] = dicts(KEYS["int"], lists(l))
            t[f"List[Dict[bytes, List[{b}]]]"] = lists(dicts(KEYS["bytes"], l))
    return t


def rec(name, cid, fields):
    return f"@dataclass(unsafe_hash=True)\nclass {name}(PlutusData):\n" + (f"    CONSTR_ID = {cid}\n" if cid is not None else "") + "".join(f"    {n}: {t}\n" for n, t in fields)


IDS = [0, 1, 6, 7, 8, 127, 128, 129, 1000, 2**32]
ORDERS = {1: ["b"], 2: ["z", "a"], 3: ["b", "c", "a"], 4: ["d", "a", "c", "b"], 5: ["e", "d", "c", "b", "a"], 6: ["f1", "f10", "f2", "a", "B_", "_c"]}


def cases(tier):
    th = tier == "thorough"
    T = grammar(th)
    n = 0

    def cf():
        nonlocal n
        n += 1
        return ["O0", "O1", "O2", "O3"] if th else [["O1"], ["O2"], ["O1"], ["O3"], ["O1"], ["O0"]][n % 6]

    def case(cid, src, args, **kw):
        return prog(cid, src, args, cf(), **kw)

    for t, vs in T.items():
        one = [(v,) for v in vs]
        yield case(f"id:{t}", HDR + f"def validator(x: {t}) -> {t}:\n    return x\n", one)
        yield case(f"noann:{t}", HDR + f"def validator(x: {t}):\n    return x\n", one)
        yield case(f"any:{t}", HDR + f"def validator(x: {t}) -> Anything:\n    return x\n", one)
        yield case(f"fn:{t}", HDR + f"def f(y: {t}) -> {t}:\n    return y\ndef validator(x: {t}) -> {t}:\n    y = f(x)\n    return y\n", one)
        yield case(f"list:{t}", HDR + f"def validator(x: {t}) -> List[{t}]:\n    return [x, x]\n", one)
        yield case(f"dict:{t}", HDR + f"def validator(x: {t}) -> Dict[int, {t}]:\n    return {{3: x, 1: x}}\n", one)
        yield case(f"comp:{t}", HDR + f"def validator(x: List[{t}]) -> List[{t}]:\n    return [e for e in x]\n", [(l,) for l in lists(vs)])
        yield case(f"elem:{t}", HDR + f"def validator(x: List[{t}], i: int) -> {t}:\n    return x[i]\n", [("[" + ", ".join(vs) + "]", str(i)) for i in range(len(vs))])
        yield case(f"get:{t}", HDR + f"def validator(x: Dict[int, {t}], i: int) -> {t}:\n    return x[i]\n", [("{" + ", ".join(f"{i}: {v}" for i, v in enumerate(vs)) + "}", str(i)) for i in range(len(vs))])
        yield case(f"ite:{t}", HDR + f"def validator(x: {t}, y: {t}, c: bool) -> {t}:\n    return x if c else y\n", [(vs[0], vs[-1], "True"), (vs[0], vs[-1], "False")])
        yield case(f"loop:{t}", HDR + f"def validator(x: List[{t}]) -> {t}:\n    r = x[0]\n    for e in x:\n        r = e\n    return r\n", [("[" + ", ".join(vs) + "]",)])
        for op in ("==", "!="):
            yield case(f"eq:{op}:{t}", HDR + f"def validator(x: {t}, y: {t}) -> bool:\n    return x {op} y\n", list(itertools.product(vs, vs)))
        # pycardano has no fields of these types
        if any(x in t for x in ("str", "bool", "None")):
            continue
        if t in BASE or th or t.startswith("List[List") or t in ("List[int]", "Dict[int, A]", "List[Union[A, B]]"):
            for pos in range(3):
                fs = [("c", "int"), ("a", "bytes"), ("b", "A")]
                av = ["7", "b'q'", "A(2)"]
                fs[pos] = (fs[pos][0], t)
                R = HDR + rec("R", [0, 5, 131][pos], fs)
                args = [tuple(v if i == pos else a for i, a in enumerate(av)) for v in vs]
                ps = ", ".join(f"p{i}: {ty}" for i, (_, ty) in enumerate(fs))
                yield case(f"make:{pos}:{t}", R + f"def validator({ps}) -> R:\n    return R(p0, p1, p2)\n", args)
                yield case(f"field:{pos}:{t}", R + f"def validator(r: R) -> {t}:\n    return r.{fs[pos][0]}\n", [(f"R({', '.join(a)})",) for a in args])
                if pos == n % 3 or th:
                    yield case(f"kw:{pos}:{t}", R + f"def validator({ps}) -> R:\n    return R(" + ", ".join(f"{fs[i][0]}=p{i}" for i in (2, 0, 1)) + ")\n", args)
                    yield case(f"re:{pos}:{t}", R + f"def validator(r: R) -> R:\n    return R(r.c, r.a, r.b)\n", [(f"R({', '.join(a)})",) for a in args])
                    yield case(f"nest:{pos}:{t}", R + rec("S", 3, [("r", "R"), ("l", "List[R]")]) + f"def validator(s: S) -> {t}:\n    return s.l[0].{fs[pos][0]} if s.l else s.r.{fs[pos][0]}\n", [(f"S(R({', '.join(a)}), {l})",) for a in args for l in ("[]", f"[R({', '.join(args[0])})]")])
                    yield case(f"unionfield:{pos}:{t}", R + f"def validator(s: Union[R, E]) -> {t}:\n    assert isinstance(s, R)\n    return s.{fs[pos][0]}\n", [(f"R({', '.join(a)})",) for a in args] + [("E()",)])
                    yield case(f"receq:{pos}:{t}", R + f"def validator(r: R, s: R) -> bool:\n    return r == s\n", [(f"R({', '.join(a)})", f"R({', '.join(b)})") for a in args for b in args])
            R = HDR + rec("R", 4, [("f", t)])
            yield case(f"cbor:{t}", R + f"def validator(x: {t}) -> bytes:\n    return R(x).to_cbor()\n", one, kind="cbor", wrap="R({})")
            yield case(f"cborp:{t}", R + f"def validator(x: R) -> bytes:\n    return x.to_cbor()\n", [(f"R({v})",) for v in vs], kind="cbor", wrap="{}")
    for cid in IDS + [None]:
        for k, order in ORDERS.items():
            fs = [(nm, ["int", "bytes", "A"][i % 3]) for i, nm in enumerate(order)]
            av = [["5", "b'w'", "A(9)"][i % 3] if i % 2 else ["-1", "b''", "A(0)"][i % 3] for i in range(k)]
            R = HDR + rec("R", cid, fs)
            ps = ", ".join(f"p{i}: {ty}" for i, (_, ty) in enumerate(fs))
            ca = ", ".join(f"p{i}" for i in range(k))
            yield case(f"cid:make:{cid}:{k}", R + f"def validator({ps}) -> R:\n    return R({ca})\n", [av])
            yield case(f"cid:const:{cid}:{k}", R + f"def validator(n: int) -> R:\n    return R({', '.join(av)})\n", [("0",)])
            yield case(f"cid:cid:{cid}:{k}", R + f"def validator(r: R) -> int:\n    return r.CONSTR_ID\n", [(f"R({', '.join(av)})",)])
            yield case(f"cid:cbor:{cid}:{k}", R + f"def validator(r: R) -> bytes:\n    return r.to_cbor()\n", [(f"R({', '.join(av)})",)], kind="cbor", wrap="{}")
            for i, (nm, ty) in enumerate(fs):
                if th or k in (1, 3, 6) or cid in (0, 7, 128):
                    yield case(f"cid:get:{cid}:{k}:{i}", R + f"def validator(r: R) -> {ty}:\n    return r.{nm}\n", [(f"R({', '.join(av)})",)])
            if cid != 2:
                yield case(f"cid:isi:{cid}:{k}", R + "def validator(r: Union[R, E]) -> int:\n    return 1 if isinstance(r, R) else 0\n", [(f"R({', '.join(av)})",), ("E()",)])
                yield case(f"cid:isie:{cid}:{k}", R + "def validator(r: Union[E, R]) -> int:\n    return 1 if isinstance(r, E) else 0\n", [(f"R({', '.join(av)})",), ("E()",)])
    for u in ("Union[A, B]", "Union[A, K, E]", "Union[K, E]", "A", "B", "E", "K", "Q"):
        vs = BASE.get(u, ["K(b'', A(1))", "E()"])
        yield case(f"tocbor:{u}", HDR + f"def validator(x: {u}) -> bytes:\n    return x.to_cbor()\n", [(v,) for v in vs], kind="cbor", wrap="{}")
        yield case(f"tocborlist:{u}", HDR + f"def validator(x: {u}) -> bytes:\n    return [x, x][1].to_cbor()\n", [(v,) for v in vs], kind="cbor", wrap="{}")
    for nu, pos in UPOS(th):
        # f is at position pos[i] of class Ui
        for ft, fv in UFIELD.items() if th or nu < 4 else [list(UFIELD.items())[sum(pos) % len(UFIELD)]]:
            src, vals = HDR, []
            for i in range(nu):
                fs = [("g", "int", str(i)), ("h", "bytes", "b'h'")]
                fs.insert(pos[i], ("f", ft[i % len(ft)], fv[i % len(fv)]))
                src += rec(f"U{i}", UID[i], [(a, b) for a, b, _ in fs])
                vals.append(f"U{i}({', '.join(c for _, _, c in fs)})")
            u = f"Union[{', '.join(f'U{i}' for i in (range(nu) if sum(pos) % 2 else reversed(range(nu))))}]"
            key = f"{nu}:{''.join(map(str, pos))}:{'/'.join(ft)}"
            yield case(f"ufield:{key}", src + f"def validator(x: {u}) -> Anything:\n    return x.f\n", [(v,) for v in vals])
            if nu > 2:
                # all fields at once, and the field of what is left after a check
                yield case(f"uall:{key}", src + f"def validator(x: {u}) -> List[Anything]:\n    return [{"len(x.f)" if ft[0][0] == "L" else "x.f"}, x.g, x.h, x.CONSTR_ID]\n", [(v,) for v in vals])
                yield case(f"urest:{key}", src + f"def validator(x: {u}) -> Anything:\n    if isinstance(x, U{nu - 1}):\n        return x.h\n    elif isinstance(x, U0):\n        return x.g\n    return x.f\n", [(v,) for v in vals])
    for d in range(1, 7):
        src, v = HDR, "A(4)"
        prev = "A"
        for i in range(d):
            src += rec(f"L{i}", i * 3, [("u", "int"), ("n", prev)])
            v, prev = f"L{i}({i}, {v})", f"L{i}"
        yield case(f"deep:{d}", src + f"def validator(r: {prev}) -> int:\n    return r{'.n' * d}.x\n", [(v,)])
        yield case(f"deepget:{d}", src + f"def validator(r: {prev}) -> A:\n    return r{'.n' * d}\n", [(v,)])
        yield case(f"deepmake:{d}", src + f"def validator(a: A) -> {prev}:\n    return {v.replace('A(4)', 'a')}\n", [("A(4)",)])


UID = [3, 0, 7, 1, 130]
UFIELD = {("int",): ["5", "-6", "77", "0", "9"], ("int", "bytes"): ["5", "b'five'"], ("A", "B"): ["A(5)", "B(b'5', [5])"], ("List[int]",): ["[]", "[5]", "[6, 7]"]}


def UPOS(th):
    for n in (2, 3):
        for pos in itertools.product(range(3), repeat=n):
            yield n, pos
    for n in (4, 5):
        for pos in itertools.product(range(3) if th else (0, 2), repeat=n):
            yield n, pos


def run_case(case):
    if case.get("kind") != "cbor":
        return run_diff(case, PROP)
    src = case["src"]
    py = PyProg(src)
    viol, sigs, evals = [], [], 0
    accept = run_diff(dict(case, argsets=[]), PROP)
    viol += accept["violations"]
    for cname in case["cfgs"]:
        c = compile_src(src, config(cname))
        if c[0] == "reject":
            continue
        for argsrc in case["argsets"]:
            args = py_args(argsrc, py.ns)
            (o, _, e), wrapped = py.call(args), eval(case["wrap"].format(argsrc[0]), py.ns)
            d = canon_py(wrapped)
            got, _, err = run_uplc(c[1], [canon_py(a) for a in args])
            evals += 1
            sigs.append(sig(src, argsrc, cname))
            want = uplc.ast.plutus_cbor_dumps(data_to_uplc(d))
            bad = None
            # (pycardano itself refuses some lists and dicts inside of Anything)
            if o[0] == "ok" and canon_cbor(cbor2.loads(o[1][1])) != d:
                bad = f"off-chain to_cbor does not encode the value: {show(o)} {e!r}"
            elif got != ("ok", ("B", want)):
                bad = f"on-chain to_cbor: expected {want.hex()} got {show(got)} {str(err)[:200]}"
            if bad:
                viol.append(violation(case, f"[{cname}] {argsrc}: {bad}", src=src))
    py.close()
    return result(evals, sigs, viol, None)
