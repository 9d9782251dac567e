"""C20: check_integrity accepts exactly the well-formed values.

Model: membership of a data tree in a type, defined here on a small type
syntax; compared with the compiled check on every value and every single
mutation of it, with maps kept as lists of pairs as on-chain."""
import itertools

from ..diff import sig
from ..engine import *
from ..lib import compiled
from ..runner import result, violation

PROP = "C20"
LEVEL = "exploration"
CPU_LIMIT = 600
RULE = (
    "All record types with 0-3 fields over (int, bytes, Anything, records, unions, lists and dicts of them, up to two (thorough: three) deep) and all unions of records and atomic types, "
    "x usage forms (parameter, field, local, loop element, narrowed by isinstance, in a function, renamed import, twice) x optimisation levels x all base values and every single mutation of them "
    "(each node: other constructor, one field less or more, fields swapped, replaced by every other kind, list element or map entry added, dropped, duplicated). "
    "The call succeeds iff the tree is structurally of the type, and the value is returned unchanged. Non-trivial: distinct (type, tree, verdict)."
)
ASSUMPTIONS = ["the CEK machine is correct; maps are lists of pairs as in plutus-core"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
from opshin.std.integrity import check_integrity{alias}
@dataclass
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: List[int]
@dataclass
class E(PlutusData):
    CONSTR_ID = 2
@dataclass
class K(PlutusData):
    CONSTR_ID = 130
    k: bytes
    a: A
@dataclass
class Q(PlutusData):
    CONSTR_ID = 4
    q: Union[A, K]
    p: Dict[int, A]
"""
CLS = {"A": (0, ["int"]), "B": (1, ["bytes", "List[int]"]), "E": (2, []), "K": (130, ["bytes", "A"]), "Q": (4, ["Union[A, K]", "Dict[int, A]"])}


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def args(t):
    return split(t[t.index("[") + 1 : -1])


def member(t, d, cls):
    if t == "Anything":
        return True
    if t == "int":
        return d[0] == "I"
    if t == "bytes":
        return d[0] == "B"
    if t.startswith("List["):
        return d[0] == "L" and all(member(args(t)[0], x, cls) for x in d[1])
    if t.startswith("Dict["):
        k, v = args(t)
        ks = [a for a, _ in d[1]] if d[0] == "M" else []
        return d[0] == "M" and len(set(ks)) == len(ks) and all(member(k, a, cls) and member(v, b, cls) for a, b in d[1])
    if t.startswith("Union["):
        return any(member(x, d, cls) for x in args(t))
    tag, fs = cls[t]
    return d[0] == "C" and d[1] == tag and len(d[2]) == len(fs) and all(member(f, x, cls) for f, x in zip(fs, d[2]))


def values(t, cls, n=2):
    """some values of every shape of the type"""
    if t == "Anything":
        return [("I", 3), ("C", 5, (("B", b"h"),)), ("M", ((("I", 1), ("L", ())),))][:n]
    if t == "int":
        return [("I", 1), ("I", -(2**70))][:n]
    if t == "bytes":
        return [("B", b"ab"), ("B", b"")][:n]
    if t.startswith("List["):
        vs = values(args(t)[0], cls)
        return [("L", tuple(vs[:2])), ("L", ())][:n]
    if t.startswith("Dict["):
        k, v = args(t)
        ks, vs = values(k, cls), values(v, cls)
        return [("M", tuple(zip(ks[:2], (vs * 2)[:2]))), ("M", ())][:n]
    if t.startswith("Union["):
        return [values(x, cls, 1)[0] for x in args(t)]
    tag, fs = cls[t]
    vals = [values(f, cls) for f in fs]
    m = max([len(v) for v in vals], default=1)
    return [("C", tag, tuple(v[min(i, len(v) - 1)] for v in vals)) for i in range(m)]


KINDS = [("I", 7), ("B", b"m"), ("L", ()), ("M", ()), ("C", 0, ()), ("C", 1, ()), ("C", 0, (("I", 9),)), ("C", 2, ())]


def mutate(d):
    """every tree one edit away"""
    for k in KINDS:
        if k != d:
            yield k
    if d[0] == "L":
        xs = d[1]
        for i, x in enumerate(xs):
            yield ("L", xs[:i] + xs[i + 1 :])
            yield ("L", xs[:i] + (x, x) + xs[i + 1 :])
            for m in mutate(x):
                yield ("L", xs[:i] + (m,) + xs[i + 1 :])
        for k in KINDS[:2]:
            yield ("L", xs + (k,))
    if d[0] == "M":
        xs = d[1]
        for i, (a, b) in enumerate(xs):
            yield ("M", xs[:i] + xs[i + 1 :])
            yield ("M", xs + ((a, b),))
            yield ("M", ((a, ("I", 1)),) + xs)
            for m in mutate(a):
                yield ("M", xs[:i] + ((m, b),) + xs[i + 1 :])
            for m in mutate(b):
                yield ("M", xs[:i] + ((a, m),) + xs[i + 1 :])
        yield ("M", tuple(reversed(xs)))
        for k in KINDS[:2]:
            yield ("M", xs + ((k, k),))
        yield ("L", tuple(("L", p) for p in xs))
    if d[0] == "C":
        tag, xs = d[1:]
        for t in (0, 1, 2, 3, 4, 129, 130, 131, tag + 1, tag - 1):
            if t >= 0 and t != tag:
                yield ("C", t, xs)
        yield ("C", tag, tuple(reversed(xs)))
        for k in KINDS[:2]:
            yield ("C", tag, xs + (k,))
            yield ("C", tag, (k,) + xs)
        yield ("L", xs)
        for i, x in enumerate(xs):
            yield ("C", tag, xs[:i] + xs[i + 1 :])
            yield ("C", tag, xs[:i] + (x, x) + xs[i + 1 :])
            for m in mutate(x):
                yield ("C", tag, xs[:i] + (m,) + xs[i + 1 :])


def grammar(th):
    base = ["int", "bytes", "Anything", "A", "B", "E", "K", "Q", "Union[A, B]", "Union[E, K, A]", "Union[int, bytes]", "Union[A, int]", "Union[B, List[Anything], Dict[Anything, Anything]]", "Union[int, bytes, List[Anything], Dict[Anything, Anything], E]"]
    two = [f"List[{b}]" for b in base] + [f"Dict[{k}, {b}]" for b in base for k in ("int", "bytes", "A")]
    three = [f"List[{t}]" for t in two] + [f"Dict[int, {t}]" for t in two] + [f"Dict[{t}, int]" for t in two[:3]]
    return base, two, three


FORMS = {
    "param": "def validator(x: {T}) -> {T}:\n    check_integrity(x)\n    return x\n",
    "local": "def validator(x: {T}) -> {T}:\n    y = x\n    check_integrity(y)\n    x = y\n    return x\n",
    "rename": "def validator(x: {T}) -> {T}:\n    ci(x)\n    return x\n",
    "func": "def f(v: {T}) -> int:\n    check_integrity(v)\n    return 1\ndef validator(x: {T}) -> {T}:\n    if f(x) == 1:\n        pass\n    return x\n",
    "twice": "def validator(x: {T}) -> {T}:\n    for i in range(2):\n        check_integrity(x)\n    return x\n",
    "branch": "def validator(x: {T}) -> {T}:\n    if True:\n        check_integrity(x)\n    else:\n        pass\n    return x\n",
}


def cases(tier):
    th = tier == "thorough"
    base, two, three = grammar(th)
    lv = ["O2", "O1", "O0", "O3"]
    n = 0

    def cf(k=1):
        nonlocal n
        n += 1
        return lv if th else [lv[(n + i) % 4] for i in range(k)]

    # records with one field of every type, wrapped
    for t in base + two + three if th else base + two + three[::3]:
        yield dict(id=f"field:{t}", fam="field", fields=[t], form="param", cfgs=cf())
    for s, t in itertools.product(base[:9] + two[:4], repeat=2):
        if th or n % 2:
            yield dict(id=f"two:{s}:{t}", fam="two", fields=[s, t], form="param", cfgs=cf())
        else:
            n += 1
    yield dict(id="three", fam="three", fields=["int", "List[A]", "bytes"], form="param", cfgs=lv)
    yield dict(id="three2", fam="three", fields=["A", "Union[A, B]", "Dict[int, bytes]"], form="param", cfgs=lv)
    for f in FORMS:
        for t in ("A", "B", "E", "K", "Q", "Union[A, B]", "Union[E, K, A]", "Union[A, int, bytes]", "Union[B, List[Anything], Dict[Anything, Anything]]", "Union[Q, A, List[Anything]]"):
            yield dict(id=f"form:{f}:{t}", fam="form", type=t, form=f, cfgs=cf(2))
    # parts of a value
    for i, (name, T, body, at) in enumerate(PARTS):
        yield dict(id=f"part:{name}", fam="part", part=i, cfgs=cf(2))
    yield dict(id="built", fam="built", cfgs=lv)


PARTS = [
    # only the part is checked: (name, type of x, body, checked type and how to get the checked trees)
    ("field", "K", "    check_integrity(x.a)\n", lambda d: [("A", d[2][1])] if d[0] == "C" and len(d[2]) > 1 else None),
    ("narrow", "Union[A, K]", "    if isinstance(x, A):\n        check_integrity(x)\n", lambda d: ([("A", d)] if d[1] == 0 else []) if d[0] == "C" else None),
    ("narrow2", "Union[A, K]", "    if not isinstance(x, A):\n        check_integrity(x)\n", lambda d: ([("K", d)] if d[1] != 0 else []) if d[0] == "C" else None),
    ("elements", "List[A]", "    for e in x:\n        check_integrity(e)\n", lambda d: [("A", e) for e in d[1]] if d[0] == "L" else None),
    ("comp", "List[Union[A, B]]", "    [check_integrity(e) for e in x]\n", lambda d: [("Union[A, B]", e) for e in d[1]] if d[0] == "L" else None),
    ("index", "List[B]", "    check_integrity(x[0])\n", lambda d: [("B", d[1][0])] if d[0] == "L" and d[1] else None),
    ("value", "Dict[int, K]", "    for v in x.values():\n        check_integrity(v)\n", lambda d: [("K", v) for _, v in d[1]] if d[0] == "M" else None),
]


def run_case(case):
    viol, sigs, evals = [], [], 0
    cls = dict(CLS)
    form = case.get("form", "param")
    src = HDR.format(alias=" as ci" if form == "rename" else "")
    if case["fam"] == "built":
        src += "def validator(n: int) -> Q:\n    k = K(b'q' * n, A(n))\n    check_integrity(k)\n    q = Q(k, {n: A(n + 1), n + 1: k.a})\n    check_integrity(q)\n    e = E()\n    check_integrity(e)\n    check_integrity(B(b'', [n]))\n    return q\n"
        for cfg in case["cfgs"]:
            c = compiled(src, cfg)
            for n in range(4):
                exp = ("ok", ("C", 4, (("C", 130, (("B", b"q" * n), ("C", 0, (("I", n),)))), ("M", ((("I", n), ("C", 0, (("I", n + 1),))), (("I", n + 1), ("C", 0, (("I", n),))))))))
                got = run_ordered(c[1], [("I", n)])[0] if c[0] == "ok" else c
                evals += 1
                sigs.append(sig("built", n))
                if got != exp:
                    viol.append(violation(case, f"[{cfg}] built values: {show(got)} instead of {show(exp)}", src=src))
        return result(evals, sigs, viol)
    checked = None
    if "part" in case:
        _, t, body, checked = PARTS[case["part"]]
        src += f"def validator(x: {t}) -> {t}:\n{body}    return x\n"
    else:
        if "fields" in case:
            t = "T"
            src += "@dataclass\nclass T(PlutusData):\n    CONSTR_ID = 3\n" + "".join(f"    f{i}: {f}\n" for i, f in enumerate(case["fields"]))
            cls["T"] = (3, case["fields"])
        else:
            t = case["type"]
        src += FORMS[form].format(T=t)
    progs = []
    for cfg in case["cfgs"]:
        c = compiled(src, cfg)
        if c[0] == "reject":
            viol.append(violation(case, f"[{cfg}] rejected: {c[1]}: {c[2]}", src=src))
        else:
            progs.append((cfg, c[1]))
    good = values(t, cls)
    trees = dict.fromkeys(good)
    for g in good:
        trees.update(dict.fromkeys(mutate(g)))
    sample = None
    for d in trees:
        if checked is not None:
            parts = checked(d)
            if parts is None:
                continue  # fails elsewhere
            want = all(member(pt, p, cls) for pt, p in parts)
        else:
            want = member(t, d, cls)
        exp = ("ok", d) if want else ("err",)
        sigs.append(sig(src, d, want))
        for cfg, p in progs:
            got, _, err = run_ordered(p, [d])
            evals += 1
            if got != exp:
                viol.append(violation(case, f"[{cfg}] {show(d)} is{'' if want else ' not'} a {t}: {show(got)}", src=src, error=repr(err)[:300]))
        if sample is None or not want and "rejected" not in sample:
            sample = dict(sample or {}, type=t, fields=case.get("fields"), **{("accepted" if want else "rejected"): show(d)})
        if len(viol) > 5:
            break
    return result(evals, sigs, viol, sample)
