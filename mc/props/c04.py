"""C04: control flow executes as in Python.

Part 1 enumerates every statement skeleton with up to N nodes of the grammar

  S  ::= stmt+            (N statement nodes in total, bodies included)
  stmt ::= step | return | assert | if | if/else | while | for | for/else | while/else

as a complete program and runs it on every combination of branch bits, loop
counts and list inputs it mentions.  The state x is an injective-ish record of
the path taken, so two different paths give different results.

Part 2 enumerates products of assignment forms, loop forms and placements."""
import functools
import itertools

from ..alpha import HDR, Mk
from ..diff import prog, run_diff

PROP = "C04"
LEVEL = "exploration"
RULE = (
    "Part 1: all statement skeletons with up to 4 (quick) / 5 (thorough) nodes over {step, return, assert, if, if-else, "
    "while, while-else, for, for-else}; conditions depend on an input bit and the running state; every skeleton is run on "
    "all input bits x loop counts {0,1,2} x lists {[],[1],[2,1]} it uses. Part 2: products of assignment forms, loop "
    "sources, loop targets, rebinding inside loops, elif chains, nested functions with early returns. A case is "
    "non-trivial if the program compiled and its result (or failure) on the input was compared with CPython."
)
ASSUMPTIONS = [
    "CPython and the uplc CEK machine are correct",
    "skeletons are complete up to the stated node count, not beyond",
]

ONE = ("if", "while", "for")
TWO = ("ifelse", "whileelse", "forelse")
LEAF = ("step", "ret", "assert")


@functools.lru_cache(None)
def seqs(n):
    """all statement sequences with exactly n nodes"""
    if n == 0:
        return [()]
    res = []
    for k in range(1, n + 1):
        for s in stmts(k):
            for r in seqs(n - k):
                res.append((s,) + r)
    return res


@functools.lru_cache(None)
def stmts(n):
    if n == 1:
        return [(l,) for l in LEAF]
    res = []
    for b in seqs(n - 1):
        if b:
            res += [(k, b) for k in ONE]
    for i in range(1, n - 1):
        for b in seqs(i):
            for o in seqs(n - 1 - i):
                res += [(k, b, o) for k in TWO]
    return res


class Render:
    def __init__(self):
        self.c = self.k = self.d = 0
        self.uses = set()

    def cond(self):
        self.c += 1
        return f"x % 2 == c{self.c}"

    def seq(self, s, ind):
        out = []
        for st in s:
            out += self.stmt(st, ind)
        return out

    def stmt(self, st, ind):
        p = "    " * ind
        kind = st[0]
        self.k += 1
        k = self.k
        if kind == "step":
            return [f"{p}x = x * 7 + {k}"]
        if kind == "ret":
            return [f"{p}return x * 7 + {k}"]
        if kind == "assert":
            return [f"{p}assert {self.cond()}, 'a{k}'"]
        if kind in ("if", "ifelse"):
            out = [f"{p}if {self.cond()}:"] + self.seq(st[1], ind + 1)
        elif kind in ("while", "whileelse"):
            self.uses.add("n")
            out = [f"{p}i{k} = 0", f"{p}while i{k} < n:", f"{p}    i{k} += 1"]
            out += self.seq(st[1], ind + 1)
        else:
            self.uses.add("l")
            out = [f"{p}for e{k} in l:", f"{p}    x = x + e{k}"]
            out += self.seq(st[1], ind + 1)
        if kind in TWO:
            out += [f"{p}else:"] + self.seq(st[2], ind + 1)
        return out


def skel_id(s):
    ab = dict(step="s", ret="r", **{"assert": "a", "if": "I", "while": "W", "for": "F", "ifelse": "J", "whileelse": "X", "forelse": "G"})

    def one(st):
        return ab[st[0]] + "".join("(" + skel_id(b) + ")" for b in st[1:])

    return "".join(one(st) for st in s)


def skeleton(mk, s):
    r = Render()
    lines = r.seq(s, 1)
    params, doms = ["x: int"], [["0", "1"]]
    for i in range(1, r.c + 1):
        params.append(f"c{i}: int")
        doms.append(["0", "1"])
    if "n" in r.uses:
        params.append("n: int")
        doms.append(["0", "1", "2"])
    hdr = ""
    if "l" in r.uses:
        params.append("l: List[int]")
        doms.append(["[]", "[1]", "[2, 1]"])
        hdr = "from typing import List\n"
    src = (
        hdr
        + f"def validator({', '.join(params)}) -> int:\n"
        + "\n".join(lines)
        + "\n    return x\n"
    )
    return mk.case("skel:" + skel_id(s), src, itertools.product(*doms), fam=f"skel{len(s)}")


# ------------------------------------------------------------------ part 2
def part2(mk):
    B = mk.body
    I = "int"
    # augmented assignment, all operators, in all placements
    ops = ["+", "-", "*", "//", "%", "**", "<<", ">>", "&", "|", "^"]
    for op in ops:
        for pl, tmpl in (
            ("fun", "    x {op}= y\n    return x\n"),
            ("if", "    if y > 0:\n        x {op}= y\n    return x\n"),
            ("for", "    for i in range(2):\n        x {op}= y + i\n    return x\n"),
            ("self", "    x {op}= x\n    return x\n"),
            ("paren", "    x {op}= y + 1\n    return x\n"),
            ("tern", "    x {op}= 1 if y > 0 else 2\n    return x\n"),
        ):
            yield B(
                f"aug:{op}:{pl}",
                tmpl.format(op=op),
                {"x": I, "y": I},
                [(x, y) for x in ((0, 1, 5) if op == "**" else (-7, 0, 1, 5)) for y in (0, 1, 2)],
            )
    for op, t, vs in (
        ("+", "bytes", [b"", b"a"]),
        ("+", "str", ["", "a"]),
        ("+", "List[int]", [[], [1]]),
        ("*", "bytes", [b"ab"]),
        ("*", "str", ["ab"]),
    ):
        yv = vs if op == "+" else [0, 2, -1]
        yield B(
            f"aug:{op}:{t}".replace(" ", ""),
            f"    x {op}= y\n    x {op}= y\n    return x\n",
            {"x": t, "y": t if op == "+" else I},
            list(itertools.product(vs, yv)),
        )
    # if / elif / else chains of every length with every condition outcome
    for n in range(1, 5):
        for els in (0, 1):
            for kind in ("assign", "return"):
                for cond in ("x == {i}", "x > {i}", "not x == {i}", "x == {i} or y == {i}", "x", "x == {i} and y"):
                    b = "    r = 100\n"
                    for i in range(n):
                        b += f"    {'el' if i else ''}if {cond.format(i=i)}:\n"
                        b += f"        r = {i}\n" if kind == "assign" else f"        return {i}\n"
                    if els:
                        b += "    else:\n" + ("        r = 50\n" if kind == "assign" else "        return 50\n")
                    b += "    return r\n"
                    yield B(
                        f"elif:{n}:{els}:{kind}:{cond}".replace(" ", ""),
                        b,
                        {"x": I, "y": I},
                        [(x, y) for x in range(-1, 5) for y in (0, 1)],
                    )
    # truth value of every type as a condition
    for t in ("int", "bytes", "str", "bool", "List[int]", "Dict[int, int]", "None"):
        for form in (
            "    if v:\n        return 1\n    return 0\n",
            "    if not v:\n        return 1\n    else:\n        return 0\n",
            "    return 1 if v else 0\n",
            "    assert v, 'no'\n    return 3\n",
            "    r = 0\n    while v and r < 3:\n        r += 1\n    return r\n",
            "    return len([x for x in [1, 2] if v])\n",
        ):
            yield B(f"truth:{t}:{form[4:12]}".replace(" ", "").replace("\n", ""), form, {"v": t})
    # loops: source x target x body
    sources = {
        "param": ("l", {"l": "List[int]"}),
        "range": ("range(n)", {"n": I}),
        "range2": ("range(1, n)", {"n": I}),
        "range3": ("range(n, 0, -1)", {"n": I}),
        "lit": ("[n, 5, n]", {"n": I}),
        "items": ("[k * 10 + v for k, v in d.items()]", {"d": "Dict[int, int]"}),
        "keys": ("d.keys()", {"d": "Dict[int, int]"}),
        "values": ("d.values()", {"d": "Dict[int, int]"}),
        "comp": ("[y + 1 for y in l if y > 0]", {"l": "List[int]"}),
        "slice": ("l[1:]", {"l": "List[int]"}),
        "concat": ("l + [9]", {"l": "List[int]"}),
        "call": ("src(l)", {"l": "List[int]"}),
        "rev": ("reversed(l)", {"l": "List[int]"}),
        "empty": ("[]", {}),
    }
    bodies = {
        "acc": "    s = 0\n    for e in {src}:\n        s = s * 3 + e\n    return s\n",
        "last": "    e = -1\n    for e in {src}:\n        pass\n    return e\n",
        "ret": "    for e in {src}:\n        if e > 1:\n            return e\n    return -1\n",
        "else": "    s = 0\n    for e in {src}:\n        s += e\n    else:\n        s += 100\n    return s\n",
        "rettail": "    s = 0\n    for e in {src}:\n        s += e\n    else:\n        return s + 1\n",
        "shadow": "    e = 7\n    s = 0\n    for e in {src}:\n        e = e + 1\n        s += e\n    return s * 10 + e\n",
        "nested": "    s = 0\n    for e in {src}:\n        for f in {src}:\n            s = s * 2 + e - f\n    return s\n",
        "nestedsame": "    s = 0\n    for e in {src}:\n        for e in {src}:\n            s = s * 2 + e\n        s = s + e\n    return s\n",
        "carry": "    p = 0\n    q = 1\n    for e in {src}:\n        t = p + q\n        p = q\n        q = t + e\n    return p * 100 + q\n",
        "cond": "    s = 0\n    for e in {src}:\n        if e > 0:\n            s += e\n        elif e == 0:\n            s += 100\n        else:\n            s -= e\n    return s\n",
        "bind": "    for e in {src}:\n        z = e\n    return z\n",
        "listacc": "    r: List[int] = []\n    for e in {src}:\n        r = r + [e]\n    return len(r) + sum(r)\n",
        "assert": "    s = 0\n    for e in {src}:\n        assert e > 0, 'x'\n        s += e\n    return s\n",
        "whilein": "    s = 0\n    for e in {src}:\n        j = 0\n        while j < e:\n            j += 1\n            s += j\n    return s\n",
    }
    for sn, (src, params) in sources.items():
        for bn, b in bodies.items():
            top = "def src(l: List[int]) -> List[int]:\n    return [0] + l\n" if sn == "call" else ""
            args = None
            if params == {"n": I}:
                args = [(i,) for i in (-1, 0, 1, 2, 3)]
            yield B(f"loop:{sn}:{bn}", b.format(src=src), params, args, top=top, hdr="from typing import List, Dict\n")
    # rebinding what a loop iterates over / depends on
    for i, b in enumerate(
        [
            "    for e in l:\n        l = l + [e]\n    return len(l)\n",
            "    for e in l:\n        l = []\n    return len(l)\n",
            "    m = l\n    for e in l:\n        m = m[1:]\n    return len(m) + len(l)\n",
            "    n = len(l)\n    while n > 0:\n        n -= 1\n        l = l + [n]\n    return sum(l)\n",
            "    for i in range(len(l)):\n        l = l + [i]\n    return len(l)\n",
            "    while l:\n        l = l[1:]\n    return len(l)\n",
            "    s = 0\n    while len(l) > 0:\n        s = s * 2 + l[0]\n        l = l[1:]\n    return s\n",
            "    s = 0\n    for e in l:\n        s += e\n    for e in l:\n        s += e * 2\n    return s\n",
            "    s = 0\n    for e in l:\n        s += e\n    while s > 3:\n        s -= 2\n    else:\n        s += 100\n    return s\n",
            "    i = 0\n    j = 0\n    while i < len(l):\n        while j < i:\n            j += 1\n        i += 1\n    return i * 10 + j\n",
            "    i = 0\n    s = 0\n    while i < len(l):\n        e = l[i]\n        i = i + 1\n        if e == 0:\n            return s\n        s = s + e\n    return -s\n",
            "    i = 0\n    while True:\n        if i >= len(l):\n            return i\n        i += 1\n",
            "    i = 0\n    while i < 3:\n        i += 1\n        for e in l:\n            if e == i:\n                return i * 10 + e\n    return 99\n",
            "    s = 0\n    for e in l:\n        if e > 0:\n            for f in l:\n                if f > e:\n                    return s * 10 + f\n                s += 1\n        else:\n            s += 5\n    return s\n",
        ]
    ):
        yield B(f"rebind:{i}", b, {"l": "List[int]"})
    # assignment forms
    for i, (b, params, args) in enumerate(
        [
            ("    x, y = y, x\n    return x * 10 + y\n", 2, None),
            ("    x, y = y + x, x - y\n    return x * 10 + y\n", 2, None),
            ("    z, w = x, y\n    x, z = z + 1, x\n    return x * 1000 + z * 100 + w * 10 + y\n", 2, None),
            ("    x, x = x, y\n    return x\n", 2, None),
            ("    a, b, c = x, y, x + y\n    c, a, b = a, b, c\n    return a * 100 + b * 10 + c\n", 2, None),
            ("    (a, b), c = (x, y), 3\n    return a * 100 + b * 10 + c\n", 2, None),
            ("    t = (x, y)\n    a, b = t\n    return a * 10 + b\n", 2, None),
            ("    a, b = [x, y]\n    return a * 10 + b\n", 2, None),
            ("    a, b = [x, y, x]\n    return a * 10 + b\n", 2, None),
            ("    a, b, c = [x, y]\n    return a * 10 + b\n", 2, None),
            ("    a = b = x\n    return a * 10 + b\n", 2, None),
            ("    a: int = x\n    a = a + y\n    return a\n", 2, None),
            ("    a: int = x\n    b: int = a\n    a = 0\n    return a + b\n", 2, None),
            ("    for i in range(2):\n        x, y = y, x + y\n    return x * 10 + y\n", 2, None),
            ("    for i in range(3):\n        a, b = i, x\n        x = a + b\n    return x\n", 2, None),
            ("    for a, b in [(x, y), (y, x)]:\n        x = x * 3 + a - b\n    return x\n", 2, None),
            ("    if x > y:\n        x, y = y, x\n    return x * 10 + y\n", 2, None),
            ("    _ = x\n    _, z = y, x\n    return _ + z\n", 2, None),
            ("    x = x\n    y = y + x\n    x = y\n    return x\n", 2, None),
            ("    x = [x]\n    return x[0]\n", 2, None),
            ("    z = x\n    x = y\n    y = z\n    return x * 10 + y\n", 2, None),
            ("    z = [x, y]\n    x = 5\n    return z[0] * 10 + x\n", 2, None),
        ]
    ):
        yield B(f"assign:{i}", b, {"x": I, "y": I}, [(x, y) for x in (0, 1, 3) for y in (0, 2, 5)], hdr="from typing import List\n")
    # inner function with early return inside control flow of the caller
    for outer in ("if c{j} == 1:\n        x = f(x)\n", "while c{j} > 0:\n        x = f(x) + 1\n        c{j} -= 1\n", "for i in range(c{j}):\n        x = f(x + i)\n", "x = f(x) if c{j} else x\n"):
        for inner in (
            "    if a > 2:\n        return a - 1\n    return a + 1\n",
            "    for i in range(3):\n        if i == a:\n            return i * 5\n    return a\n",
            "    while a > 0:\n        a = a - 2\n        if a == 1:\n            return 7\n    return a\n",
            "    assert a != 1, 'x'\n    return a + 1\n",
        ):
            src = f"def f(a: int) -> int:\n{inner}def validator(x: int, c1: int) -> int:\n    {outer.format(j=1)}    return x\n"
            yield mk.case(
                f"call:{outer[:5]}:{inner[4:9]}".replace(" ", ""),
                src,
                [(str(x), str(c)) for x in (-1, 0, 1, 2, 3) for c in (0, 1, 2)],
            )
    # functions that end without return, or return nothing
    for i, (src, args) in enumerate(
        [
            ("def f(a: int) -> None:\n    assert a > 0, 'p'\ndef validator(x: int) -> int:\n    f(x)\n    return x\n", 1),
            ("def f(a: int) -> None:\n    if a > 0:\n        return None\n    assert a == 0, 'p'\ndef validator(x: int) -> int:\n    f(x)\n    return x\n", 1),
            ("def validator(x: int) -> None:\n    assert x == 1, 'p'\n", 1),
            ("def validator(x: int) -> None:\n    if x == 1:\n        pass\n    else:\n        assert False, 'p'\n", 1),
            ("def validator(x: int) -> None:\n    if x == 1:\n        return\n    assert x == 0, 'p'\n", 1),
            ("def validator(x: int) -> None:\n    while x > 1:\n        x -= 1\n    assert x == 1, 'p'\n", 1),
            ("def validator(x: int) -> None:\n    pass\n", 1),
            ("def validator(x: int) -> None:\n    'doc'\n", 1),
            ("def validator(x: int) -> int:\n    'doc'\n    return x\n", 1),
            ("def validator(x: int) -> int:\n    5\n    x\n    return x\n", 1),
            ("def validator(x: int) -> int:\n    if x == 1: return 4\n    elif x == 2: return 5\n    else: return 6\n", 1),
            ("def validator(x: int) -> int:\n    if x == 1:\n        if x == 2:\n            return 1\n        else:\n            x = 5\n    else:\n        return 3\n    return x\n", 1),
            ("def f(x: int) -> int:\n    if x > 0:\n        return 1\n    else:\n        return 2\n    return 3\ndef validator(x: int) -> int:\n    return f(x)\n", 1),
            ("z = 5\nz = z + 1\ndef validator(x: int) -> int:\n    return x + z\n", 1),
            ("z = 5\nif z > 3:\n    w = 1\nelse:\n    w = 2\ndef validator(x: int) -> int:\n    return x + w\n", 1),
            ("z = 0\nfor i in [1, 2, 3]:\n    z += i\ndef validator(x: int) -> int:\n    return x + z + i\n", 1),
            ("z = 0\nwhile z < 7:\n    z += 2\ndef validator(x: int) -> int:\n    return x + z\n", 1),
            ("z = 5\nassert z == 5, 'm'\ndef validator(x: int) -> int:\n    return x + z\n", 1),
            ("z = 5\nassert z == 6, 'm'\ndef validator(x: int) -> int:\n    return x + z\n", 1),
        ]
    ):
        yield mk.case(f"ends:{i}", src, [(str(x),) for x in (-1, 0, 1, 2)])


def cases(tier):
    mk = Mk(tier, every=3)
    for n in range(1, 6 if tier == "thorough" else 5):
        for s in seqs(n):
            yield skeleton(mk, s)
    yield from part2(mk)


def run_case(case):
    return run_diff(case, PROP)
