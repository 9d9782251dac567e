"""C05: functions, closures, methods and scoping.

Part 1 explores all event sequences up to a depth over an alphabet of
definitions, redefinitions, captures, rebindings and calls, placed (a) in the
body of the validator, (b) at module level, (c) in a nested function.
Part 2 enumerates method and dunder shapes, part 3 call shapes."""
import itertools

from ..alpha import HDR, Mk
from ..diff import run_diff

PROP = "C05"
LEVEL = "exploration"
RULE = (
    "Part 1: all sequences of up to 4 (quick: 3 plus every length-4 sequence that ends in a call and defines a function; thorough: 5) events over an alphabet of 10 events (define f "
    "capturing v, redefine f, define g calling f, g shadowing v, recursive f, rebind v, rebind v in a branch, loop "
    "over v, call f, call g), each placed in the validator body, at module level and in a nested function. Part 2: every "
    "dunder method x operator form x operand kinds; method call graphs. Part 3: call shapes (keywords, arity, argument "
    "types, function values). Sequences that CPython ends with an unbound-name error are included."
)
ASSUMPTIONS = ["CPython and the uplc CEK machine are correct"]

EVENTS = {
    "d": "def f(a: int) -> int:\n    return a + v\n",
    "D": "def f(a: int) -> int:\n    return a * 2 - v\n",
    "g": "def g(a: int) -> int:\n    return f(a) + 10\n",
    "G": "def g(a: int) -> int:\n    v = a * 3\n    return f(v) - v\n",
    "R": "def f(a: int) -> int:\n    return v if a <= 0 else f(a - 1) + 1\n",
    "v": "v = v * 2 + 1\n",
    "i": "if x > 0:\n    v = 5\n",
    "l": "for v in [3, 4]:\n    r = r + v\n",
    "F": "r = r * 7 + f(r)\n",
    "C": "r = r * 5 + g(2)\n",
}
CALLS = "FC"


def ind(s, n=1):
    return "".join("    " * n + l + "\n" for l in s.splitlines())


def placement(pl, seq):
    body = "".join(EVENTS[e] for e in seq)
    if pl == "body":
        return "def validator(x: int) -> int:\n    v = 1\n    r = x\n" + ind(body) + "    return r * 3 + v\n"
    if pl == "module":
        # module level code, the validator calls what was defined
        defs = "v = 1\nr = 2\nx = 1\n" + body
        tail = "    return x * 100 + r"
        if any(e in seq for e in "dDR"):
            tail += " + f(x) * 1000"
        if any(e in seq for e in "gG"):
            tail += " + g(x) * 100000"
        return defs + "def validator(x: int) -> int:\n" + tail + "\n"
    if pl == "outerv":
        # v lives in the enclosing function
        if any(e in seq for e in "vil"):
            return None
        return (
            "def validator(x: int) -> int:\n    v = 1\n    def inner(r: int) -> int:\n"
            + ind(body, 2)
            + "        return r + 1\n    p = inner(x)\n    v = 8\n    return p * 50 + inner(p)\n"
        )
    raise KeyError(pl)


def sequences(tier):
    ab = list(EVENTS)
    for n in (1, 2, 3):
        yield from itertools.product(ab, repeat=n)
    for s in itertools.product(ab, repeat=4):
        if tier == "thorough" or (s[-1] in CALLS and any(e in s for e in "dDR") and s[0] not in CALLS):
            yield s
    if tier == "thorough":
        for s in itertools.product(ab, repeat=5):
            if s[-1] in CALLS and any(e in s for e in "dDR") and s[0] not in CALLS:
                yield s


CLS = """@dataclass
class {name}(PlutusData):
    CONSTR_ID = {cid}
    x: int
{methods}"""

BINOPS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "matmul": "@", "and": "&", "or": "|", "xor": "^", "lshift": "<<", "rshift": ">>"}
CMPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
H = "from typing import Dict, List, Union, Self\nfrom dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\n"


def cls(name, cid, *methods):
    return CLS.format(name=name, cid=cid, methods="".join(ind(m) for m in methods))


def part2(mk):
    XY = [(x, y) for x in ("0", "1", "-2", "3") for y in ("0", "1", "2")]
    X1 = [(x,) for x in ("0", "1", "-2", "5")]

    def P(cid, classes, body, params="x: int, y: int", ret=None, args=None):
        src = H + "".join(classes) + f"def validator({params}){' -> ' + ret if ret else ''}:\n" + ind(body)
        return mk.case(cid, src, XY if args is None else args)

    for d, op in BINOPS.items():
        m = f"def __{d}__(self, other: int) -> int:\n    return self.x * 10 + other\n"
        yield P(f"dun:{d}:int", [cls("K", 0, m)], f"return K(x) {op} y")
        yield P(f"dun:{d}:aug", [cls("K", 0, m)], f"k = K(x)\nz = k {op} y\nz = K(z) {op} 1\nreturn z")
        ms = f"def __{d}__(self, other: Self) -> Self:\n    return K(self.x * 10 + other.x)\n".replace("-> Self", "-> Self")
        yield P(f"dun:{d}:self", [cls("K", 0, ms)], f"return (K(x) {op} K(y)).x")
        yield P(f"dun:{d}:assoc", [cls("K", 0, ms)], f"return (K(x) {op} K(y) {op} K(7)).x")
        r = f"def __r{d}__(self, other: int) -> int:\n    return self.x * 100 + other\n"
        yield P(f"dun:r{d}:int", [cls("K", 0, r)], f"return y {op} K(x)")
        yield P(f"dun:both{d}:int", [cls("K", 0, m, r)], f"return (y {op} K(x)) * 1000 + (K(x) {op} y)")
        o = f"def __{d}__(self, other: L) -> int:\n    return self.x * 10 + other.x\n"
        ro = f"def __r{d}__(self, other: K) -> int:\n    return self.x * 77 + other.x\n"
        yield P(f"dun:{d}:other", [cls("L", 1), cls("K", 0, o)], f"return K(x) {op} L(y)")
        yield P(f"dun:r{d}:other", [cls("K", 0), cls("L", 1, ro)], f"return K(x) {op} L(y)")
        yield P(f"dun:{d}:{d}other", [cls("K", 0, f"def __{d}__(self, other: int) -> int:\n    return 5\n"), cls("L", 1, ro)], f"return K(x) {op} L(y)")
    for d, op in CMPS.items():
        m = f"def __{d}__(self, other: Self) -> bool:\n    return self.x * 2 > other.x\n"
        for d2, op2 in CMPS.items():
            yield P(f"cmp:{d}:{d2}", [cls("K", 0, m)], f"return K(x) {op2} K(y)", ret="bool")
        yield P(f"cmp:{d}:chain", [cls("K", 0, m)], f"return K(x) {op} K(y) {op} K(1)", ret="bool")
        mi = f"def __{d}__(self, other: int) -> bool:\n    return self.x * 2 > other\n"
        yield P(f"cmp:{d}:int", [cls("K", 0, mi)], f"return K(x) {op} y", ret="bool")
        yield P(f"cmp:{d}:rint", [cls("K", 0, mi)], f"return y {op} K(x)", ret="bool")
        yield P(f"cmp:{d}:not", [cls("K", 0, m)], f"return not (K(x) {op} K(y))", ret="bool")
        yield P(f"cmp:{d}:if", [cls("K", 0, m)], f"if K(x) {op} K(y):\n    return 1\nreturn 2")
        yield P(f"cmp:{d}:inlist", [cls("K", 0, m)], "return K(x) in [K(y), K(2)]", ret="bool")
        yield P(f"cmp:{d}:index", [cls("K", 0, m)], "return [K(y), K(2)].index(K(x))", ret="int")
    c = "def __contains__(self, e: int) -> bool:\n    return self.x == e * 2\n"
    yield P("contains:in", [cls("K", 0, c)], "return y in K(x)", ret="bool")
    yield P("contains:notin", [cls("K", 0, c)], "return y not in K(x)", ret="bool")
    yield P("contains:chain", [cls("K", 0, c)], "return 0 <= y in K(x)", ret="bool")
    for d, op in (("neg", "-"), ("pos", "+"), ("invert", "~")):
        m = f"def __{d}__(self) -> int:\n    return self.x * 10 + 1\n"
        yield P(f"un:{d}", [cls("K", 0, m)], f"return {op}K(x) + y")
        yield P(f"un:{d}:twice", [cls("K", 0, f"def __{d}__(self) -> Self:\n    return K(self.x * 10 + 1)\n")], f"return ({op}({op}K(x))).x")
    b = "def __bool__(self) -> bool:\n    return self.x > 0\n"
    for i, body in enumerate(
        ["return not K(x)", "return bool(K(x))", "return True if K(x) else False", "if K(x):\n    return True\nreturn False", "return not not K(x)",
         "k = K(x)\nwhile k:\n    k = K(k.x - 1)\nreturn k.x == y", "assert K(x)\nreturn True", "return bool(K(x)) and not K(y)"]
    ):
        yield P(f"bool:{i}", [cls("K", 0, b)], body, ret="bool")
    for i, (m, body) in enumerate(
        [
            ("def __len__(self) -> int:\n    return 3\n", "return len(K(x))"),
            ("def __getitem__(self, i: int) -> int:\n    return self.x + i\n", "return K(x)[y]"),
            ("def __call__(self, i: int) -> int:\n    return self.x + i\n", "return K(x)(y)"),
            ("def __str__(self) -> str:\n    return 'abc'\n", "return str(K(x))"),
            ("def __int__(self) -> int:\n    return 5\n", "return int(K(x))"),
            ("def __abs__(self) -> int:\n    return 5\n", "return abs(K(x))"),
            ("def __hash__(self) -> int:\n    return 5\n", "return 1"),
            ("def __iter__(self) -> List[int]:\n    return [5]\n", "return 1"),
        ]
    ):
        yield P(f"dunother:{i}", [cls("K", 0, m)], body)
    # methods
    mm = [
        ("def get(self) -> int:\n    return self.x\n", "return K(x).get() + y"),
        ("def get(self) -> int:\n    return self.x\n", "k = K(x)\nx = 77\nreturn k.get() + y + x"),
        ("def add(self, a: int) -> int:\n    return self.x + a\n", "return K(x).add(y)"),
        ("def add(self, a: int, b: int) -> int:\n    return self.x * 100 + a * 10 + b\n", "return K(x).add(y, 7)"),
        ("def add(self, a: int, b: int) -> int:\n    return self.x * 100 + a * 10 + b\n", "return K(x).add(b=y, a=7)"),
        ("def add(self, a: int, b: int) -> int:\n    return self.x * 100 + a * 10 + b\n", "return K(x).add(y, b=7)"),
        ("def up(self) -> Self:\n    return K(self.x + 1)\n", "return K(x).up().up().x + y"),
        ("def a(self) -> int:\n    return self.b() + 1\ndef b(self) -> int:\n    return self.x * 2\n", "return K(x).a()"),
        ("def b(self) -> int:\n    return self.x * 2\ndef a(self) -> int:\n    return self.b() + 1\n", "return K(x).a()"),
        ("def a(self, n: int) -> int:\n    return self.x if n <= 0 else self.a(n - 1) + 2\n", "return K(x).a(y)"),
        ("def a(self, n: int) -> int:\n    return self.x if n <= 0 else self.b(n - 1) + 2\ndef b(self, n: int) -> int:\n    return 100 if n <= 0 else self.a(n - 1) * 3\n", "return K(x).a(y)"),
        ("def x2(self) -> int:\n    x = self.x\n    x = x * 2\n    return x\n", "return K(x).x2() + x"),
        ("def same(self, o: Self) -> bool:\n    return self.x == o.x\n", "return K(x).same(K(y))"),
        ("def same(this, o: Self) -> bool:\n    return this.x == o.x\n", "return K(x).same(K(y))"),
        ("def z(self, l: List[int]) -> int:\n    s = self.x\n    for e in l:\n        s = s * 2 + e\n    return s\n", "return K(x).z([y, 1])"),
        ("def z(self) -> int:\n    return glob(self.x)\n", "return K(x).z()"),
        ("def glob(self) -> int:\n    return glob(self.x) * 2\n", "return K(x).glob()"),
        ("def z(self) -> int:\n    return self.x + GL\n", "return K(x).z()"),
        ("def y(self) -> int:\n    return self.x + 1\n", "y = K(y).y()\nreturn K(x).y() * 100 + y"),
        ("def z(self, f: int) -> int:\n    def h(a: int) -> int:\n        return a + self.x + f\n    return h(2)\n", "return K(x).z(y)"),
    ]
    for i, (m, body) in enumerate(mm):
        pre = "GL = 9\ndef glob(a: int) -> int:\n    return a * 3 + 1\n"
        yield P(f"meth:{i}", [pre, cls("K", 0, m)], body)
    two = [
        (cls("K", 0, "def get(self) -> int:\n    return self.x\n"), cls("L", 1, "def get(self) -> int:\n    return self.x * 10\n"), "return K(x).get() * 1000 + L(y).get()"),
        (cls("K", 0, "def get(self) -> int:\n    return self.x\n"), cls("L", 1, "def get(self) -> int:\n    return K(self.x + 1).get()\n"), "return K(x).get() * 1000 + L(y).get()"),
        (cls("K", 0, "def mk(self) -> int:\n    return self.x\n"), cls("L", 1, "def to(self) -> K:\n    return K(self.x + 1)\n"), "return L(y).to().mk()"),
        (cls("K", 0, "def __add__(self, o: Self) -> Self:\n    return K(self.x + o.x)\n"), cls("L", 1, "def __add__(self, o: Self) -> Self:\n    return L(self.x * o.x)\n"), "return (K(x) + K(y)).x * 100 + (L(x) + L(y)).x"),
        (cls("K", 0, "def __eq__(self, o: Self) -> bool:\n    return self.x == o.x + 1\n"), cls("L", 1), "return (K(x) == K(y), L(x) == L(y))"),
        (cls("K", 0, "def get(self) -> int:\n    return self.x\n"), cls("L", 1, "def get(self) -> int:\n    return self.x * 10\n"), "u: Union[K, L] = K(x) if y > 0 else L(x)\nif isinstance(u, K):\n    return u.get()\nelse:\n    return u.get()"),
        (cls("K", 0, "def get(self) -> int:\n    return self.x\n"), cls("L", 1, "def get(self) -> int:\n    return self.x * 10\n"), "u: Union[K, L] = K(x) if y > 0 else L(x)\nreturn u.get()"),
        (cls("K", 0, "def get(self) -> int:\n    return self.x\n"), cls("L", 1, "def get(self) -> int:\n    return self.x * 10\n"), "l = [K(x), K(y)]\ns = 0\nfor k in l:\n    s = s * 10 + k.get()\nreturn s + sum([k.get() for k in l])"),
    ]
    for i, (a, b_, body) in enumerate(two):
        yield P(f"meth2:{i}", [a, b_], body)


def part3(mk):
    def V(cid, top, body, args=None):
        src = "from typing import Dict, List, Union\n" + top + "def validator(x: int, y: int):\n" + ind(body)
        return mk.case("call:" + cid, src, args or [(x, y) for x in ("0", "1", "-2") for y in ("1", "2", "5")])

    f3 = "def f(a: int, b: int, c: int) -> int:\n    return a * 100 + b * 10 + c\n"
    for perm in itertools.permutations("abc"):
        for npos in range(0, 4):
            pos = ["x", "y", "3"][:npos]
            names = ["a", "b", "c"][npos:]
            kws = [n for n in perm if n in names]
            val = dict(a="x", b="y", c="3")
            call = ", ".join(pos + [f"{k}={val[k]}" for k in kws])
            yield V(f"kw:{''.join(perm)}:{npos}", f3, f"return f({call})")
            yield V(f"kwlocal:{''.join(perm)}:{npos}", "", f3 + f"return f({call}) + 1")
    for i, call in enumerate(["f(1, 2)", "f(1, 2, 3, 4)", "f(1, 2, c=3, d=4)", "f(1, 2, b=3)", "f(a=1, a=2, b=1, c=2)"]):
        if "a=1, a=2" in call:
            continue  # a syntax error
        yield V(f"arity:{i}", f3, f"return f({call[2:]}")
    tops = [
        # shadowing of builtins and parameters
        ("def f(x: int) -> int:\n    x = x + 1\n    return x\n", "return f(x) * 10 + x"),
        ("def f(y: int, x: int) -> int:\n    return y * 10 + x\n", "return f(x, y)"),
        ("x = 5\ndef f() -> int:\n    return x\n", "return f() * 10 + x"),
        ("x = 5\ndef f(y: int) -> int:\n    return x + y\n", "x = 6\nreturn f(x) * 10 + x"),
        ("v = 5\ndef f() -> int:\n    return v\nv = 6\n", "return f() + x"),
        ("def f() -> int:\n    return v\nv = 6\n", "return f() + x"),
        ("v = 6\ndef f() -> int:\n    v = 7\n    return v\n", "return f() * 10 + v + x"),
        ("v = 6\n", "v = 7\nreturn v + x"),
        ("v = 6\n", "if x > 0:\n    v = 7\nreturn v + x"),
        ("def len2(l: List[int]) -> int:\n    return len(l) + 1\n", "return len2([x])"),
        ("def f(a: int) -> int:\n    def f(b: int) -> int:\n        return b * 2\n    return f(a) + 1\n", "return f(x)"),
        ("def f(a: int) -> int:\n    def g(b: int) -> int:\n        def h(c: int) -> int:\n            return a * 100 + b * 10 + c\n        return h(b + 1)\n    return g(a + 1)\n", "return f(x)"),
        ("def f(a: int) -> int:\n    a = a + 1\n    def g() -> int:\n        return a\n    a = a * 10\n    return g()\n", "return f(x)"),
        ("def f(a: int) -> int:\n    def g() -> int:\n        return a\n    b = g()\n    a = a * 10 + 1\n    return b * 1000 + g()\n", "return f(x)"),
        ("def f(n: int) -> int:\n    return 1 if n <= 0 else n * f(n - 1)\n", "return f(x + y)"),
        ("def f(n: int) -> int:\n    if n <= 1:\n        return n\n    return f(n - 1) + f(n - 2)\n", "return f(x + y)"),
        ("def ev(n: int) -> bool:\n    return True if n == 0 else od(n - 1)\ndef od(n: int) -> bool:\n    return False if n == 0 else ev(n - 1)\n", "return ev(y)"),
        ("def f(l: List[int]) -> int:\n    return 0 if len(l) == 0 else l[0] + f(l[1:])\n", "return f([x, y, 3])"),
        ("def f(n: int, acc: List[int]) -> List[int]:\n    return acc if n <= 0 else f(n - 1, acc + [n])\n", "return f(y, [x])"),
        ("def f(a: int, b: bytes) -> bytes:\n    return b + bytes([a])\n", "return f(y, b'a')"),
        ("def f(a: int, b: bool) -> int:\n    return a if b else -a\n", "return f(y, x > 0)"),
        ("def f(a: str) -> str:\n    return a + a\n", "return f(str(x))"),
        ("def f(a: None) -> int:\n    return 4\n", "return f(None) + x"),
        ("def f(a: Dict[int, int]) -> int:\n    return a[1]\n", "return f({1: x, y: 5})"),
        ("def f(a: Union[int, bytes]) -> int:\n    return a if isinstance(a, int) else len(a)\n", "return f(x) * 10 + f(b'abc')"),
        ("def f(a: int) -> Union[int, bytes]:\n    if a > 0:\n        return a\n    return b'zz'\n", "r = f(x)\nreturn r if isinstance(r, int) else len(r)"),
        ("def f(a: int) -> int:\n    return a + 1\ndef g(a: int) -> int:\n    return a * 2\n", "return f(g(x)) * 100 + g(f(y))"),
        ("def f(a: int) -> int:\n    return a + 1\nh = f\n", "return h(x)"),
        ("def f(a: int) -> int:\n    return a + 1\n", "h = f\nreturn h(x)"),
        ("def f(a: int) -> int:\n    return a + 1\ndef g(a: int) -> int:\n    return a * 2\n", "h = f\nr = h(x)\nh = g\nreturn r * 100 + h(x)"),
        ("def f(a: int) -> int:\n    return a + 1\ndef g(a: int) -> int:\n    return a * 2\n", "h = f if x > 0 else g\nreturn h(y)"),
        ("def f(a: int) -> int:\n    return a + 1\ndef g(a: int) -> int:\n    return a * 2\n", "if x > 0:\n    h = f\nelse:\n    h = g\nreturn h(y)"),
        ("", "def f(a: int) -> int:\n    return a + y\nif x > 0:\n    def f(a: int) -> int:\n        return a - y\nreturn f(x)"),
        ("", "if x > 0:\n    def f(a: int) -> int:\n        return a - y\nelse:\n    def f(a: int) -> int:\n        return a * 3\nreturn f(x)"),
        ("", "for i in range(3):\n    def f(a: int) -> int:\n        return a * 10 + i\n    x = f(x)\nreturn x"),
        ("", "for i in range(3):\n    def f(a: int) -> int:\n        return a * 10 + i\nreturn f(x)"),
        ("", "i = 0\ndef f(a: int) -> int:\n    return a * 10 + i\nwhile i < 3:\n    i += 1\n    x = f(x)\nreturn x"),
        ("", "s = 0\ndef f(a: int) -> int:\n    return a + s\nfor e in [1, 2, 3]:\n    s = f(e)\nreturn s"),
        ("", "def f(a: int) -> int:\n    return a + g(a)\ndef g(a: int) -> int:\n    return a + y\ny = y * 10\nreturn f(x)"),
        ("", "z = 1\ndef f(a: int) -> int:\n    z = a\n    def g(b: int) -> int:\n        return z + b\n    z = z * 2\n    return g(1)\nreturn f(x) * 10 + z"),
        ("", "l = [e * 2 for e in [x, y]]\ne = 5\nreturn sum([e for e in l]) * 10 + e"),
        ("", "e = 5\nl = [e * 2 for e in [x, y]]\nreturn sum(l) * 10 + e"),
        ("", "l = [[f + e for f in [1, 2]] for e in [x, y]]\nreturn l[1][0] * 10 + l[0][1]"),
        ("def f(a: int) -> int:\n    return a * 2\n", "return sum([f(e) for e in [x, y, 1]])"),
        ("def f(a: int) -> int:\n    return a * 2\n", "return {f(e): e for e in [x, y]}"),
        ("def f(a: int) -> List[int]:\n    return [a, a + 1]\n", "return f(x)[1] + f(y)[0]"),
        ("def f(a: int, b: int) -> List[int]:\n    return [a, b]\n", "a, b = f(y, x)\nreturn a * 10 + b"),
        ("def f(a: int) -> int:\n    def g(b: int) -> int:\n        return f(b - 1) + 1 if b > 0 else a\n    return g(a) if a > 0 else 0\n", "return f(y)"),
        ("def max3(a: int, b: int, c: int) -> int:\n    return max([a, b, c])\n", "return max3(x, y, 2)"),
    ]
    for i, (t, b) in enumerate(tops):
        yield V(f"top:{i}", t, b)


def cases(tier):
    mk = Mk(tier, every=6)
    for s in sequences(tier):
        for pl in ("body", "module", "outerv"):
            if pl == "outerv" and tier == "quick" and len(s) == 4 and len(set(s)) < 4:
                continue
            if pl == "module" and tier == "quick" and len(s) == 4:
                continue
            src = placement(pl, s)
            if src:
                yield mk.case(f"seq:{pl}:{''.join(s)}", src, [("0",), ("1",), ("3",)])
    yield from part2(mk)
    yield from part3(mk)


def run_case(case):
    return run_diff(case, PROP)
