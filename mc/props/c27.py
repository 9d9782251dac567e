"""C27: names that may be unbound.

Every arrangement of bindings and uses of a name up to a bound, in every kind
of scope, is run on every combination of branch outcomes and loop counts."""
import functools
import itertools

from ..alpha import HDR, Mk
from ..diff import prog, run_diff

PROP = "C27"
LEVEL = "exploration"
CPU_LIMIT = 200
RULE = (
    "Statement trees over {bind, use, rebind from itself, define a function reading the name, call it, bind as loop target} and "
    "{if, if/else, for, while}, with up to 4 (quick) / 5 (thorough) nodes, as body of a validator (with and without a module "
    "variable of that name), of a function, a nested function, a method and a module; sequences of two mutually dependent "
    "functions, their calls and a binding in every order; every form of use against every place of binding; dead code. All "
    "branch outcomes and loop counts 0..2 are run. A program on which CPython raises for no input has to be accepted as it "
    "is today."
)
ASSUMPTIONS = [
    "CPython and the uplc CEK machine are correct",
    "NameError, UnboundLocalError and a rejection by the compiler are all 'fails'",
    "trees are complete up to the stated node count, not beyond",
]

ONE = ("if", "for", "while")


@functools.lru_cache(None)
def seqs(n, leaves):
    if n == 0:
        return [()]
    res = []
    for k in range(1, n + 1):
        for s in stmts(k, leaves):
            for r in seqs(n - k, leaves):
                res.append((s,) + r)
    return res


@functools.lru_cache(None)
def stmts(n, leaves):
    if n == 1:
        return [(l,) for l in leaves]
    res = []
    for b in seqs(n - 1, leaves):
        res += [(k, b) for k in ONE]
        if "B" in leaves:
            res.append(("fora", b))
    for i in range(1, n - 1):
        for b in seqs(i, leaves):
            for c in seqs(n - 1 - i, leaves):
                res.append(("ifelse", b, c))
    return res


LEAF = {
    "B": ["a = x + 1"],
    "U": ["s += a"],
    "G": ["a += 10"],
    "P": ["pass"],
    "D": ["def f() -> int:", "    return a * 3"],
    "C": ["s += f()"],
    "E": ["def f() -> int:", "    return 7"],
}


def render(t, st=None, depth=0):
    """x // 4 is the loop count; x % 2 and x // 2 % 2 decide the branches"""
    st = st if st is not None else [0]
    out = []
    for s in t:
        if s[0] in LEAF:
            out += LEAF[s[0]]
            continue
        st[0] += 1
        n = st[0]
        cond = "x % 2 == 1" if n % 2 else "x // 2 % 2 == 1"
        if s[0] in ("if", "ifelse"):
            out.append(f"if {cond}:")
            out += ["    " + l for l in render(s[1], st, depth + 1)]
            if s[0] == "ifelse":
                out.append("else:")
                out += ["    " + l for l in render(s[2], st, depth + 1)]
        elif s[0] == "for":
            out.append(f"for i{n} in range(x // 4):")
            out += ["    " + l for l in render(s[1], st, depth + 1)]
        elif s[0] == "fora":
            out.append("for a in range(x // 4):")
            out += ["    " + l for l in render(s[1], st, depth + 1)]
        elif s[0] == "while":
            out += [f"w{n} = 0", f"while w{n} < x // 4:", f"    w{n} += 1"]
            out += ["    " + l for l in render(s[1], st, depth + 1)]
    return out


def flat(t):
    for s in t:
        yield s[0]
        for b in s[1:]:
            yield from flat(b)


def code(t):
    return "".join(
        s[0] + "".join(f"({code(b)})" for b in s[1:]) + ("" if len(s) == 1 else ".")
        for s in t
    )


def ind(lines, n=1):
    return "".join("    " * n + l + "\n" for l in lines)


CTX = {
    "val": lambda b: "def validator(x: int) -> int:\n    s = 0\n" + ind(b) + "    return s\n",
    "shadow": lambda b: "a = 1000\ndef validator(x: int) -> int:\n    s = 0\n" + ind(b) + "    return s + 5\n",
    "shadowuse": lambda b: "a = 1000\ndef h() -> int:\n    return a\ndef validator(x: int) -> int:\n    s = h()\n" + ind(b) + "    return s + h()\n",
    "fn": lambda b: "def h(x: int) -> int:\n    s = 0\n" + ind(b) + "    return s\ndef validator(x: int) -> int:\n    return h(x)\n",
    "fnafter": lambda b: "def validator(x: int) -> int:\n    return h(x)\ndef h(x: int) -> int:\n    s = 0\n" + ind(b) + "    return s\na = 500\n",
    "nested": lambda b: "def validator(x: int) -> int:\n    def h(x: int) -> int:\n        s = 0\n" + ind(b, 2) + "        return s\n    a = 20\n    return h(x) + a\n",
    "method": lambda b: "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self, x: int) -> int:\n        s = 0\n" + ind(b, 2) + "        return s\ndef validator(x: int) -> int:\n    return K(1).m(x)\n",
}
MOD = lambda b, x: f"s = 0\nx = {x}\n" + ind(b, 0) + "def validator(y: int) -> int:\n    return s + y\n"
MODUSE = lambda b, x: f"s = 0\nx = {x}\n" + ind(b, 0) + "def validator(y: int) -> int:\n    return s + a + y\n"
ARGS = [(str(i),) for i in range(12)]

# one use of the name
USE = {
    "load": "r = a",
    "ifexp": "r = a if x % 2 == 1 else 5",
    "ifexp2": "r = 5 if x % 2 == 1 else a",
    "and": "r = 1 if x % 2 == 1 and a > 0 else 5",
    "or": "r = 1 if x % 2 == 1 or a > 0 else 5",
    "compelt": "r = len([a for i in range(x // 4)])",
    "compcond": "r = len([i for i in range(x // 4) if a > 0])",
    "compiter": "r = len([i for i in range(a)])",
    "dictcomp": "r = len({i: a for i in range(x // 4)})",
    "comptgt": "r = len([a for a in range(x // 4)])",
    "comptgtuse": "l = [a for a in range(x // 4)]\nr = a",
    "fstr": "r = 1 if f'{a}' == '3' else 2",
    "print": "print(str(a))\nr = 1",
    "assert": "assert a != 99\nr = 1",
    "expr": "a\nr = 1",
    "unused": "u = a\nr = 1",
    "unusedl": "u = [a, 1]\nr = 1",
    "unusedcall": "u = len([a])\nr = 1",
    "unusedann": "u: int = a\nr = 1",
    "unusedtup": "u, v = a, 1\nr = 1",
    "arg": "def h(q: int) -> int:\n    return 5\nr = h(a)",
    "argunused": "def h(q: int) -> int:\n    return 5\nu = h(a)\nr = 1",
    "list": "r = [a, 2][1]",
    "tuple": "r = (a, 2)[1]",
    "dict": "r = {1: a, 2: 3}[2]",
    "dictkey": "r = {a: 2, 5: 3}[5]",
    "attr": "r = A(a).x",
    "attrdrop": "r = N(A(a), A(1), {1: b''}).u == A(1)",
    "while": "r = 0\nwhile r < x // 4 and a > 0:\n    r += 1",
    "whileb": "r = 0\nwhile r < x // 4:\n    r += a + 1",
    "for": "r = 0\nfor i in range(x // 4):\n    r += a",
    "if": "r = 0\nif a > 0:\n    r = 1",
    "elif": "r = 0\nif x % 2 == 1:\n    r = 2\nelif a > 0:\n    r = 1",
    "aug": "a += 1\nr = a",
    "self": "a = a + 1\nr = a",
    "selfcond": "a = a + 1 if x % 2 == 1 else 4\nr = a",
    "shadowarg": "def h(a: int) -> int:\n    return a\nr = h(3)",
    "inner": "def h() -> int:\n    return a\nr = h() if x % 2 == 1 else 2",
    "inner2": "def h() -> int:\n    def k() -> int:\n        return a\n    return k()\nr = h() if x % 2 == 1 else 2",
    "innerun": "def h() -> int:\n    return a\nr = 2",
    "innerass": "def h() -> int:\n    a = 5\n    return a\nr = h()",
    "innerassloc": "def h() -> int:\n    q = a\n    a = 5\n    return q\nr = h() if x % 2 == 1 else 2",
    "innerloc": "def h() -> int:\n    if x % 2 == 1:\n        a = 5\n    return a\nr = h()",
    "isinst": "r = 1 if isinstance(a, int) else 2",
    "not": "r = 1 if not a else 2",
    "cmp": "r = 1 if 5 < x < a else 2",
    "cmpin": "r = 1 if x in [a, 1] else 2",
    "idx": "r = [1, 2, 3][0 * a]",
    "slice": "r = len([1, 2, 3][:a])",
    "ret": "if x % 2 == 1:\n    return a\nr = 2",
    "never": "r = 1",
    "dead": "r = 1\nif False:\n    r = a",
    "dead2": "r = 1\nif x > 100:\n    r = a",
    "deadret": "if x >= 0:\n    return 4\nr = a",
}
# where the name is bound: lines before, lines after (same scope), module level before/after the function
BIND = {
    "none": ("", ""),
    "before": ("a = x + 2", ""),
    "after": ("", "a = x + 2"),
    "if": ("if x // 2 % 2 == 1:\n    a = x + 2", ""),
    "else": ("if x // 2 % 2 == 1:\n    pass\nelse:\n    a = x + 2", ""),
    "both": ("if x // 2 % 2 == 1:\n    a = 3\nelse:\n    a = x + 2", ""),
    "for": ("for j in range(x // 4):\n    a = j", ""),
    "fortgt": ("for a in range(x // 4):\n    pass", ""),
    "forelse": ("for j in range(x // 4):\n    pass\nelse:\n    a = 4", ""),
    "while": ("k = 0\nwhile k < x // 4:\n    k += 1\n    a = k", ""),
    "destr": ("if x % 2 == 1:\n    a, b = x, 1", ""),
    "aug": ("a = 1\na += x", ""),
    "fordestr": ("for a, b in {x: 1}.items():\n    pass", ""),
    "ifret": ("if x // 2 % 2 == 1:\n    a = 3\nelse:\n    return 77", ""),
    "ifassert": ("if x // 2 % 2 == 1:\n    a = 3\nelse:\n    assert False", ""),
    "nestedif": ("if x % 2 == 1:\n    if x // 2 % 2 == 1:\n        a = 3", ""),
    "elif": ("if x % 2 == 1:\n    pass\nelif x // 2 % 2 == 1:\n    a = 3", ""),
    "mod": None,
    "modafter": None,
    "modif": None,
}


def uses(mk, th):
    n = 0
    for (bn, b), (un, u) in itertools.product(BIND.items(), USE.items()):
        mods = {"mod": ("a = 8\n", ""), "modafter": ("", "a = 8\n"), "modif": ("if False:\n    a = 8\n", "")}
        pre, post = mods.get(bn, ("", ""))
        before, after = b or ("", "")
        lines = [l for t in (before, u, after) for l in t.split("\n") if l]
        hdr = HDR if "A(" in u else ""
        for ctx in ("val", "fn", "nested", "if", "loop"):
            n += 1
            if not th and (ctx in ("if", "loop", "nested") and n % 4 or ctx == "fn" and n % 2):
                continue
            if ctx == "val":
                src = "def validator(x: int) -> int:\n" + ind(lines) + "    return r\n"
            elif ctx == "fn":
                src = "def g(x: int) -> int:\n" + ind(lines) + "    return r\ndef validator(x: int) -> int:\n    return g(x)\n"
            elif ctx == "nested":
                src = "def validator(x: int) -> int:\n    def g(x: int) -> int:\n" + ind(lines, 2) + "        return r\n    return g(x)\n"
            elif ctx == "if":
                src = "def validator(x: int) -> int:\n    r = 0\n    if x > 2:\n" + ind(lines, 2) + "    return r\n"
            else:
                src = "def validator(x: int) -> int:\n    r = 0\n    for z in range(2):\n" + ind(lines, 2) + "    return r\n"
            if un == "attrdrop":
                src = src.replace("-> int", "-> bool").replace("return 77", "return True").replace("r = 0", "r = False")
            yield mk.case(f"use:{bn}:{un}:{ctx}", hdr + pre + src + post, ARGS)


def trees(mk, th):
    n = 0
    for size in range(1, 6 if th else 5):
        leaves = ("B", "U", "G") if size < 4 or th else ("B", "U")
        if size == 5:
            leaves = ("B", "U")
        for t in seqs(size, leaves):
            kinds = list(flat(t))
            if not ("U" in kinds or "G" in kinds):
                continue
            body = render(t)
            for ctx, f in CTX.items():
                n += 1
                if not th and (size == 4 and (ctx != "val" or n % 2) or size == 3 and ctx != "val" and n % 3):
                    continue
                if size == 5 and (ctx not in ("val", "shadow") or n % 3):
                    continue
                hdr = HDR if ctx == "method" else ""
                yield mk.case(f"tree:{code(t)}:{ctx}", hdr + f(body), ARGS)
            if size <= 3 and "while" not in kinds or th and size <= 3:
                for i, x in enumerate((0, 1, 7)):
                    if not th and size == 3 and (n + i) % 3:
                        continue
                    yield mk.case(f"mod:{code(t)}:{x}", MOD(body, x), [("1",)])
                    if "U" not in kinds or i == 1:
                        yield mk.case(f"moduse:{code(t)}:{x}", MODUSE(body, x), [("1",)])
    # a function that reads the name
    for size in range(2, 6 if th else 5):
        for t in seqs(size, ("B", "D", "C")):
            kinds = list(flat(t))
            if not ("C" in kinds and "D" in kinds) or "fora" in kinds and size > 3:
                continue
            if size == 5 and ("while" in kinds or "for" in kinds):
                continue
            body = render(t)
            for ctx in ("val", "shadow", "nested"):
                n += 1
                if not th and (size == 4 and n % 3 or size == 3 and ctx != "val" and n % 2):
                    continue
                if size == 5 and (ctx != "val" or n % 3):
                    continue
                yield mk.case(f"fn:{code(t)}:{ctx}", CTX[ctx](body), ARGS)
            if size <= 3:
                for x in (0, 1, 7) if th or size < 3 else (7,):
                    yield mk.case(f"fnmod:{code(t)}:{x}", MOD(body, x), [("1",)])


def pairs(mk, th):
    """two functions that depend on each other, a binding and the calls in every order"""
    items = {
        "B": ["a = x + 1"],
        "F": ["def f(n: int) -> int:", "    return a if n == 0 else g(n - 1)"],
        "G": ["def g(n: int) -> int:", "    return a * 2 if n == 0 else f(n - 1)"],
        "c": ["s += f(0)"],
        "d": ["s += f(1)"],
        "e": ["s += g(1)"],
    }
    n = 0
    for r in (3, 4, 5):
        for p in itertools.permutations(items, r):
            if not (set("FG") & set(p) and set("cde") & set(p)):
                continue
            for w in (None, *range(r)):
                n += 1
                if not th and r == 5 and n % 12:
                    continue
                if not th and r == 4 and n % (2 if w is None else 5):
                    continue
                body = []
                for i, k in enumerate(p):
                    if i == w:
                        body += ["if x % 2 == 1:"] + ["    " + l for l in items[k]]
                    else:
                        body += items[k]
                src = "def validator(x: int) -> int:\n    s = 0\n" + ind(body) + "    return s\n"
                yield mk.case(f"pair:{''.join(p)}:{w}", src, [("0",), ("1",)])
                if w is None and (th or r < 4):
                    src = "x = 1\ns = 0\n" + ind(body, 0) + "def validator(y: int) -> int:\n    return s + y\n"
                    yield mk.case(f"pairmod:{''.join(p)}", src, [("0",)])


CLS = {
    "useglobal": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return a + self.v\n%s\ndef validator(x: int) -> int:\n    return K(x).m()\n%s\n",
    "usebefore": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return a + self.v\nq = K(3)\n%s\nr = q.m()\ndef validator(x: int) -> int:\n    return r\n%s\n",
    "usefn": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return f(self.v)\n%s\ndef f(q: int) -> int:\n    return q + a\ndef validator(x: int) -> int:\n    return K(x).m()\n%s\n",
    "clsafter": "def validator(x: int) -> int:\n    return K(x).v\n%s\n@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n%s\n",
    "clsbefore": "%s\n@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\ndef validator(x: int) -> int:\n    return K(x).v\n%s\n",
    "clsmodbefore": "r = K(3).v\n%s\n@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\ndef validator(x: int) -> int:\n    return r\n%s\n",
    "methodself": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return m()\n%s\ndef validator(x: int) -> int:\n    return K(x).m() if x > 0 else 1\n%s\n",
    "methodfield": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return v\n%s\ndef validator(x: int) -> int:\n    return K(x).m() if x > 0 else 1\n%s\n",
    "constr": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return CONSTR_ID\n%s\ndef validator(x: int) -> int:\n    return K(x).m() if x > 0 else 1\n%s\n",
}


def classes(mk):
    for k, s in CLS.items():
        for bn, b in {"none": ("", ""), "before": ("a = 5", ""), "after": ("", "a = 5"), "cond": ("if False:\n    a = 5", ""), "condt": ("if True:\n    a = 5", "")}.items():
            yield mk.case(f"cls:{k}:{bn}", HDR + s % b, [("0",), ("1",)])


# dead code may mention what does not exist
DEAD = {
    "fn": "def dead(q: int) -> int:\n    return zzz\ndef validator(x: int) -> int:\n    return x\n",
    "fncall": "def dead(q: int) -> int:\n    return zzz(q)\ndef validator(x: int) -> int:\n    return x\n",
    "fn2": "def dead(q: int) -> int:\n    return later\ndef validator(x: int) -> int:\n    return x\nlater = 5\n",
    "fnself": "def dead(q: int) -> int:\n    return dead(q)\ndef validator(x: int) -> int:\n    return x\n",
    "fnpair": "def d1(q: int) -> int:\n    return d2(q)\ndef d2(q: int) -> int:\n    return d1(q)\ndef validator(x: int) -> int:\n    return x\n",
    "branch": "def validator(x: int) -> int:\n    if x > 100:\n        q = 5\n        return q\n    if x > 200:\n        return q\n    return x\n",
    "afterret": "def validator(x: int) -> int:\n    return x\n    q = 5\n    return q\n",
    "afterretuse": "def validator(x: int) -> int:\n    return x\n    return q\n    q = 5\n",
    "retlocal": "q = 9\ndef validator(x: int) -> int:\n    r = q\n    return r\n    q = 5\n",
    "condlocal": "q = 9\ndef validator(x: int) -> int:\n    r = q\n    if x > 100:\n        q = 5\n    return r\n",
    "falselocal": "q = 9\ndef validator(x: int) -> int:\n    r = q\n    if False:\n        q = 5\n    return r\n",
    "looplocal": "q = 9\ndef validator(x: int) -> int:\n    r = q\n    for q in range(0):\n        pass\n    return r\n",
    "complocal": "q = 9\ndef validator(x: int) -> int:\n    r = q\n    l = [q for q in range(3)]\n    return r + len(l)\n",
    "paramfn": "q = 9\ndef h(q: int) -> int:\n    return q\ndef validator(x: int) -> int:\n    return h(x) + q\n",
    "paramfn2": "def h(q: int) -> int:\n    return q\ndef validator(x: int) -> int:\n    return h(x) + q\n",
    "localfn": "def h(y: int) -> int:\n    q = y\n    return q\ndef validator(x: int) -> int:\n    return h(x) + q\n",
    "callerlocal": "def h(y: int) -> int:\n    return q\ndef validator(x: int) -> int:\n    q = 5\n    return h(x)\n",
    "callerlocal2": "def h(y: int) -> int:\n    return q\ndef validator(x: int) -> int:\n    q = 5\n    return h(x) if x > 1 else q\n",
    "siblings": "def h(y: int) -> int:\n    def k() -> int:\n        return y\n    return k()\ndef validator(x: int) -> int:\n    return h(x) + k()\n",
    "innershadow": "def h() -> int:\n    return 1\ndef validator(x: int) -> int:\n    r = h()\n    def h() -> int:\n        return 2\n    return r + h()\n",
    "innershadow2": "def h() -> int:\n    return 1\ndef validator(x: int) -> int:\n    def k() -> int:\n        return h()\n    r = k()\n    def h() -> int:\n        return 2\n    return r\n",
    "valself": "def validator(x: int) -> int:\n    return validator(x - 1) if x > 0 else 3\n",
    "valparam": "def validator(validator: int) -> int:\n    return validator\n",
    "fnparamself": "def h(h: int) -> int:\n    return h\ndef validator(x: int) -> int:\n    return h(x)\n",
    "builtinlocal": "def validator(x: int) -> int:\n    r = len([x])\n    len = 5\n    return r\n",
    "builtinlocal2": "def validator(x: int) -> int:\n    if x > 1:\n        abs = 5\n    return abs(x)\n",
    "builtinmod": "def h(x: int) -> int:\n    return abs(x)\nr = h(3)\nabs = 4\ndef validator(x: int) -> int:\n    return r\n",
    "boolname": "def validator(x: int) -> int:\n    if x > 1:\n        True_ = 5\n    return True_\n",
    "globvalid": "def validator(x: int) -> int:\n    return q\nq = 4\n",
    "globvalid2": "def validator(x: int) -> int:\n    return q if x > 0 else 3\n",
    "globif": "if True:\n    q = 4\ndef validator(x: int) -> int:\n    return q\n",
    "globfor": "for q in range(3):\n    pass\ndef validator(x: int) -> int:\n    return q\n",
    "globfor0": "for q in range(0):\n    pass\ndef validator(x: int) -> int:\n    return q if x > 0 else 7\n",
    "globwhile": "k = 0\nwhile k < 2:\n    k += 1\n    q = k\ndef validator(x: int) -> int:\n    return q\n",
    "modfail": "q = zzz\ndef validator(x: int) -> int:\n    return x\n",
    "modfail2": "q = later\nlater = 5\ndef validator(x: int) -> int:\n    return x\n",
    "modfailcall": "def h() -> int:\n    return later\nq = h()\nlater = 5\ndef validator(x: int) -> int:\n    return x\n",
    "modfailuse": "def h() -> int:\n    return later\nq = h()\nlater = 5\ndef validator(x: int) -> int:\n    return q\n",
    "fnlater": "def h() -> int:\n    return k()\ndef k() -> int:\n    return 5\ndef validator(x: int) -> int:\n    return h()\n",
    "fnlatermod": "def h() -> int:\n    return k()\nr = h()\ndef k() -> int:\n    return 5\ndef validator(x: int) -> int:\n    return r\n",
    "fncond": "if True:\n    def h() -> int:\n        return 5\ndef validator(x: int) -> int:\n    return h()\n",
    "fnredef": "def h() -> int:\n    return 5\nr = h()\ndef h() -> int:\n    return 6\ndef validator(x: int) -> int:\n    return r * 10 + h()\n",
    "fncondval": "def validator(x: int) -> int:\n    if x > 1:\n        def h() -> int:\n            return 5\n    return h() if x > 0 else 2\n",
    "fnboth": "def validator(x: int) -> int:\n    if x > 1:\n        def h() -> int:\n            return 5\n    else:\n        def h() -> int:\n            return 6\n    return h()\n",
    "fnfor": "def validator(x: int) -> int:\n    for i in range(x):\n        def h() -> int:\n            return i\n    return h()\n",
}


def cases(tier):
    th = tier == "thorough"
    mk = Mk(tier, every=4, base="O1", alts=["O2", "P0", "O3"])
    for k, s in DEAD.items():
        yield prog(f"dead:{k}", s, [("0",), ("1",), ("2",), ("3",)], ["O0", "O1", "O2", "P0", "O3"])
    yield from classes(mk)
    yield from uses(mk, th)
    yield from pairs(mk, th)
    yield from trees(mk, th)


def run_case(case):
    raises = []

    def call(case, py, args):
        r = py.call(args)
        if r[0][0] == "err":
            if not isinstance(r[2], (NameError, AssertionError, TypeError)):
                raise r[2]
            raises.append(1)
        return r

    r = run_diff(case, PROP, strict_accept=False, oracle=call)
    if r["extra"].get("programs_rejected") and not raises:
        r2 = run_diff(dict(case, argsets=[]), PROP, strict_accept=True)
        r["violations"] += r2["violations"]
    return r
