"""C08: no optimisation level or flag changes what a script does."""

import re
import itertools

from ..alpha import HDR, Mk
from ..diff import prog, run_diff
from ..engine import canon_py, compile_src, config, run_uplc
from ..runner import load_known

PROP = "C08"
LEVEL = "exploration"
CPU_LIMIT = 200
GOLDEN_CFGS = ["P0"]
RULE = (
    "Families of programs aimed at every optimisation step (constant folding and propagation, dead code and dead "
    "variables, if folding, union expansion, list access skipping, removal of traces, folding of applications and "
    "deduplication) plus every k-th program of the alphabets of C01-C07, each compiled under a set of configurations "
    "(all steps off, -O0..-O3, every flag flipped alone on -O1 and on -O2; thorough: every pair of flags) and run on all "
    "argument sets; every run is compared with CPython, hence with all other configurations, and a program accepted "
    "with all steps off has to be accepted everywhere."
)
ASSUMPTIONS = [
    "CPython and the uplc CEK machine are correct",
    "Constant folding may accept additional programs (calls of Python functions on constants), see DESIGN.md",
]

FLAGS = {
    "constant_folding": [True, False],
    "remove_dead_code": [True, False],
    "fast_access_skip": [2, 3, None],
    "expand_union_types": [True],
    "remove_trace": [True, False],
    "compress_patterns": [True, False],
    "iterative_unfold_patterns": [True],
    "constant_index_access_list": [True, False],
    "constant_folding_keep_traces": [True, False],
    "unique_variable_names": [True, False],
    "remove_force_delay": [True, False],
    "fold_apply_lambda_increase": [0, 1, 2.5, None],
    "deduplicate": [True, False],
}
BASE = ["P0", "O0", "O1", "O2", "O3"]
SINGLE = [f"{b}+{f}={v!r}" for b in ("P0", "O1", "O2") for f, vs in FLAGS.items() for v in vs]
OPSHIN = ["constant_folding", "remove_dead_code", "expand_union_types", "remove_trace"]
SUBSETS = ["P0+" + "+".join(f"{f}=True" for f in s) for n in (2, 3, 4) for s in itertools.combinations(OPSHIN, n)]
QUICK = BASE + [
    "P0+constant_folding=True",
    "P0+remove_dead_code=True",
    "P0+expand_union_types=True",
    "P0+remove_trace=True",
    "P0+fast_access_skip=2",
    "O3+expand_union_types=True",
]


def ind(s, n=1):
    return "".join("    " * n + l + "\n" for l in s.splitlines())


# --------------------------------------------------------------- constants
CONSTS = {
    "i0": "0",
    "i1": "1",
    "im": "-3",
    "ib": "2 ** 70",
    "t": "True",
    "f": "False",
    "s": "'ab'",
    "se": "''",
    "b": "b'ab'",
    "be": "b''",
    "l": "[1, 2, 3]",
    "lb": "[b'a', b'']",
    "ll": "[[1], [2, 3]]",
    "d": "{1: 2, 3: 4}",
    "db": "{b'a': [1]}",
    "a": "A(5)",
    "la": "[A(1), A(2)]",
    "n": "N(A(0), A(1), {1: b'z'})",
    "da": "{1: A(1)}",
    "bo": "[True, False]",
    "nn": "None",
    "b2": "B(b'x', [1, 2])",
    "ls": "['a', 'b']",
    "e": "E()",
    "sum": "1 + 2 * 3",
    "fstr": "f'{1}-{2}'",
    "len": "len([1, 2])",
    "hex": "hex(255)",
    "call": "str(12)",
    "rng": "list(range(3))",
    "ite": "1 if True else 2",
    "cmp": "1 < 2 < 3",
    "enc": "'a'.encode()",
    "idx": "[1, 2, 3][1]",
    "sl": "b'abc'[1:2]",
    "rev": "[3, 2]",
    "or": "1 == 2 or 3 == 3",
    "not": "not 5",
    "div": "7 // -2",
    "mod": "-7 % 3",
    "pow": "2 ** 10",
    "fl": "bytes.fromhex('00ff')",
    "max": "max([1, 5])",
    "sumc": "sum([x * x for x in [1, 2, 3]])",
    "lc": "[x * 2 for x in [1, 2]]",
    "dc": "{x: x * 2 for x in [1, 2]}",
    "fld": "A(3).x",
    "fld2": "N(A(7), A(1), {}).a.x",
    "eq": "A(1) == A(1)",
    "isin": "isinstance(A(1), A)",
    "in": "2 in [1, 2]",
    "err": "1 // 0",
    "err2": "[1][5]",
    "err3": "{1: 2}[3]",
    "err4": "int('x')",
    "mixed": "b'a' * 3",
    "smul": "'ab' * 2",
    "abs": "abs(-4)",
    "int": "int('12')",
    "ord": "b'a'[0]",
}
# uses of a value v of each sort; r is what is returned
USES = {
    "ret": "return v",
    "eq": "return v == v",
    "lst": "return [v]",
    "bool": "return 1 if v else 2",
    "asg": "w = v\nreturn w",
    "cond": "w = v\nif x > 0:\n    w = v\nreturn w",
    "dead": "w = v\nreturn x",
    "deadc": "if x > 5:\n    w = v\nreturn x",
    "arg": "def g(y):\n    return x\nreturn g(v)",
    "loop": "r = 0\nfor i in [1, 2]:\n    w = v\n    r += 1\nreturn r",
    "str": "return f'{v}'",
    "expr": "v\nreturn x",
}
INTUSES = {
    "add": "return v + x",
    "addc": "return v + 1",
    "cmp": "return v < x",
    "rng": "return [v for i in [1, 2]]",
    "idx": "return [5, 6, 7, 8][v]",
    "neg": "return -v",
    "clos": "def g(y: int) -> int:\n    return y + v\nreturn g(x)",
    "while": "i = 0\nwhile i < v:\n    i += 1\nreturn i",
    "shadow": "def g(v: int) -> int:\n    return v\nreturn g(x) + v",
    "reas": "w = v\nw = w + x\nreturn w + v",
    "f": "return f'{v}'",
    "dict": "return {v: x}",
}
PLACES = {
    # where the constant is defined
    "inline": lambda c, u: "def validator(x: int):\n" + ind(u.replace("v", f"({c})") if False else "v = " + c + "\n" + u),
    "module": lambda c, u: f"v = {c}\ndef validator(x: int):\n" + ind(u),
    "twice": lambda c, u: f"v = {c}\ndef validator(x: int):\n" + ind(f"if x > 1:\n    v = {c}\nelse:\n    v = {c}\n" + u),
    "nested": lambda c, u: "def h(x: int):\n" + ind(f"v = {c}\n" + u) + "def validator(x: int):\n    return h(x)\n",
}
INTC = ["i0", "i1", "im", "ib", "sum", "len", "ite", "idx", "div", "mod", "pow", "max", "sumc", "fld", "fld2", "err", "err2", "err3", "abs", "ord"]


def hdr_for(src):
    if any(w + "(" in src for w in "ABEN") or "isinstance" in src:
        return HDR + src
    return TYP + src if "Anything" in src else src


def const_cases(th):
    n = 0
    for cn, c in CONSTS.items():
        for un, u in USES.items():
            for pn, p in PLACES.items():
                n += 1
                if un == "arg" and pn != "inline":
                    continue
                if not th and pn != "inline" and (un, pn) not in (("ret", "module"), ("cond", "module"), ("eq", "module"), ("ret", "twice"), ("cond", "nested")):
                    continue
                uu = u.replace("def g(y):", "def g(y: Anything):") if un == "arg" else u
                src = hdr_for(p(c, uu))
                yield f"k:{cn}:{un}:{pn}", src, [("0",), ("7",)]
        if cn in INTC:
            for un, u in INTUSES.items():
                for pn, p in PLACES.items():
                    if not th and pn != "inline" and un not in ("clos", "reas"):
                        continue
                    if cn in ("ib", "pow") and un in ("idx", "while"):
                        continue  # huge index or number of iterations
                    yield f"ki:{cn}:{un}:{pn}", hdr_for(p(c, u)), [("0",), ("3",)]


SCOPES = {
    # propagation of names bound once, twice, in other scopes, and before use
    "fnlocal": "def f(a: int) -> int:\n    k = 3\n    return a + k\ndef validator(x: int):\n    return f(x)\n",
    "shadowg": "k = 5\ndef f(a: int) -> int:\n    return a + k\ndef validator(x: int):\n    k = 7\n    return f(x) + k\n",
    "param": "k = 5\ndef f(k: int) -> int:\n    return k * 2\ndef validator(x: int):\n    return f(x) + k\n",
    "loopvar": "def validator(x: int):\n    k = 0\n    for k in [1, 2]:\n        x = x + k\n    return x * 10 + k\n",
    "aug": "def validator(x: int):\n    k = 1\n    k += x\n    return k\n",
    "augc": "def validator(x: int):\n    k = 1\n    k += 2\n    return k + x\n",
    "ann": "def validator(x: int):\n    k: int = 4\n    return k + x\n",
    "annmod": "k: int = 4\ndef validator(x: int):\n    return k + x\n",
    "later": "def f() -> int:\n    return k\nk = 9\ndef validator(x: int):\n    return f() + x\n",
    "chain": "a = 1\nb = a + 1\nc = b * a + b\ndef validator(x: int):\n    return c + x\n",
    "tup": "a, b = 1, 2\ndef validator(x: int):\n    return a * 10 + b + x\n",
    "tupl": "def validator(x: int):\n    a, b = 1, 2\n    b, a = a, b\n    return a * 10 + b + x\n",
    "comp": "k = 3\ndef validator(x: int):\n    return sum([k for k in [x, 1]]) + k\n",
    "comp2": "def validator(x: int):\n    y = [e * 2 for e in [1, 2]]\n    return y[1] + x\n",
    "fnconst": "def f(a: int) -> int:\n    return a * 2\ny = f(4)\ndef validator(x: int):\n    return y + x\n",
    "fnconst2": "def f(a: int) -> int:\n    return a * 2\ndef validator(x: int):\n    return f(4) + f(x)\n",
    "fnrec": "def f(a: int) -> int:\n    return 1 if a <= 0 else a * f(a - 1)\ndef validator(x: int):\n    return f(5) + f(x)\n",
    "fnglob": "k = 3\ndef f(a: int) -> int:\n    return a * k\ndef validator(x: int):\n    return f(4) + x\n",
    "fnglobr": "def f(a: int) -> int:\n    return a * k\nk = 3\ndef validator(x: int):\n    k = 5\n    return f(4) + x + k\n",
    "fnerr": "def f(a: int) -> int:\n    return 10 // a\ndef validator(x: int):\n    return f(0) if x > 0 else f(2)\n",
    "fnassert": "def f(a: int) -> int:\n    assert a > 3\n    return a\ndef validator(x: int):\n    return f(4) + (f(1) if x > 0 else 0)\n",
    "builtin": "def len2(a: List[int]) -> int:\n    return 7\ndef validator(x: int):\n    return len2([1]) + len([1]) + x\n",
    "names": "def validator(x: int):\n    a = 'x'\n    b = a + 'y'\n    return b\n",
    "method": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self) -> int:\n        return self.v * 2\ndef validator(x: int):\n    return K(3).m() + K(x).m()\n",
    "methodc": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def __add__(self, o: int) -> int:\n        return self.v * 10 + o\nz = K(3) + 4\ndef validator(x: int):\n    return z + x\n",
    "eqc": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def __eq__(self, o: 'K') -> bool:\n        return self.v == o.v + 1\nz = K(3) == K(2)\ndef validator(x: int):\n    return z\n",
    "clsattr": "def validator(x: int):\n    return A(1).CONSTR_ID + B(b'', []).CONSTR_ID + x\n",
    "ucon": "u: Union[A, B] = A(3)\ndef validator(x: int):\n    return u.x if isinstance(u, A) else 0\n",
    "ucon2": "def validator(x: int):\n    u: Union[A, B] = A(3)\n    if isinstance(u, B):\n        return 5\n    return u.x\n",
    "ucon3": "def validator(x: int):\n    u: Union[int, bytes] = 3\n    if isinstance(u, bytes):\n        return 5\n    return u + x\n",
    "any": "def validator(x: int):\n    u: Anything = A(3)\n    w: A = u\n    return w.x + x\n",
    "anyi": "def validator(x: int):\n    u: Anything = 5\n    w: int = u\n    return w + x\n",
    "anyl": "def f(a: Anything) -> bool:\n    return a == A(3)\ndef validator(x: int):\n    return f(A(3)) and not f(A(x))\n",
    "emptyl": "def validator(x: int):\n    k: List[int] = []\n    return k + [x]\n",
    "emptyd": "k: Dict[int, int] = {}\ndef validator(x: int):\n    return len(k) + x\n",
    "dictget": "k = {1: 10, 2: 20}\ndef validator(x: int):\n    return k.get(x, 99)\n",
    "dictidx": "k = {1: 10, 2: 20}\ndef validator(x: int):\n    return k[x]\n",
    "listidx": "k = [10, 20, 30]\ndef validator(x: int):\n    return k[x]\n",
    "recidx": "k = [A(10), A(20)]\ndef validator(x: int):\n    return k[x].x\n",
    "nested": "k = {b'a': [A(1), A(2)]}\ndef validator(x: int):\n    return k[b'a'][x].x\n",
    "inlist": "k = [A(10), A(20)]\ndef validator(x: int):\n    return A(x) in k\n",
    "whilec": "def validator(x: int):\n    i = 3\n    while i > 0:\n        i -= 1\n        x += i\n    return x\n",
    "whilef": "def validator(x: int):\n    while False:\n        x = 5\n    return x\n",
    "if1": "def validator(x: int):\n    if True:\n        x = 5\n    else:\n        x = 1 // 0\n    return x\n",
    "if0": "def validator(x: int):\n    if 0:\n        x = 1 // 0\n    elif '':\n        return 8\n    else:\n        x += 1\n    return x\n",
    "ifc": "D = False\ndef validator(x: int):\n    if D:\n        print('dbg')\n        x = 0\n    return x\n",
    "ifc2": "D = 3\ndef validator(x: int):\n    if D > 2:\n        return x\n    return 0\n",
    "ifi": "def validator(x: int):\n    if isinstance(x, int):\n        return 1\n    return 2\n",
    "andc": "def validator(x: int):\n    return True and x > 1\n",
    "orc": "def validator(x: int):\n    return False or x > 1 or True\n",
    "andf": "def validator(x: int):\n    return x > 1 and False\n",
    "ande": "def validator(x: int):\n    return 1 // x > 1 and False\n",
    "ore": "def validator(x: int):\n    return 1 // x > 1 or True\n",
    "andm": "def validator(x: int):\n    return x > 0 and True and x < 5 and True\n",
    "orm": "def validator(x: int):\n    return x > 0 or False or x < -5 or False\n",
    "notc": "def validator(x: int):\n    return not (not x > 0 and True)\n",
    "itec": "def validator(x: int):\n    return (x if True else 1 // 0) + (1 // 0 if False else 2)\n",
    "assertt": "def validator(x: int):\n    assert True\n    return x\n",
    "assertf": "def validator(x: int):\n    if x > 0:\n        assert False, 'no'\n    return x\n",
    "assertf2": "def validator(x: int):\n    assert False\n    return x\n",
    "assertm": "def validator(x: int):\n    assert x > 0, f'bad {1 // x}'\n    return x\n",
    "print": "def f(a: int) -> int:\n    print('in f')\n    return a\ndef validator(x: int):\n    return f(3) + x\n",
    "printe": "def validator(x: int):\n    print(str(1 // x))\n    return x\n",
    "printl": "def validator(x: int):\n    print([1, 2][x])\n    return x\n",
    "printc": "def validator(x: int):\n    print('a', 'b')\n    if x > 0:\n        print('c')\n    return x\n",
    "printonly": "def validator(x: int):\n    if x > 0:\n        print('c')\n    else:\n        print('d')\n    return x\n",
    "printfor": "def validator(x: int):\n    for i in range(x):\n        print('c')\n    return x\n",
    "printfn": "def f() -> None:\n    print('c')\ndef validator(x: int):\n    f()\n    return x\n",
    "printret": "def validator(x: int):\n    return print('x')\n",
    "printasg": "def validator(x: int):\n    y = print('x')\n    return y\n",
    "deadvar": "def validator(x: int):\n    y = 10 // x\n    return x\n",
    "deadann": "def validator(x: Anything):\n    y: Anything = x\n    return 3\n",
    "deadchain": "def validator(x: int):\n    a = x\n    b = a\n    c = b\n    return x\n",
    "deadfn": "def f(a: int) -> int:\n    return 1 // 0\ndef validator(x: int):\n    return x\n",
    "deadnested": "def validator(x: int):\n    def f(a: int) -> int:\n        return 1 // 0\n    return x\n",
    "deadcall": "def f(a: int) -> int:\n    return 1 // a\ndef validator(x: int):\n    y = f(x)\n    return x\n",
    "deadexpr": "def validator(x: int):\n    1 // x\n    return x\n",
    "deadexpr2": "def validator(x: int):\n    [1, 2][x]\n    x + 1\n    x\n    'doc'\n    return x\n",
    "deadloop": "def validator(x: int):\n    for i in range(x):\n        y = 5 // (i - 2)\n    return x\n",
    "deadif": "def validator(x: int):\n    if x > 0:\n        y = 1 // 0\n    return x\n",
    "deadcls": "@dataclass\nclass Z(PlutusData):\n    CONSTR_ID = 7\n    x: int\ndef validator(x: int):\n    return x\n",
    "deadmod": "y = 1 // 0\ndef validator(x: int):\n    return x\n",
    "unreach": "def validator(x: int):\n    return x\n    return 1 // 0\n",
    "unreach2": "def validator(x: int):\n    if x > 0:\n        return 1\n    else:\n        return 2\n    x = 1 // 0\n    return x\n",
    "unreach3": "def validator(x: int):\n    for i in range(3):\n        if i == x:\n            return i\n            x = 9\n    return -1\n",
    "foldif": "def validator(x: int):\n    if x > 0:\n        return 1\n    y = x * 2\n    if y < -5:\n        return y\n    return y + 1\n",
    "foldif2": "def validator(x: int):\n    y = 0\n    if x > 0:\n        y = 3\n    else:\n        return 2\n    y += x\n    if x == 7:\n        assert False\n    return y\n",
    "foldif3": "def validator(x: int):\n    y = 1\n    for i in [1, 2, 3]:\n        if i == x:\n            return y\n        y += i\n    if y > 5:\n        if x > 2:\n            return 100\n        y = 5\n    return y\n",
    "samebranch": "def validator(x: int):\n    if x > 0:\n        return x\n    return x\n",
    "idents": "def validator(x: int):\n    a = x + 0\n    b = a * 1\n    return b - 0\n",
    "dups": "def validator(x: int):\n    a = (x + 1) * (x + 1)\n    b = (x + 1) * (x + 1)\n    return a + b\n",
    "dupfn": "def f(a: int) -> int:\n    return a * a + 1\ndef g(a: int) -> int:\n    return a * a + 1\ndef validator(x: int):\n    return f(x) + g(x)\n",
    "dupcap": "def f(a: int) -> int:\n    def h(b: int) -> int:\n        return a + b\n    return h(1)\ndef g(a: int) -> int:\n    def h(b: int) -> int:\n        return a + b\n    return h(2)\ndef validator(x: int):\n    return f(x) * 10 + g(x)\n",
    "duplist": "def validator(x: int):\n    return [[x, 1], [x, 1], [x + 1, 1], [x + 1, 1]]\n",
    "bigdict": "k = {" + ", ".join(f"{i}: {i * i}" for i in range(12)) + "}\ndef validator(x: int):\n    return k[x]\n",
    "longstr": "def validator(x: int):\n    return 'a' * 70 + str(x)\n",
    "retconst": "def validator(x: int):\n    return [b'a', b'a' * 70]\n",
    "deadret": "def f(x: int) -> int:\n    if x > 0:\n        return x\n    else:\n        assert False, 'x'\ndef validator(x: int):\n    return f(x + 1)\n",
    "nameshadow": "def validator(x: int):\n    str1 = str(x)\n    return len(str1)\n",
    "redef": "def f(a: int) -> int:\n    return a + 1\ndef f(a: int) -> int:\n    return a + 2\ny = f(1)\ndef validator(x: int):\n    return f(x) * 10 + y\n",
    "condfn": "c = 3\nif c > 2:\n    k = 1\nelse:\n    k = 2\ndef validator(x: int):\n    return k + x\n",
    "oncein": "def validator(x: int):\n    if x > 0:\n        k = 4\n        return k\n    return 0\n",
    "onceloop": "def validator(x: int):\n    r = 0\n    for i in range(x):\n        k = i * 2\n        r += k\n    return r\n",
    "oncefn": "def f(x: int) -> int:\n    if x > 0:\n        def g(y: int) -> int:\n            kk = 5\n            return y + kk\n        return g(x)\n    return 0\ndef validator(x: int):\n    return f(x)\n",
    "twofn": "def f(x: int) -> int:\n    k = 5\n    return x + k\ndef g(x: int) -> int:\n    return x\ndef validator(x: int):\n    return f(x) + g(2)\n",
    "bigint": "def validator(x: int):\n    return 2 ** 200 + x\n",
    "int2s": "def validator(x: int):\n    return str(10 ** 20 + x)\n",
    "negidx": "def validator(x: int):\n    return [1, 2, 3][-1] + [4, 5, 6][x - 3]\n",
    "boolint": "k = True\ndef validator(x: int):\n    return k + x\n",
    "boolkey": "k = [True, False]\ndef validator(x: int):\n    return k[x]\n",
    "nonec": "k = None\ndef validator(x: int):\n    return k == None\n",
    "unit": "k = None\ndef validator(x: int):\n    return k\n",
    "strc": "k = 'abc'\ndef validator(x: int):\n    return k[x:] if x > 5 else k\n",
    "bytesc": "k = b'abc'\ndef validator(x: int):\n    return k[x] + k[-1]\n",
    "itemsc": "k = {3: 4, 1: 2}\ndef validator(x: int):\n    r = x\n    for a, b in k.items():\n        r = r * 100 + a * 10 + b\n    return r\n",
    "keysc": "k = {3: 4, 1: 2}\ndef validator(x: int):\n    return k.keys()\n",
    "enumc": "def validator(x: int):\n    return [i for i in range(3)]\n",
    "lstr": "k = ['a', 'bb']\ndef validator(x: int):\n    return k[x] + k[0]\n",
    "ldict": "k = [{1: 2}, {3: 4}]\ndef validator(x: int):\n    return k[x]\n",
    "cap": "def validator(x: int):\n    k = 5\n    def f(y: int) -> int:\n        return y + k\n    return f(x)\n",
    "cap2": "def validator(x: int):\n    k = 5\n    def f(y: int) -> int:\n        return y + k\n    k = 6\n    return f(x)\n",
    "defbefore": "def validator(x: int):\n    if x > 5:\n        return k\n    return 1\nk = 3\n",
}
# names of built-in functions given to variables: folding has to see the variable
for _n in ("abs", "max", "len", "str", "sum", "sorted", "print", "hash", "id"):
    for _k, _s in {
        "par": "def f(N: int) -> int:\n    return 1 if N else 2\ndef validator(x: int):\n    return f(x)\n",
        "parn": "def validator(N: int):\n    return not N\n",
        "pareq": "def validator(N: int):\n    return [N == N, N != N, N > 0 and not N]\n",
        "loc": "def validator(x: int):\n    N = x\n    return 1 if N and True else 2\n",
        "cmp": "def validator(x: int):\n    return [not N for N in [x, 0, 1]]\n",
        "for": "def validator(x: int):\n    s = 0\n    for N in [x, 0, 1]:\n        s = s * 2 + (1 if not N else 0)\n    return s\n",
        "fun": "def N(x: int) -> int:\n    return x + 100\ndef validator(x: int):\n    return N(x) + N(-3)\n",
        "glo": "N = 0\ndef f() -> bool:\n    return not N\ndef validator(x: int):\n    return [f(), not N, x > 0]\n",
        "fld": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    N: int\ndef validator(x: int):\n    return [not K(x).N, not K(0).N]\n",
        "met": "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self, N: int) -> bool:\n        return not N\ndef validator(x: int):\n    return K(1).m(x)\n",
        "nes": "def validator(x: int):\n    def g(N: int) -> bool:\n        return not N\n    return g(x)\n",
    }.items():
        if _k in ("fun", "glo") and _n in ("abs", "max", "sum"):
            continue  # module variables of these names need the type of the built-in
        SCOPES[f"bn:{_n}:{_k}"] = re.sub(r"\bN\b", _n, _s)

U = "Union[A, B]"
UNIONS = {
    "ret": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return a.x if isinstance(a, A) else len(a.y)\n", "return f(u)", None),
    "conc": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return a.x if isinstance(a, A) else len(a.y)\n", "return f(A(4)) + f(B(b'abc', [7])) * 10 + f(u) * 100", None),
    "reas": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    if isinstance(a, B):\n        a = A(9)\n    return 5 if isinstance(a, B) else a.x\n",
        "return f(A(4)) + f(B(b'abc', [7])) * 10 + f(u) * 100",
        None,
    ),
    "reas2": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    a = B(b'', [7])\n    return 5 if isinstance(a, B) else 6\n", "return f(A(4)) + f(B(b'abc', [7])) * 10 + f(u) * 100", None),
    "two": (
        "Union[A, B]",
        "def f(a: Union[A, B], b: Union[A, B]) -> int:\n    if isinstance(a, A) and isinstance(b, A):\n        return 1\n    if isinstance(a, A):\n        return 2\n    return 3 if isinstance(b, A) else 4\n",
        "return f(A(4), A(1)) + f(B(b'', [7]), u) * 10 + f(u, A(1)) * 100 + f(u, u) * 1000",
        None,
    ),
    "nest": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    def g(b: Union[A, B]) -> int:\n        return 1 if isinstance(b, A) else 2\n    return g(a) * 10 + g(A(1))\n",
        "return f(A(4)) * 100 + f(u)",
        None,
    ),
    "shadow": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    def g(a: Union[A, B]) -> int:\n        return 1 if isinstance(a, A) else 2\n    return g(A(1)) * 10 + g(B(b'', [7])) * 100 + (1 if isinstance(a, A) else 2)\n",
        "return f(A(4)) * 1000 + f(u)",
        None,
    ),
    "rec": (
        "Union[A, B]",
        "def f(a: Union[A, B], n: int) -> int:\n    if n <= 0:\n        return 1 if isinstance(a, A) else 2\n    if isinstance(a, A):\n        return f(B(b'', [7]), n - 1) * 2\n    return f(A(1), n - 1) * 3\n",
        "return f(A(4), 3) * 1000 + f(u, 2)",
        None,
    ),
    "and": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return 7 if isinstance(a, A) and a.x > 0 else 8\n", "return f(A(0)) * 1000 + f(A(1)) * 100 + f(u)", None),
    "or": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return 7 if isinstance(a, A) or len(a.y) > 0 else 8\n", "return f(A(0)) * 1000 + f(B(b'', [7])) * 100 + f(u)", None),
    "not": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    if not isinstance(a, A):\n        return len(a.y)\n    return a.x\n", "return f(A(6)) * 1000 + f(B(b'', [7])) * 100 + f(u)", None),
    "int": ("Union[int, bytes]", "def f(a: Union[int, bytes]) -> int:\n    if isinstance(a, int):\n        return a + 1\n    return len(a)\n", "return f(6) * 1000 + f(b'ab') * 100 + f(u)", None),
    "int2": (
        "Union[int, bytes]",
        "def f(a: Union[int, bytes], n: int) -> int:\n    if isinstance(a, int):\n        a = b'xyz'\n    if isinstance(a, bytes):\n        return len(a) + n\n    return n\n",
        "return f(6, 1) * 1000 + f(b'ab', 2) * 100 + f(u, 3)",
        None,
    ),
    "lst": ("Union[int, List[Anything]]", "def f(a: Union[int, List[Anything]]) -> int:\n    return a if isinstance(a, int) else len(a)\n", "return f(6) * 100 + f(u)", ["3", "[1, 2]"]),
    "three": (
        "Union[A, B, E]",
        "def f(a: Union[A, B, E]) -> int:\n    if isinstance(a, A):\n        return 1\n    elif isinstance(a, B):\n        return 2\n    else:\n        return 3\n",
        "return f(A(1)) * 1000 + f(E()) * 100 + f(B(b'', [7])) * 10 + f(u)",
        ["A(1)", "B(b'', [7])", "E()"],
    ),
    "subset": (
        "Union[A, B]",
        "def f(a: Union[A, B, E]) -> int:\n    if isinstance(a, A):\n        return 1\n    elif isinstance(a, B):\n        return 2\n    else:\n        return 3\n",
        "return f(u) * 10 + f(E())",
        None,
    ),
    "second": ("Union[A, B]", "def f(n: int, a: Union[A, B], m: int) -> int:\n    return n if isinstance(a, A) else m\n", "return f(1, A(1), 2) * 100 + f(3, B(b'', [7]), 4) * 10 + f(5, u, 6)", None),
    "narrow": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return 1 if isinstance(a, A) else 2\n", "if isinstance(u, A):\n    return f(u) + 10\nreturn f(u) + 20", None),
    "kw": ("Union[A, B]", "def f(n: int, a: Union[A, B]) -> int:\n    return n if isinstance(a, A) else -n\n", "return f(a=A(1), n=2) * 10 + f(a=u, n=3)", None),
    "loop": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return 1 if isinstance(a, A) else 2\n", "r = 0\nfor e in [A(1), A(2)]:\n    r = r * 10 + f(e)\nreturn r * 10 + f(u)", None),
    "redef": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    return 1 if isinstance(a, A) else 2\ndef f(a: Union[A, B]) -> int:\n    return 3 if isinstance(a, A) else 4\n",
        "return f(A(1)) * 10 + f(u)",
        None,
    ),
    "alias": ("Union[A, B]", "def f(a: Union[A, B]) -> int:\n    return 1 if isinstance(a, A) else 2\n", "g = f\nreturn g(A(1)) * 10 + g(u)", None),
    "meth": (
        "Union[A, B]",
        "@dataclass\nclass K(PlutusData):\n    CONSTR_ID = 8\n    x: int\n    def m(self, a: Union[A, B]) -> int:\n        return self.x if isinstance(a, A) else -self.x\n",
        "return K(3).m(A(1)) * 10 + K(5).m(u)",
        None,
    ),
    "state": ("Union[A, B]", "k = 3\ndef f(a: Union[A, B]) -> int:\n    return k if isinstance(a, A) else 2\n", "k = 9\nreturn f(A(1)) * 10 + f(u) + k", None),
    "cap": ("Union[A, B]", "", "k = 4\ndef f(a: Union[A, B]) -> int:\n    return k if isinstance(a, A) else 2\nk = 5\nr = f(A(1)) * 10\nk = 7\nreturn r + f(u)", None),
    "cond": (
        "Union[A, B]",
        "",
        "n = 1\nif isinstance(u, A):\n    def f(a: Union[A, B]) -> int:\n        return n if isinstance(a, A) else 2\nelse:\n    def f(a: Union[A, B]) -> int:\n        return 3 if isinstance(a, A) else 4\nreturn f(A(1)) * 10 + f(u)",
        None,
    ),
    "dict": (
        "Union[int, Dict[Anything, Anything]]",
        "def f(a: Union[int, Dict[Anything, Anything]]) -> int:\n    return a if isinstance(a, int) else len(a)\n",
        "return f(6) * 100 + f(u)",
        ["3", "{1: 2}"],
    ),
    "anyarg": ("Union[A, B]", "def f(a: Union[A, B], b: Anything) -> int:\n    return 1 if isinstance(a, A) and b == A(1) else 2\n", "return f(A(1), u) * 10 + f(u, A(1))", None),
    "eq": ("Union[A, B]", "def f(a: Union[A, B]) -> bool:\n    return a == A(1)\n", "return f(A(1)) and f(u)", None),
    "retu": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> Union[A, B]:\n    if isinstance(a, A):\n        return B(b'r', [a.x])\n    return A(len(a.y))\n",
        "return [f(f(u)), f(A(4)), f(f(B(b'xx', [7])))]",
        None,
    ),
    "retn": ("Union[A, B]", "def f(a: Union[A, B]) -> None:\n    assert isinstance(a, A), 'not A'\n", "f(u)\nreturn 1", None),
    "shcomp": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    l: List[Union[A, B]] = [A(1), B(b'', [7])]\n    r = [1 if isinstance(a, A) else 2 for a in l]\n    return r[0] * 100 + r[1] * 10 + (1 if isinstance(a, A) else 2)\n",
        "return f(A(4)) * 1000 + f(u)",
        None,
    ),
    "shlocal": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    def g(n: int) -> int:\n        a: Union[A, B] = A(1) if n > 0 else B(b'', [7])\n        return 1 if isinstance(a, A) else 2\n    return g(1) * 10 + g(0) * 100 + (1 if isinstance(a, A) else 2)\n",
        "return f(A(4)) * 1000 + f(u)",
        None,
    ),
    "shfor": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    l: List[Union[A, B]] = [A(1), B(b'', [7])]\n    r = 1 if isinstance(a, A) else 2\n    for a in l:\n        r = r * 10 + (1 if isinstance(a, A) else 2)\n    return r\n",
        "return f(A(4)) * 1000 + f(u)",
        None,
    ),
    "shtup": (
        "Union[A, B]",
        "def f(a: Union[A, B], b: Union[A, B]) -> int:\n    r = 1 if isinstance(a, A) else 2\n    a, b = b, a\n    return r * 100 + (1 if isinstance(a, A) else 2) * 10 + (1 if isinstance(b, A) else 2)\n",
        "return f(A(4), B(b'', [7])) * 1000 + f(u, A(1))",
        None,
    ),
    "copy": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> int:\n    c = a\n    if isinstance(a, A):\n        c = B(b'a', [7])\n    return 1 if isinstance(c, A) else 2\n",
        "return f(A(4)) * 10 + f(u)",
        None,
    ),
    "ret2": (
        "Union[A, B]",
        "def f(a: Union[A, B]) -> Union[A, B]:\n    if isinstance(a, A):\n        return B(b'a', [7])\n    return a\ndef g(a: Union[A, B]) -> int:\n    return 1 if isinstance(a, A) else 2\n",
        "return g(f(A(4))) * 100 + g(f(B(b'', [7]))) * 10 + g(f(u))",
        None,
    ),
    "dictp": (
        "Union[A, B]",
        "def f(a: Union[A, B], b: Union[int, bytes]) -> int:\n    if isinstance(b, int):\n        return b if isinstance(a, A) else b + 1\n    return len(b) + (10 if isinstance(a, A) else 20)\n",
        "return f(A(4), 3) * 10000 + f(B(b'', [7]), b'abc') * 100 + f(u, 1) + f(u, b'x')",
        None,
    ),
}


def fast_access():
    for n in (0, 1, 2, 3, 5, 6, 7, 12):
        l = repr(list(range(100, 100 + n)))
        args = [(l, str(i)) for i in range(-n - 2, n + 3)]
        yield f"fa:{n}", "def validator(l: List[int], i: int) -> int:\n    return l[i]\n", args
        lb = repr([bytes([i]) for i in range(n)])
        yield f"fab:{n}", "def validator(l: List[bytes], i: int) -> bytes:\n    return l[i]\n", [(lb, a[1]) for a in args]
    for k in (0, 1, 4, 5, 6, 11, 12):
        yield f"fac:{k}", f"def validator(l: List[int]) -> int:\n    return l[{k}]\n", [(repr(list(range(n))),) for n in (0, 1, 5, 6, 12, 13)]
        yield f"facn:{k}", f"def validator(l: List[int]) -> int:\n    return l[-{k}]\n", [(repr(list(range(n))),) for n in (0, 1, 5, 6, 12, 13)]
    for k in (0, 5, 6):
        yield f"fae:{k}", f"def validator(l: List[List[int]]) -> int:\n    return l[{k}][{k}]\n", [(repr([list(range(n))] * m),) for n in (1, 6, 7) for m in (1, 6, 7)]


def corpus(step, th):
    """every `step`-th program of the other alphabets"""
    import importlib

    for m in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c09", "c26", "c27"):
        try:
            mod = importlib.import_module(f"mc.props.{m}")
        except ImportError:
            continue
        if not hasattr(mod, "C08_CORPUS") and m in ("c26", "c27", "c07"):
            continue
        known = set(load_known(m.upper()))
        for i, c in enumerate(mod.cases("quick")):
            if "src" in c and i % step == 0 and c["id"] not in known:
                yield f"x:{m}:{c['id']}", c["src"], c["argsets"][:: max(1, len(c["argsets"]) // 6)]


TYP = "from typing import Dict, List, Union\nfrom pycardano import Datum as Anything\n"


def programs(th):
    for cid, src in SCOPES.items():
        hdr = HDR if any(w in src for w in ("A(", "B(", "dataclass", "Anything", "Union", "Dict", "List[")) else ""
        arg = ["0", "1", "3", "7", "-6"] if "x: Anything" not in src else ["0", "b'a'", "[1]"]
        if cid == "boolkey":
            arg = ["0", "1"]
        yield f"s:{cid}", hdr + src, [(a,) for a in arg]
    for cid, (t, top, body, args) in UNIONS.items():
        if args is None:
            args = ["A(0)", "A(1)", "B(b'', [])", "B(b'a', [1])"] if t != "Union[int, bytes]" else ["0", "5", "b''", "b'abc'"]
        yield f"u:{cid}", HDR + top + f"def validator(u: {t}):\n" + ind(body), [(a,) for a in args]
    for cid, src, args in fast_access():
        yield cid, TYP + src, args
    yield from const_cases(th)


SAFE = [f for f in SINGLE if "expand" not in f]
EXP = ["P0+expand_union_types=True", "O1+expand_union_types=True", "O2+expand_union_types=True", "O3+expand_union_types=True"]


# A cast of a datum to a narrower type inspects the datum on-chain only (CPython
# ignores annotations), so that these programs are compared with P0.
CAST_ARGS = [(a,) for a in ("5", "b'x'", "A(3)", "B(b'q', [1])", "[]", "[1, 2]", "{}", "{1: b'x'}", "E()")]
CAST_FROM = {"any": "Anything", "ib": "Union[int, bytes]", "ab": "Union[A, B]", "mixed": "Union[A, int, bytes, List[Anything], Dict[Anything, Anything]]"}
CAST_TO = {"any": ["int", "bytes", "A", "Union[A, B]", "List[int]", "List[bytes]", "Dict[int, bytes]", "List[Anything]"], "ib": ["int", "bytes"], "ab": ["A", "B"], "mixed": ["int", "bytes", "A", "List[Anything]", "Dict[Anything, Anything]"]}
CAST_BODY = {
    "start": "def validator(d: {S}) -> int:\n    n: {T} = d\n    return 1\n",
    "fn": "def f(d: {S}) -> int:\n    n: {T} = d\n    return 2\ndef validator(d: {S}) -> int:\n    return f(d)\n",
    "if": "def validator(d: {S}) -> int:\n    if isinstance(d, {C}):\n        n: {T} = d\n        return 3\n    return 4\n",
    "after": "def validator(d: {S}) -> int:\n    k = 5\n    for i in range(2):\n        k += i\n        n: {T} = d\n    return k\n",
    "trace": "def validator(d: {S}) -> int:\n    print('before')\n    n: {T} = d\n    print('after')\n    return 6\n",
    "copy": "def validator(d: {S}) -> int:\n    n: {T} = d\n    m = n\n    o = m\n    return 7\n",
    "call": "def f(d: {S}) -> {S}:\n    print('f')\n    return d\ndef validator(d: {S}) -> int:\n    n: {T} = f(d)\n    return 8\n",
    "deadif": "def validator(d: {S}) -> int:\n    if False:\n        n: {T} = d\n    m: {T} = d\n    return 9\n",
    "two": "def validator(d: {S}) -> int:\n    n: {T} = d\n    a: Anything = n\n    n = a\n    return 10\n",
    "field": "@dataclass(unsafe_hash=True)\nclass R(PlutusData):\n    CONSTR_ID = 9\n    g: int\n    f: {S}\ndef validator(d: {S}) -> int:\n    r = R(1, d)\n    n: {T} = r.f\n    return r.g\n",
    "elem": "def validator(d: {S}) -> int:\n    l = [d, d]\n    n: {T} = l[1]\n    return len(l)\n",
}


def casts():
    for b, body in CAST_BODY.items():
        for s, ts in CAST_TO.items():
            for t in ts:
                if b == "if" and s == "any":
                    continue
                c = "A" if s == "ab" else "int"
                src = HDR + body.replace("{S}", CAST_FROM[s]).replace("{T}", t).replace("{C}", c)
                yield f"cast:{b}:{s}:{t}", src, CAST_ARGS


def p0_oracle():
    """what the program compiled with all steps off does"""
    compiled = []

    def oracle(case, py, args):
        if not compiled:
            compiled.append(compile_src(case["src"], config("P0")))
        if compiled[0][0] != "ok":
            return ("reject",), "", None
        got, lg, err = run_uplc(compiled[0][1], [canon_py(a) for a in args])
        return got, "".join(l + "\n" for l in lg), err

    return oracle


def cases(tier):
    th = tier == "thorough"
    allc = BASE + SINGLE + SUBSETS
    if th:
        flat = [(f, v) for f, vs in FLAGS.items() for v in vs]
        allc = allc + [f"P0+{f}={v!r}+{g}={w!r}" for (f, v), (g, w) in itertools.combinations(flat, 2) if f != g]
    n = 0

    def rot(k, stride=7):
        return [SINGLE[(n * stride + i * 5) % len(SINGLE)] for i in range(k)]

    for cid, src, args in programs(th):
        fam = cid.split(":")[0]
        n += 1
        if fam in ("s", "u"):
            cf = allc if th else ["P0", "O1", "O2", "O3"] + (EXP[:3] if fam == "u" else rot(2))
        elif fam in ("k", "ki"):
            cf = (QUICK + rot(1)) if th else ["O2"] + (rot(1) if n % 3 == 0 else [])
        else:
            cf = BASE + ["P0+constant_index_access_list=True"] + [f"{b}+fast_access_skip={k}" for b in ("P0", "O1") for k in (2, 3, 4, 5, 6, 7, 11, 12, 100)]
            if not th:
                cf = [c for i, c in enumerate(cf) if c in ("O1", "O2") or "index" in c or (i + n) % 4 == 0]
        yield prog(cid, src, args, list(dict.fromkeys(cf)))
    for i, (cid, src, args) in enumerate(casts()):
        cf = allc if th else [c for c in QUICK if "expand" not in c] + rot(1)
        if th or i % 3 == 0 or cid.startswith("cast:start"):
            yield prog(cid, src, args, list(dict.fromkeys(cf)), p0=True)
    for cid, src, args in corpus(4 if th else 83, th):
        n += 1
        cf = (QUICK if th else ["P0", "O2"]) + rot(2 if th else 1)
        yield prog(cid, src, args, list(dict.fromkeys(cf)))


def run_case(case):
    """A program accepted without optimisation has to be accepted at every
    level; a program accepted anywhere has to compute what CPython computes.
    The specialised variants of expand_union_types (part of no level) may fail
    to type check, which is a rejection."""
    if case.get("p0"):
        return run_diff(case, PROP, oracle=p0_oracle(), all_accept=compile_src(case["src"], config("P0"))[0] == "ok", strict_accept=False)
    levels = [c for c in case["cfgs"] if "expand" not in c]
    base = "P0" in levels and compile_src(case["src"], config("P0"))[0] == "ok"
    a = run_diff(dict(case, cfgs=levels), PROP, all_accept=base)
    rest = [c for c in case["cfgs"] if "expand" in c]
    if rest:
        b = run_diff(dict(case, cfgs=rest), PROP, strict_accept=False)
        a["evals"] += b["evals"]
        a["sigs"] += b["sigs"]
        a["violations"] += b["violations"]
        for k, v in b["extra"].items():
            a["extra"][k] = a["extra"].get(k, 0) + v
    return a
