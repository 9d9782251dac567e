"""C24: diagnostics point at the offending statement; lint output is well formed."""
import json
import re

from ..cli import *
from ..diff import sig
from ..runner import result, violation

PROP = "C24"
LEVEL = "exploration"
CPU_LIMIT = 120
RULE = (
    "Every kind of error (a statement the compiler has to refuse, by reason: types, names, calls, attributes, unsupported syntax, forbidden names, "
    "definitions, imports) placed at every kind of position (first or last statement, branches, loops, nested functions, methods, comprehensions, after multi-line "
    "strings, comments, joined lines, imports, unreachable, in imported files, at module level) at every optimisation level, given to lint in both formats and "
    "to compile. The reported line and column have to lie in the offending statement, the output has to be exactly one diagnostic, the formats have to agree. "
    "Accepted programs give no diagnostic; warnings are well formed too."
)
ASSUMPTIONS = ["the position of the offending statement is known by construction of the program"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass()
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
def f(a: int) -> int:
    return a
"""
# statements in a function with the parameters x: int, b: bytes, l: List[int], d: Dict[int, bytes], r: A, u: Union[A, B]
STMT = {
    "add": "y = x + b",
    "addlist": "y = [x] + x",
    "sub": "y = b - b",
    "mulstr": "y = b * 'a'",
    "matmul": "y = x @ x",
    "shift": "y = x << 2",
    "neg": "y = -b",
    "invert": "y = ~b",
    "cmp": "y = x < b",
    "cmpeq": "y = x == b",
    "chain": "y = x < x < b",
    "is": "y = x is b",
    "in": "y = b in l",
    "bool": "y = x and undefined",
    "callarg": "y = f(b)",
    "callcount": "y = f(x, x)",
    "callnone": "y = f()",
    "callkw": "y = f(a=b)",
    "callint": "y = x(1)",
    "callunknown": "y = g(x)",
    "name": "y = undefined",
    "nameexpr": "undefined",
    "attr": "y = r.nope",
    "attrunion": "y = u.nope",
    "attrint": "y = x.nope",
    "method": "y = l.nope()",
    "methodarg": "y = l.index(b)",
    "dictget": "y = d.get(b, b)",
    "sub1": "y = l[b]",
    "subint": "y = x[0]",
    "subdict": "y = d[b]",
    "subslice": "y = l[0:2:1]",
    "float": "y = 1.5",
    "complex": "y = 1j",
    "ellipsis": "y = ...",
    "lambda": "y = lambda z: z",
    "set": "y = {x, x}",
    "setcomp": "y = {z for z in l}",
    "gen": "y = (z for z in l)",
    "walrus": "y = (z := x)",
    "starred": "y = [*l, x]",
    "dictunpack": "y = {**d}",
    "fstring": "y = f'{x:>10}'",
    "fconv": "y = f'{x!r}'",
    "compbad": "y = [undefined for z in l]",
    "compcond": "y = [z for z in l if z + b]",
    "compiter": "y = [z for z in x]",
    "comptwo": "y = [z for z in l for w in l]",
    "dictcomp": "y = {z: undefined for z in l}",
    "ite": "y = x if b else undefined",
    "itetest": "y = x if undefined else b",
    "isinst": "y = isinstance(u, Undefined)",
    "isinst2": "y = isinstance(u, (A, B))",
    "retype": "x = b",
    "annotated": "y: int = b",
    "annunknown": "y: Undefined = x",
    "annonly": "y: int",
    "annlist": "y: List[bytes] = l",
    "aug": "x += b",
    "augunknown": "undefined += 1",
    "multi": "y = z = x",
    "unpack": "y, z = x",
    "unpackcount": "y, z = (x, x, x)",
    "store": "l[0] = x",
    "storeattr": "r.x = x",
    "del": "del x",
    "global": "global f",
    "raise": "raise ValueError('')",
    "assert": "assert undefined",
    "assertmsg": "assert x == 0, undefined",
    "import": "import math",
    "importfrom": "from math import gcd",
    "print": "print(undefined)",
    "printkw": "print(x, sep='')",
    "str": "y = str(undefined)",
    "intargs": "y = int('5', 16)",
    "chr": "y = chr(b)",
    "len": "y = len(x)",
    "range": "y = range(1, 2)",
    "maxmix": "y = max(x, b)",
    "sum": "y = sum([b])",
    "fromhex": "y = bytes.fromhex(x)",
    "new": "y = A(b)",
    "newcount": "y = A(x, x)",
    "newkw": "y = B(z=b)",
    "cast": "y = Undefined(x)",
    "return": "return b",
    "forbidden": "PlutusData = x",
    "nested1": "y = f(f(f(undefined)))",
    "nested2": "y = [[x], [x + b]]",
    "nested3": "y = {1: (x, undefined)}",
}
BLOCK = {
    # several lines; the second value is the offending part (relative lines) if it is not the whole
    "if": ("if undefined:\n    pass", (0, 0)),
    "while": ("while undefined:\n    pass", (0, 0)),
    "for": ("for i in x:\n    pass", (0, 0)),
    "forunknown": ("for i in undefined:\n    pass", (0, 0)),
    "fortuple": ("for i, j in l:\n    pass", (0, 0)),
    "try": ("try:\n    pass\nexcept ValueError:\n    pass", None),
    "with": ("with x:\n    pass", None),
    "match": ("match x:\n    case 0:\n        pass", None),
    "def": ("def h(a: int) -> int:\n    return undefined", (1, 1)),
    "defann": ("def h(a: Undefined) -> int:\n    return 1", None),
    "defret": ("def h(a: int) -> bytes:\n    return a", None),
    "defargs": ("def h(*a: int) -> int:\n    return 1", None),
    "defdefault": ("def h(a: int = 1) -> int:\n    return 1", None),
    "defkwonly": ("def h(*, a: int) -> int:\n    return 1", None),
    "async": ("async def h(a: int) -> int:\n    return a", None),
    "decorator": ("@undefined\ndef h(a: int) -> int:\n    return a", None),
    "class": ("class H:\n    pass", None),
    "multiline": ("y = (\n    x\n    + b\n)", None),
    "multicall": ("y = f(\n    x,\n    undefined,\n)", None),
    "multilist": ("y = [\n    x,\n    undefined,\n]", None),
    "multistr": ("y = x + '''a\nb\n'''", None),
    "continued": ("y = x + \\\n    b", None),
    "yield": ("yield x", None),
    "semicolon": ("z = x; y = undefined", None),
    "colonif": ("if x == 0: y = undefined", None),
    "bytes": ("y = 'äöü' + x", None),
}
KINDS = {k: (v, None) for k, v in STMT.items()}
KINDS.update({"b" + k: v for k, v in BLOCK.items()})

SIG = "x: int, b: bytes, l: List[int], d: Dict[int, bytes], r: A, u: Union[A, B]"
V = f"def validator({SIG}) -> int:\n"
# the marker line is replaced by the statement, with its indentation
PLACE = {
    "first": V + "    #HERE\n    return 1\n",
    "last": V + "    z1 = x\n    z2 = z1 + 1\n    #HERE\n    return z2\n",
    "then": V + "    if x == 0:\n        #HERE\n        z1 = 1\n    return 1\n",
    "else": V + "    if x == 0:\n        z1 = 1\n    else:\n        #HERE\n        z1 = 2\n    return 1\n",
    "elif": V + "    if x == 0:\n        z1 = 1\n    elif x == 1:\n        #HERE\n        z1 = 1\n    else:\n        z1 = 2\n    return 1\n",
    "while": V + "    z1 = x\n    while z1 > 0:\n        #HERE\n        z1 -= 1\n    return 1\n",
    "for": V + "    for z1 in l:\n        #HERE\n        z2 = 1\n    return 1\n",
    "forelse": V + "    for z1 in l:\n        z2 = 1\n    else:\n        #HERE\n        z2 = 1\n    return 1\n",
    "deep": V + "    for z1 in l:\n        if z1 == 0:\n            while x == 1:\n                #HERE\n                z2 = 1\n    return 1\n",
    "nestedfn": V + f"    def inner({SIG}) -> int:\n        #HERE\n        return 1\n    return inner(x, b, l, d, r, u)\n",
    "nestedfn2": V + f"    def inner({SIG}) -> int:\n        def innermost({SIG}) -> int:\n            #HERE\n            return 1\n        return innermost(x, b, l, d, r, u)\n    return inner(x, b, l, d, r, u)\n",
    "helper": f"def helper({SIG}) -> int:\n    #HERE\n    return 1\n" + V + "    return helper(x, b, l, d, r, u)\n",
    "method": f"@dataclass()\nclass M(PlutusData):\n    CONSTR_ID = 9\n    m: int\n    def meth(self, {SIG}) -> int:\n        #HERE\n        return 1\n" + V + "    return M(1).meth(x, b, l, d, r, u)\n",
    "docstring": '"""\nfoo\n  bar\n"""\n' + V + '    """doc\n    string\n    """\n    #HERE\n    return 1\n',
    "string": V + "    z1 = '''one\ntwo\n  three'''\n    #HERE\n    return 1\n",
    "comments": V + "    # comment\n\n    # another\n\n\n    #HERE\n    # y = undefined\n    return 1\n",
    "continuation": V + "    z1 = x + \\\n        1 + \\\n        2\n    #HERE\n    return 1\n",
    "unicode": V + "    z1 = 'äöü\U0001f600'\n    #HERE\n    return 1\n",
    "import": "from opshin.std.math import *\n" + V + "    z1 = sign(x)\n    #HERE\n    return 1\n",
    "same": V + "    if x == 5:\n        z1 = x\n        z1 = x\n    #HERE\n    z1 = x\n    z1 = x\n    return 1\n",
    "aug": V + "    z1 = x\n    z1 += 1\n    z2, z3 = (1, 2)\n    z1 -= z2\n    #HERE\n    return 1\n",
    "widetab": f"def validator({SIG}) -> int:\n\tz1 = x\n\tif z1 == 0:\n\t\t#HERE\n\t\tz1 = 2\n\treturn 1\n",
    "folded": V + "    z1 = 1 + 2\n    z2 = [1, 2, 3][1]\n    if False:\n        z2 = 4\n    #HERE\n    return z1 + z2\n",
    "isinst": V + "    if isinstance(u, A):\n        #HERE\n        z1 = u.x\n    elif isinstance(u, B):\n        z1 = 0\n    return 1\n",
    "after": V + "    return 1\n    #HERE\n",
    "deadif": V + "    if False:\n        #HERE\n        z1 = 1\n    return 1\n",
    "twice": V + "    #HERE\n    #HERE\n    return 1\n",
}
# definitions: the whole text is the offending statement
DEFS = {
    "noretann": "def h(a: int) -> Undefined:\n    return a",
    "returntype": "def h(a: int) -> int:\n    if a == 0:\n        return b''\n    return a",
    "noreturn": "def h(a: int) -> int:\n    if a == 0:\n        return a",
    "dup": "def h(a: int, c: Undef) -> int:\n    return a",
    "field": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: Undef",
    "fieldstr": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: float",
    "constr": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 'a'\n    x: int",
    "nodataclass": "class H(PlutusData):\n    CONSTR_ID = 3\n    x: int",
    "nobase": "@dataclass()\nclass H:\n    CONSTR_ID = 3\n    x: int",
    "twobases": "@dataclass()\nclass H(A, B):\n    CONSTR_ID = 3\n    z: int",
    "default": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: int = 5",
    "classstmt": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    for i in [1]:\n        pass",
    "method": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    def m(self) -> int:\n        return self.nope",
    "classmethod": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    @classmethod\n    def m(self) -> int:\n        return 1",
    "dunder": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    def __add__(self, other: int) -> int:\n        return undefined",
    "unionint": "def h(a: Union[A, List[int]]) -> int:\n    return 1",
    "samenumber": "@dataclass()\nclass H(PlutusData):\n    CONSTR_ID = 0\n    z: int\ndef h(a: Union[A, H]) -> int:\n    return 1",
    "importmod": "import math",
    "importas": "import math as m",
    "importname": "from opshin.std.math import gcd",
    "importtyping": "from typing import Tuple",
    "importhash": "from hashlib import md5",
    "importpyc": "from pycardano import Address",
    "importdc": "from dataclasses import field",
    "float": "PI = 3.14",
    "undefined": "def h() -> int:\n    return undefined",
    "global": "def h(a: int) -> int:\n    global f\n    return a",
    "star": "def h(**kw: int) -> int:\n    return 1",
    "defaults": "def h(a: int = 3) -> int:\n    return 1",
    "decorated": "from functools import lru_cache\n@lru_cache()\ndef h(a: int) -> int:\n    return 1",
    "while": "while False:\n    y = undefined",
    "overwrite": "Anything = 5",
    "overwritelist": "List = [1]",
    "asyncdef": "async def h(a: int) -> int:\n    return 1",
    "lambda": "h = lambda z: z",
}
TOP = {
    "before": "#HERE\n" + V + "    return 1\n",
    "between": "k = 5\n#HERE\n" + V + "    return 1\n",
    "after": V + "    return 1\n#HERE\n",
    "docs": '"""\nmodule\n\n"""\n# comment\n\n\n#HERE\n\n\n' + V + "    return 1\n",
    "imports": "from opshin.std.math import *\n#HERE\n" + V + "    return sign(x)\n",
    "used": "#HERE\n" + V + "    return 1\nh0 = 0\n",
}
# refused by CPython already: (program, line range)
PYTHON = {
    "syntax1": (HDR + V + "    return 1 +\n", (15, 15)),
    "syntax2": (HDR + "x = (\n" + V + "    return 1\n", (14, 16)),
    "indent": (HDR + V + "        a = 1\n    return 1\n", (16, 16)),
    "tab": (HDR + V + "    a = 1\n\treturn 1\n", (16, 16)),
    "name": (HDR + "k = undefined\n" + V + "    return 1\n", (14, 14)),
    "nested": (HDR + "def g(a: int) -> int:\n    return undefined\nk = g(1)\n" + V + "    return 1\n", (15, 16)),
    "import": (HDR + "from not_there_at_all import *\n" + V + "    return 1\n", (14, 14)),
    "importname": (HDR + "from opshin.std.math import nope\n" + V + "    return 1\n", (14, 14)),
    "zero": (HDR + "k = 1 // 0\n" + V + "    return 1\n", (14, 14)),
    "assert": (HDR + "k = 1\nassert k == 2, 'k'\n" + V + "    return 1\n", (15, 15)),
    "annotation": (HDR + "def g(a: Undef) -> int:\n    return 1\n" + V + "    return 1\n", (14, 14)),
    "decorator": (HDR + "@undef\ndef g(a: int) -> int:\n    return 1\n" + V + "    return 1\n", (14, 15)),
    "return": (HDR + "return 5\n" + V + "    return 1\n", (14, 14)),
    "late": (HDR + V + "    return 1\nk = undefined\n", (16, 16)),
    "string": (HDR + "k = 'abc\n" + V + "    return 1\n", (14, 14)),
    "helper": (HDR + "from h_helper_bad import *\n" + V + "    return 1\n", (14, 14)),
    "empty": ("", (1, 1)),
    "novalidator": (HDR + "def other(x: int) -> int:\n    return 1\n", (1, 99)),
}
CLEAN = {
    # program, number of warnings
    "plain": (HDR + V + "    return x\n", 0),
    "hex": (HDR + V + "    z = b'deadbeef'\n    return len(z + b)\n", 1),
    "hextop": (HDR + "k = b'00'\n" + V + "    return len(k + b)\n", 1),
    "isinst": (HDR + V + "    if isinstance(r, A):\n        return 1\n    return 2\n", None),
    "cast": (HDR + "def validator(x: Anything) -> int:\n    y: int = x\n    return y\n", None),
    "print": (HDR + V + "    print('out\"put')\n    return x\n", 0),
    "quote": (HDR + V + "    z = 'a\"b\\\\'\n    print(z)\n    return 1\n", None),
    "noconstr": (HDR + "@dataclass()\nclass H(PlutusData):\n    x: int\n" + V + "    return H(x).x\n", None),
    "always": (HDR + "def validator(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        if isinstance(u, A):\n            return 1\n    return 2\n", None),
}
IMPORTED = ("add", "attr", "name", "float", "callarg", "return", "lambda", "btry", "bmulticall", "bdef", "bdecorator")


def put(template, stmt, off):
    """-> text, list of line ranges (1-based, inclusive), with columns of single-line statements"""
    out, spans = [], []
    for line in template.split("\n"):
        if line.strip() == "#HERE":
            ind = line[: len(line) - len(line.lstrip())]
            start = len(out) + 1
            body = stmt.split("\n")
            if "'''" in stmt:
                out += [ind + body[0]] + body[1:]
            else:
                out += [ind + b for b in body]
            a, b = off if off else (0, len(body) - 1)
            spans.append((start + a, start + b, len(ind) if len(body) == 1 else 0, len((ind + body[0]).encode()) if len(body) == 1 else 10**6))
        else:
            out.append(line)
    return "\n".join(out), spans


def cases(tier):
    th = tier == "thorough"
    for i, k in enumerate(KINDS):
        for j, p in enumerate(PLACE):
            for lvl in range(4):
                if th or lvl == (i + j) // 2 % 4 and (i + j) % 2 == 0:
                    yield dict(id=f"stmt:{k}:{p}:O{lvl}", fam="stmt", k=k, p=p, lvl=lvl)
    for i, k in enumerate(DEFS):
        for j, p in enumerate(TOP):
            for lvl in range(4):
                if th or lvl == (i + j) % 4:
                    yield dict(id=f"def:{k}:{p}:O{lvl}", fam="defs", k=k, p=p, lvl=lvl)
    for k in PYTHON:
        yield dict(id=f"python:{k}", fam="python", k=k)
    for k in CLEAN:
        for lvl in range(4):
            yield dict(id=f"clean:{k}:O{lvl}", fam="clean", k=k, lvl=lvl)
    for k in KINDS if th else IMPORTED:
        for depth in (1, 2):
            yield dict(id=f"imported:{k}:{depth}", fam="imported", k=k, depth=depth)
    for i, (k, p) in enumerate((k, p) for k in ("add", "bmultilist", "bdef", "name") for p in ("first", "deep", "docstring")):
        yield dict(id=f"stdin:{k}:{p}", fam="stdin", k=k, p=p)
        yield dict(id=f"lib:{k}:{p}", fam="lib", k=k, p=p)
        yield dict(id=f"crlf:{k}:{p}", fam="crlf", k=k, p=p)
    for k in KINDS if th else ("add", "float", "bwhile", "bdef", "multi", "bmulticall"):
        if not re.search(r"\b[dru]\b", KINDS[k][0]) and k != "return":
            yield dict(id=f"contract:{k}", fam="contract", k=k)


TEXT = re.compile(r"^(?P<file>.*?):(?P<line>\w+):(?P<col>-?\w+): ?(?P<cls>\w+): (?P<msg>.*)$", re.S)


def diagnostics(out, json_format, path):
    """-> list of (line, column, class, message), or raises ValueError"""
    if json_format:
        ds = []
        for l in out.splitlines():
            v = json.loads(l)
            if isinstance(v, dict):
                v = [v]
            for d in v:
                if set(d) != {"line", "column", "error_class", "message"}:
                    raise ValueError(f"keys {set(d)}")
                ds.append((d["line"], d["column"], d["error_class"], d["message"].rstrip("\n")))
        return ds
    ds = []
    rest = out
    if not rest:
        return []
    parts = rest.split("\n" + path + ":")
    for i, p in enumerate(parts):
        p = p if i == 0 else path + ":" + p
        m = TEXT.match(p.rstrip("\n"))
        if not m or m["file"] != path:
            raise ValueError(p)
        ds.append((int(m["line"]), int(m["col"]), m["cls"], m["msg"]))
    return ds


WARN = ("WARNING",)


def judge(case, path, spans, lvl, extra=(), stdin=None, cwd=None, files=None, name=None, warnings=0):
    """run lint in both formats and compile; spans: where the diagnostic has to be, None: no error"""
    viol, ev = [], 0
    name = name or path
    outs = {}
    src = stdin if stdin is not None else open(path, newline="").read()

    def bad(what, **kw):
        viol.append(violation(case, what, src=src, **kw))

    for fmt in ("text", "json"):
        argv = ["lint", path, f"-O{lvl}", *(extra or ["--lib=validator"])] + (["--output-format-json"] if fmt == "json" else [])
        out, exc = cli(argv, stdin=stdin, cwd=cwd)
        ev += 1
        if exc is not None and not isinstance(exc, SystemExit):
            bad(f"lint ({fmt}) ends in {type(exc).__name__}: {exc}")
            continue
        try:
            outs[fmt] = diagnostics(out, fmt == "json", name)
        except ValueError as e:
            bad(f"malformed diagnostic ({fmt}): {out[:300]!r} {e}"[:500])
    out, exc = cli(["compile", path, f"-O{lvl}", *(extra or ["--lib=validator"])], stdin=stdin, cwd=cwd)
    ev += 1
    if len(outs) < 2:
        return viol, ev, None
    errs = {k: [d for d in v if d[2] not in WARN] for k, v in outs.items()}
    warns = {k: [d for d in v if d[2] in WARN] for k, v in outs.items()}
    if sorted(map(str, outs["text"])) != sorted(map(str, outs["json"])):
        bad(f"formats differ: {outs['text']} {outs['json']}"[:600])
    e = errs["json"]
    if (exc is not None) != bool(e):
        bad(f"lint reports {e} but compile gives {exc!r}"[:500])
        return viol, ev, e
    if not e:
        if warnings is not None and len(warns["json"]) != warnings:
            bad(f"{warnings} warnings expected: {warns['json']}"[:500])
        return viol, ev, None
    if len(e) != 1:
        bad(f"more than one diagnostic: {e}"[:500])
    line, col, cls, msg = e[0]
    if not isinstance(line, int) or not isinstance(col, int):
        bad(f"no position: {e[0]}"[:400])
        return viol, ev, e[0]
    if spans is None:
        bad(f"diagnostic for a correct program: {e[0]}"[:400])
        return viol, ev, e[0]
    hit = [s for s in spans if s[0] <= line <= s[1]]
    if not hit:
        bad(f"diagnostic at line {line} instead of {[s[:2] for s in spans]}: {cls}: {msg}"[:500])
    elif not any(s[2] <= col <= s[3] for s in hit):
        bad(f"diagnostic at column {col}, statement is at {[s[2:] for s in hit]}: {cls}: {msg}"[:500])
    if isinstance(exc, SyntaxError):
        if exc.lineno != line:
            bad(f"compile reports line {exc.lineno}, lint line {line}")
        if exc.filename not in (name, None):
            bad(f"compile reports file {exc.filename}")
    for word in ("'NoneType' object has no attribute", "has no attribute 'lineno'", "has no attribute 'col_offset'"):
        if word in msg:
            bad(f"reporting failed: {msg}"[:400])
    return viol, ev, e[0]


def out(case, viol, ev, d, src):
    return result(ev, [sig(case["fam"], src, case.get("lvl"))] if d else [], viol, dict(program=src, diagnostic=str(d)[:300]) if d else None, rejected=int(d is not None), accepted=int(d is None))


def do_stmt(case):
    stmt, off = KINDS[case["k"]]
    text, spans = put(HDR + PLACE[case["p"]], stmt, off)
    if case["k"] == "return":
        # not the returned type of the function: the function is at fault
        lines = text.split("\n")
        for i, (a, *_) in enumerate(spans):
            a = max(n for n in range(1, a) if lines[n - 1].lstrip().startswith("def "))
            spans[i] = (a, spans[i][1], 0, 10**6)
    if case["k"] == "bclass" and case["p"] == "method":
        spans = [(15, 21, 0, 10**6)]
    with Files() as f:
        path = f.write("contract.py", text)
        viol, ev, d = judge(case, path, spans, case["lvl"], warnings=None)
    return out(case, viol, ev, d, text)


def do_defs(case):
    text, spans = put(HDR + TOP[case["p"]], DEFS[case["k"]], None)
    if case["k"] == "overwritelist":
        # refused by CPython where the name is used
        spans = [(14, 99, 0, 10**6)]
    if case["k"] == "overwrite" and case["p"] == "imports":
        # the imported functions use the name
        spans.append((14, 14, 0, 30))
    with Files() as f:
        path = f.write("contract.py", text)
        viol, ev, d = judge(case, path, spans, case["lvl"], warnings=None)
    return out(case, viol, ev, d, text)


CONTRACT = """from opshin.prelude import *
def validator(n: int, ctx: ScriptContext) -> None:
    x = n
    b = b'q'
    l = [x]
    #HERE
    assert x == 1
"""


def do_contract(case):
    text, spans = put(CONTRACT, *KINDS[case["k"]])
    with Files() as f:
        path = f.write("contract.py", text)
        viol, ev, d = judge(case, path, spans, 1, extra=["--parameters=1"], warnings=None)
    return out(case, viol, ev, d, text)


def do_python(case):
    text, (a, b) = PYTHON[case["k"]]
    with Files() as f:
        path = f.write("contract.py", text)
        f.write("h_helper_bad.py", "x = 1 +\n")
        viol, ev, d = judge(case, path, [(a, b, 0, 10**6)], 2)
        if d is None:
            viol.append(violation(case, "accepted", src=text))
    return out(case, viol, ev, d, text)


def do_clean(case):
    text, n = CLEAN[case["k"]]
    with Files() as f:
        path = f.write("contract.py", text)
        viol, ev, d = judge(case, path, None, case["lvl"], warnings=n)
    return result(ev, [sig("clean", text, case["lvl"])], viol, None, rejected=0, accepted=1)


def do_imported(case):
    """the offending statement is in an imported file: the import statement is reported"""
    stmt, off = KINDS[case["k"]]
    helper, _ = put("\n\n" + HDR + PLACE["helper"].split("def validator")[0], stmt, off)
    with Files() as f:
        tag = os.path.basename(f.dir)
        pk = f"pk_{tag}"
        os.mkdir(os.path.join(f.dir, pk))
        f.write(f"{pk}/__init__.py", "")
        f.write(f"{pk}/helper.py", helper)
        f.write(f"{pk}/middle.py", "\n\n\n# comment\nfrom .helper import *\n")
        mod = "helper" if case["depth"] == 1 else "middle"
        text, spans = put('"""\ndoc\n"""\n\n\n#HERE\n\n' + V + "    return helper(x, b, l, d, r, u)\n", f"from {pk}.{mod} import *", None)
        path = f.write("contract.py", text)
        sys.path.insert(0, f.dir)
        try:
            viol, ev, d = judge(case, path, spans, 2, warnings=None)
        finally:
            sys.path.remove(f.dir)
            for m in [m for m in sys.modules if m.startswith(pk)]:
                del sys.modules[m]
    return out(case, viol, ev, d, text + "\n# helper.py\n" + helper)


def do_stdin(case):
    stmt, off = KINDS[case["k"]]
    text, spans = put(HDR + PLACE[case["p"]], stmt, off)
    viol, ev, d = judge(case, "-", spans, 2, stdin=text, warnings=None)
    return out(case, viol, ev, d, text)


def do_lib(case):
    stmt, off = KINDS[case["k"]]
    text, spans = put(HDR + PLACE[case["p"]].replace("validator", "libfn"), stmt, off)
    with Files() as f:
        path = f.write("contract.py", text)
        viol, ev, d = judge(case, path, spans, 2, extra=["--lib=libfn"], warnings=None)
    return out(case, viol, ev, d, text)


def do_crlf(case):
    stmt, off = KINDS[case["k"]]
    text, spans = put(HDR + PLACE[case["p"]], stmt, off)
    with Files() as f:
        path = os.path.join(f.dir, "contract.py")
        with open(path, "w", newline="") as fp:
            fp.write(text.replace("\n", "\r\n"))
        viol, ev, d = judge(case, path, spans, 2, warnings=None)
    return out(case, viol, ev, d, text)


def run_case(case):
    logging.disable(logging.NOTSET)
    OU.OPSHIN_LOGGER.propagate = False
    try:
        return globals()["do_" + case["fam"]](case)
    finally:
        logging.disable(logging.CRITICAL)
