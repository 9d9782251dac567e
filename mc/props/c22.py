"""C22: programs spread over modules behave as CPython executing the modules."""
import contextlib
import importlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types

from ..diff import golden_rejects, sig
from ..engine import *
from ..runner import result, violation
import opshin.compiler as compiler
import pluthon

PROP = "C22"
LEVEL = "exploration"
CPU_LIMIT = 200
CHUNK = 4
GOLDEN_CFGS = ["O0", "O1", "O2", "O3"]
RULE = (
    "All import graphs of a contract and up to three modules (single, two in both orders, chain, diamond, chain plus direct) x contents of every module (constant, function with and without use of "
    "the module's own or another module's constant, private name, class, printing and failing module code) x definitions of the contract before and after the import, and all import spellings "
    "(star, names, aliases, relative, packages, special modules) x placements; executed by CPython from the same files and as compiled script. Non-trivial: distinct (program, outcome)."
)
ASSUMPTIONS = ["CPython and the CEK machine are correct"]

# contents of a helper module; # is its number
BODY = {
    "none": "pass\n",
    "K": "K = #\n",
    "f": "def f() -> int:\n    return 10 + #\n",
    "Kf": "K = #\ndef f() -> int:\n    return K * 10 + #\n",
    "g": "def g() -> int:\n    return K + 1\n",
    "Kg": "K = #\ndef g() -> int:\n    return K + 100\n",
    "h": "def h() -> int:\n    return f() + 1000\n",
    "_K": "_K = #\ndef f() -> int:\n    return _K + 7\n",
    "Kp": "print('m#')\nK = #\n",
    "cls": "from dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\n@dataclass\nclass C(PlutusData):\n    CONSTR_ID = #\n    x: int\ndef mk(n: int) -> C:\n    return C(n + #)\n",
    "loop": "K = 0\nfor _i in range(#):\n    K += 2\n",
}
NAMES = {"none": "", "K": "K", "f": "f()", "Kf": "K,f()", "g": "g()", "Kg": "K,g()", "h": "h()", "_K": "f()", "Kp": "K", "cls": "mk(1).x", "loop": "K"}
GRAPHS = {
    # modules: imports of each, imports of main
    "one": ({"a": []}, ["a"]),
    "two": ({"a": [], "b": []}, ["a", "b"]),
    "chain": ({"a": ["b"], "b": []}, ["a"]),
    "chaintail": ({"a": ["b!"], "b": []}, ["a"]),
    "direct": ({"a": ["b"], "b": []}, ["b", "a"]),
    "direct2": ({"a": ["b"], "b": []}, ["a", "b"]),
    "diamond": ({"a": ["c"], "b": ["c"], "c": []}, ["a", "b"]),
    "chain3": ({"a": ["b"], "b": ["c"], "c": []}, ["a"]),
    "twice": ({"a": []}, ["a", "a"]),
}
# definitions of the contract: (before the imports, after the imports)
MAIN = {
    "plain": ("", ""),
    "K after": ("", "K = 5\n"),
    "K before": ("K = 5\n", ""),
    "f after": ("", "def f() -> int:\n    return -1\n"),
    "f before": ("def f() -> int:\n    return -1\n", ""),
    "own f of K": ("", "def own() -> int:\n    return K * 3\n"),
    "K in function": ("", "def own() -> int:\n    K = 77\n    return K\n"),
}


def project(graph, bodies, main):
    mods, imports = GRAPHS[graph]
    files = {}
    names = []
    for i, (m, b) in enumerate(zip(mods, bodies)):
        head = "".join(f"from @{x} import *\n" for x in mods[m] if not x.endswith("!"))
        tail = "".join(f"from @{x[:-1]} import *\n" for x in mods[m] if x.endswith("!"))
        files[m] = head + BODY[b].replace("#", str(i + 2)) + tail
        names += [n for n in NAMES[b].split(",") if n]
    pre, post = MAIN[main]
    if "K" in (pre + post):
        names.append("K") if "in function" not in main else None
    if "own" in post:
        names.append("own()")
    if "def f" in pre + post:
        names.append("f()")
    names = list(dict.fromkeys(names)) or ["0"]
    head = "from typing import List\n"
    src = head + pre + "".join(f"from @{m} import *\n" for m in imports) + post
    src += f"def validator(i: int) -> List[int]:\n    return [{', '.join(names)}]\n"
    files["main"] = src
    return files


A_ = "K = 3\n_P = 4\ndef f() -> int:\n    return K + 1\ndef _p() -> int:\n    return 9\n"
V = "def validator(i: int) -> int:\n    return {e}\n"
SPELL = {
    "star": ("from @a import *\n", "f()"),
    "name": ("from @a import f\n", "f()"),
    "names": ("from @a import f, K\n", "f() + K"),
    "alias": ("from @a import f as g\n", "g()"),
    "import": ("import @a\n", "@a.f()"),
    "import as": ("import @a as z\n", "z.f()"),
    "private": ("from @a import *\n", "_P"),
    "private function": ("from @a import *\n", "_p()"),
    "missing": ("from @nope import *\n", "1"),
    "semicolon": ("from @a import *; Z = 2\n", "f() + Z"),
    "in function": ("def q() -> int:\n    from @a import f\n    return f()\n", "q()"),
    "star in if": ("if True:\n    from @a import *\n", "f()"),
    "star in else": ("if False:\n    pass\nelse:\n    from @a import *\n", "f()"),
    "star in untaken if": ("K = 8\nif False:\n    from @a import *\n", "K"),
    "star in loop": ("for _ in range(2):\n    from @a import *\n", "f()"),
    "star in zero loop": ("K = 8\nfor _ in range(0):\n    from @a import *\n", "K"),
    "use before": ("Z = K\nfrom @a import *\n", "Z"),
    "relative": ("from .@a import *\n", "f()"),
    "relative2": ("from ..@a import *\n", "f()"),
    "pkg": ("from @pkg.m import *\n", "f()"),
    "pkg init": ("from @pkg import *\n", "G"),
    "pkg sub import": ("from @pkg import m\n", "m.f()"),
    "pkg relative": ("from @pkg.r import *\n", "f() + R"),
    "pkg relative parent": ("from @pkg.sub.u import *\n", "f() + U"),
    "pkg absolute": ("from @pkg.ab import *\n", "f() + AB"),
    "pkg both": ("from @pkg.r import *\nfrom @pkg.m import *\n", "f() + R + K"),
    "pkg two": ("from @pkg.same import *\nfrom @pk2.same import *\n", "S"),
    "pkg two rev": ("from @pk2.same import *\nfrom @pkg.same import *\n", "S"),
    "pkg two relative": ("from @pkg.rs import *\nfrom @pk2.rs import *\n", "f() * 100 + g()"),
    "shadow top level": ("from @pkg.usesm import *\n", "f() + Q"),
    "all": ("from @all import *\n", "K"),
    "all hidden": ("from @all import *\n", "H"),
    "all private": ("from @all import *\n", "_Q"),
    "future": ("from __future__ import annotations\n", "1"),
    "own name": ("from @a import *\nK = 12\n", "K"),
    "rebind own": ("from @a import *\nK = 12\n", "f()"),
    "rebind in function": ("from @a import *\ndef s() -> int:\n    K = 100\n    return f() + K\n", "s()"),
    "recursion": ("from @rec import *\n", "down(4)"),
    "cycle": ("from @cy1 import *\n", "c1()"),
    "main name": ("from @name import *\n", "N"),
    "docstring": ("from @doc import *\n", "D"),
    "typing alias": ("from typing import List as L\ndef q(x: L[int]) -> int:\n    return len(x)\n", "q([1])"),
    "typing module": ("import typing\ndef q(x: typing.List[int]) -> int:\n    return len(x)\n", "q([1])"),
    "typing late": ("def q(x: int) -> int:\n    return x\nfrom typing import List\ndef r(x: List[int]) -> int:\n    return len(x)\n", "q(1) + r([1])"),
    "typing Optional": ("from typing import Optional\ndef q(x: Optional[int]) -> int:\n    return 1\n", "q(1)"),
    "typing Self": ("from typing import Self\n", "1"),
    "typing star": ("from typing import *\ndef r(x: List[int]) -> int:\n    return len(x)\n", "r([1])"),
    "typing cast": ("from typing import cast\n", "cast(int, 1)"),
    "dataclass alias": ("from dataclasses import dataclass as dc\nfrom pycardano import Datum as Anything, PlutusData\n@dc\nclass Z(PlutusData):\n    CONSTR_ID = 3\n    x: int\n", "Z(1).x"),
    "dataclass module": ("import dataclasses\nfrom pycardano import Datum as Anything, PlutusData\n@dataclasses.dataclass\nclass Z(PlutusData):\n    CONSTR_ID = 3\n    x: int\n", "Z(1).x"),
    "dataclass field": ("from dataclasses import dataclass, field\nfrom pycardano import Datum as Anything, PlutusData\n@dataclass\nclass Z(PlutusData):\n    CONSTR_ID = 3\n    x: int\n", "Z(1).x"),
    "plutusdata alias": ("from dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData as P\n@dataclass\nclass Z(P):\n    CONSTR_ID = 3\n    x: int\n", "Z(1).x"),
    "datum alias": ("from pycardano import Datum as D, PlutusData\ndef q(x: D) -> int:\n    return 1\n", "q(1)"),
    "datum name": ("from pycardano import Datum, PlutusData\ndef q(x: Datum) -> int:\n    return 1\n", "q(1)"),
    "pycardano other": ("from pycardano import TransactionInput\n", "1"),
    "hashlib": ("from hashlib import sha256\n", "len(sha256(b'').digest())"),
    "hashlib alias": ("from hashlib import sha256 as s, sha3_256\n", "s(b'').digest()[0] * 1000 + sha3_256(b'').digest()[0]"),
    "hashlib module": ("import hashlib\n", "len(hashlib.sha256(b'').digest())"),
    "hashlib other": ("from hashlib import sha512\n", "len(sha512(b'').digest())"),
    "hashlib rebind": ("from hashlib import sha256\ndef sha256(x: bytes) -> int:\n    return 1\n", "sha256(b'')"),
    "os": ("import os\n", "1"),
    "math": ("from math import gcd\n", "gcd(4, 6)"),
    "math star": ("from math import *\n", "gcd(4, 6)"),
    "std": ("from opshin.std.math import *\n", "gcd(4, 6)"),
    "std name": ("from opshin.std.math import gcd\n", "gcd(4, 6)"),
    "std fractions": ("from opshin.std.fractions import *\n", "ceil_fraction(Fraction(i, 3))"),
    "std both": ("from opshin.std.fractions import *\nfrom opshin.std.math import *\nfrom opshin.std.bitmap import *\n", "ceil_fraction(Fraction(i, 3)) + gcd(4, 6) + size_bitmap(b'ab')"),
    "std via helper": ("from @std import *\n", "twice(6) + gcd(4, 6)"),
    "prelude and helper": ("from opshin.prelude import *\nfrom @a import *\n", "f()"),
    "helper with prelude": ("from @prel import *\n", "pre(Nothing())"),
    "stdlib name": ("from statistics import *\n", "STAT"),
    "stdlib name 2": ("from token import *\n", "TOK"),
    "shadowed builtin module": ("from @builtin import *\n", "abs(-3)"),
    "redefine len": ("from @lenm import *\n", "usel()"),
}
EXTRA = {
    "a": A_,
    "@pkg/__init__": "G = 6\n",
    "@pkg/m": A_,
    "@pkg/r": "from .m import *\nR = 40\n",
    "@pkg/ab": "from @pkg.m import *\nAB = 60\n",
    "@pkg/sub/__init__": "",
    "@pkg/sub/u": "from ..m import *\nU = 70\n",
    "@pkg/same": "S = 1\n",
    "@pkg/rs": "from .same2 import *\ndef f() -> int:\n    return T\n",
    "@pkg/same2": "T = 1\n",
    "@pkg/usesm": "from .a import *\nQ = 5\n",
    "@pkg/a": "def f() -> int:\n    return 400\n",
    "@pk2/__init__": "",
    "@pk2/same": "S = 2\n",
    "@pk2/rs": "from .same2 import *\ndef g() -> int:\n    return U\n",
    "@pk2/same2": "U = 2\n",
    "@all": "__all__ = ['K', '_Q']\nK = 1\nH = 2\n_Q = 3\n",
    "@rec": "def down(n: int) -> int:\n    return 0 if n == 0 else 1 + down(n - 1)\n",
    "@cy1": "from @cy2 import *\ndef c1() -> int:\n    return c2() + 1\n",
    "@cy2": "from @cy1 import *\ndef c2() -> int:\n    return 5\n",
    "@name": "N = 0\nif __name__ == '__main__':\n    N = 1\n",
    "@doc": '"""Docs"""\nD = 4\n',
    "@std": "from opshin.std.math import *\ndef twice(x: int) -> int:\n    return gcd(x, 2 * x) * 2\n",
    "@prel": "from opshin.prelude import *\ndef pre(x: Nothing) -> int:\n    return 3\n",
    "statistics": "STAT = 5\n",
    "token": "TOK = 5\n",
    "@builtin": "def abs(x: int) -> int:\n    return 1000\n",
    "@lenm": "def len(x: bytes) -> int:\n    return 1000\ndef usel() -> int:\n    return len(b'')\n",
}


def cases(tier):
    th = tier == "thorough"
    n = 0
    lv = ["O2", "O1", "O0", "O3"]

    def cf():
        nonlocal n
        n += 1
        return lv if th else [lv[n % 4]]

    for g, (mods, _) in GRAPHS.items():
        k = len(mods)
        bodies = list(BODY)
        if k == 2:
            combos = itertools.product(bodies, repeat=2)
        elif k == 3:
            small = ["K", "f", "Kf", "g", "h"] + (["Kp", "Kg", "_K"] if th else [])
            combos = itertools.product(small, repeat=3)
        else:
            combos = ((b,) for b in bodies)
        for c in combos:
            for m in MAIN:
                if k == 3 and not th and m not in ("plain", "K after"):
                    continue
                if k == 2 and not th and m in ("K in function", "f before", "K before") and g not in ("two", "chain"):
                    continue
                yield dict(id=f"graph:{g}:{'+'.join(c)}:{m}", fam=g, files=project(g, c, m), cfgs=cf())
    for s, (imp, e) in SPELL.items():
        yield dict(id=f"spell:{s}", fam="spell", files=dict(EXTRA, main=imp + V.format(e=e)), cfgs=lv if th else ["O2", "O1"])
        body = "".join("    " + l + "\n" for l in imp.strip().split("\n"))
        if "star" not in s and "*" not in imp:
            yield dict(id=f"spellf:{s}", fam="spellf", files=dict(EXTRA, main="def validator(i: int) -> int:\n" + body + f"    return {e}\n"), cfgs=cf())


_count = itertools.count()


@contextlib.contextmanager
def scratch(files):
    """writes the files with unique module names, -> (dir, path of main, text of main)"""
    d = tempfile.mkdtemp(prefix="c22_")
    tag = f"m{os.getpid()}_{next(_count)}_"
    path0, mods0 = list(sys.path), set(sys.modules)
    saved = {m: sys.modules.pop(m) for m in ("statistics", "token") if m in sys.modules and m in files}
    try:
        for name, text in files.items():
            p = os.path.join(d, (name.replace("@", tag) if "@" in name else tag + name if len(name) == 1 else name) + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text.replace("@dataclass", "\0").replace("@dc", "\1").replace("@", tag).replace("\0", "@dataclass").replace("\1", "@dc"))
        main = os.path.join(d, "main.py")
        importlib.invalidate_caches()
        yield d, main, open(main).read(), tag
    finally:
        sys.path[:] = path0
        for m in set(sys.modules) - mods0:
            if m.startswith(tag) or m in ("statistics", "token"):
                del sys.modules[m]
        sys.modules.update(saved)
        shutil.rmtree(d)


def forget(tag):
    for m in list(sys.modules):
        if m.startswith(tag) or m in ("statistics", "token"):
            del sys.modules[m]


class Shared:
    """The second oracle: CPython with all modules in one namespace, each
    executed once where it is first star-imported."""

    def __init__(self, d, main, src):
        self.done = set()
        self.d = d
        name = os.path.basename(d) + "_shared"
        m = types.ModuleType(name)
        sys.modules[name] = m
        self.ns = m.__dict__
        try:
            self.run(src, main, d)
        finally:
            del sys.modules[name]

    def find(self, node, here):
        base = here
        if node.level == 0:
            for base in [here, self.d]:
                p = os.path.join(base, *node.module.split("."))
                if os.path.exists(p + ".py") or os.path.exists(p):
                    break
            else:
                return None
        else:
            for _ in range(node.level - 1):
                base = os.path.dirname(base)
            p = os.path.join(base, *node.module.split("."))
        return p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")

    def run(self, src, path, here):
        for st in ast.parse(src).body:
            if isinstance(st, ast.ImportFrom) and [a.name for a in st.names] == ["*"]:
                p = self.find(st, here)
                if p is not None:
                    if p not in self.done:
                        self.done.add(p)
                        self.run(open(p).read(), p, os.path.dirname(p))
                    continue
            exec(compile(ast.Module([st], []), path, "exec", dont_inherit=True), self.ns)


def run_case(case):
    viol, sigs, evals = [], [], 0
    sample = None
    with scratch(case["files"]) as (d, main, src, tag):
        # CPython executes the contract from its own directory
        sys.path.insert(0, d)
        out = io.StringIO()
        m = types.ModuleType(tag + "main")
        sys.modules[m.__name__] = m
        err = None
        try:
            with contextlib.redirect_stdout(out):
                exec(compile(src, main, "exec", dont_inherit=True), m.__dict__)
                v = m.validator(1)
            exp = ("ok", canon_py(v))
        except Exception as e:
            exp, err = ("err",), e
        shared = None
        if exp != ("err",) or isinstance(err, NameError):
            try:
                with contextlib.redirect_stdout(io.StringIO()) as sout:
                    sh = Shared(d, main, src)
                    shared = ("ok", canon_py(sh.ns["validator"](1))), sout
            except Exception as e:
                shared = ("err",), sout
            if shared[0] == exp and exp != ("err",) and shared[1].getvalue() == out.getvalue():
                shared = None
        sys.path.remove(d)
        forget(tag)
        text = "\n".join(f"# {k}\n{v}" for k, v in sorted(case["files"].items()) if not (case["fam"].startswith("spell") and k not in ("main",)))
        for cfg in case["cfgs"]:
            forget(tag)
            importlib.invalidate_caches()
            p0 = list(sys.path)
            try:
                c = config(cfg)
                with contextlib.redirect_stdout(io.StringIO()):
                    tree = compiler.parse(src, filename=main)
                    p = pluthon.compile(compiler.compile(tree, filename=main, config=c), config=c)
            except CpuTimeout:
                raise
            except Exception as e:
                sys.path[:] = p0
                # conflicting definitions may be refused
                if exp[0] == "ok" and shared is None and case["id"] not in golden_rejects(PROP):
                    o = getattr(e, "orig_err", e)
                    viol.append(violation(case, f"[{cfg}] a supported program is rejected: {type(o).__name__}: {str(o)[:200]}", src=text, reject=case["id"]))
                continue
            if os.environ.get("MC_COMPILE_ONLY"):
                continue
            if sys.path != p0:
                viol.append(violation(case, "compiling changes sys.path", src=text))
            got, lg, e = run_uplc(p, [("I", 1)])
            evals += 1
            sigs.append(sig(text, exp, out.getvalue()))
            if shared is not None and got == shared[0] and (cfg == "O3" or "".join(l + "\n" for l in lg) == shared[1].getvalue()):
                # a recorded finding, for exactly this behaviour
                viol.append(violation(dict(id="class:shared-namespace"), f"[{cfg}] {case['id']}: CPython gives {show(exp)}, the inlined modules give {show(got)}", src=text))
                continue
            if got != exp:
                viol.append(violation(case, f"[{cfg}] expected {show(exp)} got {show(got)}", src=text, python=repr(err), machine=repr(e)[:300]))
            elif exp[0] == "ok" and cfg != "O3" and "".join(l + "\n" for l in lg) != out.getvalue():
                viol.append(violation(case, f"[{cfg}] expected output {out.getvalue()!r} got {lg!r}", src=text))
            elif sample is None and exp[0] == "ok":
                sample = dict(program=text, result=show(exp))
    return result(evals, sigs, viol, sample)
