"""C10: compilation is deterministic and independent of history."""
import functools
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import traceback

from ..cli import *
from ..diff import sig
from ..runner import result, violation

PROP = "C10"
LEVEL = "exploration"
CPU_LIMIT = 600
RULE = (
    "State: a process that imported the compiler. Operations: compiling, building, evaluating, linting programs that use every piece of shared state (imports, "
    "same-named modules, integrity checks, methods, closures, failing programs of every pass, redefined names, all levels, the command line, the builder). "
    "All sequences of operations up to a length, run by forking the process at every step; every result (script bytes or diagnostic with its position, and log messages) is compared with the result "
    "in the initial state. All programs of a list in fresh processes under several hash seeds and orders."
)
ASSUMPTIONS = ["a forked process behaves as its parent"]

A = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass()
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
"""
PROGRAMS = {
    # name: (source, level)
    "plain": ("def validator(x: int) -> int:\n    return x * 2 + 1\n", 2),
    "plain0": ("def validator(x: int) -> int:\n    return x * 2 + 1\n", 0),
    "plain3": ("def validator(x: int) -> int:\n    assert x, 'm'\n    return x * 2 + 1\n", 3),
    "union": (A + "def validator(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return u.x\n    return len(u.y)\n", 1),
    "union2": (A.replace("CONSTR_ID = 0", "CONSTR_ID = 5").replace("x: int", "x: bytes") + "def validator(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return len(u.x)\n    return len(u.y)\n", 1),
    "methods": (A + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 2\n    z: int\n    def __add__(self, o: int) -> int:\n        return self.z + o\n    def m(self, k: int) -> int:\n        return k - self.z\ndef validator(x: int) -> int:\n    return (C(x) + 1) + C(2).m(x)\n", 2),
    "methods2": (A + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 2\n    z: int\n    def m(self, k: int) -> int:\n        return k * self.z\n    def n(self) -> int:\n        return self.m(3)\ndef validator(x: int) -> int:\n    return C(2).n() + x\n", 1),
    "noid": (A + "@dataclass()\nclass N(PlutusData):\n    x: int\ndef validator(x: int) -> int:\n    return N(x).CONSTR_ID\n", 1),
    "noid2": (A + "@dataclass()\nclass N(PlutusData):\n    x: bytes\ndef validator(x: bytes) -> int:\n    return N(x).CONSTR_ID\n", 1),
    "integrity": (A + "from opshin.std.integrity import check_integrity\ndef validator(x: A) -> int:\n    check_integrity(x)\n    return x.x\n", 1),
    "integrity2": (A + "from opshin.std.integrity import check_integrity as ci\ndef validator(x: B) -> int:\n    ci(x)\n    return len(x.y)\n", 2),
    "math": ("from opshin.std.math import *\ndef validator(x: int) -> int:\n    return gcd(x, 6) + sign(x)\n", 1),
    "math2": ("from opshin.std.math import *\nfrom opshin.std.builtins import *\ndef validator(x: int) -> int:\n    return gcd(x, 6) + length_of_byte_string(b'')\n", 2),
    "closure": ("def validator(x: int) -> int:\n    def f(a: int) -> int:\n        return g(a) + x\n    def g(a: int) -> int:\n        return a if a < 1 else f(a - 1)\n    return f(x)\n", 1),
    "shadow": ("def len(x: int) -> int:\n    return x + 1\ndef validator(x: int) -> int:\n    return len(x)\n", 2),
    "shadow2": ("def validator(x: bytes) -> int:\n    sum = len(x)\n    def max(a: int) -> int:\n        return a\n    return max(sum)\n", 2),
    "hash": ("from hashlib import sha256 as h\ndef validator(x: bytes) -> bytes:\n    return h(x).digest()\n", 1),
    "hash2": ("from hashlib import blake2b as h\ndef validator(x: bytes) -> bytes:\n    return h(x).digest()\n", 1),
    "tuple": ("def validator(x: int) -> int:\n    a, b = (x, 2)\n    for i, j in {1: x}.items():\n        a += j\n    return a * b\n", 2),
    "dicts": ("from typing import Dict, List\ndef validator(d: Dict[int, bytes]) -> List[int]:\n    return [k for k in d.keys() if d[k] != b''] + [1, 2]\n", 2),
    "warn": ("def validator(x: bytes) -> int:\n    return len(x + b'00')\n", 1),
    # refused by different passes
    "bad_type": ("def validator(x: int) -> int:\n    y = x + b''\n    return y\n", 1),
    "bad_deep": ("def validator(x: int) -> int:\n    def f(a: int) -> int:\n        if a == 0:\n            for i in [1]:\n                z = undefined\n        return 1\n    return f(x)\n", 2),
    "bad_union": (A + "@dataclass()\nclass D(PlutusData):\n    CONSTR_ID = 0\n    x: int\ndef validator(u: Union[A, D]) -> int:\n    return 1\n", 1),
    "bad_isinst": (A + "def validator(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return u.y\n    return 1\n", 1),
    "bad_import": ("from opshin.std.not_there import *\ndef validator(x: int) -> int:\n    return x\n", 1),
    "bad_method": (A + "@dataclass()\nclass C(PlutusData):\n    CONSTR_ID = 2\n    z: int\n    def m(self, k: int) -> int:\n        return self.q\ndef validator(x: int) -> int:\n    return C(2).m(x)\n", 1),
    "bad_typing": ("from typing import Tuple, Optional\ndef validator(x: int) -> int:\n    return x\n", 1),
    "bad_integrity": (A + "from opshin.std.integrity import check_integrity\ndef validator(x: int) -> int:\n    check_integrity(x)\n    return x\n", 1),
    "bad_return": ("def validator(x: int) -> int:\n    if x:\n        return 1\n", 2),
    "bad_codegen": ("def validator(x: int) -> int:\n    y: int\n    return x\n", 1),
    "bad_overwrite": ("from typing import List\nList = 3\ndef validator(x: int) -> int:\n    return x\n", 1),
    "bad_closure": ("def validator(x: int) -> int:\n    def f(a: int) -> int:\n        return later(a)\n    return f(x)\n", 1),
}
HELPER = "def helper(x: int) -> int:\n    return x + {n}\n"
FILES = {
    "one/contract.py": "from mch_helper import *\ndef validator(x: int) -> int:\n    return helper(x)\n",
    "one/mch_helper.py": HELPER.format(n=1),
    "two/contract.py": "from mch_helper import *\ndef validator(x: int) -> int:\n    return helper(x)\n",
    "two/mch_helper.py": HELPER.format(n=2),
    "three/contract.py": "from mch_pkg.mod import *\ndef validator(x: int) -> int:\n    return helper(x)\n",
    "three/mch_pkg/__init__.py": "",
    "three/mch_pkg/mod.py": "from .other import *\ndef helper(x: int) -> int:\n    return other(x)\n",
    "three/mch_pkg/other.py": "def other(x: int) -> int:\n    return x * 3\n",
    "four/contract.py": "from mch_helper import *\ndef validator(x: int) -> int:\n    return helper(b'')\n",
    "four/mch_helper.py": HELPER.format(n=4),
    "plain.py": "from opshin.prelude import *\ndef validator(a: int, c: ScriptContext) -> None:\n    assert a == 1\n",
    "lib.py": "def validator(a: int) -> int:\n    return a + 1\n",
    "bad.py": "def validator(a: int) -> int:\n    return a + b''\n",
}
SHAPES = """from opshin.prelude import *
from opshin.builder import *
"""


def flat_of(c):
    return hashlib.sha256(flatten_program(pluthon.compile(c, config=config("O1")))).hexdigest()[:20]


def flatten_program(p):
    from uplc import flatten

    return flatten(p)


def op_program(d, k):
    src, lvl = PROGRAMS[k]
    r = compile_src(src, config(f"O{lvl}"))
    if r[0] == "reject":
        return ("reject",) + tuple(map(str, r[1:]))
    return ("ok", hashlib.sha256(r[1] if isinstance(r[1], bytes) else flatten_program(r[1])).hexdigest())


def op_twice(d, k):
    """the same AST object is compiled twice"""
    src, lvl = PROGRAMS[k]
    t = compiler.parse(src, filename="f.py")
    out = []
    for _ in range(2):
        try:
            out.append(compiler.compile(t, filename="f.py", config=config(f"O{lvl}")).dumps())
        except Exception as e:
            out.append(str(getattr(e, "orig_err", e)))
    return ("ok", hashlib.sha256(out[0].encode()).hexdigest())


def op_file(d, k):
    path = os.path.join(d, k)
    with open(path) as f:
        src = f.read()
    try:
        c = compiler.compile(compiler.parse(src, filename=path), filename=path, config=config("O1"))
    except Exception as e:
        e = getattr(e, "orig_err", e)
        return ("reject", type(e).__name__, str(e).replace(d, "DIR"))
    return ("ok", hashlib.sha256(flatten_program(pluthon.compile(c, config=config("O1")))).hexdigest())


def op_build(d, k):
    from opshin import builder

    try:
        c = builder.build(os.path.join(d, k))
    except Exception as e:
        e = getattr(e, "orig_err", e)
        return ("reject", type(e).__name__, str(e).replace(d, "DIR"))
    return ("ok", hashlib.sha256(bytes(c)).hexdigest())


def op_apply(d, k):
    from opshin import builder

    out = [bytes(builder.build(os.path.join(d, "lib.py"), *([3] if n else []))) for n in (1, 0, 1)]

    return ("ok", hashlib.sha256(b"|".join(out)).hexdigest())


def op_cli(d, k):
    argv = {
        "compile": ["compile", "lib.py", "--lib=validator"],
        "compile3": ["compile", "lib.py", "--lib=validator", "-O3"],
        "eval": ["eval", "lib.py", '{"int": 3}', "--lib=validator"],
        "eval_uplc": ["eval_uplc", "lib.py", '{"int": 3}', "--lib=validator", "-fno-constant-folding"],
        "lint": ["lint", "bad.py", "--lib=validator", "--output-format-json"],
        "contract": ["compile", "plain.py", "--parameters=1"],
    }[k]
    argv[1] = os.path.join(d, argv[1])
    out, exc = cli(argv)
    return ("cli", out.replace(d, "DIR"), repr(exc).replace(d, "DIR").replace("\\x08", ""))


def op_schema(d, k):
    from opshin import builder

    ns = {}
    exec(compile(PROGRAMS[k][0], "s", "exec", dont_inherit=True), ns)
    return ("ok", json.dumps([builder.to_plutus_schema(ns[c]) for c in ("A", "B")]))


def op_run(d, k):
    """evaluates a compiled program on the machine"""
    r = compile_src(PROGRAMS[k][0], config("O1"))
    return ("ok", [repr(run_uplc(r[1], [("I", n)])[0]) for n in (0, 3)])


OPS = [("program", k) for k in PROGRAMS]
OPS += [("file", f"{n}/contract.py") for n in ("one", "two", "three", "four")]
OPS += [("build", k) for k in ("one/contract.py", "two/contract.py", "lib.py", "bad.py")]
OPS += [("cli", k) for k in ("compile", "compile3", "eval", "eval_uplc", "lint")]
OPS += [("schema", "union"), ("schema", "union2"), ("run", "closure"), ("twice", "methods"), ("twice", "bad_deep")]
# the operations of the histories of length 3
DEEP = [("program", k) for k in ("methods2", "union2", "bad_deep", "bad_method", "shadow", "hash2", "integrity2")] + [("file", "two/contract.py"), ("build", "one/contract.py"), ("cli", "lint")]


def name(op):
    return "=".join(op)


def in_child(f):
    """run f in a forked process and return its (picklable) result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = f()
            except BaseException:
                v = ("crash", traceback.format_exc()[-800:])
            with os.fdopen(w, "wb") as fp:
                pickle.dump(v, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("crash", "no answer")


def perform(d, op):
    """-> result of the operation and its log messages, in this process"""
    logs = []

    class H(logging.Handler):
        def emit(self, record):
            logs.append((record.levelname, record.getMessage()))

    h = H(logging.WARNING)
    OU.OPSHIN_LOGGER.addHandler(h)
    OU.OPSHIN_LOGGER.propagate = False
    logging.disable(logging.NOTSET)
    try:
        r = globals()["op_" + op[0]](d, op[1])
    except Exception as e:
        r = ("exception", type(e).__name__, str(e).replace(d, "DIR"))
    finally:
        logging.disable(logging.CRITICAL)
        OU.OPSHIN_LOGGER.removeHandler(h)
    return (r, tuple(logs))


def state():
    """a fingerprint of the mutable state of the compiler's modules"""
    out = []
    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] not in ("opshin", "pluthon", "uplc"):
            continue
        for k, v in sorted(vars(m).items()):
            if isinstance(v, (dict, list, set)) and not k.startswith("__"):
                out.append((n, k, len(v)))
            elif hasattr(v, "cache_info"):
                out.append((n, k, str(v.cache_info())))
            elif isinstance(v, type) and v.__module__ == n:
                for a, x in sorted(vars(v).items()):
                    if isinstance(x, (dict, list, set, int)) and not a.startswith("__"):
                        out.append((n, k, a, len(x) if hasattr(x, "__len__") else x))
    out += [("path", len(sys.path)), ("rec", sys.getrecursionlimit()), ("modules", sorted(m for m in sys.modules if m.startswith("mch_")))]
    return hashlib.md5(repr(out).encode()).hexdigest()


_dir = None
_ref = {}


def scratch():
    global _dir
    if _dir is None:
        import atexit

        _dir = tempfile.mkdtemp(prefix="mch")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_dir, ignore_errors=True))
    for k, v in FILES.items():
        p = os.path.join(_dir, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write(v)
    return _dir


def reference(d, op):
    if op not in _ref:
        _ref[op] = in_child(lambda: perform(d, op))
    return _ref[op]


def walk(d, prefix, depth, ops, refs):
    """runs prefix[-1] in this process, then every continuation in forks -> steps, mismatches, states"""
    got = perform(d, prefix[-1])
    steps, bad, states = 1, [], {state()}
    if got != refs[prefix[-1]]:
        bad.append(([name(o) for o in prefix], got, refs[prefix[-1]]))
    if len(prefix) < depth:
        for o in ops:
            r = in_child(lambda: walk(d, prefix + [o], depth, ops, refs))
            if r[0] == "crash":
                bad.append(([name(x) for x in prefix + [o]], r[1], "an answer"))
                continue
            steps += r[0]
            bad += r[1]
            states |= r[2]
    return steps, bad, states


def compilable():
    """programs of the other properties"""
    import importlib

    out = []
    for m in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c20", "c23", "c25", "c26", "c27"):
        try:
            mod = importlib.import_module(f"..{m}", __name__)
        except ImportError:
            continue
        srcs = [(c["id"], c["src"]) for c in mod.cases("quick") if "src" in c]
        out.append((m, srcs))
    return out


@functools.lru_cache(maxsize=None)
def seedlist(n):
    out = []
    for m, srcs in compilable():
        step = max(1, len(srcs) // n)
        out += [(f"{m}:{i}", s) for i, s in srcs[step // 2 :: step][:n]]
    out += [(f"own:{k}", v[0]) for k, v in PROGRAMS.items()]
    from . import c24

    for i, k in enumerate(c24.KINDS):
        out.append((f"c24:{k}", c24.put(c24.HDR + c24.PLACE[list(c24.PLACE)[i % len(c24.PLACE)]], *c24.KINDS[k])[0]))
    for k in c24.DEFS:
        out.append((f"c24d:{k}", c24.put(c24.HDR + c24.TOP["between"], c24.DEFS[k], None)[0]))
    return out


SEEDS = 60
CHUNK = 1


def cases(tier):
    th = tier == "thorough"
    for o in OPS:
        yield dict(id=f"hist:2:{name(o)}", fam="hist", op=list(o), depth=2, deep=False)
    for o in OPS if th else DEEP:
        yield dict(id=f"hist:3:{name(o)}", fam="hist", op=list(o), depth=3, deep=not th)
    for o in (DEEP if th else []):
        yield dict(id=f"hist:4:{name(o)}", fam="hist", op=list(o), depth=4, deep=True)
    n = 60 if th else 8
    total = len(seedlist(n))
    for s in range(8 if th else 2):
        for i in range(0, total, SEEDS):
            yield dict(id=f"seed:{s}:{i}", fam="seed", seed=s, start=i, n=n)
    yield dict(id="edited:helper", fam="edited", what="helper")
    yield dict(id="edited:contract", fam="edited", what="contract")
    yield dict(id="edited:moved", fam="edited", what="moved")


def do_hist(case):
    d = scratch()
    ops = DEEP if case["deep"] else OPS
    op = tuple(case["op"])
    refs = {o: reference(d, o) for o in set(ops) | {op}}
    viol = []
    r = in_child(lambda: walk(d, [op], case["depth"], ops, refs))
    if r[0] == "crash":
        return result(1, [], [violation(case, r[1])], None)
    steps, bad, states = r
    for hist, got, want in bad[:3]:
        viol.append(violation(case, f"after {' ; '.join(hist[:-1]) or 'nothing'}: {hist[-1]} gives {got} instead of {want}"[:900], history=hist))
    return result(steps, [sig("hist", name(op), case["depth"], i) for i in range(steps)], viol, dict(first=name(op), operations=[name(o) for o in ops], length=case["depth"], states=len(states)), transitions=steps, states=len(states))


CHILD = """
import sys, json
sys.path[:0] = json.loads(sys.argv[2])
from mc.props import c10
print("RESULT" + json.dumps(c10.child(int(sys.argv[1]), json.load(sys.stdin))))
"""


def child(seed, keys):
    k = (seed * 17) % max(1, len(keys))
    keys = keys[k:] + keys[:k]
    if seed % 2:
        keys.reverse()
    out = {}
    lvls = ("O2", "O1", "O3", "O0")
    for i, (k, src) in enumerate(keys):
        lvl = lvls[int(hashlib.md5(k.encode()).hexdigest(), 16) % 4]
        logs = []

        class H(logging.Handler):
            def emit(self, record):
                logs.append(record.getMessage())

        h = H(logging.WARNING)
        OU.OPSHIN_LOGGER.addHandler(h)
        OU.OPSHIN_LOGGER.propagate = False
        logging.disable(logging.NOTSET)
        try:
            r = compile_src(src, config(lvl))
        finally:
            logging.disable(logging.CRITICAL)
            OU.OPSHIN_LOGGER.removeHandler(h)
        out[k] = [list(map(str, r)) if r[0] == "reject" else hashlib.sha256(flatten_program(r[1])).hexdigest(), logs]
    return out


def do_seed(case):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    repo = os.path.dirname(os.path.dirname(os.path.abspath(opshin.__file__)))

    keys = seedlist(case["n"])[case["start"] : case["start"] + SEEDS]

    def run(seed, hashseed):
        p = subprocess.run(
            [sys.executable, "-c", CHILD, str(seed), json.dumps([root, repo])],
            input=json.dumps(keys),
            capture_output=True,
            text=True,
            env={**os.environ, "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1"},
            timeout=800,
        )
        l = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        return json.loads(l[0][6:]) if l else p.stderr[-400:]

    a, b = run(0, "0"), run(case["seed"] + 1, str(case["seed"] * 7919 + 12345))
    if isinstance(a, str) or isinstance(b, str):
        return result(1, [], [violation(case, f"child failed: {a if isinstance(a, str) else b}")], None)
    viol = []
    srcs = dict(keys)
    for k in a:
        if a[k] != b.get(k):
            viol.append(violation(case, f"{k}: {a[k]} and {b.get(k)}"[:700], src=srcs[k]))
    return result(len(a) * 2, [sig("seed", case["seed"], k) for k in a], viol[:5], None, processes=2)


def do_edited(case):
    """files are changed between two builds in the same process"""
    d = tempfile.mkdtemp(prefix="mched")
    try:

        def write(n, text):
            with open(os.path.join(d, n), "w") as f:
                f.write(text)

        tag = "mcx" + hashlib.md5(d.encode()).hexdigest()[:8]
        con = f"from {tag} import *\ndef validator(x: int) -> int:\n    return helper(x)\n"

        def first():
            write("c.py", con)
            write(tag + ".py", HELPER.format(n=1))
            op_build(d, "c.py")
            sys.modules.pop(tag, None)

        def second():
            write("c.py", con)
            if case["what"] == "helper":
                write(tag + ".py", HELPER.format(n=100))
            elif case["what"] == "contract":
                write("c.py", con.replace("helper(x)", "helper(x) - 5"))
            else:
                write(tag + ".py", HELPER.format(n=100))
                os.rename(os.path.join(d, "c.py"), os.path.join(d, "c2.py"))
            return op_build(d, "c2.py" if case["what"] == "moved" else "c.py")

        def both():
            first()
            return second()

        got = in_child(both)
        if case["what"] != "helper":
            for f in os.listdir(d):
                if f.endswith(".py") and f != tag + ".py":
                    os.unlink(os.path.join(d, f))
        write(tag + ".py", HELPER.format(n=1))
        want = in_child(second)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    viol = []
    if got != want or got[0] != "ok":
        viol.append(violation(case, f"after an earlier build: {got}, instead of {want}"))
    return result(2, [sig("edited", case["what"])], viol, None)


def run_case(case):
    return globals()["do_" + case["fam"]](case)
