"""C18: the command line tool, the library and the script agree."""
import contextlib
import io
import json
import os
import subprocess
import sys

import uplc

from ..alpha import HDR, SRCVALS
from ..cli import *
from ..diff import sig
from ..engine import *
from ..runner import result, violation

from opshin import builder
from opshin.compiler_config import DEFAULT_CONFIG, OPT_CONFIGS, CompilationConfig

PROP = "C18"
LEVEL = "exploration"
CPU_LIMIT = 600
RULE = (
    "Part 1: every parameter type of an alphabet (depth 2 quick, 3 thorough) x every value of every type of it (members and "
    "non-members) x five spellings (JSON, indented JSON, canonical, definite-length and upper-case CBOR), parsed by the "
    "command line tool: members have to become exactly that value, others have to be refused. Part 2: contracts and "
    "library functions x values x spellings x commands (eval, eval_uplc, compile and evaluate, build, load and evaluate) x optimisation levels "
    "x input from file or stdin, the whole output compared with CPython and with the builder. Part 3: malformed arguments, "
    "wrong numbers of arguments and wrong contracts fail. Part 4: the same commands in a fresh process."
)
ASSUMPTIONS = ["pycardano parses records (it drops fields beyond the declared ones, and refuses byte fields beyond 64 bytes of another type than ByteString); such inputs are left out", "CPython and the uplc CEK machine, uplc's text parser and json/cbor2 are correct"]

CLS = {"A": (0, ["int"]), "B": (1, ["bytes", "List[int]"]), "E": (2, []), "N": (3, ["A", "Union[A, B]", "Dict[int, bytes]"])}


def targs(t):
    out, depth, cur = [], 0, ""
    for ch in t[t.index("[") + 1 : -1]:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def member(t, d):
    if t == "Anything":
        return True
    if t == "None":
        return d == ("C", 0, ())
    if t == "int":
        return d[0] == "I"
    if t == "bool":
        return d in (("I", 0), ("I", 1))
    if t == "bytes":
        return d[0] == "B"
    if t == "str":
        try:
            return d[0] == "B" and d[1].decode() is not None
        except UnicodeDecodeError:
            return False
    if t.startswith("List["):
        return d[0] == "L" and all(member(targs(t)[0], x) for x in d[1])
    if t.startswith("Dict["):
        k, v = targs(t)
        return d[0] == "M" and all(member(k, a) and member(v, b) for a, b in d[1])
    if t.startswith("Union["):
        return any(member(x, d) for x in targs(t))
    tag, fs = CLS[t]
    return d[0] == "C" and d[1] == tag and len(d[2]) == len(fs) and all(member(f, x) for f, x in zip(fs, d[2]))


ATOMS = ["int", "bytes", "str", "bool", "None", "A", "B", "E", "N", "Anything"]
UNIONS = ["Union[A, B]", "Union[int, bytes]", "Union[A, int]", "Union[A, E, int, bytes]", "Union[A, List[Anything]]", "Union[bytes, Dict[Anything, Anything]]", "Union[int, List[Anything], Dict[Anything, Anything]]"]
T1 = ATOMS + UNIONS
T2 = [f"List[{t}]" for t in T1] + [f"Dict[{k}, {v}]" for k, v in [("int", "int"), ("int", "bytes"), ("bytes", "A"), ("str", "bool"), ("int", "None"), ("A", "int"), ("bytes", "Union[A, B]"), ("int", "Anything"), ("int", "str")]]
T3 = [f"List[{t}]" for t in T2] + [f"Dict[int, {t}]" for t in T2]

VALS = [
    *[("I", i) for i in (0, 1, 2, -1, 255, 2**63, -(2**64) - 1, 2**200)],
    *[("B", b) for b in (b"", b"a", b"\xff\xfe", "\u00e9".encode(), b"q" * 64, b"q" * 65, b"q" * 130, b"{", b"\x18")],
    ("C", 0, ()),
    ("C", 0, (("I", 5),)),
    ("C", 0, (("I", -3),)),
    ("C", 0, (("B", b"a"),)),
    EXTRA := ("C", 0, (("I", 5), ("I", 6))),
    ("C", 1, (("B", b"x"), ("L", ()))),
    ("C", 1, (("B", b"x" * 70), ("L", (("I", 1), ("I", 2))))),
    ("C", 1, (("B", b"x"), ("L", (("B", b"1"),)))),
    ("C", 1, (("B", b"x"), ("I", 1))),
    ("C", 2, ()),
    ("C", 3, (("C", 0, (("I", 5),)), ("C", 1, (("B", b"x"), ("L", ()))), ("M", ((("I", 1), ("B", b"z")),)))),
    ("C", 3, (("C", 0, (("I", 5),)), ("C", 0, (("I", 6),)), ("M", ()))),
    ("C", 3, (("C", 0, (("I", 5),)), ("C", 2, ()), ("M", ()))),
    ("C", 6, ()),
    ("C", 7, (("I", 1),)),
    ("C", 128, (("I", 1),)),
    ("C", 1000, (("L", ()),)),
]
V2 = [("L", ()), ("M", ()), ("L", (("I", 0), ("I", 1))), ("L", (("I", 1), ("B", b"a"))), ("M", ((("I", 1), ("I", 2)), (("I", 3), ("I", 1)))), ("M", ((("B", b"k"), ("C", 0, (("I", 4),))),)), ("M", ((("B", b"k"), ("I", 1)),)), ("M", ((("C", 0, (("I", 1),)), ("I", 1)),)), ("M", ((("I", 3), ("C", 0, ())),)), ("M", ((("I", 3), ("B", b"v")), (("I", 1), ("B", b"w")))), ("M", ((("B", b"k"), ("C", 1, (("B", b""), ("L", ())))),))] + [
    ("L", (v,)) for v in VALS
]
V3 = [("L", (v,)) for v in V2[:8] + V2[11:16]] + [("M", ((("I", 1), v),)) for v in V2[:8] + VALS[8:12]]

BODY = {
    "id": ("", "p"),
    "str": (" -> str", "str(p)"),
    "fstr": (" -> str", "f'{p}|'"),
    "eq": (" -> bool", "p == p"),
}

FULL = "from opshin.prelude import *\n"
CTXT = """from opshin.ledger.api_v3 import *
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: List[int]
"""
OUTREF = ("C", 0, (("B", b"\x01" * 32), ("I", 2)))


def ctx(redeemer=("I", 7)):
    """a minimal V3 script context for spending"""
    lo = ("C", 0, (("C", 0, ()), ("C", 1, ())))
    hi = ("C", 0, (("C", 2, ()), ("C", 1, ())))
    empty, m = ("L", ()), ("M", ())
    tx = ("C", 0, (empty, empty, empty, ("I", 0), m, empty, m, ("C", 0, (lo, hi)), empty, m, m, ("B", b"\x02" * 32), m, empty, ("C", 1, ()), ("C", 1, ())))
    return ("C", 0, (tx, redeemer, ("C", 1, (OUTREF,))))


CONTRACTS = {
    # name: (parameter types, argument values lists, body)
    "plain": ([], [[]], "    print('in')\n    assert isinstance(context.purpose, Spending)\n"),
    "fails": ([], [[]], "    print('one')\n    print('two')\n    assert isinstance(context.purpose, Minting), 'no minting'\n"),
    "redeemer": ([], [[]], "    r: int = context.redeemer\n    print(str(r))\n    assert r == 7, 'seven'\n"),
    "p1": (["int"], [[("I", 7)], [("I", 8)]], "    r: int = context.redeemer\n    print(f'{a} {r}')\n    assert r == a, 'differs'\n"),
    "p2": (["A", "bytes"], [[("C", 0, (("I", 3),)), ("B", b"abc")], [("C", 0, (("I", 4),)), ("B", b"abc")]], "    print(str(a))\n    print(str(b))\n    assert a.x == len(b)\n"),
    "p3": (["Union[A, B]", "List[int]", "Dict[int, bytes]"], [[("C", 1, (("B", b"q"), ("L", (("I", 2),)))), ("L", (("I", 1), ("I", 2))), ("M", ((("I", 2), ("B", b"q")),))], [("C", 0, (("I", 2),)), ("L", ()), ("M", ())]], "    if isinstance(a, B):\n        print(f'{len(a.y)}')\n        assert c[a.z[0]] == a.y\n    else:\n        print(str(a.x))\n        assert len(b) == a.x, 'len'\n"),
}


def cases(tier):
    th = tier == "thorough"
    lvls = [0, 1, 2, 3]
    for n in CONTRACTS:
        for l in lvls if th else [0, 2] if n == "plain" else [2, 3] if n in ("p1", "p3") else [1]:
            yield dict(id=f"contract:{n}:O{l}", fam="contract", c=n, lvl=l, full=th or n == "plain", short=not th)
    for n in CONTRACTS:
        yield dict(id=f"counts:{n}", fam="counts", c=n)
    for i, t in enumerate(T1 + T2 + (T3 if th else T3[::5])):
        yield dict(id=f"parse:{t}", fam="parse", t=t)
    types = T1 + (T2 if th else T2[::3])
    for i, t in enumerate(types):
        for j, fn in enumerate(BODY):
            if fn != "id" and any(w in t for w in ("Anything",)) or fn == "eq" and (t.startswith("Union") or "Dict" in t or t in ("N",)):
                continue
            if not th and (i + j) % 2:
                continue
            for l in lvls if th else [(i // 2 + j) % 4]:
                yield dict(id=f"lib:{fn}:{t}:O{l}", fam="lib", t=t, fn=fn, lvl=l, stdin=(i + j) % 3 == 0, full=th)
    for b in BAD:
        yield dict(id=f"bad:{b}", fam="bad", b=b)
    for n in NAMES:
        yield dict(id=f"names:{n}", fam="names", n=n)
    for n in STRINGS:
        yield dict(id=f"string:{n}", fam="string", s=n)
    for n in PROC if th else PROC[:4]:
        yield dict(id=f"proc:{n[0]}:{n[1]}", fam="proc", c=n[0], cmd=n[1])


_mods = {}


def module(src):
    if src not in _mods:
        if len(_mods) > 30:
            _mods.popitem()[1].close()
        _mods[src] = PyProg(src)
    return _mods[src]


def shapes(d):
    yield d
    if d[0] == "L":
        for x in d[1]:
            yield from shapes(x)
    elif d[0] == "M":
        for k, v in d[1]:
            yield from shapes(k)
            yield from shapes(v)
    elif d[0] == "C":
        for x in d[2]:
            yield from shapes(x)


def outside(t, d):
    """inputs which pycardano, not OpShin, mistreats"""
    for x in shapes(d):
        if x[0] == "C" and any(f[0] == "B" and len(f[1]) > 64 for f in x[2]):
            return True  # record fields need the type ByteString for this
        if x == EXTRA and any(w in t for w in ("A", "N")):
            return True  # more fields than declared are dropped silently
        if x[0] == "M" and "Anything" in t and any(k[0] == "C" for k, _ in x[1]):
            return True  # raw constructors are not hashable
    return False


def parse_case(case):
    t = case["t"]
    prog = PyProg(HDR + f"def validator(p: {t}):\n    return p\n")
    viol, sigs, evals = [], [], 0
    sample = None
    try:
        ann = list(__import__("inspect").signature(prog.ns["validator"]).parameters.values())[0].annotation
        vals = VALS + V2 + (V3 if t in T3 else V3[::6])
        for d in vals:
            exp = member(t, d)
            if outside(t, d):
                continue
            for sp, text in spellings(d).items():
                evals += 1
                try:
                    u = canon_uplc(M.parse_uplc_param(text))
                    ok = True
                except ValueError as e:
                    u, ok = e, False
                if not ok or u != d:
                    viol.append(violation(case, f"{sp} {text[:100]} as UPLC data: {u!r}", type=t))
                    continue
                try:
                    v = M.parse_plutus_param(ann, text)
                    c = canon_py(v)
                    # a test of the repository pins None as the answer of
                    # parse_plutus_param for data that is no str; the command
                    # line refuses it (see the "bad" cases)
                    ok = not (v is None and t in ("bool", "str"))
                    if ok and t in ("bool", "str", "int", "bytes", "None") and type(v).__name__ not in (t, "NoneType"):
                        ok, c = True, ("type", type(v).__name__)
                    if not well_typed(t, v, prog.ns):
                        c = ("type", repr(v)[:80])
                except ValueError as e:
                    ok, c = False, str(e)[:100]
                except CpuTimeout:
                    raise
                except Exception as e:
                    ok, c = None, repr(e)[:100]
                if exp and not (ok and c == d):
                    viol.append(violation(case, f"{sp} {text[:100]!r} is a {t} but is parsed to {show(c)}", type=t, text=text))
                elif not exp and ok:
                    viol.append(violation(case, f"{sp} {text[:100]!r} is no {t} but is parsed to {show(c)}", type=t, text=text))
                else:
                    sigs.append(sig(t, d, sp))
                    if exp and sample is None:
                        sample = dict(type=t, text=text, value=repr(v)[:80])
    finally:
        prog.close()
    return result(evals, sigs, viol, sample, parsed=evals)


def well_typed(t, v, ns):
    """the Python object is an instance of its annotation"""
    if t == "Anything":
        return True
    if t == "None":
        return v is None
    if t in ("int", "bytes", "bool", "str"):
        return type(v).__name__ == t
    if t.startswith("List["):
        return isinstance(v, list) and all(well_typed(targs(t)[0], x, ns) for x in v)
    if t.startswith("Dict["):
        k, w = targs(t)
        return isinstance(v, dict) and all(well_typed(k, a, ns) and well_typed(w, b, ns) for a, b in v.items())
    if t.startswith("Union["):
        return any(well_typed(x, v, ns) for x in targs(t))
    return type(v) is ns[t]


def cfg_of(lvl, **kw):
    return DEFAULT_CONFIG.update(OPT_CONFIGS[lvl]).update(CompilationConfig(**kw))


def script_eval(text):
    """what the printed script evaluates to"""
    r = uplc.eval(uplc.parse(text))
    return r


def outcome_of(r):
    if isinstance(r.result, Exception):
        return ("err",), list(r.logs)
    return ("ok", canon_uplc(r.result)), list(r.logs)


def parse_eval_output(out, command):
    """-> (outcome, logs, python text) or a complaint; the format is fixed"""
    lines = out.split("\n")
    i = 0
    if command == "eval":
        if lines[i] != "Python execution started":
            return "no 'Python execution started' line"
        i += 1
    if lines[i : i + 2] != ["UPLC execution started", "------LOGS--------"]:
        return f"unexpected lines {lines[i:i+2]}"
    i += 2
    logs = []
    if lines[i] == "No logs":
        i += 1
    else:
        while lines[i].startswith(" > "):
            logs.append(lines[i][3:])
            i += 1
    if lines[i] != "------COST--------" or not lines[i + 1].startswith("CPU: "):
        return f"unexpected lines {lines[i:i+2]}"
    i += 2
    rest = "\n".join(lines[i + 1 :])
    if not rest.endswith("\n"):
        return "no final newline"
    rest = rest[:-1]
    py = None
    if command == "eval":
        k = rest.rfind(" (Python: ") if rest.count(" (Python: ") == 1 else rest.find(" (Python: ")
        if k < 0 or not rest.endswith(")"):
            return "no Python result"
        rest, py = rest[:k], rest[k + len(" (Python: ") : -1]
    if lines[i] == "-----SUCCESS------":
        try:
            return ("ok", canon_uplc(uplc.parse(f"(program 1.0.0 {rest})").term)), logs, py
        except Exception as e:
            return f"result {rest[:100]!r} is no UPLC value: {e!r}"
    if lines[i] == "----EXCEPTION-----":
        return ("err",), logs, py
    return f"unexpected line {lines[i]}"


def check_command(case, viol, argv, stdin, command, exp, explogs, exppy, what):
    """run one evaluating command and compare its whole output"""
    out, exc = cli(argv, stdin)
    if exc is not None:
        viol.append(violation(case, f"{what}: failed with {exc!r}"[:400], argv=argv))
        return
    if command == "compile":
        try:
            got, logs = outcome_of(script_eval(out))
        except Exception as e:
            viol.append(violation(case, f"{what}: the printed script can not be evaluated: {e!r}"[:300], argv=argv))
            return
        py = None
    else:
        p = parse_eval_output(out, command)
        if isinstance(p, str):
            viol.append(violation(case, f"{what}: {p}", argv=argv, out=out[-2000:]))
            return
        got, logs, py = p
    if got != exp:
        viol.append(violation(case, f"{what}: expected {show(exp)} got {show(got)}", argv=argv))
    elif explogs is not None and logs != explogs:
        viol.append(violation(case, f"{what}: expected logs {explogs} got {logs}", argv=argv))
    elif command == "eval" and exppy is not None and py != exppy:
        viol.append(violation(case, f"{what}: expected Python result {exppy!r} got {py!r}", argv=argv))


def lib_case(case):
    t, fn, lvl = case["t"], case["fn"], case["lvl"]
    ret, expr = BODY[fn]
    src = HDR + f"def validator(p: {t}, q: int){ret}:\n    print('q' + str(q))\n    assert q > 0, 'positive'\n    return {expr}\n"
    viol, sigs, evals = [], [], 0
    sample = None
    prog = PyProg(src)
    ev = eval(f"validator.__annotations__['p']", prog.ns)
    try:
        c = compile_src(src, cfg_of(lvl, wrap_output=True))
        if c[0] == "reject":
            return result(0, [], [], None, programs_rejected=1)
        vals = [d for d in VALS + V2 + V3 if member(t, d) and not outside(t, d)]
        vals = vals if case["full"] else vals[:2] + vals[2::6]
        vals = [d for d in vals if t != "Anything" or d[0] != "C" or d[1] < 128]
        with Files() as f:
            path = f.write("contract.py", src)
            for n, d in enumerate(vals):
                for m, q in enumerate((("I", 3), ("I", 0)) if n == 0 else (("I", 2**70),)):
                    sp = list(spellings(d))
                    s1 = sp[(n + m) % len(sp)]
                    text = [spellings(d)[s1], spellings(q)[sp[n % 5]]]
                    o, pylog, e = prog.call([M.parse_plutus_param(ev, text[0]), q[1]])
                    explogs = pylog.split("\n")[:-1] + ([str(e)] if isinstance(e, AssertionError) else [])
                    with contextlib.redirect_stdout(io.StringIO()):
                        try:
                            exppy = str(prog.ns["validator"](M.parse_plutus_param(ev, text[0]), q[1]))
                        except Exception as e:
                            exppy = str(e)
                    lib = builder._compile(src, *[data_to_uplc(x) for x in (d, q)], config=cfg_of(lvl, wrap_output=True))
                    got, logs = outcome_of(uplc.eval(lib))
                    if lvl == 3:
                        explogs = logs  # traces are dropped deliberately
                    if got != o or logs != explogs:
                        viol.append(violation(case, f"builder: expected {show(o)} {explogs} got {show(got)} {logs}", args=text))
                        continue
                    for k, command in enumerate(("eval", "eval_uplc", "compile")):
                        use_stdin = case["stdin"] and k == n % 3
                        argv = [command, "-" if use_stdin else path, *text, "--lib", "validator", "-fwrap-output", f"-O{lvl}"]
                        if (n + k) % 2:
                            argv = [command, f"-O{lvl}", "--wo", "--lib=validator", "-" if use_stdin else path, *text]
                        evals += 1
                        check_command(case, viol, argv, src if use_stdin else None, command, o, explogs, exppy, f"{command} {s1}")
                        sigs.append(sig(t, fn, lvl, d, q, command))
                        if sample is None:
                            sample = dict(argv=argv[:1] + argv[2:], result=show(o), python=exppy)
    finally:
        prog.close()
    return result(evals, sigs, viol, sample, commands=evals)


def contract_src(c, name="validator", full=False):
    ts, _, body = CONTRACTS[c]
    ps = "".join(f"{n}: {t}, " for n, t in zip("abc", ts))
    return (FULL if full else "") + CTXT + f"def {name}({ps}context: ScriptContext) -> None:\n{body}"


def contract_case(case):
    lvl = case["lvl"]
    ts, argsets, _ = CONTRACTS[case["c"]]
    src = contract_src(case["c"], full=case["full"])
    prog = PyProg(src)
    viol, sigs, evals = [], [], 0
    sample = None
    try:
        with Files() as f:
            path = f.write("contract.py", src)
            for n, args in enumerate(argsets):
                for m, cx in enumerate((ctx(), ctx(("I", 8)))):
                    data = list(args) + [cx]
                    sp = list(spellings(cx))[(n * 2 + m) % 5]
                    texts = [spellings(d)[sp] for d in data]
                    anns = [eval(f"validator.__annotations__[{k!r}]", prog.ns) for k in list("abc"[: len(ts)]) + ["context"]]
                    pyargs = [M.parse_plutus_param(a, x) for a, x in zip(anns, texts)]
                    for a, d in zip(pyargs, data):
                        if canon_py(a) != d:
                            viol.append(violation(case, f"argument {texts} is parsed to {a!r}"))
                    o, pylog, e = prog.call(pyargs)
                    explogs = pylog.split("\n")[:-1] + ([str(e)] if isinstance(e, AssertionError) and str(e) else [])
                    exppy = str(e) if e else "None"
                    cfg = cfg_of(lvl)
                    lib = uplc.eval(builder._compile(src, *[data_to_uplc(d) for d in data], config=cfg))
                    got, logs = outcome_of(lib)
                    if lvl == 3:
                        explogs = logs
                    if got != o or logs != explogs:
                        viol.append(violation(case, f"builder: expected {show(o)} {explogs} got {show(got)} {logs}", args=texts))
                        continue
                    for command in ("eval", "eval_uplc"):
                        evals += 1
                        check_command(case, viol, [command, path, *texts, f"-O{lvl}"], None, command, o, explogs, exppy, f"{command} {sp}")
                        sigs.append(sig(case["c"], lvl, n, m, command))
                    for given in range(len(ts) + 1):
                        if case["short"] and n + m and given != (n + m) % (len(ts) + 1):
                            continue
                        # the remaining parameters are supplied later
                        evals += 1
                        extra = ["--parameters", str(len(ts) - given)] if len(ts) - given else []
                        out, exc = cli(["compile", path, *texts[:given], *extra, f"-O{lvl}"])
                        if exc:
                            viol.append(violation(case, f"compile with {given} parameters: {exc!r}"[:300]))
                        else:
                            p = uplc.parse(out)
                            got = apply_eval(p, data[given:])
                            if got != (o, explogs):
                                viol.append(violation(case, f"compile with {given} parameters: expected {show(o)} {explogs} got {got}"[:300]))
                        target = os.path.join(f.dir, f"out{n}{m}{given}")
                        out, exc = cli(["build", path, *texts[:given], *extra, f"-O{lvl}", "-o", target], cwd=f.dir)
                        if exc:
                            viol.append(violation(case, f"build with {given} parameters: {exc!r}"[:300]))
                            continue
                        if out != f"Wrote script artifacts to {target}/\n":
                            viol.append(violation(case, f"build prints {out!r}"))
                        con = builder.load(target)
                        if [x[0] for x in con.parameter_types] != list("abc")[given : len(ts)]:
                            viol.append(violation(case, f"build with {given} parameters: {con.parameter_types} are left"))
                        if con.parameter_types:
                            con = con.apply_parameter(*pyargs[given:-1])
                        got = apply_eval(uplc.unflatten(con.contract), data[-1:])
                        if got != (o, explogs):
                            viol.append(violation(case, f"build with {given} parameters: expected {show(o)} {explogs} got {got}"[:300]))
                        sigs.append(sig(case["c"], lvl, n, m, "build", given))
                    if sample is None:
                        sample = dict(contract=case["c"], level=lvl, result=show(o), logs=explogs)
    finally:
        prog.close()
    return result(evals, sigs, viol, sample, commands=evals)


def apply_eval(p, datas):
    t = p.term
    for d in datas:
        t = U.Apply(t, data_to_uplc(d))
    return outcome_of(uplc.eval(U.Program(p.version, t)))


def counts_case(case):
    """commands are accepted exactly if the numbers of parameters fit"""
    ts, argsets, _ = CONTRACTS[case["c"]]
    src = contract_src(case["c"])
    texts = [spellings(d)["json"] for d in argsets[0]] + [spellings(ctx())["cbor"]]
    viol, sigs, evals = [], [], 0
    with Files() as f:
        path = f.write("contract.py", src)
        for given in range(len(ts) + 2):
            for extra in range(len(ts) + 2):
                for command in ("compile", "build", "eval", "eval_uplc"):
                    evals += 1
                    out, exc = cli([command, path, *texts[:given], "--parameters", str(extra)] + (["-o", f.dir + "/o"] if command == "build" else []))
                    good = given == len(ts) + 1 if "eval" in command else given + extra == len(ts)
                    if good != (exc is None):
                        viol.append(violation(case, f"{command} with {given} arguments and --parameters {extra}: {exc!r} {out[-100:]!r}"[:400]))
                    sigs.append(sig(case["c"], given, extra, command))
    return result(evals, sigs, viol, dict(contract=case["c"], combinations=evals), commands=evals)


INT1 = HDR + "def validator(p: int) -> int:\n    return p\n"
BAD = {
    # name: (source, arguments, --lib)
    "nohex": (INT1, ["zz"], 1),
    "oddhex": (INT1, ["123"], 1),
    "truncated": (INT1, ["19"], 1),
    "empty": (INT1, [""], 1),
    "badjson": (INT1, ["{"], 1),
    "jsonlist": (INT1, ["[1]"], 1),
    "jsonkey": (INT1, ['{"foo": 1}'], 1),
    "jsonstr": (INT1, ['{"int": "x"}'], 1),
    "jsonfloat": (INT1, ['{"int": 1.5}'], 1),
    "jsonnull": (INT1, ['{"int": null}'], 1),
    "strint": (HDR + "def validator(p: str) -> str:\n    return p\n", ["{\"int\": 42}"], 1),
    "boolint": (HDR + "def validator(p: bool) -> bool:\n    return p\n", ["{\"int\": 2}"], 1),
    "jsonbadbytes": (HDR + "def validator(p: bytes) -> bytes:\n    return p\n", ['{"bytes": "zz"}'], 1),
    "jsonnofields": (HDR + "def validator(p: A) -> A:\n    return p\n", ['{"constructor": 0}'], 1),
    "cborbool": (INT1, ["f5"], 1),
    "cborfloat": (INT1, ["f93c00"], 1),
    "cbortext": (INT1, ["6161"], 1),
    "nofunction": ("x = 1\n", [], 1),
    "nocontext": ("def validator(p: int) -> None:\n    pass\n", ["01"], 0),
    "syntax": ("def validator(:\n", [], 1),
    "reject": ("def validator(p: int) -> int:\n    return 1.5\n", ["01"], 1),
    "import": ("import nothing_of_that_name\ndef validator(p: int) -> int:\n    return p\n", ["01"], 1),
    "pyerror": ("x = 1 // 0\ndef validator(p: int) -> int:\n    return p\n", ["01"], 1),
}


def bad_case(case):
    src, args, lib = BAD[case["b"]]
    viol, sigs, evals = [], [], 0
    with Files() as f:
        path = f.write("contract.py", src)
        for command in ("eval", "eval_uplc", "compile"):
            for stdin in (None, src):
                evals += 1
                out, exc = cli([command, "-" if stdin else path, *args] + (["--lib=validator"] if lib else []), stdin)
                if exc is None or isinstance(exc, SystemExit) and not exc.code:
                    viol.append(violation(case, f"{command} succeeds: {out[-200:]!r}"))
                elif "SUCCESS" in out or "(lam" in out:
                    viol.append(violation(case, f"{command} prints a result before failing: {out[-200:]!r}"))
                else:
                    sigs.append(sig(case["b"], command, stdin))
    return result(evals, sigs, viol, dict(bad=case["b"]), commands=evals)


NAMES = {
    # exported name: source
    "validator": "def f(p: int) -> int:\n    return p + 100\ndef validator(p: int) -> int:\n    return p + 1\n",
    "f": "def f(p: int) -> int:\n    return p + 100\ndef validator(p: int) -> int:\n    return p + 1\n",
    "g": "def f(p: int) -> int:\n    return p + 100\ndef g(p: int) -> int:\n    return f(p) * 2\n",
    "last_one": "def last_one(p: int) -> int:\n    return p - 5\n",
}


STRINGS = {
    "quote": '"',
    "backslash": "\\",
    "newline": "\n",
    "tab": "\t",
    "cr": "\r",
    "nul": "\0",
    "bell": "\a",
    "unicode": "\u00e9\u4e2d\U0001f600",
    "paren": ") (con string",
    "escape": "\\n \\x41 \\",
    "percent": "%s {} {0}",
    "comment": "-- no comment",
    "empty": "",
    "space": "  a  b  ",
    "quotes": "\"'\"'",
    "hash": "#00",
}


def string_case(case):
    """texts survive the printed script"""
    w = STRINGS[case["s"]]
    src = f"def validator(p: int) -> str:\n    print({w!r})\n    assert p != 2, {('!' + w)!r}\n    return {w!r} + str(p)\n"
    viol, sigs, evals = [], [], 0
    with Files() as f:
        path = f.write("contract.py", src)
        for lvl in range(4):
            for x in (1, 2):
                exp = ("ok", ("B", (w + str(x)).encode())) if x == 1 else ("err",)
                logs = ([w] if x == 1 else [w, "!" + w]) if lvl < 3 else []
                evals += 1
                out, exc = cli(["compile", path, spellings(("I", x))["json"], "--lib=validator", "--wo", f"-O{lvl}"])
                if exc:
                    viol.append(violation(case, f"compile: {exc!r}"[:300]))
                    continue
                try:
                    got, glogs = outcome_of(script_eval(out))
                except Exception as e:
                    viol.append(violation(case, f"the printed script can not be evaluated: {e!r}"[:300], argv=["compile", f"-O{lvl}"]))
                    continue
                if got != exp or glogs != logs:
                    viol.append(violation(case, f"O{lvl} of {x}: expected {show(exp)} {logs} got {show(got)} {glogs}"))
                sigs.append(sig(case["s"], lvl, x))
    return result(evals, sigs, viol, dict(string=w), commands=evals)


def names_case(case):
    """--lib exports the named function, for every command"""
    n = case["n"]
    src = NAMES[n]
    ns = {}
    exec(src, ns)
    viol, sigs, evals = [], [], 0
    with Files() as f:
        path = f.write("contract.py", src)
        for lvl in range(4):
            for x in (0, 7):
                o = ("ok", ("I", ns[n](x)))
                for command in ("eval", "eval_uplc", "compile"):
                    evals += 1
                    check_command(case, viol, [command, path, spellings(("I", x))["cbor"], f"--lib={n}", "--wo", f"-O{lvl}"], None, command, o, None, str(ns[n](x)), f"{command} --lib={n}")
                    sigs.append(sig(n, lvl, x, command))
    return result(evals, sigs, viol, dict(name=n), commands=evals)


PROC = [("plain", "eval"), ("p1", "build"), ("fails", "eval_uplc"), ("p2", "compile"), ("p1", "eval"), ("p3", "eval"), ("p2", "build"), ("redeemer", "compile")]


def proc_case(case):
    """the same commands in a process of their own, from another directory"""
    c, command = case["c"], case["cmd"]
    ts, argsets, _ = CONTRACTS[c]
    src = contract_src(c)
    texts = [spellings(d)["json"] for d in argsets[0]]
    if "eval" in command:
        texts.append(spellings(ctx())["cbor"])
    viol = []
    with Files() as f:
        path = f.write("contract.py", src)
        argv = [command, path, *texts] + (["-o", os.path.join(f.dir, "o")] if command == "build" else [])
        outs = []
        for cwd, seed in ((f.dir, "1"), ("/", "77")):
            r = subprocess.run([sys.executable, "-m", "opshin", *argv], cwd=cwd, env={**os.environ, "PYTHONHASHSEED": seed}, capture_output=True, text=True, timeout=300)
            outs.append((r.returncode, r.stdout))
            if command == "build":
                con = builder.load(os.path.join(f.dir, "o"))
                outs[-1] += (con.cbor_hex,)
        ref, exc = cli(argv)
        want = (0 if exc is None else 1, ref) + ((builder.load(os.path.join(f.dir, "o")).cbor_hex,) if command == "build" else ())
        for o in outs:
            if o != want:
                viol.append(violation(case, f"own process: {o!r} in-process: {want!r}"[:600]))
    return result(2, [sig(c, command)], viol, dict(contract=c, command=command), processes=2)


def run_case(case):
    return globals()[case["fam"] + "_case"](case)
