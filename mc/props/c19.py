"""C19: parameters reach the function in declaration order, whenever they are given."""
import itertools
import os

import uplc

from ..cli import Files
from ..diff import sig
from ..engine import *
from ..runner import result, violation

from opshin import builder
from opshin.compiler_config import DEFAULT_CONFIG, OPT_CONFIGS, CompilationConfig

PROP = "C19"
LEVEL = "exploration"
CPU_LIMIT = 600
RULE = (
    "Functions of 1 to 4 parameters x type assignments over an alphabet of 11 types (quick: all of arity 1, half of arity 2, a Latin "
    "subset of arity 3; thorough: all of arity 3, a Latin subset of arity 4) x parameter names (alphabetical, reversed, names "
    "the compiler uses itself, names of builtins and globals) x two argument tuples x every way of splitting the arguments in "
    "declaration order between compilation, apply_parameter calls in every grouping, dump and load, and run time x arguments as Python "
    "data and as UPLC constants x optimisation levels. The result contains a type-specific image of each parameter and has to be the one of CPython."
)
ASSUMPTIONS = ["CPython and the uplc CEK machine and serialiser are correct"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData

@dataclass
class A(PlutusData):
    CONSTR_ID = 0
    x: int

@dataclass
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: int

"""
# type: (expression over the parameter #, two values as Python source)
T = {
    "int": ("str(# * 2 + 1)", ["5", "-7"]),
    "bytes": ("str(# + b'!')", ["b'q'", "b''"]),
    "bool": ("str(not #)", ["True", "False"]),
    "str": ("(# + '?')", ["'uv'", "''"]),
    "None": ("str(#)", ["None", "None"]),
    "A": ("str(#.x - 1)", ["A(3)", "A(2**70)"]),
    "Union[A, B]": ("str((#.x + 1) if isinstance(#, A) else #.z)", ["B(b'k', 9)", "A(4)"]),
    "List[int]": ("str(# + [0])", ["[1, 2]", "[]"]),
    "Dict[int, bytes]": ("str(#.get(1, b'none'))", ["{1: b'v', 2: b'w'}", "{}"]),
    "Union[int, bytes]": ("(str(# + 1) if isinstance(#, int) else str(#))", ["6", "b'by'"]),
    "": ("str(u@ + 3)", ["8", "-1"]),
}
NAMES = {
    "abc": ["a", "b", "c", "d"],
    "zyx": ["z", "y", "x", "w"],
    "own": ["val_param1", "val_param0", "p0", "v0"],
    "own2": ["x", "_", "self", "o"],
    "shadow": ["len", "G", "helper", "validator"],
}
DATUM = {"int", "bytes", "A", "Union[A, B]", "List[int]", "Dict[int, bytes]", "Union[int, bytes]", "", "bool"}


def latin(ts, n, step):
    for i in range(len(ts)):
        for j in range(0, len(ts), step):
            yield tuple(ts[(i + j * k + k * k) % len(ts)] for k in range(n))


def cases(tier):
    th = tier == "thorough"
    ts = list(T)
    sets = [(t,) for t in ts] + [p for i, p in enumerate(itertools.product(ts, repeat=2)) if th or i % 2 == 0]
    sets += list(itertools.product(ts, repeat=3)) if th else list(dict.fromkeys(latin(ts, 3, 4)))
    sets += list(dict.fromkeys(latin(ts, 4, 1 if th else 6)))
    for i, tt in enumerate(sets):
        names = list(NAMES)
        for nm in names if th and len(tt) < 3 else [names[i % len(names)]]:
            for l in range(4) if th and len(tt) < 3 else [(i // 3) % 4]:
                yield dict(id=f"{'/'.join(t or 'untyped' for t in tt)}:{nm}:O{l}", types=list(tt), names=nm, lvl=l, other=i % 4 == 1, full=th or i % 16 == 0)
    for l in range(4):
        yield dict(id=f"native:O{l}", fam="native", lvl=l)
        for n in (5, 6) + ((8, 10) if th else ()):
            yield dict(id=f"many:{n}:O{l}", fam="many", n=n, lvl=l)


def source(tt, names, fn):
    ns = NAMES[names][: len(tt)]
    if names == "shadow" and fn == "validator":
        ns = [n if n != "validator" else "other" for n in ns]
    ps = ", ".join(n + (f": {t}" if t else "") for n, t in zip(ns, tt))
    parts = []
    for i, (n, t) in enumerate(zip(ns, tt)):
        parts += [f"u{i}: int = {n}"] * (t == "") + [f"r{i} = {T[t][0].replace('#', n).replace('@', str(i))}"]
    ret = " + '|' + ".join(f"r{i}" for i in range(len(tt)))
    body = "".join(f"    {p}\n" for p in parts) + f"    return {ret}\n"
    decoy = f"def {'validator' if fn != 'validator' else 'decoy'}(x: int, y: bytes) -> str:\n    return 'decoy'\n"
    return HDR + f"G = 77\n{decoy}def helper(a: int) -> int:\n    return a\ndef {fn}({ps}) -> str:\n{body}"


def cfg_of(lvl, **kw):
    return DEFAULT_CONFIG.update(OPT_CONFIGS[lvl]).update(CompilationConfig(**kw))


def compositions(n):
    """all ways of cutting n in order"""
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def splits(n, full):
    """(number given when compiling, groups applied, through a file, rest at run time)"""
    for k in range(n + 1):
        for j in range(n - k + 1):
            for g in compositions(j):
                for via in (False, True) if full else ((k + j) % 2 == 0,):
                    yield k, g, via


def forms(v, t, d):
    """the argument as Python datum and as UPLC constant"""
    out = [data_to_uplc(d)]
    if t in DATUM:
        out.append(v)
    return out


def outcome(r):
    if isinstance(r.result, Exception):
        return ("err",), r.result
    return ("ok", canon_uplc(r.result)), None


def run_term(p, datas):
    t = p.term
    for d in datas:
        t = U.Apply(t, data_to_uplc(d))
    return outcome(uplc.eval(U.Program(p.version, t)))


def check_splits(case, src, fn, lvl, pyargs, datas, types, exp, viol, sigs, full):
    evals = 0
    cfg = cfg_of(lvl, wrap_output=True)
    n = len(pyargs)
    with Files() as f:
        path = f.write("contract.py", src)
        seen = {}
        for k, groups, via in splits(n, full):
            for form in (0, 1) if full else ((k + len(groups)) % 2,):
                args = [forms(v, t, d)[-1 if form else 0] for v, t, d in zip(pyargs, types, datas)]
                what = f"{k} at compile time, groups {groups}{' through files' if via else ''}, {'Python data' if form else 'UPLC constants'}"
                try:
                    if (k, form) not in seen:
                        a = builder._compile(src, *args[:k], validator_function_name=fn, config=cfg)
                        b = builder.build(path, *args[:k], validator_function_name=fn, config=cfg)
                        if builder._build(a) != b:
                            viol.append(violation(case, f"_compile and build differ with {k} parameters"))
                        ann = [(f"p{i}", int) for i in range(k, n)]
                        seen[k, form] = builder.PlutusContract(b, parameter_types=ann)
                        evals += 1
                        got, e = run_term(a, datas[k:])
                        if got != exp:
                            viol.append(violation(case, f"{k} at compile time: expected {show(exp)} got {show(got)} {e!r}"[:400], src=src))
                    c = seen[k, form]
                    pos = k
                    for g in groups:
                        before = c.contract
                        new = c.apply_parameter(*args[pos : pos + g])
                        if c.contract != before or len(c.parameter_types) != n - pos:
                            viol.append(violation(case, f"{what}: apply_parameter changes the contract it is applied to"))
                        pos += g
                        if [x[0] for x in new.parameter_types] != [f"p{i}" for i in range(pos, n)]:
                            viol.append(violation(case, f"{what}: parameters {new.parameter_types} are left"))
                        c = new
                    if via:
                        d = os.path.join(f.dir, "out")
                        c.dump(d)
                        c = builder.load(d)
                    if not groups and not via:
                        continue
                    evals += 1
                    got, e = run_term(uplc.unflatten(c.contract), datas[pos:])
                except CpuTimeout:
                    raise
                except Exception as e:
                    viol.append(violation(case, f"{what}: {e!r}"[:400], src=src))
                    continue
                if got != exp:
                    viol.append(violation(case, f"{what}: expected {show(exp)} got {show(got)} {e!r}"[:400], src=src))
                sigs.append(sig(case["id"], k, groups, via, form, exp))
    return evals


def run_case(case):
    if case.get("fam") == "native":
        return native(case)
    if case.get("fam") == "many":
        return many(case)
    tt, lvl = case["types"], case["lvl"]
    fn = "run" if case["other"] else "validator"
    src = source(tt, case["names"], fn)
    prog = PyProg(src, fn)
    viol, sigs, evals = [], [], 0
    sample = None
    try:
        c = compile_src(src, cfg_of(lvl, wrap_output=True), fn)
        if c[0] == "reject":
            return result(1, [], [violation(case, f"rejected: {c[1]}: {c[2]}", src=src)], None)
        for m in (0, 1):
            vs = [T[t][1][m if case["full"] else (m + i) % 2] for i, t in enumerate(tt)]
            pyargs = py_args(vs, prog.ns)
            datas = [canon_py(v) for v in pyargs]
            exp, _, e = prog.call(pyargs)
            if exp[0] != "ok":
                raise AssertionError(f"CPython: {e!r}")
            got, _, e = run_uplc(c[1], datas)
            evals += 1
            if got != exp:
                viol.append(violation(case, f"all at run time: expected {show(exp)} got {show(got)} {e!r}", src=src, args=vs))
            # every other order of distinct arguments has to give another result
            evals += check_splits(case, src, fn, lvl, pyargs, datas, tt, exp, viol, sigs, case["full"] and m == 0)
            sample = sample or dict(types=tt, args=vs, result=show(exp))
    finally:
        prog.close()
    return result(evals, sigs, viol, sample)


def many(case):
    n, lvl = case["n"], case["lvl"]
    src = f"def validator({', '.join(f'p{(i * 7 + 3) % 11}: int' for i in range(n))}) -> str:\n    return " + " + ',' + ".join(f"str(p{(i * 7 + 3) % 11})" for i in range(n)) + "\n"
    viol, sigs = [], []
    args = [10 + i for i in range(n)]
    exp = ("ok", ("B", ",".join(map(str, args)).encode()))
    cfg = cfg_of(lvl, wrap_output=True)
    evals = 0
    for k in range(n + 1):
        p = builder._compile(src, *args[:k], config=cfg)
        for j in range(n - k + 1):
            q = uplc.unflatten(builder.apply_parameters(builder._build(p), *args[k : k + j]))
            got, e = run_term(q, [("I", a) for a in args[k + j :]])
            evals += 1
            if got != exp:
                viol.append(violation(case, f"{k} at compile time, {j} applied: expected {show(exp)} got {show(got)} {e!r}", src=src))
            sigs.append(sig(case["id"], k, j))
    return result(evals, sigs, viol, dict(src=src, result=show(exp)))


NAT = {
    "int": ("str(# + 1)", [("BuiltinInteger", 4)]),
    "bytes": ("str(# + b'!')", [("BuiltinByteString", b"q")]),
    "str": ("(# + '?')", [("BuiltinString", "uv")]),
    "bool": ("str(not #)", [("BuiltinBool", True)]),
}


def native(case):
    """with unwrap_input off the arguments are given in their own representation"""
    viol, sigs, evals = [], [], 0
    for tt in itertools.product(NAT, repeat=3):
        src = f"def validator(c: {tt[0]}, b: {tt[1]}, a: {tt[2]}) -> str:\n    return " + " + '|' + ".join(NAT[t][0].replace("#", n) for t, n in zip(tt, "cba")) + "\n"
        args = [NAT[t][1][0] for t in tt]
        ns = {}
        exec(src, ns)
        exp = ("ok", ("B", ns["validator"](*[a[1] for a in args]).encode()))
        consts = [getattr(U, a[0])(a[1]) for a in args]
        for k in range(4):
            p = builder._compile(src, *consts[:k], config=cfg_of(case["lvl"], wrap_output=True, unwrap_input=False))
            t = p.term
            for a in consts[k:]:
                t = U.Apply(t, a)
            got, e = outcome(uplc.eval(U.Program(p.version, t)))
            evals += 1
            if got != exp:
                viol.append(violation(case, f"{k} at compile time: expected {show(exp)} got {show(got)} {e!r}", src=src))
            sigs.append(sig(case["id"], tt, k))
    return result(evals, sigs, viol, dict(src=src, result=show(exp)))
