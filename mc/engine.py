"""Execution engine: run one OpShin source text (a) under CPython and (b)
compiled to UPLC on the CEK machine, and bring both results into the same
canonical form.

The canonical form of a value is a small tuple tree ("data"), written down here
independently of opshin, pluthon and pycardano:

  ("I", n) ("B", bytes) ("L", (x, ...)) ("M", ((k, v), ...)) ("C", tag, (x, ...))

An outcome is ("ok", data), ("err",) or ("reject", exception class, message).
"""
import ast
import contextlib
import dataclasses
import io
import os
import re
import signal
import sys
import types

sys.setrecursionlimit(20000)
import logging

logging.disable(logging.CRITICAL)
import warnings

warnings.filterwarnings("ignore")

import cbor2
import pluthon
import uplc.ast as U
from uplc import eval as uplc_eval
from uplc.cost_model import Budget
import uplc.machine

import opshin
from opshin import compiler
from . import cek
from opshin.compiler_config import (
    DEFAULT_CONFIG,
    OPT_O0_CONFIG,
    OPT_O1_CONFIG,
    OPT_O2_CONFIG,
    OPT_O3_CONFIG,
    CompilationConfig,
)

# errors of the machine quote its whole state, which is exponentially large for
# nested closures: closures and frames are shown by name
for _cls in (U.BoundStateLambda, U.Lambda, U.BoundStateDelay, U.Delay):
    _cls.__repr__ = lambda self, orig=_cls.__repr__: (
        f"<{type(self).__name__}>" if self.state else orig(self)
    )
for _cls in (U.Context, *U.Context.__subclasses__()):
    _cls.__repr__ = lambda self: f"<{type(self).__name__}>"

# the machine itself is trusted and bounded here: no budget interference
BIG = Budget(10**16, 10**16)

LIB = dict(wrap_output=True, unwrap_input=True)
CONFIGS = {
    "O0": DEFAULT_CONFIG.update(OPT_O0_CONFIG).update(
        CompilationConfig(fast_access_skip=None)
    ),
    "O1": DEFAULT_CONFIG.update(OPT_O0_CONFIG).update(OPT_O1_CONFIG),
    "O2": DEFAULT_CONFIG.update(OPT_O2_CONFIG),
    "O3": DEFAULT_CONFIG.update(OPT_O3_CONFIG),
}
CONFIGS = {k: v.update(**LIB) for k, v in CONFIGS.items()}
# every optional step of opshin, pluthon and uplc off
CONFIGS["P0"] = CompilationConfig().update(allow_isinstance_anything=False, **LIB)


def config(name):
    """`O2`, or `O2+flag=val+flag=val`."""
    base, *flags = name.split("+")
    c = CONFIGS[base]
    for f in flags:
        k, v = f.split("=")
        c = dataclasses.replace(c, **{k: ast.literal_eval(v)})
    return c


class NotCanonical(Exception):
    pass


class CpuTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CpuTimeout()


@contextlib.contextmanager
def cpu_limit(seconds):
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


# ---------------------------------------------------------------- canonical
def canon_py(v):
    """Canonical data of a Python value (the documented encoding)."""
    if v is None:
        return ("C", 0, ())
    if isinstance(v, bool):
        return ("I", int(v))
    if isinstance(v, int):
        return ("I", v)
    if isinstance(v, str):
        return ("B", v.encode("utf8"))
    if isinstance(v, (bytes, bytearray)):
        return ("B", bytes(v))
    if isinstance(v, (list, tuple)):
        return ("L", tuple(canon_py(x) for x in v))
    if isinstance(v, dict):
        return ("M", tuple((canon_py(k), canon_py(x)) for k, x in v.items()))
    if dataclasses.is_dataclass(v) and hasattr(v, "CONSTR_ID"):
        return (
            "C",
            v.CONSTR_ID,
            tuple(canon_py(getattr(v, f.name)) for f in dataclasses.fields(v)),
        )
    if type(v).__name__ in ("dict_keys", "dict_values"):
        return ("L", tuple(canon_py(x) for x in v))
    if type(v).__name__ == "dict_items":
        return ("L", tuple(canon_py(x) for x in v))
    if type(v).__name__ in ("ByteString",) and hasattr(v, "value"):
        return ("B", v.value)
    if type(v).__name__ == "IndefiniteList":
        return ("L", tuple(canon_py(x) for x in v))
    if isinstance(v, float):
        return ("float", v)
    if type(v).__name__ == "RawCBOR":
        return canon_cbor(cbor2.loads(v.cbor))
    if type(v).__name__ == "RawPlutusData":
        return canon_cbor(v.data)
    raise NotCanonical(f"no canonical form for {type(v)} {v!r}")


def canon_cbor(v):
    """Canonical data of decoded CBOR"""
    if isinstance(v, cbor2.CBORTag):
        if 121 <= v.tag < 128:
            return ("C", v.tag - 121, tuple(canon_cbor(x) for x in v.value))
        if 1280 <= v.tag < 1401:
            return ("C", v.tag - 1280 + 7, tuple(canon_cbor(x) for x in v.value))
        if v.tag == 102:
            return ("C", v.value[0], tuple(canon_cbor(x) for x in v.value[1]))
        raise NotCanonical(v.tag)
    if isinstance(v, bool) or v is None:
        raise NotCanonical(v)
    if isinstance(v, int):
        return ("I", v)
    if isinstance(v, bytes):
        return ("B", v)
    if isinstance(v, (list, tuple)):
        return ("L", tuple(canon_cbor(x) for x in v))
    if hasattr(v, "items"):
        return ("M", tuple((canon_cbor(k), canon_cbor(x)) for k, x in v.items()))
    raise NotCanonical(v)


def canon_uplc(v):
    if isinstance(v, U.PlutusInteger):
        return ("I", v.value)
    if isinstance(v, U.PlutusByteString):
        return ("B", bytes(v.value))
    if isinstance(v, U.PlutusList):
        return ("L", tuple(canon_uplc(x) for x in v.value))
    if isinstance(v, U.PlutusMap):
        return ("M", tuple((canon_uplc(k), canon_uplc(x)) for k, x in v.value.items()))
    if isinstance(v, U.PlutusConstr):
        return ("C", v.constructor, tuple(canon_uplc(x) for x in v.fields))
    if isinstance(v, U.BuiltinUnit):
        return ("C", 0, ())
    if isinstance(v, U.BuiltinBool):
        return ("I", int(v.value))
    if isinstance(v, U.BuiltinInteger):
        return ("I", v.value)
    if isinstance(v, U.BuiltinByteString):
        return ("B", v.value)
    if isinstance(v, U.BuiltinString):
        return ("B", v.value.encode("utf8"))
    if isinstance(v, U.BuiltinPair):
        return ("L", (canon_uplc(v.l_value), canon_uplc(v.r_value)))
    if isinstance(v, U.BuiltinList):
        return ("L", tuple(canon_uplc(x) for x in v.values))
    raise NotImplementedError("no canonical form")


def data_to_uplc(d):
    t = d[0]
    if t == "I":
        return U.PlutusInteger(d[1])
    if t == "B":
        return U.PlutusByteString(d[1])
    if t == "L":
        return U.PlutusList([data_to_uplc(x) for x in d[1]])
    if t == "M":
        return U.PlutusMap({data_to_uplc(k): data_to_uplc(v) for k, v in d[1]})
    if t == "C":
        return U.PlutusConstr(d[1], [data_to_uplc(x) for x in d[2]])
    raise NotImplementedError(d)


def _head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for k, w in enumerate((1, 2, 4, 8)):
        if n < 1 << 8 * w:
            return bytes([major << 5 | 24 + k]) + n.to_bytes(w, "big")


def _bs(b):
    if len(b) <= 64:
        return _head(2, len(b)) + b
    return b"\x5f" + b"".join(_head(2, len(b[i : i + 64])) + b[i : i + 64] for i in range(0, len(b), 64)) + b"\xff"


def plutus_cbor(d):
    """The encoding the serialiseData builtin gives (plutus-core's encodeData),
    written down independently of uplc and pycardano."""
    if d[0] == "I":
        n = d[1]
        m = n if n >= 0 else -1 - n
        if m < 1 << 64:
            return _head(0 if n >= 0 else 1, m)
        return bytes([0xC2 if n >= 0 else 0xC3]) + _bs(m.to_bytes((m.bit_length() + 7) // 8, "big"))
    if d[0] == "B":
        return _bs(d[1])
    if d[0] == "L":
        if not d[1]:
            return b"\x80"
        return b"\x9f" + b"".join(map(plutus_cbor, d[1])) + b"\xff"
    if d[0] == "M":
        return _head(5, len(d[1])) + b"".join(plutus_cbor(k) + plutus_cbor(v) for k, v in d[1])
    t, fields = d[1], plutus_cbor(("L", d[2]))
    if t < 7:
        return _head(6, 121 + t) + fields
    if t < 128:
        return _head(6, 1280 + t - 7) + fields
    return _head(6, 102) + b"\x82" + _head(0, t) + fields


def show(d):
    if not isinstance(d, tuple) or not d:
        return repr(d)
    t = d[0]
    if t == "I":
        return str(d[1])
    if t == "B":
        return "b" + repr(d[1])[1:] if len(d[1]) < 80 else f"b<{len(d[1])}>{d[1][:40]!r}"
    if t == "L":
        return "[" + ", ".join(map(show, d[1])) + "]"
    if t == "M":
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in d[1]) + "}"
    if t == "C":
        return f"Constr{d[1]}(" + ", ".join(map(show, d[2])) + ")"
    if t == "ok":
        return "ok " + show(d[1])
    return repr(d)


# ---------------------------------------------------------------- CPython side
_modcount = 0


class PyProg:
    def __init__(self, src, entry="validator"):
        global _modcount
        _modcount += 1
        name = f"mcmod_{os.getpid()}_{_modcount}"
        self.mod = types.ModuleType(name)
        sys.modules[name] = self.mod
        self.name = name
        self.ns = self.mod.__dict__
        self.entry = entry
        self.load_error = None
        self.load_out = ""
        out = io.StringIO()
        try:
            code = compile(src, f"<{name}>", "exec", dont_inherit=True)
            with contextlib.redirect_stdout(out):
                exec(code, self.ns)
        except (Exception, SystemExit) as e:
            self.load_error = e
        self.load_out = out.getvalue()

    def call(self, args):
        """-> (outcome, printed text)"""
        if self.load_error is not None:
            return ("err",), self.load_out, self.load_error
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                v = self.ns[self.entry](*args)
            return ("ok", canon_py(v)), self.load_out + out.getvalue(), None
        except NotCanonical:
            raise
        except (Exception, SystemExit) as e:
            return ("err",), self.load_out + out.getvalue(), e

    def close(self):
        sys.modules.pop(self.name, None)


def py_args(argsrc, ns):
    """Arguments are written as Python source text, evaluated in the program's
    own namespace (so that they can use its classes)."""
    return [eval(a, ns) for a in argsrc]


# ---------------------------------------------------------------- UPLC side
def compile_src(src, cfg, entry="validator"):
    """-> ("ok", Program) or ("reject", class name, message)"""
    try:
        tree = compiler.parse(src, filename="<mc>.py")
        plt = compiler.compile(
            tree, filename=None, validator_function_name=entry, config=cfg
        )
        return ("ok", pluthon.compile(plt, config=cfg))
    except CpuTimeout:
        raise
    except Exception as e:
        orig = getattr(e, "orig_err", None)
        c = type(orig).__name__ if orig is not None else type(e).__name__
        return ("reject", c, str(orig if orig is not None else e)[:300])


def run_ref(prog, datas):
    """uplc's own machine -> (outcome, logs, raw error)"""
    term = prog.term
    if not datas:
        # a function without parameters still expects one (ignored) argument
        term = U.Apply(term, U.BuiltinUnit())
    for d in datas:
        term = U.Apply(term, data_to_uplc(d))
    res = uplc_eval(U.Program(prog.version, term), budget=BIG)
    if isinstance(res.result, BaseException):
        return ("err",), tuple(res.logs), res.result
    try:
        return ("ok", canon_uplc(res.result)), tuple(res.logs), None
    except NotImplementedError as e:
        return ("ok", ("?",)), tuple(res.logs), None


def data_to_ordered(d):
    """like data_to_uplc, keeping order and duplicates of map entries"""
    t = d[0]
    if t == "M":
        return cek.OMap((data_to_ordered(k), data_to_ordered(v)) for k, v in d[1])
    if t == "L":
        return U.PlutusList([data_to_ordered(x) for x in d[1]])
    if t == "C":
        return U.PlutusConstr(d[1], [data_to_ordered(x) for x in d[2]])
    return data_to_uplc(d)


def run_ordered(prog, datas):
    """Runs with maps as lists of pairs, as on-chain."""
    run_uplc(prog, datas)
    args = [data_to_ordered(d) for d in datas]
    try:
        v, logs = cek.run(prog._mc_code, args, cek.ORDERED)
    except CpuTimeout:
        raise
    except Exception as e:
        return ("err",), tuple(e.logs), e
    return ("ok", canon_uplc(v)), tuple(logs), None


def run_fast(prog, datas):
    code = getattr(prog, "_mc_code", None)
    if code is None:
        try:
            code = cek.translate(prog.term)
        except cek.Stuck as e:
            return ("err",), (), e
        prog._mc_code = code
    args = [data_to_uplc(d) for d in datas] or [U.BuiltinUnit()]
    try:
        v, logs = cek.run(code, args)
    except CpuTimeout:
        raise
    except Exception as e:
        return ("err",), tuple(e.logs), e
    try:
        return ("ok", canon_uplc(v)), tuple(logs), None
    except NotImplementedError as e:
        return ("ok", ("?",)), tuple(logs), None


class MachineMismatch(Exception):
    pass


ref_runs = [0]


def run_uplc(prog, datas, ref=None):
    """-> (outcome, logs, raw error). The first run of every program is done
    on both machines, which have to agree."""
    got = run_fast(prog, datas)
    if ref or (ref is None and not getattr(prog, "_mc_ref", False)):
        prog._mc_ref = True
        r = run_ref(prog, datas)
        ref_runs[0] += 1
        if r[:2] != got[:2]:
            raise MachineMismatch(f"{got} != {r}")
    return got


def root_cause(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e
