"""C14: builtin bindings mean the same off-chain and on-chain, and what the
Plutus specification says they mean."""
import functools
import hashlib
import itertools

import uplc.ast

from ..lib import *

PROP = "C14"
LEVEL = "exploration"
CHUNK = 2
CPU_LIMIT = 240
RULE = (
    "Every function of opshin.std.builtins (and the operators of the BLS types) x the full cross product of boundary arguments "
    "x the ways of importing and calling it (parameters, literal arguments evaluated at compile time, calls in helpers, branches and comprehensions), "
    "executed by CPython and compiled, against a model of the builtin written down from the Plutus specification. "
    "Every function exported by the library is required to be in the table. Non-trivial: distinct (program, arguments)."
)
ASSUMPTIONS = ["the builtin semantics of uplc and the primitives of pyblst, hashlib, PyNaCl and ecdsa are correct"]


class Err(Exception):
    pass


def need(c):
    if not c:
        raise Err()


INTS = [0, 1, -1, 2, -2, 3, 7, -7, 8, -8, 255, 256, -256, 2**63, -(2**64) - 1]
IDX = [0, 1, -1, 2, 7, 8, 9, 15, 16, 17, 255, 256, -8, -9]
BYTES = [b"", b"\x00", b"\x01", b"\x80", b"\xff", b"ab", b"ba", b"\x00\x00", b"\xff\x00", b"\x01\x02\x03", b"a" * 33, bytes(range(65))]
STRS = ["", "a", "b", "ab", "ba", "\u00e9", "\x00", "\U0001f600", "a" * 70]
UTF = [b"", b"a", b"\xc3\xa9", b"\xff", b"\xc3", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80", b"a\x00b", b"ab\x80"]
BOOLS = [False, True]
BITS = [[], [0], [7], [8], [15], [0, 0], [0, 7], [15, 0], [-1], [16], [0, 16], [3, 5, 9]]


def tdiv(x, y):
    need(y != 0)
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def fdiv(x, y):
    need(y != 0)
    return x // y


def fmod(x, y):
    need(y != 0)
    return x % y


def cons(x, y):
    need(0 <= x <= 255)
    return bytes([x]) + y


def slice_(x, y, z):
    x = max(x, 0)
    return z[x : x + max(y, 0)]


def index(x, y):
    need(0 <= y < len(x))
    return x[y]


def dec(x):
    try:
        return x.decode("utf8")
    except UnicodeDecodeError:
        raise Err()


def i2b(big, w, v):
    need(0 <= w <= 8192 and v >= 0)
    n = (v.bit_length() + 7) // 8
    need(n <= 8192)
    if w:
        need(n <= w)
        n = w
    return v.to_bytes(n, "big" if big else "little")


def bitop(f):
    def g(pad, a, b):
        n = min(len(a), len(b))
        r = bytes(f(x, y) for x, y in zip(a, b))
        return r + (a[n:] or b[n:]) if pad else r

    return g


def bits_of(a):
    return [(a[len(a) - 1 - i // 8] >> (i % 8)) & 1 for i in range(8 * len(a))]


def of_bits(bs):
    return int("0" + "".join(map(str, reversed(bs))), 2).to_bytes(len(bs) // 8, "big")


def rbit(a, i):
    need(0 <= i < 8 * len(a))
    return bool(bits_of(a)[i])


def wbits(a, idx, v):
    bs = bits_of(a)
    for i in idx:
        need(0 <= i < len(bs))
        bs[i] = int(v)
    return of_bits(bs)


def repl(n, b):
    need(0 <= n <= 8192 and 0 <= b <= 255)
    return bytes([b]) * n


def shift(a, k):
    n = 8 * len(a)
    bs = bits_of(a)
    return of_bits([bs[i - k] if 0 <= i - k < n else 0 for i in range(n)])


def rot(a, k):
    n = 8 * len(a)
    bs = bits_of(a)
    return of_bits([bs[(i - k) % n] for i in range(n)])


def ffs(a):
    bs = bits_of(a)
    return bs.index(1) if 1 in bs else -1


def ripemd(b):
    from Crypto.Hash import RIPEMD160

    return RIPEMD160.new(b).digest()


def keccak(b):
    from Crypto.Hash import keccak

    return keccak.new(digest_bits=256).update(b).digest()


# name -> (parameter types, result type, argument alphabets, model)
I2, Y2, S2 = (["int"] * 2, [INTS] * 2), (["bytes"] * 2, [BYTES] * 2), (["str"] * 2, [STRS] * 2)
Y1 = (["bytes"], [BYTES])
PYY = (["bool", "bytes", "bytes"], [BOOLS, BYTES, BYTES])
T = {
    "add_integer": (*I2, "int", lambda x, y: x + y),
    "subtract_integer": (*I2, "int", lambda x, y: x - y),
    "multiply_integer": (*I2, "int", lambda x, y: x * y),
    "divide_integer": (*I2, "int", fdiv),
    "quotient_integer": (*I2, "int", tdiv),
    "remainder_integer": (*I2, "int", lambda x, y: x - tdiv(x, y) * y),
    "mod_integer": (*I2, "int", fmod),
    "equals_integer": (*I2, "bool", lambda x, y: x == y),
    "less_than_integer": (*I2, "bool", lambda x, y: x < y),
    "less_than_equals_integer": (*I2, "bool", lambda x, y: x <= y),
    "append_byte_string": (*Y2, "bytes", lambda x, y: x + y),
    "cons_byte_string": (["int", "bytes"], [INTS, BYTES], "bytes", cons),
    "slice_byte_string": (["int", "int", "bytes"], [IDX, IDX, BYTES], "bytes", slice_),
    "length_of_byte_string": (*Y1, "int", len),
    "index_byte_string": (["bytes", "int"], [BYTES, INTS + [32, 33]], "int", index),
    "equals_byte_string": (*Y2, "bool", lambda x, y: x == y),
    "less_than_byte_string": (*Y2, "bool", lambda x, y: x < y),
    "less_than_equals_byte_string": (*Y2, "bool", lambda x, y: x <= y),
    "sha2_256": (*Y1, "bytes", lambda b: hashlib.sha256(b).digest()),
    "sha3_256": (*Y1, "bytes", lambda b: hashlib.sha3_256(b).digest()),
    "blake2b_256": (*Y1, "bytes", lambda b: hashlib.blake2b(b, digest_size=32).digest()),
    "blake2b_224": (*Y1, "bytes", lambda b: hashlib.blake2b(b, digest_size=28).digest()),
    "keccak_256": (*Y1, "bytes", keccak),
    "ripemd_160": (*Y1, "bytes", ripemd),
    "append_string": (*S2, "str", lambda x, y: x + y),
    "equals_string": (*S2, "bool", lambda x, y: x == y),
    "encode_utf8": (["str"], [STRS], "bytes", lambda x: x.encode("utf8")),
    "decode_utf8": (["bytes"], [UTF], "str", dec),
    "integer_to_byte_string": (["bool", "int", "int"], [BOOLS, [0, 1, 2, 3, 9, -1, 8192, 8193], INTS], "bytes", i2b),
    "byte_string_to_integer": (["bool", "bytes"], [BOOLS, BYTES], "int", lambda b, a: int.from_bytes(a, "big" if b else "little")),
    "and_byte_string": (*PYY, "bytes", bitop(lambda x, y: x & y)),
    "or_byte_string": (*PYY, "bytes", bitop(lambda x, y: x | y)),
    "xor_byte_string": (*PYY, "bytes", bitop(lambda x, y: x ^ y)),
    "complement_byte_string": (*Y1, "bytes", lambda a: bytes(255 - x for x in a)),
    "read_bit": (["bytes", "int"], [BYTES, IDX], "bool", rbit),
    "write_bits": (["bytes", "List[int]", "bool"], [BYTES, BITS, BOOLS], "bytes", wbits),
    "replicate_byte": (["int", "int"], [[0, 1, 2, 33, -1, 8192, 8193], INTS], "bytes", repl),
    "shift_byte_string": (["bytes", "int"], [BYTES, IDX], "bytes", shift),
    "rotate_byte_string": (["bytes", "int"], [BYTES, IDX], "bytes", rot),
    "count_set_bits": (*Y1, "int", lambda a: sum(bits_of(a))),
    "find_first_set_bit": (*Y1, "int", ffs),
}
HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass
class B(PlutusData):
    CONSTR_ID = 9
    y: bytes
    z: List[int]
@dataclass
class N(PlutusData):
    CONSTR_ID = 130
    a: A
    d: Dict[int, bytes]
"""
ALL = "from opshin.std.builtins import *\n"
BH = ALL + "from opshin.std.bls12_381 import BLS12381G1Element, BLS12381G2Element, BLS12381MillerLoopResult\n"
# data arguments by static type
DATA = {
    "int": ["0", "1", "-1", "256", "-(2**64) - 1", "2**64", "23", "24"],
    "bytes": ["b''", "b'a'", "b'x' * 64", "b'x' * 65", "b'x' * 130"],
    "A": ["A(0)", "A(-5)"],
    "B": ["B(b'', [])", "B(b'a', [1, 2])", "B(b'b' * 60, [0])"],
    "N": ["N(A(1), {})", "N(A(1), {3: b'x', 1: b''})"],
    "List[int]": ["[]", "[0]", "[1, 2]"],
    "List[bytes]": ["[]", "[b'a']"],
    "List[A]": ["[]", "[A(0)]"],
    "List[List[int]]": ["[]", "[[]]", "[[1], []]"],
    "Dict[int, bytes]": ["{}", "{1: b'a'}", "{2: b'', 1: b''}"],
    "Dict[bytes, A]": ["{}", "{b'': A(0)}"],
    "Union[A, B]": ["A(1)", "B(b'', [3])"],
    "Union[int, bytes]": ["0", "b'q'"],
    "Anything": ["0", "b'a'", "A(0)", "B(b'', [])", "[]", "[1, b'a']", "{}", "{1: b'a'}", "N(A(0), {0: b''})"],
}


def cases(tier):
    th = tier == "thorough"
    yield dict(id="complete", fam="complete")
    cf = ["O1", "O3"] if not th else ["O0", "O1", "O2", "O3"]
    for f in T:
        yield dict(id=f"fn:{f}", fam="fn", f=f, cfgs=cf)
    for n, f in enumerate(T):
        for k in FORMS:
            yield dict(id=f"form:{k}:{f}", fam="form", f=f, form=k, cfgs=[["O1", "O2", "O3", "O0"][n % 4]] if not th else ["O0", "O1", "O2", "O3"])
    for f in T:
        args = list(itertools.product(*T[f][1]))
        step = max(1, len(args) // (12 if not th else 150))
        for k, a in enumerate(args[::step]):
            yield dict(id=f"lit:{f}:{k}", fam="lit", f=f, args=a, cfgs=["O3"] if not th else ["O1", "O2", "O3"])
    for t in DATA:
        yield dict(id=f"ser:{t}", fam="data", k="ser", t=t, cfgs=cf)
        for t2 in DATA:
            yield dict(id=f"eq:{t}:{t2}", fam="data", k="eq", t=t, t2=t2, cfgs=["O1"] if not th else ["O1", "O3"])
        if th or t in ("int", "A", "List[int]", "Anything", "Dict[int, bytes]", "bytes"):
            yield dict(id=f"constr:{t}", fam="data", k="constr", t=t, cfgs=cf)
    for g in (1, 2):
        for k in BLS:
            yield dict(id=f"bls:g{g}:{k}", fam="bls", g=g, k=k, cfgs=["O1", "O3"])
    for k in PAIR:
        yield dict(id=f"pair:{k}", fam="pair", k=k, cfgs=["O1", "O3"])
    for k in ("ed", "ecdsa", "schnorr"):
        yield dict(id=f"sig:{k}", fam="sig", k=k, cfgs=["O1", "O3"])


def out(model, args):
    try:
        return ("ok", canon_py(model(*args)))
    except Err:
        return ("err",)


FORMS = {
    "own": ("from opshin.bridge import wraps_builtin\n@wraps_builtin\ndef {f}({p}) -> {r}:\n    pass\n", "return {f}({a})"),
    "helper": (ALL, "def h({p}) -> {r}:\n        return {f}({a})\n    return h({a})"),
    "var": (ALL, "k = {f}({a})\n    return k"),
    "comp": (ALL, "return [{f}({a}) for i in range(2)][1]"),
    "ite": (ALL, "return {f}({a}) if {c} else {f}({a})"),
    "alias": (ALL, "h = {f}\n    return h({a})"),
    "twice": (ALL, "k = {f}({a})\n    return {f}({a})"),
}


def fun(f):
    types, alph, r, model = T[f]
    names = ["x", "y", "z"][: len(types)]
    return types, alph, r, model, names, ", ".join(f"{n}: {t}" for n, t in zip(names, types)), ", ".join(names)


# --- BLS: groups by multiples of a base point -------------------------------
R = 0x73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001
KS = [0, 1, 2, 3, -1, -2, 7, R - 1, R, R + 1]


@functools.lru_cache(maxsize=None)
def point(g, k):
    import pyblst

    c = [pyblst.BlstP1Element, pyblst.BlstP2Element][g - 1]
    return c.hash_to_group(b"base", b"dst").scalar_mul(k % R)


def cp(g, k):
    return bytes(point(g, k).compress())


U = "bls12_381_g{g}_uncompress({v})"
C = "bls12_381_g{g}_compress({e})"
BLS = {
    # name: (parameters: p = point, i = int; expression; model over multiples)
    "roundtrip": ("p", "{x}", lambda x: x),
    "add": ("pp", "bls12_381_g{g}_add({x}, {y})", lambda x, y: x + y),
    "neg": ("p", "bls12_381_g{g}_neg({x})", lambda x: -x),
    "mul": ("ip", "bls12_381_g{g}_scalar_mul(x, {y})", lambda x, y: x * y),
    "equal": ("pp", "bls12_381_g{g}_equal({x}, {y})", lambda x, y: (x - y) % R == 0),
    "op+": ("pp", "{x} + {y}", lambda x, y: x + y),
    "op-": ("pp", "{x} - {y}", lambda x, y: x - y),
    "opneg": ("p", "-{x}", lambda x: -x),
    "oppos": ("p", "+{x}", lambda x: x),
    "op*": ("pi", "{x} * y", lambda x, y: x * y),
    "opr*": ("ip", "x * {y}", lambda x, y: x * y),
    "op==": ("pp", "{x} == {y}", lambda x, y: (x - y) % R == 0),
    "expr": ("pp", "({x} + {y} * 3) - (-{x})", lambda x, y: 2 * x + 3 * y),
    "compress": ("p", "{x}.compress()", None),
    "bad": ("b", None, None),
    "hash": ("bb", None, None),
}
PAIR = {
    "verify": "bls12_381_final_verify(bls12_381_miller_loop({a}, {b}), bls12_381_miller_loop({c}, {d}))",
    "mul": "bls12_381_final_verify(bls12_381_mul_ml_result(bls12_381_miller_loop({a}, {b}), bls12_381_miller_loop({c}, {d})), bls12_381_miller_loop({a}, {d}))",
    "op*": "bls12_381_final_verify(bls12_381_miller_loop({a}, {b}) * bls12_381_miller_loop({c}, {d}), bls12_381_miller_loop({a}, {d}))",
}


def schnorr_vector():
    pk = bytes.fromhex("F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9")
    sg = bytes.fromhex("E907831F80848D1069A5371B402410364BDF1C5F8307B0084C55F1CE2DCA821525F66A4A85EA8B71E482A74F382D2CE5EBEEE8FDB2172F477DF4900D310536C0")
    return pk, bytes(32), sg


def ed_vector(m):
    import nacl.signing

    k = nacl.signing.SigningKey(bytes(range(32)))
    return bytes(k.verify_key), m, k.sign(m).signature


def ecdsa_vector(m):
    import ecdsa

    k = ecdsa.SigningKey.from_string(bytes(range(1, 33)), curve=ecdsa.SECP256k1)
    s = k.sign_digest_deterministic(m, hashfunc=hashlib.sha256, sigencode=ecdsa.util.sigencode_string_canonize)
    return k.verifying_key.to_string("compressed"), m, s


def flip(b, i):
    return b[:i] + bytes([b[i] ^ 1]) + b[i + 1 :]


def run_case(case):
    fam = case["fam"]
    if fam == "complete":
        import opshin.std.builtins as lib

        have = {n for n, v in vars(lib).items() if callable(v) and hasattr(v, "__wrapped__")}
        told = set(T) | {"constr_data", "equals_data", "serialise_data", "verify_ed25519_signature", "verify_ecdsa_secp256k1_signature", "verify_schnorr_secp256k1_signature"}
        told |= {f"bls12_381_g{g}_{k}" for g in (1, 2) for k in "uncompress compress add neg scalar_mul hash_to_group equal".split()}
        told |= {"bls12_381_miller_loop", "bls12_381_mul_ml_result", "bls12_381_final_verify"}
        v = [violation(case, f"function {n} of the builtin library is gone") for n in sorted(told - have)]
        return result(len(told), [sig("complete", n) for n in sorted(told & have)], v, None, unknown_functions=len(have - told))
    if fam in ("fn", "form"):
        types, alph, r, model, names, ps, a = fun(case["f"])
        args = list(itertools.product(*alph))
        if fam == "fn":
            src = f"from typing import List\n{ALL}def validator({ps}) -> {r}:\n    return {case['f']}({a})\n"
        else:
            args = args[:: max(1, len(args) // 40)]
            imp, body = FORMS[case["form"]]
            c = {"int": "{} > 0", "bytes": "len({}) > 1", "str": "{} == 'a'", "bool": "{}"}[types[0]].format(names[0])
            src = f"from typing import List\n{imp.format(f=case["f"], p=ps, r=r)}def validator({ps}) -> {r}:\n    {body.format(f=case["f"], a=a, p=ps, r=r, c=c)}\n"
        return run_model(case, src, ((str(x)[:80], x, out(model, x)) for x in args), case["cfgs"])
    if fam == "lit":
        types, alph, r, model, names, ps, a = fun(case["f"])
        lits = ", ".join(map(repr, case["args"]))
        src = f"from typing import List\n{ALL}def validator(n: int) -> {r}:\n    return {case['f']}({lits})\n"
        exp = out(model, case["args"])
        # a call that is known to fail may be refused at compile time
        if exp == ("err",):
            cfgs = [c for c in case["cfgs"] if compiled(src, c)[0] != "reject"]
            return run_model(case, src, [(lits[:80], (0,), exp)], cfgs)
        return run_model(case, src, [(lits[:80], (0,), exp)], case["cfgs"])
    if fam == "data":
        t, k = case["t"], case["k"]
        ns = {}
        exec(HDR, ns)
        vals = lambda t: [eval(v, ns) for v in DATA[t]]
        if k == "ser":
            src = HDR + ALL + f"def validator(x: {t}) -> bytes:\n    return serialise_data(x)\n"
            items = [(repr(v)[:80], (v,), ("ok", ("B", uplc.ast.plutus_cbor_dumps(data_to_uplc(canon_py(v)))))) for v in vals(t)]
        elif k == "eq":
            src = HDR + ALL + f"def validator(x: {t}, y: {case['t2']}) -> bool:\n    return equals_data(x, y)\n"
            items = [(repr((v, w))[:80], (v, w), ("ok", canon_py(canon_py(v) == canon_py(w)))) for v in vals(t) for w in vals(case["t2"])]
        else:
            src = HDR + ALL + f"def validator(n: int, x: {t}, y: {t}) -> Anything:\n    l: List[Anything] = [x, y]\n    return constr_data(n, l)\n"
            items = [
                (repr((n, v, w))[:80], (n, v, w), ("ok", ("C", n, (canon_py(v), canon_py(w)))))
                for n in (0, 1, 6, 7, 127, 128, 1000)
                for v in vals(t)[:3]
                for w in vals(t)[-2:]
            ]
        return run_model(case, src, items, case["cfgs"])
    if fam == "bls":
        g, k = case["g"], case["k"]
        ps, e, model = BLS[k]
        u = lambda v: f"bls12_381_g{g}_uncompress({v})"
        if k == "bad":
            src = BH + f"def validator(x: bytes) -> bytes:\n    return {C.format(g=g, e=u('x'))}\n"
            n = 48 * g
            ok = cp(g, 5)
            bads = [b"", bytes(n), ok[:-1], ok + b"\x00", b"\xff" * n, flip(ok, n - 1)[: n // 2] + bytes(n // 2), b"\x00" + ok[1:], cp(3 - g, 5)]
            inf = b"\xc0" + bytes(n - 1)
            return run_model(case, src, [(f"bad {i}", (b,), ("err",)) for i, b in enumerate(bads)] + [("infinity", (inf,), ("ok", ("B", inf))), ("ok", (ok,), ("ok", ("B", ok)))], case["cfgs"])
        if k == "hash":
            import pyblst

            c = [pyblst.BlstP1Element, pyblst.BlstP2Element][g - 1]
            src = BH + f"def validator(x: bytes, y: bytes) -> bytes:\n    return {C.format(g=g, e=f'bls12_381_g{g}_hash_to_group(x, y)')}\n"
            return run_model(case, src, [(repr((m, d)), (m, d), ("ok", ("B", bytes(c.hash_to_group(m, d).compress())))) for m in BYTES for d in (b"", b"a", b"dst" * 20)], case["cfgs"])
        names = ["x", "y"][: len(ps)]
        ty = {"p": "bytes", "i": "int"}
        body = (e or "").format(g=g, x=u("x"), y=u("y"))
        boolean = k in ("equal", "op==")
        sig_ = ", ".join(f"{n}: {ty[p]}" for n, p in zip(names, ps))
        if k == "compress":
            src = BH + f"def validator({sig_}) -> bytes:\n    return {body}\n"
            model = lambda x: x
        elif boolean:
            src = BH + f"def validator({sig_}) -> bool:\n    return {body}\n"
        else:
            src = BH + f"def validator({sig_}) -> bytes:\n    return {C.format(g=g, e=body)}\n"

        def items():
            for ks in itertools.product(KS, repeat=len(ps)):
                args = tuple(cp(g, v) if p == "p" else v for p, v in zip(ps, ks))
                m = model(*ks)
                yield f"{ks}", args, ("ok", canon_py(m) if boolean else ("B", cp(g, m % R)))

        return run_model(case, src, items(), case["cfgs"])
    if fam == "pair":
        k = case["k"]
        u = lambda g, v: f"bls12_381_g{g}_uncompress({v})"
        src = BH + "def validator(a: bytes, b: bytes, c: bytes, d: bytes) -> bool:\n    return " + PAIR[k].format(a=u(1, "a"), b=u(2, "b"), c=u(1, "c"), d=u(2, "d")) + "\n"

        def items():
            for a, b, c, d in itertools.product([0, 1, 2, 6], [1, 3, 0], [1, 2, -1], [1, 6, 3]):
                m = (a * b == c * d) if k == "verify" else (a * b + c * d == a * d)
                yield f"{(a, b, c, d)}", (cp(1, a), cp(2, b), cp(1, c), cp(2, d)), ("ok", canon_py(m))

        return run_model(case, src, items(), case["cfgs"])
    if fam == "sig":
        f = dict(ed="verify_ed25519_signature", ecdsa="verify_ecdsa_secp256k1_signature", schnorr="verify_schnorr_secp256k1_signature")[case["k"]]
        src = ALL + f"def validator(k: bytes, m: bytes, s: bytes) -> bool:\n    return {f}(k, m, s)\n"
        items = []
        # without libsecp256k1 the machine cannot evaluate these
        dead = case["k"] != "ed" and uplc.ast.pysecp256k1 is None or case["k"] == "schnorr" and getattr(uplc.ast, "schnorrsig", None) is None
        vs = dict(ed=[ed_vector(m) for m in (b"", b"a", bytes(64))], ecdsa=[ecdsa_vector(m) for m in (bytes(31) + b"\x01", b"\xab" * 32)], schnorr=[schnorr_vector()])[case["k"]]
        for pk, m, s in vs:
            items.append(("valid", (pk, m, s), ("ok", canon_py(True))))
            for i in (1, 20, 40):
                items.append((f"flip s {i}", (pk, m, flip(s, i)), ("ok", canon_py(False))))
            if m:
                items.append(("flip m", (pk, flip(m, 0), s), ("ok", canon_py(False))))
            items.append(("short s", (pk, m, s[:-1]), ("err",)))
            items.append(("short key", (pk[:-1], m, s), ("err",)))
        if dead:
            items = [(l, a, ("err",)) for l, a, o in items]
        return run_model(case, src, items, case["cfgs"])
