"""C11: the math and fraction libraries satisfy their defining laws."""
import itertools
import math
import operator
from fractions import Fraction as Q

from ..lib import *

PROP = "C11"
LEVEL = "exploration"
CHUNK = 1
RULE = (
    "Every operation of opshin.std.fractions on all pairs of fractions with numerator and denominator in [-N, N] "
    "(denominator not 0) and all fraction/int pairs, and every function of opshin.std.math on all small operands and "
    "boundary values, executed by CPython and compiled, against fractions.Fraction and int of the standard library. "
    "Non-trivial: distinct (operation, operands)."
)
ASSUMPTIONS = ["CPython's int and fractions.Fraction and the uplc CEK machine are correct"]
FR = "from opshin.std.fractions import *\n"
MA = "from opshin.std.math import *\n"


def ser(v):
    if isinstance(v, Q):
        return ("Q", v.numerator, v.denominator)
    return canon_py(v)


def post_q(o):
    """fractions are compared by value"""
    if o[0] == "ok" and o[1][0] == "C" and len(o[1][2]) == 2:
        n, d = o[1][2][0][1], o[1][2][1][1]
        if d == 0:
            return ("ok", ("Q/0", n))
        return ("ok", ser(Q(n, d)))
    return o


def floordiv(a, b):
    return math.floor(Q(a) / Q(b))


BIN = {
    "add": ("+", "Fraction", operator.add),
    "sub": ("-", "Fraction", operator.sub),
    "mul": ("*", "Fraction", operator.mul),
    "div": ("/", "Fraction", lambda a, b: Q(a) / Q(b)),
    "fdiv": ("//", "int", floordiv),
    "lt": ("<", "bool", operator.lt),
    "le": ("<=", "bool", operator.le),
    "gt": (">", "bool", operator.gt),
    "ge": (">=", "bool", operator.ge),
    "eq": ("==", "bool", operator.eq),
    "ne": ("!=", "bool", operator.ne),
}
UN = {
    "neg": ("-a", "Fraction", operator.neg),
    "ceil": ("a.ceil()", "int", math.ceil),
    "floor": ("a.floor()", "int", math.floor),
    "ceil_f": ("ceil_fraction(a)", "int", math.ceil),
    "floor_f": ("floor_fraction(a)", "int", math.floor),
    "norm": ("a.norm()", "Fraction", None),
    "norm_f": ("norm_fraction(a)", "Fraction", None),
}
BIG = [2**64 + 1, -(2**65), 10**20]


def fracs(tier):
    n = 4 if tier == "quick" else 7
    res = [(a, b) for a in range(-n, n + 1) for b in range(-n, n + 1) if b]
    if tier == "quick":
        # 3 * 2 and 4 * 2 keep the unreduced ones
        res = [(a, b) for a, b in res if abs(a) in (0, 1, 2, 4) and abs(b) in (1, 2, 3, 4)]
    return res + [(BIG[0], 3), (-7, BIG[1]), (BIG[2], -BIG[2])]


def cases(tier):
    th = tier == "thorough"
    n = 0

    def cfgs():
        nonlocal n
        n += 1
        return ["O1", "O2", "O3"] if th else [["O1", "O2", "O3"][n % 3]]

    for op in BIN:
        for kind in ("ff", "fi", "if"):
            if kind == "if" and op in ("lt", "le", "gt", "ge", "eq", "ne"):
                continue
            for part in range(4 if kind == "ff" else 1):
                yield dict(id=f"{op}:{kind}:{part}", kind=kind, op=op, part=part, tier=tier, cfgs=cfgs())
    for e in range(-3, 4):
        yield dict(id=f"pow:{e}", kind="pow", op=e, tier=tier, cfgs=cfgs())
    for op in UN:
        yield dict(id=f"{op}", kind="un", op=op, tier=tier, cfgs=cfgs())
    for op in ("assoc", "mix", "sum"):
        yield dict(id=f"expr:{op}", kind="expr", op=op, tier=tier, cfgs=cfgs())
    for f in MATH:
        yield dict(id=f"math:{f}", kind="math", op=f, tier=tier, cfgs=cfgs())


EXPR = {
    "assoc": ("((a + b) * c - a * c).norm()", lambda a, b, c: b * c),
    "mix": ("(a * 2 + b / 3 - c).norm()", lambda a, b, c: a * 2 + b / 3 - c),
    "sum": ("(1 - a + (2 * b) - 3 // (c * c + 1))", lambda a, b, c: 1 - a + 2 * b - floordiv(Q(3), c * c + 1)),
}


def div_like(op):
    return op in ("div", "fdiv")


def norm_data(q):
    return ("C", 1, (("I", q.numerator), ("I", q.denominator)))


INTS = list(range(-20, 21)) + [2**63, 2**64, -(2**64), 10**30, -(10**30), 255, 256, 257, 65535, 65536]


def to_bytes(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def attempt(f):
    try:
        return ("ok", canon_py(f()))
    except (ZeroDivisionError, OverflowError, ValueError):
        return ("err",)


def all_bytes(th):
    for l in range(3 if th else 2):
        for t in itertools.product(range(256), repeat=l):
            yield bytes(t)
    for b in (b"\x00\x01", b"\x01\x00", b"\xff\xff", b"\x00" * 9, b"\x80" + bytes(8), b"\x01\x02\x03", bytes(range(1, 70))):
        yield b


def ands(a, b):
    m = max(len(a), len(b))
    return bytes(x & y for x, y in zip(a.ljust(m, b"\xff"), b.ljust(m, b"\xff")))


BS = [b"", b"\x00", b"\xff", b"\x0f\xf0", b"\xaa\x55\x0f", b"\x01\x02\x03\x04", b"\x00\x00"]
MATH = {
    "gcd": ("a: int, b: int", "int", "gcd(a, b)", lambda th: itertools.product(INTS, INTS), lambda a, b: ("ok", ("I", math.gcd(a, b)))),
    "sign": ("a: int", "int", "sign(a)", lambda th: [(i,) for i in INTS if i], lambda a: ("ok", ("I", (a > 0) - (a < 0)))),
    "sign0": ("a: int", "int", "sign(a)", lambda th: [(0,)], lambda a: ("ok", ("I", 0))),
    "ufrom": ("b: bytes", "int", "unsigned_int_from_bytes_big(b)", lambda th: [(b,) for b in all_bytes(th)], lambda b: ("ok", ("I", int.from_bytes(b, "big")))),
    "uto": (
        "n: int",
        "bytes",
        "bytes_big_from_unsigned_int(n)",
        lambda th: [(n,) for n in list(range(-3, 70000 if th else 600)) + [256**k + d for k in range(2, 12) for d in (-1, 0, 1)]],
        lambda n: attempt(lambda: to_bytes(n)),
    ),
    "round": ("n: int", "int", "unsigned_int_from_bytes_big(bytes_big_from_unsigned_int(n))", lambda th: [(n,) for n in range(0, 700)], lambda n: ("ok", ("I", n))),
    "ceil": ("a: int, b: int", "Anything", "ceil(a, b)", lambda th: itertools.product(INTS, INTS), lambda a, b: attempt(lambda: math.ceil(Q(a, b)))),
    "floor": ("a: int, b: int", "Anything", "floor(a, b)", lambda th: itertools.product(INTS, INTS), lambda a, b: attempt(lambda: math.floor(Q(a, b)))),
    "and": ("a: bytes, b: bytes", "bytes", "and_bytestring(a, b)", lambda th: itertools.product(BS, BS), lambda a, b: ("ok", ("B", ands(a, b)))),
}


def program(case):
    k, op = case["kind"], case["op"]
    if k in ("ff", "fi", "if"):
        s, ret, _ = BIN[op]
        ta, tb = ("Fraction" if c == "f" else "int" for c in k)
        return FR + f"def validator(a: {ta}, b: {tb}) -> {ret}:\n    return a {s} b\n"
    if k == "pow":
        return FR + f"def validator(a: Fraction, e: int) -> Fraction:\n    return a ** e\n"
    if k == "un":
        e, ret, _ = UN[op]
        return FR + f"def validator(a: Fraction) -> {ret}:\n    return {e}\n"
    if k == "expr":
        return FR + f"def validator(a: Fraction, b: Fraction, c: Fraction) -> Fraction:\n    return {EXPR[op][0]}\n"
    ps, ret, e, _, _ = MATH[op]
    return MA + f"def validator({ps}) -> {ret}:\n    return {e}\n"


def items(case, F):
    k, op, th = case["kind"], case["op"], case["tier"] == "thorough"
    fr = fracs(case["tier"])
    if k in ("ff", "fi", "if"):
        f = BIN[op][2]
        ints = list(range(-5, 6)) + BIG[:2]
        left = fr if k[0] == "f" else ints
        right = fr if k[1] == "f" else ints
        for i, a in enumerate(left):
            if k == "ff" and i % 4 != case["part"]:
                continue
            for b in right:
                qa = Q(*a) if k[0] == "f" else a
                qb = Q(*b) if k[1] == "f" else b
                if div_like(op) and qb == 0:
                    if op == "div":
                        continue
                    exp = ("err",)
                else:
                    exp = ("ok", ser(f(qa, qb)))
                yield f"{a} {op} {b}", (F(*a) if k[0] == "f" else a, F(*b) if k[1] == "f" else b), exp
    elif k == "pow":
        for a in fr:
            if a[0] == 0 and op < 0:
                continue
            yield f"{a} ** {op}", (F(*a), op), ("ok", ser(Q(*a) ** op))
    elif k == "un":
        f = UN[op][2]
        for a in fr:
            q = Q(*a)
            yield f"{op} {a}", (F(*a),), ("ok", norm_data(q) if f is None else ser(f(q)))
    elif k == "expr":
        few = [(0, 1), (1, 2), (-1, 3), (2, -4), (5, 1), (-3, -2)]
        for a, b, c in itertools.product(few if not th else few + [(7, 3), (-9, 6)], repeat=3):
            yield f"{op} {a} {b} {c}", (F(*a), F(*b), F(*c)), ("ok", ser(Q(EXPR[op][1](Q(*a), Q(*b), Q(*c)))))
    else:
        _, _, _, args, f = MATH[op]
        for a in args(th):
            yield f"{op} {a}", a, f(*a)


def run_case(case):
    src = program(case)
    F = loaded(src).ns.get("Fraction")
    exact = case["op"] in ("norm", "norm_f") or case["kind"] == "math"
    return run_model(case, src, items(case, F), case["cfgs"], post=None if exact else post_q)
