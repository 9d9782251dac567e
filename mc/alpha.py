"""Value alphabets per static type, and program templates."""
import itertools

from .diff import prog

HDR = """from typing import Dict, List, Tuple, Union
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: List[int]
@dataclass
class E(PlutusData):
    CONSTR_ID = 2
@dataclass
class N(PlutusData):
    CONSTR_ID = 3
    a: A
    u: Union[A, B]
    d: Dict[int, bytes]
"""

INT_Q = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 255, 256, -256, 2**63, -(2**64) - 1]
INT_T = INT_Q + [5, -10, 64, 65, 127, 128, 2**31, 2**64, 10**20, -(10**20)]
BYTES_Q = [b"", b"\x00", b"a", b"ab", b"b", b"\xff", b"aa", b"\x00\x00"]
BYTES_T = BYTES_Q + [b"ba", b"a" * 64, b"a" * 65, b"\x80", b"\x7f"]
STR_Q = ["", "a", "b", "ab", "ba", "\u00e9", "\x00", "aa"]
STR_T = STR_Q + ["\U0001f600", "a" * 65, "A"]
VALS = {
    "int": (INT_Q, INT_T),
    "bytes": (BYTES_Q, BYTES_T),
    "str": (STR_Q, STR_T),
    "bool": ([False, True],) * 2,
    "None": ([None],) * 2,
    "List[int]": (
        [[], [0], [1], [0, 1], [1, 0], [0, 0], [1, 2, 3], [5, 4, 3, 2, 1, 0, -1]],
    )
    * 2,
    "List[bytes]": ([[], [b""], [b"a"], [b"a", b"b"], [b"a", b"a"]],) * 2,
    "List[str]": ([[], [""], ["a"], ["a", "b"]],) * 2,
    "List[bool]": ([[], [True], [False], [True, False], [True, True, True]],) * 2,
    "List[List[int]]": ([[], [[]], [[0]], [[0], [1]], [[0, 1]]],) * 2,
    "Dict[int, bytes]": ([{}, {0: b""}, {1: b"a"}, {0: b"a", 1: b"b"}],) * 2,
    "Dict[int, int]": ([{}, {0: 0}, {1: 5}, {0: 3, 1: 2}, {1: 2, 0: 3}],) * 2,
    "Dict[bytes, int]": ([{}, {b"": 0}, {b"a": 1}, {b"a": 1, b"b": 0}],) * 2,
    "Dict[str, int]": ([{}, {"": 0}, {"a": 1}, {"a": 1, "b": 0}],) * 2,
}
SRCVALS = {
    "A": ["A(0)", "A(1)", "A(-1)"],
    "B": ["B(b'', [])", "B(b'a', [0])", "B(b'a', [1])", "B(b'', [0])"],
    "E": ["E()"],
    "N": ["N(A(0), A(1), {})", "N(A(1), B(b'q', [1, 2]), {1: b'x', 2: b''})"],
    "Union[A, B]": ["A(0)", "A(1)", "B(b'', [])", "B(b'a', [0])"],
    "Union[int, bytes]": ["0", "1", "b''", "b'a'"],
    "Union[A, E]": ["A(0)", "E()"],
    "Union[A, B, int]": ["A(0)", "B(b'', [])", "7"],
        "Union[A, int, bytes, List[Anything], Dict[Anything, Anything]]": [
        "A(3)",
        "0",
        "b'a'",
        "[1]",
        "{1: b'z'}",
    ],
    "List[A]": ["[]", "[A(0)]", "[A(1)]", "[A(0), A(1)]"],
    "List[Union[A, B]]": ["[]", "[A(0)]", "[A(1), B(b'a', [1])]"],
    "Dict[int, A]": ["{}", "{1: A(0)}", "{0: A(5), 1: A(7)}"],
    "Dict[A, int]": ["{}", "{A(0): 1}"],
    "Anything": ["0", "1", "b'a'", "[]", "A(0)", "{0: 1}"],
}


def vals(t, tier):
    if t in SRCVALS:
        return SRCVALS[t]
    return [repr(x) for x in VALS[t][tier == "thorough"]]


TYPES = [t for t in list(VALS) + list(SRCVALS)]

CFG_ALT = ["O0", "O2", "O3"]


class Mk:
    """Builds cases; at the quick tier every program runs at O1 and every
    `every`-th one at one further level in rotation, at the thorough tier at
    all four levels."""

    def __init__(self, tier, every=2, base="O1", alts=CFG_ALT):
        self.tier, self.n, self.every, self.base, self.alts = tier, 0, every, base, alts

    def cfgs(self):
        self.n += 1
        if self.tier == "thorough":
            return [self.base] + list(self.alts)
        if self.n % self.every == 0:
            return [self.base, self.alts[(self.n // self.every) % len(self.alts)]]
        return [self.base]

    def case(self, cid, src, argsets, cfgs=None, **kw):
        return prog(cid, src, argsets, cfgs or self.cfgs(), **kw)

    def expr(self, cid, expr, params, argsets=None, ret=None, hdr=None, pre="", **kw):
        """`params`: {name: type}; `argsets`: explicit or full cross product"""
        body = f"    return {expr}\n"
        return self.body(cid, pre + body, params, argsets, ret, hdr, **kw)

    def body(self, cid, body, params, argsets=None, ret=None, hdr=None, top="", **kw):
        sig = ", ".join(f"{n}: {t}" for n, t in params.items())
        arrow = f" -> {ret}" if ret else ""
        if hdr is None:
            txt = sig + body + top + arrow
            hdr = HDR if any(c in txt for c in "ABEN[") else ""
        src = f"{hdr}{top}def validator({sig}){arrow}:\n{body}"
        if argsets is None:
            argsets = list(
                itertools.product(*(vals(t, self.tier) for t in params.values()))
            )
        else:
            argsets = [
                tuple(a if isinstance(a, str) and kw.get("raw") else repr(a) for a in s)
                for s in argsets
            ]
        kw.pop("raw", None)
        return self.case(cid, src, argsets, **kw)
