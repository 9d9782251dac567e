"""C13: a bitmap behaves as a set of bit positions.

Model: (number of bytes, frozenset of positions).  Breadth-first exploration of
the model from the empty bitmap; every transition is replayed on the library
under CPython and compiled.  In addition all operation sequences up to a
length are run from init_bitmap inside one script."""
import itertools

from ..lib import *

PROP = "C13"
LEVEL = "model_checking"
CHUNK = 1
RULE = (
    "All states of bitmaps of 0 and 1 bytes and all states of 2 (3) bytes within a bounded number of operations from "
    "the empty and the full bitmap; from every state every operation with every position from -2 to one past the end "
    "(lists of up to two positions); plus all operation sequences up to a length in one script. Non-trivial: distinct (state, operation)."
)
ASSUMPTIONS = [
    "position i is bit i % 8 of byte i // 8 counted from the end (CIP-122, which the library documents by reference to the builtins)",
    "CPython and the uplc CEK machine are correct",
]
HEAD = "from opshin.std.bitmap import *\n"
STEP = HEAD + """def validator(b: bytes, op: int, l: List[int]) -> bytes:
    r = b
    if op == 0:
        r = set_bitmap(b, l)
    elif op == 1:
        r = reset_bitmap(b, l)
    elif op == 2:
        r = flip_bitmap(b, l[0])
    elif op == 3:
        r = b"1" if test_bitmap(b, l[0]) else b"0"
    elif op == 4:
        r = (b"1" if any_bitmap(b) else b"0") + (b"1" if all_bitmap(b) else b"0") + (b"1" if none_bitmap(b) else b"0") + str(size_bitmap(b)).encode()
    else:
        r = init_bitmap(l[0])
    return r
"""
SEQ = HEAD + """def validator(size: int, ops: List[int], ixs: List[int]) -> bytes:
    b = init_bitmap(size)
    out = b""
    k = 0
    for op in ops:
        i = ixs[k]
        k += 1
        if op == 0:
            b = set_bitmap(b, [i])
        elif op == 1:
            b = reset_bitmap(b, [i])
        elif op == 2:
            b = flip_bitmap(b, i)
        elif op == 3:
            out = out + (b"1" if test_bitmap(b, i) else b"0")
        else:
            out = out + (b"1" if any_bitmap(b) else b"0") + (b"1" if all_bitmap(b) else b"0") + (b"1" if none_bitmap(b) else b"0")
    return b + out
"""


def enc(n, s):
    return sum(1 << i for i in s).to_bytes(n, "big")


def step(n, s, op, l):
    """-> ("ok", bytes) | ("err",), successor set"""
    ok = all(0 <= i < 8 * n for i in l)
    if op in (0, 1, 2, 3) and not ok:
        return ("err",), None
    if op == 0:
        t = s | set(l)
    elif op == 1:
        t = s - set(l)
    elif op == 2:
        t = s ^ {l[0]}
    elif op == 3:
        return ("ok", ("B", b"1" if l[0] in s else b"0")), s
    elif op == 4:
        v = b"".join(b"1" if x else b"0" for x in (len(s) > 0, len(s) == 8 * n, len(s) == 0))
        return ("ok", ("B", v + str(8 * n).encode())), s
    t = frozenset(t)
    return ("ok", ("B", enc(n, t))), t


def ops(n, pairs):
    ix = list(range(-2, 8 * n + 2))
    yield 4, []
    yield 0, []
    yield 1, []
    for i in ix:
        for op in (0, 1, 2, 3):
            yield op, [i]
    if pairs:
        pi = [-1, 0, 1, 7, 8 * n - 1, 8 * n] if pairs == 1 else ix
        for i, j in itertools.product(pi, pi):
            yield 0, [i, j]
            yield 1, [j, i]


def reach(n, depth):
    """states within `depth` single flips of the empty or full bitmap"""
    seen = {frozenset(), frozenset(range(8 * n))}
    todo = list(seen)
    for _ in range(depth):
        nxt = []
        for s in todo:
            for i in range(8 * n):
                t = s ^ {i}
                if t not in seen:
                    seen.add(t)
                    nxt.append(t)
        todo = nxt
    return sorted(seen, key=lambda s: (len(s), sorted(s)))


SPACES_Q = [(0, 0), (1, 4), (2, 1), (3, 1)]
SPACES_T = [(0, 0), (1, 4), (2, 3), (3, 2), (9, 1)]


def cases(tier):
    th = tier == "thorough"
    k = 0
    for n, d in SPACES_T if th else SPACES_Q:
        st = reach(n, d)
        c = 8
        for i in range(0, len(st), c):
            k += 1
            yield dict(id=f"bfs:{n}:{i}", kind="bfs", n=n, states=[sorted(s) for s in st[i : i + c]], pairs=(2 if th and n == 1 else 1), cfgs=["O1", "O3"] if th else [["O1", "O2", "O3"][k % 3]])
    yield dict(id="init", kind="init", cfgs=["O1", "O2", "O3"])
    for size in (1, 8, 9) if not th else (0, 1, 8, 9, 17):
        for op in range(5):
            yield dict(id=f"seq:{size}:{op}", kind="seq", size=size, op=op, depth=4 if th else 3, cfgs=["O2"])


def items(case):
    if case["kind"] == "bfs":
        n = case["n"]
        for st in case["states"]:
            s = frozenset(st)
            for op, l in ops(n, case["pairs"]):
                o, _ = step(n, s, op, l)
                yield f"{enc(n, s)!r} op{op} {l}", (enc(n, s), op, l), o
    elif case["kind"] == "init":
        for size in list(range(-20, 70)) + [8191 * 8, 8192 * 8, 8192 * 8 + 1, 10**6]:
            k = (size + 7) // 8
            yield f"init {size}", (b"", 5, [size]), (("ok", ("B", bytes(k))) if 0 <= k <= 8192 else ("err",))
    else:
        n = (case["size"] + 7) // 8
        ix = sorted({0, 7, 8 * n - 1, 8 * n, 3} if n else {0, -1})
        alpha = [(o, i) for o in range(4) for i in ix] + [(4, 0)]
        first = [a for a in alpha if a[0] == case["op"]]
        for d in range(0 if case["op"] == 0 else 1, case["depth"] + 1):
            for seq in itertools.product(first, *[alpha] * (d - 1)) if d else [()]:
                s, out, res = frozenset(), b"", None
                for op, i in seq:
                    o, s = step(n, s, op, [i] if op < 4 else [])
                    if o == ("err",):
                        res = o
                        break
                    if op == 3:
                        out += o[1][1]
                    elif op == 4:
                        out += o[1][1][:3]
                yield f"size {case['size']} {seq}", (case["size"], [o for o, _ in seq], [i for _, i in seq]), res or ("ok", ("B", enc(n, s) + out))


def run_case(case):
    r = run_model(case, SEQ if case["kind"] == "seq" else STEP, items(case), case["cfgs"])
    r["extra"]["bitmap_states"] = len(case.get("states", ()))
    r["extra"]["operation_sequences"] = r["extra"]["offchain_evaluations"] if case["kind"] == "seq" else 0
    return r


def coverage(tier, extra, all_extra, sigs):
    return dict(
        states=extra["bitmap_states"],
        transitions=len(sigs),
        traces_validated_against_impl=extra["offchain_evaluations"] + extra["onchain_evaluations"],
        conformance="every transition of the model is replayed on the library under CPython and compiled",
    )
