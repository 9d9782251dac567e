"""C12: time interval operations agree with the sets of points they denote.

Model: a point set over the extended, densely ordered time line.  The grid of
finite limits g_0 < g_1 < ... is refined to the points -inf, (below g_0), g_0,
(between), g_1, ..., (above), +inf; every interval with limits on the grid is
the set of the refined points inside it.  Containment is set inclusion."""
from ..lib import *
from ..diff import sig

PROP = "C12"
LEVEL = "model_checking"
CHUNK = 1
RULE = (
    "All intervals whose two limits are taken from -inf, a grid of finite times, and +inf, each open or closed (also "
    "reversed and empty ones), as an explicit state space; all ordered pairs of them; every operation on every pair is "
    "evaluated in the point set model, by CPython and by the compiled library."
)
ASSUMPTIONS = [
    "Time is dense and extended by -inf and +inf, which belong to an interval closed there (as in the ledger's own interval library)",
    "contains(a, b) is compared for non-empty b; the library does not recognise empty intervals",
    "CPython and the uplc CEK machine are correct",
]
SRC = """from opshin.ledger.interval import *
def validator(op: int, a: POSIXTimeRange, b: POSIXTimeRange) -> int:
    if op == 0:
        r = 1 if contains(a, b) else 0
    elif op == 1:
        r = compare_lower_bound(a.lower_bound, b.lower_bound)
    elif op == 2:
        r = compare_upper_bound(a.upper_bound, b.upper_bound)
    elif op == 3:
        r = compare_extended(a.lower_bound.limit, b.upper_bound.limit)
    elif op == 4:
        r = compare_extended_helper(a.lower_bound.limit)
    elif op == 5:
        r = 1 if get_bool(a.upper_bound.closed) else 0
    else:
        r = compare_extended(a.upper_bound.limit, b.upper_bound.limit)
    return r
"""
MAKE = """from opshin.ledger.interval import *
def validator(op: int, x: int, y: int) -> POSIXTimeRange:
    if op == 0:
        r = make_range(x, y)
    elif op == 1:
        r = make_from(x)
    else:
        r = make_to(y)
    return r
"""
CMP = """from opshin.ledger.interval import *
def validator(x: int, y: int) -> int:
    return compare(x, y)
"""
IN = """from opshin.ledger.interval import *
def validator(op: int, x: int, y: int, t: int) -> bool:
    if op == 0:
        r = make_range(x, y)
    elif op == 1:
        r = make_from(x)
    else:
        r = make_to(y)
    return contains(r, make_range(t, t))
"""
GRIDS_Q = [(0, 1, 2), (-(2**70), -1, 2**65)]
GRIDS_T = [(0, 1, 2, 3, 4), (-3, -2, -1, 0), (-(2**70), -(2**63), -1, 2**65), (10, 1000, 1745501373000, 2**64)]
INTS = [0, 1, -1, 2, -2, 255, 256, 2**63, -(2**63), 2**64 + 1, 10**30, -(10**30)]


def intervals(n):
    """limits are ranks: 0 = -inf, 1..n finite, n+1 = +inf"""
    bounds = [(l, c) for l in range(n + 2) for c in (False, True)]
    return [(lo, hi) for lo in bounds for hi in bounds]


def points(iv, n):
    """refined points: rank r is point 2r, the gap above it 2r + 1"""
    (l, lc), (h, hc) = iv
    return frozenset(
        p
        for p in range(2 * (n + 1) + 1)
        if (p > 2 * l or (p == 2 * l and lc)) and (p < 2 * h or (p == 2 * h and hc))
    )


def cmp(a, b):
    return 1 if a < b else 0 if a == b else -1


def lowset(b, n):
    return points((b, (n + 1, True)), n)


def upset(b, n):
    return points(((0, True), b), n)


def model(op, a, b, n):
    """compare*: 1 if a comes first; None = outside the property"""
    if op == 0:
        if not points(b, n):
            return None
        return int(points(b, n) <= points(a, n))
    if op == 1:  # the larger set starts first
        x, y = lowset(a[0], n), lowset(b[0], n)
        return 0 if x == y else (1 if x > y else -1)
    if op == 2:
        x, y = upset(a[1], n), upset(b[1], n)
        return 0 if x == y else (1 if x < y else -1)
    if op == 3:
        return cmp(a[0][0], b[1][0])
    if op == 4:
        return -1 if a[0][0] == 0 else 1 if a[0][0] == n + 1 else 0
    if op == 5:
        return int(a[1][1])
    return cmp(a[1][0], b[1][0])


def build(ns, iv, grid):
    def lim(r):
        if r == 0:
            return ns["NegInfPOSIXTime"]()
        if r == len(grid) + 1:
            return ns["PosInfPOSIXTime"]()
        return ns["FinitePOSIXTime"](grid[r - 1])

    def cl(c):
        return ns["TrueData"]() if c else ns["FalseData"]()

    (l, lc), (h, hc) = iv
    return ns["POSIXTimeRange"](
        ns["LowerBoundPOSIXTime"](lim(l), cl(lc)), ns["UpperBoundPOSIXTime"](lim(h), cl(hc))
    )


def cases(tier):
    th = tier == "thorough"
    for gi, grid in enumerate(GRIDS_T if th else GRIDS_Q):
        ivs = intervals(len(grid))
        step = 5 if th else 20
        for i in range(0, len(ivs), step):
            yield dict(id=f"pairs:{gi}:{i}", kind="pairs", grid=grid, rows=list(range(i, min(i + step, len(ivs)))), cfgs=["O1", "O3"] if th else [["O1", "O2", "O3"][(i // step) % 3]])
    for op in (0, 1, 2):
        yield dict(id=f"make:{op}", kind="make", op=op, cfgs=["O1", "O2", "O3"])
        yield dict(id=f"in:{op}", kind="in", op=op, cfgs=["O1", "O2", "O3"])
    yield dict(id="cmp", kind="cmp", cfgs=["O1", "O2", "O3"])


def items(case):
    k = case["kind"]
    if k == "pairs":
        grid = case["grid"]
        n = len(grid)
        ns = loaded(SRC).ns
        ivs = intervals(n)
        objs = [build(ns, iv, grid) for iv in ivs]
        for i in case["rows"]:
            for j, b in enumerate(ivs):
                for op in range(7):
                    if op in (4, 5) and j:
                        continue
                    if op in (1, 2, 3, 6) and ((j % (2 * (n + 2))) if op == 1 else (j >= 2 * (n + 2))):
                        continue  # depends on one bound of b only
                    m = model(op, ivs[i], b, n)
                    if m is not None:
                        yield f"op{op} {ivs[i]} {b} grid {grid}", (op, objs[i], objs[j]), ("ok", ("I", m))
    elif k == "make":
        F, T, lo, hi = (lambda x: ("C", 1, (("I", x),))), ("C", 1, ()), ("C", 0, ()), ("C", 2, ())
        for x in INTS:
            for y in INTS:
                l = lo if case["op"] == 2 else F(x)
                h = hi if case["op"] == 1 else F(y)
                yield f"make{case['op']} {x} {y}", (case["op"], x, y), ("ok", ("C", 0, (("C", 0, (l, T)), ("C", 0, (h, T)))))
    elif k == "in":
        v = [-(2**65), -1, 0, 1, 5, 6, 2**65]
        for x in v:
            for y in v:
                for t in v:
                    r = (case["op"] == 2 or x <= t) and (case["op"] == 1 or t <= y)
                    yield f"in{case['op']} {x} {y} {t}", (case["op"], x, y, t), ("ok", ("I", int(r)))
    else:
        for x in INTS:
            for y in INTS:
                yield f"compare {x} {y}", (x, y), ("ok", ("I", cmp(x, y)))


SRCS = dict(pairs=SRC, make=MAKE, cmp=CMP)
SRCS["in"] = IN


def run_case(case):
    r = run_model(case, SRCS[case["kind"]], items(case), case["cfgs"])
    r["extra"]["interval_states"] = len(case.get("rows", ()))
    return r


def coverage(tier, extra, all_extra, sigs):
    return dict(
        states=extra["interval_states"],
        transitions=len(sigs),
        traces_validated_against_impl=extra["offchain_evaluations"] + extra["onchain_evaluations"],
        conformance="every transition of the model is replayed on the library under CPython and compiled",
    )
