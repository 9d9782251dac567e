"""C03: lists, dicts, tuples, bytes and their comprehensions agree with Python."""
from ..alpha import *
from ..diff import *

PROP = "C03"
LEVEL = "exploration"
RULE = (
    "every indexing/slicing position (all start/stop combinations from -n-2 to n+2 "
    "for lengths 0..n), every membership/method/comprehension template x element "
    "type x boundary containers, every short chain of container-building steps, "
    "against CPython; distinct by (program, arguments, outcome)"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source text is the reference",
    "slices without step; other step values are rejected by the compiler",
]

SEQ = {
    "bytes": [b"", b"a", b"ab", b"abc", b"\x00\x01\x02\x03"],
    "List[int]": [[], [1], [1, 2], [1, 2, 3], [4, 3, 2, 1]],
    "List[bytes]": [[], [b"a"], [b"a", b""], [b"x", b"y", b"z"]],
    "List[str]": [[], ["a"], ["a", "b", "c"]],
    "List[bool]": [[], [True], [False, True, False]],
    "List[List[int]]": [[], [[1]], [[1], [], [2, 3]]],
    "List[Dict[int, int]]": [[], [{1: 2}], [{}, {3: 4}]],
}
ELEM = {"bytes": "int", "List[int]": "int", "List[bytes]": "bytes", "List[str]": "str",
        "List[bool]": "bool", "List[List[int]]": "List[int]", "List[Dict[int, int]]": "Dict[int, int]"}


def cases(tier):
    th = tier == "thorough"
    m = Mk(tier, every=2)
    N = 7 if th else 5
    # ---------------- indexing
    for t, vs in SEQ.items():
        args = [(v, i) for v in vs for i in range(-len(v) - 2, len(v) + 3)]
        yield m.expr(f"index:{t}", "a[i]", dict(a=t, i="int"), args)
        for k in (-4, -3, -2, -1, 0, 1, 2, 3, 6):
            yield m.expr(f"indexc:{t}:{k}", f"a[{k}]", dict(a=t), [(v,) for v in vs])
    longl = list(range(17))
    for k in list(range(0, 17)) + [-17, -16, -1, -9, -18, 17]:
        yield m.expr(f"indexlong:{k}", f"a[{k}]", dict(a="List[int]"),
                     [(longl,), (longl[:-1],), (longl[:6],)], cfgs=["O1", "O2", "O2+fast_access_skip=2", "O2+fast_access_skip=3"])
    yield m.expr("indexlongv", "a[i]", dict(a="List[int]", i="int"),
                 [(longl[:n], i) for n in (5, 6, 10, 11, 16) for i in range(-17, 17)], cfgs=["O1", "O2", "O2+fast_access_skip=2"])
    # ---------------- slicing
    for t, vs in SEQ.items():
        if t not in ("bytes", "List[int]", "List[bytes]", "List[List[int]]"):
            continue
        vv = [v for v in vs if len(v) in (0, 1, 3, 4)] if not th else vs
        args = [(v, i, j) for v in vv for i in range(-len(v) - 1, len(v) + 2) for j in range(-len(v) - 1, len(v) + 2)]
        yield m.expr(f"slice:{t}", "a[i:j]", dict(a=t, i="int", j="int"), args)
        a1 = [(v, i) for v in vs for i in range(-len(v) - 2, len(v) + 3)]
        yield m.expr(f"slicel:{t}", "a[i:]", dict(a=t, i="int"), a1)
        yield m.expr(f"slicer:{t}", "a[:i]", dict(a=t, i="int"), a1)
        yield m.expr(f"slicea:{t}", "a[:]", dict(a=t), [(v,) for v in vs])
        for s in ("1:", ":1", "-1:", ":-1", "1:-1", "0:2", "2:1", "-2:-1", "-3:2", "5:", ":9", "::1", "::2", "::-1", "0:0"):
            yield m.expr(f"slicec:{t}:{s}", f"a[{s}]", dict(a=t), [(v,) for v in vs])
    yield m.expr("slicehuge:b", "a[i:j]", dict(a="bytes", i="int", j="int"),
                 [(b"abc", i, j) for i in (-(2**65), -100, 0, 100, 2**65) for j in (-(2**65), -100, 3, 100, 2**65)])
    # ---------------- membership, index, concatenation, length
    for t in ("int", "bytes", "str", "bool", "A", "Union[A, B]", "Anything"):
        lt = f"List[{t}]"
        vs = vals(t, tier)[:5]
        lists = ["[]"] + [f"[{x}]" for x in vs[:3]] + [f"[{x}, {y}]" for x in vs[:3] for y in vs[:3]] + ["[" + ", ".join(vs) + "]"]
        pairs = [(x, l) for x in vs for l in lists]
        yield m.expr(f"in:{t}", "x in l", {"x": t, "l": lt}, pairs, raw=True)
        yield m.expr(f"notin:{t}", "x not in l", {"x": t, "l": lt}, pairs, raw=True)
        yield m.expr(f"idx:{t}", "l.index(x)", {"x": t, "l": lt}, pairs, raw=True)
        yield m.expr(f"cat:{t}", "l + [x]", {"x": t, "l": lt}, pairs[:20], raw=True)
        yield m.expr(f"precat:{t}", "[x] + l + [x]", {"x": t, "l": lt}, pairs[:20], raw=True)
        yield m.expr(f"eq:{t}", "l == k", {"k": lt, "l": lt}, [(a, b) for a in lists[:9] for b in lists[:9]], raw=True)
        yield m.expr(f"neq:{t}", "l != k", {"k": lt, "l": lt}, [(a, b) for a in lists[:9] for b in lists[:9]], raw=True)
        yield m.expr(f"lit:{t}", "[x, x]", {"x": t}, [(v,) for v in vs], raw=True)
        yield m.expr(f"lit2:{t}", "[[x], [], [x, x]]", {"x": t}, [(v,) for v in vs], raw=True)
        yield m.expr(f"rev:{t}", "[y for y in reversed(l)]", {"l": lt}, [(v,) for v in lists], raw=True)
    # ---------------- dictionaries
    for kt, vt in (("int", "int"), ("int", "bytes"), ("bytes", "int"), ("str", "int"), ("A", "int"), ("int", "A"), ("int", "List[int]"), ("bytes", "Dict[int, int]"), ("Anything", "int"), ("int", "Anything")):
        dt = f"Dict[{kt}, {vt}]"
        if kt in SRCVALS or kt in VALS:
            ks = vals(kt, "quick")[:3]
        vs = vals(vt, "quick")[:3]
        ds = ["{}"] + [f"{{{k}: {v}}}" for k in ks[:2] for v in vs[:2]]
        if len(ks) > 2 and kt != "Anything":
            ds += [f"{{{ks[0]}: {vs[0]}, {ks[1]}: {vs[1]}}}", f"{{{ks[1]}: {vs[0]}, {ks[0]}: {vs[1]}}}", f"{{{ks[2]}: {vs[-1]}, {ks[0]}: {vs[0]}, {ks[1]}: {vs[1]}}}"]
        if kt == "Anything":
            ds = ["{}", "{0: 1}", "{b'a': 1, 0: 2}"]
            ks = ["0", "b'a'", "1"]
        dk = [(d, k) for d in ds for k in ks]
        n = f"{kt}:{vt}"
        P = {"d": dt}
        yield m.expr(f"dget:{n}", "d[k]", {"d": dt, "k": kt}, dk, raw=True)
        yield m.expr(f"dgetdef:{n}", "d.get(k, v)", {"d": dt, "k": kt, "v": vt}, [(d, k, v) for d, k in dk for v in vs[:2]], raw=True)
        yield m.expr(f"dkeys:{n}", "d.keys()", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dvals:{n}", "d.values()", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dlen:{n}", "len(d)", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dinkeys:{n}", "k in d.keys()", {"d": dt, "k": kt}, dk, raw=True)
        yield m.expr(f"din:{n}", "k in d", {"d": dt, "k": kt}, dk, raw=True)
        yield m.expr(f"dret:{n}", "d", P, [(d,) for d in ds], ret=dt, raw=True)
        yield m.expr(f"ditems:{n}", "[p[1] for p in d.items()]", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dlit1:{n}", "{k: v}", {"k": kt, "v": vt}, [(k, v) for k in ks for v in vs], raw=True)
        yield m.expr(f"dlit2:{n}", "{k: v, j: w}", {"k": kt, "v": vt, "j": kt, "w": vt},
                     [(k, v, j, w) for k in ks for j in ks for v in vs[:2] for w in vs[:2]], raw=True)
        yield m.expr(f"dlit3:{n}", "{k: v, j: v, i: w}", {"k": kt, "v": vt, "j": kt, "i": kt, "w": vt},
                     [(k, vs[0], j, i, vs[-1]) for k in ks for j in ks for i in ks], raw=True)
        yield m.body(f"dloop:{n}", "    r = []\n    for p in d.items():\n        r = [p[0]] + r\n    return r\n", P, [(d,) for d in ds], raw=True)
        yield m.body(f"dloopu:{n}", "    s = 0\n    for k, v in d.items():\n        s = s * 10 + len(str(k)) + len(str(v))\n    return s\n".replace("len(str(k))", "1"). replace("len(str(v))", "2"), P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dcompid:{n}", "{k: v for k, v in d.items()}", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"dcompv:{n}", "[v for k, v in d.items()]", P, [(d,) for d in ds], raw=True)
        yield m.expr(f"deq:{n}", "d == e", {"d": dt, "e": dt}, [(a, b) for a in ds for b in ds], raw=True)
        yield m.expr(f"dnot:{n}", "not d", P, [(d,) for d in ds], raw=True)
    D = [{}, {0: 0}, {1: 5}, {0: 3, 1: 2}, {1: 2, 0: 3}, {5: 1, 3: 2, 4: 3}]
    for nm, e in {
        "sumk": "sum(d.keys())", "sumv": "sum(d.values())", "maxk": "max(d.keys())",
        "filt": "{k: v for k, v in d.items() if v > 2}", "inv": "{v: k for k, v in d.items()}",
        "filtk": "[k for k in d.keys() if k in d.values()]", "sq": "{k: v * v for k, v in d.items() if k != 0}",
        "const": "{1: v for v in d.values()}", "coll": "{k % 2: v for k, v in d.items()}",
        "pair": "[[k, v] for k, v in d.items()]",
    }.items():
        yield m.expr(f"dx:{nm}", e, {"d": "Dict[int, int]"}, [(d,) for d in D])
    # ---------------- list comprehensions
    L = [[], [0], [1], [3, 1], [1, 2, 3], [2, 2], [5, -4, 3, -2]]
    for nm, e in {
        "id": "[x for x in l]", "inc": "[x + 1 for x in l]", "if": "[x for x in l if x > 1]",
        "if2": "[x * x for x in l if x > 0 if x < 3]", "bool": "[x > 1 for x in l]", "str": "[str(x) for x in l]",
        "nest": "[[y for y in l if y < x] for x in l]", "outer": "[x + k for x in l]", "shadow": "[k for k in l]",
        "shadow2": "k + sum([k for k in l])", "const": "[k for x in l]", "ifelse": "[x if x > 1 else -x for x in l]",
        "list": "[[x] for x in l]", "rng": "[l[i] for i in range(len(l))]", "dict": "[{x: k} for x in l]",
        "truthy": "[x for x in l if x]", "idx": "[l.index(x) for x in l]", "tup": "[p[0] for p in [(x, k) for x in l]]",
        "twice": "sum([x for x in [y * 2 for y in l]])", "len": "len([x for x in l if x != k])",
        "dcomp": "{x: x * 2 for x in l}", "dcompif": "{x: k for x in l if x > 1}", "dcompk": "{x % 2: x for x in l}",
        "bytes": "bytes([x for x in l if x >= 0])", "all": "all([x > 0 for x in l])", "any": "any([x > 2 for x in l])",
        "in": "k in [x + 1 for x in l]", "slice": "[x for x in l[1:]]", "rev": "[x for x in reversed(l)]",
        "minmax": "[max(l), min(l)]", "cat": "[x for x in l + l]",
    }.items():
        yield m.expr(f"lc:{nm}", e, {"l": "List[int]", "k": "int"}, [(l, k) for l in L for k in (0, 2)])
    # ---------------- grammar of comprehensions: every result form x source x sequence of up to 3 conditions
    conds = ["x > 0", "x != 2", "x < k + 3", "not x == k"]
    outs = {"l": "[{e} for x in {s}{c}]", "d": "{{{e}: k for x in {s}{c}}}", "d2": "{{x: {e} for x in {s}{c}}}", "s": "sum([{e} for x in {s}{c}])"}
    srcs = {"l": "l", "t": "l[1:]", "c": "[x + 1 for x in l if x < 5]", "r": "reversed(l)"}
    for on, o in outs.items():
        for sn, sr in srcs.items():
            for nc in range(0, 4):
                for cs_ in itertools.permutations(range(4), nc):
                    if not th and (nc == 3 and cs_ not in ((0, 1, 2), (3, 2, 1), (2, 0, 3)) or nc == 2 and sn != "l" and cs_[0] > cs_[1]):
                        continue
                    e = o.format(e="x * 2", s=sr, c="".join(f" if {conds[i]}" for i in cs_))
                    yield m.expr(f"cg:{on}:{sn}:{''.join(map(str, cs_))}", e, {"l": "List[int]", "k": "int"}, [([3, 1, 0, 2, 5, 7, -4], 0), ([2, 4, 1], 1)], cfgs=["O1"] if not th else None)
    for on, o in {"l": "[k + v for k, v in d.items(){c}]", "d": "{{k: v + 1 for k, v in d.items(){c}}}", "d2": "{{v: k for k, v in d.items(){c}}}"}.items():
        for nc in range(0, 4):
            for cs_ in itertools.permutations(range(4), nc):
                cc = ["k > 0", "v != 2", "v < k", "not k == n"]
                yield m.expr(f"cgd:{on}:{''.join(map(str, cs_))}", o.format(c="".join(f" if {cc[i]}" for i in cs_)), {"d": "Dict[int, int]", "n": "int"}, [({0: 1, 1: 0, 2: 2, 5: 3, -1: -3}, 2)], cfgs=["O1"] if not th else None)
    # conditions that are not booleans, at every position
    truthy = ["x", "x - 2", "b'abc'[x:]", "l[x:]", "k", "x > 1", "{k: x}", "[]"]
    for on, o in outs.items():
        for nc in (1, 2, 3):
            for cs_ in itertools.permutations(range(len(truthy)), nc):
                if nc == 3 and not th and (cs_[0] + 2 * cs_[1] + 3 * cs_[2]) % 16 or nc == 2 and not th and on != "l" and sum(cs_) % 4:
                    continue
                e = o.format(e="x * 2", s="l", c="".join(f" if {truthy[i]}" for i in cs_))
                yield m.expr(f"ct:{on}:{''.join(map(str, cs_))}", e, {"l": "List[int]", "k": "int"}, [([3, 1, 0, 2, 5], 0), ([2, 0, 1], 1)], cfgs=["O1"] if not th else None)
    for nm, e in {
        "lens": "[len(x) for x in l]", "hex": "[x.hex() for x in l]", "cat": "[x + b for x in l]", "first": "[x[0] for x in l]",
        "eq": "[x == b for x in l]", "slice": "[x[1:] for x in l]",
    }.items():
        yield m.expr(f"lcb:{nm}", e, {"l": "List[bytes]", "b": "bytes"}, [(l, b) for l in ([], [b"a"], [b"ab", b"a", b"b"], [b"a", b""]) for b in (b"", b"a")])
    for nm, e in {
        "x": "[a.x for a in l]", "filt": "[a for a in l if a.x > 0]", "mk": "[A(a.x + 1) for a in l]", "eq": "[a == A(1) for a in l]",
        "sum": "sum([a.x for a in l])", "d": "{a.x: a for a in l}", "u": "[B(b'', [a.x]) for a in l]",
    }.items():
        yield m.expr(f"lcr:{nm}", e, {"l": "List[A]"}, [(l,) for l in vals("List[A]", tier) + ["[A(0), A(0), A(-1)]"]], raw=True)
    # ---------------- tuples and unpacking
    I3 = list(itertools.product((0, 1, 7), repeat=3))
    for nm, b in {
        "idx0": "    t = (a, b, c)\n    return t[0] + 10 * t[1] + 100 * t[2]\n",
        "neg": "    t = (a, b, c)\n    return t[-1]\n",
        "oob": "    t = (a, b)\n    return t[2]\n",
        "unp": "    x, y, z = (a, b, c)\n    return [z, y, x]\n",
        "swap": "    a, b = b, a\n    return [a, b, c]\n",
        "rot": "    a, b, c = c, a, b\n    return [a, b, c]\n",
        "fib": "    x, y = a, b\n    for i in range(5):\n        x, y = y, x + y\n    return x\n",
        "nest": "    (x, y), z = (a, b), c\n    return [z, y, x]\n",
        "nest2": "    x, (y, (z, w)) = (a, (b, (c, a)))\n    return [w, z, y, x]\n",
        "list": "    x, y = [a, b]\n    return [y, x]\n",
        "listshort": "    x, y = [a]\n    return [y, x]\n",
        "listlong": "    x, y = [a, b, c]\n    return [y, x]\n",
        "listnest": "    (x, y), z = ([a, b], c)\n    return [z, y, x]\n",
        "for": "    r = 0\n    for x, y in [(a, b), (b, c)]:\n        r = r * 10 + x - y\n    return r\n",
        "fornest": "    r = 0\n    for (x, y), z in [((a, b), c), ((b, c), a)]:\n        r = r * 10 + x - y * z\n    return r\n",
        "forl": "    r = 0\n    for x, y in [[a, b], [b, c]]:\n        r = r * 10 + x - y\n    return r\n",
        "comp": "    return [x + y for x, y in [(a, b), (b, c)]]\n",
        "compl": "    return [x + y for x, y in [[a, b], [b, c]]]\n",
        "add": "    t = (a, b) + (c,)\n    return t[2]\n",
        "eq": "    return (a, b) == (b, c)\n",
        "mixed": "    t = (a, b'x', [c])\n    return t[2] + [t[0], len(t[1])]\n",
        "tupret": "    return (a, [b, c])\n",
        "item": "    d = {a: b}\n    for kv in d.items():\n        k, v = kv\n        return [k, v]\n    return []\n",
        "single": "    x, = (a,)\n    return x\n",
        "singlel": "    x, = [a]\n    return x\n",
        "chain": "    x = y = a\n    return [x, y]\n",
        "star": "    x, *y = [a, b, c]\n    return y\n",
        "inner": "    t = ((a, b), (c, a))\n    return t[1][0] * 10 + t[0][1]\n",
        "typed": "    t: Tuple[int, bytes] = (a, b'q')\n    return len(t[1]) + t[0]\n",
        "ite": "    t = (a, b) if c > 0 else (b, a)\n    return t[0]\n",
    }.items():
        yield m.body(f"tup:{nm}", b, dict(a="int", b="int", c="int"), I3 if th else I3[::2])
    # ---------------- chains of container steps: every sequence up to a length
    steps = {
        "app": "l = l + [n]", "pre": "l = [n] + l", "tail": "l = l[1:]", "init": "l = l[:-1]",
        "inc": "l = [x + n for x in l]", "filt": "l = [x for x in l if x != n]", "rev": "l = [x for x in reversed(l)]", "dup": "l = l + l",
    }
    depth = 3 if th else 2
    for k in range(1, depth + 1):
        for combo in itertools.product(steps, repeat=k):
            b = "".join(f"    {steps[c]}\n" for c in combo) + "    return l\n"
            yield m.body("chain:" + "".join(c + "." for c in combo), b, dict(l="List[int]", n="int"),
                         [(l, n) for l in ([], [1], [1, 2, 3]) for n in (0, 1)], cfgs=["O1"] if not th else None)
    dsteps = {
        "add": "d = {**d, n: 1}", "comp": "d = {k: v + n for k, v in d.items()}", "filt": "d = {k: v for k, v in d.items() if k != n}",
        "sw": "d = {v: k for k, v in d.items()}",
    }
    for k in (1, 2):
        for combo in itertools.product(dsteps, repeat=k):
            b = "".join(f"    {dsteps[c]}\n" for c in combo) + "    return d\n"
            yield m.body("dchain:" + "".join(c + "." for c in combo), b, dict(d="Dict[int, int]", n="int"),
                         [(d, n) for d in D[:5] for n in (0, 1)])
    # empty containers take their type from the annotation
    for t in ("List[int]", "List[bytes]", "List[str]", "List[A]", "List[List[int]]", "Dict[int, int]", "Dict[bytes, A]", "List[Dict[int, bytes]]", "List[Anything]", "List[Union[A, B]]", "List[bool]"):
        e = "{}" if t.startswith("Dict") else "[]"
        yield m.body(f"empty:{t}", f"    l: {t} = {e}\n    return l\n", dict(n="int"), [(0,)])
        yield m.body(f"emptyif:{t}", f"    l: {t} = {e}\n    if n > 0:\n        l = q\n    return l\n", dict(n="int", q=t),
                     [(n, q) for n in ("0", "1") for q in (["{}"] if e == "{}" else ["[]"])], raw=True)
        yield m.body(f"emptyfn:{t}", f"    return f({e})\n", dict(n="int"), [(0,)], top=f"def f(x: {t}) -> int:\n    return len(x)\n")


def run_case(case):
    return run_diff(case, PROP)
