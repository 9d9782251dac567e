"""C02: conversions, built-in functions and text rendering agree with Python."""
from ..alpha import *
from ..diff import *

PROP = "C02"
LEVEL = "exploration"
RULE = (
    "every built-in function, conversion, bytes/str method and text rendering "
    "(str, f-string, print) x every static type it accepts x its whole boundary "
    "alphabet (all strings up to a length over a digit/sign/underscore/space "
    "alphabet for int(), all single bytes for text forms), compiled and run "
    "against CPython including printed text; distinct by (program, arguments, outcome)"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source text is the reference",
    "documented deviations are outside the alphabet: non-ASCII digits and other "
    "whitespace than space in int(), spaces in bytes.fromhex, negative exponents",
]

INTS = [0, 1, -1, 9, 10, -10, 15, 16, 17, 99, 100, 255, 256, -255, -256, 7, 8, -8,
        4095, 4096, 10**9, 2**63, 2**64 - 1, 2**64, -(2**64), 10**20, 10**30 + 7]
TEXTS = ["", "a", "ab", "a b", "\u00e9", "\u20ac", "\U0001f600", "0", "{x}", "%s", "\n", "\x00"]
BYTESX = (
    [b"", b"'", b'"', b"'\"", b"\\", b"\\x00", b"a'b", b'a"b', b"a'b\"c", b"\n\r\t", b"\x7f\x80", b"\xc3\xa9"]
)


def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def batches(xs, n):
    xs = list(xs)
    for i in range(0, len(xs), n):
        yield i // n, xs[i : i + n]


def cases(tier):
    th = tier == "thorough"
    m = Mk(tier, every=2)

    def one(cid, expr, t, values=None, ret=None, **kw):
        if values is None:
            return m.expr(cid, expr, {"a": t}, ret=ret, **kw)
        return m.expr(cid, expr, {"a": t}, [(v,) for v in values], ret=ret, **kw)

    # --- int(str): all short strings over the interesting characters
    alpha = "01-+_ " if not th else "019-+_ a"
    allstr = list(strings(alpha, 4 if not th else 4))
    for i, b in batches(allstr, 90):
        yield one(f"int_str:{i}", "int(a)", "str", b)
    yield one("int_str:long", "int(a)", "str",
              ["123456789", "-98765432109876543210", "000000012", "1_000_000", "9" * 40,
               "0x10", "1.0", "1e3", "a", "/", ":", "-/", "1:", "1/", "--1", "+-1", "1-", "1+"])
    for t in ("int", "bool", "bytes", "None"):
        yield one(f"int_{t}", "int(a)", t)
    # --- bool(x)
    for t in ("int", "bool", "str", "bytes", "None", "List[int]", "Dict[int, int]", "List[bytes]", "A"):
        yield one(f"bool_{t}", "bool(a)", t)
    # --- bytes(x)
    yield one("bytes_int", "bytes(a)", "int", [-1, 0, 1, 2, 31, 32, 33, 255, 256, 300])
    yield one("bytes_list", "bytes(a)", "List[int]",
              [[], [0], [255], [256], [-1], [1, 2, 3], [0, 255, 256], [104, 105], [-256], list(range(70))])
    yield one("bytes_bytes", "bytes(a)", "bytes")
    yield one("bytes_bool", "bytes(a)", "bool")
    # --- number rendering
    for f in ("str", "hex", "oct", "bin"):
        yield one(f"{f}_int", f"{f}(a)", "int", INTS)
    if th:
        for f in ("str", "hex", "oct"):
            for i, b in batches(range(-300, 700), 100):
                yield one(f"{f}_range:{i}", f"{f}(a)", "int", b)
        for i, b in batches([s * (10**k + d) for k in range(0, 40, 3) for d in (-1, 0, 1) for s in (1, -1)], 40):
            yield one(f"str_pow:{i}", "str(a)", "int", b)
    else:
        yield one("str_dense", "str(a)", "int", range(-21, 121))
        yield one("hex_dense", "hex(a)", "int", list(range(-18, 36)) + [4095, 65535, 65536])
        yield one("oct_dense", "oct(a)", "int", list(range(-9, 18)) + [63, 64, 511, 512])
    yield one("chr", "chr(a)", "int",
              [-1, 0, 1, 65, 127, 128, 129, 0xE9, 0x7FF, 0x800, 0x801, 0xD7FF, 0xE000, 0xFFFF,
               0x10000, 0x10FFFF, 0x110000, 2**32] + ([0xD800, 0xDFFF] if True else []))
    yield one("abs", "abs(a)", "int", INTS)
    for k in (0, 1, 2, 3, 7, 8):
        yield one(f"pow_{k}", f"pow(a, {k})", "int", [-3, -1, 0, 1, 2, 10, 2**63])
    yield m.expr("pow2", "pow(a, b)", dict(a="int", b="int"),
                 list(itertools.product((-3, -2, -1, 0, 1, 2, 3), (0, 1, 2, 3, 4, 5, 6, 7, 16, 17))))
    # --- aggregates
    L = [[], [0], [1], [-1], [1, 2], [2, 1], [2, 2], [0, -5], [-5, 0], [3, 1, 2], [1, 3, 2], [2, 3, 1],
         [5, 5, 1], [-1, -2, -3], [2**64, 1], list(range(20))]
    for f in ("sum", "min", "max", "len", "reversed"):
        e = f"{f}(a)" if f != "reversed" else "[x for x in reversed(a)]"
        yield one(f"{f}_ints", e, "List[int]", L)
    for t in ("List[bytes]", "List[str]", "List[bool]", "List[List[int]]", "List[A]"):
        for f in ("len(a)", "[x for x in reversed(a)]"):
            yield one(f"{f[:3]}_{t}", f, t)
    for t in ("Dict[int, int]", "bytes", "Dict[int, bytes]", "str"):
        yield one(f"len_{t}", "len(a)", t)
    yield one("len_bytes_long", "len(a)", "bytes", [b"a" * k for k in (63, 64, 65, 200)])
    for f in ("all", "any"):
        yield one(f, f"{f}(a)", "List[bool]",
                  [list(x) for k in range(4) for x in itertools.product((False, True), repeat=k)])
    yield one("range", "[x for x in range(a)]", "int", [-2, -1, 0, 1, 2, 3, 10])
    yield one("range_idx", "range(a)[b]" if False else "len([x for x in range(a)])", "int", [-2, 0, 1, 5, 30])
    # --- bytes / str methods
    yield one("hexm", "a.hex()", "bytes", [b"", b"\x00", b"\x0f", b"\x10", b"\xff", b"\x9f\xa0", b"ab" * 20] + [bytes([i]) for i in range(0, 256, 5)])
    if th:
        yield one("hexm_all", "a.hex()", "bytes", [bytes([i]) for i in range(256)])
    hx = list(strings("09afAFg", 2)) + ["0a0B", "abc", "abcd", "00ff10", "zz", "0x", "@@", "GG", "``", "//", "::", "a/", ":0"]
    yield one("fromhex", "b\"\".fromhex(a)", "str", hx)
    yield one("encode", "a.encode()", "str", TEXTS + ["a" * 65])
    yield one("decode", "a.decode()", "bytes",
              [b"", b"a", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x80", b"a" * 65])
    for f in ("ljust", "rjust"):
        yield m.expr(f, f"a.{f}(b, c)", dict(a="bytes", b="int", c="bytes"),
                     [(x, n, c) for x in (b"", b"a", b"abc") for n in (-1, 0, 1, 2, 3, 4, 9) for c in (b"x", b"\x00")]
                     + [(b"a", 3, b""), (b"a", 3, b"xy"), (b"abc", 2, b"xy")])
    yield m.expr("strmul", "a * b", dict(a="str", b="int"), [(s, n) for s in TEXTS[:5] for n in (-1, 0, 1, 2, 3, 7, 8)])
    yield m.expr("bytesmul", "b * a", dict(a="bytes", b="int"), [(s, n) for s in (b"", b"a", b"\x00\x01") for n in (-1, 0, 1, 2, 3, 7, 8, 33)])
    # --- text rendering of every type
    def renders(name, t, values=None, raw=False):
        for form, e in (("str", "str(a)"), ("fstr", "f'<{a}>'"), ("fself", "f'{a}{a}'")):
            if form == "fself" and not th:
                continue
            if values is None:
                yield m.expr(f"{form}:{name}", e, {"a": t})
            else:
                yield m.expr(f"{form}:{name}", e, {"a": t}, [(v,) for v in values], raw=raw)
        body = "    print(a)\n    print('x', a)\n    return 0\n"
        if values is None:
            yield m.body(f"print:{name}", body, {"a": t}, cfgs=["O1"], logs=True)
        else:
            yield m.body(f"print:{name}", body, {"a": t}, [(v,) for v in values], raw=raw, cfgs=["O1"], logs=True)

    yield from renders("int", "int", INTS)
    yield from renders("bool", "bool")
    yield from renders("None", "None")
    yield from renders("str", "str", TEXTS)
    yield from renders("bytes", "bytes", BYTESX + [bytes([i]) for i in (range(256) if th else range(0, 256, 3))])
    if not th:
        yield one("str:bytes1", "str(a)", "bytes", [bytes([i]) for i in range(256)])
    yield one("str:bytes2", "str(a)", "bytes",
              [bytes(t) for k in (2, 3) for t in itertools.product(b"'\"\\a\n", repeat=k)])
    for t in ("List[int]", "List[bytes]", "List[bool]", "List[List[int]]", "Dict[int, bytes]",
              "Dict[int, int]", "Dict[bytes, int]", "A", "B", "E", "N", "Union[A, B]",
              "List[A]", "Dict[int, A]", "Dict[A, int]", "Union[int, bytes]", "Union[A, B, int]", "List[Union[A, B]]"):
        yield from renders(t, t)
    yield from renders("List[str]", "List[str]", [[], [""], ["a"], ["a", "b c"], ["\u00e9"]])
    yield from renders("Dict[str, int]", "Dict[str, int]", [{}, {"a": 1}, {"a": 1, "": 0}])
    yield from renders("List[bytes]x", "List[bytes]", [[b"'", b'"'], [b"\\"], [b"'\""]])
    # strings that Python would escape inside containers
    for i, s in enumerate(["it's", "a\\b", "a\nb", "\x00", "'\""]):
        yield m.expr(f"strescape:{i}", "str(a)", {"a": "List[str]"}, [([s],)], cfgs=["O1"])
    for i, (e, a) in enumerate([
        ("(a, b)", None), ("(a,)", None), ("(a, b, a)", None), ("[(a, b)]", None), ("(b, [a])", None),
        ("{a: b}", None), ("[{a: b}]", None), ("([a], (b, a))", None), ("(a, None)", None), ("(True, a)", None),
    ]):
        for t, s in (("int", "bytes"), ("bytes", "int"), ("int", "A")):
            yield m.expr(f"strcomp:{i}:{t}:{s}", f"str({e})", dict(a=t, b=s),
                         [(x, y) for x in vals(t, tier)[:4] for y in vals(s, tier)[:4]], raw=True)
    # print shapes
    for i, args in enumerate(["", "a", "a, b", "a, 'x', b", "str(a) + 'y'", "f'{a}-{b}'", "''", "'', ''", "a, ''"]):
        yield m.body(f"printargs:{i}", f"    print({args})\n    return a\n", dict(a="int", b="bytes"),
                     list(itertools.product((0, -5), (b"", b"q'"))), cfgs=["O0", "O1"], logs=True)
    for i, f in enumerate(["f''", "f'{a}'", "f'{a}{b}'", "f'x{a}y{b}z'", "f'{{{a}}}'", "f'{a + 1}'", "f'{b.hex()}'", "f'{[a]}'", "f\"{'q'}\"", "'a' 'b'", "f'{a}' 'b'"]):
        yield m.expr(f"fstring:{i}", f, dict(a="int", b="bytes"), list(itertools.product((0, -5), (b"", b"q'"))))


def run_case(case):
    return run_diff(case, PROP, logs=case.get("logs", False))
