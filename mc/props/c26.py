"""C26: evaluation order, multiplicity, short-circuiting and trace output.

Every hole of a form holds a probe: a function that prints its number, fails
if it is the selected one, and returns a value. All forms, all compositions of
two forms, all truth values of the boolean probes, all choices of the failing
probe."""
import itertools

from ..alpha import HDR, Mk
from ..diff import run_diff

PROP = "C26"
LEVEL = "exploration"
CPU_LIMIT = 200
GOLDEN_CFGS = ["O1", "P0"]
RULE = (
    "Forms = every supported expression and statement with operands (operators, comparison chains, boolean operators, "
    "conditional expressions, displays, subscripts, slices, calls with positional and keyword arguments, methods, "
    "constructors, f-strings, comprehensions, dunder operators; assignments, conditions, loops, assertions, returns, "
    "prints). Every operand is a probe that prints its number, fails if selected and returns a value; boolean probes return "
    "a bit of the input. All forms, and every form put into every operand of a matching type of every other form, are run "
    "with all bit patterns and with no or each single probe failing; value and trace are compared with CPython's result and "
    "printed lines (up to the exception)."
)
ASSUMPTIONS = [
    "CPython and the uplc CEK machine are correct",
    "Traces are compared at the levels that keep traces; at the others only results are",
]

PROBES = """    def f{s}(v: {t}, k: int) -> {t}:
        print(str(k))
        assert k != y, "boom"
        return v
"""
TYPES = {"i": "int", "s": "str", "y": "bytes", "l": "List[int]", "d": "Dict[int, int]", "A": "A", "K": "K", "U": "Union[A, E]", "b": "bool", "n": "None", "a": "List[str]"}
VALUE = {"i": "{k}", "s": "'{k}'", "y": "b'\\x01{k}z'", "l": "[{k}, 7, 8, 9]", "d": "{{1: 4, 2: 5, 3: 6, 4: 7, 5: 8, 6: 9, 7: 9, 8: 9}}", "A": "A({k})", "K": "K({k})", "a": "['{k}', 'q']"}

# (name, result type, template); {i} etc. are holes of that type
EXPR = [
    *[(n, "i", "({i} %s {i})" % op) for n, op in [("add", "+"), ("sub", "-"), ("mul", "*"), ("fdiv", "//"), ("mod", "%"), ]],
    ("pow", "i", "({i} ** 2)"),
    ("adds", "s", "({s} + {s})"),
    ("addy", "y", "({y} + {y})"),
    ("addl", "l", "({l} + {l})"),
    ("muls", "s", "({s} * {i})"),
    ("mulsr", "s", "({i} * {s})"),
    ("muly", "y", "({y} * {i})"),
    ("mulyr", "y", "({i} * {y})"),
    ("neg", "i", "(-{i})"),
    ("not", "b", "(not {b})"),
    *[(n, "b", "({i} %s {i})" % op) for n, op in [("lt", "<"), ("le", "<="), ("gt", ">"), ("eq", "=="), ("ne", "!=")]],
    ("eqs", "b", "({s} == {s})"),
    ("eql", "b", "({l} == {l})"),
    ("eqA", "b", "({A} == {A})"),
    ("eqU", "b", "({U} == {U})"),
    ("eqb", "b", "({b} == {b})"),
    ("lty", "b", "({y} < {y})"),
    ("in", "b", "({i} in {l})"),
    ("notin", "b", "({i} not in {l})"),
    ("ind", "b", "({i} in {d}.keys())"),
    ("chain2", "b", "({i} < {i} < {i})"),
    ("chain3", "b", "({i} <= {i} > {i} != {i})"),
    ("chaineq", "b", "({i} == {i} == {i})"),
    ("chainin", "b", "({i} in {l} == {l})"),
    ("and", "b", "({b} and {b})"),
    ("or", "b", "({b} or {b})"),
    ("and3", "b", "({b} and {b} and {b})"),
    ("or3", "b", "({b} or {b} or {b})"),
    ("andor", "b", "({b} and {b} or {b})"),
    ("orand", "b", "(({b} or {b}) and {b})"),
    ("ite", "i", "({i} if {b} else {i})"),
    ("iteb", "b", "({b} if {b} else {b})"),
    ("itel", "l", "({l} if {b} else {l})"),
    ("iteA", "A", "({A} if {b} else {A})"),
    ("iteu", "U", "({A} if {b} else {U})"),
    ("list", "l", "[{i}, {i}, {i}]"),
    ("lists", "a", "[{s}, {s}]"),
    ("listb", "B", "[{b}, {b}]"),
    ("dict", "d", "{{{i}: {i}, {i}: {i}}}"),
    ("tup", "T", "({i}, {s}, {b})"),
    ("idx", "i", "{l}[{i} - {i} + 1]"),
    ("idxn", "i", "{l}[-1]"),
    ("idx0", "i", "{l}[0]"),
    ("idxy", "i", "{y}[{i} * 0]"),
    ("idxd", "i", "{d}[{i}]"),
    ("sl", "y", "{y}[{i} - 1:{i}]"),
    ("slu", "y", "{y}[:{i}]"),
    ("sll", "y", "{y}[{i}:]"),
    ("slfull", "y", "{y}[:]"),
    ("slneg", "y", "{y}[-{i}:]"),
    ("sll3", "l", "{l}[{i} - 1:{i}]"),
    ("sllu", "l", "{l}[:{i}]"),
    ("slll", "l", "{l}[{i} - 1:]"),
    ("slln", "l", "{l}[:-{i}]"),
    ("call", "i", "g2({i}, {i})"),
    ("callkw", "i", "g2(p={i}, q={i})"),
    ("call3", "i", "g3({i}, {b}, {s})"),
    ("callk3", "i", "g3({i}, r={s}, q={b})"),
    ("callu", "b", "gu({U}, {A})"),
    ("A", "A", "A({i})"),
    ("B", "B2", "B({y}, {l})"),
    ("Bkw", "B2", "B(y={y}, z={l})"),
    ("attr", "i", "{A}.x"),
    ("attrB", "l", "B({y}, {l}).z"),
    ("meth", "i", "{K}.m({i}, {i})"),
    ("dadd", "i", "({K} + {i})"),
    ("dradd", "i", "({i} + {K})"),
    ("dlt", "b", "({K} < {K})"),
    ("deq", "b", "({K} == {K})"),
    ("dne", "b", "({K} != {K})"),
    ("dcont", "b", "({i} in {K})"),
    ("dinv", "i", "(~{K})"),
    ("dneg", "i", "(-{K})"),
    ("isinst", "b", "isinstance({U}, A)"),
    ("fs", "s", "f'a{{{i}}}b{{{s}}}c{{{i}}}'"),
    ("str", "s", "str({i})"),
    ("int", "i", "int({s})"),
    ("bool", "b", "bool({i})"),
    ("booll", "b", "bool({l})"),
    ("len", "i", "len({l})"),
    ("leny", "i", "len({y})"),
    ("pow2", "i", "pow({i}, 3)"),
    ("pow2b", "i", "pow({i}, {i} * 0 + 2)"),
    ("abs", "i", "abs({i})"),
    ("max", "i", "max([{i}, {i}])"),
    ("sum", "i", "sum({l})"),
    ("all", "b", "all([{b}, {b}])"),
    ("any", "b", "any([{b}, {b}])"),
    ("range1", "l", "[r for r in range({i})]"),
    ("hex", "s", "hex({i})"),
    ("rev", "l", "[r for r in reversed({l})]"),
    ("index", "i", "{l}.index({i} * 0 + 7)"),
    ("get", "i", "{d}.get({i}, {i})"),
    ("keys", "l", "[r for r in {d}.keys()]"),
    ("enc", "y", "{s}.encode()"),
    ("dec", "s", "{y}.decode()"),
    ("hexm", "s", "{y}.hex()"),
    ("lc", "l", "[{i} + e for e in {l}]"),
    ("lcif", "l", "[e for e in {l} if {b}]"),
    ("lcif2", "l", "[{i} for e in {l} if {b} if {b}]"),
    ("dc", "d", "{{{i} + e: {i} for e in {l}}}"),
    ("dcif", "d", "{{e: {i} for e in {l} if e > {i}}}"),
    ("lcn", "l", "[sum([h + e for h in {l}]) for e in {l}]"),
    ("bytes", "y", "bytes({l})"),
    ("bytesi", "y", "bytes({i})"),
    ("chr", "s", "chr({i} + 65)"),
    ("cid", "i", "{A}.CONSTR_ID"),
]
# no result type: statement templates; R is returned at the end
STMT = [
    ("asg", "w = {i}\nR = w"),
    ("ann", "w: int = {i}\nR = w"),
    ("annu", "w: Union[A, E] = {A}\nR = isinstance(w, E)"),
    ("aug", "w = {i}\nw += {i}\nw *= {i}\nR = w"),
    ("tup", "w, v2 = {i}, {s}\nR = v2"),
    ("tup3", "w, v2 = ({i}, {b})\nR = [w]"),
    ("swap", "w, v2 = {i}, {i}\nv2, w = w + {i}, v2\nR = [w, v2]"),
    ("nested", "(w, v2), u = ({i}, {i}), {i}\nR = [w, v2, u]"),
    ("expr", "{i}\n{b}\nR = 1"),
    ("exprc", "g2({i}, {i})\nR = 1"),
    ("exprn", "{n}\nR = 1"),
    ("if", "if {b}:\n    R = {i}\nelse:\n    R = {i}"),
    ("ifelif", "if {b}:\n    R = {i}\nelif {b}:\n    R = {i}\nelif {b}:\n    R = {i}\nelse:\n    R = 0"),
    ("ifonly", "R = {i}\nif {b}:\n    R = {i}"),
    ("ifi", "R = 0\nif {i}:\n    R = {i}"),
    ("ifl", "R = 0\nif {l}:\n    R = 1"),
    ("ifpass", "if {b}:\n    pass\nelse:\n    {n}\nR = 2"),
    ("while", "j = 0\nwhile j < {i} and {b}:\n    j += 1\n    print('w')\nR = j"),
    ("whileelse", "j = 0\nwhile j < {i}:\n    j += 2\n    print('w')\nelse:\n    {n}\nR = j"),
    ("for", "R = 0\nfor e in {l}:\n    R += {i}"),
    ("forr", "R = 0\nfor e in range({i}):\n    R += e\n    print('f')"),
    ("forelse", "R = 0\nfor e in {l}:\n    R += e\nelse:\n    R = {i}"),
    ("fortup", "R = 0\nfor a1, a2 in {d}.items():\n    R += a1 * {i}"),
    ("forif", "R = 0\nfor e in {l}:\n    if {b}:\n        R += e"),
    ("assert", "assert {b}\nR = {i}"),
    ("assertm", "assert {b}, {s}\nR = {i}"),
    ("assertm2", "assert {b} and {b}, str({i})\nR = 0"),
    ("print", "print({i}, {s}, {b})\nR = 0"),
    ("printl", "print({l})\nR = 0"),
    ("print0", "print()\nprint({s})\nR = 0"),
    ("printn", "print(print({i}))\nR = 0"),
    ("retif", "if {b}:\n    return {i}\nR = {i}"),
    ("retloop", "for e in {l}:\n    if {b}:\n        return {i}\nR = 5"),
    ("retwhile", "while {b}:\n    return {i}\nR = {i}"),
    ("fn", "def h(q: int) -> int:\n    print('h')\n    return q + {i}\nprint('def')\nR = h({i}) + h({i})"),
    ("fnret", "def h(q: int) -> int:\n    if {b}:\n        return q\n    print('n')\n    return {i}\nR = h({i})"),
    ("fnnone", "def h(q: int) -> None:\n    print('h')\n    {i}\nh({i})\nh({i})\nR = 1"),
    ("fnval", "def h(q: int) -> int:\n    return q + {i}\nk2 = h\nprint('b')\nR = k2({i})"),
    ("fnloop", "R = 0\ndef h(q: int) -> int:\n    return q + {i}\nfor e in range(2):\n    R += h({i})"),
    ("isin", "w = {U}\nif isinstance(w, A):\n    R = w.x + {i}\nelse:\n    R = {i}"),
    ("isinand", "w = {U}\nR = isinstance(w, A) and w.x == {i}"),
    ("isinor", "w = {U}\nR = isinstance(w, E) or w.x == {i}"),
    ("dead", "w = {i}\nv2 = {l}\nR = 0"),
    ("deadif", "if {b}:\n    w = {i}\nelse:\n    w = {i}\nR = 0"),
    ("deadcall", "w = g2({i}, {i})\nw = 3\nR = 0"),
    ("deadfn", "def h(q: int) -> int:\n    return {i}\nR = 0"),
    ("deadfor", "for e in {l}:\n    w = {i}\nR = 0"),
    ("unused", "w = [{i}, {i}]\nw = [{i}]\nR = w"),
    ("lcstmt", "[{i} for e in {l}]\nR = 0"),
    ("two", "w = {i}\nv2 = {i} + w\nR = w + {i}"),
]

SUPPORT = """@dataclass
class K(PlutusData):
    CONSTR_ID = 6
    v: int
    def m(self, p: int, q: int) -> int:
        print("m")
        return self.v + p * 10 + q
    def __add__(self, o: int) -> int:
        print("+")
        return self.v + o
    def __radd__(self, o: int) -> int:
        print("r+")
        return self.v + o
    def __lt__(self, o: Self) -> bool:
        print("<")
        return self.v < o.v
    def __eq__(self, o: Self) -> bool:
        print("==")
        return self.v == o.v
    def __contains__(self, o: int) -> bool:
        print("in")
        return self.v == o
    def __invert__(self) -> int:
        print("~")
        return self.v
    def __neg__(self) -> int:
        print("neg")
        return self.v
"""
MINI = "\n".join(HDR.split("\n")[1:]).split("@dataclass\nclass N(")[0]
G = {
    "g2": "def g2(p: int, q: int) -> int:\n    print('g2')\n    return p * 10 + q\n",
    "g3": "def g3(p: int, q: bool, r: str) -> int:\n    print('g3' + r)\n    return p if q else -p\n",
    "gu": "def gu(p: Union[A, E], q: A) -> bool:\n    print('gu')\n    return isinstance(p, A) and q.x > 2\n",
}


def holes(t):
    """template -> (list of literal parts, list of hole types)"""
    import string

    parts, hs = [], []
    for lit, field, _, _ in string.Formatter().parse(t):
        parts.append(lit)
        if field is not None:
            hs.append(field)
        else:
            hs.append(None)
    return parts, hs


class Fill:
    """Fills the holes, numbering probes left to right in the text."""

    def __init__(self):
        self.k = 0
        self.bits = 0
        self.types = set()

    def probe(self, t):
        self.k += 1
        self.types.add(t)
        if t == "b":
            self.bits += 1
            v = f"x // {2 ** (self.bits - 1)} % 2 == 1"
        elif t == "U":
            self.bits += 1
            return f"fU(pick(x // {2 ** (self.bits - 1)} % 2 == 1), {self.k})"
        elif t == "n":
            return f"fn({self.k})"
        else:
            v = VALUE[t].format(k=self.k)
        return f"f{t}({v}, {self.k})"

    def fill(self, tmpl, at=None, sub=None):
        parts, hs = holes(tmpl)
        out, n = "", 0
        for lit, h in zip(parts, hs):
            out += lit
            if h is None:
                continue
            if n == at:
                # templates produced by the outer format still contain doubled
                # braces for literal ones, which parse() has resolved
                out += self.fill(sub)
            else:
                out += self.probe(h)
            n += 1
        return out


def program(f, body):
    """body: statements of the validator using R"""
    txt = body
    types = set(f.types)
    need = "".join(G[g] for g in G if g + "(" in txt)
    src = "from typing import Dict, List, Union, Self\n"
    if any(w in txt + need for w in ("A", "B(", "E(", "K(")) or types & set("AUK"):
        src += MINI
    if "K(" in txt:
        src += SUPPORT
    src += need
    src += "def validator(x: int, y: int):\n"
    if "U" in types:
        src += "    def pick(c: bool) -> Union[A, E]:\n        r: Union[A, E] = E()\n        if c:\n            r = A(3)\n        return r\n"
    for t in TYPES:
        if t in types:
            if t == "n":
                src += "    def fn(k: int) -> None:\n        print(str(k))\n        assert k != y, 'boom'\n"
            else:
                src += PROBES.format(s=t, t=TYPES[t])
    src += "".join("    " + l + "\n" for l in body.splitlines())
    if "R = " in body or "R +=" in body:
        src += "    return R\n"
    return src


def const_program(f, body, x, y):
    """The same with everything known at compile time: from -O2 on constant
    expressions are evaluated by the compiler, printing ones must not be."""
    src = program(f, body)
    head, tail = src.split("def validator(x: int, y: int):\n")
    lines = tail.splitlines()
    n = 0
    while n < len(lines) and lines[n].startswith(("    def f", "    def pick", "        ")):
        n += 1
    top = "".join(l[4:] + "\n" for l in lines[:n])
    rest = "".join(l + "\n" for l in lines[n:])
    return head + f"x = {x}\ny = {y}\n" + top + "def validator(q: int):\n" + rest


def args(f, quick):
    xs = range(2**f.bits)
    res = [(str(x), "0") for x in xs]
    sel = xs if f.bits <= 3 else [0, 2**f.bits - 1] + [2**i for i in range(f.bits)]
    res += [(str(x), str(y)) for x in sel for y in range(1, f.k + 1)]
    return res


C08_CORPUS = True


def cases(tier):
    th = tier == "thorough"
    mk = Mk(tier, every=3, base="O1", alts=["P0", "O0", "O2"])
    exprs = [(n, t, e) for n, t, e in EXPR ]

    def emit(cid, body, f):
        return mk.case(cid, program(f, body), args(f, not th))

    for n, t, e in exprs:
        f = Fill()
        yield emit(f"e:{n}", "R = " + f.fill(e) if t != "T" else "R = " + f.fill(e) + "[1]", f)
        f = Fill()
        yield emit(f"ret:{n}", "return " + f.fill(e) if t != "T" else "return " + f.fill(e) + "[1]", f)
    for n, s in STMT:
        f = Fill()
        yield emit(f"s:{n}", f.fill(s), f)
    forms = [(n, "R = " + e + ("[1]" if t == "T" else "")) for n, t, e in exprs]
    for n, s in forms + [("s-" + n, s) for n, s in STMT]:
        f = Fill()
        body = f.fill(s)
        for x, y in sorted({(0, 0), (2**f.bits - 1, 0), (2**f.bits - 1, 1)}):
            yield mk.case(f"const:{n}:{x}:{y}", const_program(f, body, x, y), [("1",)], ["O2"] if not th else ["O1", "O2", "O2+constant_folding=False", "O3"])
    # every expression in every operand of every other form
    k = 0
    outer = [(n, "R = " + e + ("[1]" if t == "T" else "")) for n, t, e in exprs] + [("s-" + n, s) for n, s in STMT]
    for on, o in outer:
        hs = [h for h in holes(o)[1] if h]
        for at, h in enumerate(hs):
            for n, t, e in exprs:
                if t != h:
                    continue
                k += 1
                # all pairs at the thorough tier; quick: a third of the pairs,
                # every outer form and every inner form occurring
                if not th and k % 3 != 0:
                    continue
                f = Fill()
                body = f.fill(o, at, e)
                if f.bits > 6:
                    continue
                yield emit(f"n:{on}:{at}:{n}", body, f)


def run_case(case):
    return run_diff(case, PROP, logs=True)
