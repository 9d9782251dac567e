"""C25: constructs outside the supported subset are rejected or compiled to
what CPython computes, wherever they are placed."""
import ast

from ..alpha import HDR, Mk
from ..diff import run_diff
from ..engine import NotCanonical

PROP = "C25"
LEVEL = "exploration"
CPU_LIMIT = 200
RULE = (
    "Snippets for every statement and expression kind of the Python grammar and their optional fields (definitions, "
    "parameters, decorators, classes, targets, deletions, imports, exceptions, contexts, pattern matching, generators, "
    "lambdas, starred expressions, conversions, constants, call options, comprehension forms ...), each in every "
    "placement (module, validator, function before and after use, nested function, method, branches, loops, dead code). "
    "Every program that is accepted is run on all inputs and has to return and print what CPython does."
)
ASSUMPTIONS = [
    "CPython and the uplc CEK machine are correct",
    "What an accepted program returns is compared; rejected programs are outside the claim",
]

# name: statements using x (int) and setting r
S = {}


def add(prefix, **kw):
    for k, v in kw.items():
        S[f"{prefix}:{k}"] = v


add(
    "fn",
    default="def f(a: int, b: int = 5) -> int:\n    return a * 10 + b\nr = f(x)",
    defaultall="def f(a: int = 2, b: int = 5) -> int:\n    return a * 10 + b\nr = f(x, x)",
    defaultkw="def f(a: int = 2, b: int = 5) -> int:\n    return a * 10 + b\nr = f(b=x)",
    kwonly="def f(a: int, *, b: int) -> int:\n    return a * 10 + b\nr = f(x, b=2)",
    kwonlyd="def f(a: int, *, b: int = 3) -> int:\n    return a * 10 + b\nr = f(x)",
    posonly="def f(a: int, /, b: int) -> int:\n    return a * 10 + b\nr = f(x, b=2)",
    posonly2="def f(a: int, b: int, /) -> int:\n    return a * 10 + b\nr = f(x, 2)",
    posonlykw="def f(a: int, /, b: int) -> int:\n    return a * 10 + b\nr = f(b=2, a=x)",
    vararg="def f(*a: int) -> int:\n    return len(a)\nr = f(x, 2)",
    vararg1="def f(a: int, *b: int) -> int:\n    return a\nr = f(x)",
    kwarg="def f(**a: int) -> int:\n    return len(a)\nr = f(p=x)",
    kwarg1="def f(a: int, **b: int) -> int:\n    return a\nr = f(x)",
    starcall="def f(a: int, b: int) -> int:\n    return a * 10 + b\nl = [x, 2]\nr = f(*l)",
    starcall1="def f(a: int) -> int:\n    return a * 10\nl = [x]\nr = f(*l)",
    dstarcall="def f(a: int, b: int) -> int:\n    return a * 10 + b\nr = f(**{'a': x, 'b': 2})",
    dupkw="def f(a: int, b: int) -> int:\n    return a * 10 + b\nr = f(x, a=2)",
    misskw="def f(a: int, b: int) -> int:\n    return a * 10 + b\nr = f(x, c=2)",
    few="def f(a: int, b: int) -> int:\n    return a * 10 + b\nr = f(x)",
    many="def f(a: int) -> int:\n    return a * 10\nr = f(x, 1)",
    deco="def d(g: int) -> int:\n    return 5\n@d\ndef f(a: int) -> int:\n    return a\nr = f",
    deco2="import functools\n@functools.lru_cache\ndef f(a: int) -> int:\n    return a\nr = f(x)",
    deco3="from functools import lru_cache\n@lru_cache\ndef f(a: int) -> int:\n    return a\nr = f(x)",
    decocall="def d(k: int) -> int:\n    return k\n@d(3)\ndef f(a: int) -> int:\n    return a\nr = f(x)",
    decoprint="@print\ndef f(a: int) -> int:\n    return a\nr = x",
    decostr="@str\ndef f(a: int) -> int:\n    return a\nr = f(x)",
    decolen="@len\ndef f(a: int) -> int:\n    return a\nr = f(x)",
    decostatic="@staticmethod\ndef f(a: int) -> int:\n    return a + 1\nr = f(x)",
    asyncdef="async def f(a: int) -> int:\n    return a\nr = f(x)",
    asyncunused="async def f(a: int) -> int:\n    return a\nr = x",
    gen="def f(a: int) -> int:\n    yield a\nr = f(x)",
    genunused="def f(a: int) -> int:\n    yield a\nr = x",
    genlist="def f(a: int) -> List[int]:\n    yield a\n    yield 2\nr = [e for e in f(x)]",
    yfrom="def f(a: int) -> List[int]:\n    yield from [a]\nr = [e for e in f(x)]",
    lam="f = lambda a: a + 1\nr = f(x)",
    lamcall="r = (lambda a: a + 1)(x)",
    lamunused="f = lambda a: a + 1\nr = x",
    noann="def f(a) -> int:\n    return 5\nr = f(x)",
    noannadd="def f(a, b) -> int:\n    return a + b\nr = f(x, 1)",
    noret="def f(a: int):\n    return a + 1\nr = f(x)",
    noretuse="def f(a: int):\n    return a + 1\nr = f(x) + 1",
    strann="def f(a: 'int') -> 'int':\n    return a + 1\nr = f(x)",
    wrongret="def f(a: int) -> bytes:\n    return a\nr = f(x)",
    wrongretnone="def f(a: int) -> int:\n    print('')\nr = f(x)",
    noneret="def f(a: int) -> None:\n    return a\nr = f(x)",
    noneret2="def f(a: int) -> None:\n    if a > 1:\n        return None\n    a + 1\nr = f(x)",
    bareret="def f(a: int) -> None:\n    if a > 1:\n        return\n    print('q')\nr = f(x)",
    someret="def f(a: int) -> int:\n    if a > 1:\n        return 1\nr = f(x)",
    doc="def f(a: int) -> int:\n    'docstring'\n    return a + 1\nr = f(x)",
    doc2="def f(a: int) -> int:\n    'docstring'\n    'another'\n    return a + 1\nr = f(x)",
    attr="def f(a: int) -> int:\n    return a + 1\nf.x = 3\nr = f(x)",
    generic="def f[T](a: int) -> int:\n    return a + 1\nr = f(x)",
    nested="def f(a: int) -> int:\n    def g(b: int) -> int:\n        return a + b\n    return g(a) + g(1)\nr = f(x)",
    rec="def f(a: int) -> int:\n    return 1 if a < 1 else a + f(a - 1)\nr = f(x)",
    retfn="def f(a: int) -> int:\n    return a + 1\ndef g() -> Callable[[int], int]:\n    return f\nr = g()(x)",
    fnarg="def f(a: int) -> int:\n    return a + 1\ndef g(h: Callable[[int], int]) -> int:\n    return h(3)\nr = g(f) + x",
    closure="def mk(k: int) -> Callable[[int], int]:\n    def f(a: int) -> int:\n        return a + k\n    return f\nr = mk(3)(x)",
    param="def f(x: int) -> int:\n    x = x + 1\n    return x\nr = f(x) + x",
    duparg="def f(a: int, b: int) -> int:\n    a = b\n    return a\nr = f(x, 2)",
    nameshadow="def f(f: int) -> int:\n    return f + 1\nr = f(x)",
    name2="def f(a: int) -> int:\n    f = a + 1\n    return f\nr = f(x)",
    retdoc="def f(a: int) -> int:\n    return a\n    'dead'\nr = f(x)",
    deadret="def f(a: int) -> int:\n    return a\n    return b'x'\nr = f(x)",
    deadraise="def f(a: int) -> int:\n    return a\n    raise ValueError()\nr = f(x)",
    callattr="r = (x).bit_length()",
    callattr2="r = x.real",
    conj="r = x.conjugate()",
    isself="r = x.__add__(1)",
    dunderlen="r = [1, x].__len__()",
)
add(
    "stmt",
    glob="def f() -> int:\n    global gg\n    gg = 5\n    return 1\nr = f() + x",
    globread="g = 7\ndef f() -> int:\n    global g\n    return g\nr = f() + x",
    globwrite="g = 7\ndef f() -> int:\n    global g\n    g = 9\n    return 1\nr = f() + g",
    nonlocal_="def o(x: int) -> int:\n    k = 1\n    def f() -> int:\n        nonlocal k\n        k = 5\n        return 1\n    return f() + k * 10\nr = o(x)",
    del_="k = x\ndel k\nr = x",
    deluse="k = x\ndel k\nr = k",
    delidx="k = [x, 1]\ndel k[0]\nr = k",
    deldict="k = {1: x}\ndel k[1]\nr = k",
    raise_="if x > 1:\n    raise ValueError('a')\nr = x",
    raisebare="if x > 1:\n    raise\nr = x",
    raisefrom="if x > 1:\n    raise ValueError('a') from None\nr = x",
    try_="try:\n    r = 10 // x\nexcept ZeroDivisionError:\n    r = 77",
    tryfin="try:\n    r = x\nfinally:\n    print('f')",
    tryelse="try:\n    r = x\nexcept ValueError:\n    r = 2\nelse:\n    r = 5",
    trystar="try:\n    r = x\nexcept* ValueError:\n    r = 2",
    with_="with open('/dev/null') as f:\n    r = x",
    with2="with x:\n    r = x",
    asyncwith="async def f(a: int) -> int:\n    async with a:\n        return a\nr = x",
    asyncfor="async def f(a: int) -> int:\n    async for i in a:\n        return a\nr = x",
    await_="async def f(a: int) -> int:\n    return await a\nr = x",
    match_="match x:\n    case 1:\n        r = 10\n    case _:\n        r = 20",
    match2="match x:\n    case k if k > 1:\n        r = k\n    case _:\n        r = 0",
    break_="r = 0\nfor i in [1, 2, 3]:\n    if i > x:\n        break\n    r += i",
    breakw="r = 0\nwhile True:\n    r += 1\n    if r > x:\n        break",
    breakelse="r = 0\nfor i in [1, 2, 3]:\n    if i > x:\n        break\nelse:\n    r = 9",
    continue_="r = 0\nfor i in [1, 2, 3]:\n    if i > x:\n        continue\n    r += i",
    continuew="r = 0\ni = 0\nwhile i < 3:\n    i += 1\n    if i == x:\n        continue\n    r += i",
    forelse="r = 0\nfor i in [1, 2]:\n    r += i\nelse:\n    r += 100",
    whileelse="r = 0\nwhile r < x:\n    r += 1\nelse:\n    r += 100",
    fortup="r = 0\nfor a, b in [(1, x), (2, 3)]:\n    r += a * b",
    fornest="r = 0\nfor a, (b, c) in [(1, (x, 2))]:\n    r += a * b * c",
    forstar="r = 0\nfor a, *b in [[1, x, 3]]:\n    r += a + len(b)",
    forattr="k = A(1)\nfor k.x in [1, 2]:\n    pass\nr = k.x",
    foridx="k = [1]\nfor k[0] in [1, x]:\n    pass\nr = k",
    fordict="r = 0\nfor k in {1: 2, 3: x}:\n    r += k",
    forstr="r = ''\nfor k in 'abc':\n    r = k + r",
    forbytes="r = 0\nfor k in b'abc':\n    r += k",
    fortuple="r = 0\nfor k in (1, 2, x):\n    r += k",
    forset="r = 0\nfor k in {1, x}:\n    r += k",
    forenum="r = 0\nfor i, k in enumerate([5, x]):\n    r += i * k",
    forzip="r = 0\nfor i, k in zip([1, 2], [5, x]):\n    r += i * k",
    formutate="l = [1, 2]\nr = 0\nfor k in l:\n    l = l + [k]\n    r += k\nr += len(l)",
    forcomment="r = 0\nfor k in [1, x]:  # type: int\n    r += k",
    ifwalrus="if (k := x + 1) > 2:\n    r = k\nelse:\n    r = -k",
    walrus="r = (k := x + 1) + k",
    walruslc="r = [k := e for e in [x, 2]]",
    pass_="pass\nr = x",
    ellipsis="...\nr = x",
    strstmt="'just a string'\nr = x",
    bytestmt="b'just bytes'\nr = x",
    numstmt="5\nr = x",
    namestmt="x\nr = x",
    nonestmt="None\nr = x",
    assertup="assert (x > 1, 'message')\nr = x",
    asserti="assert x\nr = x",
    assertl="assert [x]\nr = x",
    assertm="assert x > 1, x\nr = x",
    assertmb="assert x > 1, b'm'\nr = x",
    typealias="type Q = int\nr = x",
    chain="a = b = x\nr = a + b",
    chain2="a = b = [x]\nb = b + [1]\nr = a",
    star="a, *b = [x, 2, 3]\nr = b",
    star2="*a, b = [x, 2, 3]\nr = b",
    unpacklist="a, b = [x, 2]\nr = a",
    unpacklistbad="a, b = [x, 2, 3]\nr = a",
    unpackl="[a, b] = [x, 2]\nr = a",
    unpackt="(a, b) = (x, 2)\nr = a * 10 + b",
    unpackn="(a, b), c = (x, 2), 3\nr = a * 100 + b * 10 + c",
    unpackd="a, b = {1: x, 2: 3}\nr = a * 10 + b",
    unpackstr="a, b = 'xy'\nr = a",
    unpackbytes="a, b = b'xy'\nr = a",
    unpackdup="a, a = x, 2\nr = a",
    unpackself="a, b = x, 1\na, b = b, a\nr = a * 10 + b",
    unpackdep="a = [1, 2]\ni = 0\ni, r = 1, a[i]",
    unpackfew="a, b = (x, 2, 3)\nr = a",
    unpackone="(a,) = (x,)\nr = a",
    idxassign="k = [x, 1]\nk[0] = 5\nr = k",
    dictassign="k = {1: x}\nk[1] = 5\nr = k",
    dictassign2="k = {1: x}\nk[2] = 5\nr = k",
    sliceassign="k = [x, 1]\nk[0:1] = [5]\nr = k",
    attrassign="k = A(x)\nk.x = 5\nr = k.x",
    attraug="k = A(x)\nk.x += 5\nr = k.x",
    idxaug="k = [x]\nk[0] += 5\nr = k",
    annonly="k: int\nr = x",
    annuse="k: int\nr = k",
    annonlyrebind="k = 3\nk: int\nr = k + x",
    annattr="k = A(x)\nk.x: int = 5\nr = k.x",
    annidx="k = [x]\nk[0]: int = 5\nr = k",
    annparen="(k): int = x\nr = k",
    annwrong="k: bytes = x\nr = k",
    annstr="k: 'int' = x\nr = k",
    anncomplex="k: List[int] = [x]\nr = k",
    annfinal="from typing import Final\nk: Final[int] = x\nr = k",
    annopt="from typing import Optional\nk: Optional[int] = x\nr = k",
    annpipe="k: int | bytes = x\nr = k",
    annlist="k: list[int] = [x]\nr = k",
    annnone="k: None = None\nr = x",
    anndowncast="k: Anything = x\nr = k",
    annbool="k: int = True\nr = k",
    annbool2="k: bool = 1\nr = k",
    auglist="k = [x]\nk += [1]\nr = k",
    augalias="k = [x]\nj = k\nk += [1]\nr = j",
    augstr="k = 'a'\nk += 'b'\nr = k",
    augmul="k = 'a'\nk *= 3\nr = k",
    augdiv="k = x\nk /= 2\nr = k",
    augfdiv="k = x\nk //= 2\nr = k",
    augpow="k = x\nk **= 2\nr = k",
    augmat="k = x\nk @= 2\nr = k",
    augand="k = x\nk &= 2\nr = k",
    augsh="k = x\nk <<= 2\nr = k",
    augundef="zz += 1\nr = x",
    augtype="k = x\nk += 'a'\nr = k",
    nonedoc="None\nr = None",
    semi="a = x; b = a + 1; r = b",
    imp="import math\nr = math.gcd(x, 6)",
    impas="import math as m\nr = x",
    impfrom="from math import gcd\nr = gcd(x, 6)",
    impfromu="from math import gcd\nr = x",
    impunused="import os\nr = x",
    impstar="from math import *\nr = x",
    imptyping="from typing import *\nr = x",
    impfuture="r = x",
    main="if __name__ == '__main__':\n    r = 5\nelse:\n    r = x",
    name_="r = __name__",
    dbg="r = 1 if __debug__ else 2",
    exit_="if x > 1:\n    exit()\nr = x",
    exec_="exec('x = 5')\nr = x",
    eval_="r = eval('x')",
    globals_="r = len(globals()) > 0",
    input_="r = 1 if x > 1 else 2",
)
add(
    "cls",
    nobase="class Q:\n    x: int\nr = x",
    nodata="class Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = x",
    nodatause="class Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x).x",
    default="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int = 5\nr = Q(x).x",
    defaultu="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int = 5\nr = Q().x",
    order="@dataclass(order=True)\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x) < Q(3)",
    frozen="@dataclass(frozen=True)\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x).x",
    eqf="@dataclass(eq=False)\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x) == Q(x)",
    initf="@dataclass(init=False)\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x).x",
    unsafe="@dataclass(unsafe_hash=True)\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    x: int\nr = Q(x).x",
    inherit="@dataclass\nclass Q(A):\n    CONSTR_ID = 3\n    y: int\nr = Q(x, 1).y",
    inherit2="@dataclass\nclass Q(A):\n    CONSTR_ID = 3\nr = Q(x).x",
    multi="@dataclass\nclass Q(PlutusData, A):\n    CONSTR_ID = 3\n    y: int\nr = x",
    meta="@dataclass\nclass Q(PlutusData, metaclass=type):\n    CONSTR_ID = 3\n    y: int\nr = Q(x).y",
    cidexpr="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 1 + 2\n    y: int\nr = Q(x)",
    cidann="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID: int = 3\n    y: int\nr = Q(x)",
    cidlast="@dataclass\nclass Q(PlutusData):\n    y: int\n    CONSTR_ID = 3\nr = Q(x)",
    cidtwice="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    CONSTR_ID = 4\n    y: int\nr = Q(x)",
    cidneg="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = -1\n    y: int\nr = Q(x)",
    cidstr="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 'a'\n    y: int\nr = Q(x)",
    cidname="K = 4\n@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = K\n    y: int\nr = Q(x)",
    cidset="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nQ.CONSTR_ID = 9\nr = Q(x)",
    const="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    C = 7\n    y: int\nr = Q(x).C",
    classconst="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nr = Q.CONSTR_ID",
    dupfield="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    y: bytes\nr = x",
    dupfield2="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    z: int\n    y: int\nr = Q(x, 2).y",
    classdoc="@dataclass\nclass Q(PlutusData):\n    'doc'\n    CONSTR_ID = 3\n    y: int\nr = Q(x).y",
    classdoc2="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    'doc'\n    y: int\nr = Q(x).y",
    passbody="@dataclass\nclass Q(PlutusData):\n    pass\nr = Q()",
    stmtbody="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    print('body')\nr = Q(x).y",
    ifbody="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    if True:\n        y: int\nr = Q(x).y",
    nestcls="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    class R:\n        z: int\nr = Q(x).y",
    static="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    @staticmethod\n    def m(a: int) -> int:\n        return a + 1\nr = Q.m(x)",
    staticinst="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    @staticmethod\n    def m(a: int) -> int:\n        return a + 1\nr = Q(x).m(5)",
    clsm="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    @classmethod\n    def m(cls, a: int) -> int:\n        return a + 1\nr = Q(x).m(x)",
    prop="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    @property\n    def m(self) -> int:\n        return self.y + 1\nr = Q(x).m",
    meth="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self, a: int) -> int:\n        return self.y + a\nr = Q(x).m(3)",
    methd="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self, a: int = 4) -> int:\n        return self.y + a\nr = Q(x).m()",
    methkw="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self, a: int) -> int:\n        return self.y + a\nr = Q(x).m(a=3)",
    methunb="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self, a: int) -> int:\n        return self.y + a\nr = Q.m(Q(x), 3)",
    methval="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self, a: int) -> int:\n        return self.y + a\nk = Q(x).m\nr = k(3)",
    methnoself="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m() -> int:\n        return 5\nr = Q(x).m()",
    methredef="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self) -> int:\n        return 1\n    def m(self) -> int:\n        return 2\nr = Q(x).m()",
    methfield="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def y(self) -> int:\n        return 1\nr = x",
    methset="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(self) -> int:\n        self.y = 5\n        return self.y\nr = Q(x).m()",
    methother="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def m(other) -> int:\n        return other.y\nr = Q(x).m()",
    init="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __init__(self, y: int) -> None:\n        print('i')\nr = x",
    initu="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __post_init__(self) -> None:\n        print('i')\nr = Q(x).y",
    call="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __call__(self, a: int) -> int:\n        return self.y + a\nr = Q(x)(2)",
    getitem="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __getitem__(self, a: int) -> int:\n        return self.y + a\nr = Q(x)[2]",
    len="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __len__(self) -> int:\n        return 3\nr = len(Q(x))",
    str="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __str__(self) -> str:\n        return 'q'\nr = str(Q(x))",
    repr="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __repr__(self) -> str:\n        return 'q'\nr = str(Q(x))",
    fstr="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __str__(self) -> str:\n        return 'q'\nr = f'{Q(x)}'",
    bool="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __bool__(self) -> bool:\n        return False\nr = 1 if Q(x) else 2",
    boolcall="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __bool__(self) -> bool:\n        return False\nr = bool(Q(x))",
    boolnone="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nr = 1 if Q(x) else 2",
    iter="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __iter__(self) -> List[int]:\n        return [1]\nr = [e for e in Q(x)]",
    hash="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __hash__(self) -> int:\n        return 1\nr = x",
    iadd="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __iadd__(self, a: int) -> int:\n        return 100 + a\nk = Q(x)\nk += 2\nr = k",
    iadd2="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __add__(self, a: int) -> int:\n        return 7 + a\n    def __iadd__(self, a: int) -> int:\n        return 100 + a\nk = Q(x)\nk += 2\nr = k",
    gt="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __lt__(self, o: Self) -> bool:\n        return self.y < o.y\nr = Q(x) > Q(2)",
    le="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __lt__(self, o: Self) -> bool:\n        return self.y < o.y\nr = Q(x) <= Q(2)",
    abs="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __abs__(self) -> int:\n        return 3\nr = abs(Q(x))",
    int="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __int__(self) -> int:\n        return 3\nr = int(Q(x))",
    index="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __index__(self) -> int:\n        return 1\nr = [5, 6][Q(x)]",
    bytes="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __bytes__(self) -> bytes:\n        return b'1'\nr = bytes(Q(x))",
    pos="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __pos__(self) -> int:\n        return 99\nr = +Q(x)",
    getattr="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __getattr__(self, n: str) -> int:\n        return 99\nr = Q(x).zz",
    divmod="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n    def __divmod__(self, n: int) -> int:\n        return 99\nr = divmod(Q(x), 2)",
    decos="def d(c: int) -> int:\n    return 5\n@d\n@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nr = x",
    decos2="@dataclass\n@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nr = Q(x).y",
    decoprint="@print\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\nr = x",
    alias="Q = A\nr = Q(x).x",
    aliascond="Q = A if x > 1 else E\nr = x",
    typevar="r = A",
    typecall="r = type(A(x))",
    fieldcls="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: A\nr = Q(A(x)).y.x",
    fieldany="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: Anything\nr = Q(A(x)).y",
    fieldself="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: 'Q'\nr = x",
    fieldset="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: set\nr = x",
    fieldtup="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: Tuple[int, int]\nr = x",
    fieldlist="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: List[A]\nr = Q([A(x)]).y[0].x",
    fieldfn="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: Callable[[int], int]\nr = x",
    redef="@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 3\n    y: int\n@dataclass\nclass Q(PlutusData):\n    CONSTR_ID = 4\n    z: int\nr = Q(x).z",
    redefcond="if x > 1:\n    @dataclass\n    class Q(PlutusData):\n        CONSTR_ID = 3\n        y: int\nelse:\n    @dataclass\n    class Q(PlutusData):\n        CONSTR_ID = 4\n        y: int\nr = Q(x)",
    few="r = A()",
    many="r = A(x, 2)",
    kw="r = B(z=[x], y=b'').z",
    kwmix="r = B(b'', z=[x]).z",
    kwdup="r = A(x, x=2)",
    kwbad="r = A(zz=x)",
    star="l = [x]\nr = A(*l).x",
    iscls="r = isinstance(A(x), A)",
    issub="r = issubclass(A, PlutusData)",
    isno="r = isinstance(A(x), B)",
    istup="r = isinstance(A(x), (A, B))",
    isnested="k: Union[A, B, E] = A(x)\nr = isinstance(k, (A, B))",
    ispipe="k: Union[A, B, E] = A(x)\nr = isinstance(k, A | B)",
    isunion="k: Union[A, B, E] = A(x)\nr = isinstance(k, Union[A, B])",
    isint="r = isinstance(x, int)",
    isbool="r = isinstance(x > 1, bool)",
    isboolint="r = isinstance(x > 1, int)",
    isstr="r = isinstance('a', str)",
    isstrb="r = isinstance('a', bytes)",
    islist="r = isinstance([x], list)",
    isvar="Q = A\nr = isinstance(A(x), Q)",
    iskw="r = isinstance(A(x), classinfo=A)",
    hasattr="r = hasattr(A(x), 'x')",
    getattr_="r = getattr(A(x), 'x')",
    copy="import copy\nr = copy.copy(A(x)).x",
    replace="r = A(x).x",
    tocbor="r = A(x).to_cbor()",
    tocborhex="r = A(x).to_cbor_hex()",
    validate="r = A(x).validate()",
    id="r = A(x).id",
    hash_="r = A(x).hash()",
    todict="r = A(x).to_dict()",
    tojson="r = A(x).to_json()",
)
E_ = {
    # expressions of x
    "float": "1.5",
    "floatint": "1.0",
    "floatadd": "x + 1.5",
    "complex": "1j",
    "ellipsis": "...",
    "bigint": "10 ** 30",
    "hexlit": "0xff + x",
    "octlit": "0o17 + x",
    "binlit": "0b11 + x",
    "underscore": "1_000 + x",
    "strcat": "'a' 'b'",
    "bytescat": "b'a' b'b'",
    "raw": "r'a\\n'",
    "ustr": "u'a'",
    "byteesc": "b'\\x00\\xff'",
    "stresc": "'\\u00e9\\n'",
    "triple": "'''a\nb'''",
    "set": "{1, x}",
    "setlen": "len({1, x})",
    "setcomp": "{e for e in [1, x]}",
    "setempty": "set()",
    "frozenset": "frozenset([x])",
    "genexp": "sum(e for e in [1, x])",
    "genexpany": "any(e > 1 for e in [1, x])",
    "genlist": "list(e for e in [1, x])",
    "liststar": "[*[1, 2], x]",
    "tupstar": "(*[1, 2], x)",
    "dictstar": "{**{1: 2}, 3: x}",
    "dictempty": "{}",
    "listempty": "[]",
    "mixedlist": "[1, b'a']",
    "mixedlist2": "[x, 'a']",
    "mixeddict": "{1: 2, b'a': 3}",
    "mixedrec": "[A(x), E()]",
    "boolint": "[True, x]",
    "tuple": "(x, 1)",
    "tuple1": "(x,)",
    "tuple0": "()",
    "tuplen": "((x, 1), 2)",
    "tupidx": "(x, 1)[0]",
    "tupneg": "(x, 1)[-1]",
    "tupoob": "(x, 1)[2]",
    "tupvar": "(x, 1)[x]",
    "tupslice": "(x, 1, 2)[0:1]",
    "tupadd": "(x,) + (1,)",
    "tupmul": "(x,) * 2",
    "tuplen_": "len((x, 1))",
    "tupeq": "(x, 1) == (1, 1)",
    "tuplt": "(x, 1) < (1, 2)",
    "tupin": "x in (1, 2)",
    "tupnotin": "x not in (1, 2)",
    "tupbool": "bool((x, 1))",
    "tupstr": "str((x, 1))",
    "is": "x is 1",
    "isnone": "x is None",
    "isnotnone": "x is not None",
    "nonenone": "None is None",
    "noneeq": "None == None",
    "noneeqx": "x == None",
    "isbool": "(x > 1) is True",
    "isstr": "'a' is 'a'",
    "islist": "[x] is [x]",
    "isA": "A(x) is A(x)",
    "eqmixed": "x == 'a'",
    "eqmixed2": "x == b'a'",
    "nemixed": "x != 'a'",
    "eqbool": "x == True",
    "eqlistint": "[x] == x",
    "eqAB": "A(x) == E()",
    "eqlists": "[x] == ['a']",
    "ltmixed": "x < 'a'",
    "ltlist": "[x] < [2]",
    "ltstr": "'a' < 'b'",
    "ltbool": "(x > 1) < True",
    "ltA": "A(x) < A(1)",
    "inint": "x in 5",
    "instr": "'a' in 'abc'",
    "inbytes": "x in b'abc'",
    "inbytes2": "b'a' in b'abc'",
    "indict": "x in {1: 2}",
    "innest": "[x] in [[1], [2]]",
    "intype": "'a' in [1, 2]",
    "inchain": "1 < x in [2, 3]",
    "notchain": "not x == 1",
    "iteint": "1 if x else 2",
    "itestr": "1 if 'a' else 2",
    "itelist": "1 if [x] else 2",
    "itenone": "1 if None else 2",
    "itemixed": "1 if x else b'a'",
    "iteA": "A(x) if x > 1 else E()",
    "iteN": "None if x > 1 else x",
    "addmixed": "x + 'a'",
    "addbytes": "b'a' + 'a'",
    "addlists": "[x] + ['a']",
    "adddict": "{1: 2} | {3: x}",
    "subset": "{1, 2} - {x}",
    "subl": "[x] - [1]",
    "mullist": "[x] * 2",
    "mullistr": "2 * [x]",
    "mulstr": "'ab' * x",
    "mulstrn": "'ab' * -1",
    "mulbool": "'ab' * (x > 1)",
    "div": "x / 2",
    "divf": "6 / 2",
    "mod": "'%s' % x",
    "modb": "b'%d' % x",
    "matmul": "x @ 2",
    "powf": "4 ** 0.5",
    "shift": "x << 2",
    "shiftr": "x >> 1",
    "shiftn": "x << -1",
    "and": "x & 3",
    "or": "x | 3",
    "xor": "x ^ 3",
    "inv": "~x",
    "pos": "+x",
    "posb": "+True",
    "negb": "-True",
    "invb": "~True",
    "notl": "not [x]",
    "nots": "not 'a'",
    "notN": "not None",
    "negs": "-'a'",
    "posl": "+[x]",
    "boolarith": "True + x",
    "boolmul": "(x > 1) * 5",
    "boolidx": "[5, 6][x > 1]",
    "fspec": "f'{x:5}'",
    "fspec2": "f'{x:05d}'",
    "fspecx": "f'{x:x}'",
    "fspecs": "f\"{'a':>5}\"",
    "fconv": "f'{x!r}'",
    "fconvs": "f\"{'a'!r}\"",
    "fconva": "f\"{'\u00e9'!a}\"",
    "fconvstr": "f\"{'a'!s}\"",
    "feq": "f'{x=}'",
    "fnest": "f\"{f'{x}'}\"",
    "fspecdyn": "f'{x:{2}}'",
    "fbrace": "f'{{{x}}}'",
    "fempty": "f''",
    "flist": "f'{[x]}'",
    "fnone": "f'{None}'",
    "ftuple": "f'{(x, 1)}'",
    "fbytes": "f\"{b'a'}\"",
    "fcat": "f'{x}' 'a'",
    "subdict": "{1: x}[1]",
    "subdictk": "{1: x}['a']",
    "subbool": "[x, 1][True]",
    "subslice": "[x, 1, 2][0:2]",
    "substep": "[x, 1, 2][::2]",
    "substepn": "[x, 1, 2][::-1]",
    "substep1": "[x, 1, 2][0:2:1]",
    "substepnone": "[x, 1, 2][0:2:None]",
    "subnone": "[x, 1, 2][None:2]",
    "subtuple": "[x, 1][0, 1]",
    "subell": "[x, 1][...]",
    "substr": "'abc'[0]",
    "substrs": "'abc'[0:2]",
    "bstep": "b'abc'[::2]",
    "bstepn": "b'abc'[::-1]",
    "bbool": "b'abc'[True]",
    "idxneg": "[x, 1][-1]",
    "idxnegoob": "[x, 1][-3]",
    "idxoob": "[x, 1][2]",
    "bneg": "b'abc'[-1]",
    "bnegoob": "b'abc'[-4]",
    "subint": "x[0]",
    "subA": "A(x)[0]",
    "attrmiss": "A(x).zz",
    "attrlist": "[x].zz",
    "attrint": "x.numerator",
    "lc2": "[a * b for a in [1, 2] for b in [x, 3]]",
    "lc2dep": "[b for a in [[1], [x]] for b in a]",
    "lc2if": "[a * b for a in [1, 2] if a > 1 for b in [x, 3]]",
    "lcif2": "[a for a in [1, 2, 3] if a > 1 if a < 3]",
    "lctup": "[a * b for a, b in [(1, x), (2, 3)]]",
    "lctupd": "[a * b for a, b in {1: x}.items()]",
    "lcasync": "[a async for a in [1]]",
    "lcwalrus": "[y for a in [1, 2] if (y := a) > 1]",
    "lcshadow": "[x for x in [1, 2]]",
    "lcstr": "[a for a in 'ab']",
    "lcdict": "[a for a in {1: 2}]",
    "lcbytes": "[a for a in b'ab']",
    "lcset": "[a for a in {1}]",
    "lcrange": "[a for a in range(3)]",
    "lclam": "[f(2) for f in [lambda q: q + a for a in [1, 2]]]",
    "dc2": "{a: b for a in [1, 2] for b in [x, 3]}",
    "dcdup": "{a // 2: a for a in [1, 2, 3]}",
    "dcif": "{a: a for a in [1, 2] if a > 1}",
    "dctup": "{a: b for a, b in [(1, x)]}",
    "lcelse": "[a if a > 1 else x for a in [1, 2]]",
    "ifexpnest": "1 if x > 1 else 2 if x > 0 else 3",
    "range2": "[e for e in range(1, 3)]",
    "range3": "[e for e in range(3, 0, -1)]",
    "rangelen": "len(range(3))",
    "rangeidx": "range(5)[2]",
    "rangeneg": "[e for e in range(-2)]",
    "rangein": "x in range(3)",
    "lenstr": "len('ab')",
    "lendict": "len({1: 2})",
    "lenint": "len(x)",
    "lenkw": "len(obj=[x])",
    "maxargs": "max(1, x)",
    "max3": "max(1, x, 5)",
    "maxkey": "max([1, x], key=abs)",
    "maxdef": "max([], default=3)",
    "maxempty": "max([])",
    "minargs": "min(1, x)",
    "minstr": "min(['b', 'a'])",
    "sumstart": "sum([1, x], 5)",
    "sumkw": "sum([1, x], start=5)",
    "sumlist": "sum([[1], [x]], [])",
    "sumbool": "sum([True, False])",
    "sorted": "sorted([3, x])",
    "sortedr": "sorted([3, x], reverse=True)",
    "reversed": "[e for e in reversed([1, x])]",
    "enumerate": "[i for i, e in enumerate([5, x])]",
    "enumeratest": "[i for i, e in enumerate([5, x], 3)]",
    "zip": "[a for a, b in zip([1], [x])]",
    "map": "[e for e in map(abs, [x])]",
    "mapstr": "[e for e in map(str, [x])]",
    "filter": "[e for e in filter(None, [x])]",
    "allg": "all([x > 1, True])",
    "allint": "all([x, 1])",
    "anyint": "any([x, 0])",
    "roundi": "round(x)",
    "roundn": "round(x, 2)",
    "divmod": "divmod(x, 2)",
    "divmod0": "divmod(x, 2)[0]",
    "pow3": "pow(x, 2, 5)",
    "pow3neg": "pow(3, -1, 5)",
    "powkw": "pow(base=x, exp=2)",
    "absb": "abs(True)",
    "intstr": "int('12')",
    "intbase": "int('12', 16)",
    "intbasekw": "int('12', base=16)",
    "intbytes": "int(b'12')",
    "intfloat": "int(1.9)",
    "intbool": "int(x > 1)",
    "int0": "int()",
    "inthex": "int('0x1f', 0)",
    "intws": "int(' 12 ')",
    "str0": "str()",
    "strbytes": "str(b'a')",
    "strenc": "str(b'a', 'utf8')",
    "strnone": "str(None)",
    "strbool": "str(x > 1)",
    "strlist": "str([x, 'a'])",
    "strdict": "str({1: x})",
    "strA": "str(A(x))",
    "reprstr": "repr('a')",
    "repri": "repr(x)",
    "ascii": "ascii('\u00e9')",
    "format": "format(x, '05d')",
    "bytes0": "bytes()",
    "bytesstr": "bytes('a', 'utf8')",
    "bytesstr1": "bytes('a')",
    "bytesneg": "bytes(-1)",
    "bytesbig": "bytes([256])",
    "bytesb": "bytes(b'a')",
    "bytearray": "bytearray(b'a')",
    "bool0": "bool()",
    "boolN": "bool(None)",
    "boolA": "bool(A(x))",
    "booldict": "bool({})",
    "list0": "list()",
    "listl": "list([x])",
    "liststr": "list('ab')",
    "listd": "list({1: x})",
    "listb": "list(b'ab')",
    "dict0": "dict()",
    "dictkw": "dict(a=x)",
    "dictl": "dict([(1, x)])",
    "tuplel": "tuple([x, 1])",
    "chrbig": "chr(1114112)",
    "chrneg": "chr(-1)",
    "chrx": "chr(x + 65)",
    "ord": "ord('a')",
    "ordb": "ord(b'a')",
    "hexneg": "hex(-x)",
    "octx": "oct(x)",
    "binx": "bin(x)",
    "binneg": "bin(-x)",
    "hexb": "hex(True)",
    "callable": "callable(x)",
    "id": "id(x) == id(x)",
    "hash": "hash(x)",
    "type": "type(x)",
    "typeq": "type(x) == int",
    "iter": "next(iter([x]))",
    "print": "print(x)",
    "printsep": "print(x, 1, sep='-')",
    "printend": "print(x, end='')",
    "printfile": "print(x, file=None)",
    "printtup": "print((x, 1))",
    "print2": "print(x, 'a', b'b', [1], None, True)",
    "strupper": "'a'.upper()",
    "strsplit": "'a b'.split()",
    "strjoin": "','.join(['a', 'b'])",
    "strstrip": "' a '.strip()",
    "strrepl": "'aa'.replace('a', 'b')",
    "strfind": "'abc'.find('b')",
    "strcount": "'aa'.count('a')",
    "strstarts": "'ab'.startswith('a')",
    "strformat": "'{}'.format(x)",
    "strindex": "'ab'.index('b')",
    "strisdigit": "'1'.isdigit()",
    "strencode": "'a'.encode()",
    "strencode2": "'a'.encode('utf8')",
    "strencode3": "'\u00e9'.encode('latin1')",
    "strencodekw": "'\u00e9'.encode(encoding='latin1')",
    "strzfill": "'a'.zfill(3)",
    "bdecode": "b'a'.decode()",
    "bdecode2": "b'\\xe9'.decode('latin1')",
    "bdecodeerr": "b'\\xff'.decode('utf8', 'ignore')",
    "bhex": "b'a'.hex()",
    "bhexsep": "b'ab'.hex(':')",
    "bfind": "b'ab'.find(b'b')",
    "bjoin": "b''.join([b'a', b'b'])",
    "bstarts": "b'ab'.startswith(b'a')",
    "bsplit": "b'a b'.split()",
    "bstrip": "b' a '.strip()",
    "bfromhex": "bytes.fromhex('00ff')",
    "bfromhexsp": "bytes.fromhex('00 ff')",
    "bfromhexodd": "bytes.fromhex('0')",
    "bfromhexinst": "b'zz'.fromhex('00')",
    "bupper": "b'a'.upper()",
    "tobytes": "x.to_bytes(4, 'big')",
    "frombytes": "int.from_bytes(b'ab', 'big')",
    "lappend": "[x].append(1)",
    "lindex": "[1, x].index(x)",
    "lindex2": "[1, x, 1].index(1, 1)",
    "lcount": "[1, x].count(1)",
    "lpop": "[1, x].pop()",
    "lcopy": "[1, x].copy()",
    "lsort": "[3, x].sort()",
    "linsert": "[3].insert(0, x)",
    "lextend": "[3].extend([x])",
    "lreverse": "[3, x].reverse()",
    "dget": "{1: x}.get(1)",
    "dget2": "{1: x}.get(1, 0)",
    "dgetkw": "{1: x}.get(1, default=0)",
    "dkeys": "{1: x}.keys()",
    "dvals": "{1: x}.values()",
    "ditems": "{1: x}.items()",
    "dpop": "{1: x}.pop(1)",
    "dupdate": "{1: x}.update({2: 3})",
    "dsetdef": "{1: x}.setdefault(2, 3)",
    "dcopy": "{1: x}.copy()",
    "dfromkeys": "dict.fromkeys([1, x])",
    "keysidx": "{1: x}.keys()[0]",
    "itemsidx": "{1: x}.items()[0]",
    "await": "await x",
    "yield": "(yield x)",
    "yieldfrom": "(yield from [x])",
    "starexpr": "[*[x]]",
    "slicefn": "[1, x][slice(0, 1)]",
    "cond": "x if x else x",
    "chaincmp": "1 < x < 3 < 4",
    "chaineqs": "1 == x == True",
    "chainis": "None is None is None",
    "chainmix": "1 < x != 2 in [2]",
    "constr": "constr_data(0, [])",
    "int_meth": "int.__add__(x, 1)",
    "strmeth": "str.upper('a')",
    "super": "super()",
    "object": "object()",
    "NotImplemented": "NotImplemented",
    "copyr": "A(x).x.y",
    "undefined": "zzz",
    "undefcall": "zzz(x)",
    "builtinval": "len",
    "builtincall": "(len)([x])",
    "abscall": "(abs if x > 1 else len)",
    "fnref": "print",
    "classref": "A",
    "modref": "List",
    "typesub": "List[int]",
    "typeunion": "int | None",
    "strmulx": "x * 'ab'",
    "listmulneg": "[x] * -1",
    "deepattr": "N(A(x), A(1), {}).a.x",
    "dictdup": "{1: x, 1: 5}",
    "dictorder": "{3: x, 1: 5}",
    "dictbool": "{True: x, 1: 5}",
    "dictlistkey": "{[1]: x}",
    "listkey": "[{1: x}][0]",
    "nested": "[[x], []]",
    "nesteds": "[[], [x]]",
    "nonelist": "[None, None]",
    "lamlist": "[lambda: 1]",
    "neglit": "-5",
    "parens": "((x))",
    "cmpcall": "(x > 1) == (x > 2)",
}
for k, v in E_.items():
    S["e:" + k] = f"r = {v}"
    S["d:" + k] = f"{v}\nr = x"


def ind(s, n=1):
    return "".join("    " * n + l + "\n" if l else "\n" for l in s.split("\n") if l is not None)


H = "from typing import Callable, Dict, List, Self, Tuple, Union\n" + HDR.split("\n", 1)[1]

P = {
    "body": lambda s: "def validator(x: int):\n" + ind(s) + "    return r\n",
    "module": lambda s: "x = 2\n" + s + "\ndef validator(y: int):\n    return r\n",
    "fn": lambda s: "def h(x: int):\n" + ind(s) + "    return r\ndef validator(x: int):\n    return h(x)\n",
    "fnunused": lambda s: "def h(x: int):\n" + ind(s) + "    return r\ndef validator(x: int):\n    return x\n",
    "nested": lambda s: "def validator(x: int):\n    def h(x: int):\n" + ind(s, 2) + "        return r\n    return h(x)\n",
    "if": lambda s: "def validator(x: int):\n    if x > -5:\n" + ind(s, 2) + "    return r\n",
    "else": lambda s: "def validator(x: int):\n    if x == 99:\n        return 5\n    else:\n" + ind(s, 2) + "    return r\n",
    "for": lambda s: "def validator(x: int):\n    for ii in [1, 2]:\n" + ind(s, 2) + "    return r\n",
    "while": lambda s: "def validator(x: int):\n    ii = 0\n    while ii < 2:\n        ii += 1\n" + ind(s, 2) + "    return r\n",
    "dead": lambda s: "def validator(x: int):\n    if x == 99:\n" + ind(s, 2) + "        return r\n    return x\n",
    "after": lambda s: "def validator(x: int):\n    return x\n" + ind(s) + "    return r\n",
    "method": lambda s: "@dataclass\nclass K9(PlutusData):\n    CONSTR_ID = 9\n    v: int\n    def m(self, x: int):\n" + ind(s, 2) + "        return r\ndef validator(x: int):\n    return K9(1).m(x)\n",
    "modif": lambda s: "x = 2\nif x > 1:\n" + ind(s) + "def validator(y: int):\n    return r\n",
}
# recorded as known findings: one placement is kept
KNOWN = ["augalias", "isboolint", "keysidx", "itemsidx", "dictlistkey"]
QUICK = ["body", "module", "fn", "if", "for", "dead", "method", "nested"]


def cases(tier):
    th = tier == "thorough"
    mk = Mk(tier, every=4, base="O1", alts=["O2", "P0", "O3"])
    n = 0
    for name, s in S.items():
        for pl, f in P.items():
            n += 1
            if name.split(":", 1)[1] in KNOWN and (name[:2] == "d:" or pl != "body"):
                continue
            discarded = name.startswith("d:")
            if not th:
                if discarded and pl not in ("body", "module"):
                    continue
                if name.startswith("e:") and pl not in ("body", "module", "fn", "if"):
                    continue
                if pl not in QUICK and n % 4:
                    continue
            src = H + f(s)
            if not th and not any(w in s + pl for w in ("A(", "B(", "E(", "N(", "dataclass", "PlutusData", "method", "Union", " A", "Anything", "List", "Dict")):
                src = f(s)
            try:
                compile(src, "m", "exec")
            except SyntaxError:
                if pl == "body":
                    # placements where it is no Python at all
                    pass
                continue
            yield mk.case(f"{name}:{pl}", src, [("0",), ("1",), ("3",)])


def call(case, py, args):
    """Values that have no on-chain representation differ from whatever an
    accepted program returns."""
    try:
        return py.call(args)
    except NotCanonical as e:
        return ("unrepresentable", str(e)[:60]), "", None


def run_case(case):
    return run_diff(case, PROP, logs=True, strict_accept=False, oracle=call)
