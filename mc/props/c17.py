"""C17: schemas describe types exactly and read back to equivalent types.

Model: a type is a tree written down here, membership of data in a type is
defined on that tree; schemas are judged by an own CIP-57 validator."""
import dataclasses
import importlib
import itertools
import json
import typing

from ..engine import *
from ..runner import result, violation
from ..diff import sig

PROP = "C17"
LEVEL = "exploration"
CPU_LIMIT = 2000
RULE = (
    "All types of nesting 1, 2 and 3 (thorough: more level-3 types) over int, bytes, bool, str, None, Anything, record classes with 0-3 fields, lists, dicts and unions, and all record classes of the ledger modules, "
    "x all data trees of a closed universe (atoms, lists, maps, constructors 0/1/2/7 with up to two fields, one further level): the schema (validated by an own CIP-57 validator) accepts a tree iff it is structurally of that type; "
    "reading the schema gives a type with the same tree (fields in order, constructor numbers), the same decoding behaviour and the same schema again. Non-trivial: distinct (type, accepted set)."
)
ASSUMPTIONS = ["bool is an integer and str a bytestring in the schema language, which cannot tell them apart"]

INT, BYTES, BOOL, STR, NONE, ANY = ("int",), ("bytes",), ("bool",), ("str",), ("None",), ("Any",)
_n = itertools.count()


def cls(name, tag, *fields):
    return ("cls", name, tag, tuple(fields))


A = cls("A", 0, ("x", INT))
B = cls("B", 1, ("y", BYTES), ("z", ("list", INT)))
E = cls("E", 2)
H = cls("H", 7, ("q", ANY))


def level1():
    return [INT, BYTES, BOOL, STR, NONE, ANY, A, B, E, H]


def level2(full=True):
    l1 = level1()
    for t in l1:
        yield ("list", t)
    for k in l1:
        for v in l1:
            if k != NONE and v != NONE:
                yield ("dict", k, v)
    us = [INT, BYTES, A, B, E, ("list", ANY), ("dict", ANY, ANY)]
    for n in (2, 3, 4):
        for c in itertools.combinations(us, n):
            yield ("union",) + c
    fs = [INT, BYTES, ANY, A, E, ("list", B), ("dict", INT, BYTES), ("union", A, B), ("union", INT, BYTES), ("list", ANY)]
    for t in fs:
        yield cls("F1", 0, ("only", t))
        yield cls("F1b", 1, ("only", t))
    for s in fs:
        for t in fs:
            yield cls("F2", 1, ("b", s), ("a", t))


def level3(tier):
    for t in level2():
        yield ("list", t)
        yield ("dict", INT, t)
        if t[0] == "cls":
            yield ("union", t, H)
            yield ("union", INT, t, ("list", ANY))
        if t[0] != "union" or len(t) < 5:
            if not uses(t, (BOOL, STR, NONE)):
                yield cls("G", 0, ("f", t), ("g", INT))
                if tier == "thorough":
                    yield cls("G3", 2, ("p", BYTES), ("q", t), ("r", ("list", t)))
        if tier == "thorough":
            yield ("dict", t, t) if not uses(t, (NONE,)) else ("list", ("list", t))
            yield ("list", ("list", t))


def uses(t, what):
    if t in what:
        return True
    return any(uses(x, what) for x in parts(t))


def parts(t):
    if t[0] == "cls":
        return [x for _, x in t[3]]
    return [x for x in t[1:]] if t[0] in ("list", "dict", "union") else []


def tname(t):
    if t[0] == "cls":
        return t[1] + str(t[2]) + "(" + ",".join(f"{n}:{tname(x)}" for n, x in t[3]) + ")"
    if t[0] in ("list", "dict", "union"):
        return t[0] + "[" + ",".join(map(tname, t[1:])) + "]"
    return t[0]


LEDGER = ["opshin.ledger.api_v3", "opshin.ledger.interval", "opshin.std.fractions"]


def cases(tier):
    seen = set()
    buf = []
    for src in (level1(), level2(), level3(tier)):
        for t in src:
            if t not in seen:
                seen.add(t)
                buf.append(t)
    for i in range(0, len(buf), 24):
        yield dict(id=f"types:{tier}:{i}", fam="types", types=buf[i : i + 24])
    for m in LEDGER:
        yield dict(id=f"ledger:{m}", fam="ledger", mod=m)


# ---- model -----------------------------------------------------------------
def member(t, d):
    k = t[0]
    if k == "Any":
        return True
    if k in ("int", "bool"):
        return d[0] == "I"
    if k in ("bytes", "str"):
        return d[0] == "B"
    if k == "None":
        return d == ("C", 0, ())
    if k == "list":
        return d[0] == "L" and all(member(t[1], x) for x in d[1])
    if k == "dict":
        return d[0] == "M" and all(member(t[1], a) and member(t[2], b) for a, b in d[1])
    if k == "union":
        return any(member(x, d) for x in t[1:])
    return d[0] == "C" and d[1] == t[2] and len(d[2]) == len(t[3]) and all(member(f, x) for (_, f), x in zip(t[3], d[2]))


class BadSchema(Exception):
    pass


def valid(s, d):
    """CIP-57 core vocabulary"""
    if not isinstance(s, dict) or "$ref" in s:
        raise BadSchema(s)
    for k, f in (("anyOf", any), ("oneOf", lambda r: sum(r) == 1), ("allOf", all)):
        if k in s:
            if not s[k]:
                raise BadSchema(f"empty {k}")
            if not f([valid(x, d) for x in s[k]]):
                return False
    if "not" in s and valid(s["not"], d):
        return False
    if "dataType" not in s:
        return True
    t = s["dataType"]
    if t == "integer":
        return d[0] == "I"
    if t == "bytes":
        return d[0] == "B"
    if t == "list":
        if d[0] != "L":
            return False
        it = s.get("items", {})
        if isinstance(it, list):
            return len(it) == len(d[1]) and all(valid(x, y) for x, y in zip(it, d[1]))
        return all([valid(it, x) for x in d[1]])
    if t == "map":
        return d[0] == "M" and all([valid(s.get("keys", {}), a) and valid(s.get("values", {}), b) for a, b in d[1]])
    if t == "constructor":
        if not isinstance(s.get("index"), int) or not isinstance(s.get("fields"), list):
            raise BadSchema(f"constructor without index and fields: {s}")
        return d[0] == "C" and d[1] == s["index"] and len(d[2]) == len(s["fields"]) and all([valid(f, x) for f, x in zip(s["fields"], d[2])])
    raise BadSchema(f"unknown dataType {t}")


def universe():
    I, Bs = [("I", 0), ("I", -5)], [("B", b""), ("B", b"a")]
    at = I + Bs + [("C", 0, ()), ("C", 1, ()), ("C", 2, ())]
    seqs = [()] + [(a,) for a in at] + [(a, b) for a in at for b in at]
    l2 = list(at)
    l2 += [("L", s) for s in seqs]
    l2 += [("M", ())] + [("M", ((a, b),)) for a in at for b in at] + [("M", ((I[0], a), (I[1], b))) for a in at[:5] for b in at[:5]]
    l2 += [("C", t, s) for t in (0, 1, 2, 7) for s in seqs]
    l2 += [("C", 1, (("B", b"q"), ("L", s))) for s in seqs]
    l2 = list(dict.fromkeys(l2))
    l3 = []
    for x in l2[len(at) :]:
        l3 += [("L", (x,)), ("C", 0, (x,)), ("C", 1, (x,)), ("C", 7, (x,)), ("C", 0, (x, ("I", 3))), ("C", 1, (x, ("I", 3))), ("C", 1, (("B", b"w"), x)), ("M", ((I[0], x),))]
    l3 += [("C", 2, (("B", b""), x, ("L", (x,)))) for x in l2]
    return list(dict.fromkeys(l2 + l3))


UNIVERSE = None


def init_worker():
    global UNIVERSE
    UNIVERSE = universe()


# ---- building the real types --------------------------------------------------
def real(t, made):
    """the Python type denoted by t"""
    from pycardano import Datum, PlutusData

    k = t[0]
    simple = dict(int=int, bytes=bytes, bool=bool, str=str, Any=Datum)
    if k == "None":
        return None
    if k in simple:
        return simple[k]
    if k == "list":
        return typing.List[real(t[1], made)]
    if k == "dict":
        return typing.Dict[real(t[1], made), real(t[2], made)]
    if k == "union":
        return typing.Union[tuple(real(x, made) for x in t[1:])]
    if t not in made:
        ns = dict(dataclass=dataclasses.dataclass, PlutusData=PlutusData)
        body = [f"    CONSTR_ID = {t[2]}"]
        for i, (n, x) in enumerate(t[3]):
            ns[f"_t{i}"] = real(x, made)
            body.append(f"    {n}: _t{i}")
        exec("@dataclass\nclass " + t[1] + "(PlutusData):\n" + "\n".join(body), ns)
        made[t] = ns[t[1]]
    return made[t]


def read(x):
    """the tree of a Python type, from its own declarations"""
    from pycardano import Datum, IndefiniteList, PlutusData

    if x is None or x is type(None):
        return NONE
    if x == Datum:
        return ANY
    o = typing.get_origin(x)
    if o is list:
        return ("list", read(typing.get_args(x)[0]))
    if o is dict:
        return ("dict",) + tuple(map(read, typing.get_args(x)))
    if o is typing.Union:
        return ("union",) + tuple(map(read, typing.get_args(x)))
    if isinstance(x, type):
        for k, v in dict(bool=bool, int=int, bytes=bytes, str=str).items():
            if x is v:
                return (k,)
        if issubclass(x, PlutusData):
            hints = typing.get_type_hints(x)
            return ("cls", x.__name__, x.CONSTR_ID, tuple((f.name, read(hints[f.name])) for f in dataclasses.fields(x)))
    raise NotImplementedError(repr(x))


def norm(t, field=False):
    """what must survive a round trip through a schema: everything but the names
    of classes in fields, bool/int and str/bytes"""
    k = t[0]
    if k == "bool":
        return INT
    if k == "str":
        return BYTES
    if k == "None":
        return ("cls", "?", 0, ())
    if k == "cls":
        empty = t[2] == 0 and not t[3]
        return ("cls", "?" if field or empty else t[1], t[2], tuple((n, norm(x, True)) for n, x in t[3]))
    if k == "union":
        return ("union",) + tuple(sorted(set(norm(x) for x in t[1:]), key=repr))
    if k in ("list", "dict"):
        return (k,) + tuple(norm(x) for x in t[1:])
    return t


def decode(c, d):
    try:
        return ("ok", canon_py(c.from_cbor(plutus_cbor(d))))
    except CpuTimeout:
        raise
    except Exception:
        return ("err",)


def check(case, t, py, viol, sigs, evals):
    from opshin import builder

    name = tname(t)
    try:
        s = builder.to_plutus_schema(py)
        s = json.loads(json.dumps(s))
    except Exception as e:
        viol.append(violation(case, f"no schema for {name}: {type(e).__name__}: {e}"))
        return evals
    acc = []
    try:
        for i, d in enumerate(UNIVERSE):
            evals += 1
            a, b = member(t, d), valid(s, d)
            if a:
                acc.append(i)
            if a != b:
                viol.append(violation(case, f"schema of {name} {'rejects a value' if a else 'accepts a non-value'}: {show(d)}", schema=s))
                break
    except BadSchema as e:
        viol.append(violation(case, f"schema of {name} is malformed: {e}", schema=s))
        return evals
    sigs.append(sig(name, tuple(acc)))
    try:
        back = builder.from_plutus_schema(json.loads(json.dumps(s)))
        bt = read(back)
        s2 = json.loads(json.dumps(builder.to_plutus_schema(back)))
    except Exception as e:
        viol.append(violation(case, f"schema of {name} cannot be read back: {type(e).__name__}: {e}", schema=s))
        return evals
    evals += 2
    if norm(bt) != norm(t):
        viol.append(violation(case, f"reading the schema of {name} gives {tname(bt)}", schema=s))
    for d in UNIVERSE[:200]:
        evals += 1
        if valid(s2, d) != valid(s, d):
            viol.append(violation(case, f"schema of {name} changes when read back, for {show(d)}", schema=s, again=s2))
            break
    if t[0] == "cls":
        # the class read back decodes exactly as the original one
        for i in acc[:25] + list(range(0, len(UNIVERSE), 97)):
            evals += 1
            d = UNIVERSE[i]
            x, y = decode(py, d), decode(back, d)
            if x != y:
                viol.append(violation(case, f"{name} read back decodes {show(d)} to {show(y)} instead of {show(x)}", schema=s))
                break
    return evals


def run_case(case):
    viol, sigs, evals = [], [], 0
    sample = None
    if "mod" in case:
        m = importlib.import_module(case["mod"])
        from pycardano import PlutusData

        todo = []
        for n, v in sorted(vars(m).items()):
            try:
                if (isinstance(v, type) and issubclass(v, PlutusData) and dataclasses.is_dataclass(v)) or typing.get_args(v) and typing.get_origin(v) in (list, dict, typing.Union):
                    todo.append((read(v), v))
            except (NotImplementedError, TypeError):
                pass
        assert len(todo) > 0, case
    else:
        made = {}
        todo = [(t, real(t, made)) for t in case["types"]]
    for t, py in todo:
        evals = check(case, t, py, viol, sigs, evals)
        if sample is None:
            from opshin import builder

            sample = dict(type=tname(t)[:300], schema=str(builder.to_plutus_schema(py))[:300]) if not viol else None
    return result(evals, sigs, viol, sample, types=len(todo))
