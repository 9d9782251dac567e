"""C16: contract artefacts stay consistent over any history of operations.

Model state: (number of parameters applied, metadata known or default).
All operation sequences up to a depth over {apply 0..2 parameters, apply one too
many, dump and load as directory / blueprint / script.plutus / script.cbor /
doubly wrapped cbor / textual uplc, build again from the source with the same
parameters}; after every transition the implementation's artefact is compared
with the model."""
import hashlib
import itertools
import json
import os
import shutil
import tempfile

import cbor2
import uplc

from ..engine import *
from ..runner import result, violation
from ..diff import sig

PROP = "C16"
LEVEL = "model_checking"
CHUNK = 1
CPU_LIMIT = 3000
RULE = (
    "All operation sequences up to length 3 (thorough: 5) over 10 operations (apply 0, 1, 2 or too many parameters, dump+load in six forms, rebuild) "
    "x contracts with 0 to 3 parameters of different types x metadata combinations (datum, redeemer, purposes, version, title, description, license), "
    "replayed on opshin.builder in a scratch directory; hashes, addresses (own bech32), JSON and blueprint recomputed independently, and the script evaluated. "
    "Non-trivial: distinct (model state, operation, model successor) with metadata."
)
ASSUMPTIONS = ["hashlib's blake2b, cbor2 and the flat codec of uplc are correct"]

HDR = """from dataclasses import dataclass
from typing import Dict, List, Union
from pycardano import Datum as Anything, PlutusData
@dataclass
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    z: List[int]
"""
CONTRACTS = {
    # name: parameter types, argument source, body
    "p0": ([], [], "x + 1"),
    "p1": ([("p", "int")], ["41"], "x + p"),
    "p2": ([("first", "int"), ("second", "bytes")], ["-3", "b'abc'"], "first * 10 + len(second) + x"),
    "p3": ([("r", "B"), ("u", "Union[A, B]"), ("l", "List[int]")], ["B(b'q', [4])", "A(9)", "[5, 6]"], "r.z[0] + (u.x if isinstance(u, A) else 0) + l[1] + x"),
    "p3d": ([("d", "Dict[int, bytes]"), ("a", "Anything"), ("n", "int")], ["{1: b'xy'}", "A(2)", "2**70"], "len(d[1]) + (100 if a == a else 0) + x + n"),
}
METAS = {
    "none": {},
    "datum": dict(datum_type=("d", "A")),
    "redeemer": dict(redeemer_type=("r", "B"), purpose=["spending"]),
    "full": dict(datum_type=("dat", "Union[A, B]"), redeemer_type=("red", "List[A]"), purpose=["spending", "minting"], version="2.0.1", title="tt", description="some text", license="MIT"),
    "any": dict(datum_type=("dat", "Dict[int, A]"), redeemer_type=("red", "int"), purpose=["any"], title="\u00e9 \"q\"", description="", license="a\nb"),
    "lic": dict(redeemer_type=("red", "Anything"), purpose=["voting", "proposing", "rewarding", "certifying"], license="Apache-2.0", version=None),
}
OPS = ["apply0", "apply1", "apply2", "toomany", "dir", "blueprint", "plutus", "cbor", "double", "uplc", "rebuild"]
DEFAULTS = dict(datum_type=None, redeemer_type=None, purpose=["any"], version="1.0.0", title="validator", license=None)


def cases(tier):
    th = tier == "thorough"
    for c in CONTRACTS:
        for m in METAS:
            for lvl in (["O2"] if not th else ["O1", "O2", "O3"]):
                for first in OPS:
                    yield dict(id=f"{c}:{m}:{lvl}:{first}", fam=c, c=c, m=m, cfg=lvl, first=first, depth=4 if th else 3)


# --- independent bech32 -----------------------------------------------------
CS = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32(hrp, data):
    def polymod(vs):
        g = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]
        c = 1
        for v in vs:
            b = c >> 25
            c = (c & 0x1FFFFFF) << 5 ^ v
            for i in range(5):
                c ^= g[i] if (b >> i) & 1 else 0
        return c

    bits = "".join(f"{x:08b}" for x in data)
    bits += "0" * (-len(bits) % 5)
    five = [int(bits[i : i + 5], 2) for i in range(0, len(bits), 5)]
    exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    p = polymod(exp + five + [0] * 6) ^ 1
    return hrp + "1" + "".join(CS[d] for d in five + [(p >> 5 * (5 - i)) & 31 for i in range(6)])


def schema(t):
    """CIP-57 schema of an annotation (used without titles)"""
    if t == "int":
        return {"dataType": "integer"}
    if t == "bytes":
        return {"dataType": "bytes"}
    if t == "Anything":
        return {}
    if t == "A":
        return {"dataType": "constructor", "index": 0, "fields": [schema("int")]}
    if t == "B":
        return {"dataType": "constructor", "index": 1, "fields": [schema("bytes"), schema("List[int]")]}
    if t.startswith("List["):
        return {"dataType": "list", "items": schema(t[5:-1])}
    k, v = t[t.index("[") + 1 : -1].split(", ")
    if t.startswith("Dict["):
        return {"dataType": "map", "keys": schema(k), "values": schema(v)}
    return {"anyOf": [schema(k), schema(v)]}


def untitled(s):
    if isinstance(s, dict):
        return {k: untitled(v) for k, v in s.items() if k != "title"}
    if isinstance(s, list):
        return [untitled(x) for x in s]
    return s


PM = {"spending": "spend", "minting": "mint", "rewarding": "withdraw", "certifying": "publish", "voting": "vote", "proposing": "propose"}
PM["any"] = {"oneOf": ["spend", "mint", "withdraw", "publish", "vote", "propose"]}
ORDER = list(PM)


class Run:
    def __init__(self, case):
        from opshin import builder

        self.b = builder
        self.case = case
        self.params, argsrc, body = CONTRACTS[case["c"]]
        sigs = "".join(f"{n}: {t}, " for n, t in self.params)
        self.src = HDR + f"def validator({sigs}x: int) -> int:\n    return {body}\n"
        self.py = PyProg(self.src)
        self.args = [eval(a, self.py.ns) for a in argsrc]
        # parameters as pycardano data (what a user passes)
        self.tmp = tempfile.mkdtemp(prefix="mc_c16_")
        self.file = os.path.join(self.tmp, "contract.py")
        with open(self.file, "w") as f:
            f.write(self.src)
        self.meta = dict(DEFAULTS, **METAS[case["m"]])
        self.expected = {}  # number of applied arguments -> script bytes
        self.seen = {}
        self.viol = []
        self.sigs = set()
        self.states = set()
        self.transitions = 0

    def ann(self, t):
        return eval(t, self.py.ns)

    def build(self, k):
        return self.b.build(self.file, *self.args[:k], config=config(self.case["cfg"]))

    def fresh(self, k):
        m = self.meta
        kw = {x: m[x] for x in ("version", "title", "license")}
        if "description" in m:
            kw["description"] = m["description"]
        return self.b.PlutusContract(
            self.build(k),
            m["datum_type"] and (m["datum_type"][0], self.ann(m["datum_type"][1])),
            m["redeemer_type"] and (m["redeemer_type"][0], self.ann(m["redeemer_type"][1])),
            [(n, self.ann(t)) for n, t in self.params[k:]],
            [self.b.Purpose[p] for p in m["purpose"]],
            **kw,
        )

    def bad(self, path, what):
        if len(self.viol) < 12:
            self.viol.append(violation(self.case, f"after {' '.join(path) or 'build'}: {what}", src=self.src, meta=str(self.meta)))

    def check(self, path, c, state):
        """c: artefact, state: (k, known) by the model"""
        k, known = state
        self.states.add(state)
        want = self.expected.setdefault(k, bytes(self.build(k)))
        got = bytes(c.contract)
        if got != want:
            self.bad(path, f"script bytes {got.hex()[:60]} are not those of compiling with {k} parameters {want.hex()[:60]}")
            return
        h = hashlib.blake2b(b"\x03" + got, digest_size=28).digest()
        m = self.meta if known else DEFAULTS
        desc = m.get("description", f"opshin {opshin.__version__} Smart Contract")
        checks = [
            ("cbor", bytes(c.cbor), got),
            ("cbor_hex", c.cbor_hex, got.hex()),
            ("policy_id", c.policy_id, h.hex()),
            ("script_hash", c.script_hash.payload, h),
            ("mainnet_addr", str(c.mainnet_addr), bech32("addr", b"\x71" + h)),
            ("testnet_addr", str(c.testnet_addr), bech32("addr_test", b"\x70" + h)),
            ("title", c.title, m["title"]),
            ("version", c.version, m["version"]),
            ("license", c.license, m["license"]),
            ("description", c.description, desc),
            ("parameters", [n for n, _ in c.parameter_types], [n for n, _ in self.params[k:]] if known else []),
            ("plutus_json", json.loads(c.plutus_json), {"type": "PlutusScriptV3", "description": desc, "cborHex": cbor2.dumps(got).hex()}),
        ]
        if m["redeemer_type"]:
            checks.append(("purpose", sorted(p.name for p in c.purpose), sorted(m["purpose"])))
        bp = json.loads(json.dumps(c.blueprint))
        v = bp["validators"]
        pre = {"version": m["version"], "plutusVersion": "v3", "description": desc, "title": m["title"]}
        if m["license"] is not None:
            pre["license"] = m["license"]
        checks.append(("blueprint preamble", bp["preamble"], pre))
        checks.append(("number of validators", len(v), 1))
        v = v[0]
        checks += [("blueprint code", v["compiledCode"], got.hex()), ("blueprint hash", v["hash"], h.hex()), ("blueprint title", v["title"], m["title"])]
        ps = self.params[k:] if known else []
        checks.append(("blueprint parameters", [(p["title"], untitled(p["schema"])) for p in v.get("parameters", [])], [(n, schema(t)) for n, t in ps]))
        for key in ("datum", "redeemer"):
            t = m[key + "_type"]
            s = v.get(key) or None
            checks.append((f"blueprint {key}", s and (s["title"], untitled(s["schema"])), t and (t[0], schema(t[1]))))
        if m["redeemer_type"]:
            pp = v["redeemer"]["purpose"]["oneOf"]
            checks.append(("blueprint purpose", sorted(map(str, pp)), sorted(str(PM[p]) for p in m["purpose"])))
        for name, a, b in checks:
            if a != b:
                self.bad(path, f"{name} is {a!r}, expected {b!r}")
        if got not in self.seen:
            # the script means what the source means
            self.seen[got] = True
            p = uplc.unflatten(got)
            for x in (0, -7):
                o, _, e = self.py.call([*self.args, x])
                r = run_uplc(p, [canon_py(a) for a in self.args[k:]] + [canon_py(x)])[0]
                if r != o:
                    self.bad(path, f"evaluates to {show(r)}, CPython {show(o)}")

    def step(self, op, c, state):
        """-> (artefact, state) or None; checks operations that must fail"""
        k, known = state
        left = len(self.params) - k if known else 0
        b = self.b
        if op.startswith("apply"):
            n = int(op[5:])
            if n > left:
                return None
            before = list(c.parameter_types)
            d = c.apply_parameter(*self.args[k : k + n])
            if c.parameter_types != before or bytes(c.contract) != self.expected[k]:
                raise AssertionError("the artefact that parameters were applied to was changed")
            return d, (k + n, known)
        if op == "toomany":
            try:
                c.apply_parameter(*[1] * (left + 1))
            except AssertionError:
                return c, state
            raise RuntimeError("more parameters than there are were accepted")
        if op == "rebuild":
            return (self.fresh(k), (k, True))
        d = tempfile.mkdtemp(dir=self.tmp)
        if op in ("dir", "blueprint", "plutus", "cbor"):
            c.dump(d)
            names = sorted(os.listdir(d))
            if names != ["blueprint.json", "mainnet.addr", "script.cbor", "script.plutus", "script.policy_id", "testnet.addr"]:
                raise RuntimeError(f"dumped files {names}")
            read = lambda n: open(os.path.join(d, n)).read()
            for n, v in [("script.cbor", c.cbor_hex), ("script.policy_id", c.policy_id), ("mainnet.addr", str(c.mainnet_addr)), ("testnet.addr", str(c.testnet_addr)), ("script.plutus", c.plutus_json)]:
                if read(n) != v:
                    raise RuntimeError(f"file {n} has {read(n)!r}")
            if json.loads(read("blueprint.json")) != json.loads(json.dumps(c.blueprint)):
                raise RuntimeError("dumped blueprint differs")
            path = {"dir": d, "blueprint": d + "/blueprint.json", "plutus": d + "/script.plutus", "cbor": d + "/script.cbor"}[op]
            r = b.load(path)
        else:
            path = d + "/script.txt"
            with open(path, "w") as f:
                f.write(cbor2.dumps(bytes(c.contract)).hex() if op == "double" else uplc.dumps(uplc.unflatten(bytes(c.contract))))
            r = b.load(path if op == "double" else pathlib_path(path))
        shutil.rmtree(d)
        return r, (k, known and op in ("dir", "blueprint"))

    def explore(self):
        c = self.fresh(0)
        self.check([], c, (0, True))

        def rec(path, c, state):
            ops = [self.case["first"]] if not path else OPS
            for op in ops:
                try:
                    r = self.step(op, c, state)
                except Exception as e:
                    self.bad(path + [op], f"{type(e).__name__}: {e}"[:400])
                    continue
                if r is None:
                    continue
                self.transitions += 1
                self.sigs.add(sig(self.case["c"], self.case["m"], state, op, r[1]))
                self.check(path + [op], *r)
                if len(path) + 1 < self.case["depth"]:
                    rec(path + [op], *r)

        try:
            rec([], c, (0, True))
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.py.close()


def pathlib_path(p):
    import pathlib

    return pathlib.Path(p)


def run_case(case):
    r = Run(case)
    r.explore()
    return result(r.transitions, r.sigs, r.viol, dict(contract=case["c"], meta=case["m"], transitions=r.transitions), n_transitions=r.transitions, model_states=[(case["c"], case["m"], *s) for s in r.states])


def coverage(tier, extra, all_extra, sigs):
    states = {s for _, l in all_extra.get("model_states", []) for s in l}
    return dict(states=len(states), transitions=len(sigs), traces_validated_against_impl=extra.get("n_transitions", 0))
