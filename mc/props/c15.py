"""C15: hash functions of compiled scripts equal the standard ones."""
import hashlib

from ..lib import *

PROP = "C15"
LEVEL = "exploration"
CHUNK = 1
RULE = (
    "Every hash function x every way of importing and using it x every message length from 0 to past two (thorough: four) "
    "blocks of the longest block size, with several fill patterns; expected values from CPython's hashlib. "
    "Non-trivial: distinct (program, message)."
)
ASSUMPTIONS = ["CPython's hashlib and the uplc CEK machine's builtins are correct"]

H = {
    "sha256": lambda b: hashlib.sha256(b).digest(),
    "sha3_256": lambda b: hashlib.sha3_256(b).digest(),
    "blake2b": lambda b: hashlib.blake2b(b, digest_size=32).digest(),
}
BUILTIN = {"sha2_256": H["sha256"], "sha3_256": H["sha3_256"], "blake2b_256": H["blake2b"], "blake2b_224": lambda b: hashlib.blake2b(b, digest_size=28).digest()}
FORMS = {
    "direct": ("from hashlib import {h}\n", "return {h}(x).digest()", 1),
    "as": ("from hashlib import {h} as hh\n", "return hh(x).digest()", 1),
    "std": ("from opshin.std.hashlib import *\n", "return {h}(x).digest()", 1),
    "all": ("from hashlib import sha256, sha3_256, blake2b\n", "return {h}(x).digest()", 1),
    "allr": ("from hashlib import blake2b\nfrom hashlib import sha3_256, sha256\n", "return {h}(x).digest()", 1),
    "asall": ("from hashlib import sha256 as a1, sha3_256 as a2, blake2b as a3\n", "return {a}(x).digest()", 1),
    "var": ("from hashlib import {h}\n", "h = {h}(x)\n    return h.digest()", 1),
    "twice": ("from hashlib import {h}\n", "return {h}({h}(x).digest()).digest()", 2),
    "fn": ("from hashlib import {h}\ndef f(b: bytes) -> bytes:\n    return {h}(b).digest()\n", "return f(f(x))", 2),
    "nest": ("from hashlib import {h}\n", "def f(b: bytes) -> bytes:\n        return {h}(b).digest()\n    return f(x)", 1),
    "loop": ("from hashlib import {h}\n", "for i in range(3):\n        x = {h}(x).digest()\n    return x", 3),
    "comp": ("from hashlib import {h}\n", "return [{h}(e).digest() for e in [x]][0]", 1),
    "modconst": ("from hashlib import {h}\nk = {h}(b'abc').digest()\n", "return {h}(x).digest() if len(x) >= 0 else k", 1),
    "shadow": ("from hashlib import {h}\ndef f({h}: bytes) -> bytes:\n    return {h}\n", "return {h}(f(x)).digest()", 1),
}


def messages(tier):
    th = tier == "thorough"
    n = 300 if not th else 600
    for l in range(n + 1):
        yield bytes(l)
        if l and (th or l < 140):
            yield bytes((i * 7 + l) % 256 for i in range(l))
            yield b"\xff" * (l - 1) + b"\x80"


def cases(tier):
    th = tier == "thorough"
    cf = ["O0", "O1", "O2", "O3"]
    n = 0
    for f in FORMS:
        for h in H:
            n += 1
            yield dict(id=f"{f}:{h}", fam=f, form=f, h=h, tier=tier if f == "direct" or th else "few", cfgs=cf if th else [cf[n % 4], "O2"])
    for h in BUILTIN:
        yield dict(id=f"builtin:{h}", fam="builtin", form="builtin", h=h, tier=tier, cfgs=cf if th else ["O1"])
    # the result of CPython itself
    for h in H:
        yield dict(id=f"python:{h}", fam="python", form="python", h=h, tier="few", cfgs=["O1"])


def run_case(case):
    h, form = case["h"], case["form"]
    if form == "builtin":
        src = f"from opshin.std.builtins import *\ndef validator(x: bytes) -> bytes:\n    return {h}(x)\n"
        k, fun = 1, BUILTIN[h]
    elif form == "python":
        src = f"from hashlib import {h}\ndef validator(x: bytes) -> bytes:\n    return {h}(x).digest()\n"
        k, fun = 1, lambda b: getattr(hashlib, h)(b).digest()
    else:
        imp, body, k = FORMS[form]
        a = dict(sha256="a1", sha3_256="a2", blake2b="a3")[h]
        src = imp.format(h=h) + "def validator(x: bytes) -> bytes:\n    " + body.format(h=h, a=a) + "\n"
        fun = H[h]
    ms = list(messages("quick"))[:: 60] + [b"", b"abc", bytes(135), bytes(136), bytes(64), bytes(55), bytes(56), bytes(128), bytes(129)] if case["tier"] == "few" else messages(case["tier"])

    def items():
        for m in dict.fromkeys(ms):
            v = m
            for _ in range(k):
                v = fun(v)
            yield f"{len(m)} bytes {m[:8]!r}..", (m,), ("ok", ("B", v))

    return run_model(case, src, items(), case["cfgs"], offchain=form == "builtin" or h != "blake2b")
