"""C21: the ledger types and the prelude describe the transaction.

The layout of the script context of Plutus V3 is written down here (SPEC),
independently of the classes of opshin.ledger.api_v3.  Contexts are built from
it as data trees in which every leaf is different; compiled contracts and the
off-chain classes follow every path through every alternative.  The helpers of
the prelude are compared with a model on all small transactions."""
import functools
import hashlib
import itertools

from ..diff import sig
from ..engine import *
from pycardano.plutus import RawPlutusData

from ..lib import compiled
from ..runner import result, violation

PROP = "C21"
LEVEL = "exploration"
CPU_LIMIT = 600
RULE = (
    "Layout: every path of fields, list elements, map keys, map values and union members through the script context (each class entered at its first occurrence), "
    "in a compiled contract and off-chain, on a context whose leaves all differ, and with every other member of each union (where the member test has to fail). "
    "Helpers: all lists of up to two (three) inputs or outputs over small alphabets of addresses, values, datums and references, with all tokens, addresses and purposes. "
    "Non-trivial: distinct (path, alternative) and (helper, transaction)."
)
ASSUMPTIONS = ["the layout of the Plutus V3 script context is as written down in mc/props/c21.py", "CPython and the CEK machine are correct"]

# type: constructor index, class, fields; `?` is a field that the class does not name
SPEC_TEXT = """
TxOutRef 0 TxOutRef id:bytes idx:int
Credential 0 PubKeyCredential credential_hash:bytes
Credential 1 ScriptCredential credential_hash:bytes
StakingCredential 0 StakingHash value:Credential
StakingCredential 1 StakingPtr slot_no:int tx_index:int cert_index:int
MaybeStaking 0 SomeStakingCredential staking_credential:StakingCredential
MaybeStaking 1 NoStakingCredential
Address 0 Address payment_credential:Credential staking_credential:MaybeStaking
OutputDatum 0 NoOutputDatum
OutputDatum 1 SomeOutputDatumHash datum_hash:bytes
OutputDatum 2 SomeOutputDatum datum:data
MaybeScriptHash 0 SomeScriptHash script_hash:bytes
MaybeScriptHash 1 NoScriptHash
TxOut 0 TxOut address:Address value:{bytes:{bytes:int}} datum:OutputDatum reference_script:MaybeScriptHash
TxInInfo 0 TxInInfo out_ref:TxOutRef resolved:TxOut
BoolData 0 FalseData
BoolData 1 TrueData
MaybeInt 0 BoxedInt value:int
MaybeInt 1 NoValue
Extended 0 NegInfPOSIXTime
Extended 1 FinitePOSIXTime time:int
Extended 2 PosInfPOSIXTime
Lower 0 LowerBoundPOSIXTime limit:Extended closed:BoolData
Upper 0 UpperBoundPOSIXTime limit:Extended closed:BoolData
Range 0 POSIXTimeRange lower_bound:Lower upper_bound:Upper
Voter 0 ConstitutionalCommitteeMember credential:Credential
Voter 1 DelegateRepresentative credential:Credential
Voter 2 StakePool verification_key_hash:bytes
GovId 0 GovernanceActionId transaction:bytes proposal_procedure:int
MaybeGovId 0 SomeGovernanceActionId governance_action_id:GovId
MaybeGovId 1 NoGovernanceActionId
Vote 0 VoteNo
Vote 1 VoteYes
Vote 2 VoteAbstain
Version 0 ProtocolVersion major:int minor:int
Action 0 GAParameterChange ancestor:MaybeGovId new_parameters:{int:data} guardrails:MaybeScriptHash
Action 1 GAHardForkInitiation ancestor:MaybeGovId new_version:Version
Action 2 GATreasuryWithdrawals treasury_withdrawals:{Credential:int} guardrails:MaybeScriptHash
Action 3 GANoConfidence ancestor:MaybeGovId
Action 4 GAUpdateCommittee ancestor:MaybeGovId evicted_members:[Credential] added_members:{Credential:int} quorum:Ratio
Action 5 GANewConstitution ancestor:MaybeGovId constitution:Constitution
Action 6 GAInfo
Constitution 0 Constitution anchor:Anchor guardrails:MaybeScriptHash
Anchor 0 Anchor url:bytes data_hash:bytes
Ratio 1 Fraction numerator:int denominator:int
Proposal 0 ProposalProcedure deposit:int reward_account:Credential governance_action:Action anchor:Anchor
Certificate 0 DCertDelegRegKey value:StakingCredential
Certificate 1 DCertDelegDeRegKey value:StakingCredential
Certificate 2 DCertDelegDelegate delegator:StakingCredential delegatee:bytes
Certificate 3 DCertPoolRegister pool_id:bytes pool_vfr:bytes
Certificate 4 DCertPoolRetire retirement_certificate:bytes epoch:int
Certificate 5 DCertGenesis
Certificate 6 DCertMir
Purpose 0 Minting policy_id:bytes
Purpose 1 Spending tx_out_ref:TxOutRef
Purpose 2 Withdrawing staking_credential:StakingCredential
Purpose 3 Publishing certificate_index:int certificate:Certificate
Purpose 4 Voting voter:Voter
Purpose 5 Proposing proposal_index:int proposal_procedure:Proposal
Info 0 Minting policy_id:bytes
Info 1 Spending tx_out_ref:TxOutRef ?:MaybeData
Info 2 Withdrawing staking_credential:StakingCredential
Info 3 Publishing certificate_index:int certificate:Certificate
Info 4 Voting voter:Voter
Info 5 Proposing proposal_index:int proposal_procedure:Proposal
MaybeData 0 Just value:data
MaybeData 1 None
TxInfo 0 TxInfo inputs:[TxInInfo] reference_inputs:[TxInInfo] outputs:[TxOut] fee:int mint:{bytes:{bytes:int}} certificates:[Certificate] withdrawals:{StakingCredential:int} validity_range:Range signatories:[bytes] redeemers:{Purpose:data} datums:{bytes:data} id:bytes votes:{Voter:{GovId:Vote}} proposal_procedures:[Proposal] current_treasury_amount:MaybeInt treasury_donation:MaybeInt
ScriptContext 0 ScriptContext transaction:TxInfo redeemer:data purpose:Info
"""


def parse_type(s):
    if s[0] == "[":
        return ("list", parse_type(s[1:-1]))
    if s[0] == "{":
        depth = 0
        for i, ch in enumerate(s):
            depth += (ch in "[{") - (ch in "]}")
            if ch == ":" and depth == 1:
                return ("map", parse_type(s[1:i]), parse_type(s[i + 1 : -1]))
    return s


SPEC = {}
for _l in SPEC_TEXT.split("\n"):
    if _l:
        _t, _i, _c, *_f = _l.split()
        SPEC.setdefault(_t, []).append((int(_i), _c, [(f.split(":", 1)[0], parse_type(f.split(":", 1)[1])) for f in _f]))
LEAVES = ("int", "bytes", "data")
# members without maps, which could not be keys off-chain
DEFAULT = {"Action": 6}


def leaf(t, path):
    n = int(hashlib.md5(repr(path).encode()).hexdigest()[:7], 16)
    if t == "int":
        return ("I", n)
    if t == "bytes":
        return ("B", b"%07x" % n)
    return ("C", 3, (("I", n), ("B", b"d")))


def build(t, path, choice):
    """data tree of a value; choice maps paths to the index of the member of the union (default: the last)"""
    if t in LEAVES:
        return leaf(t, path)
    if t[0] == "list":
        return ("L", (build(t[1], path + ("[0]",), choice), build(t[1], path + ("[1]",), {})))
    if t[0] == "map":
        return ("M", ((build(t[1], path + ("key",), choice), build(t[2], path + ("val",), choice)),))
    k = choice.get(path, DEFAULT.get(t, 0))
    i, c, fields = SPEC[t][k]
    return ("C", i, tuple(build(ft, path + (f,), choice) for f, ft in fields))


def hidden(t, seen=()):
    """whether values of the type have fields that the classes do not name"""
    if t in LEAVES:
        return False
    if t[0] in ("list", "map"):
        return any(hidden(x) for x in t[1:])
    return any(f == "?" or hidden(ft) for _, _, fs in SPEC[t] for f, ft in fs)


def paths():
    """-> (path, type, {path of a union: member}); a class is entered at its first occurrence"""
    out, seen = [], set()

    def visit(t, path, choice, enter):
        out.append((path, t, dict(choice)))
        if t in LEAVES:
            return
        if t[0] == "list":
            visit(t[1], path + ("[0]",), choice, enter)
            return
        if t[0] == "map":
            visit(t[1], path + ("key",), choice, enter)
            visit(t[2], path + ("val",), choice, enter)
            return
        if t in seen:
            return
        seen.add(t)
        for k, (i, c, fields) in enumerate(SPEC[t]):
            ch = {**choice, plain(path): k}
            if len(SPEC[t]) > 1:
                out.append((path + ("is " + c,), t, dict(ch)))
            for f, ft in reversed(fields) if t == "ScriptContext" else fields:
                if f != "?":
                    visit(ft, path + (f,) if len(SPEC[t]) == 1 else path + ("is " + c, f), ch, enter)

    visit("ScriptContext", (), {}, True)
    return out


def plain(path):
    return tuple(p for p in path if not p.startswith("is "))


def program(path):
    lines, v, n = ["from opshin.prelude import *", "def validator(c: ScriptContext):"], "c", 0
    for p in path:
        if p.startswith("is "):
            lines.append(f"    assert isinstance({v}, {p[3:]})")
            continue
        n += 1
        e = {"[0]": f"{v}[0]", "key": f"{v}.keys()[0]", "val": f"{v}.values()[0]"}.get(p, f"{v}.{p}")
        lines.append(f"    t{n} = {e}")
        v = f"t{n}"
    return "\n".join(lines + [f"    return {v}"]) + "\n"


@functools.lru_cache(maxsize=None)
def prelude():
    ns = {}
    exec(compile("from opshin.prelude import *", "p", "exec", dont_inherit=True), ns)
    return ns


def follow(x, path):
    for p in path:
        if p.startswith("is "):
            if type(x).__name__ != p[3:]:
                raise AssertionError(type(x))
        elif p == "[0]":
            x = x[0]
        elif p == "key":
            x = list(x.keys())[0]
        elif p == "val":
            x = list(x.values())[0]
        else:
            x = getattr(x, p)
    return x


def subtree(path, choice):
    """the expected value at a path"""
    t, full, x = "ScriptContext", (), build("ScriptContext", (), choice)
    for p in plain(path):
        if p == "[0]":
            t, x = t[1], x[1][0]
        elif p == "key":
            t, x = t[1], x[1][0][0]
        elif p == "val":
            t, x = t[2], x[1][0][1]
        else:
            fields = SPEC[t][choice.get(full, DEFAULT.get(t, 0))][2]
            k = [f for f, _ in fields].index(p)
            t, x = fields[k][1], x[2][k]
        full += (p,)
    return x


# ------------------------------------------------------------------ helpers
B, I = (lambda x: ("B", x)), (lambda x: ("I", x))


def C(i, *xs):
    return ("C", i, tuple(xs))


def M(d):
    return ("M", tuple((B(k), M(v) if isinstance(v, dict) else I(v) if isinstance(v, int) else v) for k, v in d.items()))


PK, SC, SC2 = C(0, B(b"k")), C(1, B(b"s")), C(1, B(b"k"))
NOST = C(1)
ADDRS = [C(0, PK, NOST), C(0, SC, NOST), C(0, SC, C(0, C(0, PK))), C(0, SC2, NOST), C(0, SC, C(0, C(1, I(1), I(2), I(3))))]
VALUES = [{b"": {b"": 5}}, {b"p": {b"t": 3}}, {b"": {b"": 7}, b"p": {b"t": 4, b"u": 1}, b"q": {b"t": 10}}, {b"q": {b"t": 100}}, {b"p": {}}, {b"p": {b"u": 20, b"t": 0}}]
TOKENS = [(b"p", b"t"), (b"p", b"u"), (b"", b""), (b"x", b"t"), (b"q", b"t"), (b"p", b"")]
INLINE, H1, H2 = C(3, I(1)), b"h1", b"h2"
DATUMS = [C(0), C(1, B(H1)), C(1, B(H2)), C(2, INLINE), C(2, I(7)), C(2, ("M", ((I(1), B(b"")),)))]
STORE = {H1: ("L", (I(5), B(b"x"))), b"h3": I(9)}
REFS = [C(0, B(b"i"), I(0)), C(0, B(b"i"), I(1)), C(0, B(b"j"), I(0))]


def txout(a, v, d=DATUMS[0], r=C(1)):
    return C(0, a, M(v), d, r)


def txin(ref, out):
    return C(0, ref, out)


def info(inputs=(), outputs=(), datums=STORE, refs=()):
    x = build("TxInfo", ("i",), {})
    f = list(x[2])
    f[0], f[1], f[2], f[10] = ("L", tuple(inputs)), ("L", tuple(refs)), ("L", tuple(outputs)), M(datums)
    return ("C", 0, tuple(f))


def context(purpose, **kw):
    return C(0, info(**kw), I(0), purpose)


def amount(out, tok):
    for p, m in out[2][1][1]:
        if p == B(tok[0]):
            for t, n in m[1]:
                if t == B(tok[1]):
                    return n[1]
            return 0
    # the library looks for the name in {b"": 0} then
    return 0


def m_unlocked(ins, addr, tok):
    return I(sum(amount(i[2][1], tok) for i in ins[1] if i[2][1][2][0] == addr))


def m_locked(outs, addr, tok):
    return I(sum(amount(o, tok) for o in outs[1] if o[2][0] == addr))


def m_locked_datum(outs, addr, tok, datum):
    return I(sum(amount(o, tok) for o in outs[1] if o[2][0] == addr and o[2][2] == datum))


def m_spent(ins, purpose):
    for i in ins[1]:
        if i[2][0] == purpose[2][0]:
            return i[2][1]
    return None


def m_datum_unsafe(out, tx):
    d = out[2][2]
    if d[1] == 0:
        return None
    if d[1] == 2:
        return d[2][0]
    return dict(tx[2][10][1]).get(d[2][0])


def m_datum(out, tx):
    d = out[2][2]
    if d[1] != 1:
        return d
    x = dict(tx[2][10][1]).get(d[2][0])
    return None if x is None else C(2, x)


def m_policy(out):
    c = out[2][0][2][0]
    return c[2][0] if c[1] == 1 else None


def m_address(p):
    return C(0, C(1, p), C(1))


def m_present(tok, ins):
    return I(int(any(amount(i[2][1], tok) > 0 for i in ins[1])))


def m_own_datum(ctx, f=m_datum):
    if ctx[2][2][1] != 1:
        return None
    out = m_spent(ctx[2][0][2][0], ctx[2][2])
    return None if out is None else f(out, ctx[2][0])


def m_own_datum_unsafe(ctx):
    return m_own_datum(ctx, m_datum_unsafe)


OUT = "Union[SomeOutputDatum, NoOutputDatum]"
HELPERS = {
    # name: parameters, result, model
    "all_tokens_unlocked_from_address": ([("List[TxInInfo]", ("list", "TxInInfo")), ("Address", "Address"), ("Token", "Token")], "int", m_unlocked),
    "all_tokens_locked_at_address": ([("List[TxOut]", ("list", "TxOut")), ("Address", "Address"), ("Token", "Token")], "int", m_locked),
    "all_tokens_locked_at_address_with_datum": ([("List[TxOut]", ("list", "TxOut")), ("Address", "Address"), ("Token", "Token"), ("OutputDatum", "OutputDatum")], "int", m_locked_datum),
    "resolve_spent_utxo": ([("List[TxInInfo]", ("list", "TxInInfo")), ("Spending", "Purpose")], "TxOut", m_spent),
    "own_spent_utxo": ([("List[TxInInfo]", ("list", "TxInInfo")), ("Spending", "Purpose")], "TxOut", m_spent),
    "resolve_datum_unsafe": ([("TxOut", "TxOut"), ("TxInfo", "TxInfo")], "Anything", m_datum_unsafe),
    "resolve_datum": ([("TxOut", "TxOut"), ("TxInfo", "TxInfo")], OUT, m_datum),
    "own_policy_id": ([("TxOut", "TxOut")], "bytes", m_policy),
    "own_address": ([("bytes", "bytes")], "Address", m_address),
    "token_present_in_inputs": ([("Token", "Token"), ("List[TxInInfo]", ("list", "TxInInfo"))], "bool", m_present),
    "own_datum": ([("ScriptContext", "ScriptContext")], OUT, m_own_datum),
    "own_datum_unsafe": ([("ScriptContext", "ScriptContext")], "Anything", m_own_datum_unsafe),
}
SPEC["Token"] = [(0, "Token", [("policy_id", "bytes"), ("token_name", "bytes")])]


def lists(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(alpha, repeat=k)


def inputs_of(helper, th):
    """all argument tuples; tokens are given as pairs of names"""
    n = 3 if th else 2
    if helper in ("all_tokens_unlocked_from_address", "all_tokens_locked_at_address", "token_present_in_inputs"):
        small = [(a, v) for a in ADDRS[1:3] for v in VALUES] + [(ADDRS[3], VALUES[1]), (ADDRS[0], VALUES[2])]
        for l in lists(small, 2):
            yield from _tok(helper, l, TOKENS[:4] if len(l) == 2 and not th else TOKENS, ADDRS[1:3] if len(l) == 2 else ADDRS)
        for l in lists([small[1], small[2], small[8]], 4 if th else 3):
            if len(l) > 2:
                yield from _tok(helper, l, TOKENS[:2], ADDRS[1:2])
    elif helper == "all_tokens_locked_at_address_with_datum":
        small = [(a, v, d) for a in ADDRS[1:3] for v in VALUES[1:3] for d in DATUMS[:5]]
        for l in lists(small, 2):
            for tok in TOKENS[:2]:
                for a in ADDRS[1:3] if len(l) < 2 or th else ADDRS[1:2]:
                    for d in DATUMS if len(l) < 2 or th else [DATUMS[1], DATUMS[3]]:
                        yield ("L", tuple(txout(*x) for x in l)), a, tok, d
    elif helper in ("resolve_spent_utxo", "own_spent_utxo"):
        for l in itertools.chain(*(itertools.permutations(REFS, k) for k in range(4))):
            for r in REFS + [C(0, B(b"j"), I(1)), C(0, B(b""), I(0))]:
                yield ("L", tuple(txin(x, txout(ADDRS[i], VALUES[i])) for i, x in enumerate(l))), C(1, r)
    elif helper in ("resolve_datum", "resolve_datum_unsafe"):
        for a, d in itertools.product(ADDRS[:2], DATUMS):
            for st in ({}, STORE, {H2: I(3)}, {H2: C(0), H1: ("M", ())}, {H1: B(b"")}):
                for other in DATUMS[:3]:
                    yield txout(a, VALUES[0], d), info(datums=st, inputs=[txin(REFS[0], txout(a, VALUES[0], other))], outputs=[txout(a, VALUES[0], other)])
    elif helper == "own_policy_id":
        for a, v, d in itertools.product(ADDRS, VALUES, DATUMS):
            for r in (C(1), C(0, B(b"ref"))):
                yield (txout(a, v, d, r),)
    elif helper == "own_address":
        for p in (b"", b"p", b"s" * 28, b"k"):
            yield (B(p),)
    else:
        purposes = [C(1, r, C(1)) for r in REFS] + [C(1, REFS[0], C(0, I(4))), C(0, B(b"p")), C(2, C(0, PK)), C(4, C(0, PK)), C(0, B(b"i"))]
        for l in itertools.chain(*(itertools.permutations(REFS, k) for k in range(n + 1))):
            for ds in itertools.product(DATUMS[:5] if len(l) < 2 or th else DATUMS[:4], repeat=len(l)):
                for p in purposes:
                    for st in (STORE, {}):
                        yield (context(p, inputs=[txin(x, txout(ADDRS[1], VALUES[0], d)) for x, d in zip(l, ds)], refs=[txin(x, txout(ADDRS[1], VALUES[0], DATUMS[3])) for x in REFS if x not in l], datums=st),)


def _tok(helper, l, toks, addrs):
    for tok in toks:
        if helper == "token_present_in_inputs":
            yield tok, ("L", tuple(txin(REFS[0], txout(*x)) for x in l))
            continue
        for a in addrs:
            if "unlocked" in helper:
                yield ("L", tuple(txin(REFS[i % 3], txout(*x)) for i, x in enumerate(l))), a, tok
            else:
                yield ("L", tuple(txout(*x) for x in l)), a, tok


def raw(x):
    return C(0, B(x[0]), B(x[1])) if isinstance(x[0], bytes) else x


def obj(t, d):
    """the off-chain object of a data tree, built with the classes of the prelude"""
    if t == "int" or t == "bytes":
        return d[1]
    if t == "data":
        return RawPlutusData(data_to_cbor2(d)) if d[0] != "C" else RawPlutusData(data_to_cbor2(d))
    if t[0] == "list":
        return [obj(t[1], x) for x in d[1]]
    if t[0] == "map":
        return {obj(t[1], k): obj(t[2], v) for k, v in d[1]}
    i, c, fields = next(m for m in SPEC[t] if m[0] == d[1])
    return prelude()[c](**{f: obj(ft, x) for (f, ft), x in zip(fields, d[2]) if f != "?"})


def data_to_cbor2(d):
    return cbor2.loads(plutus_cbor(d))


SPLIT = 12


def cases(tier):
    th = tier == "thorough"
    for i, (p, t, ch) in enumerate(paths()):
        yield dict(id="path:" + (".".join(p) or "context"), fam="path", n=i, cfgs=["O1", "O2", "O3"] if th else ["O2"])
    for h in HELPERS:
        parts = SPLIT * (4 if th else 1) if "token" in h or "own_datum" in h else 1
        for k in range(parts):
            yield dict(id=f"helper:{h}:{k}", fam="helper", helper=h, part=k, parts=parts, th=th, cfgs=["O1", "O2", "O3"] if th else ["O2"])
    for k in V3:
        if k in KNOWN_BAD:  # one case per value: each finding names the value
            for n in range(len(V3[k][1])):
                yield dict(id=f"v3:{k}:{n}", fam="v3", what=k, n=n)
        else:
            yield dict(id=f"v3:{k}", fam="v3", what=k)


def do_path(case):
    path, t, choice = paths()[case["n"]]
    src = program(path)
    viol, evals, sigs = [], 0, []
    # the given member at every union of the path, and every other member of the last one
    alts = [choice]
    last = [i for i, p in enumerate(path) if p.startswith("is ")]
    if last:
        up = plain(path[: last[-1]])
        k = choice[up]
        ut = type_at(up, choice)
        alts += [{**{q: c for q, c in choice.items() if q[: len(up)] != up}, up: j} for j in range(len(SPEC[ut])) if j != k]
    for n, ch in enumerate(alts):
        ctx = build("ScriptContext", (), ch)
        exp = ("ok", subtree(path, ch)) if n == 0 else ("err",)
        for cfg in case["cfgs"]:
            c = compiled(src, cfg)
            if c[0] == "reject":
                return result(1, [], [violation(case, f"[{cfg}] a path of the context is rejected: {c[1]}: {c[2]}", src=src)])
            got = run_uplc(c[1], [ctx])[0]
            evals += 1
            if got != exp:
                viol.append(violation(case, f"[{cfg}] {'.'.join(path)} of {ch.get(path, '')}: expected {show(exp)} got {show(got)}"[:500], src=src))
        if n == 0 and not hidden(t):
            # off-chain
            evals += 1
            try:
                x = prelude()["ScriptContext"].from_cbor(plutus_cbor(ctx))
                got = ("ok", canon_py(follow(x, path)))
            except Exception as e:
                got = ("err", repr(e)[:200])
            if got != exp:
                viol.append(violation(case, f"[off-chain] {'.'.join(path)}: expected {show(exp)} got {show(got)}"[:500]))
            # an object made with the classes is encoded as this tree
            evals += 1
            try:
                y = follow(obj("ScriptContext", ctx), path)
                got = canon_py(y)
                if hasattr(y, "to_cbor") and got == exp[1]:
                    got = canon_cbor(cbor2.loads(y.to_cbor()))
            except Exception as e:
                got = ("err", repr(e)[:200])
            if got != exp[1]:
                viol.append(violation(case, f"[encoding] {'.'.join(path)}: expected {show(exp[1])} got {show(got)}"[:500]))
        sigs.append(sig("path", path, n))
    return result(evals, sigs, viol[:4], dict(path=".".join(path), alternatives=len(alts)))


def type_at(path, choice):
    t, full = "ScriptContext", ()
    for p in path:
        if p in ("[0]", "key"):
            t = t[1]
        elif p == "val":
            t = t[2]
        else:
            t = dict(SPEC[t][choice.get(full, DEFAULT.get(t, 0))][2])[p]
        full += (p,)
    return t


def do_helper(case):
    h = case["helper"]
    params, ret, model = HELPERS[h]
    names = [f"p{i}" for i in range(len(params))]
    src = "from opshin.prelude import *\ndef validator(" + ", ".join(f"{n}: {t}" for n, (t, _) in zip(names, params)) + f") -> {ret}:\n    return {h}({', '.join(names)})\n"
    progs = []
    viol, evals, sigs, sample = [], 0, [], None
    for cfg in case["cfgs"]:
        c = compiled(src, cfg)
        if c[0] == "reject":
            return result(1, [], [violation(case, f"[{cfg}] the helper is rejected: {c[1]}: {c[2]}", src=src)])
        progs.append((cfg, c[1]))
    f = prelude()[h]
    for n, args in enumerate(inputs_of(h, case["th"])):
        if n % case["parts"] != case["part"]:
            continue
        datas = [raw(a) for a in args]
        m = model(*args)
        exp = ("err",) if m is None else ("ok", m)
        sigs.append(sig(h, args))
        evals += 1
        try:
            got = ("ok", canon_py(f(*[obj(t, d) for (_, t), d in zip(params, datas)])))
        except Exception:
            got = ("err",)
        if got != exp:
            viol.append(violation(case, f"[off-chain] {h}({', '.join(map(show, datas))}): expected {show(exp)} got {show(got)}"[:900]))
        for cfg, p in progs:
            evals += 1
            got = run_uplc(p, datas)[0]
            if got != exp:
                viol.append(violation(case, f"[{cfg}] {h}({', '.join(map(show, datas))}): expected {show(exp)} got {show(got)}"[:900], src=src))
        if sample is None and exp != ("err",):
            sample = dict(helper=h, arguments=[show(d)[:200] for d in datas], model=show(exp)[:200])
        if len(viol) > 10:
            break
    return result(evals, sigs, viol[:4], sample)


HASH = B(b"c")
NOTHING = C(1)
V3 = {
    # type, values that the ledger can pass
    "certificate": ("Certificate", [C(0, PK, NOTHING), C(1, PK, C(0, I(2))), C(2, PK, C(0, HASH)), C(3, PK, C(0, HASH), I(2)), C(4, PK, I(2)), C(5, PK), C(6, PK, I(2)), C(7, HASH, HASH), C(8, HASH, I(3)), C(9, PK, SC), C(10, PK)]),
    "withdrawing": ("ScriptPurpose", [C(2, PK), C(2, SC)]),
    "spendinginfo": ("ScriptPurpose", [C(1, REFS[0], NOTHING), C(1, REFS[0], C(0, I(1)))]),
    "treasury": ("GATreasuryWithdrawals", [C(2, ("M", ()), NOTHING)]),
    "constitution": ("Constitution", [C(0, NOTHING), C(0, C(0, HASH))]),
    "proposal": ("ProposalProcedure", [C(0, I(1), PK, C(6))]),
    "quorum": ("GAUpdateCommittee", [C(4, NOTHING, ("L", ()), ("M", ()), C(0, I(1), I(2)))]),
    "minting": ("ScriptPurpose", [C(0, HASH)]),
    "voting": ("ScriptPurpose", [C(4, C(0, PK)), C(4, C(1, SC)), C(4, C(2, HASH))]),
    "range": ("POSIXTimeRange", [C(0, C(0, a, b), C(0, c, d)) for a in (C(0), C(1, I(1)), C(2)) for b in (C(0), C(1)) for c in (C(0), C(1, I(1)), C(2)) for d in (C(0), C(1))]),
    "txout": ("TxOut", [txout(a, v, d, r) for a in ADDRS for v in VALUES[:3] for d in DATUMS for r in (C(1), C(0, HASH))]),
}


KNOWN_BAD = {"certificate", "withdrawing", "spendinginfo", "constitution", "proposal", "quorum"}


def do_v3(case):
    t, values = V3[case["what"]]
    if "n" in case:
        values = [values[case["n"]]]
    src = f"from opshin.prelude import *\nfrom opshin.std.integrity import check_integrity\ndef validator(x: {t}) -> int:\n    check_integrity(x)\n    return 1\n"
    c = compiled(src, "O1")
    if c[0] == "reject":
        return result(1, [], [violation(case, f"rejected: {c[1]}: {c[2]}", src=src)])
    viol = []
    for v in values:
        got = run_ordered(c[1], [v])[0]
        if got != ("ok", ("I", 1)):
            viol.append(violation(case, f"{show(v)} is not a {t}"))
    return result(len(values), [sig("v3", case["what"], v) for v in values], viol[:3], dict(type=t, values=len(values)))


def run_case(case):
    return globals()["do_" + case["fam"]](case)
