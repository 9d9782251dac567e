"""Differential case: CPython running the source text is the oracle."""
import functools
import hashlib

from .engine import *
from .runner import result, violation

# Outcome of CPython and of the compiled program have to be equal: the same
# value, or an error on both sides.


def prog(cid, src, argsets, cfgs=("O1",), fam=None, accept=True, **kw):
    return dict(
        id=cid,
        src=src,
        argsets=[list(a) for a in argsets],
        cfgs=list(cfgs),
        fam=fam or cid.split(":")[0],
        accept=accept,
        **kw,
    )


_golden = {}


def golden_rejects(prop):
    if prop not in _golden:
        p = os.path.join(os.path.dirname(__file__), "golden", prop + ".rejects")
        _golden[prop] = (
            set(l.strip() for l in open(p)) if os.path.exists(p) else set()
        )
    return _golden[prop]


def sig(*xs):
    return hashlib.md5(repr(xs).encode()).hexdigest()[:16]


def run_diff(case, prop, logs=False, oracle=None, normalise=None, strict_accept=True, all_accept=False):
    """Compile case["src"] under every configuration and compare with CPython
    on every argument set.

    sigs: one per distinct (program, argument) outcome that is a value or an
    error reached on both sides (a rejected program contributes nothing).
    """
    src = case["src"]
    viol = []
    evals = 0
    sigs = []
    sample = None
    py = PyProg(src)
    ref0 = ref_runs[0]
    rejected = 0
    compiled = 0
    errs = 0
    try:
        exp = []
        for argsrc in case["argsets"]:
            args = py_args(argsrc, py.ns)
            datas = [canon_py(a) for a in args]
            if oracle is not None:
                o, out, e = oracle(case, py, args)
            else:
                o, out, e = py.call(args)
            if normalise:
                o = normalise(o)
            exp.append((argsrc, datas, o, out, e))
        for cname in case["cfgs"]:
            c = compile_src(src, config(cname))
            if c[0] == "reject":
                rejected += 1
                # the programs of another property are judged by its own list
                gid, owner = case["id"], prop
                if gid.startswith("x:"):
                    _, owner, gid = gid.split(":", 2)
                    owner = owner.upper()
                if all_accept:
                    viol.append(
                        violation(
                            case,
                            f"[{cname}] rejected at this level only: {c[1]}: {c[2]}",
                            src=src,
                        )
                    )
                if strict_accept and gid not in golden_rejects(owner):
                    viol.append(
                        violation(
                            case,
                            f"[{cname}] a supported program is rejected: {c[1]}: {c[2]}",
                            src=src,
                            reject=gid,
                        )
                    )
                continue
            compiled += 1
            traced = logs and not config(cname).remove_trace
            if os.environ.get("MC_COMPILE_ONLY"):
                continue
            for argsrc, datas, o, out, e in exp:
                got, lg, err = run_uplc(c[1], datas)
                if normalise:
                    got = normalise(got)
                evals += 1
                errs += got[0] == "err"
                sigs.append(sig(src, argsrc, o))
                bad = None
                if o != got:
                    bad = f"expected {show(o)} got {show(got)}"
                elif traced and o[0] == "ok" and "".join(l + "\n" for l in lg) != out:
                    bad = f"expected output {out!r} got {lg!r}"
                elif traced and o[0] == "err":
                    lines = out.split("\n")[:-1]
                    if list(lg[: len(lines)]) != lines:
                        bad = f"expected output {out!r} before the error, got {lg!r}"
                if bad:
                    run_uplc(c[1], datas, ref=True)  # the other machine agrees
                    viol.append(
                        violation(
                            case,
                            f"[{cname}] args=({', '.join(argsrc)}): {bad}",
                            src=src,
                            args=argsrc,
                            config=cname,
                            python_error=repr(e),
                            machine_error=repr(err)[:500],
                            logs=list(lg),
                        )
                    )
                elif sample is None and o[0] == "ok":
                    sample = dict(
                        program=src, args=argsrc, config=cname, result=show(o)
                    )
    finally:
        py.close()
    return result(
        evals,
        sigs,
        viol,
        sample,
        runs_on_both_machines=ref_runs[0] - ref0,
        programs_compiled=compiled,
        programs_rejected=rejected,
        runs_ending_in_error=errs,
    )
