"""Three-way comparison of library code: an independent model, the library
executed by CPython (off-chain) and the compiled library (on-chain)."""
import functools
import os

from .diff import golden_rejects, sig
from .engine import *
from .runner import result, violation


@functools.lru_cache(maxsize=64)
def compiled(src, cfg):
    return compile_src(src, config(cfg))


@functools.lru_cache(maxsize=16)
def loaded(src):
    return PyProg(src)


def run_model(case, src, items, cfgs, offchain=True, post=None):
    """items: iterable of (label, python args, expected) where expected is
    ("ok", canonical data) or ("err",), computed by the model; `post` brings the
    outcome of the implementation into the form of the model."""
    post = post or (lambda o: o)
    viol, sigs, evals, sample = [], [], 0, None
    py = loaded(src)
    if py.load_error is not None:
        return result(1, [], [violation(case, f"library does not load: {py.load_error!r}", src=src)])
    progs = []
    for cfg in cfgs:
        c = compiled(src, cfg)
        if c[0] == "reject":
            viol.append(violation(case, f"[{cfg}] a supported program is rejected: {c[1]}: {c[2]}", src=src))
        else:
            progs.append((cfg, c[1]))
    off = on = 0
    for label, args, exp in items:
        sigs.append(sig(case["id"], label, exp))
        datas = [canon_py(a) for a in args]
        if offchain:
            o, _, e = py.call(args)
            o = post(o)
            evals += 1
            off += 1
            if o != exp:
                viol.append(violation(case, f"[off-chain] {label}: expected {show(exp)} got {show(o)}", src=src, error=repr(e)))
        for cfg, p in progs:
            got, lg, err = run_uplc(p, datas)
            got = post(got)
            evals += 1
            on += 1
            if got != exp:
                run_uplc(p, datas, ref=True)
                viol.append(violation(case, f"[{cfg}] {label}: expected {show(exp)} got {show(got)}", src=src, error=repr(err)[:400]))
        if sample is None:
            sample = dict(call=label, model=show(exp), agree=[c for c, _ in progs] + ["off-chain"] * offchain)
        if len(viol) > 20:
            break
    return result(evals, sigs, viol, sample, offchain_evaluations=off, onchain_evaluations=on)
