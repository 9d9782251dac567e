"""Runs the cases of one property exhaustively in parallel, writes evidence,
prints KNOWN-FINDING / VIOLATION lines.

A property module (mc/props/<id>.py) provides

  PROP, LEVEL, RULE, ASSUMPTIONS
  cases(tier)          -> iterable of picklable case dicts with a unique "id"
  run_case(case)       -> Result dict, see `result`
  finish(results, agg) -> optional: whole-run checks; returns violations

Cases are enumerated completely and in a fixed, simplest-first order.
"""
import argparse
import collections
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


def result(evals=0, sigs=(), violations=(), sample=None, **extra):
    return dict(
        evals=evals,
        sigs=list(sigs),
        violations=list(violations),
        sample=sample,
        extra=extra,
    )


def violation(case, what, **detail):
    return dict(case=case["id"], what=what, detail=detail)


def load_known(prop):
    """-> {case id: text} for findings, from known_findings.txt"""
    res = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields = dict(
            x.split("=", 1) for x in line.split("|")[0].split()[1:] if "=" in x
        )
        if fields.get("property") == prop:
            res[fields["case"]] = line.split("|", 1)[1].strip()
    return res


_MOD = None


def _init(modname):
    global _MOD
    from . import engine  # noqa: F401  (recursion limit, logging)

    _MOD = importlib.import_module(modname)
    init = getattr(_MOD, "init_worker", None)
    if init:
        init()
    # what was inherited from the parent never needs collecting
    import gc

    gc.freeze()
    gc.set_threshold(50000, 20, 20)


def _run_chunk(chunk):
    from . import engine

    out = []
    for case in chunk:
        t0 = time.process_time()
        try:
            with engine.cpu_limit(getattr(_MOD, "CPU_LIMIT", 100)):
                r = _MOD.run_case(case)
        except engine.CpuTimeout:
            r = result(
                evals=1, violations=[violation(case, "no result within the CPU limit")]
            )
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r = result(
                evals=1,
                violations=[
                    violation(
                        case,
                        f"unexpected {type(e).__name__}: {e}"[:400],
                        traceback=traceback.format_exc()[-3000:],
                    )
                ],
            )
        r["cpu"] = time.process_time() - t0
        out.append((case["id"], r))
    return out


def _chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def _pool_run(modname, cases, workers, chunk, deadline, stop_after, known=()):
    """yield (case id, result); survives dying workers."""
    ctx = multiprocessing.get_context("fork")
    pending = collections.deque(_chunks(cases, chunk))
    nviol = 0
    solo = False
    while pending:
        # once a worker died, only one chunk (of one case) is in flight at a
        # time, so the culprit is known
        if solo:
            pending = collections.deque([[c] for ch in pending for c in ch])
            nw, width = 1, 1
        else:
            nw, width = workers, workers * 3
        inflight = {}
        broken = False
        with cf.ProcessPoolExecutor(nw, ctx, _init, (modname,)) as ex:
            while (pending or inflight) and not broken:
                while pending and len(inflight) < width:
                    ch = pending.popleft()
                    try:
                        inflight[ex.submit(_run_chunk, ch)] = ch
                    except cf.process.BrokenProcessPool:
                        pending.appendleft(ch)
                        broken = True
                        break
                if broken:
                    break
                done, _ = cf.wait(
                    inflight, timeout=5, return_when=cf.FIRST_COMPLETED
                )
                for f in done:
                    ch = inflight.pop(f)
                    try:
                        res = f.result()
                    except cf.process.BrokenProcessPool:
                        broken = True
                        if solo:
                            res = [
                                (
                                    ch[0]["id"],
                                    result(
                                        evals=1,
                                        violations=[
                                            violation(
                                                ch[0], "the process running it died"
                                            )
                                        ],
                                    ),
                                )
                            ]
                        else:
                            pending.appendleft(ch)
                            continue
                    for cid, r in res:
                        nviol += any(v["case"] not in known for v in r["violations"])
                        yield cid, r
                if time.time() > deadline or nviol >= stop_after:
                    for p in list(ex._processes.values()):
                        p.kill()
                    ex.shutdown(wait=False, cancel_futures=True)
                    return
            if broken:
                for f, ch in inflight.items():
                    pending.appendleft(ch)
                ex.shutdown(wait=False, cancel_futures=True)
                solo = True


def run(prop, tier, seed, workers=None, only=None, verbose=False):
    t0 = time.time()
    modname = f"mc.props.{prop.lower()}"
    mod = importlib.import_module(modname)
    workers = workers or getattr(mod, "WORKERS", None) or os.cpu_count() or 8
    workers = min(workers, 8)
    known = load_known(prop)
    cap = float(os.environ.get("MC_CAP", 780 if tier == "quick" else 6 * 3600))
    deadline = t0 + cap
    cases = list(mod.cases(tier))
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), (
        "duplicate case ids",
        [i for i, n in collections.Counter(ids).items() if n > 1][:5],
    )
    if only:
        cases = [c for c in cases if only in c["id"]]
    order = {c["id"]: i for i, c in enumerate(cases)}
    by_id = {c["id"]: c for c in cases}
    sigs = collections.Counter()
    extra = collections.Counter()
    evals = 0
    done = 0
    samples = {}
    viols = []
    slow = []
    findings = {}
    all_extra = {}
    stop_after = 10**9 if (verbose or only) else 40
    if getattr(mod, "SERIAL", False):
        _init(modname)
        it = (x for c in cases for x in _run_chunk([c]))
    else:
        chunk = getattr(mod, "CHUNK", None) or max(
            1, min(4, len(cases) // (workers * 8) or 1)
        )
        it = _pool_run(modname, cases, workers, chunk, deadline, stop_after, known)
    for cid, r in it:
        done += 1
        slow.append((r.get("cpu", 0), cid))
        evals += r["evals"]
        for s in r["sigs"]:
            sigs[s] += 1
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)):
                extra[k] += v
            else:
                all_extra.setdefault(k, []).append((cid, v))
        if r["sample"] is not None:
            fam = by_id[cid].get("fam", cid.split(":")[0])
            if fam not in samples or order[cid] < samples[fam][0]:
                samples[fam] = (order[cid], r["sample"])
        for v in r["violations"]:
            if v["case"] in known:
                findings.setdefault(v["case"], v)
            else:
                viols.append(v)
    if hasattr(mod, "finish"):
        for v in mod.finish(tier, all_extra, extra):
            if v["case"] in known:
                findings.setdefault(v["case"], v)
            else:
                viols.append(v)
    viols.sort(key=lambda v: order.get(v["case"], 10**9))
    complete = done == len(cases)
    for cid, v in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} case={cid} {known[cid]}")
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for v in viols[: (10**6 if verbose else 5)]:
        h = hashlib.sha256((prop + v["case"] + v["what"]).encode()).hexdigest()[:12]
        path = os.path.join(rdir, f"{prop}-{h}.json")
        json.dump(
            dict(
                property=prop,
                case=by_id.get(v["case"])
                or by_id.get(v["case"].rsplit(":", 1)[0])
                or {"id": v["case"]},
                what=v["what"],
                detail=v["detail"],
                replay=f"cd /verif && ./check {prop} --replay {path}",
            ),
            open(path, "w"),
            indent=1,
            default=repr,
        )
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['case']}: {v['what'][:600]}")
    wall = time.time() - t0
    if verbose:
        slow.sort(reverse=True)
        print("cpu total", sum(t for t, _ in slow), "slowest", slow[:12])
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=len(sigs),
        rule=mod.RULE,
        samples=[s for _, s in sorted(samples.values(), key=lambda x: x[0])][:12]
        or ["none"],
        cases_enumerated=len(cases),
        cases_run=done,
        exhaustive=bool(complete),
        **{k: v for k, v in extra.items()},
    )
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(tier, extra, all_extra, sigs))
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(viols),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        json.dump(
            ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1,
            default=repr,
        )
    print(
        f"{prop} {tier}: cases={done}/{len(cases)} evaluations={evals} "
        f"distinct={len(sigs)} findings={len(findings)} violations={len(viols)} "
        f"extra={dict(extra)} wall={wall:.1f}s"
    )
    return 1 if viols else 0


def golden(prop, workers=8):
    """Maintainer command: record which cases of the alphabet the compiler
    rejects today (a later rejection of any other case is reported)."""
    os.environ["MC_COMPILE_ONLY"] = "1"
    modname = f"mc.props.{prop.lower()}"
    mod = importlib.import_module(modname)
    p = os.path.join(ROOT, "mc", "golden", prop + ".rejects")
    if os.path.exists(p):
        os.unlink(p)
    cases = {}
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            if "cfgs" in c:
                c["cfgs"] = getattr(mod, "GOLDEN_CFGS", c["cfgs"])
                old = cases.get(c["id"])
                if old:
                    c["cfgs"] = sorted(set(c["cfgs"]) | set(old["cfgs"]))
                cases[c["id"]] = c
    rej = set()
    for cid, r in _pool_run(modname, list(cases.values()), workers, 16, 1e18, 10**9):
        for v in r["violations"]:
            if "reject" in v["detail"]:
                rej.add(v["detail"]["reject"])
    with open(p, "w") as f:
        f.writelines(x + "\n" for x in sorted(rej))
    print(prop, "rejected:", len(rej), "of", len(cases))
    return 0


def replay(prop, path):
    d = json.load(open(path))
    modname = f"mc.props.{prop.lower()}"
    _init(modname)
    case = d["case"]
    full = {
        c["id"]: c
        for t in ("quick", "thorough")
        for c in _MOD.cases(t)
        if c["id"] == case["id"]
    }
    case = full.get(case["id"], case)
    res = _run_chunk([case])[0][1]
    print("recorded:", d["what"])
    print(json.dumps(d["case"], indent=1, default=repr))
    for v in res["violations"]:
        print("REPRODUCED:", v["what"])
    if not res["violations"]:
        print("not reproduced")
    return 1 if res["violations"] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--golden", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from . import engine

        r = engine.compile_src(
            "def validator(a: int) -> int:\n    return a + 1\n", engine.CONFIGS["O1"]
        )
        assert r[0] == "ok", r
        assert engine.run_uplc(r[1], [("I", 41)])[0] == ("ok", ("I", 42))
        print("selftest ok")
        return 0
    if a.golden:
        return golden(a.prop)
    if a.replay:
        return replay(a.prop, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(a.prop, a.tier, seed, a.workers, a.only, a.v)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
