"""Runs the command line tool in-process, on files in a scratch directory."""
import contextlib
import copy
import json
import io
import logging
import os
import sys
import tempfile

from .engine import *
from opshin import __main__ as M
from opshin import util as OU


class Files:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mccli")
        return self

    def __exit__(self, *a):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            f.write(text)
        return p


def cli(argv, stdin=None, cwd=None):
    """-> (stdout, exception or None); nothing of the process is changed"""
    args0 = copy.deepcopy(M.ARGPARSE_ARGS)
    h = OU.OPSHIN_LOG_HANDLER
    state = (sys.argv, sys.stdin, list(sys.path), sys.getrecursionlimit(), h.stream, h.formatter, h.level, os.getcwd(), set(sys.modules))
    out, err = io.StringIO(), io.StringIO()
    exc = None
    try:
        sys.argv = ["opshin"] + list(argv)
        if stdin is not None:
            sys.stdin = io.StringIO(stdin)
        if cwd:
            os.chdir(cwd)
        h.stream = err
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                M.main()
            except CpuTimeout:
                raise
            except (Exception, SystemExit) as e:
                exc = e
    finally:
        sys.argv, sys.stdin = state[0], state[1]
        sys.path[:] = state[2]
        sys.setrecursionlimit(max(state[3], sys.getrecursionlimit()))
        h.stream, h.formatter, h.level = state[4], state[5], state[6]
        os.chdir(state[7])
        M.ARGPARSE_ARGS.clear()
        M.ARGPARSE_ARGS.update(args0)
        for m in set(sys.modules) - state[8]:
            if m.startswith("__tmp_opshin"):
                del sys.modules[m]
    return out.getvalue(), exc


def data_json(d):
    t = d[0]
    if t == "I":
        return {"int": d[1]}
    if t == "B":
        return {"bytes": d[1].hex()}
    if t == "L":
        return {"list": [data_json(x) for x in d[1]]}
    if t == "M":
        return {"map": [{"k": data_json(k), "v": data_json(v)} for k, v in d[1]]}
    return {"constructor": d[1], "fields": [data_json(x) for x in d[2]]}


def definite_cbor(d):
    """Another valid encoding: definite lengths everywhere"""
    from .engine import _head

    if d[0] == "L":
        return _head(4, len(d[1])) + b"".join(map(definite_cbor, d[1]))
    if d[0] == "M":
        return _head(5, len(d[1])) + b"".join(definite_cbor(k) + definite_cbor(v) for k, v in d[1])
    if d[0] == "C":
        t, fields = d[1], definite_cbor(("L", d[2]))
        if t < 7:
            return _head(6, 121 + t) + fields
        if t < 128:
            return _head(6, 1280 + t - 7) + fields
        return _head(6, 102) + b"\x82" + _head(0, t) + fields
    return plutus_cbor(d)


def spellings(d):
    j = data_json(d)
    return {
        "json": json.dumps(j),
        "json-spaced": json.dumps(j, indent=2),
        "cbor": plutus_cbor(d).hex(),
        "cbor-definite": definite_cbor(d).hex(),
        "CBOR": plutus_cbor(d).hex().upper(),
    }
