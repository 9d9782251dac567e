"""A fast CEK machine for UPLC without cost accounting.

Terms are translated once to de Bruijn form; the builtins' meaning is that of
the uplc package (BuiltInFunEvalMap).  Every program is also run on uplc's own
machine on at least one input, and every disagreement with the oracle is
re-run there before it is reported (see engine.run_uplc)."""
import uplc.ast as U

EVAL = U.BuiltInFunEvalMap
FORCES = U.BuiltInFunForceMap
NARGS = {b: f.__code__.co_argcount for b, f in EVAL.items()}
TRACE = U.BuiltInFun.Trace

VAR, LAM, APP, FORCE, DELAY, CONST, BUILTIN, ERROR, CONSTR, CASE = range(10)


class Stuck(Exception):
    pass


class Clo(U.AST):
    __slots__ = ("body", "env")

    def __init__(self, body, env):
        self.body, self.env = body, env


class Thunk(U.AST):
    __slots__ = ("body", "env")

    def __init__(self, body, env):
        self.body, self.env = body, env


class Bi(U.AST):
    __slots__ = ("b", "forces", "args")

    def __init__(self, b, forces, args):
        self.b, self.forces, self.args = b, forces, args


class Con(U.AST):
    __slots__ = ("tag", "fields")

    def __init__(self, tag, fields):
        self.tag, self.fields = tag, fields


def translate(term, scope=()):
    """scope: linked list of names (name, rest)"""
    t = type(term)
    if isinstance(term, U.Variable):
        i, s = 0, scope
        while s:
            if s[0] == term.name:
                return (VAR, i)
            i, s = i + 1, s[1]
        raise Stuck(f"free variable {term.name}")
    if isinstance(term, U.BoundStateLambda):
        return (LAM, translate(term.term, (term.var_name, scope)))
    if isinstance(term, U.Apply):
        return (APP, translate(term.f, scope), translate(term.x, scope))
    if isinstance(term, U.BoundStateDelay):
        return (DELAY, translate(term.term, scope))
    if isinstance(term, U.Force):
        return (FORCE, translate(term.term, scope))
    if isinstance(term, U.ForcedBuiltIn):
        return (BUILTIN, Bi(term.builtin, term.applied_forces, tuple(term.bound_arguments)))
    if isinstance(term, U.Constant):
        return (CONST, term)
    if isinstance(term, U.Error):
        return (ERROR,)
    if isinstance(term, U.Constr):
        return (CONSTR, term.tag, [translate(f, scope) for f in term.fields])
    if isinstance(term, U.Case):
        return (CASE, translate(term.scrutinee, scope), [translate(b, scope) for b in term.branches])
    raise Stuck(f"unknown term {t}")


# frames
F_ARG, F_FUN, F_FORCE, F_CONSTR, F_CASE, F_VAL = range(6)


class OMap(U.PlutusMap):
    """A map as Plutus has it: a list of pairs, with order and duplicates
    (the uplc package keeps it in a dict)."""

    def __init__(self, pairs):
        object.__setattr__(self, "pairs", tuple(pairs))
        object.__setattr__(self, "value", _Items(self.pairs))

    def __eq__(self, other):
        return isinstance(other, U.PlutusMap) and list(self.value.items()) == list(other.value.items())

    def __hash__(self):
        return hash(self.pairs)


class _Items:
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs


def _omapdata(x):
    U._MapData(x)  # its checks
    return OMap((p.l_value, p.r_value) for p in x.values)


ORDERED = dict(EVAL)
ORDERED[U.BuiltInFun.MapData] = _omapdata


def run(code, args=(), builtins=EVAL):
    """-> (value, logs); raises on error. The error carries the logs."""
    logs = []
    try:
        return _run(code, args, logs, builtins), logs
    except Exception as e:
        e.logs = logs
        raise


def _run(term, args, logs, EVAL):
    env = ()
    stack = []
    for a in reversed(args):
        stack.append((F_VAL, a))
    while True:
        # compute
        while True:
            op = term[0]
            if op == APP:
                stack.append((F_ARG, term[2], env))
                term = term[1]
            elif op == VAR:
                e = env
                for _ in range(term[1]):
                    e = e[1]
                val = e[0]
                break
            elif op == FORCE:
                stack.append((F_FORCE,))
                term = term[1]
            elif op == LAM:
                val = Clo(term[1], env)
                break
            elif op == DELAY:
                val = Thunk(term[1], env)
                break
            elif op == CONST or op == BUILTIN:
                val = term[1]
                break
            elif op == ERROR:
                raise RuntimeError("Execution called Error")
            elif op == CONSTR:
                if term[2]:
                    stack.append((F_CONSTR, term[1], term[2], 1, (), env))
                    term = term[2][0]
                else:
                    val = Con(term[1], ())
                    break
            elif op == CASE:
                stack.append((F_CASE, term[2], env))
                term = term[1]
        # return val
        while True:
            if not stack:
                return val
            fr = stack.pop()
            k = fr[0]
            if k == F_ARG:
                stack.append((F_FUN, val))
                term, env = fr[1], fr[2]
                break
            if k == F_FORCE:
                if type(val) is Thunk:
                    term, env = val.body, val.env
                    break
                if type(val) is Bi and val.forces < FORCES[val.b]:
                    val = Bi(val.b, val.forces + 1, val.args)
                    continue
                raise RuntimeError("Forcing an unforceable object")
            if k == F_FUN:
                f = fr[1]
            elif k == F_VAL:
                f, val = val, fr[1]
            elif k == F_CONSTR:
                _, tag, fields, i, done, e = fr
                done = done + (val,)
                if i < len(fields):
                    stack.append((F_CONSTR, tag, fields, i + 1, done, e))
                    term, env = fields[i], e
                    break
                val = Con(tag, done)
                continue
            else:
                if type(val) is not Con:
                    raise RuntimeError("Scrutinized non-constr in case")
                if not 0 <= val.tag < len(fr[1]):
                    raise RuntimeError("No branch provided for constr tag")
                for x in reversed(val.fields):
                    stack.append((F_VAL, x))
                term, env = fr[1][val.tag], fr[2]
                break
            # apply f to val
            if type(f) is Clo:
                term, env = f.body, (val, f.env)
                break
            if type(f) is Bi:
                b = f.b
                if f.forces != FORCES[b]:
                    raise RuntimeError("Tried to apply arguments to improper object")
                a = f.args + (val,)
                if len(a) == NARGS[b]:
                    if b is TRACE:
                        logs.append(a[0].value)
                    try:
                        val = EVAL[b](*a)
                    except Exception as e:
                        raise RuntimeError(
                            f"Error when evaluating builtin {b} on arguments {a}"[:500]
                        ) from e
                else:
                    val = Bi(b, f.forces, a)
                continue
            raise RuntimeError("Tried to apply arguments to improper object")
