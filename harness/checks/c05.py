"""C05: binding hygiene against a reference calculus."""
import collections.abc
import contextlib
import itertools
from collections.abc import Callable, Mapping, Iterable
from typing import Annotated

from harness.core import Section

from effectful.internals.runtime import interpreter
from effectful.ops.semantics import evaluate, fvsof, fwd, handler
from effectful.ops.syntax import Scoped, deffn, defop, defstream, trace
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random terms of a small typed calculus (integer arithmetic, lists, uninterpreted operations, function "
    "variables, functions by deffn/trace/user-defined binders, let, streams) over a pool of few variables, so "
    "that shadowing, sharing and open arguments are frequent. Observed: free variables, structure up to renaming "
    "of bound variables, freshness of binders, results of substitution and application. Oracle: a de Bruijn "
    "representation with capture-avoiding substitution, and direct evaluation in Python closures. Non-trivial when "
    "at least one binder is present; distinct by term."
)
ASSUMPTIONS = [
    "Substituting structurally is done for integer variables; function variables are checked through evaluated results.",
    "Bare operations passed as arguments are not counted as occurrences (only applied operations are reported free).",
]
NEED = {"binders": 2000, "fv_checks": 500, "substitutions": 500, "denotations": 300}

IntFn = Callable[[int], int]


@defop
def Lam[A, B](
    var: Annotated[Operation[[], int], Scoped[A]], body: Annotated[int, Scoped[A | B]]
) -> Annotated[Callable[[int], int], Scoped[B]]:
    raise NotHandled


@defop
def LamN[A, B](
    body: Annotated[int, Scoped[A | B]], *vars: Annotated[Operation[[], int], Scoped[A]],
    **kwvars: Annotated[Operation[[], int], Scoped[A]],
) -> Annotated[Callable[..., int], Scoped[B]]:
    raise NotHandled


@defop
def App(f: Callable, *args: int) -> int:
    raise NotHandled


@defop
def Let[A, B](
    var: Annotated[Operation[[], int], Scoped[A]], val: Annotated[int, Scoped[B]],
    body: Annotated[int, Scoped[A | B]],
) -> Annotated[int, Scoped[B]]:
    raise NotHandled


@defop
def LetRec[A, B](
    bindings: Annotated[Mapping[Operation[[], int], int], Scoped[A]],
    body: Annotated[int, Scoped[A | B]],
) -> Annotated[int, Scoped[B]]:
    raise NotHandled


@defop
def LetPairs[A, B](
    bindings: Annotated[list[tuple[Operation[[], int], int]], Scoped[A]],
    body: Annotated[int, Scoped[A | B]],
) -> Annotated[int, Scoped[B]]:
    raise NotHandled


def any_term(x):
    if isinstance(x, Term):
        return True
    if isinstance(x, (list, tuple)):
        return any(map(any_term, x))
    return False


@defop
def total(xs: list) -> int:
    if any_term(xs):
        raise NotHandled
    return sum(xs)


@defop
def u(a: int) -> int:
    raise NotHandled


@defop
def ssum(xs: Iterable[int]) -> int:
    raise NotHandled


IV = ["x", "y", "z"]
FV = ["f", "g"]

_a = defop(int, name="a")
_f = defop(IntFn, name="h")
ADD = (_a() + _a()).op
MUL = (_a() * _a()).op
CALL = _f()(1).op


# ----------------------------------------------------------------- terms
# ("lit", n) ("v", name) ("add", a, b) ("mul", a, b) ("total", [..]) ("u", a)
# ("app", fname, a)            application of a function variable
# ("App", fn, a)               user application node
# ("beta", fn, a)              Python application of a function term
# ("let", name, val, body) ("letrec"/"letpairs", [(name, val)..], body) ("ssum", name, srcs, body)
# functions: ("lam", kind, names, body) kind: deffn, kw, trace, Lam, LamN     ("fv", fname)
class Gen:
    def __init__(self, rng, redex, fuel):
        self.rng, self.redex, self.fuel = rng, redex, fuel
        self.binders = 0

    def int(self, d):
        rng = self.rng
        self.fuel -= 1
        if d <= 0 or self.fuel <= 0:
            return ("v", rng.choice(IV)) if rng.random() < 0.75 else ("lit", rng.randrange(2, 9))
        k = rng.choice(["v", "add", "add", "mul", "total", "u", "app", "App", "App", "let", "let", "letrec", "letpairs", "ssum"]
                       + (["beta"] * 5 if self.redex else []))
        if k == "v":
            return ("v", rng.choice(IV))
        if k in ("add", "mul"):
            return (k, self.int(d - 1), self.int(d - 1))
        if k == "total":
            # never constant: inside traced functions nothing is folded
            return (k, [("v", rng.choice(IV))] + [self.int(d - 1) for _ in range(rng.choice([0, 1, 2]))])
        if k == "u":
            return (k, self.int(d - 1))
        if k == "app":
            return (k, rng.choice(FV), self.int(d - 1))
        if k == "App":
            fn = self.fun(d - 1, ["Lam", "LamN", "deffn", "trace", "LamN2"])
            n = len(fn[2]) if fn[0] == "lam" else 1
            return (k, fn, [self.int(d - 1) for _ in range(n)])
        if k == "beta":
            fn = self.fun(d - 1, ["deffn", "kw", "trace", "deffn2", "trace2", "ho"])
            if fn[0] == "ho":
                return ("beta", fn, [self.fun(d - 1, ["deffn", "trace"]), self.int(d - 1)])
            n = len(fn[2]) if fn[0] == "lam" else 1
            return (k, fn, [self.int(d - 1) for _ in range(n)])
        self.binders += 1
        if k == "let":
            return (k, rng.choice(IV), self.int(d - 1), self.int(d - 1))
        if k in ("letrec", "letpairs"):
            # the bound variables may occur in the values by scope, not in these terms' meaning
            names = rng.sample(IV, rng.choice([1, 2]))
            return (k, [(n, self.int(d - 2)) for n in names], self.int(d - 1))
        names = rng.sample(IV, rng.choice([1, 1, 2]))
        return ("ssum", [(n, [self.int(d - 2) for _ in range(rng.choice([1, 2]))]) for n in names], self.int(d - 1))

    def fun(self, d, kinds):
        rng = self.rng
        if rng.random() < 0.2:
            return ("fv", rng.choice(FV))
        k = rng.choice(kinds)
        self.binders += 1
        if k == "ho":  # (f, x) -> body
            return ("ho", rng.choice(["deffn", "trace"]), rng.choice(FV), rng.choice(IV), self.int(d - 1))
        n = 2 if k.endswith("2") else 1
        k = k.rstrip("2")
        if k == "kw":
            n = rng.choice([1, 2])
        return ("lam", k, rng.sample(IV, n), self.int(d - 1))


# ----------------------------------------------------- real construction
class Pool:
    def __init__(self, samename):
        self.ops = {n: defop(int, name="v" if samename else n) for n in IV}
        self.ops |= {n: defop(IntFn, name="v" if samename else n) for n in FV}
        self.ids = {id(o): n for n, o in self.ops.items()}


def build(t, pool, env):
    """env: names bound by traced functions -> terms; others are pool operations."""

    def go(t):
        return build(t, pool, env)

    def under(names, t):
        return build(t, pool, {k: v for k, v in env.items() if k not in names})

    k = t[0]
    if k == "lit":
        return t[1]
    if k in ("v", "fv"):
        return env[t[1]] if t[1] in env else pool.ops[t[1]]()
    if k == "add":
        return go(t[1]) + go(t[2])
    if k == "mul":
        return go(t[1]) * go(t[2])
    if k == "total":
        return total([go(a) for a in t[1]])
    if k == "u":
        return u(go(t[1]))
    if k == "app":
        f = env[t[1]] if t[1] in env else pool.ops[t[1]]()
        return f(go(t[2]))
    if k == "App":
        return App(go(t[1]), *[go(a) for a in t[2]])
    if k == "beta":
        fn, args = go(t[1]), [go(a) for a in t[2]]
        if t[1][0] == "lam" and t[1][1] == "kw":
            return fn(args[0], **{f"k{i}": a for i, a in enumerate(args[1:])})
        return fn(*args)
    if k == "let":
        val = go(t[2])
        return Let(pool.ops[t[1]], val, under([t[1]], t[3]))
    if k == "letrec":
        names = [n for n, _ in t[1]]
        return LetRec({pool.ops[n]: under(names, a) for n, a in t[1]}, under(names, t[2]))
    if k == "letpairs":
        names = [n for n, _ in t[1]]
        return LetPairs([(pool.ops[n], under(names, a)) for n, a in t[1]], under(names, t[2]))
    if k == "ssum":
        names = [n for n, _ in t[1]]
        return ssum(defstream(under(names, t[2]), {pool.ops[n]: [under(names, a) for a in src] for n, src in t[1]}))
    if k == "ho":
        _, kind, fname, xname, body = t
        if kind == "deffn":
            return deffn(under([fname, xname], body), pool.ops[fname], pool.ops[xname])

        def traced(p: IntFn, q: int) -> int:
            return build(body, pool, {**env, fname: p, xname: q})

        return trace(traced)
    assert k == "lam"
    _, kind, names, body = t
    if kind == "trace":
        if len(names) == 1:
            def traced(p: int) -> int:
                return build(body, pool, {**env, names[0]: p})
        else:
            def traced(p: int, q: int) -> int:
                return build(body, pool, {**env, names[0]: p, names[1]: q})
        return trace(traced)
    b = under(names, body)
    if kind == "deffn":
        return deffn(b, *[pool.ops[n] for n in names])
    if kind == "kw":
        return deffn(b, pool.ops[names[0]], **{f"k{i}": pool.ops[n] for i, n in enumerate(names[1:])})
    if kind == "Lam":
        return Lam(pool.ops[names[0]], b)
    return LamN(b, *[pool.ops[n] for n in names])


# --------------------------------------------------------- canonical forms
def c_bin(op, a, b):
    if a[0] == "lit" and b[0] == "lit":
        return ("lit", a[1] + b[1] if op == "add" else a[1] * b[1])
    return (op, a, b)


def c_total(xs):
    if all(a[0] == "lit" for a in xs):
        return ("lit", sum(a[1] for a in xs))
    return ("total", tuple(xs))


def canon_ast(t, env, depth, sub=None):
    """De Bruijn levels; env: name -> ("b", level); sub: name -> closed-over canonical
    form of the substituted term, computed outside every binder (levels shift: free)."""
    sub = sub or {}

    def go(t):
        return canon_ast(t, env, depth, sub)

    def under(names, t):
        e = {**env, **{n: ("b", depth + i) for i, n in enumerate(names)}}
        s = {n: v for n, v in sub.items() if n not in names}
        return canon_ast(t, e, depth + len(names), s)

    k = t[0]
    if k == "lit":
        return t
    if k in ("v", "fv"):
        if t[1] in env:
            return env[t[1]]
        if t[1] in sub:
            # a term from outside: all binders around here are foreign to it
            return canon_ast(sub[t[1]], {}, depth)
        return ("free", t[1])
    if k in ("add", "mul"):
        return c_bin(k, go(t[1]), go(t[2]))
    if k == "total":
        return c_total([go(a) for a in t[1]])
    if k == "u":
        return (k, go(t[1]))
    if k == "app":
        return (k, go(("fv", t[1])), go(t[2]))
    if k == "App":
        return (k, go(t[1]), tuple(go(a) for a in t[2]))
    if k == "let":
        return (k, go(t[2]), under([t[1]], t[3]))
    if k in ("letrec", "letpairs"):
        names = [n for n, _ in t[1]]
        return (k, tuple(under(names, a) for _, a in t[1]), under(names, t[2]))
    if k == "ssum":
        names = [n for n, _ in t[1]]
        return (k, tuple(tuple(under(names, a) for a in src) for _, src in t[1]), under(names, t[2]))
    assert k == "lam", k
    kind = "deffn" if t[1] == "trace" or t[1] == "kw" and len(t[2]) == 1 else t[1]
    return ("lam", kind, len(t[2]), under(t[2], t[3]))


class BadTerm(Exception):
    pass


def canon_term(t, pool, env=None, depth=0, binders=None):
    """Canonical form of a real term; collects the binder operations."""
    env = env or {}

    def go(t):
        return canon_term(t, pool, env, depth, binders)

    def under(ops, t):
        return canon_term(t, pool, {**env, **{o: ("b", depth + i) for i, o in enumerate(ops)}}, depth + len(ops), binders)

    def bind(ops):
        if binders is not None:
            binders.extend(ops)
        return ops

    if isinstance(t, int):
        return ("lit", t)
    if not isinstance(t, Term):
        raise BadTerm(f"unexpected {t!r}")
    op = t.op
    if op in env and not t.args:
        return env[op]
    if id(op) in pool.ids and not t.args:
        return ("free", pool.ids[id(op)])
    if op is ADD or op == ADD:
        return c_bin("add", go(t.args[0]), go(t.args[1]))
    if op == MUL:
        return ("mul", go(t.args[0]), go(t.args[1]))
    if op == total:
        return ("total", tuple(go(a) for a in t.args[0]))
    if op == u:
        return ("u", go(t.args[0]))
    if op == CALL:
        return ("app", go(t.args[0]), go(t.args[1]))
    if op == App:
        return ("App", go(t.args[0]), tuple(go(a) for a in t.args[1:]))
    if op == Let:
        v = bind([t.args[0]])
        return ("let", go(t.args[1]), under(v, t.args[2]))
    if op == LetRec:
        v = bind(list(t.args[0]))
        return ("letrec", tuple(under(v, a) for a in t.args[0].values()), under(v, t.args[1]))
    if op == LetPairs:
        v = bind([o for o, _ in t.args[0]])
        return ("letpairs", tuple(under(v, a) for _, a in t.args[0]), under(v, t.args[1]))
    if op == ssum:
        s = t.args[0]
        if not (isinstance(s, Term) and s.op == defstream):
            raise BadTerm(f"unexpected stream {s!r}")
        v = bind(list(s.args[1]))
        return ("ssum", tuple(tuple(under(v, a) for a in src) for src in s.args[1].values()), under(v, s.args[0]))
    if op == deffn:
        v = bind(list(t.args[1:]) + list(t.kwargs.values()))
        return ("lam", "deffn" if not t.kwargs else "kw", len(v), under(v, t.args[0]))
    if op == Lam:
        v = bind([t.args[0]])
        return ("lam", "Lam", 1, under(v, t.args[1]))
    if op == LamN:
        v = bind(list(t.args[1:]))
        return ("lam", "LamN", len(v), under(v, t.args[0]))
    raise BadTerm(f"unknown or escaped operation {op!r}")


def free_of_canon(c, out):
    if isinstance(c, tuple):
        if c and c[0] == "free":
            out.add(c[1])
        else:
            for x in c:
                free_of_canon(x, out)
    return out


def ops_of_canon(c, out):
    table = dict(add=ADD, mul=MUL, total=total, u=u, app=CALL, App=App, let=Let, letrec=LetRec, letpairs=LetPairs)
    if isinstance(c, tuple) and c:
        tag = c[0] if isinstance(c[0], str) else None
        if tag in table:
            out.add(table[c[0]])
        elif tag == "ssum":
            out |= {ssum, defstream}
        elif tag == "lam":
            out.add({"deffn": deffn, "kw": deffn, "Lam": Lam, "LamN": LamN}[c[1]])
        for x in c:
            ops_of_canon(x, out)
    return out


# ------------------------------------------------------------- denotation
MOD = 1_000_003


def den(t, env):
    """Direct evaluation with Python closures (integers are exact)."""
    k = t[0]
    if k == "lit":
        return t[1]
    if k in ("v", "fv"):
        return env[t[1]]
    if k == "add":
        return den(t[1], env) + den(t[2], env)
    if k == "mul":
        return den(t[1], env) * den(t[2], env)
    if k == "total":
        return sum(den(a, env) for a in t[1])
    if k == "u":
        return u_real(den(t[1], env))
    if k == "app":
        return env[t[1]](den(t[2], env))
    if k in ("App", "beta"):
        f = den(t[1], env)
        return f(*[den(a, env) for a in t[2]])
    if k == "let":
        return den(t[3], {**env, t[1]: den(t[2], env)})
    if k == "ho":
        return lambda p, q: den(t[4], {**env, t[2]: p, t[3]: q})
    assert k == "lam", k
    return lambda *a: den(t[3], {**env, **dict(zip(t[2], a))})


def u_real(a):
    return (a * 7 + 3) % MOD


def f_real(a):
    return (a * 5 + 11) % MOD


def g_real(a):
    return (a * a + 13) % MOD


def size(t):
    if isinstance(t, (tuple, list)):
        return 1 + sum(map(size, t))
    return 0


def reduce_rules():
    def app(f, *args):
        if isinstance(f, Term):
            if f.op == Lam:
                vars, body = [f.args[0]], f.args[1]
            elif f.op == LamN:
                vars, body = f.args[1:], f.args[0]
            elif f.op == deffn:
                return f(*args)
            else:
                return fwd()
            with handler({v: (lambda a=a: a) for v, a in zip(vars, args)}):
                return evaluate(body)
        if callable(f) and not any_term(args):
            return f(*args)
        return fwd()

    def let(var, val, body):
        with handler({var: lambda: val}):
            return evaluate(body)

    return {App: app, Let: let}


def no_streams(t):
    if isinstance(t, (tuple, list)):
        return (not t or t[0] not in ("letrec", "letpairs", "ssum")) and all(map(no_streams, t))
    return True


# ---------------------------------------------------------------- sections
def structure(c):
    """Free variables, structure and substitution of terms without Python redexes."""
    rng = c.rng
    pool = Pool(rng.random() < 0.3)
    gen = Gen(rng, False, rng.choice([6, 12, 25]))
    t = gen.int(rng.choice([2, 3, 4, 5])) if rng.random() < 0.8 else gen.fun(4, ["deffn", "trace", "Lam", "LamN", "kw", "deffn2", "LamN2"])
    real = build(t, pool, {})
    c.info(t)
    want = canon_ast(t, {}, 0)
    binders = []
    got = canon_term(real, pool, binders=binders)
    c.eq(got, want, "structure of the expression")
    c.check(len(set(map(id, binders))) == len(binders), "two binders share a variable")
    c.check(not any(id(b) in pool.ids for b in binders), "a binder kept the caller's variable")
    fv = fvsof(real)
    want_fv = {pool.ops[n] for n in free_of_canon(want, set())} | ops_of_canon(want, set())
    c.check(set(fv) == want_fv, "free variables", got=fv, want=want_fv)
    c.eq(canon_term(real, pool), want, "computing free variables changed the expression")
    c.count("fv_checks")
    c.count("binders", len(binders))
    again = evaluate(real)
    c.eq(canon_term(again, pool), want, "evaluating without handlers")
    # substitution of open terms for free variables
    for _ in range(2):
        names = rng.sample(IV, rng.choice([1, 1, 2, 3]))
        g2 = Gen(rng, False, 6)
        subs = {n: g2.int(rng.choice([0, 1, 2])) for n in names}
        reals = {n: build(s, pool, {}) for n, s in subs.items()}
        intp = {pool.ops[n]: (lambda r=r: r) for n, r in reals.items()}
        if rng.random() < 0.5:
            res = evaluate(real, intp=intp)
        else:
            with handler(intp):
                res = evaluate(real)
        b2 = []
        c.eq(canon_term(res, pool, binders=b2), canon_ast(t, {}, 0, subs), "substitution", subs=subs)
        c.check(not any(id(b) in pool.ids for b in b2), "a binder kept the caller's variable")
        c.count("substitutions")
    c.eq(canon_term(real, pool), want, "substitution changed the original")
    # renaming a free variable to a fresh one by handling it with an operation
    n = rng.choice(IV)
    fresh = defop(int, name=n)
    res = evaluate(real, intp={pool.ops[n]: fresh})
    pool.ids[id(fresh)] = "fresh"
    w2 = canon_ast(t, {}, 0, {n: ("v", "fresh")})
    c.eq(canon_term(res, pool), w2, "renaming a free variable")
    if binders:
        c.key(t)
        c.sample(f"{t} -> {got}")


def meaning(c):
    """Results of applying and evaluating terms equal evaluation in Python."""
    rng = c.rng
    pool = Pool(rng.random() < 0.3)
    for _ in range(30):
        gen = Gen(rng, True, rng.choice([6, 12, 25]))
        t = gen.int(rng.choice([2, 3, 4, 5]))
        if no_streams(t) and gen.binders:
            break
    else:
        return
    c.info(t)
    vals = {n: rng.randrange(2, 50) for n in IV}
    env = {**vals, "f": f_real, "g": g_real}
    want = den(t, env)
    if abs(want) > 10**200:
        return
    real = build(t, pool, {})
    finish = {pool.ops[n]: (lambda v=v: v) for n, v in vals.items()}
    rules = {**reduce_rules(), u: u_real}
    # function variables stand for Python functions or for function terms
    x = defop(int, name="x")
    fterm = deffn(x() * 5 + 11, x) if rng.random() < 0.5 else Lam(x, x() * 5 + 11)

    def f_open(a: int) -> int:
        return a * 5 + 11

    kind = rng.choice(["py", "term", "trace"])
    frepl = {"py": f_open, "term": deffn(x() * 5 + 11, x), "trace": trace(f_open)}[kind]
    env["f"] = f_open
    want = den(t, env)
    fin = {**finish, pool.ops["f"]: lambda: frepl, pool.ops["g"]: lambda: g_real}
    with handler(rules):
        got = evaluate(real, intp=None) if rng.random() < 0.3 else evaluate(real)
        with handler(fin):
            v1 = evaluate(got)
    c.eq(v1, want, "reduce, then close", vals=vals, kind=kind)
    with handler(rules), handler(fin):
        c.eq(evaluate(real), want, "close and reduce together", vals=vals, kind=kind)
    # staged closing in random order, substituting open terms that mention other variables
    order = rng.sample(list(fin), len(fin))
    cur = real
    for op in order:
        with handler({op: fin[op]}):
            cur = evaluate(cur)
    with handler(rules):
        c.eq(evaluate(cur), want, "close one by one, then reduce", vals=vals, kind=kind)
    # simultaneous substitution by open terms
    names = rng.sample(IV, rng.choice([1, 2, 3]))
    subs = {}
    for n in names:
        for _ in range(30):
            s = Gen(rng, True, 6).int(rng.choice([0, 1, 2]))
            if no_streams(s):
                subs[n] = s
                break
    env2 = {**env, **{n: den(s, env) for n, s in subs.items()}}
    want2 = den(t, env2)
    if abs(want2) < 10**200:
        reals = {n: build(s, pool, {}) for n, s in subs.items()}
        sub_intp = {pool.ops[n]: (lambda r=r: r) for n, r in reals.items()}
        with handler(sub_intp) if rng.random() < 0.5 else interpreter(sub_intp):
            mid = evaluate(real)
        with handler(rules), handler(fin):
            c.eq(evaluate(mid), want2, "substitute open terms, then close", subs=subs, vals=vals)
        c.count("substitutions")
    # as the body of a function over all integer variables, applied
    fn = deffn(real, *[pool.ops[n] for n in IV])
    with handler(rules), handler({pool.ops["f"]: lambda: frepl, pool.ops["g"]: lambda: g_real}):
        with handler({u: u_real}):
            c.eq(fn(*[vals[n] for n in IV]), want, "applied under handlers", vals=vals)
            kwfn = deffn(real, pool.ops["x"], p=pool.ops["y"], q=pool.ops["z"])
            c.eq(kwfn(vals["x"], q=vals["z"], p=vals["y"]), want, "applied by keyword under handlers", vals=vals)
        shuffled = rng.sample(IV, 3)
        # arguments that mention variables of the same names
    # u_real wants numbers, so it is not installed while arguments are open
    with handler(reduce_rules()), handler({pool.ops["f"]: lambda: frepl, pool.ops["g"]: lambda: g_real}):
        res = fn(*[pool.ops[n]() for n in shuffled])
        env3 = {**env, **{n: vals[m] for n, m in zip(IV, shuffled)}}
        w3 = den(t, env3)
        with handler({u: u_real}), handler(finish):
            c.eq(evaluate(res), w3, "applied to open arguments", vals=vals, perm=shuffled)
    c.count("denotations")
    c.count("binders", gen.binders)
    c.key(t)


def bodies(c):
    """Free operations inside a body survive; bodies that are containers are in scope."""
    rng = c.rng
    x, y, z = (defop(int, name=n) for n in "xyz")

    @defop
    def ref(o: Operation, v: object) -> object:
        raise NotHandled

    def shape(leaf):
        return rng.choice([lambda: [leaf], lambda: (leaf, 1), lambda: {"k": leaf}, lambda: leaf, lambda: [(leaf,)],
                           lambda: {"a": [leaf]}])()

    def find(o, t):
        if t is o:
            return True
        if isinstance(t, Term):
            return any(find(o, a) for a in (*t.args, *t.kwargs.values()))
        if isinstance(t, dict):
            return any(find(o, a) for kv in t.items() for a in kv)
        if isinstance(t, (list, tuple)):
            return any(find(o, a) for a in t)
        return False

    body = [shape(y), shape(x()), shape(z() + x())]
    rng.shuffle(body)
    mk = rng.choice([lambda b: deffn(b, x), lambda b: defstream(b, {x: [z()]}), lambda b: deffn(b, k=x)])
    t = mk(body)
    b = t.args[0]
    c.check(find(y, b), "a free operation in the body was renamed", body=body, term=t)
    c.check(not find(x, b), "the bound variable was not renamed in the body", term=t)
    fv = fvsof(t)
    c.check(x not in fv and z in fv, "free variables of a container body", fv=fv)
    # a bare reference to the bound variable is renamed with it
    t2 = deffn([ref(x, 1), x()], x)
    (r, v), var = t2.args[0], t2.args[1]
    c.check(r.args[0] is var and v.op is var, "references to the bound variable were separated", term=t2)
    # the same variable is bound by two siblings and free in a third
    s = [deffn(x() + 1, x), deffn(x() * 2, x), x()]
    c.eq([s[0](5), s[1](5)], [6, 10], "siblings that bind the same variable")
    c.check(x in fvsof(s) and x not in fvsof(s[:2]), "a variable bound by siblings stays free elsewhere")
    rot = rng.randrange(3)
    c.check(x in fvsof(s[rot:] + s[:rot]), "free variables depend on the order of siblings")
    c.eq(evaluate(s[2], intp={x: lambda: 3}), 3, "the caller's variable stays usable")
    # calling a function variable waits until function and arguments are known
    f = defop(IntFn, name="f")

    def strict(a, b=0, *, k=0):
        if not all(type(v) is int for v in (a, b, k)):
            c.fail("a function ran on open arguments")
        return a * 100 + b * 10 + k

    call, want = rng.choice([
        (lambda g: g(x(), b=y(), k=z()), 345), (lambda g: g(x(), 1, k=2), 312), (lambda g: g(1, y()), 140),
        (lambda g: g(1, k=z()), 105), (lambda g: g(1, b=y(), k=2), 142), (lambda g: g(7, k=8), 708)])
    cur = call(f())
    steps = {f: lambda: strict, x: lambda: 3, y: lambda: 4, z: lambda: 5}
    for o in rng.sample(list(steps), 4):
        with handler({o: steps[o]}):
            cur = evaluate(cur)
    c.eq(cur, want, "a call of a function variable, closed step by step")
    c.count("bodies")
    c.key((body.__repr__()[:0], rot, str(body)))


SECTIONS = [
    Section("structure", structure, 900, 40000, 4),
    Section("meaning", meaning, 400, 20000, 4),
    Section("bodies", bodies, 100, 1000, 1),
]
