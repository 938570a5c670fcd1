"""C01: handler scoping and restoration."""
import contextlib
import functools

from harness import handlermodel as hm
from harness.core import Section

RULE = (
    "Random well-nested programs (scope entries of every kind, operation calls, forwards, "
    "raised exceptions of five kinds, early returns) run on the library and on a reference "
    "interpreter; the event traces and a probe of every operation after unwinding must agree. "
    "A case is non-trivial when at least one scope was installed and one handler ran; distinct by trace."
)
ASSUMPTIONS = [
    "Scopes are well nested within one thread (generators that suspend inside a scope are not generated).",
    "Forwarding from inside an exclusive scope nested in a handler is not generated.",
]
NEED = {"scopes": 500, "exceptions_unwound": 50}


def default_op(lib, i):
    def f(*a) -> object:
        return ("default", i)

    return lib.Operation.define(f, name=f"p{i}")


def trace_case(c, gen, prog, fuel=120):
    lib = hm.Lib()
    real = hm.execute(hm.RealBackend(gen, lib), gen, prog, fuel)
    ref = hm.execute(hm.RefBackend(gen.n_ops), gen, prog, fuel)
    c.info(f"shapes={gen.shapes} defaults={gen.defaults}")
    c.info(f"program={prog}")
    for i, (a, b) in enumerate(zip(real, ref)):
        if a != b:
            c.info(f"common prefix: {real[max(0, i - 12):i]}")
            c.fail(f"event {i}: library did {a}, reference semantics {b}")
    c.check(len(real) == len(ref), "traces differ in length")
    c.count("events", len(real))
    scopes = sum(e[0] == "install" for e in real)
    entered = sum(e[0] == "enter" for e in real)
    c.count("scopes", scopes)
    c.count("handlers_run", entered)
    c.count("forwards", sum(e[0] == "fwd-ret" for e in real))
    c.count("exceptions_unwound", sum(e[0] in ("call-raised", "escaped", "caught") for e in real))
    return scopes, entered, real


def programs(c):
    gen = hm.Gen(c.rng, c.rng.choice([1, 2, 3, 4]))
    prog = gen.body(c.rng.choice([1, 2, 2, 3]))
    prog = [("with", c.rng.choice(["handler", "deco", "stack", "obj", "interpreter", "idec"]),
             gen.intp(1), prog)] + gen.body(1)
    scopes, entered, tr = trace_case(c, gen, prog)
    if scopes and entered:
        c.key(tr)
        c.sample(f"{prog} -> {tr[:12]}")


def unwinding(c):
    """A ladder of scopes; leave by every kind of exit, probing each level."""
    lib = hm.Lib()
    rng = c.rng
    ops = [default_op(lib, i) for i in range(4)]
    depth = rng.randrange(1, 7)
    exits = [rng.choice(["fall", "raise", "return", "catch"]) for _ in range(depth)]
    kinds = [rng.choice(["handler", "interpreter", "deco", "stack", "obj"]) for _ in range(depth)]
    maps = [rng.sample(range(4), rng.randrange(0, 5)) for _ in range(depth)]
    boom = rng.choice(hm.BOOMS)
    probes = []

    def probe():
        return [op() for op in ops]

    def mk(level, extra):
        return {ops[i]: functools.partial(lambda lv, i: ("h", lv, i), level, i) for i in maps[level]} | extra

    def expect(stack):
        out = []
        for i in range(4):
            v = ("default", i)
            for lv in reversed(stack):
                if i in maps[lv]:
                    v = ("h", lv, i)
                    break
                if kinds[lv] == "interpreter":
                    break
            out.append(v)
        return out

    def go(level, stack):
        c.eq(probe(), expect(stack), f"on entry of level {level}")
        if level == depth:
            if "raise" in exits or "catch" in exits:
                if rng.random() < 0.7:
                    c.count("exceptions_unwound")
                    raise boom("x")
            return "leaf"
        m = mk(level, {})
        kind = kinds[level]
        inner = stack + [level]

        def body():
            c.count("scopes")
            r = go(level + 1, inner)
            c.eq(probe(), expect(inner), f"before leaving level {level}")
            return r

        def scope():
            if kind == "handler":
                with lib.handler(m) as got:
                    return body()
            if kind == "interpreter":
                with lib.interpreter(m):
                    return body()
            if kind == "deco":
                f = lib.handler(m)(body)
                if level % 2:
                    m.clear()
                    m.update(mk(level, {}))
                return f()
            if kind == "obj":
                with lib.handler(hm.obj_of(lib, m)):
                    return body()
            with contextlib.ExitStack() as st:
                st.enter_context(lib.handler(m))
                m.clear()
                return body()

        if exits[level] == "catch":
            try:
                r = scope()
            except boom:
                r = "caught"
        else:
            try:
                r = scope()
            finally:
                c.eq(probe(), expect(stack), f"after leaving level {level} ({kind})")
        c.eq(probe(), expect(stack), f"after level {level} ({kind})")
        return r

    try:
        go(0, [])
    except boom:
        pass
    c.eq(probe(), expect([]), "after everything")
    c.key((exits, kinds, maps, boom.__name__))
    c.sample(f"exits={exits} kinds={kinds} handled={maps} exception={boom.__name__}")


def raising_handlers(c):
    """Exceptions thrown by handlers, by defaults, in the middle of forwarding."""
    lib = hm.Lib()
    rng = c.rng
    n = rng.randrange(1, 6)
    where = rng.randrange(-1, n)
    boom = rng.choice(hm.BOOMS)
    before = rng.random() < 0.5
    nested = [rng.random() < 0.4 for _ in range(n)]

    @lib.Operation.define
    def op(x) -> object:
        if where == -1:
            raise boom("d")
        return ("default", x)

    @lib.Operation.define
    def other(x) -> object:
        return ("other", x)

    def mk(i):
        def h(x):
            if i == where and before:
                raise boom("h")
            if nested[i]:
                with lib.handler({other: lambda y: ("nested", i, y)}):
                    r = lib.fwd()
                    c.eq(other(1), ("nested", i, 1), "inside nested scope")
            else:
                r = lib.fwd(x + 1)
            if i == where:
                raise boom("h")
            return (i, r)

        return h

    expect_raises = True  # position `where` always raises
    with contextlib.ExitStack() as st:
        for i in range(n):
            st.enter_context(lib.handler({op: mk(i)}))
        for _ in range(2):
            try:
                op(0)
                c.fail("exception was swallowed")
            except boom:
                c.count("exceptions_unwound")
            c.eq(other(5), ("other", 5), "scope opened inside a handler survived its exception")
            if where >= 0:
                with lib.interpreter({op: lambda x: ("only", x)}):
                    c.eq(op(3), ("only", 3), "exclusive scope")
    if where >= 0:
        c.eq(op(4), ("default", 4), "after unwinding")
    c.eq(other(5), ("other", 5), "after unwinding")
    c.count("scopes", n)
    c.key((n, where, boom.__name__, before, nested))


def capture(c):
    """Interpretations are captured when installed and never modified."""
    lib = hm.Lib()
    rng = c.rng
    ops = [default_op(lib, i) for i in range(4)]
    fns = {}

    def mk(tag, i):
        return lambda *a: (tag, i)

    m1 = {ops[i]: mk("m1", i) for i in rng.sample(range(4), 3)}
    m2 = {ops[i]: mk("m2", i) for i in rng.sample(range(4), 2)}
    which = rng.choice(["handler", "interpreter", "coproduct", "evaluate", "deco"])
    snap1, snap2 = dict(m1), dict(m2)

    def expected():
        out = []
        for i, op in enumerate(ops):
            if op in snap2:
                out.append(("m2", i))
            elif op in snap1:
                out.append(("m1", i))
            else:
                out.append(("default", i))
        return out

    def mutate():
        for op in ops:
            if rng.random() < 0.5:
                m1[op] = mk("late", 0)
                m2[op] = mk("late", 0)
            else:
                m1.pop(op, None)
                m2.pop(op, None)

    def probes():
        return [op() for op in ops]

    if which == "handler":
        with lib.handler(m1), lib.handler(m2):
            mutate()
            c.eq(probes(), expected(), "captured at installation")
    elif which == "interpreter":
        snap2 = {} if rng.random() < 0.6 else snap2
        with lib.interpreter(m1):
            if snap2:
                with lib.handler(m2):
                    mutate()
                    c.eq(probes(), expected(), "captured at installation")
            else:
                mutate()
                c.eq(probes(), expected(), "captured at installation")
    elif which == "coproduct":
        m = lib.coproduct(m1, m2)
        c.eq(dict(m1), snap1, "coproduct changed its left operand")
        c.eq(dict(m2), snap2, "coproduct changed its right operand")
        mutate()
        with lib.handler(m):
            c.eq(probes(), expected(), "coproduct captured its operands")
            m.clear() if hasattr(m, "clear") else None
            c.eq(probes(), expected(), "captured at installation")
    elif which == "evaluate":
        from effectful.ops.semantics import evaluate
        from effectful.ops.syntax import defdata

        term = (defdata(ops[0]), defdata(ops[1]), defdata(ops[2]), defdata(ops[3]))
        m = dict(m1)
        m.update(m2)
        before = dict(m)
        with lib.handler({ops[i]: mk("outer", i) for i in range(4)}):
            r = evaluate(term, intp=m)
            c.eq(probes(), [("outer", i) for i in range(4)], "evaluation leaked its interpretation")
        c.eq(list(r), expected(), "evaluate under an interpretation")
        c.eq(m, before, "evaluate changed the interpretation")
    else:
        f = lib.handler(m1)(lib.handler(m2)(probes))
        c.eq(f(), expected(), "decorated function")
        c.eq(f(), expected(), "decorated function, second call")
    c.eq(probes(), [("default", i) for i in range(4)], "after the scope")
    c.count("scopes", 2)
    c.key((which, sorted(ops.index(o) for o in snap1), sorted(ops.index(o) for o in snap2)))
    c.sample(f"{which} m1={[o.__name__ for o in snap1]} m2={[o.__name__ for o in snap2]}")


SECTIONS = [
    Section("programs", programs, 2500, 60000, shards=3),
    Section("unwinding", unwinding, 1500, 30000, shards=2),
    Section("raising_handlers", raising_handlers, 800, 10000),
    Section("capture", capture, 800, 10000),
]
