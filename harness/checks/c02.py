"""C02: forwarding and composition against a reference interpreter."""
import contextlib

from harness import handlermodel as hm
from harness.checks.c01 import trace_case
from harness.core import Section

RULE = (
    "Random stacks and compositions of handlers whose bodies forward (never, once, repeatedly, with "
    "and without arguments), call other operations, re-enter their own operation and open nested scopes, "
    "run on the library and on a reference interpreter with explicit chains; the traces of handler "
    "entries with their arguments, forwards and results must be equal. Non-trivial when at least one "
    "forward happened; distinct by trace."
)
ASSUMPTIONS = [
    "Forwarding from inside an exclusive scope nested in a handler is not generated.",
    "Handlers are ordinary functions; generators that suspend while forwarding are not generated.",
]
NEED = {"forwards": 3000}


def programs(c):
    gen = hm.Gen(c.rng, c.rng.choice([1, 2, 3]), allow_raise=c.rng.random() < 0.3,
                 allow_apply=c.rng.random() < 0.4)
    prog = gen.body(1)
    for _ in range(c.rng.choice([1, 2, 3, 4, 5])):
        prog = [("with", c.rng.choice(["handler", "deco", "stack", "obj"]), gen.intp(2), prog)]
    prog = prog + gen.body(1)
    scopes, entered, tr = trace_case(c, gen, prog, fuel=150)
    if any(e[0] == "fwd-ret" for e in tr):
        c.key(tr)
        c.sample(f"{prog} -> {tr[:12]}")


def raw(c):
    """Interpretations used directly (exclusive scope, evaluate) also forward."""
    gen = hm.Gen(c.rng, c.rng.choice([2, 3]), allow_raise=False)
    prog = [("with", c.rng.choice(["interpreter", "idec"]), gen.intp(2), gen.body(1))]
    for _ in range(c.rng.choice([0, 1, 2])):
        prog = [("with", c.rng.choice(["handler", "deco", "interpreter"]), gen.intp(2), prog)]
    _, _, tr = trace_case(c, gen, prog, fuel=100)
    if any(e[0] == "fwd-ret" for e in tr):
        c.key(tr)


def stack_of_one(c):
    """A pure chain on one operation: order, arguments, repeated forwards."""
    lib = hm.Lib()
    rng = c.rng
    n = rng.randrange(1, 12)
    trace = []

    def rule(*a, **k) -> object:
        trace.append(("default", a, tuple(k.items())))
        return ("D", a, tuple(k.items()))

    op = lib.Operation.define(rule)
    plans = [[rng.choice(["fwd", "args", "kw"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2]))] for _ in range(n)]
    if rng.random() < 0.6:
        plans = [p or ["fwd"] for p in plans]

    def mk(i):
        def h(*a, **k):
            trace.append((i, a, tuple(k.items())))
            out = []
            for p in plans[i]:
                if p == "fwd":
                    out.append(lib.fwd())
                elif p == "args":
                    out.append(lib.fwd(i, *a))
                else:
                    out.append(lib.fwd(*a, z=i))
            return (i, tuple(out))

        return h

    def model(i, a, k, tr):
        if i < 0:
            tr.append(("default", a, tuple(k.items())))
            return ("D", a, tuple(k.items()))
        tr.append((i, a, tuple(k.items())))
        out = []
        for p in plans[i]:
            if p == "fwd":
                out.append(model(i - 1, a, k, tr))
            elif p == "args":
                out.append(model(i - 1, (i, *a), {}, tr))
            else:
                out.append(model(i - 1, a, {"z": i}, tr))
        return (i, tuple(out))

    total = 1
    for p in plans:
        total *= max(1, len(p))
    if total > 600:
        return
    # group the handlers into a random composition tree
    intps = [{op: mk(i)} for i in range(n)]
    how = rng.choice(["nested", "left", "right", "tree", "mixed"])
    with contextlib.ExitStack() as st:
        if how == "nested":
            for m in intps:
                st.enter_context(lib.handler(m))
        else:
            groups = [intps]
            if how == "mixed" and n > 1:
                cut = rng.randrange(1, n)
                groups = [intps[:cut], intps[cut:]]
            for g in groups:
                xs = list(g)
                while len(xs) > 1:
                    i = {"left": 0, "right": len(xs) - 2}.get(how, rng.randrange(len(xs) - 1))
                    xs[i : i + 2] = [lib.coproduct(xs[i], xs[i + 1])]
                if rng.random() < 0.3:
                    xs[0] = lib.coproduct({}, xs[0])
                if rng.random() < 0.3:
                    xs[0] = lib.coproduct(xs[0], {})
                st.enter_context(lib.handler(xs[0]))
        args = tuple(range(100, 100 + rng.randrange(0, 3)))
        kw = {"w": 7} if rng.random() < 0.3 else {}
        got = op(*args, **kw)
        want_tr = []
        want = model(n - 1, args, kw, want_tr)
        c.info(f"plans={plans} how={how}")
        c.eq(trace, want_tr, "handler entries")
        c.eq(got, want, "result")
        # and again: nothing was consumed by the first run
        trace.clear()
        c.eq(op(*args, **kw), want, "second call")
    c.count("forwards", len(want_tr))
    c.key((plans, how, args))
    c.sample(f"plans={plans} how={how} args={args}")


def algebra(c):
    """Associativity and identity of composition, observed by programs."""
    lib = hm.Lib()
    gen = hm.Gen(c.rng, 3, allow_raise=False)
    a, b, d = gen.intp(1), gen.intp(1), gen.intp(1)
    prog = gen.body(1) + [("call", j, *hm.gen_args(c.rng, gen.shapes[j], gen.fresh)) for j in range(3)]
    kind = c.rng.choice(["handler", "interpreter"])
    outer = gen.intp(0)
    traces = []
    variants = {
        "left": ("co", ("co", a, b), d),
        "right": ("co", a, ("co", b, d)),
        "unit": ("co", ("co", {}, a), ("co", ("co", b, {}), d)),
    }
    for name, v in variants.items():
        p = [("with", "handler", outer, [("with", kind, v, prog)])]
        traces.append((name, hm.execute(hm.RealBackend(gen, lib), gen, p, 100)))
    if kind == "handler":
        p = [("with", "handler", outer, [("with", "handler", a, [("with", "handler", b, [("with", "handler", d, prog)])])])]
        t = hm.execute(hm.RealBackend(gen, lib), gen, p, 100)
        t = [e for e in t if e[0] not in ("install", "uninstall")]
        traces.append(("nested", t))
    ref = [e for e in traces[0][1] if e[0] not in ("install", "uninstall")]
    for name, t in traces[1:]:
        t = [e for e in t if e[0] not in ("install", "uninstall")]
        c.eq(t, ref, f"composition variant {name} differs from left-nested", a=a, b=b, d=d, prog=prog)
    c.count("forwards", sum(e[0] == "fwd-ret" for e in ref))
    if any(e[0] == "fwd-ret" for e in ref):
        c.key(ref)


def apply_handlers(c):
    """A handler of application in general sees exactly the unhandled operations."""
    gen = hm.Gen(c.rng, 3, allow_raise=False, allow_apply=True)
    prog = gen.body(1)
    ap = {"apply": gen.handler("apply", 1)}
    ap2 = {"apply": gen.handler("apply", 1), **gen.intp(0)} if c.rng.random() < 0.5 else {}
    for m in c.rng.sample([ap, ap2 if isinstance(ap2, dict) else {}, {0: gen.handler(0, 1)}], 3):
        prog = [("with", "handler", m, prog)]
    _, _, tr = trace_case(c, gen, prog, fuel=80)
    c.count("apply_intercepts", sum(bool(e[0] == "enter" and e[2] and isinstance(e[2][0], tuple) and e[2][0][0] == "op") for e in tr))
    c.key(tr)


SECTIONS = [
    Section("programs", programs, 2500, 60000, shards=4),
    Section("raw", raw, 800, 15000),
    Section("stack_of_one", stack_of_one, 1500, 20000, shards=2),
    Section("algebra", algebra, 600, 10000),
    Section("apply_handlers", apply_handlers, 600, 10000),
]
