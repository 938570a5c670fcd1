"""C04: evaluating a deferred expression equals performing the calls directly."""
import contextlib

from harness import exprs as X
from harness.core import Section

from effectful.internals.runtime import interpreter
from effectful.ops.semantics import apply, evaluate, handler
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random plans of calls nested in calls and in containers are built once without handlers and then "
    "evaluated under an interpretation, and performed a second time directly under that interpretation. "
    "The results must be structurally equal with equal types and the logs of handler and default-rule "
    "invocations (operation, normalised arguments, position) must be equal. Non-trivial when at least one "
    "handler ran; distinct by plan and interpretation."
)
ASSUMPTIONS = [
    "Sets, dictionary views and deques are treated as opaque or converted by the library; expressions inside them are not generated.",
    "Keyword arguments are given in signature order, which is the order in which a stored expression evaluates them.",
    "Dataclasses with InitVar parameters, or whose non-init fields are set after construction, are not generated.",
]
NEED = {"handler_events": 2000, "default_events": 100, "terms_built": 1000}


class World:
    """Operations with default rules that either defer or compute and log."""

    def __init__(self, c, rng, n, rets=(object,), p_default=0.3):
        self.specs = [X.gen_spec(rng, i, rets, p_default) for i in range(n)]
        self.defer = True
        self.log = []
        self.seq = 0
        self.ops = [X.make_op(s, self.on_default) for s in self.specs]
        self.names = {op: f"op{i}" for i, op in enumerate(self.ops)}
        self.free = Operation.define(object, name="free")
        self.names[self.free] = "free"
        self.styles = {}

    def on_default(self, spec, loc):
        if self.defer or not spec.default:
            raise NotHandled
        self.event("default", spec, loc)
        return self.value(spec)

    def event(self, kind, spec, loc):
        self.seq += 1
        self.log.append((kind, spec.idx, X.describe(loc, self.names)))

    def value(self, spec):
        n = self.seq
        if spec.ret is int:
            return n % 11 - 2
        style = self.styles.get(spec.idx, 0)
        if style == 0:
            return ("r", spec.idx, n)
        if style == 1:
            return [n, {"k": n}]
        if style == 2:
            return self.free()  # an open expression as a result
        if style == 3:
            return None
        return X.D1(n, [n])

    def intp(self, rng, partial, fancy=True):
        out = {}
        for s in self.specs:
            if partial and rng.random() < 0.35:
                continue
            self.styles[s.idx] = rng.choice([0, 0, 0, 1, 2, 3, 4])
            helper = None
            if fancy and s.idx + 1 < len(self.specs) and rng.random() < 0.2:
                j = rng.randrange(s.idx + 1, len(self.specs))
                need = X.gen_args(rng, self.specs[j], lambda: 0)
                helper = (j, need)

            def body(loc, s=s, helper=helper):
                self.event("handler", s, loc)
                v = self.value(s)
                if helper is not None:
                    self.ops[helper[0]](*helper[1][0], **helper[1][1])
                return v

            out[self.ops[s.idx]] = s.fn(body)
        return out

    def reset(self):
        self.log, self.seq = [], 0


def programs(c, arith=False):
    rng = c.rng
    w = World(c, rng, rng.choice([1, 2, 3, 4]), rets=(object, object, int) if arith else (object,), p_default=0.6)
    gen = X.PlanGen(rng, w.specs, fuel=rng.choice([4, 8, 15, 30]), opref=rng.random() < 0.3, arith=arith)
    plan = gen.plan(depth=rng.choice([2, 3, 4, 5]))
    term = X.Builder(w.ops).run(plan)
    c.check(not w.log, "building an expression ran something")
    before = X.describe(term, w.names)
    c.count("terms_built", X.calls_in(plan))

    # no handlers: an equal expression
    same = evaluate(term)
    c.eq(X.describe(same, w.names), before, "evaluate without handlers")
    c.eq(X.describe(evaluate(term, intp={}), w.names), before, "evaluate under the empty interpretation")

    w.defer = rng.random() < 0.3
    intp = w.intp(rng, partial=rng.random() < 0.5)
    if not arith and rng.random() < 0.2:
        def on_apply(op, *a, **k):
            i = next((i for i, o in enumerate(w.ops) if o is op), None)
            if i is None:
                return op.__default_rule__(*a, **k)
            w.event("apply", w.specs[i], w.specs[i].norm_call(a, k))
            return w.value(w.specs[i])

        w.styles.update({s.idx: rng.choice([0, 1, 3]) for s in w.specs})
        intp = {o: h for o, h in intp.items() if rng.random() < 0.4} | {apply: on_apply}

    # directly
    w.reset()
    eager_plan = X.expand(plan)
    with interpreter(intp):
        want = X.Builder(w.ops).run(eager_plan)
    want_d, want_log = X.describe(want, w.names), w.log

    # deferred, in every way of saying so
    outer_log = []

    def outer(*a, **k):
        outer_log.append(1)
        return "outer"

    def run_intp():
        return evaluate(term, intp=intp)

    def run_intp_outer():
        with handler({op: outer for op in w.ops}):
            return evaluate(term, intp=intp)

    def run_interpreter():
        with interpreter(intp):
            return evaluate(term)

    def run_handler():
        with handler(intp):
            return evaluate(term)

    def run_nested():
        return evaluate({"k": [term]}, intp=intp)["k"][0]

    for how in rng.sample([run_intp, run_intp_outer, run_interpreter, run_handler, run_nested], 2):
        w.reset()
        got = how()
        c.check(not outer_log, "an outer handler ran although an interpretation was given")
        c.eq(w.log, want_log, f"{how.__name__}: order or arguments of the calls", plan=plan)
        c.eq(X.describe(got, w.names), want_d, f"{how.__name__}: value", plan=plan, handled=[w.names[o] for o in intp if o in w.names])
        c.count("handler_events", sum(e[0] != "default" for e in want_log))
        c.count("default_events", sum(e[0] == "default" for e in want_log))
    c.eq(X.describe(term, w.names), before, "evaluation modified the expression")
    if want_log:
        c.key((plan, sorted(w.names[o] for o in intp if o in w.names)))
        c.sample(f"{plan} -> {want_d}")


def arith(c):
    programs(c, arith=True)


def data(c):
    """Data without expressions comes back equal, elements identical."""
    rng = c.rng
    w = World(c, rng, 1)

    class NoCalls(X.PlanGen):
        def call(self, depth, i=None):
            return self.container(depth) if depth > 0 else ("leaf", rng.choice(X.LEAVES))

    plan = NoCalls(rng, w.specs, fuel=40, share=False).plan(depth=5)
    val = X.Builder(w.ops).run(plan)
    d = X.describe(val)
    with handler({w.ops[0]: lambda *a, **k: c.fail("a handler ran")}):
        got = evaluate(val)
    c.eq(X.describe(got), d, "data without expressions changed")
    c.eq(X.describe(evaluate(val)), d, "data without expressions changed")
    c.eq(X.describe(val), d, "the data was modified")
    for leaf in [X.OPAQUE, object(), lambda: 0, len, X.Color.RED, int, contextlib, frozenset({1}), {1, 2}]:
        c.check(evaluate([leaf])[0] is leaf, f"an opaque value was replaced: {leaf!r}")
    c.count("data", 1)
    c.key(d)


def renaming(c):
    """An operation as handler renames: in calls and where it occurs as an argument."""
    rng = c.rng
    w = World(c, rng, rng.choice([1, 2, 3]), p_default=0)
    gen = X.PlanGen(rng, w.specs, fuel=20, opref=True)
    plan = gen.plan(4)
    term = X.Builder(w.ops).run(plan)
    new = [X.make_op(s, w.on_default) for s in w.specs]
    chosen = [i for i in range(len(new)) if rng.random() < 0.7]
    intp = {w.ops[i]: new[i] for i in chosen}
    if len(chosen) > 1 and rng.random() < 0.5:  # cycles: simultaneous renaming is not iterated
        pass
    names = {op: ("new" if i in chosen else "old", i) for i, op in enumerate(w.ops)}
    want = X.describe(term, names)
    names2 = {op: ("old", i) for i, op in enumerate(w.ops)} | {op: ("new", i) for i, op in enumerate(new)}
    got = evaluate(term, intp=intp)
    c.eq(X.describe(got, names2), want, "renaming operations")
    with interpreter(intp):
        c.eq(X.describe(evaluate(term), names2), want, "renaming operations")
    c.count("renamed", len(chosen))
    if chosen and X.calls_in(plan):
        c.key((plan, chosen))


def shapes(c):
    """Deep, wide and shared expressions."""
    rng = c.rng
    w = World(c, rng, 3, p_default=0)
    f, g = Operation.define(X.OpSpec(0, "a", object, False).fn(lambda loc: w.on_default(w.specs[0], loc), True)), None
    n = rng.choice([1, 5, 30, 60])
    term = 0
    for i in range(n):
        term = f(term)
        if rng.random() < 0.3:
            term = rng.choice([lambda t: [t], lambda t: (t,), lambda t: {"k": t}, lambda t: X.D1(t, 1), lambda t: X.NT1(t)])(term)
    log = []

    def h(a):
        log.append(a)
        return len(log)

    got = evaluate(term, intp={f: h})
    c.eq(len(log), n, "each nested call once")
    wide = [f(i) for i in range(rng.choice([1, 50, 300]))]
    log.clear()
    c.eq(evaluate(wide, intp={f: h}), list(range(1, len(wide) + 1)), "wide list, left to right")
    c.eq(log, list(range(len(wide))), "wide list, arguments")
    t = f(0)
    k = rng.choice([2, 3, 10])
    log.clear()
    c.eq(evaluate((t,) * k, intp={f: h}), tuple(range(1, k + 1)), "every occurrence of a shared expression is evaluated")
    c.count("deep", n)
    c.key((n, len(wide), k))


SECTIONS = [
    Section("programs", programs, 1500, 60000, 4),
    Section("arith", arith, 500, 20000, 2),
    Section("data", data, 300, 6000, 1),
    Section("renaming", renaming, 300, 6000, 1),
    Section("shapes", shapes, 40, 400, 1),
]
