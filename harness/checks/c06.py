"""C06: products run their components without interference."""
from collections import Counter

from harness import exprs as X
from harness.core import Section

from effectful.internals.product_n import argsof, productN
from effectful.internals.runtime import interpreter
from effectful.ops.semantics import apply, coproduct, evaluate, handler
from effectful.ops.syntax import ObjectInterpretation, defop
from effectful.ops.types import NotHandled, Operation

RULE = (
    "Random straight-line programs of operations (arguments are constants, earlier results and containers of them) "
    "run under a product of two to four random interpretations, which overlap partly, use default rules, application "
    "handlers, nested calls and may read other components' results and arguments by name; and the same program run "
    "under each interpretation alone. Every intermediate value of every component and the multiset of its handler "
    "invocations must be equal. Non-trivial when at least two components ran handlers; distinct by program and products."
)
ASSUMPTIONS = [
    "Every operation used by the program itself is handled by at least one component.",
    "Handlers are stateless: a product evaluates components by need, so the order of their calls is not fixed.",
    "Reading between components is acyclic.",
]
NEED = {"events": 5000, "reads": 300, "component_values": 3000}


class World:
    def __init__(self, c):
        rng = self.rng = c.rng
        self.c = c
        self.specs = [X.gen_spec(rng, i, p_default=0.5) for i in range(rng.choice([2, 3, 4, 5]))]
        self.ops = [X.make_op(s, self.on_default) for s in self.specs]
        self.names = {op: f"op{i}" for i, op in enumerate(self.ops)}
        self.n = rng.choice([2, 2, 3, 4])
        self.prompts = [defop(object, name="p") for _ in range(self.n)]
        for i, p in enumerate(self.prompts):
            self.names[p] = f"P{i}"
        self.log = []
        self.mode = None  # None: product; else the index of the component running alone
        self.alone = {}
        self.cur = None
        self.reads = 0

    def on_default(self, spec, loc):
        if not spec.default:
            raise NotHandled
        self.log.append(("default", spec.idx, X.describe(loc, self.names)))
        return ("d", spec.idx, loc)

    def read(self, me, other, what):
        """What component `me` sees of component `other` for the current call."""
        self.reads += 1
        if self.mode is None:
            if what == "value":
                return self.prompts[other]()
            return argsof(self.prompts[other])
        return self.alone[other][self.cur][0 if what == "value" else 1]

    def component(self, p):
        rng = self.rng
        out = {}
        use_apply = rng.random() < 0.3
        for s in self.specs:
            if rng.random() < (0.6 if use_apply else 0.3):
                continue
            out[self.ops[s.idx]] = s.fn(self.body(p, s))
        if use_apply or not out:
            def on_apply(op, *a, **k):
                i = next((i for i, o in enumerate(self.ops) if o is op), None)
                if i is None:
                    self.c.fail("an application handler got an operation nobody called", op=op)
                loc = self.specs[i].norm_call(a, k)
                self.log.append(("apply", p, i, X.describe(loc, self.names)))
                return ("a", p, i, loc)

            out[apply] = on_apply
        if rng.random() < 0.2 and len(out) > 1:  # as a coproduct of two halves
            keys = list(out)
            h = len(keys) // 2
            return coproduct({k: out[k] for k in keys[:h]}, {k: out[k] for k in keys[h:]})
        return out

    def body(self, p, s):
        rng = self.rng
        style = rng.choice(["tuple", "tuple", "list", "none", "dict", "nested", "nested"])
        reads = []
        if p + 1 < self.n and rng.random() < 0.35:
            reads = [(rng.randrange(p + 1, self.n), rng.choice(["value", "value", "args"])) for _ in range(rng.choice([1, 2]))]
        j = rng.randrange(s.idx + 1, len(self.specs)) if style == "nested" and s.idx + 1 < len(self.specs) else None
        need = X.gen_args(rng, self.specs[j], lambda: rng.choice([0, "c"])) if j is not None else None

        def body(loc):
            self.log.append(("handler", p, s.idx, X.describe(loc, self.names)))
            seen = tuple(self.norm_read(s, self.read(p, o, w), w) for o, w in reads)
            if j is not None:
                return ("n", p, self.ops[j](*need[0], **need[1]), seen)
            return {"tuple": ("t", p, s.idx, loc, seen), "list": [p, loc, list(seen)], "none": None,
                    "dict": {"p": p, "loc": loc, "seen": seen}}.get(style, (p, seen))

        return body

    def norm_read(self, s, got, what):
        if what == "value":
            return got
        return "args", tuple(got[0]), dict(got[1])


def gen_program(w, rng):
    prog = []

    def val(d, k):
        r = rng.random()
        if k and r < 0.55:
            return ("v", rng.randrange(k))
        if d and r < 0.75:
            kind = rng.choice(["tuple", "list", "dict", "nt", "dc", "od", "dd", "mp"])
            n = rng.choice([1, 2])
            if kind in ("nt", "dc"):
                n = 2
            return (kind, [val(d - 1, k) for _ in range(n)])
        return ("leaf", rng.choice([0, 1, "s", None, 2.5, True, range(2), b"b", int]))

    for k in range(rng.choice([1, 2, 4, 7])):
        i = rng.randrange(len(w.specs))
        prog.append((i, X.gen_args(rng, w.specs[i], lambda: val(2, k))))
    return prog


def resolve(v, env):
    import collections
    import types
    k = v[0]
    if k == "v":
        return env[v[1]]
    if k == "leaf":
        return v[1]
    xs = [resolve(a, env) for a in v[1]]
    d = {f"k{i}": x for i, x in enumerate(xs)}
    return {"tuple": lambda: tuple(xs), "list": lambda: xs, "dict": lambda: d, "nt": lambda: X.NT(*xs), "dc": lambda: X.D2(*xs),
            "od": lambda: collections.OrderedDict(d), "dd": lambda: collections.defaultdict(list, d),
            "mp": lambda: types.MappingProxyType(d)}[k]()


def step(w, call, env):
    i, (args, kwargs) = call
    a = [resolve(x, env) for x in args]
    k = {n: resolve(x, env) for n, x in kwargs.items()}
    return a, k


def programs(c):
    rng = c.rng
    w = World(c)
    comps = [w.component(p) for p in range(w.n)]
    if rng.random() < 0.2:
        class Obj(ObjectInterpretation):
            def __init__(self, d):
                self.d = d

            def __iter__(self):
                return iter(self.d)

            def __len__(self):
                return len(self.d)

            def __getitem__(self, k):
                return self.d[k]

        comps[0] = Obj(comps[0])
    prog = gen_program(w, rng)
    covered = set()
    for q in comps:
        covered |= set(w.ops) if apply in q else {o for o in q}
    prog2 = [x for x in prog if w.ops[x[0]] in covered]
    if len(prog2) != len(prog) or not prog:
        # indices into earlier results would shift: give the rest a handler
        p = rng.randrange(w.n)
        extra = {w.ops[i]: w.specs[i].fn(w.body(p, w.specs[i])) for i, _ in prog if w.ops[i] not in covered}
        comps[p] = {**comps[p], **extra}
        covered |= set(extra)
    # alone, components that are read by others first
    want_log = Counter()
    for p in reversed(range(w.n)):
        w.mode, w.log = p, []
        env, recs = [], []
        with interpreter(comps[p]):
            for k, call in enumerate(prog):
                w.cur = k
                a, kw = step(w, call, env)
                env.append(w.ops[call[0]](*a, **kw))
                recs.append((env[-1], (tuple(a), kw)))
        w.alone[p] = recs
        want_log.update(w.log)
    # the product
    w.mode, w.log, w.reads = None, [], 0
    product = productN(dict(zip(w.prompts, comps)))
    c.check(set(product) == {op for q in comps for op in q}, "operations of the product")
    env = []
    with handler(product) if rng.random() < 0.5 else interpreter(product):
        for call in prog:
            a, kw = step(w, call, env)
            env.append(w.ops[call[0]](*a, **kw))
        if rng.random() < 0.5:
            read_all(c, w, rng, env)
    read_all(c, w, rng, env)
    got_log = Counter(w.log)
    c.check(got_log == want_log, "handler invocations differ from the components run alone",
            missing=want_log - got_log, extra=got_log - want_log, prog=prog)
    c.count("events", sum(got_log.values()))
    c.count("reads", w.reads)
    if len({e[1] for e in w.log if e[0] != "default"}) > 1:
        c.key((prog, [sorted(w.names.get(o, "apply") for o in q) for q in comps]))
        c.sample(f"{prog} -> {[X.describe(r[0], w.names) for r in w.alone[0]]}")


def read_all(c, w, rng, env):
    todo = [(k, p) for k in range(len(env)) for p in range(w.n)]
    rng.shuffle(todo)
    for k, p in todo + todo[:2]:
        got = env[k].values(w.prompts[p])
        c.eq(X.describe(got, w.names), X.describe(w.alone[p][k][0], w.names), f"component {p}, result {k}")
        c.count("component_values")


def deferred(c):
    """Evaluating a stored expression under a product."""
    rng = c.rng
    w = World(c)
    for s in w.specs:
        s.default = False
    comps = [w.component(p) for p in range(w.n)]
    comps[0] = {**{op: w.specs[i].fn(w.body(w.n - 1, w.specs[i])) for i, op in enumerate(w.ops)}, **comps[0]}
    # no cross reads here: the values are those of a whole expression
    w.read = lambda me, other, what: "r" if what == "value" else ((), {})
    gen = X.PlanGen(rng, w.specs, fuel=12, containers=["tuple", "list", "dict", "nt", "dc", "od", "dd", "mp", "mylist"], share=False)
    plan = gen.call(3)
    term = X.Builder(w.ops).run(plan)
    before = X.describe(term, w.names)
    w.mode = -1
    want = []
    want_log = Counter()
    for q in comps:
        w.log = []
        want.append(X.describe(evaluate(term, intp=q), w.names))
        want_log.update(w.log)
    w.log = []
    product = productN(dict(zip(w.prompts, comps)))
    res = evaluate([term], intp=product)[0]
    for p in rng.sample(range(w.n), w.n):
        c.eq(X.describe(res.values(w.prompts[p]), w.names), want[p], f"component {p}", plan=plan)
        c.count("component_values")
    c.check(Counter(w.log) == want_log, "handler invocations", missing=want_log - Counter(w.log), extra=Counter(w.log) - want_log)
    c.eq(X.describe(term, w.names), before, "the expression was modified")
    c.count("events", len(w.log))
    c.key((plan, [sorted(w.names.get(o, "apply") for o in q) for q in comps]))


SECTIONS = [
    Section("programs", programs, 1000, 40000, 4),
    Section("deferred", deferred, 300, 10000, 2),
]
