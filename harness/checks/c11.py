"""C11: handler objects are mappings of operations to their own bound methods."""
import collections.abc
import dataclasses
import functools
import types

from harness.core import Section

from effectful.ops.semantics import coproduct, evaluate, fwd, handler
from effectful.ops.syntax import ObjectInterpretation, implements
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random hierarchies of handler classes (multiple inheritance, equal method names for different operations, different "
    "names for one operation, static and class methods, mixins) are built together with plain Python classes that have "
    "one method per operation; Python's attribute lookup on those is the oracle for what each operation maps to. "
    "Objects of the classes are then installed in random nests with each other and with dictionaries, called through "
    "operations, deferred expressions and other methods, and results and object states compared with a reference "
    "semantics. Distinct by hierarchy, nest and calls."
)
ASSUMPTIONS = [
    "Implementations are inherited by operation, not by method name: redefining a method without implements() leaves the operation's implementation.",
    "Only subclasses of ObjectInterpretation contribute implementations.",
]
NEED = {"lookups": 5000, "calls": 2000, "forwards": 300, "self_calls": 100, "state": 200}


def make_ops():
    def mk(name):
        def f(x: int) -> object:
            return ("default", name, x)
        f.__name__ = name
        return Operation.define(f)

    def free(x: int) -> object:
        raise NotHandled

    class Host:
        @Operation.define
        def meth(self, x: int) -> object:
            return ("default", "meth", x)

    host = Host()
    a = mk("a")
    return [a, mk("b"), mk("b"), Operation.define(free), host.meth, Operation.define(a), Operation.define(free, name="z")]


DEFAULTS = [lambda x: ("default", "a", x), lambda x: ("default", "b", x), lambda x: ("default", "b", x),
            None, lambda x: ("default", "meth", x), None, None]
NOPS = len(DEFAULTS)


class Spec:
    def __init__(self, rng):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        self.flavour = rng.choice(["plain", "plain", "dataclass", "generic", "abstract"])
        self.bases, self.members, self.mixin = [], [], []
        for i in range(n):
            self.bases.append(sorted(rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2, 2]) if i else 0)), reverse=True))
            ks = rng.sample(range(NOPS), rng.choice([0, 1, 2, 3]))
            mem, used = [], set()
            for k in sorted(ks, key=lambda _: rng.random()):
                name = rng.choice([f"op{k}", "p", "q", "r", f"m{k}"])
                if name in used:
                    continue
                used.add(name)
                beh = rng.choice(["val", "inc", "fwd", "fwd2", "op", "self", "move"])
                kind = "method" if beh not in ("val", "fwd") else rng.choice(["method"] * 4 + ["static", "class"])
                mem.append((k, name, kind, beh, k))
            # one function as the implementation of a second operation
            if mem and rng.random() < 0.2:
                k, name, kind, beh, _ = rng.choice(mem)
                k2 = rng.randrange(NOPS)
                if beh in ("val", "inc", "fwd") and k2 not in ks and "alias" not in used:
                    mem.append((k2, "alias", kind, beh, k))
            # a method that overrides a name without implementing anything
            over = [x for x in ("p", "q", "r") if x not in used and rng.random() < 0.15]
            self.members.append((mem, over))
        self.objs = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3, 4]))]

    def key(self):
        return (self.flavour, self.bases, self.members, self.objs)


class World:
    def __init__(self, c, spec):
        self.c, self.spec = c, spec
        self.ops = make_ops()
        self.classes, self.mirror = [], []
        self.funcs = {}
        self.objs = []
        for i in range(len(spec.bases)):
            self.build(i)
            for j in range(i + 1):  # a new class never changes the earlier ones
                self.check_class(j)

    def build(self, i):
        spec, ns, ms = self.spec, {}, {}
        mem, over = spec.members[i]
        for k, name, kind, beh, src in mem:
            f = self.funcs[i, k] = self.funcs[i, src] if src != k else self.method(i, k, name, kind, beh)
            w = {"method": f, "static": staticmethod(f), "class": classmethod(f)}[kind]
            ns[name] = implements(self.ops[k])(w)
            ms[f"#{k}"] = (i, src, kind, beh)
            ms[name] = (i, src, kind, beh)
        for name in over:
            ns[name] = lambda self, x, name=name: ("over", i, name, x)
            ms[name] = (i, None, "method", ("over", i, name))
        bases = tuple(self.classes[b] for b in spec.bases[i])
        if not bases:
            bases = (ObjectInterpretation,)
            if spec.flavour == "dataclass":
                ns["__annotations__"] = {"n": int}
                ns["n"] = 0
            else:
                def init(self, n=0):
                    self.n = n
                ns["__init__"] = init
            if spec.flavour == "abstract":
                bases = (Mix, ObjectInterpretation)
            if spec.flavour == "generic":
                bases = (ObjectInterpretation[int, object],)
        cls = types.new_class("H", bases, exec_body=lambda d: d.update(ns))
        if spec.flavour == "dataclass":
            cls = dataclasses.dataclass(cls)
        self.classes.append(cls)
        self.mirror.append(type("M", tuple(self.mirror[b] for b in spec.bases[i]) or (object,), ms))

    def tag(self, me):
        for i, o in enumerate(self.objs):
            if o is me:
                return f"o{i}"
        for i, o in enumerate(self.classes):
            if o is me:
                return f"c{i}"
        return repr(me)

    def method(self, i, k, name, kind, beh):
        W = self

        def body(me, x):
            t = W.tag(me) if me is not None else None
            if beh == "val":
                return ("v", i, k, t, x)
            if beh == "inc":
                me.n += x
                return ("i", i, k, t, me.n, x)
            if beh == "fwd":
                return ("f", i, k, t, x, W.norm(fwd()))
            if beh == "fwd2":
                me.n += 1
                return ("g", i, k, t, me.n, W.norm(fwd()), W.norm(fwd(x + 1)))
            if beh == "move":
                return fwd(x * 2)
            if beh == "op":
                j = k + 1
                return ("o", i, k, t, W.norm(W.ops[j](x)) if j < NOPS else None)
            if beh == "self":
                for other in W.callable_names(me):
                    return ("s", i, k, t, getattr(me, other)(x))
                return ("s", i, k, t)

        if kind == "static":
            def f(x):
                return body(None, x)
        elif kind == "class":
            def f(cls, x):
                return body(cls, x)
        else:
            def f(self, x):
                return body(self, x)
        f.__name__ = name
        return f

    def callable_names(self, me):
        """Names of methods that neither forward nor call anything."""
        t = self.tag(me)
        return self.callable_names_of(self.spec.objs[int(t[1:])])

    def callable_names_of(self, ci):
        for name in ("p", "q", "r", *[f"op{k}" for k in range(NOPS)]):
            e = getattr(self.mirror[ci], name, None)
            if e is not None and (e[3] in ("val", "inc") or isinstance(e[3], tuple)):
                yield name

    def norm(self, v):
        if isinstance(v, Term):
            return ("term", self.ops.index(v.op), tuple(self.norm(a) for a in v.args))
        if isinstance(v, tuple):
            return tuple(self.norm(a) for a in v)
        return v

    # what each operation maps to
    def want(self, ci):
        out = {}
        for k in range(NOPS):
            e = getattr(self.mirror[ci], f"#{k}", None)
            if e is not None:
                out[k] = e
        return out

    def check_class(self, ci, obj=None):
        c = self.c
        o = self.classes[ci](0) if obj is None else obj
        want = self.want(ci)
        wops = {self.ops[k] for k in want}
        keys = list(iter(o))
        c.check(len(keys) == len(set(keys)), "an operation is listed twice", keys=keys)
        c.check(set(keys) == wops, f"operations of class {ci}: {keys}, expected {wops}", spec=self.spec.key())
        c.check(len(o) == len(wops), "length", n=len(o), want=len(wops))
        c.check(isinstance(o, collections.abc.Mapping), "not a mapping")
        c.check(list(o.keys()) == keys and [p[0] for p in o.items()] == keys and len(o.values()) == len(keys), "views disagree")
        c.check(bool(o) == bool(wops), "truth value of a mapping")
        items = dict(o.items())
        for k, op in enumerate(self.ops):
            c.count("lookups")
            c.check((op in o) == (k in want), f"membership of op{k} in class {ci}")
            if k not in want:
                c.check(o.get(op, 5) == 5 and o.get(op) is None, "get of an operation that is not implemented")
                c.raises(KeyError, lambda: o[op])
                continue
            i, _, kind, _ = want[k]
            f = o[op]
            got = getattr(f, "__func__", f)
            c.check(got is self.funcs[i, k], f"op{k} of class {ci} maps to {got}, expected the one of class {i}", spec=self.spec.key())
            if kind == "method":
                c.check(f.__self__ is o, "bound to another object")
            elif kind == "class":
                c.check(f.__self__ is type(o), "class method bound to another class")
            for g in (o.get(op), items[op]):
                c.check(g == f, "lookups disagree", k=k)


class Mix:
    """A base that has nothing to do with handlers."""

    def __init__(self):
        raise AssertionError


class Model:
    def __init__(self, world):
        self.w = world
        self.stack = []  # outermost first: dict k -> entry
        self.n = [0] * len(world.spec.objs)
        self.forwards = self.selfs = 0

    def call(self, k, x):
        hs = [b[k] for b in self.stack if k in b][::-1]
        return self.chain(k, x, hs)

    def chain(self, k, x, hs):
        if not hs:
            d = DEFAULTS[k]
            return d(x) if d else ("term", k, (x,))
        h, rest = hs[0], hs[1:]
        if h[0] == "dict":
            _, hid, beh = h
            if beh == "const":
                return ("d", hid, x)
            self.forwards += 1
            return ("d", hid, x, self.chain(k, x, rest))
        _, t, (i, kk, kind, beh) = h
        return self.run(t, i, kk, kind, beh, x, lambda y: self.chain(k, y, rest))

    def run(self, t, i, k, kind, beh, x, fw):
        me = f"o{t}" if kind == "method" else None if kind == "static" else f"c{self.w.spec.objs[t]}"
        if isinstance(beh, tuple):
            return (*beh, x)
        if beh == "val":
            return ("v", i, k, me, x)
        if beh == "inc":
            self.n[t] += x
            return ("i", i, k, me, self.n[t], x)
        if beh == "fwd":
            self.forwards += 1
            return ("f", i, k, me, x, fw(x))
        if beh == "fwd2":
            self.forwards += 1
            self.n[t] += 1
            n = self.n[t]
            # the state is read before forwarding
            return ("g", i, k, me, n, fw(x), fw(x + 1))
        if beh == "move":
            return fw(x * 2)
        if beh == "op":
            return ("o", i, k, me, self.call(k + 1, x) if k + 1 < NOPS else None)
        if beh == "self":
            ci = self.w.spec.objs[t]
            for other in self.w.callable_names_of(ci):
                self.selfs += 1
                i2, k2, kind2, beh2 = getattr(self.w.mirror[ci], other)
                return ("s", i, k, me, self.run(t, i2, k2, kind2, beh2, x, None))
            return ("s", i, k, me)
        raise AssertionError(beh)


def build(c):
    for _ in range(20):
        spec = Spec(c.rng)
        try:
            w = World(c, spec)
            break
        except TypeError as e:
            if "MRO" not in str(e):
                raise
    else:
        return None
    for t, ci in enumerate(spec.objs):
        w.objs.append(w.classes[ci](0))
    return w


def mapping(c):
    w = build(c)
    if w is None:
        return
    for o, ci in zip(w.objs, w.spec.objs):
        w.check_class(ci, o)
    c.check(all(ObjectInterpretation.implementations == {} for _ in [0]), "the base class gained implementations")
    c.key(w.spec.key())


def behave(c):
    rng = c.rng
    w = build(c)
    if w is None:
        return
    m = Model(w)
    spec = w.spec
    nest = []  # list of (model dict, interpretation)
    hid = 0

    def obj_block():
        t = rng.randrange(len(w.objs))
        return {k: ("obj", t, e) for k, e in w.want(spec.objs[t]).items()}, w.objs[t]

    def dict_block():
        nonlocal hid
        b, intp = {}, {}
        for k in rng.sample(range(NOPS), rng.choice([1, 2, 4])):
            hid += 1
            beh = rng.choice(["const", "fwd"])
            b[k] = ("dict", hid, beh)

            def h(x, hid=hid, beh=beh):
                return ("d", hid, x) if beh == "const" else ("d", hid, x, w.norm(fwd()))
            intp[w.ops[k]] = h
        return b, intp

    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = rng.random()
        if k < 0.55:
            b, i = obj_block()
            nest.append(([b], i))
        elif k < 0.75:
            b, i = dict_block()
            nest.append(([b], i))
        else:
            (b1, i1), (b2, i2) = (rng.choice([obj_block, dict_block])() for _ in range(2))
            nest.append(([b1, b2], coproduct(i1, i2)))
    m.stack = [b for bs, _ in nest for b in bs]
    terms = [op(7) for op in (w.ops[3], w.ops[5])]

    def under(intps, fn):
        if not intps:
            return fn()
        with handler(intps[0]):
            return under(intps[1:], fn)

    plan = [(rng.randrange(NOPS), rng.choice([1, 2, 5]), rng.random() < 0.2) for _ in range(rng.choice([3, 6, 10]))]

    def go():
        out = []
        for k, x, later in plan:
            if later:
                r = evaluate(terms[k % 2])
            else:
                r = w.ops[k](x)
            out.append(w.norm(r))
        return out

    got = under([i for _, i in nest], go)
    for (k, x, later), g in zip(plan, got):
        kk, xx = ((3, 5)[k % 2], 7) if later else (k, x)
        c.eq(g, m.call(kk, xx), f"op{kk}({xx}) under {m.stack} of {spec.key()}")
        c.count("calls")
    c.count("forwards", m.forwards)
    c.count("self_calls", m.selfs)
    c.count("state", sum(1 for n in m.n if n))
    c.eq([o.n for o in w.objs], m.n, "state of the objects")
    for o, ci in zip(w.objs, spec.objs):  # using an object does not change what it implements
        w.check_class(ci, o)
    for op, want in zip(w.ops, DEFAULTS):  # and it leaves with its scope
        r = op(3)
        c.eq(w.norm(r), want(3) if want else ("term", w.ops.index(op), (3,)), "after the scope")
    c.key((spec.key(), m.stack, plan))


SECTIONS = [
    Section("mapping", mapping, 800, 25000, 2),
    Section("behave", behave, 1500, 50000, 3),
]
