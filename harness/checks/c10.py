"""C10: operations have their own identity and dispatch by instance and class."""
import copy
import dataclasses
import functools
import gc
import inspect
import itertools
import operator
import typing

from harness.core import Section

from effectful.internals.runtime import interpreter
from effectful.ops.semantics import apply, coproduct, evaluate, fwd, handler
from effectful.ops.syntax import defop
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "identity: many operations are defined from the same functions, types, builtins and other operations with equal "
    "names; all must differ, hash and order consistently, keep signatures, lose defaults and answer only for their own "
    "handlers. hierarchy: random class hierarchies (multiple inheritance, overriding by operations and plain methods, "
    "super calls, class, static and single-dispatch methods, slots and dataclasses) are built twice, with operations and "
    "as plain Python; without handlers all calls must agree with plain Python, and under random nests of handlers on "
    "class and instance operations with a small reference model of dispatch and forwarding. Distinct by hierarchy, "
    "handlers and calls."
)
ASSUMPTIONS = [
    "A class method operation is one operation per class it is accessed on; handlers for it are per class.",
    "Operations are made from functions, methods, builtins, types and operations; other callable objects have no signature.",
    "Instances without a __dict__ have no operations of their own.",
]
NEED = {"operations": 1000, "calls": 3000, "handled": 800, "plain_calls": 2000, "deferred": 100}


# --------------------------------------------------------------- identity
def base_fn(x: int, y: str = "d", *, z: float = 1.0) -> int:
    return ("base", x, y, z)


def free_fn(x: int) -> int:
    raise NotHandled


def identity(c):
    rng = c.rng
    made = []  # (operation, what calling it gives, call)

    def lam(tag):
        def f(x: int, y: int = 3) -> int:
            return ("lam", tag, x, y)
        return f

    shared = lam("shared")
    define = lambda *a, **k: rng.choice([Operation.define, defop])(*a, **k)
    for i in range(rng.choice([4, 6, 10, 16])):
        name = {"name": rng.choice(["n", "m", None])} if rng.random() < 0.4 else {}
        k = rng.randrange(8)
        if k == 0:
            made.append((define(base_fn, **name), ("base", 1, "d", 1.0), (1,), base_fn))
        elif k == 1:
            made.append((define(shared, **name), ("lam", "shared", 1, 3), (1,), shared))
        elif k == 2:
            f = lam(i)
            made.append((define(f, **name), ("lam", i, 1, 3), (1,), f))
        elif k == 3:
            made.append((define(rng.choice([int, object, list[int], typing.List[int]]), **name), Term, (), None))
        elif k == 4:
            made.append((define(free_fn, **name), Term, (1,), free_fn))
        elif k == 5 and made:
            o, _, args, f = rng.choice(made)
            made.append((define(o, **name), Term, args, f))
            c.check(made[-1][0].__name__ == (name.get("name") or o.__name__), "name of an operation made from another")
            c.eq(str(made[-1][0].__signature__), str(o.__signature__), "signature of an operation made from another")
        elif k == 6:
            made.append((define(abs, **name), 1, (-1,), None))
        elif k == 7:
            made.append((define(functools.wraps(base_fn)(functools.partial(base_fn, y="p")), **name), ("base", 1, "p", 1.0), (1,), None))
    ops = [m[0] for m in made]
    hashes = [hash(o) for o in ops]
    gc.collect()
    for o, h in zip(ops, hashes):
        c.check(hash(o) == h, "hash changed")
        c.check(o == o and not (o != o), "an operation differs from itself")
        c.check(not (o < o) and not (o > o) and o <= o and o >= o, "an operation in order with itself")
        c.check(o != o.__default__ and not (o == "n") and o != o.__name__, "an operation equals something else")
    for (i, a), (j, b) in itertools.combinations(enumerate(ops), 2):
        c.check(a != b and not (a == b), "two operations are equal", a=a, b=b)
        c.check((a < b) != (b < a) and (a <= b) == (a < b) and (a > b) == (b < a) and (a >= b) == (a > b), "order of operations", a=a, b=b)
    c.check(len(set(ops)) == len(ops) and len({o: 1 for o in ops}) == len(ops), "operations collapse in sets")
    c.check(sorted(sorted(ops)) == sorted(reversed(ops)), "operations do not sort consistently")
    for o, want, args, f in made:
        if f is not None:
            c.eq(inspect.signature(o), inspect.signature(f), "signature")
        c.count("operations")

    def default_ok(o, want, args):
        r = o(*args)
        if want is Term:
            c.check(isinstance(r, Term) and r.op is o and tuple(r.args)[: len(args)] == args, "an operation without default", o=o, r=r)
        else:
            c.eq(r, want, f"default of {o}")

    for o, want, args, _ in made:
        default_ok(o, want, args)
    # handlers for some answer for those only
    chosen = [i for i in range(len(ops)) if rng.random() < 0.4]
    intp = {ops[i]: (lambda *a, i=i, **k: ("H", i, a)) for i in chosen}
    with handler(intp):
        for i, (o, want, args, _) in enumerate(made):
            if i in chosen:
                c.eq(o(*args), ("H", i, args), "handled operation")
                t = made[i]
            else:
                default_ok(o, want, args)
    # deferred calls are answered by the handler of their own operation
    with interpreter({apply: lambda op, *a, **k: op_term(op, *a, **k)}):
        terms = [o(*args) for o, _, args, _ in made]
    for i, t in enumerate(terms):
        c.check(t.op is ops[i], "operation of a deferred call")
    got = evaluate(tuple(terms), intp={o: (lambda *a, i=i, **k: ("E", i)) for i, o in enumerate(ops)})
    c.eq(got, tuple(("E", i) for i in range(len(ops))), "evaluated deferred calls")
    c.key([(o.__name__, str(w)) for o, w, _, _ in made] + chosen)


def op_term(op, *a, **k):
    from effectful.ops.syntax import defdata
    return defdata(op, *a, **k)


# -------------------------------------------------------------- hierarchy
@Operation.define
def ext(a: object, x: object) -> object:
    raise NotHandled


NAMES = ["m0", "m1", "m2", "m3"]


class Spec:
    """A hierarchy: classes with bases and members, and objects."""

    def __init__(self, rng, deferred):
        self.rng = rng
        n = rng.choice([1, 2, 3, 4, 5])
        self.flavour = rng.choice(["plain", "plain", "plain", "dataclass", "frozen", "slots", "eq", "getattr"])
        self.kinds = {m: rng.choice(["op", "op", "op", "op", "sop", "cop", "sd"]) for m in NAMES}
        self.names = [rng.choice(["K", "L"]) for _ in range(n)]  # equal class names on purpose
        self.bases, self.members = [], []
        for i in range(n):
            b = rng.sample(range(i), min(i, rng.choice([0, 1, 1, 1, 2]) if i else 0))
            self.bases.append(sorted(b, reverse=True))
            mem = {}
            for k, m in enumerate(NAMES):
                if rng.random() < (0.75 if not b else 0.45):
                    opts = ["val", "val", "super", "super"] + (["call"] if k + 1 < len(NAMES) else []) + (["nh", "nh", "ext"] if deferred else [])
                    beh = rng.choice(opts)
                    plain = rng.random() < 0.15
                    if plain and beh in ("nh", "ext"):
                        beh = "val"
                    mem[m] = (self.kinds[m], plain, beh)
            self.members.append(mem)
        self.objs = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3, 4]))]
        if rng.random() < 0.5:  # several objects of one class
            self.objs.append(self.objs[0])

    def key(self):
        return (self.flavour, self.names, self.bases, self.members, self.objs)


class Hier:
    """The hierarchy built for real, with operations or as plain Python."""

    def __init__(self, spec, ops):
        self.spec, self.ops = spec, ops
        self.classes = []
        self.objs = []
        for i in range(len(spec.bases)):
            self.classes.append(self.make_class(i))
        self.objs = [self.make_obj(k, t) for t, k in enumerate(spec.objs)]

    def make_obj(self, k, t):
        cls = self.classes[k]
        return cls(5) if self.spec.flavour in ("dataclass", "frozen") else cls()

    def tag(self, x):
        for i, o in enumerate(self.objs):
            if o is x:
                return f"o{i}"
        for i, o in enumerate(self.classes):
            if o is x:
                return f"c{i}"
        return x if isinstance(x, (int, str, type(None))) else repr(x)

    def body(self, i, name, me, x, how="any"):
        kind, plain, beh = self.spec.members[i][name]
        if beh == "nh":
            raise NotHandled
        if beh == "ext":
            return ext(me, x)
        if kind != "sop" and beh == "super":
            s = super(self.classes[i], me)
            if hasattr(s, name):
                return ("s", i, name, how, getattr(s, name)(x))
        if kind != "sop" and beh == "call":
            for other in NAMES[NAMES.index(name) + 1:]:
                if self.spec.kinds[other] in (("op", "sop", "cop", "sd") if kind != "cop" else ("sop", "cop")) and hasattr(me, other):
                    return ("c", i, name, how, getattr(me, other)(x))
        return ("v", i, name, how, self.tag(me), x)

    def make_class(self, i):
        spec = self.spec
        ns = {}
        for name, (kind, plain, beh) in spec.members[i].items():
            ns[name] = self.member(i, name, kind, self.ops and not plain)
        bases = tuple(self.classes[b] for b in spec.bases[i])
        if not bases:
            if spec.flavour == "slots":
                ns["__slots__"] = ()
            if spec.flavour == "eq":
                ns["__eq__"] = lambda a, b: True
                ns["__hash__"] = lambda a: 7
            if spec.flavour == "getattr":
                ns["__getattr__"] = getattr_default
            if spec.flavour in ("dataclass", "frozen"):
                ns["__annotations__"] = {"field": int}
        elif spec.flavour == "slots":
            ns["__slots__"] = ()
        cls = type(spec.names[i], bases or (object,), ns)
        if spec.flavour in ("dataclass", "frozen"):
            cls = dataclasses.dataclass(frozen=spec.flavour == "frozen")(cls)
        return cls

    def member(self, i, name, kind, as_op):
        define = Operation.define if self.spec.rng.random() < 0.5 else defop
        if kind == "op":
            def f(self_, x: int) -> object:
                return self.body(i, name, self_, x)
            f.__name__ = name
            return define(f) if as_op else f
        if kind == "sop":
            def f(x: int) -> object:
                return self.body(i, name, None, x)
            f.__name__ = name
            return define(staticmethod(f)) if as_op else staticmethod(f)
        if kind == "cop":
            def f(cls, x: int) -> object:
                return self.body(i, name, cls, x)
            f.__name__ = name
            return define(classmethod(f)) if as_op else classmethod(f)

        def f(self_, x: object) -> object:
            return self.body(i, name, self_, x)
        f.__name__ = name
        m = functools.singledispatchmethod(f)
        if as_op:
            m = define(m)

        @m.register(str)
        def _(self_, x: str) -> object:
            return self.body(i, name, self_, x, "str")
        return m


def getattr_default(self, name):
    raise AttributeError(name)


class Model:
    """What calls on the hierarchy give under nested handlers."""

    def __init__(self, spec, hier, stack):
        self.spec, self.h, self.stack = spec, hier, stack
        self.cls_index = {c: i for i, c in enumerate(hier.classes)}
        self.mros = [[self.cls_index[k] for k in c.__mro__ if k in self.cls_index] for c in hier.classes]

    def find(self, mro, name):
        return next((k for k in mro if name in self.spec.members[k]), None)

    def type_of(self, me):
        return self.spec.objs[int(me[1:])] if me[0] == "o" else int(me[1:])

    def attr(self, me, name, x, after=None):
        """me.name(x), or super(after, me).name(x)"""
        mro = self.mros[self.type_of(me)]
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        d = self.find(mro, name)
        if d is None:
            return None
        kind, plain, _ = self.spec.members[d][name]
        if plain:
            return ("r", self.body(d, name, None if kind == "sop" else f"c{self.type_of(me)}" if kind == "cop" else me, x))
        if kind == "sop":
            return ("r", self.call(("st", d, name), (x,)))
        if kind == "cop":
            return ("r", self.call(("cm", self.type_of(me), d, name), (x,)))
        if self.spec.flavour == "slots":
            return ("r", self.call(("cls", d, name), (me, x)))
        return ("r", self.call(("inst", me, d, name), (x,)))

    def call(self, key, args, start=None):
        hs = [(i, b[key]) for i, b in enumerate(self.stack) if key in b][::-1]
        return self.chain(key, args, [h for _, h in hs])

    def chain(self, key, args, hs):
        if not hs:
            return self.default(key, args)
        hid, how = hs[0]
        if how == "const":
            return ("h", hid, args)
        if how == "fwd":
            return ("h", hid, args, self.chain(key, args, hs[1:]))
        if how == "pass":
            return self.chain(key, args, hs[1:])
        if how == "move":
            return self.chain(key, (*args[:-1], self.change(args[-1])), hs[1:])
        if how == "change":
            a = (*args[:-1], self.change(args[-1]))
            return ("h", hid, args, self.chain(key, a, hs[1:]))
        if how == "twice":
            return ("h", hid, args, self.chain(key, args, hs[1:]), self.chain(key, args, hs[1:]))
        raise AssertionError

    @staticmethod
    def change(x):
        return x + x

    def default(self, key, args):
        if key[0] == "inst":
            _, me, d, name = key
            r = self.call(("cls", d, name), (me, *args))
            if isinstance(r, tuple) and r[0] == "term" and r[1] == ("cls", d, name):
                return ("term", ("inst", r[2][0], d, name), r[2][1:])
            return r
        if key == ("ext",):
            return ("term", key, args)
        d, name = key[-2], key[-1]
        if self.spec.members[d][name][2] == "nh" and not (self.spec.kinds[name] == "sd" and isinstance(args[-1], str)):
            return ("term", key, args)
        if key[0] == "cls":
            r = self.body(d, name, args[0], args[1])
        elif key[0] == "cm":
            r = self.body(d, name, f"c{key[1]}", args[0])
        else:
            r = self.body(d, name, None, args[0])
        return ("term", key, args) if r is NotHandled else r

    def body(self, d, name, me, x):
        kind, plain, beh = self.spec.members[d][name]
        how = "str" if kind == "sd" and isinstance(x, str) else "any"
        if beh == "nh":
            return NotHandled
        if beh == "ext":
            return ("term", ("ext",), (me, x))
        if kind != "sop" and beh == "super":
            r = self.attr(me, name, x, after=d)
            if r is not None:
                return ("s", d, name, how, r[1])
        if kind != "sop" and beh == "call":
            for other in NAMES[NAMES.index(name) + 1:]:
                if self.spec.kinds[other] in (("op", "sop", "cop", "sd") if kind != "cop" else ("sop", "cop")):
                    if self.find(self.mros[self.type_of(me)], other) is not None:
                        return ("c", d, name, how, self.attr(me, other, x)[1])
        return ("v", d, name, how, me, x)


def all_keys(spec, hier, model):
    """Every operation of the hierarchy by key."""
    out = {}
    for i, mem in enumerate(spec.members):
        for name, (kind, plain, _) in mem.items():
            if plain:
                continue
            if kind == "sop":
                out[("st", i, name)] = hier.classes[i].__dict__[name].__func__
            elif kind == "cop":
                for j, mro in enumerate(model.mros):
                    if i in mro:
                        out[("cm", j, i, name)] = hier.classes[i].__dict__[name].__get__(None, hier.classes[j])
            else:
                out[("cls", i, name)] = hier.classes[i].__dict__[name]
                if spec.flavour != "slots":
                    for t, k in enumerate(spec.objs):
                        if i in model.mros[k]:
                            out[("inst", f"o{t}", i, name)] = hier.classes[i].__dict__[name].__get__(hier.objs[t], hier.classes[k])
    return out


def hierarchy(c, deferred=False):
    rng = c.rng
    for _ in range(20):
        spec = Spec(rng, deferred)
        try:
            hier, plain = Hier(spec, True), Hier(spec, False)
            break
        except TypeError as e:
            if "MRO" not in str(e):
                raise
    else:
        return
    model = Model(spec, hier, [])
    keys = all_keys(spec, hier, model)
    back = {ext: ("ext",)}
    for k, o in keys.items():
        c.check(isinstance(o, Operation), "a method operation is not an operation", k=k, o=o)
        c.check(o not in back, "two method operations are the same", k=k, other=back.get(o))
        back[o] = k
    again = all_keys(spec, hier, model)
    c.check(all(again[k] is o for k, o in keys.items()), "a method operation is not stable")
    c.count("operations", len(keys))
    c.info(spec.key())

    def norm(v):
        if isinstance(v, Term):
            return ("term", back.get(v.op, v.op), tuple(norm(a) for a in v.args))
        if isinstance(v, tuple):
            return tuple(norm(a) for a in v)
        return hier.tag(v)

    # access through classes and instances finds what Python finds
    for t, o in enumerate(hier.objs):
        for name in NAMES:
            mro = model.mros[spec.objs[t]]
            d = model.find(mro, name)
            c.check(hasattr(o, name) == (d is not None), "attribute presence")
            if d is None:
                continue
            kind, pl, _ = spec.members[d][name]
            if not pl and spec.flavour != "slots":
                key = ("inst", f"o{t}", d, name) if kind in ("op", "sd") else ("st", d, name) if kind == "sop" else ("cm", spec.objs[t], d, name)
                c.check(getattr(o, name) is keys[key], "operation found through the instance", name=name, t=t)
            if not pl and kind in ("op", "sd"):
                c.check(getattr(hier.classes[spec.objs[t]], name) is keys[("cls", d, name)], "operation found through the class")
    # handlers
    stack, intps = [], []
    hid = itertools.count()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        b, intp = {}, {}
        for k in rng.sample(sorted(keys, key=repr), min(len(keys), rng.choice([1, 2, 4]))):
            how = rng.choice(["const", "fwd", "fwd", "change", "twice", "pass", "move"])
            n = next(hid)
            b[k] = (n, how)

            def h(*args, n=n, how=how):
                a = tuple(hier.tag(x) for x in args)
                if how == "const":
                    return ("h", n, a)
                if how == "fwd":
                    return ("h", n, a, norm(fwd()))
                if how == "pass":
                    return fwd(*args)
                if how == "move":
                    return fwd(*args[:-1], args[-1] + args[-1])
                if how == "twice":
                    return ("h", n, a, norm(fwd()), norm(fwd(*args)))
                return ("h", n, a, norm(fwd(*args[:-1], args[-1] + args[-1])))

            intp[keys[k]] = h
        stack.append(b)
        intps.append(intp)

    def call_all(run, tagrun):
        for t in range(len(hier.objs)):
            for name in NAMES:
                x = rng.choice([1, 2, "s"]) if spec.kinds[name] == "sd" else rng.choice([1, 2])
                if model.find(model.mros[spec.objs[t]], name) is not None:
                    run(f"o{t}", name, x)

    def under(intps, fn):
        if not intps:
            return fn()
        with handler(intps[0]):
            return under(intps[1:], fn)

    for active in ([], intps):
        model.stack = stack if active else []

        def run(me, name, x):
            t = int(me[1:])
            got = under(active, lambda: getattr(hier.objs[t], name)(x))
            want = model.attr(me, name, x)[1]
            c.eq(norm(got), want, f"{me}.{name}({x!r}) under {model.stack}")
            c.count("handled" if "'h'" in repr(want) else "calls")
            if not active and not deferred:
                c.eq(plain_norm(getattr(plain.objs[t], name)(x)), want, f"plain Python: {me}.{name}({x!r})")
                c.count("plain_calls")
            if not active and isinstance(got, Term):
                # deferred now, evaluated under the handlers
                model.stack = stack
                later = under(intps, lambda: evaluate(got))
                key = back[got.op]
                wl = model.call(key, tuple(hier.tag(a) for a in got.args))
                c.eq(norm(later), wl, f"deferred {me}.{name}({x!r}) evaluated under {stack}")
                model.stack = []
                c.count("deferred")

        call_all(run, None)
        # through the class
        for j, mro in enumerate(model.mros):
            for name in NAMES:
                d = model.find(mro, name)
                if d is None:
                    continue
                kind, pl, _ = spec.members[d][name]
                if pl:
                    continue
                if kind in ("sop", "cop"):
                    key = ("st", d, name) if kind == "sop" else ("cm", j, d, name)
                    got = under(active, lambda: getattr(hier.classes[j], name)(3))
                    c.eq(norm(got), model.call(key, (3,)), f"c{j}.{name}(3) under {model.stack}")
                else:
                    for t, k in enumerate(spec.objs):
                        if j in model.mros[k]:
                            got = under(active, lambda: getattr(hier.classes[j], name)(hier.objs[t], 3))
                            c.eq(norm(got), model.call(("cls", d, name), (f"o{t}", 3)), f"c{j}.{name}(o{t}, 3) under {model.stack}")
                            c.count("calls")

    def copies():
        """A copy has operations of its own."""
        if spec.flavour in ("slots",):
            return
        for t, o in enumerate(hier.objs):
            for how in (copy.copy, copy.deepcopy) if not deferred and spec.flavour != "frozen" else (copy.copy,):
                o2 = how(o)
                for name in NAMES:
                    d = model.find(model.mros[spec.objs[t]], name)
                    if d is None or spec.members[d][name][1] or spec.kinds[name] not in ("op", "sd"):
                        continue
                    c.check(getattr(o2, name) is not getattr(o, name), "a copy shares an operation with the original")
                    with handler({getattr(o, name): lambda x: "original"}):
                        hier.objs.append(o2)
                        try:
                            r = getattr(o2, name)(1)
                        finally:
                            hier.objs.pop()
                        c.check(r != "original", "a handler for the original answered for a copy")

    copies()
    c.key((spec.key(), stack))


def plain_norm(v):
    return v


def deferred(c):
    hierarchy(c, True)


# ------------------------------------------------- instances with open fields
@dataclasses.dataclass
class Box:
    content: object

    @Operation.define
    def open(self, k: int) -> int:
        raise NotHandled

    @Operation.define
    def peek(self) -> object:
        return ("peek", self.content)


class Gen[T]:
    @Operation.define
    def get(self, x: int) -> int:
        raise NotHandled

    @Operation.define
    def put(self, x: int) -> int:
        return x + 1


    @Operation.define
    def kw(self, x: int, *, k: int = 0, **more: int) -> int:
        raise NotHandled


class Child(Gen[int]):
    pass


def instances(c):
    """Many instances of one class: every handled subset answers for itself."""
    rng = c.rng
    cls = rng.choice([Gen, Child])
    objs = [cls() for _ in range(rng.choice([2, 3, 8]))]
    dead = [cls().get for _ in range(rng.choice([0, 3]))]  # operations whose instances nobody else holds
    chosen = [i for i in range(len(objs)) if rng.random() < 0.5]
    cls_handled = rng.random() < 0.5
    m = rng.choice(["get", "put"])
    intp = {getattr(objs[i], m): (lambda x, i=i: ("I", i, x)) for i in chosen}
    cintp = {getattr(Gen, m): lambda self, x: ("C", next(i for i, o in enumerate(objs) if o is self), x)} if cls_handled else {}
    order = rng.choice(["one", "class_outer", "class_inner", "coproduct"])

    def go():
        return [getattr(o, m)(n) for n, o in enumerate(objs)]

    def later():
        return [evaluate(t) for t in terms]

    terms = [o.get(n) for n, o in enumerate(objs)]
    for f in (go, later) if m == "get" else (go,):
        if order == "one":
            with handler({**intp, **cintp}):
                got = f()
        elif order == "class_outer":
            with handler(cintp), handler(intp):
                got = f()
        elif order == "class_inner":
            with handler(intp), handler(cintp):
                got = f()
        else:
            with handler(coproduct(intp, cintp)):
                got = f()
        for n, (o, r) in enumerate(zip(objs, got)):
            if n in chosen:
                c.eq(r, ("I", n, n), "handled instance")
            elif cls_handled:
                c.eq(r, ("C", n, n), "handled class")
            elif m == "get":
                c.check(isinstance(r, Term) and r.op is o.get and tuple(r.args) == (n,), "unhandled", r=r)
            else:
                c.eq(r, n + 1, "default")
    c.count("handled", len(chosen))
    # keyword arguments, also those a handler of the class forwards
    o = rng.choice(objs)
    kw = {n: rng.randrange(5) for n in ("k", "a", "z") if rng.random() < 0.6}
    fw = {n: rng.randrange(5) for n in ("k", "b") if rng.random() < 0.6}
    moved = rng.random() < 0.5
    with handler({Gen.kw: lambda self, x, **k: fwd(self, x + 1, **fw)} if moved else {}):
        t = o.kw(1, **kw)
    want = ((2,), {"k": 0, **fw}) if moved else ((1,), {"k": 0, **kw})
    c.check(isinstance(t, Term) and t.op is o.kw, "a deferred call with keyword arguments", t=t)
    c.eq((tuple(t.args), dict(t.kwargs)), want, "arguments of a deferred call")
    with handler({o.kw: lambda *a, **k: ("K", a, k)}):
        c.eq(evaluate(t), ("K", *want), "a deferred call with keyword arguments, evaluated")
    # an instance that holds an expression: its method stays an application to the instance
    y = Operation.define(int, name="y")
    b = Box(y())
    t = b.open(3)
    c.check(isinstance(t, Term), "a method of an open instance is deferred", t=t)
    with handler({y: lambda: 42, Box.open: lambda self, k: ("opened", self.content, k)}):
        c.eq(evaluate(t), ("opened", 42, 3), "a method of an open instance, evaluated")
    c.eq(Box(4).peek(), ("peek", 4), "method default")
    c.key((len(objs), chosen, cls_handled, m, order, cls.__name__))


SECTIONS = [
    Section("identity", identity, 300, 8000, 1),
    Section("hierarchy", hierarchy, 1200, 40000, 3),
    Section("deferred", deferred, 800, 25000, 2),
    Section("instances", instances, 300, 8000, 1),
]
