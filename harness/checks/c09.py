"""C09: structural equality is an equivalence that respects meaning."""
import collections
import dataclasses
import types

from harness import exprs as X
from harness.core import Section

from effectful.internals.runtime import interpreter
from effectful.ops.semantics import apply, evaluate
from effectful.ops.syntax import defdata, syntactic_eq
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random expressions, equal rebuilds of them (other sequence types, mapping types, orders of keys and keyword "
    "arguments) and single-point mutations at random depth are compared pairwise. Every comparison must agree with the "
    "checker's own canonical form, in both directions, return a bool, run no handler or default rule (all handlers "
    "raise), and change nothing; expressions that compare equal are evaluated under random interpretations and must "
    "give equal results. Distinct by pair of canonical forms; equal and unequal pairs are counted separately."
)
ASSUMPTIONS = [
    "Leaves are compared with ==, so that 1, 1.0 and True are the same leaf; NaN is not generated.",
    "Ordinary values whose == is not an equivalence or does not return a bool are not generated.",
    "Interpretations treat structurally equal arguments alike (not distinguishing lists from tuples, or 1 from True).",
]
NEED = {"equal": 2000, "unequal": 2000, "evaluated": 800, "mutated": 1500}


def canon(x):
    """Equal (==) for structurally equal expressions, and only for those."""
    if isinstance(x, Term):
        return ("term", id(x.op), tuple(map(canon, x.args)), {k: canon(v) for k, v in x.kwargs.items()})
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return ("dc", type(x), {f.name: canon(getattr(x, f.name)) for f in dataclasses.fields(x)})
    if isinstance(x, (str, bytes)):
        return ("leaf", x)
    if isinstance(x, collections.abc.Mapping):
        return ("map", {k: canon(v) for k, v in x.items()})
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ("nt", type(x), tuple(map(canon, x)))
    if isinstance(x, collections.abc.Sequence):
        return ("seq", tuple(map(canon, x)))
    return ("leaf", x)


def frozen(c):
    """A hashable name for a canonical form (for counting only)."""
    return repr(c)


class D1s(X.D1):
    pass


class Ran(Exception):
    pass


def make_ops(rng):
    specs, ops = [], []
    ran = []

    def on_default(spec, loc):
        ran.append(spec.idx)
        raise NotHandled

    for i in range(rng.choice([2, 3, 4])):
        s = X.gen_spec(rng, i, (object, object, object, int, float, bool))
        specs.append(s)
        ops.append(X.make_op(s, on_default))
        if rng.random() < 0.5:  # a twin with the same signature and name
            t = X.OpSpec(len(specs), s.shape, s.ret, s.default)
            t.twin = i
            specs.append(t)
            twin = X.make_op(t, on_default)
            twin.__name__ = ops[-1].__name__
            ops.append(twin)
    for i, s in enumerate(specs):
        s.idx = i
    return specs, ops, ran


def respell(x, rng):
    """A structurally equal copy: other sequence and mapping types, other orders."""
    r = lambda v: respell(v, rng)
    if isinstance(x, Term):
        kw = list(x.kwargs.items())
        rng.shuffle(kw)
        return rebuild(x.op, [r(a) for a in x.args], {k: r(v) for k, v in kw})
    if isinstance(x, (str, bytes, range, memoryview)):
        return x if not isinstance(x, range) or rng.random() < 0.5 else list(x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        y = object.__new__(type(x))
        for f in dataclasses.fields(x):
            object.__setattr__(y, f.name, r(getattr(x, f.name)))
        return y
    if isinstance(x, collections.abc.Mapping):
        items = [(k, r(v)) for k, v in x.items()]
        rng.shuffle(items)
        t = rng.choice([dict, collections.OrderedDict, lambda d: types.MappingProxyType(dict(d)), lambda d: collections.defaultdict(list, d), X.MyDict])
        return t(items)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*map(r, x))
    if isinstance(x, collections.abc.Sequence):
        t = rng.choice([list, tuple, list, tuple, X.MyList, X.UL, collections.deque])
        return t(map(r, x))
    if x is True and rng.random() < 0.3:
        return 1
    return x


def rebuild(op, args, kwargs):
    """The same application, without going through the operation."""
    return defdata(op, *args, **kwargs)


OTHER = ["zz", 99, None, b"q", (), ("a",), ["s"], {}, {"a": 1}, X.D1(1, 2), X.NT(1, 2), X.Opaque(), 2.25, [98, 121], "by", len, int]


def mutate(x, rng, ops):
    """A copy changed at one place; the canonical form decides whether it is still equal."""
    kids = []
    if isinstance(x, Term):
        kids = [("a", i) for i in range(len(x.args))] + [("k", k) for k in x.kwargs]
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        kids = [("f", f.name) for f in dataclasses.fields(x)]
    elif isinstance(x, (str, bytes, range)):
        kids = []
    elif isinstance(x, collections.abc.Mapping):
        kids = [("m", k) for k in x]
    elif isinstance(x, collections.abc.Sequence):
        kids = [("s", i) for i in range(len(x))]
    if kids and rng.random() < 0.6:
        how, k = rng.choice(kids)
        m = lambda v: mutate(v, rng, ops)
        if how == "a":
            return rebuild(x.op, [m(a) if i == k else a for i, a in enumerate(x.args)], dict(x.kwargs))
        if how == "k":
            return rebuild(x.op, x.args, {n: m(a) if n == k else a for n, a in x.kwargs.items()})
        if how == "f":
            y = object.__new__(type(x))
            for f in dataclasses.fields(x):
                v = getattr(x, f.name)
                object.__setattr__(y, f.name, m(v) if f.name == k else v)
            return y
        if how == "m":
            return {n: m(a) if n == k else a for n, a in x.items()}
        out = [m(a) if i == k else a for i, a in enumerate(x)]
        return type(x)(*out) if hasattr(x, "_fields") else tuple(out)
    if isinstance(x, Term):
        a, kw = list(x.args), dict(x.kwargs)
        try:
            w = rng.randrange(6)
            if w == 0:
                return rebuild(rng.choice(ops), a, kw)
            if w == 1 and len(a) > 1:
                i, j = rng.sample(range(len(a)), 2)
                a[i], a[j] = a[j], a[i]
                return rebuild(x.op, a, kw)
            if w == 2 and len(kw) > 1:
                i, j = rng.sample(list(kw), 2)
                kw[i], kw[j] = kw[j], kw[i]
                return rebuild(x.op, a, kw)
            if w == 3:
                return rebuild(x.op, [*a, rng.choice(OTHER)], kw)
            if w == 4 and kw and rng.random() < 0.5:  # another keyword
                k = rng.choice(list(kw))
                return rebuild(x.op, a, {(rng.choice(["x0", "x1", "x2", "b", "j"]) if n == k else n): v for n, v in kw.items()})
            if w == 4:
                return rebuild(x.op, a[:-1], kw)
            return rebuild(x.op, a, {**kw, "x9": 0} if rng.random() < 0.5 else dict(list(kw.items())[1:]))
        except TypeError:  # not arguments of this operation
            pass
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        w = rng.randrange(4)
        if w == 0:
            return type(x)([*x, rng.choice(OTHER)])
        if w == 1:
            return type(x)(list(x)[:-1])
        if w == 2 and len(x) > 1:
            return type(x)(list(x)[::-1])
        if w == 3 and all(isinstance(i, str) and len(i) == 1 for i in x):
            return "".join(x)
    if isinstance(x, X.NT):
        return rng.choice([tuple(x), X.TNT(*x), X.NT(x[1], x[0])])
    if isinstance(x, dict):
        w = rng.randrange(4)
        if w == 0:
            return {**x, "new": None}
        if w == 1:
            return dict(list(x.items())[1:])
        if w == 2 and len(x) > 1:
            ks = list(x)
            return dict(zip(ks, [x[k] for k in ks[1:] + ks[:1]]))
        if w == 3:
            return list(x.items())
    if isinstance(x, X.D1):
        return rng.choice([{"x": x.x, "y": x.y}, X.D2(x.x, x.y), X.D6(x.x, x.y), D1s(x.x, x.y), D1s(x.x, x.y), X.NT(x.x, x.y), X.D1(x.y, x.x)])
    if isinstance(x, (str, bytes)):
        return rng.choice([list(x), tuple(x), x + x, x[:-1], bytearray(x) if isinstance(x, bytes) else x.upper()])
    return rng.choice(OTHER)


def compare(c, a, b, want, hostile, ran):
    ran.clear()
    snap = X.describe(a), X.describe(b)
    with interpreter(hostile):
        got = syntactic_eq(a, b)
        back = syntactic_eq(b, a)
    c.check(type(got) is bool and type(back) is bool, "not a bool", a=a, b=b, got=got, back=back)
    c.check(got == want, "structural equality", a=snap[0], b=snap[1], got=got, want=want)
    c.check(back == want, "structural equality the other way round", a=snap[1], b=snap[0], got=back, want=want)
    c.check(not ran, "a default rule ran during a comparison")
    c.check((X.describe(a), X.describe(b)) == snap, "a comparison changed an expression")
    # the == of expressions that have no == of their own
    for p, q in ((a, b), (b, a)):
        if "_BaseTerm" == type(p).__name__ and (type(q) is type(p) or not isinstance(q, Term)):
            with interpreter(hostile):
                c.check((p == q) is want and (p != q) is (not want), "== and != on expressions", p=snap[0], q=snap[1], want=want)
    c.count("equal" if want else "unequal")


def hostile_intp(ops, rng):
    def boom(*a, **k):
        raise Ran("a handler ran during a comparison")

    base = {o: boom for o in ops}
    if rng.random() < 0.7:
        base[apply] = boom
    cls = type(defdata(Operation.define(int)))
    for n in ("__eq__", "__lt__", "__hash__", "__ne__", "__add__"):
        for k in cls.__mro__:
            if isinstance(k.__dict__.get(n), Operation):
                base[k.__dict__[n]] = boom
    return base


def programs(c):
    rng = c.rng
    specs, ops, ran = make_ops(rng)
    gen = X.PlanGen(rng, specs, fuel=rng.choice([4, 8, 15, 30]), opref=rng.random() < 0.3)
    plan = gen.plan(depth=rng.choice([1, 2, 3, 4]))
    term = X.Builder(ops).run(plan)
    pool = [term, X.Builder(ops).run(plan), respell(term, rng)]
    for _ in range(rng.choice([2, 3])):
        m = mutate(rng.choice(pool), rng, ops)
        c.count("mutated")
        pool.append(m)
        if rng.random() < 0.4:
            pool.append(respell(m, rng))
    if rng.random() < 0.3:
        pool.append(X.Builder(ops).run(gen.plan(depth=2)))
    forms = [canon(p) for p in pool]
    hostile = hostile_intp(ops, rng)
    for i, a in enumerate(pool):
        for j, b in enumerate(pool):
            if j < i:
                continue
            compare(c, a, b, forms[i] == forms[j], hostile, ran)
            if i != j:
                c.key((frozen(forms[i]), frozen(forms[j])))
    # equal expressions mean the same
    values = []

    def value(i, loc):
        key = (i, canon(loc))
        for k, v in values:
            if k == key:
                return v
        ret = specs[i].ret
        n = len(values)
        values.append((key, ret(n % 2) if ret is bool else ret(n) if ret in (int, float) else [n, ("r", i)] if n % 3 else None))
        return values[-1][1]

    intp = {o: s.fn(lambda loc, i=i: value(i, [v for _, v in loc])) for i, (o, s) in enumerate(zip(ops, specs)) if rng.random() < 0.8}
    for i in range(len(pool)):
        for j in range(i):
            if forms[i] == forms[j] and same_leaves(pool[i], pool[j]):
                a, b = evaluate(pool[i], intp=intp), evaluate(pool[j], intp=intp)
                c.check(canon(a) == canon(b), "equal expressions evaluate differently", a=a, b=b)
                c.check(syntactic_eq(a, b), "values of equal expressions compare unequal", a=a, b=b)
                c.count("evaluated")


def same_leaves(a, b):
    """Whether neither holds types that evaluation treats in another way than their look-alikes (deques are values)."""
    return "deque" not in repr(X.describe(a)) + repr(X.describe(b))


def deep(c):
    """A difference at the bottom of a deep expression."""
    rng = c.rng
    f, g = Operation.define(lambda a, b=0, *, k=1: None, name="f"), Operation.define(lambda a, b=0, *, k=1: None, name="f")
    d = rng.choice([4, 10, 20])
    path = [rng.choice(["a", "b", "k", "list", "dict", "nt", "dc", "tuple2"]) for _ in range(d)]

    def build(leaf, op=f):
        x = leaf
        for p in path:
            x = {"a": lambda: defdata(op, x), "b": lambda: defdata(op, 1, x), "k": lambda: defdata(op, 1, k=x), "list": lambda: [0, x],
                 "dict": lambda: {"q": x}, "nt": lambda: X.NT(1, x), "dc": lambda: X.D1(x, 2), "tuple2": lambda: (x, x) if d < 10 else (x, 1)}[p]()
        return x

    y = Operation.define(int, name="y")
    leaf = rng.choice([0, "s", y(), X.D2(1), (1, 2)])
    other = rng.choice([5, "t", Operation.define(int, name="y")(), X.D2(2), (1, 3), ()])
    hostile = hostile_intp([f, g, y], rng)
    compare(c, build(leaf), build(leaf), True, hostile, [])
    compare(c, build(leaf), build(other), False, hostile, [])
    if any(p in "abk" for p in path):
        compare(c, build(leaf), build(leaf, g), False, hostile, [])
    c.key((tuple(path), repr(leaf), repr(other)))


def numbers(c):
    """Comparing numeric expressions is not an operation; their == is structural too when not handled."""
    rng = c.rng
    tys = [int, float, bool, complex]
    ops = [Operation.define(rng.choice(tys), name=rng.choice("xy")) for _ in range(3)]

    def go(d):
        if d == 0 or rng.random() < 0.2:
            return rng.choice(ops)() if rng.random() < 0.7 else rng.choice([1, 2, 0.5])
        a, b = go(d - 1), go(d - 1)
        return rng.choice([lambda: a + b, lambda: a * b, lambda: -a, lambda: a - b, lambda: abs(a)])()

    pool = [go(rng.choice([1, 2, 3])) for _ in range(4)] + [1, None, "x()", 2.5, [1], len, b"", int, ops[0], X.Color.RED, Ellipsis]
    pool.append(respell(pool[0], rng))
    forms = [canon(p) for p in pool]
    hostile = hostile_intp(ops, rng)
    for i, a in enumerate(pool):
        for j, b in enumerate(pool[: i + 1]):
            compare(c, a, b, forms[i] == forms[j], hostile, [])
            if isinstance(a, Term) and isinstance(b, Term):
                c.check((a == b) is (forms[i] == forms[j]), "unhandled == of numeric expressions", a=a, b=b)
    c.key(tuple(map(frozen, forms[:4])))


def free1(a):
    raise NotHandled


def arrays(c):
    """Expressions over arrays with named dimensions."""
    import jax
    import jax.numpy as jnp
    import torch

    import effectful.handlers.jax
    import effectful.handlers.torch  # noqa: F401

    rng = c.rng
    is_torch = rng.random() < 0.6
    T = torch.Tensor if is_torch else jax.Array
    mk = (lambda v: torch.tensor(v)) if is_torch else (lambda v: jnp.array(v))
    names = [Operation.define(T, name=n) for n in "ii"]
    f = Operation.define(free1, name="f")
    data = rng.sample([[[1.0, 2.0], [3.0, 4.0]], [[1.0, 2.0], [3.0, 5.0]], [[1.0, 2.0]], [[1.0, 1.0], [1.0, 1.0]], [[1.0, 1.0]], [[1.0], [1.0]], [[1.0]], [[2.0]]], 3)
    base = [mk(d) for d in data]
    pool, forms = [], []

    def add(v, form):
        pool.append(v)
        forms.append(form)

    if is_torch:
        get = effectful.handlers.torch.torch_getitem
    else:
        get = effectful.handlers.jax.jax_getitem
    for _ in range(6):
        k = rng.randrange(3)
        w = rng.randrange(6)
        if w == 0:
            add(mk(data[k]), ("arr", data[k]))
        elif w in (1, 2):
            n = rng.randrange(2)
            add(get(mk(data[k]), (names[n](), slice(None))), ("t", n, "all", data[k]))
        elif w == 3:
            n, m = rng.sample([0, 1], 2)
            add(get(mk(data[k]), (names[n](), names[m]())), ("t", n, m, data[k]))
        elif w == 4:
            n = rng.randrange(2)
            add(f([get(mk(data[k]), (names[n](), slice(None))), 1]), ("f", n, data[k]))
        else:
            v = rng.choice([1, 1.0, None, "a", [1.0, 2.0], ()])
            add(v, ("leaf", repr(canon(v))) if v != 1 else ("leaf", "1"))
    hostile = hostile_intp([*names, f, get], rng)
    for i, a in enumerate(pool):
        for j, b in enumerate(pool[: i + 1]):
            with interpreter(hostile):
                got, back = syntactic_eq(a, b), syntactic_eq(b, a)
            want = forms[i] == forms[j]
            c.check(got is want and back is want, "array expressions", a=forms[i], b=forms[j], got=got, back=back)
            c.count("equal" if want else "unequal")
    c.key(repr(forms))


SECTIONS = [
    Section("programs", programs, 1200, 30000, 4),
    Section("deep", deep, 200, 5000, 1),
    Section("numbers", numbers, 200, 5000, 1),
    Section("arrays", arrays, 200, 4000, 1),
]
