"""Random expressions: plans that can be built deferred or performed directly.

A plan is a small tree.  Building it without handlers gives a deferred
expression; building it under an interpretation performs the calls directly, in
the order in which Python evaluates arguments.
"""
from __future__ import annotations

import collections
import dataclasses
import enum
import inspect
import math
import types
import typing

from effectful.ops.types import NotHandled, Operation, Term

NT = collections.namedtuple("NT", "a b")
NT1 = collections.namedtuple("NT1", "only")


class TNT(typing.NamedTuple):
    p: object
    q: object = 3


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MyOD(collections.OrderedDict):
    pass


class UL(collections.UserList):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = (1, 2)


class Num(enum.IntEnum):
    ONE = 1


class Opaque:
    """Compared by identity; must come back as the very same object."""


@dataclasses.dataclass
class D1:
    x: object
    y: object


@dataclasses.dataclass(frozen=True)
class D2:
    x: object
    y: object = 7


@dataclasses.dataclass(kw_only=True)
class D3:
    u: object
    v: object = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class D4:
    x: object
    pair: object = dataclasses.field(init=False)

    def __post_init__(self):
        self.pair = (self.x, "d")


@dataclasses.dataclass(slots=True)
class D5:
    x: object


@dataclasses.dataclass
class D6(D1):
    z: object = None


DCS = [D1, D2, D3, D4, D5, D6]
OPAQUE = Opaque()


def is_nt(x):
    return isinstance(x, tuple) and hasattr(x, "_fields")


def describe(x, names=None, _depth=0):
    """A value that is equal for structurally identical objects of the same types."""
    if isinstance(x, Term):
        return (
            "term", describe_op(x.op, names), tuple(describe(a, names) for a in x.args),
            tuple(sorted((k, describe(v, names)) for k, v in x.kwargs.items())),
        )
    if isinstance(x, Operation):
        return describe_op(x, names)
    if isinstance(x, bool) or x is None:
        return ("leaf", type(x).__name__, repr(x))
    if isinstance(x, (int, float, complex, str, bytes, range)):
        return ("leaf", type(x).__name__, repr(x))
    if isinstance(x, memoryview):
        return ("leaf", "memoryview", bytes(x))
    if isinstance(x, type):
        return ("class", x.__module__, x.__qualname__)
    if dataclasses.is_dataclass(x):
        return ("dc", type(x).__qualname__, tuple((f.name, describe(getattr(x, f.name), names)) for f in dataclasses.fields(x)))
    if isinstance(x, (dict, types.MappingProxyType, collections.ChainMap, collections.UserDict)):
        extra = (repr(x.default_factory),) if isinstance(x, collections.defaultdict) else ()
        return ("map", type(x).__qualname__, extra, tuple((describe(k, names), describe(v, names)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", type(x).__qualname__, tuple(sorted(map(repr, (describe(i, names) for i in x)))))
    if isinstance(x, (list, tuple, collections.UserList)):
        return ("seq", type(x).__qualname__, tuple(describe(i, names) for i in x))
    return ("obj", type(x).__qualname__, id(x))


def describe_op(op, names):
    if names is not None and op in names:
        return ("op", names[op])
    return ("op", id(op))


# ------------------------------------------------------------ operations
SHAPES = ["", "a", "a, b", "a, b=5", "a, *rest", "*rest", "a, *, k", "a, *, k=9", "a, *, j=1, k", "a, *, z, d=4, k", "a, b=2, /, c=3",
          "**kw", "a, **kw", "a, b=1, *rest, k=2, **kw", "*, k", "a, b, c"]


class OpSpec:
    def __init__(self, idx, shape, ret, default):
        self.idx, self.shape, self.ret, self.default = idx, shape, ret, default
        ns = {}
        exec(f"def sig({shape}): pass", ns)
        self.sig = inspect.signature(ns["sig"])

    def fn(self, body, anno=False):
        """A real function with this spec's parameters that calls body(locals)."""
        params = []
        for p in self.sig.parameters.values():
            params.append(p)
        src = f"def op{self.idx}({self.shape}):\n    return BODY(locals())\n"
        ns = {"BODY": lambda loc: body(self.norm_locals(loc))}
        exec(src, ns)
        f = ns[f"op{self.idx}"]
        if anno:
            f.__annotations__ = {n: object for n in self.sig.parameters} | {"return": self.ret}
        return f

    def norm_locals(self, loc):
        return tuple((n, loc[n]) for n in self.sig.parameters)

    def norm_call(self, args, kwargs):
        b = self.sig.bind(*args, **kwargs)
        b.apply_defaults()
        return tuple(b.arguments.items())


def gen_spec(rng, idx, rets=(object,), p_default=0.3):
    return OpSpec(idx, rng.choice(SHAPES), rng.choice(rets), rng.random() < p_default)


def make_op(spec, on_default):
    """on_default(spec, locals) implements a default rule or raises NotHandled."""
    return Operation.define(spec.fn(lambda loc: on_default(spec, loc), anno=True))


# ------------------------------------------------------------------ plans
LEAVES = [0, 1, -3, 2.5, "s", b"by", None, True, 3 + 2j, range(3), Color.RED, Num.ONE, int, OPAQUE, len, ..., frozenset({1, 2}), "", float("inf")]
CONTAINERS = ["tuple", "list", "dict", "nt", "tnt", "od", "dd", "counter", "mp", "dc", "mylist", "mytuple", "mydict", "myod", "ul", "nt1", "cm"]


def gen_args(rng, spec, sub):
    """Arguments for a call, keyword arguments in signature order."""
    args, kwargs = [], {}
    by_kw = False
    for p in spec.sig.parameters.values():
        if p.kind is p.VAR_POSITIONAL:
            if not by_kw:
                args += [sub() for _ in range(rng.choice([0, 1, 2]))]
        elif p.kind is p.VAR_KEYWORD:
            for i in rng.sample(range(3), rng.choice([0, 1, 2])):
                kwargs[f"x{i}"] = sub()
        else:
            if p.default is not p.empty and rng.random() < 0.5:
                by_kw = True
                continue
            if p.kind is p.KEYWORD_ONLY:
                kwargs[p.name] = sub()
            elif p.kind is p.POSITIONAL_OR_KEYWORD and (by_kw or rng.random() < 0.2):
                by_kw = True
                kwargs[p.name] = sub()
            elif not by_kw:
                args.append(sub())
            # positional-only after a gap: leave its default
    return args, kwargs


class PlanGen:
    def __init__(self, rng, specs, fuel=20, opref=False, share=True, containers=CONTAINERS, arith=False):
        self.rng, self.specs, self.fuel = rng, specs, fuel
        self.opref, self.share, self.containers, self.arith = opref, share, containers, arith
        self.shared = 0

    def plan(self, depth=4):
        rng = self.rng
        self.fuel -= 1
        r = rng.random()
        if depth <= 0 or self.fuel <= 0 or r < 0.12:
            if self.opref and rng.random() < 0.25:
                return ("opref", rng.randrange(len(self.specs)))
            return ("leaf", rng.choice(LEAVES))
        if self.share and self.shared and r < 0.2:
            return ("share", rng.randrange(self.shared))
        if self.arith and r < 0.3:
            return ("bin", rng.choice(["add", "mul", "sub"]), self.num(depth - 1), self.num(depth - 1))
        if r < 0.66:
            p = self.call(depth)
            if self.share and rng.random() < 0.2:
                p = ("def", self.shared, p)
                self.shared += 1
            return p
        return self.container(depth)

    def num(self, depth):
        ints = [i for i, s in enumerate(self.specs) if s.ret is int]
        if not ints or depth <= 0 or self.rng.random() < 0.2:
            return ("leaf", self.rng.randrange(-3, 9))
        return self.call(depth, self.rng.choice(ints))

    def call(self, depth, i=None):
        if i is None:
            i = self.rng.randrange(len(self.specs))
        args, kwargs = gen_args(self.rng, self.specs[i], lambda: self.plan(depth - 1))
        return ("call", i, tuple(args), kwargs)

    def container(self, depth):
        rng = self.rng
        k = rng.choice(self.containers)
        n = rng.choice([0, 1, 1, 2, 2, 3])
        sub = lambda: self.plan(depth - 1)
        if k in ("tuple", "list", "mylist", "mytuple", "ul"):
            return (k, [sub() for _ in range(n)])
        if k in ("nt", "tnt"):
            return (k, [sub(), sub()])
        if k == "nt1":
            return (k, [sub()])
        if k in ("dict", "od", "dd", "counter", "mp", "mydict", "myod", "cm"):
            keys = rng.sample(["a", "b", 0, 1.5, ("t", 1), None, Color.RED], n)
            return (k, [(key, sub()) for key in keys], rng.choice([list, int, None]))
        cls = rng.choice(DCS)
        names = [f.name for f in dataclasses.fields(cls) if f.init]
        return ("dc", cls, [(m, sub()) for m in names])


CTOR = dict(tuple=tuple, list=list, mylist=MyList, mytuple=MyTuple, ul=UL)
MAPS = dict(dict=dict, od=collections.OrderedDict, counter=collections.Counter, mp=types.MappingProxyType, mydict=MyDict,
            myod=MyOD, cm=collections.ChainMap)


class Builder:
    """Performs a plan: calls happen in Python's evaluation order."""

    def __init__(self, ops):
        self.ops = ops
        self.shared = {}

    def run(self, p):
        k = p[0]
        if k == "leaf":
            return p[1]
        if k == "opref":
            return self.ops[p[1]]
        if k == "call":
            args = [self.run(a) for a in p[2]]
            kw = {n: self.run(a) for n, a in p[3].items()}
            return self.ops[p[1]](*args, **kw)
        if k == "def":
            v = self.run(p[2])
            self.shared[p[1]] = v
            return v
        if k == "share":
            return self.shared.get(p[1], ("unbuilt", p[1]))
        if k == "bin":
            a, b = self.run(p[2]), self.run(p[3])
            return a + b if p[1] == "add" else a * b if p[1] == "mul" else a - b
        if k in CTOR:
            return CTOR[k]([self.run(a) for a in p[1]])
        if k == "nt":
            return NT(*[self.run(a) for a in p[1]])
        if k == "tnt":
            return TNT(*[self.run(a) for a in p[1]])
        if k == "nt1":
            return NT1(*[self.run(a) for a in p[1]])
        if k in MAPS:
            return MAPS[k]({n: self.run(a) for n, a in p[1]})
        if k == "dd":
            return collections.defaultdict(p[2], {n: self.run(a) for n, a in p[1]})
        if k == "dc":
            return p[1](**{n: self.run(a) for n, a in p[2]})
        raise AssertionError(k)


def expand(plan):
    """Replace shares by copies of what they refer to (lexically earlier definitions)."""
    done = {}

    def go(p):
        k = p[0]
        if k in ("leaf", "opref"):
            return p
        if k == "call":
            args = tuple(go(a) for a in p[2])
            return ("call", p[1], args, {n: go(a) for n, a in p[3].items()})
        if k == "def":
            q = go(p[2])
            done[p[1]] = q
            return ("def", p[1], q)
        if k == "share":
            return done.get(p[1], ("leaf", ("unbuilt", p[1])))
        if k == "bin":
            a = go(p[2])
            return ("bin", p[1], a, go(p[3]))
        if k == "dc":
            return (k, p[1], [(n, go(a)) for n, a in p[2]])
        if k in MAPS or k == "dd":
            return (k, [(n, go(a)) for n, a in p[1]], p[2])
        return (k, [go(a) for a in p[1]])

    return go(plan)


def calls_in(p):
    k = p[0]
    if k in ("leaf", "opref", "share"):
        return 0
    if k == "call":
        return 1 + sum(map(calls_in, p[2])) + sum(map(calls_in, p[3].values()))
    if k == "def":
        return calls_in(p[2])
    if k == "bin":
        return calls_in(p[2]) + calls_in(p[3])
    if k == "dc":
        return sum(calls_in(a) for _, a in p[2])
    if k in MAPS or k == "dd":
        return sum(calls_in(a) for _, a in p[1])
    return sum(map(calls_in, p[1]))
