"""C13: printed expressions never confuse two operations."""
import collections
import dataclasses
import re

import prettyprinter
import torch

from harness.core import Section

from effectful.handlers.torch import bind_dims, sizesof
from effectful.ops.semantics import apply, evaluate, fvsof, handler
from effectful.ops.syntax import deffn, defop, syntactic_eq, trace
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random expressions over pools of operations with equal, suffixed and adversarial names (x, x!1, x!1!1, digits, "
    "unicode), nested in arguments, keyword arguments, containers, dataclasses and binders, are printed by str and the "
    "pretty printer; the text is tokenised and matched against the expression's own traversal, giving for every printed "
    "operation the name it got. The map of operations to names must be a bijection, be the same on a second print, under "
    "handlers, and for a second expression built the same way. Distinct by expression shape and names."
)
ASSUMPTIONS = [
    "Operations stored as plain data inside dataclasses and sets are shown by their own repr, and expressions in sets too.",
    "Names contain no spaces, brackets, quotes, commas, colons or equals signs.",
    "Values in an expression are shown by Python's own text, a string value without quotes.",
]
NEED = {"printed": 500, "named": 10000, "collisions": 300, "pretty": 250, "tensors": 80}

TOKEN = re.compile(r"""[^\s(),\[\]{}=:'"]+""")


@dataclasses.dataclass
class Rec:
    left: object
    right: object


NT = collections.namedtuple("NT", "p q")

POOLS = [
    ["x"], ["x", "y"], ["x", "x!1"], ["x", "x!1", "x!2", "x!1!1"], ["x!1", "x"], ["v0", "v1", "v10", "v"],
    ["f", "f!", "f!0", "f!1", "!1", "1"], ["λ", "λ!1", "ü"], ["a.b", "a", "a.b!1", "a!1.b"], ["x!01", "x!1", "x!001", "x"],
    ["__add__", "add", "__add__!1"],
]


class Gen:
    def __init__(self, rng, pretty=False):
        self.rng, self.pretty = rng, pretty
        names = rng.choice(POOLS)
        n = rng.choice([2, 3, 5, 8] + [30] * (rng.random() < 0.3))
        self.names = [rng.choice(names) for _ in range(n)]
        self.arity = [rng.choice(["var", "var", "fn"]) for _ in range(n)]
        self.budget = rng.choice([6, 12, 25, 60])

    def plan(self, d):
        rng = self.rng
        self.budget -= 1
        if d == 0 or self.budget <= 0:
            return ("op", rng.randrange(len(self.names)), [], {}) if rng.random() < 0.7 else ("lit", rng.choice([1, -2, 2.5, "s", "x", None, True]))
        r = rng.random()
        many = lambda: [self.plan(d - 1) for _ in range(rng.choice([1, 1, 2, 3]))]
        if r < 0.6:
            i = rng.randrange(len(self.names))
            kw = {k: self.plan(d - 1) for k in rng.sample(["k", "b", "a"], rng.choice([0, 0, 1, 2]))}
            return ("op", i, many(), kw)
        if r < 0.68:
            return ("list", many())
        if r < 0.76:
            return ("tuple", many() if rng.random() < 0.9 else [])
        if r < 0.82:
            return ("dict", {k: self.plan(d - 1) for k in rng.sample(["k1", "x", "m"], 2)})
        if r < 0.86:
            return ("rec", self.plan(d - 1), self.plan(d - 1))
        if r < 0.90:
            return ("ref", rng.randrange(len(self.names)))
        if r < 0.93:
            return ("opkey", rng.randrange(len(self.names)), self.plan(d - 1))
        if r < 0.97:
            return ("fn", rng.randrange(len(self.names)), self.plan(d - 1))
        return ("nt", self.plan(d - 1), self.plan(d - 1)) if not self.pretty else ("add", self.plan(d - 1), self.plan(d - 1))


def no_refs(p):
    """Expressions only, no operation as plain data (for dataclass fields)."""
    k = p[0]
    if k in ("ref", "opkey", "fn"):
        return ("lit", 7)
    if k == "op":
        return p
    if k in ("list", "tuple"):
        return (k, [no_refs(q) for q in p[1]])
    if k == "dict":
        return (k, {n: no_refs(q) for n, q in p[1].items()})
    if k == "nt":
        return ("tuple", [no_refs(p[1]), no_refs(p[2])])
    if k in ("rec", "add"):
        return (k, no_refs(p[1]), no_refs(p[2]))
    return p


class Build:
    def __init__(self, gen):
        self.gen = gen
        self.ops = []
        for name, ar in zip(gen.names, gen.arity):
            def f(*args: object, **kwargs: object) -> int:
                raise NotHandled
            self.ops.append(Operation.define(f, name=name))

    def make(self, p, where="top"):
        k = p[0]
        if k == "op":
            return self.ops[p[1]](*[self.make(q) for q in p[2]], **{n: self.make(q) for n, q in p[3].items()})
        if k == "lit":
            return p[1]
        if k == "list":
            return [self.make(q) for q in p[1]]
        if k == "tuple":
            return tuple(self.make(q) for q in p[1])
        if k == "dict":
            return {n: self.make(q) for n, q in p[1].items()}
        if k == "rec":
            return Rec(self.make(no_refs(p[1])), self.make(no_refs(p[2])))
        if k == "nt":
            return NT(self.make(p[1]), self.make(p[2]))
        if k == "ref":
            return self.ops[p[1]]
        if k == "opkey":
            return {self.ops[p[1]]: self.make(p[2])}
        if k == "fn":
            return deffn(self.make(p[2]), self.ops[p[1]])
        if k == "add":
            return self.ops[0](self.make(p[1])) + 1
        raise AssertionError(k)


def walk(v, out, qualified=False):
    """The tokens of an expression, operations as themselves."""
    if isinstance(v, Term):
        out.append(v.op)
        for a in v.args:
            walk(a, out, qualified)
        for n, a in v.kwargs.items():
            out.append(n)
            walk(a, out, qualified)
    elif isinstance(v, Operation):
        out.append(v)
    elif isinstance(v, Rec):
        out.append("Rec" if not qualified else f"{Rec.__module__}.Rec")
        for f in ("left", "right"):
            out.append(f)
            walk(getattr(v, f), out, qualified)
    elif isinstance(v, dict):
        for n, a in v.items():
            walk(n, out, qualified)
            walk(a, out, qualified)
    elif isinstance(v, (list, tuple)):
        for a in v:
            walk(a, out, qualified)
    else:
        out.extend(TOKEN.findall(str(v)))
    return out


def names_in(c, text, term, what):
    want = walk(term, [], what.startswith("pretty"))
    got = TOKEN.findall(text)
    if len(got) != len(want):
        c.fail(f"{what}: {text} has {len(got)} tokens, the expression {len(want)}: {want}")
    name_of, op_of = {}, {}
    for g, w in zip(got, want):
        if isinstance(w, Operation):
            c.count("named")
            c.check(g.startswith(w.__name__), f"{what}: operation {w.__name__} printed as {g} in {text}")
            if w in name_of:
                c.check(name_of[w] == g, f"{what}: operation {w.__name__} printed as {name_of[w]} and {g} in {text}")
            else:
                name_of[w] = g
            if g in op_of:
                c.check(op_of[g] is w, f"{what}: two operations named {w.__name__} and {op_of[g].__name__} are both printed {g} in {text}")
            op_of[g] = w
        else:
            c.check(g == w, f"{what}: {g} printed for {w} in {text}")
    names = [o.__name__ for o in name_of]
    if len(set(names)) < len(names):
        c.count("collisions")
    return name_of


def text(c):
    rng = c.rng
    gen = Gen(rng)
    p = ("op", 0, [gen.plan(rng.choice([1, 2, 3, 4])) for _ in range(rng.choice([1, 2, 4]))], {})
    if rng.random() < 0.3:
        p = ("op", 0, [("op", i, [], {}) for i in range(len(gen.names))] + [p], {})
    b1, b2 = Build(gen), Build(gen)
    t1, t2 = b1.make(p), b2.make(p)
    before = repr(t1)
    s1 = str(t1)
    c.info(s1)
    names_in(c, s1, t1, "str")
    c.count("printed")
    c.check(str(t2) == s1, f"two expressions built in the same way print differently: {s1} and {t2}")
    with handler({o: (lambda *a, **k: 3) for o in rng.sample(b1.ops, len(b1.ops) // 2)}), handler({apply: lambda op, *a, **k: "A"} if rng.random() < 0.3 else {}):
        c.check(str(t1) == s1 and f"{t1}" == s1 and "%s" % t1 == s1, "printed differently under handlers", s1=s1)
    c.check(str(t1) == s1, "a second print differs")
    c.check(repr(t1) == before, "printing changed the expression")
    c.check(fvsof(t1) >= {b1.ops[0]}, "printing changed the free variables")
    got = evaluate(t1, intp={o: (lambda *a, i=i, **k: ("E", i, a, tuple(sorted(k.items(), key=str)))) for i, o in enumerate(b1.ops)})
    got2 = evaluate(t2, intp={o: (lambda *a, i=i, **k: ("E", i, a, tuple(sorted(k.items(), key=str)))) for i, o in enumerate(b2.ops)})
    c.check(got[:2] == got2[:2], "evaluation after printing")
    # a subexpression printed on its own is consistent too
    for a in t1.args:
        if isinstance(a, Term):
            names_in(c, str(a), a, "str of a part")
    c.key((p, gen.names))
    c.sample(s1)


def pretty(c):
    rng = c.rng
    gen = Gen(rng, True)
    p = ("op", 0, [gen.plan(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2]))], {})
    b1, b2 = Build(gen), Build(gen)
    t1, t2 = b1.make(p), b2.make(p)
    width = rng.choice([10, 40, 79, 10000])
    s = prettyprinter.pformat(t1, width=width)
    c.info(s)
    names_in(c, s, t1, "pretty")
    c.check(prettyprinter.pformat(t2, width=width) == s, "two expressions built in the same way are pretty-printed differently")
    c.check(prettyprinter.pformat(t1, width=width) == s, "a second pretty print differs")
    c.count("pretty")
    c.key((p, gen.names, width))


def traced(c):
    """Functions: bound variables against free ones of the same name."""
    rng = c.rng
    names = rng.choice([["x"], ["x", "y"], ["x", "x!1"]])
    free = [Operation.define(int, name=rng.choice(names)) for _ in range(3)]

    def mk(d):
        r = rng.random()
        if d == 0 or r < 0.3:
            return rng.choice(scope)()
        if r < 0.6:
            return mk(d - 1) + mk(d - 1)
        v = Operation.define(int, name=rng.choice(names))
        scope.append(v)
        b = mk(d - 1)
        scope.pop()
        f = deffn(b, v)
        return hold(f, mk(d - 1))

    @Operation.define
    def hold(f: object, x: int) -> int:
        raise NotHandled

    scope = list(free)
    t = hold(mk(3), mk(3))
    names_in(c, str(t), t, "str of functions")
    names_in(c, prettyprinter.pformat(t), t, "pretty print of functions")
    c.count("printed")
    c.key(str(t))

    def f(x: int, y: int) -> int:
        return hold(x, free[0]() + y)

    u, u2 = trace(f), trace(f)
    names_in(c, str(u), u, "str of a traced function")
    c.check(str(u) == str(u2), "two traces of one function print differently")


def tensors(c):
    """Tensors with named dimensions of equal names."""
    rng = c.rng
    names = rng.choice([["i"], ["i", "i!1"], ["i", "j"], ["i!1", "i!1", "i"]])
    dims = [Operation.define(torch.Tensor, name=rng.choice(names)) for _ in range(rng.choice([2, 3]))]
    t = torch.arange(2.0 ** len(dims)).reshape([2] * len(dims))[tuple(d() for d in dims)]
    shown = {}
    for how, s in (("str", str(t)), ("repr", repr(t)), ("format", f"{t}")):
        m = re.search(r"\[([^\[\]]*)\]$", s)
        c.check(m is not None, f"{how} of a tensor with named dimensions: {s}")
        keys = [k.strip() for k in m.group(1).split(",")]
        c.check(len(keys) == len(dims) and len(set(keys)) == len(dims), f"{how} of a tensor with dimensions {dims}: {s}")
        for d, k in zip(dims, keys):
            c.check(k.startswith(d.__name__) and k.endswith("()"), f"{how}: {d} printed as {k}")
    c.check(set(sizesof(t)) == set(dims), "printing changed the dimensions")
    c.count("tensors")

    @Operation.define
    def g(*a: object) -> torch.Tensor:
        raise NotHandled

    u = g(dims[0](), t, dims[-1]())
    s = str(u)
    heads = re.findall(r"([^\s(),\[\]{}=:'\"]+)\(\)", s)
    want = [dims[0], *dims, dims[-1]]
    c.check(len(heads) == len(want), f"dimensions printed in {s}")
    back = {}
    for h, d in zip(heads, want):
        c.check(back.setdefault(h, d) is d and sum(1 for v in back.values() if v is d) == 1, f"two dimensions confused in {s}")
    c.key((names, [d.__name__ for d in dims]))


SECTIONS = [
    Section("text", text, 900, 40000, 4),
    Section("pretty", pretty, 500, 20000, 2),
    Section("traced", traced, 200, 8000, 1),
    Section("tensors", tensors, 150, 4000, 1),
]
