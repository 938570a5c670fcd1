"""C08: unification of type patterns with types."""
import collections
import collections.abc as abc
import inspect
import types
import typing

from harness.core import Section

from effectful.internals.unification import (
    canonicalize, freetypevars, substitute, unify,
)
from effectful.ops.types import Operation

RULE = (
    "Random type patterns over builtin, abstract, user-defined generic, inherited generic, callable (with parameter "
    "specifications), union, literal, annotated, alias and TypedDict constructors, in random spellings. Unifying a pattern "
    "with its own random ground instance must succeed and give back the instance; unifying unrelated pairs must either "
    "raise TypeError or give a substitution under which the checker's own covariant subtype relation accepts the type, "
    "and must raise when that relation rules every substitution out; the outcome must not depend on names of variables "
    "or on spelling; earlier bindings are kept and never modified; substitution and free variables equal the checker's "
    "own. Signatures with bound arguments agree with the parameter types one by one. Distinct by pattern and type."
)
ASSUMPTIONS = [
    "Unions in patterns have no alternative that is a bare variable, and at most one alternative with variables "
    "(more are ambiguous, and rejected by the library).",
    "Type arguments are covariant, also in parameter lists; bare generic classes stand for any arguments.",
]
NEED = {"instances": 1000, "accepted": 400, "rejected": 500, "typeddicts": 200}

NAMES = ["A", "B", "C"]


class Cl:
    pass


class Cl2(Cl):
    pass


class G1[X]:
    pass


class G2[X, Y]:
    pass


class H1[X](G1[list[X]]):
    pass


class H2[X, Y](G2[Y, tuple[X, Y]]):
    pass


class H3[X, Y](G1[X]):
    pass


class K1(G1[int]):
    pass


class Mp1[X](typing.Mapping[str, X]):
    def __getitem__(self, k): ...
    def __len__(self): ...
    def __iter__(self): ...


TT = typing.TypeVar("TT")
UU = typing.TypeVar("UU")


class Old(typing.Generic[TT, UU]):
    pass


class OldSub(Old[UU, list[TT]], typing.Generic[TT, UU]):
    pass


NInt = typing.NewType("NInt", int)
type AliasL = list[int]

LEAVES = {"int": int, "str": str, "float": float, "bool": bool, "Cl": Cl, "Cl2": Cl2, "bytes": bytes, "complex": complex}
# alternatives: name, number of arguments (None: any)
CON = {
    "list": 1, "set": 1, "frozenset": 1, "dict": 2, "tuple": None, "vtuple": 1, "seq": 1, "iter": 1, "coll": 1, "map": 2,
    "iterator": 1, "gen": 3, "fn": None, "fnany": 1, "G1": 1, "G2": 2, "H1": 1, "H2": 2, "H3": 2, "Mp1": 1, "Old": 2,
    "OldSub": 2, "type": 1, "op": None, "mseq": 1, "mmap": 2,
}


def gen(rng, d, leaf, union=True, has_var=lambda t: bool(vars_of(t))):
    r = rng.random()
    if d == 0 or r < 0.3:
        return leaf()
    if union and r < 0.4:
        arms, n = [], rng.choice([2, 2, 3])
        pool = rng.sample(["int", "str", "bytes", "Cl", "list", "dict", "G1", "set"], n)
        used = False
        for k in pool:
            if k in LEAVES:
                arms.append((k,))
            else:
                sub = gen(rng, d - 1, (lambda: (rng.choice(["int", "str"]),)) if used else leaf, False)
                t = (k, sub) if CON[k] == 1 else (k, ("str",), sub)
                used = used or has_var(t)
                arms.append(t)
        return ("union", *arms)
    k = rng.choice(list(CON))
    n = CON[k]
    if n is None:
        n = rng.choice([1, 2, 3])
    return (k, *[gen(rng, d - 1, leaf, union) for _ in range(n)])


def ground_leaf(rng):
    def leaf():
        if rng.random() < 0.08:
            return rng.choice([("K1",), ("range",), ("lit", (1,)), ("lit", ("a",)), ("ann", ("int",)), ("new",), ("alias",), ("lit", (1, "b")), ("any",),
                               ("bare", "list"), ("bare", "dict"), ("bare", "G1"), ("bare", "tuple"), ("bare", "iter")])
        return (rng.choice(list(LEAVES)),)
    return leaf


def pattern_leaf(rng):
    g = ground_leaf(rng)

    def leaf():
        return ("v", rng.choice(NAMES)) if rng.random() < 0.65 else g()
    return leaf


def vars_of(t):
    if t[0] == "v":
        return {t[1]}
    if t[0] in ("lit", "bare"):
        return set()
    return set().union(*[vars_of(x) for x in t[1:]], set())


def subst(t, s):
    if t[0] == "v":
        return s.get(t[1], t)
    if t[0] in ("lit", "bare"):
        return t
    if t[0] == "union":
        return ("union", *[subst(x, s) for x in t[1:]])
    return (t[0], *[subst(x, s) for x in t[1:]])


def spell(t, tv, rng):
    """The annotation for a type, in a random spelling."""
    k = t[0]
    alt = rng.random() < 0.4
    if k == "v":
        return tv[t[1]]
    if k in LEAVES:
        if rng.random() < 0.05:
            return typing.Annotated[LEAVES[k], "x"]
        return LEAVES[k]
    if k == "lit":
        return typing.Literal[t[1]]
    if k == "ann":
        return typing.Annotated[spell(t[1], tv, rng), "note"]
    if k == "new":
        return NInt
    if k == "alias":
        return AliasL
    if k == "any":
        return typing.Any
    if k == "K1":
        return K1
    if k == "range":
        return range
    if k == "bare":
        return {"list": list, "dict": dict, "G1": G1, "tuple": tuple, "iter": abc.Iterable}[t[1]]
    a = [spell(x, tv, rng) for x in t[1:]]
    if k == "union":
        r = a[0]
        if alt:
            return typing.Union[tuple(a)]
        for x in a[1:]:
            r = r | x
        return r
    if k == "tuple":
        return typing.Tuple[tuple(a)] if alt else tuple[tuple(a)]
    if k == "vtuple":
        return typing.Tuple[a[0], ...] if alt else tuple[a[0], ...]
    if k == "fn":
        return (typing.Callable if alt else abc.Callable)[a[:-1], a[-1]]
    if k == "fnany":
        return (typing.Callable if alt else abc.Callable)[..., a[0]]
    if k == "op":
        return Operation[a[:-1], a[-1]]
    new, old = {
        "list": (list, typing.List), "set": (set, typing.Set), "frozenset": (frozenset, typing.FrozenSet),
        "dict": (dict, typing.Dict), "seq": (abc.Sequence, typing.Sequence), "iter": (abc.Iterable, typing.Iterable),
        "coll": (abc.Collection, typing.Collection), "map": (abc.Mapping, typing.Mapping),
        "iterator": (abc.Iterator, typing.Iterator), "gen": (abc.Generator, typing.Generator), "type": (type, typing.Type),
        "mseq": (abc.MutableSequence, typing.MutableSequence), "mmap": (abc.MutableMapping, typing.MutableMapping),
        "G1": (G1, G1), "G2": (G2, G2), "H1": (H1, H1), "H2": (H2, H2), "H3": (H3, H3), "Mp1": (Mp1, Mp1), "Old": (Old, Old),
        "OldSub": (OldSub, OldSub),
    }[k]
    return (old if alt else new)[tuple(a)]


# ------------------------------------------------ the checker's own relation
def norm(t):
    """Canonical form: bases instead of user subclasses, abstract classes instead of builtin containers."""
    k = t[0]
    if k in ("v", "any", "bare"):
        return ("bare", {"list": "mseq", "dict": "mmap"}.get(t[1], t[1])) if k == "bare" else t
    if k == "lit":
        ts = []
        for x in t[1]:
            n = (type(x).__name__,)
            if n not in ts:
                ts.append(n)
        return ts[0] if len(ts) == 1 else ("union", *ts)
    if k == "ann":
        return norm(t[1])
    if k == "new":
        return ("int",)
    if k == "alias":
        return ("mseq", ("int",))
    if k == "K1":
        return ("G1", ("int",))
    if k == "range":
        return ("seq", ("int",))
    a = [norm(x) for x in t[1:]]
    if k == "Cl2":
        return ("Cl",)  # a class without parameters counts as its base
    if k == "H1":
        return ("G1", ("mseq", a[0]))
    if k == "H2":
        return ("G2", a[1], ("tuple", a[0], a[1]))
    if k == "H3":
        return ("G1", a[0])
    if k == "Mp1":
        return ("map", ("str",), a[0])
    if k == "OldSub":
        return ("Old", a[1], ("mseq", a[0]))
    if k == "union":
        arms = []
        for x in a:
            for y in x[1:] if x[0] == "union" else [x]:
                if y not in arms:
                    arms.append(y)
        if ("any",) in arms and len(arms) == 1:
            return ("any",)
        return arms[0] if len(arms) == 1 else ("union", *sorted(arms, key=repr))
    k = {"list": "mseq", "dict": "mmap", "vtuple": "seq"}.get(k, k)
    return (k, *a)


SUPER = {  # direct supertypes of constructors, with their arguments
    "mseq": lambda a: [("seq", a[0])], "seq": lambda a: [("coll", a[0])], "set": lambda a: [("frozenset", a[0])],
    "frozenset": lambda a: [("coll", a[0])], "mmap": lambda a: [("map", *a)], "map": lambda a: [("coll", a[0])],
    "coll": lambda a: [("iter", a[0])], "iterator": lambda a: [("iter", a[0])], "gen": lambda a: [("iterator", a[0])],
}
BARE_SUPER = {"tuple": ["seq", "coll", "iter"], "mseq": ["seq", "coll", "iter"], "mmap": ["map", "coll", "iter"], "iter": [],
              "G1": [], "str": ["seq", "coll", "iter"], "bytes": ["seq", "coll", "iter"]}


def accepts(p, t):
    """Does the pattern, its variables standing for anything, accept the type?  Both normalised."""
    if p[0] in ("v", "any") or t[0] in ("any", "v"):
        return True
    if t[0] == "union":
        return all(accepts(p, x) for x in t[1:])
    if p[0] == "union":
        return any(accepts(x, t) for x in p[1:])
    if p[0] == "object":
        return True
    if p == t:
        return True
    if len(t) == 1 and t[0] != "bare":
        if len(p) == 1:
            return issubclass(LEAVES[t[0]], LEAVES[p[0]])
        return p[0] in BARE_SUPER.get(t[0], []) or p[0] == "bare" and p[1] in BARE_SUPER.get(t[0], [])
    if p[0] == "bare":
        k = t[1] if t[0] == "bare" else t[0]
        ups = {k, *supers(k)}
        return p[1] in ups
    if len(p) == 1:
        return False
    if t[0] == "bare":
        return p[0] in {t[1], *BARE_SUPER[t[1]]}
    if p[0] == "fnany":
        return t[0] in ("fn", "fnany", "op") and accepts(p[1], t[-1])
    if p[0] == "fn":
        if t[0] == "fnany":
            return accepts(p[-1], t[1])
        return t[0] in ("fn", "op") and len(p) == len(t) and all(map(accepts, p[1:], t[1:]))
    if t[0] == "tuple" and p[0] != "tuple":
        return p[0] in ("seq", "coll", "iter") and all(accepts(p[1], x) for x in t[1:])
    if p[0] == t[0]:
        return len(p) == len(t) and all(map(accepts, p[1:], t[1:]))
    return any(accepts(p, u) for u in SUPER.get(t[0], lambda a: [])(t[1:]))


def supers(k):
    if k == "tuple":
        return {"seq", "coll", "iter"}
    out = set()
    for u in SUPER.get(k, lambda a: [])((("int",),) * 3):
        out |= {u[0]} | supers(u[0])
    return out


def parse(tp, back):
    """A canonical annotation as a normalised type."""
    if tp in back:
        return ("v", back[tp])
    if isinstance(tp, typing.TypeVar):
        return ("any",)
    if tp is typing.Any or tp is Ellipsis:
        return ("any",)
    o, a = typing.get_origin(tp), typing.get_args(tp)
    if o is None:
        for k, c in LEAVES.items():
            if tp is c:
                return (k,)
        bare = {abc.MutableSequence: "mseq", abc.MutableMapping: "mmap", G1: "G1", tuple: "tuple", abc.Iterable: "iter"}
        if tp in bare:
            return ("bare", bare[tp])
        raise AssertionError(f"unexpected type {tp!r} in a substitution")
    if o in (typing.Union, types.UnionType):
        return norm(("union", *[parse(x, back) for x in a]))
    if o is abc.Callable:
        if a[0] is Ellipsis:
            return ("fnany", parse(a[1], back))
        return ("fn", *[parse(x, back) for x in a[0]], parse(a[1], back))
    if o is Operation:
        return ("op", *[parse(x, back) for x in a[0]], parse(a[1], back))
    if o is tuple:
        return ("tuple", *[parse(x, back) for x in a])
    k = {abc.MutableSequence: "mseq", abc.MutableMapping: "mmap", abc.MutableSet: "set", abc.Set: "frozenset",
         abc.Sequence: "seq", abc.Iterable: "iter", abc.Collection: "coll", abc.Mapping: "map", abc.Iterator: "iterator",
         abc.Generator: "gen", type: "type", G1: "G1", G2: "G2", Old: "Old"}[o]
    return (k, *[parse(x, back) for x in a])


def tvs(names=NAMES):
    return {n: typing.TypeVar(n) for n in names}


def outcome(c, p, t, subs=None):
    """The substitution, or None when the pair is rejected."""
    try:
        r = unify(p, t) if subs is None else unify(p, t, subs)
    except TypeError:
        return None
    c.check(isinstance(r, abc.Mapping), "unify returned something else than a substitution", r=r)
    return r


def show(r, back):
    return None if r is None else {n: parse(canonicalize(v), back) for n, v in ((back[k], v) for k, v in r.items() if k in back)}


def instances(c):
    """A pattern and a ground instance of it."""
    rng = c.rng
    p = gen(rng, rng.choice([1, 2, 3]), pattern_leaf(rng))
    g = ground_leaf(rng)
    sigma = {n: gen(rng, rng.choice([0, 1, 2]), g) for n in NAMES}
    t = subst(p, sigma)
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    ps, ts = spell(p, tv, rng), spell(t, {}, rng)
    c.info(f"{ps}  |  {ts}")
    mixed = any_in(t) or ambiguous(p, sigma)
    r = outcome(c, ps, ts)
    if r is None and mixed:
        c.count("ambiguous")
        return
    c.check(r is not None, "a pattern does not match its own instance", p=ps, t=ts)
    occurring = vars_of(norm(p))  # not those passed to a parameter that its class does not pass on
    if not mixed:
        got = show(r, back)
        want = {n: norm(sigma[n]) for n in occurring}
        c.eq({k: norm(v) for k, v in got.items()}, want, f"substitution for {ps} against {ts}")
        back_t = parse(canonicalize(substitute(ps, r)), {})
        c.eq(norm(back_t), norm(t), f"the pattern under the substitution ({ps} against {ts})")
    c.check(set(r) <= {tv[n] for n in occurring}, "variables that are not in the pattern were bound", r=r)
    # names do not matter
    perm = NAMES[:]
    rng.shuffle(perm)
    tv2 = {n: typing.TypeVar(m) for n, m in zip(NAMES, perm)}
    r2 = outcome(c, spell(p, tv2, rng), spell(t, {}, rng))
    if not union_in(p):
        c.eq(show(r2, {v: n for n, v in tv2.items()}), show(r, back), f"renamed and respelled {ps} against {ts}")
    # reflexivity
    for x in (ps, ts):
        same = outcome(c, x, x)
        c.check(same is not None and len(same) == 0, "a type does not match itself", x=x, same=same)
    # earlier bindings
    if occurring and not mixed:
        n = rng.choice(sorted(occurring))
        first = {tv[n]: canonicalize(spell(sigma[n], {}, rng))}
        if rng.random() < 0.5:
            first[typing.TypeVar("Z")] = int
        saved = dict(first)
        r3 = outcome(c, ps, ts, first)
        c.check(first == saved, "the given bindings were modified")
        c.check(r3 is not None and all(r3.get(k) == v for k, v in first.items()), "the given bindings were lost", r3=r3, first=first)
        c.eq({k: norm(v) for k, v in show(r3, back).items()}, {m: norm(sigma[m]) for m in occurring}, "extending given bindings")
        other = {tv[n]: Other}
        r4 = outcome(c, ps, ts, other)
        if norm(sigma[n]) != ("any",) and not any_in(t):
            c.check(r4 is None, "a conflicting binding was ignored", p=ps, t=ts, n=n)
    c.count("instances")
    c.key((p, t))


class Other:
    pass


def any_in(t):
    return "'any'" in repr(t) or "'bare'" in repr(t)


def union_in(p):
    return "'union'" in repr(p)


def ambiguous(p, sigma):
    """A pattern union of which several alternatives accept an alternative of the instance."""
    if p[0] == "union":
        arms = [norm(x) for x in p[1:]]
        inst = [norm(subst(x, sigma)) for x in p[1:]]
        # alternatives of the same constructor clash, and a variable could make another alternative match
        for i, x in enumerate(inst):
            for y in x[1:] if x[0] == "union" else [x]:
                if sum(accepts(q, y) for q in arms) != 1:
                    return True
    if p[0] in ("lit", "bare", "v"):
        return False
    return any(ambiguous(x, sigma) for x in p[1:])


def pairs(c):
    """Unrelated patterns and types, and near misses."""
    rng = c.rng
    p = gen(rng, rng.choice([1, 2, 2, 3]), pattern_leaf(rng))
    g = ground_leaf(rng)
    if rng.random() < 0.6:
        t = mutate(rng, subst(p, {n: gen(rng, 1, g) for n in NAMES}), g)
    else:
        t = gen(rng, 2, g)
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    ps, ts = spell(p, tv, rng), spell(t, {}, rng)
    c.info(f"{ps}  |  {ts}")
    r = outcome(c, ps, ts)
    np_, nt = norm(p), norm(t)
    if r is None:
        c.count("rejected")
    else:
        c.check(accepts(np_, nt), "types that no substitution makes match were unified", p=ps, t=ts, r=r)
        c.check(set(r) <= {tv[n] for n in vars_of(p)}, "variables that are not in the pattern were bound", r=r)
        applied = parse(canonicalize(substitute(ps, r)), back)
        c.check(accepts(norm(applied), nt), "the pattern under the substitution does not accept the type", p=ps, t=ts, r=r)
        c.count("accepted")
    if not union_in(p) and not union_in(t):
        tv2 = tvs(["Z", "A", "B"])
        tv2 = dict(zip(NAMES, tv2.values()))
        r2 = outcome(c, spell(p, tv2, rng), spell(t, {}, rng))
        c.eq(show(r2, {v: n for n, v in tv2.items()}), show(r, back), f"renamed and respelled {ps} against {ts}")
    c.key((p, t))


DOWN = {  # constructors below others, with their arguments
    "iter": lambda rng, a: rng.choice([("list", *a), ("seq", *a), ("coll", *a), ("set", *a), ("iterator", *a), ("vtuple", *a), ("mseq", *a),
                                       ("gen", *a, ("int",), ("str",)), ("dict", *a, ("bytes",)), ("tuple", *a * rng.choice([1, 2, 3, 4]))]),
    "coll": lambda rng, a: rng.choice([("list", *a), ("set", *a), ("frozenset", *a), ("map", *a, ("int",)), ("tuple", *a * rng.choice([1, 2, 3]))]),
    "seq": lambda rng, a: rng.choice([("list", *a), ("vtuple", *a), ("mseq", *a), ("tuple", *a * rng.choice([1, 2, 3, 4]))]),
    "vtuple": lambda rng, a: rng.choice([("list", *a), ("seq", *a), ("tuple", *a * rng.choice([1, 2, 3, 4]))]),
    "iterator": lambda rng, a: ("gen", *a, ("int",), ("str",)),
    "map": lambda rng, a: ("dict", *a),
    "frozenset": lambda rng, a: ("set", *a),
    "fn": lambda rng, a: rng.choice([("op", *a), ("fnany", a[-1])]),
    "fnany": lambda rng, a: rng.choice([("fn", *[("int",)] * rng.choice([0, 1, 2]), *a), ("op", ("str",), *a)]),
    "G1": lambda rng, a: ("H3", *a, ("bytes",)),
}


def lower(rng, p, sigma):
    """A subtype of an instance of the pattern that binds the variables alike."""
    if p[0] == "v":
        return sigma[p[1]]
    if p[0] in ("lit", "bare", "union", "H1", "H2", "Mp1", "OldSub") or len(p) == 1:
        return subst(p, sigma)
    a = [lower(rng, x, sigma) for x in p[1:]]
    if p[0] in DOWN and rng.random() < 0.6:
        return DOWN[p[0]](rng, a)
    return (p[0], *a)


def subtypes(c):
    """A pattern and a subtype of a ground instance, which binds the variables to the same types."""
    rng = c.rng
    p = gen(rng, rng.choice([1, 2, 3]), pattern_leaf(rng), False)
    g = ground_leaf(rng)
    sigma = {n: gen(rng, rng.choice([0, 1]), g, False) for n in NAMES}
    t = lower(rng, p, sigma)
    if any_in((p, *sigma.values())):
        return
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    ps, ts = spell(p, tv, rng), spell(t, {}, rng)
    c.info(f"{ps}  |  {ts}")
    r = outcome(c, ps, ts)
    c.check(r is not None, "a pattern does not match a subtype of its instance", p=ps, t=ts)
    if "fnany" not in repr(t):
        c.eq({k: norm(v) for k, v in show(r, back).items()}, {n: norm(sigma[n]) for n in vars_of(norm(p))}, f"substitution for {ps} against {ts}")
    c.count("subtypes")
    c.key((p, t))


def unions(c):
    """Alternatives of a pattern are tried alike, whatever their order."""
    rng = c.rng
    leaf = lambda: ("v", rng.choice(NAMES)) if rng.random() < 0.6 else (rng.choice(["int", "str"]),)
    arms = [gen(rng, rng.choice([0, 1, 1, 2]), leaf, False) for _ in range(rng.choice([2, 2, 3]))]
    if len({repr(norm(a)) for a in arms}) < len(arms) or any_in(arms):
        return
    g = ground_leaf(rng)
    sigma = {n: gen(rng, 0, g, False) for n in NAMES}
    t = subst(rng.choice(arms), sigma) if rng.random() < 0.7 else gen(rng, 1, g, False)
    if any_in(t) or "'lit'" in repr(t):
        return
    wrap = rng.choice([None, "list", "iter"])
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    seen = []
    for _ in range(3):
        q = ("union", *arms)
        seen.append(show(outcome(c, spell((wrap, q) if wrap else q, tv, rng), spell((wrap, t) if wrap else t, {}, rng)), back))
        rng.shuffle(arms)
    c.info(f"{arms} {t}")
    for x in seen[1:]:
        c.eq(x, seen[0], f"alternatives in another order: {arms} against {t}")
    single = [show(outcome(c, spell(a, tv, rng), spell(t, {}, rng)), back) for a in arms]
    single = [x for x in single if x is not None]
    want = single[0] if single and all(x == single[0] for x in single) else None
    c.eq(seen[0], want, f"the alternatives {arms} taken together against {t}")
    c.key((wrap, sorted(map(repr, arms)), t))


def tuples(c):
    """A tuple is a sequence of what all of its elements match."""
    rng = c.rng
    x = gen(rng, rng.choice([0, 1, 1, 2]), pattern_leaf(rng), False)
    g = ground_leaf(rng)
    sigma = {n: gen(rng, 0, g, False) for n in NAMES}
    if any_in((x, *sigma.values())):
        return
    elems = [lower(rng, x, sigma) for _ in range(rng.choice([1, 2, 3, 4]))]
    bad = len(elems) > 1 and rng.random() < 0.5
    if bad:
        elems[rng.randrange(len(elems))] = ("type", ("fn", ("bytes",), ("complex",)))
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    k = rng.choice(["seq", "iter", "coll", "vtuple"])
    ps, ts = spell((k, x), tv, rng), spell(("tuple", *elems), {}, rng)
    if rng.random() < 0.3:
        ps, ts = abc.Callable[[int], ps], abc.Callable[[int], ts]
    c.info(f"{ps}  |  {ts}")
    r = outcome(c, ps, ts)
    c.check((r is None) == bad, "a tuple as a sequence", p=ps, t=ts, r=r)
    if not bad and "fnany" not in repr(elems):
        c.eq({k: norm(v) for k, v in show(r, back).items()}, {n: norm(sigma[n]) for n in vars_of(norm(x))}, f"substitution for {ps} against {ts}")
    c.key((k, x, elems))


def twosided(c):
    """Variables on both sides, and given bindings that mention variables."""
    rng = c.rng
    p = gen(rng, rng.choice([0, 1, 2]), pattern_leaf(rng), False)
    q = mutate(rng, p, pattern_leaf(rng)) if rng.random() < 0.6 else gen(rng, rng.choice([0, 1]), pattern_leaf(rng), False)
    if rng.random() < 0.5:
        q = subst(q, {n: ("v", m) for n, m in zip("ABC", rng.choice(["DEF", "BCA", "DBE"]))})
    tv = tvs([*NAMES, "D", "E", "F"])
    back = {v: n for n, v in tv.items()}
    given, free = {}, list(tv)
    rng.shuffle(free)
    while len(free) > 1 and rng.random() < 0.4:  # without cycles: later variables only
        n = free.pop()
        t = gen(rng, rng.choice([0, 1]), lambda: ("v", rng.choice(free)) if rng.random() < 0.6 else ("int",), False)
        given[tv[n]] = canonicalize(spell(t, tv, rng))
    saved = dict(given)
    ps, qs = spell(p, tv, rng), spell(q, tv, rng)
    c.info(f"{ps} | {qs} | {given}")
    r = outcome(c, ps, qs, given)
    c.check(given == saved, "the given bindings were modified")
    c.key((p, q, sorted(map(str, given))))
    if r is None:
        c.count("rejected")
        return
    c.check(all(r.get(k) == v for k, v in given.items()), "the given bindings were lost", r=r)
    a, b = (norm(parse(canonicalize(substitute(x, r)), back)) for x in (ps, qs))  # a cycle would not end
    c.check(accepts(a, b), "the pattern under the substitution does not accept the type under it", a=a, b=b, r=r)
    c.count("two_sided")


def mutate(rng, t, g):
    """Changes one place of a type."""
    if t[0] in ("lit", "bare", "v") or len(t) == 1 or rng.random() < 0.25:
        up = {"list": ["seq", "iter", "set", "mseq"], "seq": ["list", "vtuple"], "iter": ["list", "iterator", "gen3"], "dict": ["map", "mmap"],
              "map": ["dict"], "tuple": ["tuple", "list1"], "G1": ["H1", "H3x"], "Cl": ["Cl2"], "Cl2": ["Cl"], "int": ["bool", "str"],
              "bool": ["int"], "fn": ["fnany1", "op", "fn"]}.get(t[0])
        if up and rng.random() < 0.7:
            k = rng.choice(up)
            if k == "gen3":
                return ("gen", t[1], ("int",), ("int",))
            if k == "list1":
                return ("list", t[1])
            if k == "H3x":
                return ("H3", t[1], ("int",))
            if k == "fnany1":
                return ("fnany", t[-1])
            if k in ("tuple", "fn") and rng.random() < 0.6:
                return (t[0], *t[1:], ("int",))
            return (k, *t[1:])
        return gen(rng, 1, g)
    i = rng.randrange(1, len(t))
    return (*t[:i], mutate(rng, t[i], g), *t[i + 1:])


def algebra(c):
    """Substitution and free variables."""
    rng = c.rng
    p = gen(rng, rng.choice([1, 2, 3]), pattern_leaf(rng))
    tv = tvs()
    state = rng.getstate()
    ps = spell(p, tv, rng)
    c.eq({v for v in freetypevars(ps)}, {tv[n] for n in vars_of(p)}, f"free variables of {ps}")
    n_bound = rng.choice([0, 1, 2, 3])
    names = rng.sample(NAMES, n_bound)
    g = ground_leaf(rng)
    sub = {n: spell(gen(rng, rng.choice([0, 1]), g), tv, rng) for n in names}
    full = {**tv, **sub}
    after = rng.getstate()
    rng.setstate(state)
    want = spell(p, full, rng)  # the same spelling, with types in place of the variables
    rng.setstate(after)
    subs = {tv[n]: v for n, v in sub.items()}
    if rng.random() < 0.5:
        subs[typing.TypeVar("Z")] = str
    saved = dict(subs)
    got = substitute(ps, subs)
    c.check(got == want, "substitution", p=ps, subs=subs, got=got, want=want)
    c.check(subs == saved, "the substitution was modified")
    c.check(freetypevars(got) == {tv[n] for n in vars_of(p) - set(names)}, "free variables after substitution", p=ps, got=got)
    if not (set(names) & vars_of(p)):
        c.check(got == ps, "a substitution for other variables changed the type")
    # substitution goes on in what it put in
    if names:
        x, y = tv[names[0]], typing.TypeVar("Y")
        c.check(substitute(ps, {x: list[y], y: bytes}) == substitute(ps, {x: list[bytes]}), "substitution by types with variables", p=ps)
        c.check(substitute(ps, {y: bytes, x: y}) == substitute(ps, {x: bytes}), "substitution by a variable", p=ps)
    # canonical forms are idempotent
    k = canonicalize(ps)
    c.check(canonicalize(k) == k, "canonical form is not canonical", p=ps, k=k)
    # composed by parts
    if len(p) > 1 and p[0] not in ("lit", "bare", "v"):
        seq = [spell(x, tv, rng) for x in p[1:]]
        c.check(substitute(tuple(seq), subs) == tuple(substitute(x, subs) for x in seq), "substitution in a sequence")
    c.key(p)


def signatures(c):
    """Signatures: every parameter is matched with its argument."""
    rng = c.rng
    n = rng.choice([1, 2, 3, 4])
    K = inspect.Parameter
    tv = tvs()
    back = {v: k for k, v in tv.items()}
    params, pats = [], []
    kinds = sorted(rng.choice([K.POSITIONAL_ONLY, K.POSITIONAL_OR_KEYWORD, K.KEYWORD_ONLY]) for _ in range(n))
    if rng.random() < 0.4:
        kinds.append(K.VAR_POSITIONAL)
    if rng.random() < 0.4:
        kinds.append(K.VAR_KEYWORD)
    kinds.sort()
    g = ground_leaf(rng)
    sigma = {m: gen(rng, rng.choice([0, 1]), lambda: (rng.choice(["int", "str", "Cl", "float"]),), False) for m in NAMES}
    args, kwargs = [], {}
    expect_vars = set()
    bad = None
    for i, kd in enumerate(kinds):
        p = gen(rng, rng.choice([0, 1, 2]), lambda: ("v", rng.choice(NAMES)) if rng.random() < 0.7 else (rng.choice(["int", "str"]),), False)
        ann = rng.random() < 0.9
        params.append(K(f"p{i}", kd, annotation=spell(p, tv, rng) if ann else K.empty))
        m = rng.choice([0, 1, 2, 3]) if kd in (K.VAR_POSITIONAL, K.VAR_KEYWORD) else 1
        for j in range(m):
            t = subst(p, sigma)
            if ann and rng.random() < 0.06 and bad is None:
                t2 = ("type", ("fn", ("bytes",), ("complex",)))
                if not accepts(norm(p), norm(t2)):
                    t, bad = t2, i
            ts = spell(t, {}, rng)
            if ann:
                expect_vars |= vars_of(norm(p))
            if kd == K.KEYWORD_ONLY:
                kwargs[f"p{i}"] = ts
            elif kd == K.VAR_KEYWORD:
                kwargs[f"z{j}"] = ts
            else:
                args.append(ts)
    sig = inspect.Signature(params)
    bound = sig.bind(*args, **kwargs)
    try:
        r = unify(sig, bound)
    except TypeError as e:
        c.check(bad is not None, "arguments of the declared types were rejected", sig=sig, args=bound.arguments, sigma=sigma, e=str(e))
        c.count("rejected")
        c.key((str(sig), "bad"))
        return
    c.check(bad is None, "an argument of a wrong type was accepted", sig=sig, args=bound.arguments)
    got = show(r, back)
    c.eq({k: norm(v) for k, v in got.items()}, {m: norm(sigma[m]) for m in expect_vars}, f"substitution for {sig}")
    c.count("signatures")
    c.key((str(sig), sorted(sigma.items())))


def paramspecs(c):
    """Parameter specifications stand for whole parameter lists."""
    rng = c.rng
    P = typing.ParamSpec("P") if rng.random() < 0.5 else pep_paramspec()
    tv = tvs()
    ret = gen(rng, rng.choice([0, 1, 2]), pattern_leaf(rng), False)
    g = ground_leaf(rng)
    sigma = {n: gen(rng, 1, g, False) for n in NAMES}
    ps = [gen(rng, rng.choice([0, 1]), g, False) for _ in range(rng.choice([0, 1, 2, 3]))]
    t = subst(ret, sigma)
    if any_in((t, *ps)):
        return
    pat = abc.Callable[P, spell(ret, tv, rng)]
    use_op = rng.random() < 0.3
    sp = [spell(x, {}, rng) for x in ps]
    subj = Operation[sp, spell(t, {}, rng)] if use_op else abc.Callable[sp, spell(t, {}, rng)]
    c.info(f"{pat} | {subj}")
    r = outcome(c, pat, subj)
    c.check(r is not None, "a parameter specification does not match a parameter list", pat=pat, subj=subj)
    back = {v: n for n, v in tv.items()}
    c.eq({k: norm(v) for k, v in show(r, back).items()}, {n: norm(sigma[n]) for n in vars_of(norm(ret))}, "substitution of the result type")
    c.eq([norm(parse(canonicalize(x), {})) for x in r[P]], [norm(x) for x in ps], "the parameter list")
    applied = parse(canonicalize(substitute(pat, r)), {})
    c.eq(norm(applied), norm(("fn", *ps, t)), "the pattern under the substitution")
    c.check(freetypevars(pat) == {P} | {tv[n] for n in vars_of(ret)}, "free variables with a parameter specification")
    # through a signature, with the arguments the parameter list asks for
    K = inspect.Parameter
    sig = inspect.Signature([K("f", K.POSITIONAL_OR_KEYWORD, annotation=pat), K("a", K.VAR_POSITIONAL, annotation=P.args),
                             K("k", K.VAR_KEYWORD, annotation=P.kwargs)])
    r2 = unify(sig, sig.bind(subj, *sp))
    c.eq({k: norm(v) for k, v in show(r2, back).items()}, {n: norm(sigma[n]) for n in vars_of(norm(ret))}, "substitution through a signature")
    c.key((ret, ps, t))


def pep_paramspec():
    def f[**P]():
        return P
    return f()


def make_td(rng, fields, total, params, style, base=None):
    """A TypedDict class with the given fields {name: (annotation, required or None)}."""
    ann = {}
    for n, (a, req) in fields.items():
        if req is True and not total:
            a = typing.Required[a]
        elif req is False and total:
            a = typing.NotRequired[a]
        ann[n] = a
    if base is not None:
        bases = (base,)
    else:
        bases = (typing.TypedDict,)
    if params:
        bases = bases + (typing.Generic[tuple(params)],)
    return types.new_class("TD", bases, {"total": total}, lambda ns: ns.update(__annotations__=ann, __module__=__name__))


def typeddicts(c):
    """Typed dictionaries are matched field by field."""
    rng = c.rng
    tv = tvs()
    back = {v: n for n, v in tv.items()}
    params = [typing.TypeVar("Q1"), typing.TypeVar("Q2")]
    ptv = {"A": params[0], "B": params[1]}
    names = ["f0", "f1", "f2", "f3"][: rng.choice([1, 2, 3, 4])]
    leaf = lambda: rng.choice([("v", "A"), ("v", "B"), ("int",), ("str",), ("v", "A")])
    shape = {n: (gen(rng, rng.choice([0, 0, 1, 2]), leaf, False), rng.random() < 0.7) for n in names}
    total = rng.random() < 0.5
    inherit = rng.random() < 0.4 and len(names) > 1
    used = sorted(set().union(*[vars_of(norm(t)) for t, _ in shape.values()], set()))
    cut = rng.randrange(1, len(names)) if inherit else 0

    def cls_for(shape):
        own = {n: (spell(t, ptv, rng), r) for n, (t, r) in shape.items()}
        if not inherit:
            return make_td(rng, own, total, params, None)
        base = make_td(rng, {n: own[n] for n in names[:cut]}, total, params, None)
        order = (params[1], params[0]) if swap else tuple(params)
        return make_td(rng, {n: own[n] for n in names[cut:] if n in own}, total, params, None, base=base[order])

    swap = rng.random() < 0.5
    TD = cls_for(shape)
    if inherit and swap:  # the fields of the base see the parameters the other way round
        flip = {"A": ("v", "B"), "B": ("v", "A")}
        shape = {n: ((subst(t, flip) if n in names[:cut] else t), r) for n, (t, r) in shape.items()}
        used = sorted(set().union(*[vars_of(norm(t)) for t, _ in shape.values()], set()))
    sigma = {n: gen(rng, rng.choice([0, 1]), lambda: (rng.choice(["int", "str", "Cl", "float"]),), False) for n in "AB"}
    pat = TD[tv["A"], tv["B"]]
    subj = TD[spell(sigma["A"], {}, rng), spell(sigma["B"], {}, rng)]
    style = rng.choice(["same", "struct", "broken", "list"])
    want_ok = True
    if style == "struct":  # another class with the same fields, not generic
        subj = make_td(rng, {n: (spell(subst(t, sigma), {}, rng), r) for n, (t, r) in shape.items()}, rng.random() < 0.5, [], None)
        fields = dict(shape)
        if rng.random() < 0.5:
            subj = make_td(rng, {**{n: (spell(subst(t, sigma), {}, rng), r) for n, (t, r) in shape.items()}, "extra": (bytes, True)},
                           rng.random() < 0.5, [], None)
    if style == "broken":
        n = rng.choice(names)
        t, r = shape[n]
        how = rng.choice(["missing", "flag", "type", "narrow"])
        f = {m: (spell(subst(u, sigma), {}, rng), q) for m, (u, q) in shape.items()}
        if how == "missing":
            del f[n]
            want_ok = not r
            if not r and len(f) == 0:
                return
        elif how == "flag":
            f[n] = (f[n][0], not r)
            want_ok = False
        elif how == "narrow":  # a mutable field of a narrower type does not do
            if t != ("int",):
                return
            f[n] = (bool, r)
            want_ok = False
        else:
            bad = ("set", ("bytes",))
            if accepts(norm(t), bad) or t[0] == "v":
                return
            f[n] = (set[bytes], r)
            want_ok = False
        subj = make_td(rng, f, True, [], None)
        if want_ok:
            used = sorted(set().union(*[vars_of(norm(u)) for m, (u, _) in shape.items() if m != n], set()))
    c.info(f"{shape} {sigma} {style}")
    if style == "list":
        pat, subj = list[pat], list[subj]
    r = outcome(c, pat, subj)
    c.count("typeddicts")
    c.key((sorted(shape.items()), sorted(sigma.items()), style, want_ok, inherit))
    if not want_ok:
        c.check(r is None, "a TypedDict that does not fit was accepted", shape=shape, sigma=sigma)
        return
    c.check(r is not None, "a TypedDict that fits was rejected", shape=shape, sigma=sigma)
    c.eq({k: norm(v) for k, v in show(r, back).items()}, {n: norm(sigma[n]) for n in used}, "substitution for a TypedDict")
    same = outcome(c, pat, pat)
    c.check(same is not None, "a TypedDict does not match itself")
    if style == "same" and all(t[0] == "int" or t == ("v", "A") for t, _ in shape.values()) and "A" in used and sigma["A"] == ("int",):
        m = outcome(c, abc.Mapping[tv["B"], tv["C"]], subj)
        c.check(m is not None and m.get(tv["B"]) is str and m.get(tv["C"]) is int, "a TypedDict as a mapping", m=m)
        mix = make_td(rng, {**{n: (int, True) for n in names}, "z": (bytes, True)}, True, [], None)
        c.check(outcome(c, abc.Mapping[str, tv["C"]], mix) is None, "a TypedDict of unlike fields as a mapping")
        c.check(outcome(c, abc.Mapping[int, tv["C"]], subj) is None, "a TypedDict as a mapping with keys that are not strings")
        wide = make_td(rng, {n: (bool, True) for n in names}, True, [], None)
        c.check(outcome(c, abc.Mapping[str, int], wide) is not None, "a TypedDict as a mapping to a wider type")
        c.check(outcome(c, abc.MutableMapping[str, int], wide) is None, "a TypedDict as a mutable mapping to a wider type")


SECTIONS = [
    Section("instances", instances, 3000, 100000, 2),
    Section("pairs", pairs, 4000, 150000, 2),
    Section("subtypes", subtypes, 2000, 60000, 1),
    Section("unions", unions, 1500, 40000, 1),
    Section("tuples", tuples, 1000, 30000, 1),
    Section("twosided", twosided, 2000, 60000, 1),
    Section("algebra", algebra, 2000, 50000, 1),
    Section("signatures", signatures, 1500, 40000, 1),
    Section("paramspecs", paramspecs, 600, 15000, 1),
    Section("typeddicts", typeddicts, 1000, 30000, 1),
]
