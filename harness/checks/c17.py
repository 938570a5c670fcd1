"""C17: index sets, gathering, selection and stacking."""
import itertools
import operator
import warnings

import torch

from harness.core import Section
from harness.named import Fam, assignments, compare, from_tensor, lift, random_tensor

from effectful.handlers.indexed import IndexSet, cond, cond_n, gather, indices_of, name_to_sym, stack, union
from effectful.handlers.torch import bind_dims, sizesof
from effectful.ops.semantics import evaluate, handler

warnings.simplefilter("ignore")
torch.set_num_threads(1)

RULE = (
    "Index sets against finite maps of Python sets (construction, equality, hash, union laws, no sharing with operands); "
    "indices_of against the names and sizes used; gather, stack, cond and cond_n on tensors with random named and "
    "positional layouts (plain, computed and nested) against direct selection at every index. Distinct by layout and sets."
)
ASSUMPTIONS = [
    "Positions gathered exist in the value; gathered entries come in ascending order of position.",
    "cond: the positional dimensions of the case lead those of the operands, which then have the same number of dimensions.",
    "cond_n: index sets over one common name that cover the values of the case; for overlapping sets the last one wins.",
]
NEED = {"unions": 300, "reports": 50, "gathers": 40, "gathered_entries": 150, "stacks": 30, "conds": 40, "cond_ns": 20, "unordered_sets": 5}

NAMES = ["a", "b", "x", "y_1", "dim_0"]


def shuffled_set(rng, xs):
    """The same set, inserted in a random order (its iteration order may differ)."""
    xs = list(xs)
    rng.shuffle(xs)
    s = set()
    for x in xs:
        s.add(x)
    return s


def rand_sets(rng):
    out = {}
    for n in rng.sample(NAMES, rng.randint(0, 3)):
        out[n] = {rng.choice([0, 1, 2, 3, 8, 9, 16]) for _ in range(rng.randint(0, 4))}
    return out


def make(rng, m):
    kw = {}
    for n, s in m.items():
        k = rng.random()
        if len(s) == 1 and k < 0.4:
            kw[n] = next(iter(s))
        elif k < 0.6:
            l = list(s) * 2
            rng.shuffle(l)
            kw[n] = l if k < 0.5 else tuple(l)
        elif k < 0.7:
            kw[n] = iter(sorted(s))
        else:
            kw[n] = shuffled_set(rng, s)
    items = list(kw.items())
    rng.shuffle(items)
    return IndexSet(**dict(items))


def norm(m):
    return {n: set(s) for n, s in m.items() if s}


def sets(c):
    rng = c.rng
    ms = [rand_sets(rng) for _ in range(rng.choice([2, 3]))]
    xs = [make(rng, m) for m in ms]
    for m, x in zip(ms, xs):
        c.check(type(x) is IndexSet and dict(x) == norm(m), "construction", got=x, want=m)
        y = make(rng, m)
        c.check(x == y and hash(x) == hash(y) and {x: 1}[y] == 1, "equal index sets hash equally", x=x, y=y)
        c.check(all(type(v) is set and v for v in x.values()), "values are nonempty sets")
    for a, b in itertools.combinations(xs, 2):
        c.check((a == b) == (dict(a) == dict(b)) and (a == b) == (b == a), "equality")

    def u(*mm):
        out = {}
        for m in mm:
            for n, s in norm(m).items():
                out[n] = out.get(n, set()) | s
        return out

    before = [{n: set(s) for n, s in x.items()} for x in xs]
    r = union(*xs)
    c.check(type(r) is IndexSet and dict(r) == u(*ms), f"union of {xs}", got=r)
    for p in itertools.permutations(xs):
        c.check(union(*p) == r and hash(union(*p)) == hash(r), "union is commutative")
    a, b = xs[0], xs[1]
    d = xs[-1]
    c.check(union(a, union(b, d)) == union(union(a, b), d) == union(a, b, d), "union is associative")
    c.check(union(a, a) == a and union(a) == a and union(a, IndexSet()) == a, "union is idempotent, the empty set is neutral")
    c.check(union(a, union(a, b)) == union(a, b), "union is absorbing")
    for x in xs:
        c.check(all(x[n] <= r[n] for n in x), "union contains its operands")
    for s in r.values():
        s.add(99)
    c.check([dict(x) for x in xs] == before, "operands do not share sets with the union", xs=xs)
    c.count("unions")
    c.key(("sets", str(ms)))


def layout(c, k=None, sizes=None):
    """A named tensor: (real, family, sizes by name)."""
    rng = c.rng
    names = rng.sample(NAMES, rng.randint(0, 3) if k is None else k)
    sizes = sizes if sizes is not None else {}
    for n in names:
        sizes.setdefault(n, rng.choice([1, 2, 3, 3, 10]) if len(names) < 3 else rng.choice([1, 2, 3]))
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 2]))]
    return value(c, names, sizes, shape)


def value(c, names, sizes, shape, kind="float"):
    rng = c.rng
    syms = [name_to_sym(n) for n in names]
    t = random_tensor(rng, [sizes[n] for n in names] + list(shape), kind)
    fam = from_tensor(t, syms)
    key = tuple(s() for s in syms)
    real = t[key] if syms else t
    if shape and syms and rng.random() < 0.3:
        real = torch.movedim(t, len(syms), 0)[(slice(None), *key)]
    k = rng.random()
    if kind == "float" and k < 0.3:
        real, fam = torch.sin(real) * 2, lift(lambda x: torch.sin(x) * 2, fam)
    elif kind == "float" and k < 0.5 and syms:
        o = random_tensor(rng, [sizes[names[0]]])
        real, fam = real + o[syms[0]()], lift(lambda x, y: x + y, fam, from_tensor(o, [syms[0]]))
    return real, fam


def reports(c):
    rng = c.rng
    real, fam = layout(c)
    c.check(indices_of(real) == IndexSet(**{s.__name__: set(range(n)) for s, n in fam.sizes.items()}), "indices_of", got=indices_of(real), want=fam.sizes)
    for n in NAMES:
        c.check(name_to_sym(n) is name_to_sym(str(n)) and name_to_sym(n).__name__ == n, "the symbol of a name")
    c.check(len({name_to_sym(n) for n in NAMES}) == len(NAMES), "names have different symbols")
    sizes = {s.__name__: n for s, n in fam.sizes.items()}
    r2, f2 = layout(c, sizes=sizes)
    both = {**{s.__name__: set(range(n)) for s, n in fam.sizes.items()}, **{s.__name__: set(range(n)) for s, n in f2.sizes.items()}}
    c.check(indices_of((real, [r2])) == IndexSet(**both) == union(indices_of(real), indices_of(r2)), "indices_of several values")
    c.check(indices_of(real.sum() + r2.sum()) == IndexSet(**both), "indices_of a computed value")
    c.check(indices_of(3.5) == IndexSet() == indices_of(torch.zeros(2)), "indices_of a constant")
    c.count("reports")
    c.key(("reports", str(fam.sizes), str(f2.sizes)))


def gathering(c):
    rng = c.rng
    sizes = {}
    real, fam = layout(c, sizes=sizes)
    world = {}
    for s, n in fam.sizes.items():
        if rng.random() < 0.75:
            world[s.__name__] = set(rng.sample(range(n), rng.randint(1, min(n, 4))))
            if n == 10 and rng.random() < 0.7:
                # sets whose iteration order depends on the history
                world[s.__name__] = set(rng.choice([[0, 8], [1, 9], [0, 8, 3], [9, 1, 5]]))
                c.count("unordered_sets")
    strangers = {n: {rng.randrange(20)} for n in rng.sample(NAMES, 2) if n not in sizes}
    w = make(rng, {**world, **strangers})
    got = gather(real, w)

    def expect(f):
        order = {s: sorted(world[s.__name__]) if s.__name__ in world else list(range(n)) for s, n in f.sizes.items()}
        new = {s: len(o) for s, o in order.items()}
        return Fam(new, {tuple(e.values()): f.at({s: order[s][p] for s, p in e.items()}) for e in assignments(new)})

    want = expect(fam)
    what = f"gather of {dict((s.__name__, n) for s, n in fam.sizes.items())} at {w}"
    compare(c, got, want, what)
    compare(c, gather(real, make(rng, {**world, **strangers})), want, what + " (equal index set)")
    c.check(indices_of(got) == IndexSet(**{s.__name__: set(range(n)) for s, n in want.sizes.items()}), "indices of the gathered value")
    c.count("gathers")
    c.count("gathered_entries", len(want.items))
    # nothing selected: the value itself
    compare(c, gather(real, IndexSet(**strangers)), fam, "gather at unrelated names")
    compare(c, gather(real, indices_of(real)), fam, "gather at all indices")
    # with other values
    r2, f2 = layout(c, sizes=dict(sizes))
    if all(f2.sizes[s] == fam.sizes.get(s, f2.sizes[s]) for s in f2.sizes) and all(s.__name__ in sizes for s in f2.sizes):
        compare(c, gather(real, w).sum() * gather(r2, make(rng, {**world, **strangers})).sum(), expect(lift(lambda x, y: x.sum() * y.sum(), fam, f2)), what + ": gathering commutes with operations")
        c.count("commutes")
    c.key((what, real.shape))


def stacking(c):
    rng = c.rng
    sizes = {}
    name = rng.choice(["s", "new_dim", "t1"])
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
    k = rng.choice([1, 2, 3])
    pool = rng.sample(NAMES, 2)
    for n in pool:
        sizes[n] = rng.choice([1, 2, 3])
    vals = [value(c, rng.sample(pool, rng.randint(0, 2)), sizes, shape) for _ in range(k)]
    got = stack([r for r, _ in vals] if rng.random() < 0.5 else tuple(r for r, _ in vals), name)
    sym = name_to_sym(name)
    per = lift(lambda *xs: list(xs), *[f for _, f in vals])
    allsizes = {sym: k, **per.sizes}
    want = Fam(allsizes, {tuple(e.values()): per.at({s: v for s, v in e.items() if s is not sym})[e[sym]] for e in assignments(allsizes)})
    what = f"stack of {[dict((s.__name__, n) for s, n in f.sizes.items()) for _, f in vals]}"
    compare(c, got, want, what)
    c.check(indices_of(got) == IndexSet(**{s.__name__: set(range(n)) for s, n in allsizes.items()}), "indices of a stack")
    for p in range(k):
        part = gather(got, IndexSet(**{name: p}))
        sub = {sym: 1, **per.sizes}
        compare(c, part, Fam(sub, {tuple(e.values()): per.at({s: v for s, v in e.items() if s is not sym})[p] for e in assignments(sub)}), what + f": gathered at {p}")
    c.count("stacks")
    c.key((what, shape))


def conds(c):
    rng = c.rng
    pool = rng.sample(NAMES, 2)
    sizes = {n: rng.choice([1, 2, 3]) for n in pool}
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
    cshape = [rng.choice([1, 2, 3])] if rng.random() < 0.35 else []
    fst, snd = (value(c, rng.sample(pool, rng.randint(0, 2)), sizes, shape) for _ in range(2))
    case = value(c, rng.sample(pool, rng.randint(0, 2)), sizes, cshape, "bool")
    if rng.random() < 0.15 and not case[1].sizes and not cshape:
        b = rng.random() < 0.5
        case = (torch.tensor(b), Fam({}, {(): torch.tensor(b)}))
    what = f"cond with names {[list(s.__name__ for s in f.sizes) for f in (fst[1], snd[1], case[1])]} shapes {shape} {cshape}"

    def select(f, s, k):
        out = torch.empty(list(k.shape) + list(f.shape), dtype=f.dtype)
        for idx in itertools.product(*(range(n) for n in k.shape)):
            out[idx] = s if bool(k[idx]) else f
        return out

    got = cond(fst[0], snd[0], case[0])
    want = lift(select, fst[1], snd[1], case[1])
    compare(c, got, want, what)
    if not cshape:
        got = cond(fst[0], snd[0], ~case[0])
        compare(c, got, lift(select, snd[1], fst[1], case[1]), what + " negated")
    c.count("conds")
    # several ways
    k = rng.choice([1, 2, 3, 4])
    hi = k + rng.choice([0, 1, 2, 4])
    place = {}
    for v in range(hi):
        place.setdefault(v if v < k else rng.randrange(k), set()).add(v)
    if rng.random() < 0.3:
        place[rng.randrange(k)].add(rng.randrange(hi))
    order = list(range(k))
    rng.shuffle(order)
    vals = [value(c, rng.sample(pool, rng.randint(0, 2)), sizes, shape) for _ in range(k)]
    which = value(c, rng.sample(pool, rng.randint(0, 2)), sizes, [], hi)
    arg = {IndexSet(**{"w": place[n]}): vals[n][0] for n in order}

    def pick(case, *vs):
        r = None
        for n in order:
            if int(case) in place[n]:
                r = vs[n]
        return r

    if len(arg) == k:
        got = cond_n(arg, which[0])
        compare(c, got, lift(pick, which[1], *[f for _, f in vals]), f"cond_n over {[place[n] for n in order]}")
        c.count("cond_ns")
    c.key((what, k, hi, str(place)))


SECTIONS = [
    Section("sets", sets, 1500, 60000, 1),
    Section("reports", reports, 120, 6000, 1),
    Section("gathering", gathering, 120, 8000, 3),
    Section("stacking", stacking, 120, 5000, 1),
    Section("conds", conds, 120, 8000, 2),
]
