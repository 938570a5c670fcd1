"""C15: function transforms agree with torch.func on plain and named tensors."""
import warnings

import torch
import torch.utils._pytree as pytree

from harness.core import Section
from harness.named import Fam, assignments, compare, lift, random_tensor

from effectful.handlers import torch as E
from effectful.handlers.torch import bind_dims, sizesof
from effectful.ops.types import Operation, Term

warnings.simplefilter("ignore")
torch.set_num_threads(1)

RULE = (
    "Random differentiable functions of one to three arguments (tensors or trees of tensors), keyword arguments and closure "
    "constants, returning scalars, tensors or trees, are transformed with grad, jacfwd, jacrev, hessian, jvp, vjp, vmap and "
    "compositions under random options (argnums, has_aux, in_dims, out_dims, chunk_size). The oracle is torch.func on plain "
    "tensors, run separately at every assignment of the named dimensions of arguments and closure constants. Distinct by "
    "transform, options, function and names."
)
ASSUMPTIONS = [
    "Functions of grad and hessian close over tensors whose names the arguments have (otherwise their value is not a scalar).",
    "vjp: cotangents have the names of the result; gradients are sums over the names a primal lacks.",
    "Transforms are applied to known tensors, not to deferred ones.",
    "Values compared with relative tolerance 1e-8 in double precision.",
]
NEED = {"transformed": 150, "named": 100, "plain": 30, "argnums_tuple": 25, "aux": 20, "trees": 30, "jvp": 15, "vjp": 15, "vmap": 40, "out_dims": 10, "closure_names": 30, "composed": 30}

TORCH = {"grad": torch.func.grad, "jacfwd": torch.func.jacfwd, "jacrev": torch.func.jacrev, "hessian": torch.func.hessian, "vmap": torch.func.vmap}
OURS = {"grad": E.grad, "jacfwd": E.jacfwd, "jacrev": E.jacrev, "hessian": E.hessian, "vmap": E.vmap}


def new_names(rng, k):
    base = rng.choice(["i", "j"])
    return [Operation.define(torch.Tensor, name=rng.choice([base, base, "k"])) for _ in range(k)]


def named(rng, names, sizes, shape, k=None):
    """A tensor with some names, next to its family."""
    ns = rng.sample(names, rng.randint(0, len(names)) if k is None else k)
    return with_names(rng, ns, sizes, shape)


def with_names(rng, ns, sizes, shape):
    t = random_tensor(rng, [sizes[n] for n in ns] + list(shape))
    fam = Fam({n: sizes[n] for n in ns}, {tuple(e.values()): t[tuple(e.values())] for e in assignments({n: sizes[n] for n in ns})})
    if not ns:
        return t, fam
    if shape and rng.random() < 0.3:
        return torch.movedim(t, len(ns), 0)[(slice(None), *(n() for n in ns))], fam
    return t[tuple(n() for n in ns)], fam


ELEM = [
    ("sin", lambda x: torch.sin(x)), ("sq", lambda x: x * x), ("cube", lambda x: x ** 3), ("exp", lambda x: torch.exp(0.3 * x)),
    ("tanh", lambda x: x.tanh()), ("div", lambda x: x / (x * x + 1)), ("id", lambda x: x), ("neg", lambda x: 1 - x),
    ("softplus", lambda x: torch.nn.functional.softplus(x)), ("cumsum", lambda x: torch.cumsum(x, 0) if x.dim() else x),
]
JOIN = [("mul", lambda a, b: a * b), ("add", lambda a, b: a + 2 * b), ("axb", lambda a, b: a * a * b), ("at", lambda a, b: torch.sin(a) * b + a)]
SCALAR = [("sum", lambda x: x.sum()), ("mean", lambda x: x.mean()), ("sqsum", lambda x: (x * x).sum()), ("lse", lambda x: torch.logsumexp(x.reshape(-1), 0))]


class Fn:
    """A function of a list of tensors (arguments' leaves, keyword, closure) to a tree."""

    def __init__(self, rng, out):
        self.elem = [rng.choice(ELEM) for _ in range(3)]
        self.joins = [rng.choice(JOIN) for _ in range(8)]
        self.scalar = rng.choice(SCALAR)
        self.out = out
        self.text = (tuple(n for n, _ in self.elem), tuple(n for n, _ in self.joins[:3]), self.scalar[0], out)

    def __call__(self, leaves):
        h = self.elem[0][1](leaves[0])
        for (_, j), x in zip(self.joins, leaves[1:]):
            h = j(h, x)
        h = self.elem[1][1](h)
        s = self.scalar[1]
        return {
            "scalar": lambda: s(h), "tensor": lambda: h, "pair": lambda: (h, s(h)), "list": lambda: [self.elem[2][1](h), h], "dict": lambda: {"b": s(h), "a": (h * 2,)},
        }[self.out]()


def make_args(c, names, sizes, shape, kwargs=False):
    """(real args, fams of the leaves, spec, real kwargs)."""
    rng = c.rng
    reals, fams = [], []
    nargs = rng.choice([1, 2, 2, 3])
    for _ in range(nargs):
        tree = rng.random()
        if tree < 0.75:
            r, f = named(rng, names, sizes, shape)
        elif tree < 0.9:
            r, f = {}, {}
            for key in rng.sample(["b", "a", "c"], 2):
                r[key], f[key] = named(rng, names, sizes, shape)
            c.count("trees")
        else:
            a, b = named(rng, names, sizes, shape), named(rng, names, sizes, shape)
            r, f = [a[0], (b[0],)], [a[1], (b[1],)]
            c.count("trees")
        reals.append(r)
        fams.append(f)
    kw, kwf = {}, {}
    if kwargs and rng.random() < 0.4:
        kw["w"], kwf["w"] = named(rng, names, sizes, shape)
    return reals, fams, kw, kwf


def leaves_of(*trees):
    return pytree.tree_leaves(trees)


def compare_tree(c, got, fam, what):
    """fam: family whose values are trees."""
    vals = list(fam.items.values())
    flat0, spec = pytree.tree_flatten(vals[0])
    gl, gs = pytree.tree_flatten(got)
    c.check(gs == spec, f"{what}: structure {gs}, expected {spec}")
    for k in range(len(flat0)):
        compare(c, gl[k], Fam(fam.sizes, {a: pytree.tree_leaves(v)[k].detach() for a, v in fam.items.items()}), f"{what}[{k}]", 1e-8)



def transforms(c):
    rng = c.rng
    kind = rng.choice(["grad", "jacfwd", "jacrev", "hessian", "grad", "jacrev"])
    names = new_names(rng, rng.choice([0, 1, 1, 2, 2]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = rng.choice([[], [2], [3], [1], [2, 2]]) if kind != "hessian" else rng.choice([[], [2], [3]])
    out = "scalar" if kind == "grad" else rng.choice(["scalar", "tensor", "tensor", "pair", "list", "dict"])
    fn = Fn(rng, out)
    reals, fams, kw, kwf = make_args(c, names, sizes, shape, kind == "grad")
    own = set()
    for f in leaves_of(fams, kwf):
        own |= set(f.sizes)
    # a closure constant
    const = cfam = None
    if rng.random() < 0.6:
        if kind in ("grad",) or rng.random() < 0.5:
            pick = [n for n in names if n in own]
            const, cfam = named(rng, pick, sizes, shape)
            extra = []
        else:
            extra = new_names(rng, 1)
            sizes2 = {**sizes, extra[0]: rng.choice([1, 2, 3])}
            const, cfam = named(rng, names + extra, sizes2, shape)
        if cfam.sizes:
            c.count("closure_names")
    opts = {}
    k = rng.random()
    n = len(reals)
    if k < 0.35:
        opts["argnums"] = rng.randrange(-n, n)
    elif k < 0.75:
        opts["argnums"] = tuple(rng.sample(range(n), rng.randint(1, n)))
        c.count("argnums_tuple")
    aux = kind != "hessian" and rng.random() < 0.3
    if aux:
        opts["has_aux"] = True
        c.count("aux")
    if kind == "jacrev" and rng.random() < 0.2:
        opts["chunk_size"] = rng.choice([1, 2])

    def function(const):
        def f(*args, **kwargs):
            ls = leaves_of(*args, kwargs) + ([const] if const is not None else [])
            r = fn(ls)
            if not aux:
                return r
            return r, ({"z": ls[-1] * 2} if fn.out == "scalar" else fn.elem[2][1](ls[0] * ls[-1]))

        return f

    what = f"{kind}({fn.text}, {opts})"
    pos = rng.random() < 0.3 and "argnums" in opts and list(opts) == ["argnums"]
    T = OURS[kind]
    tf = T(function(const), opts["argnums"]) if pos else T(function(const), **opts)
    spec_leaves, spec = pytree.tree_flatten((reals, kw))

    def ref(*ls):
        cval = ls[-1] if const is not None else None
        a, k_ = pytree.tree_unflatten(list(ls[: len(spec_leaves)]), spec)
        return TORCH[kind](function(cval), **opts)(*a, **k_)

    allfams = leaves_of(fams, kwf) + ([cfam] if cfam is not None else [])
    want = lift(ref, *allfams)
    if aux:
        # names the auxiliary output does not depend on need not appear: compared separately
        got = tf(*reals, **kw)
        c.check(isinstance(got, tuple) and len(got) == 2, what + ": auxiliary output")
        compare_tree(c, got[0], Fam(want.sizes, {a: v[0] for a, v in want.items.items()}), what)
        g = pytree.tree_leaves(got[1])
        have = set().union(*[set(sizesof(x)) for x in g])
        sub = {nm: s for nm, s in want.sizes.items() if nm in have}
        compare_tree(c, got[1], Fam(sub, {tuple(e.values()): want.at({**{nm: 0 for nm in want.sizes}, **e})[1] for e in assignments(sub)}), what + " aux")
    else:
        got = tf(*reals, **kw)
        compare_tree(c, got, want, what)
    c.count("transformed")
    c.count("named" if want.sizes else "plain")
    # the same transformed function again with other arguments
    if rng.random() < 0.4 and not aux:
        names2 = new_names(rng, 1)
        r2, f2 = [], []
        for r in spec_leaves:
            x, y = named(rng, names2, {names2[0]: 2}, shape) if kind != "grad" or not cfam or not cfam.sizes else named(rng, [], {}, shape)
            r2.append(x)
            f2.append(y)
        if not (kind == "grad" and cfam is not None and cfam.sizes):
            want2 = lift(ref, *f2, *([cfam] if cfam is not None else []))
            a2, k2 = pytree.tree_unflatten(r2, spec)
            compare_tree(c, tf(*a2, **k2), want2, what + " called again")
            c.count("again")
    c.key((what, [len(f.sizes) for f in allfams]))
    c.sample(what)


def products(c):
    """jvp and vjp."""
    rng = c.rng
    names = new_names(rng, rng.choice([0, 1, 2, 2]))
    sizes = {n: rng.choice([1, 2, 2, 3]) for n in names}
    shape = rng.choice([[], [2], [3], [2, 2]])
    fn = Fn(rng, rng.choice(["scalar", "tensor", "pair", "list", "dict"]))
    reals, fams, _, _ = make_args(c, names, sizes, shape)
    const = cfam = None
    if rng.random() < 0.5:
        const, cfam = named(rng, names, sizes, shape)
        if cfam.sizes:
            c.count("closure_names")
    aux = rng.random() < 0.3

    def function(const):
        def f(*args):
            ls = leaves_of(*args) + ([const] if const is not None else [])
            r = fn(ls)
            return (r, sum(ls[1:], ls[0]) * 2) if aux else r

        return f

    spec_leaves, spec = pytree.tree_flatten(tuple(reals))
    pf = leaves_of(fams)
    cf = [cfam] if cfam is not None else []
    opts = {"has_aux": True} if aux else {}
    what = f"{fn.text} aux={aux}"
    if aux:
        c.count("aux")
    n = len(spec_leaves)

    def cval(ls):
        return ls[-1] if const is not None else None

    total = set().union(*[set(f.sizes) for f in pf + cf])
    if rng.random() < 0.5:
        tan = [named(rng, names, sizes, shape) for _ in spec_leaves]
        tr = pytree.tree_unflatten([t[0] for t in tan], spec)
        tfam = [t[1] for t in tan]
        got = E.jvp(function(const), tuple(reals), tr, **opts)
        want = lift(lambda *ls: torch.func.jvp(function(cval(ls)), tuple(pytree.tree_unflatten(list(ls[:n]), spec)), tuple(pytree.tree_unflatten(list(ls[n:2 * n]), spec)), **opts), *pf, *tfam, *cf)
        c.check(isinstance(got, tuple) and len(got) == (3 if aux else 2), "jvp result", got=got)
        for k in range(len(got)):
            # an output has the names it depends on
            g = pytree.tree_leaves(got[k])
            have = set(sizesof(g[0]))
            c.check(all(set(sizesof(x)) == have for x in g), "names differ between outputs")
            c.check(have >= total if k < 2 else True, f"jvp {what}: names lost")
            sub = {nm: s for nm, s in want.sizes.items() if nm in have}
            compare_tree(c, got[k], Fam(sub, {tuple(e.values()): want.at({**{nm: 0 for nm in want.sizes}, **e})[k] for e in assignments(sub)}), f"jvp {what} output {k}")
        c.count("jvp")
        c.key(("jvp", what))
        return
    res = E.vjp(function(const), *reals, **opts)
    c.check(isinstance(res, tuple) and len(res) == (3 if aux else 2), "vjp result")
    primal = lift(lambda *ls: torch.func.vjp(function(cval(ls)), *pytree.tree_unflatten(list(ls[:n]), spec), **opts)[0], *pf, *cf)
    compare_tree(c, res[0], primal, f"vjp {what} value")
    if aux:
        compare_tree(c, res[2], lift(lambda *ls: torch.func.vjp(function(cval(ls)), *pytree.tree_unflatten(list(ls[:n]), spec), **opts)[2], *pf, *cf), f"vjp {what} aux")
    for _ in range(2):
        flat, ospec = pytree.tree_flatten(next(iter(primal.items.values())))
        order = list(primal.sizes)
        cot = []
        for x in flat:
            rng.shuffle(order)
            cot.append(with_names(rng, list(order), primal.sizes, x.shape))
        got = res[1](pytree.tree_unflatten([r for r, _ in cot], ospec))
        c.check(isinstance(got, tuple), "gradients are a tuple", got=type(got))
        gl, gs = pytree.tree_flatten(got)
        c.check(gs == spec, f"vjp {what}: structure of gradients {gs}, expected {spec}")
        want = lift(lambda *ls: leaves_of(torch.func.vjp(function(cval(ls)), *pytree.tree_unflatten(list(ls[:n]), spec), **opts)[1](pytree.tree_unflatten(list(ls[n: n + len(flat)]), ospec))), *pf, *[f for _, f in cot], *cf)
        for k in range(n):
            sub = pf[k].sizes
            items = {}
            for e in assignments(sub):
                rest = {nm: s for nm, s in want.sizes.items() if nm not in sub}
                items[tuple(e.values())] = sum(want.at({**e, **e2})[k].detach() for e2 in assignments(rest))
            compare(c, gl[k], Fam(sub, items), f"vjp {what} gradient {k}", 1e-8)
    c.count("vjp")
    c.key(("vjp", what, [len(f.sizes) for f in pf]))


def mapping(c):
    """vmap."""
    rng = c.rng
    names = new_names(rng, rng.choice([0, 1, 1, 2]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    B = rng.choice([1, 2, 3])
    shape = rng.choice([[], [2], [3], [2, 2]])
    out = rng.choice(["scalar", "tensor", "tensor", "pair", "list", "dict"])
    fn = Fn(rng, out)
    reals, fams, dims = [], [], []

    def one():
        d = rng.choice([0, 0, None]) if rng.random() < 0.6 or not shape else rng.randrange(-len(shape) - 1, len(shape) + 1)
        sh = list(shape)
        if d is not None:
            sh.insert(d if d >= 0 else len(shape) + 1 + d, B)
        r, f = named(rng, names, sizes, sh)
        return r, f, d

    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.8:
            r, f, d = one()
        else:
            a, b = one(), one()
            r, f, d = {"x": a[0], "y": b[0]}, {"x": a[1], "y": b[1]}, {"x": a[2], "y": b[2]}
            c.count("trees")
        reals.append(r)
        fams.append(f)
        dims.append(d)
    if not any(d is not None for d in pytree.tree_leaves(dims)):
        r, f = named(rng, names, sizes, [B] + shape)
        reals.append(r)
        fams.append(f)
        dims.append(0)
    const = cfam = None
    if rng.random() < 0.6:
        extra = new_names(rng, 1)
        const, cfam = named(rng, names + extra, {**sizes, extra[0]: 2}, shape)
        if cfam.sizes:
            c.count("closure_names")
    opts = {}
    if not all(d == 0 for d in dims) or rng.random() < 0.3:
        opts["in_dims"] = tuple(dims)
    if shape and rng.random() < 0.6:
        nd = len(shape)
        if out in ("tensor", "list"):
            opts["out_dims"] = rng.randrange(-nd - 1, nd + 1)
        elif out == "pair":
            opts["out_dims"] = (rng.randrange(-nd - 1, nd + 1), 0)
        elif out == "dict":
            opts["out_dims"] = {"b": 0, "a": rng.randrange(nd + 1)}
        if "out_dims" in opts:
            c.count("out_dims")
    if rng.random() < 0.15:
        opts["chunk_size"] = rng.choice([1, 2])
    inner = None
    if rng.random() < 0.25 and out == "tensor" and "out_dims" not in opts:
        inner = rng.choice(["jacrev", "jacfwd"])
        c.count("composed")

    def function(const, ours):
        def f(*args):
            return fn(leaves_of(*args) + ([const] if const is not None else []))

        return f if inner is None else (OURS if ours else TORCH)[inner](f)

    spec_leaves, spec = pytree.tree_flatten(tuple(reals))
    pf = leaves_of(fams)
    want = lift(lambda *ls: torch.func.vmap(function(ls[-1] if const is not None else None, False), **opts)(*pytree.tree_unflatten(list(ls[: len(pf)]), spec)), *pf, *([cfam] if cfam is not None else []))
    what = f"vmap({fn.text}, {opts}, inner={inner})"
    pos = rng.random() < 0.3 and list(opts) in (["in_dims"], ["in_dims", "out_dims"])
    mapped = E.vmap(function(const, True), *opts.values()) if pos else E.vmap(function(const, True), **opts)
    compare_tree(c, mapped(*reals), want, what)
    c.count("vmap")
    c.count("transformed")
    c.count("named" if want.sizes else "plain")
    c.key((what, [len(f.sizes) for f in pf]))


def composed(c):
    """Transforms of transforms."""
    rng = c.rng
    names = new_names(rng, rng.choice([1, 1, 2]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = rng.choice([[2], [3], []])
    fn = Fn(rng, "scalar")
    x, fx = named(rng, names, sizes, shape)
    y, fy = named(rng, names, sizes, shape)
    seq = rng.choice([["grad", "jacrev"], ["grad", "jacfwd"], ["jacfwd", "jacrev"], ["grad", "jacfwd", "jacrev"], ["grad", "gradsum"], ["jacrev", "jacfwd"]])
    if not shape:
        seq = rng.choice([["grad", "grad"], ["grad", "grad", "grad"], ["grad", "jacrev"]])

    def build(tab, y):
        f = lambda a: fn([a, y])
        for s in seq:
            if s == "gradsum":
                g = f
                f = tab["grad"](lambda a, g=g: g(a).sum())
            else:
                f = tab[s](f)
        return f

    closed = rng.random() < 0.5 and set(fy.sizes) <= set(fx.sizes)
    what = f"{seq} of {fn.text}"
    if closed:
        got = build(OURS, y)(x)
    else:
        def build2(tab):
            f = lambda a, b: fn([a, b])
            for s in seq:
                if s == "gradsum":
                    g = f
                    f = tab["grad"](lambda a, b, g=g: g(a, b).sum())
                else:
                    f = tab[s](f)
            return f

        got = build2(OURS)(x, y)
    want = lift(lambda a, b: build(TORCH, b)(a), fx, fy)
    compare_tree(c, got, want, what)
    c.count("composed")
    c.count("transformed")
    c.count("named" if want.sizes else "plain")
    c.key((what, closed, len(fx.sizes), len(fy.sizes)))


SECTIONS = [
    Section("transforms", transforms, 180, 8000, 3),
    Section("products", products, 120, 6000, 2),
    Section("mapping", mapping, 160, 8000, 2),
    Section("composed", composed, 80, 3000, 1),
]
