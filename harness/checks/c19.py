"""C19: NumPyro distributions with named dimensions."""
import math
import warnings

warnings.simplefilter("ignore")

from harness import jnamed as jn
from harness import npfams as nf
from harness.core import Section
from harness.named import Fam, assignments, lift

import jax
import jax.numpy as jnp
import numpy as np
import numpyro.distributions as plain

import effectful.handlers.numpyro as nd
from effectful.handlers.jax import bind_dims, jax_getitem, sizesof, unbind_dims
from effectful.ops.semantics import evaluate, handler
from effectful.ops.syntax import defop
from effectful.ops.types import Operation, Term

RULE = (
    "Every distribution family is built by the library with parameters of random named and positional layout (given by position, "
    "by keyword, or left out); the oracle is the plain NumPyro distribution built separately from the parameters of each index. "
    "Compared entry by entry: sizes, shapes, log density at named, shared and repeated values, mean, variance, entropy, support, "
    "enumerated support, expand, to_event, Independent, mask, binding names to positions (all or some, any order) and back, "
    "naming the batch of a plain distribution, and, statistically (Kolmogorov-Smirnov), the samples of every index. Terms with "
    "unbound parameters are evaluated later under handlers and must agree with the direct construction. Distinct by family and layout."
)
ASSUMPTIONS = [
    "64-bit floats; plain NumPyro is the reference for a single index.",
    "Samples: two-sample Kolmogorov-Smirnov test with 300 samples at a level of about 1e-7 per component.",
    "Enumeration needs the same total count at every index, as in plain NumPyro.",
]
NEED = {"entries": 400, "stats": 30, "entropies": 15, "binds": 20, "unbinds": 20, "sampled_indices": 40, "derived": 15, "plain": 20, "deferred": 10, "enumerations": 5, "supports": 8}
KEY = jax.random.PRNGKey


def named(t, names):
    t = jnp.asarray(t)
    return jax_getitem(t, tuple(n() for n in names)) if names else t


def sample_all(refs, seed, shape=()):
    return {k: np.asarray(r.sample(KEY(seed + q), shape)) for q, (k, r) in enumerate(refs.items.items())}


def lp(r, x):
    return r.log_prob(jnp.asarray(x))


def agree(c, real, fam, what, tol=1e-8):
    """The real value has no names beyond the family's, and its entry at every assignment."""
    c.check(isinstance(real, (jax.Array, np.ndarray, float)) or isinstance(real, Term), f"{what}: not an array: {type(real)}")
    sizes = dict(sizesof(real))
    c.check(all(fam.sizes.get(n) == s for n, s in sizes.items()), f"{what}: dimensions {sizes}, expected among {fam.sizes}")
    order = list(sizes)
    pos = np.asarray(bind_dims(real, *order) if order else real)
    for env in assignments(fam.sizes):
        got = pos[tuple(env[n] for n in order)] if order else pos
        want = np.asarray(fam.at(env))
        if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True):
            c.fail(f"{what}: at {env}: {got.tolist()} (shape {got.shape}), expected {want.tolist()} (shape {want.shape})")
        c.count("entries")


# their parameters do not broadcast against each other in plain NumPyro
ALIGNED = ("Delta",)


QUICK = [((3, 2), ()), ((3,), (2,)), ((2, 3), (2,)), ((3,), ())]


class Layout:
    """A family with parameters of random layout: what is named, what is positional."""

    def __init__(self, c, fname, small=False):
        rng = c.rng
        self.c = c
        self.fname = fname
        self.cls, self.kinds, self.const = nf.FAMILIES[fname]
        # the quick tier keeps to a few sizes per worker: compiled operations are shared between cases
        if c.tier == "quick":
            sz, self.batch = QUICK[c.index % len(QUICK)]
        else:
            sz = rng.choice([(3, 2, 2), (3, 2, 2), (2, 3, 1), (1, 3, 2)])[: rng.choice([1, 1, 2, 2, 3])]
            self.batch = rng.choice([(), (), (), (2,), (2,), (3,), (1, 2), (2, 1)])
        self.names = jn.new_names(rng, len(sz))
        self.sizes = dict(zip(self.names, sz))
        if small:
            self.batch = self.batch[:1]
        self.fams, self.args = {}, {}
        left = list(self.names)
        for q, (p, kind) in enumerate(self.kinds.items()):
            mine = [n for n in self.names if rng.random() < 0.6]
            if q == len(self.kinds) - 1:
                mine += [n for n in left if n not in mine]
            rng.shuffle(mine)
            left = [n for n in left if n not in mine]
            b = self.batch if (q == 0 or rng.random() < 0.6 or fname.startswith(ALIGNED)) else self.batch[rng.randint(0, len(self.batch)):]
            t = nf.gen_param(rng, kind, tuple(self.sizes[n] for n in mine) + b)
            self.fams[p] = jn.from_array(t, mine)
            self.args[p] = named(t, mine)
        c.info(f"{fname} names {self.sizes} batch {self.batch} params " + ", ".join(f"{p}: {list(f.sizes)} {tuple(self.args[p].shape)}" for p, f in self.fams.items()))

    def refs(self):
        return lift(lambda *ps: nf.build_plain(self.fname, dict(zip(self.fams, ps))), *self.fams.values())

    def real(self):
        return nf.build_named(self.fname, self.args, self.c.rng)

    def key(self):
        return (self.fname, tuple(self.sizes.values()), self.batch, tuple((p, tuple(f.sizes.values())) for p, f in self.fams.items()))


NAMES = sorted(nf.FAMILIES)
DISCRETE = ("Bernoulli", "Categorical", "Binomial", "Geometric", "Multinomial", "Poisson", "DirichletMultinomial", "NegativeBinomial")


def first(fam):
    return next(iter(fam.items.values()))


def shapes(c, d, r, what):
    c.check(tuple(d.batch_shape) == tuple(r.batch_shape) and tuple(d.event_shape) == tuple(r.event_shape), f"{what}: shapes {d.batch_shape} {d.event_shape}, expected {r.batch_shape} {r.event_shape}")


def bound_ref(refs, full, some, rest, r0):
    w = Fam({n: refs.sizes[n] for n in rest}, {})
    for env in assignments(w.sizes):
        vals = [np.asarray(refs.at({**env, **e}).log_prob(jnp.asarray(full[tuple({**env, **e}[n] for n in refs.sizes)]))) for e in assignments({n: refs.sizes[n] for n in some})]
        w.items[tuple(env.values())] = np.stack(vals).reshape(tuple(refs.sizes[n] for n in some) + tuple(r0.batch_shape))
    return w


def families(c):
    rng = c.rng
    L = Layout(c, NAMES[c.index % len(NAMES)])
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    r0 = first(refs)
    c.check(isinstance(d, Term) and isinstance(d, plain.Distribution) and isinstance(d, getattr(nd, L.cls + "Term")), f"built {type(d)}")
    c.check(dict(sizesof(d)) == L.sizes, f"sizes {sizesof(d)}, expected {L.sizes}")
    shapes(c, d, r0, "built")
    c.check(d.has_rsample == r0.has_rsample, f"has_rsample {d.has_rsample}, expected {r0.has_rsample}")
    # values: drawn from the plain distribution of every assignment
    full = sample_all(refs, c.index * 7)
    vnames = list(refs.sizes)
    if rng.random() < 0.3 and vnames:
        vnames.remove(rng.choice(vnames))
    reps = rng.choice([(), (), (2,)] + [(2, 1)] * (c.tier != 'quick'))
    val = Fam({n: refs.sizes[n] for n in vnames}, {})
    for env in assignments(val.sizes):
        e2 = {n: env.get(n, 0) for n in refs.sizes}
        x = full[tuple(e2.values())]
        val.items[tuple(env.values())] = np.broadcast_to(x, reps + x.shape)
    order = list(vnames)
    rng.shuffle(order)
    v = named(jn.dense(val, order), order)
    agree(c, d.log_prob(v), lift(lp, refs, val), f"log_prob with {reps} repetitions")
    if r0.batch_shape and not L.fname.startswith(ALIGNED + ("Mvn", "LowRank")) and rng.random() < 0.4:
        # values with fewer batch dimensions than the distribution
        k = rng.randint(1, len(r0.batch_shape))
        lo = lift(lambda x: x[(0,) * (len(reps) + k)], val)
        agree(c, d.log_prob(named(jn.dense(lo, order), order)), lift(lp, refs, lo), f"log_prob of a value without {k} batch dimensions")
    which = ["mean", "variance", "entropy", "support"]
    rng.shuffle(which)
    for st in which[: 4 if c.tier != "quick" else 2]:
        if st in ("mean", "variance"):
            try:
                w = lift(lambda r: getattr(r, st), refs)
            except NotImplementedError:
                c.raises((RuntimeError, NotImplementedError), lambda: getattr(d, st), f"{st} of a family without one")
                continue
            agree(c, getattr(d, st), w, st)
            c.count("stats")
        elif st == "entropy":
            try:
                w = lift(lambda r: r.entropy(), refs)
            except NotImplementedError:
                continue
            agree(c, d.entropy(), w, "entropy")
            c.count("entropies")
        elif st == "support" and L.cls in ("Uniform", "BinomialProbs", "BinomialLogits", "Pareto", "Gamma", "HalfNormal", "Normal"):
            # of the positional form, with the dimensions in the order of the sizes; shifted values are inside or outside
            delta = rng.choice([0, 1.5, -1.5])
            own = list(sizesof(d))
            sv = jnp.asarray(jn.dense(Fam(refs.sizes, full), own)) + delta
            w = np.stack([np.broadcast_to(np.asarray(refs.at(e).support(full[tuple(e[n] for n in refs.sizes)] + delta)), r0.batch_shape) for e in assignments({n: L.sizes[n] for n in own})])
            got = np.asarray(d.support(sv))
            got, w = np.broadcast_arrays(got, w.reshape(tuple(L.sizes[n] for n in own) + tuple(r0.batch_shape)))
            c.check((got == w).all(), f"support of values moved by {delta}: {got.tolist()}, expected {w.tolist()}")
            c.count("supports")
    if c.tier != "quick" or rng.random() < 0.6:
        binding(c, rng, L, d, refs, full, r0)
    # samples
    meth = rng.choice(["sample", "rsample"] if r0.has_rsample else ["sample"])
    ss = rng.choice([(), (2,), (3, 2)])
    s = getattr(d, meth)(KEY(c.index), ss)
    c.check(set(sizesof(s)) <= set(L.sizes), f"{meth}: sizes {sizesof(s)}")
    c.check(tuple(s.shape) == ss + tuple(r0.batch_shape) + tuple(r0.event_shape), f"{meth}{ss}: shape {s.shape}, expected {ss} {r0.batch_shape} {r0.event_shape}")


def binding(c, rng, L, d, refs, full, r0):
    # names become positions
    order = list(L.names)
    rng.shuffle(order)
    k = rng.randint(1, len(order)) if rng.random() < 0.4 else len(order)
    some, rest = order[:k], order[k:]
    bd = bind_dims(d, *some)
    c.check(isinstance(bd, plain.Distribution), f"bound to {type(bd)}")
    c.check(dict(sizesof(bd)) == {n: L.sizes[n] for n in rest}, f"after binding {some}: sizes {sizesof(bd)}")
    c.check(tuple(bd.batch_shape) == tuple(L.sizes[n] for n in some) + tuple(r0.batch_shape) and tuple(bd.event_shape) == tuple(r0.event_shape), f"bound shapes {bd.batch_shape} {bd.event_shape}")
    fv = named(jn.dense(Fam(refs.sizes, full), rest + some), rest)
    agree(c, bd.log_prob(fv), bound_ref(refs, full, some, rest, r0), f"log_prob bound {some}")
    c.count("binds")
    # and back
    fresh = jn.new_names(rng, len(some))
    ub = unbind_dims(bd, *fresh)
    ren = dict(zip(some, fresh))
    shapes(c, ub, r0, "bound and unbound")
    v2 = named(jn.dense(Fam(refs.sizes, full), rest + some), rest + fresh)
    w = Fam({ren.get(n, n): s for n, s in refs.sizes.items()}, {k: lp(refs.items[k], full[k]) for k in refs.items})
    agree(c, ub.log_prob(v2), w, f"log_prob bound {some} and unbound")
    c.count("unbinds")


N = 300
KS_LIMIT = 2.9 * math.sqrt(2 / N)  # p-value about 1e-7 per component


def ks(a, b):
    both = np.concatenate([a, b])
    return np.abs((a[None] <= both[:, None]).mean(1) - (b[None] <= both[:, None]).mean(1)).max(0)


def sampling(c):
    """Samples of every index follow the plain distribution of that index."""
    rng = c.rng
    L = Layout(c, NAMES[(2 * c.index + c.index // 28) % len(NAMES)], small=True)
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    r0 = first(refs)
    seed = rng.randrange(10**6)
    if rng.random() < 0.3:
        order = list(L.names)
        rng.shuffle(order)
        how = "bound"
        pos = np.asarray(bind_dims(d, *order).sample(KEY(seed), (N,)))
    else:
        how = "rsample" if r0.has_rsample and rng.random() < 0.5 else "sample"
        s = getattr(d, how)(KEY(seed), (N,))
        order = list(sizesof(s))
        c.check(set(order) == {n for n in L.sizes} or all(L.sizes[n] >= 1 for n in order), f"{how}: dimensions {order}")
        pos = np.asarray(bind_dims(s, *order) if order else s)
        pos = np.moveaxis(pos, tuple(range(len(order))), tuple(range(1, len(order) + 1)))
    cols = {}
    for q, env in enumerate(assignments(L.sizes)):
        got = pos[(slice(None),) + tuple(env[n] for n in order)]
        ref = np.asarray(refs.at(env).sample(KEY(seed + 1 + q), (N,)))
        c.check(got.shape == ref.shape, f"samples {how}: shape {got.shape}, expected {ref.shape}")
        dmax = float(ks(got.reshape(N, -1).astype(float), ref.reshape(N, -1).astype(float)).max())
        c.check(dmax < KS_LIMIT, f"{how} samples at {env} do not follow the plain distribution: KS distance {dmax:.3f} over {N} samples")
        cols[tuple(env.values())] = got
        c.count("sampled_indices")
    # different indices of the names a sample has are drawn independently
    if not L.fname.startswith(DISCRETE + ("Delta",)) and order:
        seen = {}
        for env in assignments({n: L.sizes[n] for n in order}):
            x = cols[tuple(env.get(n, 0) for n in L.sizes)]
            k = repr(x.reshape(-1)[:20].tolist())
            c.check(k not in seen, f"{how}: the samples at {env} repeat those at {seen.get(k)}")
            seen[k] = env


def derived(c):
    """expand, to_event, Independent and mask of a distribution with named parameters, also chained."""
    rng = c.rng
    L = Layout(c, rng.choice(NAMES), small=True)
    steps = []
    how = None
    d, refs = L.real(), L.refs()
    for _ in range(rng.choice([1, 1, 2])):
        r0 = first(refs)
        how = rng.choice(["expand", "expand", "expand_by", "to_event", "to_event", "independent", "mask"])
        if how == "expand":
            old = tuple(rng.choice([1, 2, 3]) if s == 1 else s for s in r0.batch_shape)
            ex = tuple(rng.choice([1, 2]) for _ in range(rng.randint(0, 2))) + old
            conv = rng.choice([tuple, tuple, list])
            f = lambda x, ex=ex, conv=conv: x.expand(conv(ex) if isinstance(x, Term) else ex)
            steps.append(f"expand {conv(ex)}")
        elif how == "expand_by":
            ex = tuple(rng.choice([1, 2]) for _ in range(rng.randint(0, 2)))
            f = lambda x, ex=ex: x.expand_by(ex)
            steps.append(f"expand_by {ex}")
        elif how == "to_event":
            k = rng.choice([None] + list(range(len(r0.batch_shape) + 1)))
            f = lambda x, k=k: x.to_event(k)
            steps.append(f"to_event {k}")
        elif how == "independent":
            k = rng.randint(0, len(r0.batch_shape))
            f = lambda x, k=k: nd.Independent(x, k) if isinstance(x, Term) else plain.Independent(x, k)
            steps.append(f"Independent {k}")
        else:
            if steps:
                how = None
                continue
            m = rng.random() < 0.5
            f = lambda x, m=m: x.mask(m)
            steps.append(f"mask {m}")
        d = f(d)
        refs = lift(f, refs)
        if how == "mask":
            break
    how = "mask" if steps[0].startswith("mask") else how
    c.info(f"steps: {steps}")
    c.key((tuple(steps), L.key()))
    r0 = first(refs)
    what = " then ".join(steps)
    if how != "mask":
        shapes(c, d, r0, what)
        c.check(dict(sizesof(d)) == L.sizes, f"{what}: sizes {sizesof(d)}, expected {L.sizes}")
    full = sample_all(refs, c.index * 7)
    val = Fam(refs.sizes, full)
    order = list(L.names)
    rng.shuffle(order)
    v = named(jn.dense(val, order), order)
    if steps == ["mask False"]:
        return
    agree(c, d.log_prob(v), lift(lp, refs, val), f"log_prob after {what}")
    c.count("derived")
    if how == "mask":
        return
    s = d.sample(KEY(3), (2,))
    c.check(tuple(s.shape) == (2,) + tuple(r0.batch_shape) + tuple(r0.event_shape) and set(sizesof(s)) <= set(L.sizes), f"{what}: sample {s.shape} {sizesof(s)}")
    try:
        w = lift(lambda r: r.mean, refs)
    except NotImplementedError:
        w = None
    if w is not None:
        agree(c, d.mean, w, f"mean after {what}")
    bd = bind_dims(d, *order)
    c.check(tuple(bd.batch_shape) == tuple(L.sizes[n] for n in order) + tuple(r0.batch_shape) and tuple(bd.event_shape) == tuple(r0.event_shape), f"{what}: bound shapes {bd.batch_shape} {bd.event_shape}")
    agree(c, bd.log_prob(jnp.asarray(jn.dense(val, order))), bound_ref(refs, full, order, [], r0), f"log_prob after {what}, bound")


def enumeration(c):
    rng = c.rng
    L = Layout(c, rng.choice(["BernoulliProbs", "BernoulliLogits", "CategoricalProbs", "CategoricalLogits", "BinomialProbsInt", "BinomialLogitsInt", "BinomialDefault"]), small=True)
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    ex = rng.random() < 0.5
    agree(c, d.enumerate_support(ex), lift(lambda r: r.enumerate_support(ex), refs), f"enumerate_support(expand={ex})")
    c.count("enumerations")


def plain_batch(c):
    """A plain distribution is embedded as it is, and its batch dimensions can be named."""
    rng = c.rng
    fname = NAMES[c.index % len(NAMES)]
    cls, kinds, const = nf.FAMILIES[fname]
    nb = rng.choice([1, 1, 2, 2])
    batch = (3,) if nb == 1 else (2, 3) if c.tier == 'quick' else rng.choice([(2, 3), (3, 2), (1, 2)])
    part = rng.random() < 0.4 and len(kinds) > 1 and not fname.startswith(ALIGNED)
    ps = {p: nf.gen_param(rng, kind, batch if (q == 0 or not part) else rng.choice([batch, (), batch[-1:], (1,) * nb])) for q, (p, kind) in enumerate(kinds.items())}
    p = nf.build_plain(fname, ps)
    c.info(f"plain {fname} batch {batch} " + str({k: v.shape for k, v in ps.items()}))
    c.key((fname, batch, tuple(v.shape for v in ps.values())))
    x = np.asarray(p.sample(KEY(c.index), (2,)))
    want = lp(p, x)
    e = evaluate(p)
    c.check(isinstance(e, Term) and isinstance(e, plain.Distribution), f"embedded as {type(e)}")
    shapes(c, e, p, "embedded")
    agree(c, e.log_prob(jnp.asarray(x)), Fam({}, {(): want}), "log_prob of the embedded distribution")
    k = rng.randint(1, nb)
    names = jn.new_names(rng, k)
    src = rng.choice([p, p, e])
    d = unbind_dims(src, *names)
    sizes = dict(zip(names, batch))
    c.check(all(sizes.get(n) == s for n, s in sizesof(d).items()), f"named: sizes {sizesof(d)}, expected {sizes}")
    c.check(tuple(d.batch_shape) == batch[k:] and tuple(d.event_shape) == tuple(p.event_shape), f"named: shapes {d.batch_shape} {d.event_shape}")
    xs = named(np.moveaxis(x, 0, k), names)
    w = Fam(sizes, {tuple(a.values()): np.moveaxis(np.asarray(want), 0, k)[tuple(a.values())] for a in assignments(sizes)})
    c.count("plain")
    agree(c, d.log_prob(xs), w, f"log_prob after naming {k} of {nb} dimensions")
    if set(sizesof(d)) == set(names):
        back = bind_dims(d, *names)
        shapes(c, back, p, "named and bound again")
        agree(c, back.log_prob(jnp.asarray(x)), Fam({}, {(): want}), "log_prob named and bound again")
    if c.tier == "quick" and rng.random() < 0.7:
        return
    # inside of a structure
    both = unbind_dims({"d": src, "x": jnp.asarray(np.moveaxis(x, 0, k))}, *names)
    agree(c, both["d"].log_prob(both["x"]), w, "log_prob of a distribution named inside a structure")


def deferred(c):
    """Parameters that are not known yet."""
    rng = c.rng
    L = Layout(c, rng.choice([f for f in NAMES if len(nf.FAMILIES[f][1]) >= 1]), small=True)
    L.batch = ()
    unknown = [p for p in L.kinds if rng.random() < 0.6] or [next(iter(L.kinds))]
    ops = {p: defop(jax.Array, name=p) for p in unknown}
    args = {p: (ops[p]() if p in unknown else a) for p, a in L.args.items()}
    d = nf.build_named(L.fname, args, rng)
    c.key((L.key(), tuple(unknown)))
    c.check(isinstance(d, Term) and isinstance(d, getattr(nd, L.cls + "Term")), f"built {type(d)}")
    refs = L.refs()
    full = sample_all(refs, c.index * 7)
    val = Fam(refs.sizes, full)
    order = list(L.names)
    rng.shuffle(order)
    v = named(jn.dense(val, order), order)
    vop = defop(jax.Array, name="v")
    late = rng.random() < 0.4
    dens = d.log_prob(vop() if late else v)
    c.check(isinstance(dens, Term), f"log_prob with unknown parameters: {type(dens)}")
    ex = rng.random() < 0.4
    rep = ()
    if ex:
        rep = (2,)
        r0 = first(refs)
        dens = d.expand(rep + tuple(r0.batch_shape)).log_prob(vop() if late else v)
        refs = lift(lambda r: r.expand(rep + tuple(r.batch_shape)), refs)
    env = {op: (lambda x: lambda: x)(L.args[p]) for p, op in ops.items()}
    env[vop] = lambda: v
    got = evaluate(dens, intp=env) if rng.random() < 0.5 else None
    if got is None:
        with handler(env):
            got = evaluate(dens)
    agree(c, got, lift(lp, refs, val), f"log_prob evaluated later (expand {rep})")
    with handler(env):
        d2 = nf.build_named(L.fname, {p: (ops[p]() if p in unknown else a) for p, a in L.args.items()}, rng)
        agree(c, d2.log_prob(v), lift(lp, L.refs(), val), "log_prob under a handler for the parameters")
    c.count("deferred")


def naming(c):
    """Naming.apply names the dimensions counted from the right."""
    rng = c.rng
    k = rng.randint(1, 3)
    names = jn.new_names(rng, k)
    shape = [rng.choice([1, 2, 3]) for _ in range(k + rng.randint(0, 2))]
    ev = rng.randint(0, len(shape) - k)
    x = jn.random_array(rng, shape)
    c.key((tuple(shape), k, ev))
    n = nd.Naming.from_shape(names, ev)
    at = len(shape) - ev - k
    moved = np.moveaxis(x, tuple(range(at, at + k)), tuple(range(k)))
    agree(c, n.apply(x), jn.from_array(moved, names), f"naming {k} dimensions before {ev} event dimensions")
    pos = rng.sample(range(len(shape)), k)
    n = nd.Naming({m: p - len(shape) for m, p in zip(names, pos)})
    agree(c, n.apply(x), jn.from_array(np.moveaxis(x, pos, tuple(range(k))), names), f"naming at {pos}")


SECTIONS = [
    Section("families", families, 55, 2000, 4),
    Section("sampling", sampling, 28, 1200, 4),
    Section("derived", derived, 24, 1200, 2),
    Section("enumeration", enumeration, 12, 200),
    Section("plain_batch", plain_batch, 55, 1000, 3),
    Section("deferred", deferred, 12, 600, 2),
    Section("naming", naming, 12, 200),
]
