"""C18: Pyro models and distributions with named dimensions."""
import itertools
import math
import warnings

warnings.simplefilter("ignore")

import pyro
import pyro.distributions as dist
import torch

from harness import pyrofams as pf
from harness.core import Section
from harness.named import Fam, assignments, close, dense, from_tensor, lift

from effectful.handlers.pyro import PyroShim, pyro_module_shim, pyro_sample
from effectful.handlers.torch import bind_dims, sizesof, unbind_dims
from effectful.ops.semantics import fwd, handler
from effectful.ops.types import Operation, Term

torch.set_num_threads(1)
torch.distributions.Distribution.set_default_validate_args(False)
pyro.enable_validation(False)

RULE = (
    "Every distribution family is built with parameters of random named and positional layout; the oracle is the plain Pyro "
    "distribution built separately from the parameters of each index. Compared: sizes, shapes, log density, mean, variance, "
    "entropy, support, enumeration, expand/to_event/mask, binding names to positions (all or some, any order) and back, and, "
    "statistically (Kolmogorov-Smirnov), the samples of every index. Random Pyro programs (plates, subsampling, masks, scales, "
    "factors, parameters, observations, observation masks) are traced directly and through the sampling operation or the bridge, "
    "with condition/replay/do/block/mask/scale outside or inside: the traces, returned values, random state and the sequence of "
    "sampling operations must be the same. Models with named parameters, observations and masks are judged entry by entry "
    "against the plain distributions at the values recorded. Distinct by family and layout, by program, by model."
)
ASSUMPTIONS = [
    "Argument validation is off (named tensors have no data-dependent truth value).",
    "Observations PyTorch cannot make on any batch of named tensors (setitem, data-dependent control flow, scatter) are left out: log density of Multinomial and the NaN-masked normals, samples of Multinomial and VonMises, mean of StudentT and FisherSnedecor, entropy of Binomial and Multinomial, named Wishart.",
    "Parameters of Delta and the relaxed families have the same positional batch (these families do not broadcast them); the temperature of a relaxed categorical is a constant.",
    "Traces and plates of named sites: the trace is taken outside of the bridge, plates of sites with names are inside of it.",
    "Samples: two-sample Kolmogorov-Smirnov test with 300 samples at a level of about 1e-7 per component.",
]
NEED = {"entries": 400, "stats": 40, "entropies": 10, "binds": 25, "unbinds": 25, "sampled_indices": 50, "derived": 15, "sites": 300, "operations": 30, "named_models": 30, "densities": 150, "how_shim": 20, "how_op": 5, "wrap_replay": 5, "wrap_condition": 5, "mode_replay": 5}


def new_names(rng, k):
    base = rng.choice(["i", "j"])
    return [Operation.define(torch.Tensor, name=rng.choice([base, base, "k"])) for _ in range(k)]


def named(t, names):
    return t[tuple(n() for n in names)] if names else t


def agree(c, real, fam, what, tol=1e-8):
    """The real value has no names beyond the family's and its entry at every assignment."""
    c.check(isinstance(real, torch.Tensor), f"{what}: not a tensor: {type(real)}")
    sizes = dict(sizesof(real))
    c.check(all(fam.sizes.get(n) == s for n, s in sizes.items()), f"{what}: dimensions {sizes}, expected among {fam.sizes}")
    order = list(sizes)
    pos = bind_dims(real, *order) if order else real
    for env in assignments(fam.sizes):
        got = pos[tuple(env[n] for n in order)] if order else pos
        want = torch.as_tensor(fam.at(env))
        if got.shape != want.shape or not close(got, want.to(got.dtype) if got.dtype.is_floating_point and want.dtype.is_floating_point else want, tol):
            c.fail(f"{what}: at {env}: {got.tolist()} (shape {tuple(got.shape)}), expected {want.tolist()} (shape {tuple(want.shape)})")
        c.count("entries")


# their parameters do not broadcast against each other
ALIGNED = ("Delta", "Relaxed")


class Layout:
    """A family with parameters of random layout: what is named, what is positional."""

    def __init__(self, c, fname=None, small=False):
        rng = c.rng
        self.c = c
        self.fname = fname or rng.choice(sorted(pf.FAMILIES))
        self.build, self.kinds = pf.FAMILIES[self.fname]
        self.names = new_names(rng, rng.choice([1, 1, 2] if small or c.tier == 'quick' else [1, 1, 2, 2, 3]))
        self.sizes = {n: rng.choice([1, 2, 3, 3]) for n in self.names}
        self.batch = tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 0, 1, 2])))
        self.fams, self.args = {}, {}
        left = list(self.names)
        for q, (p, kind) in enumerate(self.kinds.items()):
            mine = [n for n in self.names if rng.random() < 0.6]
            if q == len(self.kinds) - 1:
                mine += [n for n in left if n not in mine]
            rng.shuffle(mine)
            left = [n for n in left if n not in mine]
            # positional batch: all of it or none (the parameters broadcast)
            b = self.batch if (q == 0 or rng.random() < 0.7 or self.fname.startswith(ALIGNED)) else ()
            t = pf.gen_param(rng, kind, tuple(self.sizes[n] for n in mine) + b)
            self.fams[p] = from_tensor(t, mine)
            self.args[p] = named(t, mine)
        c.info(f"{self.fname} names {self.sizes} batch {self.batch} params " + ", ".join(f"{p}: {list(f.sizes)} {tuple(self.args[p].shape)}" for p, f in self.fams.items()))

    def ref(self, env):
        return self.build(**{p: f.at(env) for p, f in self.fams.items()})

    def refs(self):
        return lift(lambda *ps: self.build(**dict(zip(self.fams, ps))), *self.fams.values())

    def real(self):
        return self.build(**self.args)

    def key(self):
        return (self.fname, tuple(self.sizes.values()), self.batch, tuple((p, tuple(f.sizes.values())) for p, f in self.fams.items()))


NO_LOG_PROB = {"Multinomial", "NanMaskedMvn", "NanMaskedNormal"}
NO_SAMPLE = {"Multinomial", "VonMises"}
NO_STATS = {"FisherSnedecor", "StudentT", "StudentTKw", "Multinomial"}
NO_ENTROPY = {"Multinomial", "Binomial", "BinomialInt", "ExtendedBinomial"}
NO_NAMED = {"Wishart", "WishartCov"}


def families(c):
    names = [f for f in sorted(pf.FAMILIES) if f not in NO_NAMED]
    L = Layout(c, names[c.index % len(names)])
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    L.refsfam = refs
    rng = c.rng
    sizes = dict(sizesof(d))
    c.check(sizes == L.sizes, f"sizes {sizes}, expected {L.sizes}")
    r0 = next(iter(refs.items.values()))
    c.check(tuple(d.batch_shape) == tuple(r0.batch_shape) and tuple(d.event_shape) == tuple(r0.event_shape), f"shapes {d.batch_shape} {d.event_shape}, expected {r0.batch_shape} {r0.event_shape}")
    # values: drawn from the plain distribution of every assignment
    torch.manual_seed(c.index * 7 + 1)
    vnames = list(refs.sizes)
    if rng.random() < 0.3 and len(vnames) > 1:
        vnames.remove(rng.choice(vnames))
    full = {k: r.sample() for k, r in refs.items.items()}
    val = Fam({n: refs.sizes[n] for n in vnames}, {})
    for env in assignments(val.sizes):
        e2 = {n: env.get(n, 0) for n in refs.sizes}
        val.items[tuple(env.values())] = full[tuple(e2.values())]
    order = list(vnames)
    rng.shuffle(order)
    v = named(dense(val, order), order)
    if L.fname not in NO_LOG_PROB:
        want = lift(lambda r, x: r.log_prob(x), refs, val)
        agree(c, d.log_prob(v), want, "log_prob")
    for st in ("mean", "variance", "stddev"):
        if L.fname in NO_STATS:
            break
        try:
            w = lift(lambda r: getattr(r, st), refs)
        except NotImplementedError:
            continue
        agree(c, getattr(d, st), w, st)
        c.count("stats")
    if L.fname not in NO_ENTROPY:
        try:
            w = lift(lambda r: r.entropy(), refs)
        except NotImplementedError:
            w = None
        if w is not None:
            agree(c, d.entropy(), w, "entropy")
            c.count("entropies")
    # support
    w = lift(lambda r, x: torch.as_tensor(r.support.check(x)), refs, val)
    agree(c, torch.as_tensor(d.support.check(v)), w, "support")
    # names become positions
    order = list(L.names)
    rng.shuffle(order)
    k = rng.randint(1, len(order)) if rng.random() < 0.4 else len(order)
    some, rest = order[:k], order[k:]
    bd = bind_dims(d, *some)
    c.check(type(bd) is type(r0), f"bound to {type(bd)}")
    c.check(dict(sizesof(bd)) == {n: L.sizes[n] for n in rest}, f"after binding {some}: sizes {sizesof(bd)}")
    c.check(tuple(bd.batch_shape) == tuple(L.sizes[n] for n in some) + tuple(r0.batch_shape) and tuple(bd.event_shape) == tuple(r0.event_shape), f"bound shapes {bd.batch_shape} {bd.event_shape}")
    if L.fname not in NO_LOG_PROB or not rest:
        fv = dense(Fam(refs.sizes, full), rest + some)
        fv = named(fv, rest)
        lp = bd.log_prob(fv)
        w = Fam({n: refs.sizes[n] for n in rest}, {})
        for env in assignments(w.sizes):
            w.items[tuple(env.values())] = torch.stack([refs.at({**env, **e}).log_prob(full[tuple({**env, **e}[n] for n in refs.sizes)]) for e in assignments({n: refs.sizes[n] for n in some})]).reshape(tuple(L.sizes[n] for n in some) + tuple(r0.batch_shape))
        agree(c, lp, w, f"log_prob bound {some}")
        c.count("binds")
    # and back
    fresh = new_names(rng, len(some))
    ub = unbind_dims(bd, *fresh)
    if L.fname not in NO_LOG_PROB:
        ren = dict(zip(some, fresh))
        v2 = named(dense(Fam(refs.sizes, full), rest + some), rest + fresh)
        w = Fam({ren.get(n, n): s for n, s in refs.sizes.items()}, {k: refs.items[k].log_prob(full[k]) for k in refs.items})
        agree(c, ub.log_prob(v2), w, f"log_prob bound {some} and unbound")
        c.count("unbinds")
    # samples
    if L.fname not in NO_SAMPLE:
        for meth in ("sample", "rsample"):
            if meth == "rsample" and not r0.has_rsample:
                continue
            ss = rng.choice([(), (2,), (3, 2)])
            s = getattr(d, meth)(torch.Size(ss))
            c.check(set(sizesof(s)) <= set(L.sizes), f"{meth}: sizes {sizesof(s)}")
            c.check(tuple(s.shape) == ss + tuple(r0.batch_shape) + tuple(r0.event_shape), f"{meth}{ss}: shape {s.shape}, expected {ss} {r0.batch_shape} {r0.event_shape}")


def ks(a, b):
    """Two-sample Kolmogorov-Smirnov distance along the first dimension, per component."""
    both = torch.cat([a, b])
    return ((a.unsqueeze(0) <= both.unsqueeze(1)).double().mean(1) - (b.unsqueeze(0) <= both.unsqueeze(1)).double().mean(1)).abs().amax(0)


N = 300
KS_LIMIT = 2.9 * math.sqrt(2 / N)  # p-value about 1e-7 per component


def sampling(c):
    """Samples of every index follow the plain distribution of that index."""
    names = [f for f in sorted(pf.FAMILIES) if f not in NO_NAMED | NO_SAMPLE]
    L = Layout(c, names[c.index % len(names)], small=True)
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    r0 = next(iter(refs.items.values()))
    torch.manual_seed(c.rng.randrange(10**6))
    how = c.rng.choice(["named", "named", "bound"])
    if how == "bound":
        order = list(L.names)
        c.rng.shuffle(order)
        pos = bind_dims(d, *order).sample((N,))
        lead = 1
    else:
        meth = "rsample" if r0.has_rsample and c.rng.random() < 0.5 else "sample"
        s = getattr(d, meth)((N,))
        order = [n for n in sizesof(s)]
        pos = bind_dims(s, *order)
        lead = 0
        if order:
            pos = pos.movedim(tuple(range(len(order))), tuple(range(1, len(order) + 1)))
    cols = {}
    for env in assignments(L.sizes):
        got = pos[(slice(None),) + tuple(env[n] for n in order)]
        ref = refs.at(env).sample((N,))
        c.check(got.shape == ref.shape, f"samples {how}: shape {got.shape}, expected {ref.shape}")
        dmax = float(ks(got.reshape(N, -1).double(), ref.reshape(N, -1).double()).amax())
        c.check(dmax < KS_LIMIT, f"{how} samples at {env} do not follow the plain distribution: KS distance {dmax:.3f} over {N} samples")
        c.check(bool(refs.at(env).support.check(got).all()), f"{how} samples at {env} outside the support")
        cols[tuple(env.values())] = got
        c.count("sampled_indices")
    # different indices of the names a sample has are drawn independently
    if L.fname in CONTINUOUS and len(cols) > 1 and order:
        seen = {}
        for env in assignments({n: L.sizes[n] for n in order}):
            x = cols[tuple(env.get(n, 0) for n in L.sizes)]
            k = repr(x.reshape(-1)[:20].tolist())
            c.check(k not in seen or "Delta" in L.fname, f"{how}: the samples at {env} repeat those at {seen.get(k)}")
            seen[k] = env


CONTINUOUS = {"Beta", "Cauchy", "Chi2", "Dirichlet", "Exponential", "Gamma", "Gumbel", "HalfNormal", "Laplace", "Logistic", "LogNormal", "MvnTril", "MvnCov", "Normal", "Pareto", "StudentT", "Uniform", "Weibull", "IndependentNormal"}


def derived(c):
    """expand, to_event and mask of a distribution with named parameters."""
    rng = c.rng
    names = [f for f in sorted(pf.FAMILIES) if f not in NO_NAMED | NO_LOG_PROB]
    L = Layout(c, rng.choice(names), small=True)
    how = rng.choice(["expand", "expand", "to_event", "mask"])
    ex = tuple(rng.choice([1, 2]) for _ in range(rng.randint(1, 2)))
    mn = rng.sample(L.names, rng.randint(0, len(L.names)))
    mt = torch.tensor([rng.random() < 0.5 for _ in range(math.prod(L.sizes[n] for n in mn))]).reshape(tuple(L.sizes[n] for n in mn))
    mf = from_tensor(mt, mn)
    if how == "expand":
        f = lambda d, m: d.expand(ex + tuple(d.batch_shape))
    elif how == "to_event":
        k = rng.randint(0, len(L.batch))
        f = lambda d, m: d.to_event(k)
    else:
        f = lambda d, m: d.mask(m)
    c.key((how, L.key()))
    d = f(L.real(), named(mt, mn))
    refs = lift(lambda r, m: f(r, m), L.refs(), mf)
    r0 = next(iter(refs.items.values()))
    c.check(tuple(d.batch_shape) == tuple(r0.batch_shape) and tuple(d.event_shape) == tuple(r0.event_shape), f"{how}: shapes {d.batch_shape} {d.event_shape}, expected {r0.batch_shape} {r0.event_shape}")
    torch.manual_seed(c.index + 5)
    x = r0.sample()
    agree(c, d.log_prob(x), lift(lambda r: r.log_prob(x), refs), f"log_prob after {how}")
    if L.fname not in NO_SAMPLE:
        s = d.sample()
        c.check(tuple(s.shape) == tuple(r0.batch_shape) + tuple(r0.event_shape) and set(sizesof(s)) <= set(L.sizes), f"{how}: sample {s.shape} {sizesof(s)}")
    if how != "expand" and L.fname not in ("LKJCholesky",):
        order = list(L.names)
        rng.shuffle(order)
        bd = bind_dims(d, *order)
        w = torch.stack([refs.at(e).log_prob(x) for e in assignments({n: L.sizes[n] for n in order})]).reshape(tuple(L.sizes[n] for n in order) + tuple(r0.batch_shape))
        got = bd.log_prob(x)
        c.check(got.shape == w.shape and close(got, w, 1e-8), f"{how}: log_prob bound: {got.tolist()}, expected {w.tolist()}")
    c.count("derived")


def enumeration(c):
    rng = c.rng
    L = Layout(c, rng.choice(["BernoulliProbs", "BernoulliLogits", "CategoricalProbs", "CategoricalLogits", "OneHotCategorical", "OneHotLogits"]), small=True)
    c.key(L.key())
    d = L.real()
    refs = L.refs()
    c.check(d.has_enumerate_support, "has_enumerate_support")
    ex = rng.random() < 0.5
    agree(c, d.enumerate_support(expand=ex), lift(lambda r: r.enumerate_support(expand=ex), refs), f"enumerate_support(expand={ex})")


# -------------------------------------------------------------- plain models
def rand_program(rng, depth=0, n=None, prefix=""):
    """A random straight-line Pyro program as a list of statements."""
    out = []
    for _ in range(n or rng.randint(2, 5)):
        r = rng.random()
        if depth < 2 and r < 0.3:
            kind = rng.choice(["plate", "plate", "subsample", "mask", "scale", "seqplate", "block"])
            out.append((kind, rng.random(), rng.randint(2, 3), rand_program(rng, depth + 1, rng.randint(1, 3), prefix)))
        elif r < 0.37:
            out.append(("factor", rng.uniform(-1, 1)))
        elif r < 0.44:
            out.append(("deterministic",))
        elif r < 0.5:
            out.append(("param",))
        else:
            out.append(("sample", rng.choice(sorted(pf.FAMILIES)), rng.random(), rng.random(), rng.randrange(10**6)))
    return out


class Runner:
    """Runs a program; `sample` is the sampling primitive to use."""

    def __init__(self, prog, sample):
        self.prog, self.sample = prog, sample

    def __call__(self):
        self.k = 0
        self.env = []
        self.dims = []
        self.run(self.prog)
        return tuple(self.env)

    def name(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def last(self):
        """A bounded real number that depends on the values so far."""
        x = torch.zeros((), dtype=torch.float64)
        for v in self.env[-2:]:
            x = x + torch.tanh(torch.nan_to_num(v.double()).mean())
        return x

    def run(self, prog):
        for st in prog:
            if st[0] == "sample":
                self.site(*st[1:])
            elif st[0] == "factor":
                pyro.factor(self.name("f"), st[1] * self.last())
            elif st[0] == "deterministic":
                self.env.append(pyro.deterministic(self.name("d"), self.last() + 1))
            elif st[0] == "param":
                self.env.append(pyro.param(self.name("p"), torch.tensor(0.5, dtype=torch.float64), constraint=dist.constraints.positive).detach())
            elif st[0] == "seqplate":
                for _ in pyro.plate(self.name("s"), st[2]):
                    self.run(st[3])
            else:
                with self.context(st):
                    self.run(st[3])
                    if st[0] in ("plate", "subsample"):
                        self.dims.pop()

    def context(self, st):
        kind, x, n, _ = st
        if kind == "plate":
            self.dims.append(n)
            return pyro.plate(self.name("pl"), n, dim=-len(self.dims))
        if kind == "subsample":
            self.dims.append(2)
            return pyro.plate(self.name("pl"), n + 2, subsample_size=2, dim=-len(self.dims))
        if kind == "mask":
            return pyro.poutine.mask(mask=x < 0.5 if x < 0.7 or not self.dims else torch.arange(self.dims[0]) != 1)
        if kind == "scale":
            return pyro.poutine.scale(scale=1 + x)
        return pyro.poutine.infer_config(config_fn=lambda site: {"tag": round(x, 3)})

    def site(self, fname, how, shift, seed):
        import random

        build, kinds = pf.FAMILIES[fname]
        rng = random.Random(seed)
        shape = tuple(reversed(self.dims)) if how < 0.3 else ()
        ps = {p: pf.gen_param(rng, k, shape if q == 0 else ()) for q, (p, k) in enumerate(kinds.items())}
        for p, k in kinds.items():
            if k in ("real",) or k.startswith("vec"):
                ps[p] = ps[p] + self.last()
        d = build(**ps)
        full = tuple(reversed(self.dims)) + tuple(d.event_shape)
        kw = {}
        if shift < 0.3:
            g = torch.Generator().manual_seed(seed)
            state = torch.get_rng_state()
            torch.manual_seed(seed)
            e = build(**{p: pf.gen_param(rng, k, ()) for p, k in kinds.items()})
            kw["obs"] = e.expand(tuple(reversed(self.dims))).sample() if fname not in ("Folded",) else e.sample(tuple(reversed(self.dims)))
            torch.set_rng_state(state)
            if shift < 0.08 and d.event_shape == () and fname not in NO_OBS_MASK:
                kw["obs_mask"] = torch.tensor([rng.random() < 0.5 for _ in range(math.prod(self.dims))]).reshape(tuple(reversed(self.dims)))
        if how > 0.9:
            kw["infer"] = {"note": 1}
        if how > 0.95 or how < 0.05:
            kw["MASK"] = rng.random() < 0.5
        self.env.append(self.sample(self.name("x"), d, **kw))


NO_OBS_MASK = {"MaskedTrue", "Masked", "Delta", "DeltaDensity", "VonMises"}


def sample_pyro(name, fn, MASK=None, **kw):
    if MASK is None:
        return pyro.sample(name, fn, **kw)
    with pyro.poutine.mask(mask=MASK):
        return pyro.sample(name, fn, **kw)


def sample_op(name, fn, MASK=None, **kw):
    if MASK is not None:
        kw["mask"] = MASK
    return pyro_sample(name, fn, **kw)


def describe(tr):
    """Everything observable about a trace, as plain data."""
    tr.compute_log_prob()
    out = []
    for n, nd in tr.nodes.items():
        if nd["type"] == "sample":
            infer = {k: v for k, v in nd["infer"].items() if k not in ("pyro_shim_status", "_markov_scope")}
            out.append((n, "sample", flat(nd["value"]), flat(nd["log_prob"]), flat(nd["log_prob_sum"]), bool(nd["is_observed"]), flat(torch.as_tensor(nd["scale"])), tuple((f.name, f.dim, f.size) for f in nd["cond_indep_stack"]), shape_of(nd["fn"]), sorted(map(str, infer.items()))))
        elif nd["type"] == "return":
            out.append((n, "return", [flat(v) for v in nd["value"]]))
        elif nd["type"] == "param":
            out.append((n, "param", flat(nd["value"])))
        else:
            out.append((n, nd["type"]))
    return out


def flat(t):
    return t.detach().clone()


def shape_of(d):
    return (tuple(d.batch_shape), tuple(d.event_shape)) if hasattr(d, "batch_shape") else ()


def alike(x, y):
    if isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor):
        return x.shape == y.shape and close(x, y, 1e-9)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(map(alike, x, y))
    return type(x) is type(y) and x == y


def diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if not alike(x, y):
            return f"{y}, expected {x}"
    return None


def same(c, want, got, what):
    d = diff(want, got)
    c.check(d is None, f"{what}: {d}")


def go(model, seed):
    pyro.clear_param_store()
    pyro.set_rng_seed(seed)
    tr = pyro.poutine.trace(model).get_trace()
    # the state of the random generator afterwards is part of the behaviour
    return tr, describe(tr), torch.rand(1).item()


def models(c):
    rng = c.rng
    prog = rand_program(rng)
    c.key(repr(prog))
    seed = rng.randrange(10**6)
    base = Runner(prog, sample_pyro)
    tr, want, r = go(base, seed)
    sites = [n for n, nd in tr.nodes.items() if nd["type"] == "sample" and not n.startswith(("pl", "f", "s"))]
    free = [n for n in sites if not tr.nodes[n]["is_observed"]]
    c.info(f"{prog}")
    c.count("sites", len(sites))
    # operations applied outside or inside of the bridge
    wraps = [("none", lambda m: m)]
    if free:
        chosen = rng.sample(free, rng.randint(1, len(free)))
        data = {n: tr.nodes[n]["value"].clone() for n in chosen}
        wraps += [
            ("condition", lambda m: pyro.poutine.condition(m, data=data)),
            ("replay", lambda m: pyro.poutine.replay(m, trace=tr)),
            ("do", lambda m: pyro.poutine.do(m, data=data)),
            ("block", lambda m: pyro.poutine.block(m, hide=chosen)),
            ("uncondition", lambda m: pyro.poutine.uncondition(m)),
            ("substitute", lambda m: pyro.poutine.scale(m, scale=3.0)),
            ("mask", lambda m: pyro.poutine.mask(m, mask=False)),
        ]
    wname, wrap = rng.choice(wraps)
    if wname != "none":
        tr, want, r = go(wrap(base), seed)

    calls = []
    c.info(f"wrap {wname}")

    def spy(name, fn, *args, **kwargs):
        calls.append((name, kwargs.get("obs") is not None, shape_of(fn)))
        return fwd()

    how = rng.choice(["op", "shim", "shim", "shim_in", "spy", "spy_in", "two", "default"])
    if how == "op":
        m = wrap(Runner(prog, sample_op))
    elif how == "shim":
        m = wrap(PyroShim()(base))
    elif how == "shim_in":
        m = PyroShim()(wrap(base))
    elif how == "two":
        m = PyroShim()(wrap(PyroShim()(base)))
    elif how == "default":
        m = wrap(lambda: handler({pyro_sample: pyro_sample.__default_rule__})(PyroShim()(base))())
    elif how == "spy":
        m = wrap(lambda: handler({pyro_sample: spy})(PyroShim()(base))())
    else:
        m = lambda: handler({pyro_sample: spy})(PyroShim()(wrap(base)))()
    c.info(how)
    if wname == "replay" and how in ("shim_in", "two", "spy_in"):
        if rng.random() < 0.7:
            m, how = wrap(PyroShim()(base)), "shim"
        else:
            try:
                _, got, r2 = go(m, seed)
            except RecursionError:
                c.known("replay-inside-the-shim", f"replay inside of PyroShim ({how}) recurses without end")
                return
    _, got, r2 = go(m, seed)
    same(c, want, got, f"{how} with {wname}")
    c.check(r == r2, f"{how} with {wname}: the random generator was used differently")
    c.count(f"how_{how}")
    c.count(f"wrap_{wname}")
    if how.startswith("spy"):
        names = [n for n, *_ in calls]
        mine = names
        if wname == "block":
            expect = None
        else:
            expect = [n for n, nd in tr.nodes.items() if nd["type"] == "sample" and not pyro.poutine.util.site_is_subsample(nd) and not pyro.poutine.util.site_is_factor(nd)]
        if expect is not None and wname != "do":
            c.check(mine == expect, f"{how}: sampling operations {mine}, expected {expect}")
        c.count("operations", len(names))




# -------------------------------------------------------------- named models
NSITES = {
    # name: (builder from a real number and a positive number, both maybe named)
    "Normal": lambda a, b: dist.Normal(a, b),
    "Gamma": lambda a, b: dist.Gamma(b, torch.exp(torch.tanh(a))),
    "Bernoulli": lambda a, b: dist.Bernoulli(logits=a * b),
    "StudentT": lambda a, b: dist.StudentT(b + 3, a, b),
    "Exponential": lambda a, b: dist.Exponential(b + a * a),
    "Independent": lambda a, b: dist.Normal(torch.stack([a, a + 1], -1), torch.stack([b, b * 2], -1)).to_event(1),
    "Categorical": lambda a, b: dist.Categorical(logits=torch.stack([a + 0 * b, b + 0 * a, a - b], -1)),
    "Mvn": lambda a, b: dist.MultivariateNormal(torch.stack([a, -a], -1), scale_tril=torch.diag_embed(torch.stack([b, b + 1], -1))),
    "Delta": lambda a, b: dist.Delta(a, b),
    "Laplace": lambda a, b: dist.Laplace(a, b),
    "Poisson": lambda a, b: dist.Poisson(b + a * a),
}


def named_models(c):
    """Models whose parameters, observations and masks carry names, against the plain distributions of every index."""
    rng = c.rng
    names = new_names(rng, rng.choice([1, 2, 2, 3]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    plates = [rng.choice([2, 3]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
    spec = []
    for k in range(rng.randint(1, 3)):
        mine = [n for n in names if rng.random() < 0.5]
        a = pf.gen_param(rng, "real", tuple(sizes[n] for n in mine))
        other = [n for n in names if rng.random() < 0.4]
        b = pf.gen_param(rng, "pos", tuple(sizes[n] for n in other))
        parent = rng.randrange(k) if k and rng.random() < 0.6 else None
        inpl = rng.randint(0, len(plates))
        obs_names = [n for n in names if rng.random() < 0.6] if rng.random() < 0.4 else None
        # a mask with some of the names
        masked = rng.random() < 0.4
        spec.append((f"x{k}", rng.choice(sorted(NSITES)), mine, a, other, b, parent, inpl, obs_names, masked, rng.random(), rng.random() < 0.3))
    c.key((tuple(sizes.values()), tuple(plates), [(s[1], len(s[2]), len(s[4]), s[6], s[7], s[8] and len(s[8]), s[9]) for s in spec]))
    for s in spec:
        c.info(f"{s[0]}: {s[1]} a{s[2]} b{s[4]} parent {s[6]} plates {plates[:s[7]]} obs {s[8]} masked {s[9]}")

    def center(v, ev):
        """A real number from a value: its event dimensions are summed."""
        v = torch.tanh(v.double())
        for _ in range(ev):
            v = v.sum(-1)
        return v

    fams = {}  # site -> (observation family, mask family), made on the first run
    dists = {}  # site -> function of an assignment and the recorded values

    def model():
        env = []
        for name, kind, mine, a, other, b, parent, inpl, obs_names, masked, scale, via in spec:
            x = named(a, mine)
            if parent is not None:
                pv, pe, ppl = env[parent]
                y = center(pv, pe)
                if ppl > inpl:  # the parent has more plates than this site
                    for _ in range(ppl - inpl):
                        y = y.sum(0)
                x = x + y
            d = NSITES[kind](x, named(b, other))
            obs = None
            nm = set(sizesof(d))
            shape = tuple(reversed(plates[:inpl]))
            if name not in fams:
                obsf = maskf = None
                if obs_names is not None:
                    r = rng.random()
                    osh = tuple(sizes[n] for n in obs_names) + shape + tuple(d.event_shape)
                    t = torch.tensor([float(rng.randint(0, 1)) if kind in ("Bernoulli", "Categorical", "Poisson") else round(rng.uniform(0.1, 2), 3) for _ in range(math.prod(osh))], dtype=torch.float64).reshape(osh)
                    if kind == "Categorical":
                        t = t.long()
                    obsf = (t, obs_names)
                if masked:
                    mn = [n for n in names if n in nm | set(obs_names or ()) and rng.random() < 0.6]
                    rng.shuffle(mn)
                    msh = tuple(sizes[n] for n in mn) + (shape if rng.random() < 0.5 else ())
                    maskf = (torch.tensor([rng.random() < 0.6 for _ in range(math.prod(msh))]).reshape(msh), mn)
                fams[name] = (obsf, maskf)
            obsf, maskf = fams[name]
            import contextlib

            with contextlib.ExitStack() as st:
                if scale < 0.3:
                    st.enter_context(pyro.poutine.scale(scale=1.0 + scale))
                if maskf is not None and not via:
                    st.enter_context(pyro.poutine.mask(mask=named(*maskf)))
                for q, p in enumerate(plates[:inpl]):
                    st.enter_context(pyro.plate(f"{name}_pl{q}", p, dim=-1 - q))
                kw = {}
                if obsf is not None:
                    kw["obs"] = named(*obsf)
                if maskf is not None and via:
                    kw["mask"] = named(*maskf)
                v = (pyro_sample if via else pyro.sample)(name, d, **kw)
            env.append((v, len(d.event_shape), inpl))
        return [v for v, *_ in env]

    ops = []

    def spy(name, fn, *args, **kwargs):
        v = fwd()
        ops.append((name, v))
        return v

    pyro.clear_param_store()
    pyro.set_rng_seed(rng.randrange(10**6))
    shim = PyroShim()
    m = shim(model)
    mode = rng.choice(["plain", "spy", "replay", "replay", "condition"])
    if any(s[-1] for s in spec):
        mode = "plain"
    tr = pyro.poutine.trace(m).get_trace()
    if mode == "spy":
        tr = pyro.poutine.trace(lambda: handler({pyro_sample: spy})(PyroShim()(model))()).get_trace()
        c.check([n for n, _ in ops] == [s[0] for s in spec], f"operations {ops}")
    elif mode == "replay":
        before = {n: tr.nodes[n]["value"].clone() for n in fams}
        tr2 = pyro.poutine.trace(pyro.poutine.replay((rng.choice([shim, PyroShim()]))(model), trace=tr)).get_trace()
        for n in fams:
            c.check(bool((tr2.nodes[n]["value"] == before[n]).all()), f"replayed value of {n}")
        tr = tr2
    elif mode == "condition":
        data = {s[0]: tr.nodes[s[0]]["value"] for s in spec if s[8] is None and rng.random() < 0.5}
        tr2 = pyro.poutine.trace(pyro.poutine.condition(m, data=data)).get_trace()
        for n, v in data.items():
            c.check(tr2.nodes[n]["is_observed"] and bool((tr2.nodes[n]["value"] == v).all()), f"conditioned value of {n}: {tr2.nodes[n]['value']}, given {v}")
        tr = tr2
    c.info(mode)
    judge_named(c, tr, spec, fams, sizes, plates, center)
    c.count("named_models")
    c.count(f"mode_{mode}")


def judge_named(c, tr, spec, fams, sizes, plates, center):
    ret = tr.nodes["_RETURN"]["value"]
    tr.compute_log_prob()
    values = {}
    for s, v in zip(spec, ret):
        name, kind, mine, a, other, b, parent, inpl, obs_names, masked, scale, via = s
        nd = tr.nodes[name]
        shape = tuple(reversed(plates[:inpl]))
        afam, bfam = from_tensor(a, mine), from_tensor(b, other)
        if parent is not None:
            def up(pv):
                y = center(pv, values[parent][1])
                for _ in range(max(0, values[parent][2] - inpl)):
                    y = y.sum(0)
                return y
            afam = lift(lambda x, p: x + up(p), afam, values[parent][0])
        refs = lift(lambda x, y: NSITES[kind](x, y).expand(shape) if not kind == "Nope" else None, afam, bfam)
        obsf, maskf = fams[name]
        vs = dict(sizesof(v))
        want_names = set(refs.sizes) | (set(obsf[1]) if obsf else set())
        r0 = next(iter(refs.items.values()))
        # the value returned has the names of the distribution and of the observation
        c.check(set(vs) == want_names and all(sizes[n] == k for n, k in vs.items()), f"{name}: value has names {vs}, expected {want_names}")
        c.check(tuple(v.shape) == shape + tuple(r0.event_shape), f"{name}: value shape {tuple(v.shape)}, expected {shape} {tuple(r0.event_shape)}")
        order = list(vs)
        pos = bind_dims(v, *order)
        vf = from_tensor(pos, order)
        if obsf:
            of = from_tensor(*obsf)
            for e in assignments(vf.sizes):
                c.check(bool((vf.at(e) == of.at(e)).all()), f"{name}: observed value at {e}: {vf.at(e)}, given {of.at(e)}")
        # what Pyro sees has no names
        c.check(not sizesof(nd["value"]) and not sizesof(nd["fn"]), f"{name}: names {sizesof(nd['value'])} {sizesof(nd['fn'])} in the trace")
        sc = 1.0 + scale if scale < 0.3 else 1.0
        mf = from_tensor(*maskf) if maskf else Fam({}, {(): torch.tensor(True)})
        lp = lift(lambda r, x, m: torch.where(m, r.log_prob(x), torch.zeros((), dtype=torch.float64)) * sc, refs, vf, mf)
        total = sum(float(x.sum()) for x in lp.items.values())
        got = float(nd["log_prob_sum"])
        c.check(math.isclose(got, total, rel_tol=1e-7, abs_tol=1e-7), f"{name} ({kind}): log density {got}, expected {total}", log_prob=nd["log_prob"], value=nd["value"])
        c.check(nd["log_prob"].numel() == sum(x.numel() for x in lp.items.values()), f"{name}: log_prob of shape {tuple(nd['log_prob'].shape)} for {len(lp.items)} indices of {tuple(next(iter(lp.items.values())).shape)}")
        # every named dimension is an independence frame at its own position of the log density
        frames = {f.name: f for f in nd["cond_indep_stack"]}
        fd = [f.dim for f in nd["cond_indep_stack"]]
        c.check(len(set(fd)) == len(fd), f"{name}: frames at equal dimensions {fd}")
        for n in refs.sizes:
            f = [f for f in nd["cond_indep_stack"] if f.name == f"__index_plate_{n}" and f.size == sizes[n]]
            c.check(bool(f), f"{name}: no frame for {n} among {list(frames)}")
        for f in nd["cond_indep_stack"]:
            c.check(nd["log_prob"].shape[f.dim] == f.size, f"{name}: frame {f.name} of size {f.size} at {f.dim} of log density {tuple(nd['log_prob'].shape)}")
        # each entry of the log density is that of its index
        dims = {}
        lay = nd["_index_naming"].name_to_dim
        ev = len(r0.event_shape)
        for n, dd in lay.items():
            dims[n] = dd + ev
        for e in assignments(lp.sizes):
            t = nd["log_prob"]
            ix = [slice(None)] * t.dim()
            for n in lp.sizes:
                ix[dims[n]] = e[n]
            g, w = t[tuple(ix)], lp.at(e)
            c.check(g.shape == w.shape and close(g, w.to(g.dtype), 1e-7), f"{name}: log density at {e}: {g.tolist()}, expected {w.tolist()}")
            c.count("densities")
        values[len(values)] = (vf, ev, inpl)


SECTIONS = [
    Section("families", families, 63, 10000, 4),
    Section("sampling", sampling, 40, 4000, 2),
    Section("derived", derived, 40, 4000, 2),
    Section("enumeration", enumeration, 20, 1000, 1),
    Section("models", models, 200, 10000, 3),
    Section("named_models", named_models, 70, 6000, 3),
]
