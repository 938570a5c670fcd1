"""C16: JAX arrays with named dimensions are families of arrays."""
import operator
import warnings

from harness.core import Section
from harness.jnamed import Fam, assignments, compare, dense, from_array, lift, named, new_names, random_array

import jax
import numpy as np

import effectful.handlers.jax.numpy as ejnp
import effectful.handlers.jax.numpy.linalg as ela
import effectful.handlers.jax.scipy.special as esp
from effectful.handlers.jax import bind_dims, jax_getitem, jit, sizesof, unbind_dims
from effectful.ops.semantics import evaluate, fvsof, handler
from effectful.ops.types import Operation, Term

warnings.simplefilter("ignore")
pnp = jax.numpy

RULE = (
    "Random programs of wrapped functions, methods and operators (pointwise, broadcasting, reducing, reshaping, indexing, "
    "index updates, linear algebra, several results) are run on arrays whose dimensions are partly named and, as the "
    "oracle, with plain JAX separately at every index assignment. After every step the result must report exactly the "
    "names, sizes, shape and type and equal the oracle when bound in a random order. Further sections: index expressions, "
    "binding and unbinding, compiled functions called with changing structures, vectorisation, deferred expressions. "
    "Distinct by program, names and shapes."
)
ASSUMPTIONS = [
    "Functions with data-dependent result shapes and functions of shapes (shape, size, ndim called as functions) are not used.",
    "array and asarray are not overloaded (the library documents them as exceptions).",
    "Methods of plain jax arrays are not called with named arrays as arguments (their operators are).",
    "jit takes plain arrays and trees of them; named arrays enter by closure.",
    "An index expression mixes names with integers and slices, or integer arrays, not all of them.",
    "Values compared with relative tolerance 1e-9 in double precision.",
]
NEED = {"steps": 200, "entries": 5000, "named_pairs": 20, "index_exprs": 60, "bindings": 50, "jitted": 20, "again": 20, "vmapped": 10, "deferred": 30, "conflicts": 30, "updates": 3, "methods": 60, "operators": 80}


class Lib:
    """The same code against the wrapped and the plain library."""

    def __init__(self, np_, la, lse):
        self.np, self.la, self.lse = np_, la, lse


OURS = Lib(ejnp, ela, esp.logsumexp)
PLAIN = Lib(pnp, pnp.linalg, jax.scipy.special.logsumexp)

UNARY = {
    "exp": lambda l, x: l.np.exp(x), "sin": lambda l, x: l.np.sin(x), "abs": lambda l, x: abs(x), "neg": lambda l, x: -x, "pos": lambda l, x: +x, "tanh": lambda l, x: l.np.tanh(x),
    "sq": lambda l, x: x ** 2, "rsub": lambda l, x: 1.5 - x, "rdiv": lambda l, x: 2.0 / (x * x + 1), "rpow": lambda l, x: 2.0 ** x, "mod": lambda l, x: x % 0.7,
    "rmod": lambda l, x: 3.0 % (x * x + 1), "fdiv": lambda l, x: x // 0.3, "rfdiv": lambda l, x: 3.0 // (x * x + 0.3), "gt": lambda l, x: x > 0.1, "le": lambda l, x: 0.2 <= x, "lt": lambda l, x: x < 0.2, "ge": lambda l, x: x >= 0.3,
    "npmul": lambda l, x: np.float64(2.5) * x, "npsub": lambda l, x: np.float64(2.5) - x, "round": lambda l, x: x.round(1), "floor": lambda l, x: l.np.floor(x), "sign": lambda l, x: l.np.sign(x),
    "clip": lambda l, x: x.clip(-0.5, 0.75), "clipf": lambda l, x: l.np.clip(x, min=-0.3), "astype": lambda l, x: x.astype("float32"), "where": lambda l, x: l.np.where(x > 0, x, -2.0), "isnan": lambda l, x: l.np.isnan(x),
    "zeros": lambda l, x: l.np.zeros_like(x), "copy": lambda l, x: x.copy(), "conj": lambda l, x: x.conj(), "eqc": lambda l, x: x == 0.5, "nec": lambda l, x: x != 0.5, "log1p": lambda l, x: l.np.log1p(x * x),
}
BINARY = {
    "add": lambda l, a, b: a + b, "sub": lambda l, a, b: a - b, "mul": lambda l, a, b: a * b, "div": lambda l, a, b: a / (b * b + 1), "max": lambda l, a, b: l.np.maximum(a, b), "min": lambda l, a, b: l.np.minimum(a, b),
    "lt": lambda l, a, b: a < b, "ge": lambda l, a, b: a >= b, "eq": lambda l, a, b: a == b, "ne": lambda l, a, b: a != b, "atan2": lambda l, a, b: l.np.arctan2(a, b), "where": lambda l, a, b: l.np.where(a > b, a, -b),
    "hypot": lambda l, a, b: l.np.hypot(a, b), "mod": lambda l, a, b: a % (b * b + 0.5), "fmod": lambda l, a, b: l.np.fmod(a, b * b + 0.5), "pow": lambda l, a, b: (a * a + 0.1) ** b, "fdiv": lambda l, a, b: a // (b * b + 0.5),
    "outer": lambda l, a, b: l.np.expand_dims(a, -1) - l.np.expand_dims(b, 0), "logaddexp": lambda l, a, b: l.np.logaddexp(a, b), "bc": lambda l, a, b: l.np.broadcast_arrays(a, b)[1], "select": lambda l, a, b: l.np.select([a > 0, b > 0], [a, b], 7.0),
}
LINEAR = {
    "mm": lambda l, a, b: a @ b, "matmul": lambda l, a, b: l.np.matmul(a, b), "dot": lambda l, a, b: l.np.dot(a, b), "dotm": lambda l, a, b: a.dot(b) if isinstance(a, Term) or l is PLAIN else l.np.dot(a, b), "outer": lambda l, a, b: l.np.outer(a, b), "mmT": lambda l, a, b: a @ b.T,
    "einsum": lambda l, a, b: l.np.einsum("ab,bc->ac", a, b), "tensordot": lambda l, a, b: l.np.tensordot(a, b, axes=1), "inner": lambda l, a, b: l.np.inner(a, b),
    "solve": lambda l, a, b: l.la.solve(a @ a.T + 3 * pnp.eye(a.shape[0]), b), "cat": lambda l, a, b: l.np.concatenate([a, b], 0), "catk": lambda l, a, b: l.np.concatenate((a, b), axis=-1),
    "stack": lambda l, a, b: l.np.stack([a, b]), "stack-1": lambda l, a, b: l.np.stack((b, a), axis=-1), "hstack": lambda l, a, b: l.np.hstack([a, b]), "vstack": lambda l, a, b: l.np.vstack([a, b]), "kron": lambda l, a, b: l.np.kron(a, b),
}
MULTI = {
    "unstack": lambda l, x: l.np.unstack(x), "split": lambda l, x: l.np.split(x, x.shape[0]), "slogdet": lambda l, x: l.la.slogdet(x @ x.T + pnp.eye(x.shape[0])), "frexp": lambda l, x: l.np.frexp(x), "modf": lambda l, x: l.np.modf(x),
    "divmod": lambda l, x: l.np.divmod(x, 0.7), "eigh": lambda l, x: l.la.eigh(x @ x.T)[:1], "meshgrid": lambda l, x: l.np.meshgrid(x, x * 2),
}


def shape_ops(rng, shape):
    nd = len(shape)
    out = []
    if nd:
        d = rng.randrange(-nd, nd)
        kd = rng.random() < 0.5
        rng_ddof = 1 if shape[d] > 1 else 0
        perm = list(range(nd))
        rng.shuffle(perm)
        out += [
            ("sum", lambda l, x: x.sum(d)), ("sumk", lambda l, x: l.np.sum(x, axis=d, keepdims=kd)), ("mean", lambda l, x: x.mean(axis=d, keepdims=kd)), ("prod", lambda l, x: x.prod(d)), ("max", lambda l, x: x.max(axis=d)),
            ("min", lambda l, x: x.min(axis=d, keepdims=kd)), ("argmax", lambda l, x: x.argmax(d)), ("argmin", lambda l, x: x.argmin(axis=d, keepdims=kd)), ("cumsum", lambda l, x: x.cumsum(d)), ("cumprod", lambda l, x: x.cumprod(axis=d)),
            ("lse", lambda l, x: l.lse(x, axis=d, keepdims=kd)), ("flip", lambda l, x: l.np.flip(x, d)), ("roll", lambda l, x: l.np.roll(x, 1, d)), ("sort", lambda l, x: x.sort(d)), ("sortd", lambda l, x: x.sort(axis=d, descending=True)),
            ("argsort", lambda l, x: x.argsort(axis=d, descending=kd)), ("var", lambda l, x: x.var(axis=d)), ("std", lambda l, x: x.std(axis=d, ddof=rng_ddof, keepdims=kd)), ("vard", lambda l, x: x.var(axis=d, ddof=rng_ddof)), ("norm", lambda l, x: l.la.norm(x, axis=d)), ("diff", lambda l, x: l.np.diff(x, axis=d)),
            ("any", lambda l, x: (x > 0).any(d)), ("all", lambda l, x: (x > 0).all(axis=d, keepdims=kd)), ("ptp", lambda l, x: x.ptp(axis=d)), ("take", lambda l, x: x.take(pnp.array([0, shape[d] - 1, 0]), axis=d)), ("repeat", lambda l, x: x.repeat(2, d)),
            ("expand", lambda l, x: l.np.expand_dims(x, d)), ("moveaxis", lambda l, x: l.np.moveaxis(x, d, 0)), ("swapaxes", lambda l, x: x.swapaxes(0, d)), ("transpose", lambda l, x: x.transpose(*perm)), ("transposet", lambda l, x: x.transpose(tuple(perm))),
            ("transposef", lambda l, x: l.np.transpose(x, perm)), ("ravel", lambda l, x: x.ravel()), ("reshape", lambda l, x: x.reshape(-1)), ("reshapet", lambda l, x: x.reshape((1, -1))), ("reshapes", lambda l, x: x.reshape(*[shape[p] for p in perm])),
            ("squeeze", lambda l, x: x.squeeze()), ("tile", lambda l, x: l.np.tile(x, 2)), ("T", lambda l, x: x.T), ("pad", lambda l, x: l.np.pad(x, 1)), ("first", lambda l, x: x[0]), ("last", lambda l, x: x[-1]), ("rev", lambda l, x: x[::-1]),
            ("quantile", lambda l, x: l.np.quantile(x, 0.3, axis=d)), ("median", lambda l, x: l.np.median(x, axis=d)), ("average", lambda l, x: l.np.average(x, axis=d)), ("searchsorted", lambda l, x: l.np.searchsorted(l.np.sort(x.ravel()), x)),
            ("nth", lambda l, x: x.argpartition(0, axis=d).min(axis=d)), ("sumw", lambda l, x: x.sum(axis=d, where=x > 0)), ("sumi", lambda l, x: l.np.sum(x, axis=d, where=x > 0, initial=2.0)), ("maxw", lambda l, x: x.max(axis=d, where=x > 0, initial=-9.0)),
        ]
    if nd == 2:
        out += [("dot", lambda l, x: x.dot(x.T)), ("rdot", lambda l, x: l.np.dot(pnp.eye(shape[0]), x)), ("tril", lambda l, x: l.np.tril(x)), ("trace", lambda l, x: x.trace()), ("diagonal", lambda l, x: x.diagonal()), ("det", lambda l, x: l.la.det(x @ x.T)), ("inv", lambda l, x: l.la.inv(x @ x.T + 2 * pnp.eye(shape[0]))),
                ("chol", lambda l, x: l.la.cholesky(x @ x.T + 2 * pnp.eye(shape[0]))), ("mpow", lambda l, x: l.la.matrix_power(x @ x.T, 2)), ("traceo", lambda l, x: x.trace(1)), ("diagonal1", lambda l, x: x.diagonal(offset=1))]
    if nd == 1:
        out += [("diag", lambda l, x: l.np.diag(x)), ("vander", lambda l, x: l.np.vander(x, 3)), ("iter", lambda l, x: list(x)[-1])]
    out += [("conjugate", lambda l, x: l.np.imag((x * 1j).conjugate())), ("invert", lambda l, x: ~(x > 0)), ("inverti", lambda l, x: ~(x * 9).astype(int)), ("choose", lambda l, x: (x > 0).astype(int).choose([x, pnp.array(7.5)], mode="clip")),
            ("compress", lambda l, x: x.compress(pnp.array([True] + [False] * (shape[0] - 1)), axis=0) if shape else x), ("searchsortedm", lambda l, x: x.ravel().sort().searchsorted(pnp.array([-0.5, 0.2]))),
            ("sumall", lambda l, x: x.sum()), ("meanall", lambda l, x: l.np.mean(x)), ("getnone", lambda l, x: x[None]), ("getell", lambda l, x: x[..., None]), ("maxall", lambda l, x: x.max()), ("bcast", lambda l, x: l.np.broadcast_to(x, (2, *shape))),
            ("atleast", lambda l, x: l.np.atleast_2d(x)), ("lseall", lambda l, x: l.lse(x)), ("argall", lambda l, x: x.argmax())]
    return out


def both(c, what, fn, reals, fams, multi=False):
    try:
        want = lift(lambda *a: fn(PLAIN, *a), *fams)
    except Exception:
        c.count("refused")
        return None
    got = fn(OURS, *reals)
    c.count("steps")
    if len([f for f in fams if f.sizes]) > 1:
        c.count("named_pairs")
    if multi:
        vals = next(iter(want.items.values()))
        c.check(isinstance(got, (tuple, list)) and len(got) == len(vals), f"{what}: {len(vals)} results expected, got {type(got)}")
        out = []
        for k in range(len(vals)):
            f = Fam(want.sizes, {a: v[k] for a, v in want.items.items()})
            compare(c, got[k], f, f"{what}[{k}]")
            out.append((got[k], f))
        return out
    compare(c, got, want, what)
    return [(got, want)]


def small_of(f):
    return next(iter(f.items.values()))


def program(c):
    rng = c.rng
    names = new_names(rng, rng.choice([1, 2, 2, 3]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    rand_shape = lambda: [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
    items = [named(rng, names, sizes, rand_shape()) for _ in range(2)]
    trail = []
    for _ in range(rng.choice([3, 5, 6])):
        k = rng.random()
        r, f = rng.choice(items)
        small = small_of(f)
        if small.dtype != np.float64 and rng.random() < 0.9:
            r, f = r.astype("float64"), lift(lambda x: x.astype("float64"), f)
        shape = tuple(small.shape)
        if k < 0.2:
            n = rng.choice(list(UNARY))
            res = both(c, n, UNARY[n], [r], [f])
        elif k < 0.45:
            n = rng.choice(list(BINARY))
            r2, f2 = rng.choice(items) if rng.random() < 0.4 else named(rng, names, sizes, rng.choice([shape, [], shape[-1:], rand_shape()]))
            args = [(r, f), (r2, f2)]
            rng.shuffle(args)
            res = both(c, n, BINARY[n], [a[0] for a in args], [a[1] for a in args])
        elif k < 0.8:
            n, fn = rng.choice(shape_ops(rng, shape))
            res = both(c, n, fn, [r], [f])
        elif k < 0.92:
            n = rng.choice(list(LINEAR))
            s = list(shape)
            r2, f2 = named(rng, names, sizes, rng.choice([s, s[::-1], s[-1:] + [2], s[-1:]]))
            res = both(c, n, LINEAR[n], [r, r2], [f, f2])
        else:
            n = rng.choice(list(MULTI))
            res = both(c, n, MULTI[n], [r], [f], True)
        if res:
            trail.append((n, shape))
            items += [x for x in res if small_of(x[1]).size <= 30]
    c.key((trail, [(n.__name__, sizes[n]) for n in names]))
    c.sample(trail)


OPERATORS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.pow, operator.floordiv, operator.mod, operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne, operator.matmul]
INT_OPERATORS = [operator.lshift, operator.rshift, operator.and_, operator.or_, operator.xor, operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod]


def each(c):
    """Every operator with operands of every kind, and every method, in turn."""
    rng = c.rng
    names = new_names(rng, 1)
    sizes = {names[0]: 2}
    k = c.index
    if k % 3 == 0:
        # a method
        shape = rng.choice([(3, 2), (2, 3)])
        ops = shape_ops(rng, shape)
        n, fn = ops[(k // 3) % len(ops)]
        r, f = named(rng, names, sizes, shape, k=1)
        both(c, n, fn, [r], [f])
        if n in ("iter", "diag", "vander"):
            return
        v = Operation.define(jax.Array)
        want = lift(lambda x: fn(PLAIN, x), f)
        term = fn(OURS, v()) if n not in ("iter", "pad") else None
        if isinstance(term, Term):
            compare(c, evaluate(term, intp={v: lambda: r}), want, n + " deferred")
        c.count("methods")
        c.key(("method", n, shape))
        return
    k = k - k // 3 - 1
    if k % 4 == 0:
        n = list(UNARY)[(k // 4) % len(UNARY)]
        r, f = named(rng, names, sizes, [2], k=1)
        both(c, n, UNARY[n], [r], [f])
        c.key(("unary", n))
        return
    k = k - k // 4 - 1
    allops = [(o, "pos") for o in OPERATORS] + [(o, "nat") for o in INT_OPERATORS]
    op, kind = allops[k % len(allops)]
    other = ["named", "plain", "scalar", "numpy", "free"][(k // len(allops)) % 5]
    shape = [2, 2]

    def val(kind):
        return kind if kind == "pos" else 4

    r, f = named(rng, names, sizes, shape, val(kind), k=1)
    swap = rng.random() < 0.6
    v = Operation.define(jax.Array)
    if other == "named":
        r2, f2 = named(rng, names, sizes, shape, val(kind), k=1)
    elif other in ("plain", "free"):
        r2, f2 = named(rng, names, sizes, shape, val(kind), k=0)
    elif op is operator.matmul:
        r2 = np.asarray(random_array(rng, shape, "pos"))
        f2 = Fam({}, {(): r2})
    else:
        r2 = (np.float64(1.75) if kind == "pos" else np.int64(2)) if other == "numpy" else (1.75 if kind == "pos" else 2)
        f2 = Fam({}, {(): r2})
    if other == "numpy" and rng.random() < 0.5:
        r2 = np.asarray(random_array(rng, shape, val(kind)))
        f2 = Fam({}, {(): r2})
    want = lift(lambda a, b: op(b, a) if swap else op(a, b), f, f2)
    what = f"{op.__name__} {other} swap={swap}"
    if other == "free":
        # the named operand is deferred
        term = op(r2, v()) if swap else op(v(), r2)
        c.check(isinstance(term, Term), what + " is deferred")
        got = evaluate(term, intp={v: lambda: r})
    else:
        got = op(r2, r) if swap else op(r, r2)
    compare(c, got, want, what)
    c.count("operators")
    c.key((what, kind))


def indexing(c):
    """Index expressions and index updates."""
    rng = c.rng
    names = new_names(rng, 3)
    dims = rng.choice([1, 2, 3])
    shape = [rng.choice([1, 2, 3]) for _ in range(dims)]
    t = random_array(rng, shape)
    lead = rng.random() < 0.35
    if lead:
        t2 = random_array(rng, [2] + shape)
        real, fam = jax_getitem(t2, (names[2](),)), from_array(t2, [names[2]])
    else:
        real, fam = t, from_array(t, [])
    key, conc, used = [], [], {}
    n = rng.randint(1, dims)
    ell = rng.randrange(n + 1) if rng.random() < 0.3 else None
    pos = [p if ell is None or p < ell else dims - n + p for p in range(n)]
    arrays = rng.random() < 0.25
    for p, axis in enumerate(pos):
        if ell is not None and p == ell:
            key.append(Ellipsis)
            conc.append(Ellipsis)
        if not arrays and rng.random() < 0.1:
            key.append(None)
            conc.append(None)
        size = shape[axis]
        free = [x for x in names[:2] if used.get(x, size) == size]
        k = rng.random()
        if arrays:
            if k < 0.5 or ell is not None or n < dims:
                v = random_array(rng, [2] if rng.random() < 0.7 else [], size)
                key.append(v)
                conc.append(v)
            else:
                x = names[rng.randrange(2)]
                m = used.setdefault(x, rng.choice([1, 2, 3]))
                v = random_array(rng, [m], size)
                key.append(jax_getitem(v, (x(),)))
                conc.append(from_array(v, [x]))
        elif k < 0.5 and free:
            x = rng.choice(free)
            used[x] = size
            key.append(x())
            conc.append(Fam({x: size}, {(a,): a for a in range(size)}))
        elif k < 0.7:
            v = rng.randrange(-size, size)
            key.append(v)
            conc.append(v)
        else:
            sl = slice(rng.choice([None, 0, 1, -1]), rng.choice([None, size, -1, size + 2]), rng.choice([None, 1, 2, -1]))
            if len(range(size)[sl]) == 0:
                sl = slice(None)
            key.append(sl)
            conc.append(sl)
    if ell is not None and ell == n:
        key.append(Ellipsis)
        conc.append(Ellipsis)
    key, conc = tuple(key), tuple(conc)
    what = f"{'named ' if lead else ''}{tuple(shape)}[{key}]"
    parts = [fam] + [k for k in conc if isinstance(k, Fam)]

    def at(ks):
        it = iter(ks)
        return tuple(next(it) if isinstance(k, Fam) else k for k in conc)

    try:
        want = lift(lambda x, *ks: x[at(ks)], *parts)
    except Exception:
        return
    got = real[key] if lead and rng.random() < 0.7 else jax_getitem(real, key if rng.random() < 0.7 else list(key))
    compare(c, got, want, what)
    compare(c, got * 2 - got, lift(lambda x: x * 2 - x, want), what + " used")
    c.count("index_exprs")
    if lead:
        # update the same place, for every assignment
        simple = not any(isinstance(k, (Fam, jax.Array)) for k in conc)
        if simple:
            v, vf = named(rng, [names[2]], {names[2]: 2}, small_of(want).shape)
            arg = key[0] if len(key) == 1 and rng.random() < 0.5 else key
            got = real.at[arg].set(v)
            compare(c, got, lift(lambda x, y: x.at[conc].set(y), fam, vf), what + " update")
            c.count("updates")
    c.key((what, lead))


def binding(c):
    rng = c.rng
    k = rng.choice([1, 2, 3])
    names = new_names(rng, k)
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
    kind = rng.choice(["float", "int", "bool"])
    t = random_array(rng, [sizes[n] for n in names] + shape, kind)
    fam = from_array(t, names)
    style = rng.choice(["getitem", "unbind", "list", "staged"])
    if style == "getitem":
        real = jax_getitem(t, tuple(n() for n in names))
    elif style == "list":
        real = jax_getitem(t, [n() for n in names])
    elif style == "unbind":
        real = unbind_dims(t, *names)
    else:
        real = t
        for n in names:
            real = unbind_dims(real, n)
    compare(c, real, fam, f"{style} of {names}")
    c.check(fvsof(real) >= set(names), "free variables of a named array")
    some = rng.sample(names, rng.randint(1, k))
    rest = [n for n in names if n not in some]
    part = bind_dims(real, *some)
    if not rest:
        c.check(isinstance(part, jax.Array), "binding every name leaves a plain array")
    ss = {n: sizes[n] for n in some}
    rs = {n: sizes[n] for n in rest}
    sub = Fam(rs, {tuple(e.values()): pnp.asarray(dense(Fam(ss, {tuple(e2.values()): fam.at({**e, **e2}) for e2 in assignments(ss)}), some)) for e in assignments(rs)})
    compare(c, part, sub, f"bound {some} of {names}")
    compare(c, unbind_dims(part, *some), fam, "bound and unbound")
    other = new_names(rng, len(some))
    os_ = {o: sizes[n] for o, n in zip(other, some)}
    ren = Fam({**os_, **rs}, {tuple(e.values()): fam.at({**{n: e[o] for o, n in zip(other, some)}, **{n: e[n] for n in rest}}) for e in assignments({**os_, **rs})})
    compare(c, unbind_dims(part, *other), ren, "bound and unbound with other names")
    tree = {"a": real, "b": [(real * 2 if kind != "bool" else real,)]}
    bound = bind_dims(tree, *some)
    compare(c, bound["a"], sub, "in a container")
    c.check(type(bound["b"]) is list and type(bound["b"][0]) is tuple, "container types")
    compare(c, unbind_dims(bound, *some)["a"], fam, "unbound in a container")
    n = rng.choice(names)
    wrong = jax_getitem(random_array(rng, [sizes[n] + 1]), (n(),))
    c.raises(ValueError, lambda: real + wrong, "conflicting sizes")
    c.raises(ValueError, lambda: sizesof((real, wrong)), "sizes of conflicting arrays")
    c.raises((ValueError, TypeError), lambda: bind_dims(real, n, n), "binding a name twice")
    c.count("conflicts")
    sq = random_array(rng, [3, 3, 2])
    x = new_names(rng, 1)[0]
    diag = jax_getitem(sq, (x(), x()))
    compare(c, diag, Fam({x: 3}, {(a,): sq[a, a] for a in range(3)}), "diagonal")
    c.count("bindings")
    c.key((style, [(n.__name__, s) for n, s in sizes.items()], shape, kind, [names.index(n) for n in some]))


def step_ops(rng, k):
    un = ["exp", "sin", "neg", "sq", "rsub", "rpow", "abs", "mod", "rmod", "tanh", "rdiv", "npmul", "fdiv", "rfdiv"]
    bi = ["add", "sub", "mul", "div", "max", "hypot", "where", "fdiv", "mod", "lt"]
    return [(rng.choice(un), 1) if rng.random() < 0.4 else (rng.choice(bi), 2) for _ in range(k)]


def run_steps(l, ops, x, y):
    for n, k in ops:
        x = UNARY[n](l, x) if k == 1 else BINARY[n](l, x, y)
        if n == "lt":
            x = x + 0.5
    return x


def compiled(c):
    """Compiled functions called with several structures, in any order; vectorised functions."""
    rng = c.rng
    names = new_names(rng, rng.choice([1, 2]))
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = [2]
    consts = [named(rng, names, sizes, shape) for _ in range(2)]
    ops = step_ops(rng, rng.choice([1, 2]))
    inner = rng.choice(names)
    mode = rng.choice(["tree", "shape", "static", "kw"])

    def pick(l, k):
        return consts[k][0] if l is OURS else None

    def f(l, cs, a, **kw):
        # what is returned, and with which names, depends on the trace
        if isinstance(a, dict):
            return {k: run_steps(l, ops, v, cs[0]) for k, v in a.items()}
        if mode == "static" and kw.get("flag"):
            return run_steps(l, ops, a, cs[1])
        if mode == "kw" and "b" in kw:
            return (run_steps(l, ops, a, kw["b"]), cs[1] + a)
        if a.ndim == 2:
            return [run_steps(l, ops, a, cs[1])]
        return run_steps(l, ops, a, cs[0])

    jf = jit(lambda a, **kw: f(OURS, [r for r, _ in consts], a, **kw), **({"static_argnames": ("flag",)} if mode == "static" else {}))
    calls = []
    for _ in range(rng.choice([2, 3, 4])):
        if mode == "tree":
            calls.append(({k: random_array(rng, shape) for k in rng.sample(["a", "b"], rng.choice([1, 2]))}, {}))
        elif mode == "shape":
            calls.append((random_array(rng, rng.choice([shape, [3] + shape])), {}))
        elif mode == "static":
            calls.append((random_array(rng, shape), {"flag": rng.random() < 0.5}))
        else:
            calls.append((random_array(rng, shape), {"b": random_array(rng, shape)} if rng.random() < 0.5 else {}))
    calls += [calls[0]]
    for n, (a, kw) in enumerate(calls):
        got = jf(a, **kw)
        want = lift(lambda x, y: f(PLAIN, [x, y], a, **kw), *[fm for _, fm in consts])
        gl, gs = jax.tree.flatten(got, is_leaf=lambda x: isinstance(x, Term))
        wl, ws = jax.tree.flatten(small_of(want))
        c.check(gs == ws, f"jit {mode}: structure {gs}, expected {ws}")
        for k in range(len(wl)):
            have = set(sizesof(gl[k]))
            # a result has the names of the constants it depends on
            full = Fam(want.sizes, {e: jax.tree.leaves(v)[k] for e, v in want.items.items()})
            dep = {nm: s for nm, s in full.sizes.items() if any(not np.array_equal(np.asarray(full.at(e)), np.asarray(full.at({**e, nm: 0}))) for e in assignments(full.sizes))}
            c.check(have >= set(dep) and have <= set(full.sizes), f"jit {mode} call {n}: names {have}, values vary along {set(dep)}")
            sub = {nm: s for nm, s in full.sizes.items() if nm in have}
            compare(c, gl[k], Fam(sub, {tuple(e.values()): full.at({**{nm: 0 for nm in full.sizes}, **e}) for e in assignments(sub)}), f"jit {mode} call {n} of {ops}")
        c.count("jitted")
        if n:
            c.count("again")
    # inside jax.jit and jax.vmap: names in the middle only
    m = rng.choice([1, 2, 3])
    arg = random_array(rng, [m, sizes[inner]] + shape)
    rn = [inner] + [n for n in names if n is not inner]
    cr, cf = consts[0]

    def g(l, x, y):
        return run_steps(l, ops, x, y).sum(-1)

    def bound(a):
        r = g(OURS, unbind_dims(a, inner), cr)
        have = [n for n in rn if n in sizesof(r)]
        return bind_dims(r, *have)

    have = [n for n in rn if n is inner or n in cf.sizes] if any(k == 2 for _, k in ops) else [inner]
    how = rng.choice(["vmap", "jit", "vmapjit"])
    if how == "vmap":
        got = jax.vmap(bound)(arg)
    elif how == "jit":
        got = pnp.stack([jax.jit(bound)(x) for x in arg])
    else:
        got = jax.jit(jax.vmap(bound))(arg)
    want = np.stack([dense(lift(lambda x, y: g(PLAIN, x, y), from_array(x, [inner]), cf if any(k == 2 for _, k in ops) else Fam({}, {(): small_of(cf)})), have) for x in arg])
    c.check(got.shape == want.shape and np.allclose(np.asarray(got), want, rtol=1e-9, atol=1e-9, equal_nan=True), f"{how} of a function that unbinds and binds: {got}, expected {want}", ops=ops)
    c.count("vmapped")
    c.key((mode, ops, how, len(calls), sizes[inner]))


def deferred(c):
    rng = c.rng
    names = new_names(rng, 2)
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2]))]
    vs = [Operation.define(jax.Array, name="v") for _ in range(2)]
    vals = [named(rng, names, sizes, shape) for _ in range(2)]
    known = named(rng, names, sizes, shape)
    ops = step_ops(rng, rng.choice([1, 2, 3]))
    two = any(k == 2 for _, k in ops)
    red = rng.choice([lambda l, x: x, lambda l, x: x.sum(-1), lambda l, x: l.np.cumsum(x, axis=0), lambda l, x: l.lse(x, axis=-1), lambda l, x: l.np.stack([x, x]), lambda l, x: x[0], lambda l, x: x.T, lambda l, x: x.max(axis=0, keepdims=True)])
    which = rng.choice(["free-known", "known-free", "free-free"])
    order = {"free-known": (vs[0], known), "known-free": (known, vs[0]), "free-free": (vs[0], vs[1])}[which]
    reals = [o() if isinstance(o, Operation) else o[0] for o in order]
    fams = [vals[vs.index(o)][1] if isinstance(o, Operation) else o[1] for o in order]
    if not two:
        fams[1] = Fam({}, {(): small_of(fams[1])})
    want = lift(lambda a, b: red(PLAIN, run_steps(PLAIN, ops, a, b)), *fams)
    term = red(OURS, run_steps(OURS, ops, *reals))
    if fvsof(term) & set(vs):
        c.check(isinstance(term, Term), "an expression with an unknown array is deferred")
    intp = {v: (lambda r=r: r) for v, (r, _) in zip(vs, vals)}
    how = rng.choice(["once", "staged", "intp"])
    if how == "once":
        with handler(intp):
            got = evaluate(term)
    elif how == "intp":
        got = evaluate(term, intp=intp)
    else:
        first = rng.choice(vs)
        got = evaluate(evaluate(term, intp={first: intp[first]}), intp=intp)
    compare(c, got, want, f"deferred {which} {ops}")
    c.count("deferred")
    c.key((which, ops, how, shape))


SECTIONS = [
    Section("program", program, 60, 6000, 3),
    Section("each", each, 270, 4000, 3),
    Section("indexing", indexing, 80, 6000, 2),
    Section("binding", binding, 50, 3000, 1),
    Section("compiled", compiled, 24, 1500, 1),
    Section("deferred", deferred, 40, 3000, 1),
]
