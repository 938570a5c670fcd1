"""C14: PyTorch tensors with named dimensions are families of tensors."""
import itertools
import operator
import warnings

import torch

from harness.core import Section
from harness.named import Fam, assignments, close, compare, dense, from_tensor, lift, random_tensor

from effectful.handlers.torch import bind_dims, sizesof, torch_getitem, unbind_dims
from effectful.ops.semantics import evaluate, fvsof, handler
from effectful.ops.syntax import defop
from effectful.ops.types import NotHandled, Operation, Term

warnings.simplefilter("ignore")
torch.set_num_threads(1)

RULE = (
    "Random programs of tensor operations (pointwise, broadcasting, reducing, reshaping, indexing, linear algebra, several "
    "results) are run on tensors whose dimensions are partly named and, as the oracle, separately on the plain tensors of "
    "every index assignment in a Python loop. After every step the named result must report exactly the names, sizes, "
    "shape and dtype, and equal the loop's results when its names are turned into positions in a random order. Further "
    "sections check index expressions, binding and unbinding in every order, rejection of conflicting sizes, and deferred "
    "tensor expressions evaluated later. Distinct by program, names and shapes."
)
ASSUMPTIONS = [
    "Operations that PyTorch's vmap cannot batch (data-dependent shapes, in-place updates, results that are not tensors) are not used.",
    "Dimensions have size at least one.",
    "A named index in one index expression with both a slice and an index array follows torch's rule for 0-d index tensors; such mixtures are not compared.",
    "Values compared with relative tolerance 1e-9 in double precision.",
]
NEED = {"steps": 700, "entries": 20000, "named_pairs": 100, "index_exprs": 250, "bindings": 100, "deferred": 100, "conflicts": 50, "diagonals": 40, "operators": 80}


def new_names(rng, k):
    base = rng.choice(["i", "j"])
    return [Operation.define(torch.Tensor, name=rng.choice([base, base, "k"])) for _ in range(k)]


# ------------------------------------------------------------- operations
def U(f):
    return ("u", f)


UNARY = {
    "exp": torch.exp, "sin": torch.sin, "abs": abs, "neg": operator.neg, "sigmoid": torch.sigmoid, "relu": torch.relu,
    "tanh": torch.tanh, "sign": torch.sign, "sq": lambda x: x ** 2, "rsub": lambda x: 1.5 - x, "rdiv": lambda x: 2.0 / (x * x + 1),
    "rpow": lambda x: 2.0 ** x, "clamp": lambda x: torch.clamp(x, -0.5, max=0.75), "floor": torch.floor, "round": torch.round,
    "float": lambda x: x.to(torch.float32), "double": lambda x: x.double(), "clone": lambda x: x.clone(), "isnan": torch.isnan,
    "zeros_like": torch.zeros_like, "nan_to_num": torch.nan_to_num, "logsumexp1": lambda x: torch.log1p(x * x), "gelu": torch.nn.functional.gelu,
    "addk": lambda x: torch.add(x, 3, alpha=2), "mod": lambda x: x % 0.7, "rmod": lambda x: 3.0 % (x * x + 1), "fdiv": lambda x: x // 0.3,
    "square_m": lambda x: x.square(), "gt": lambda x: x > 0.1, "le": lambda x: 0.2 <= x,
}
BINARY = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": lambda a, b: a / (b * b + 1), "max": torch.maximum,
    "min": torch.minimum, "lt": operator.lt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "atan2": torch.atan2,
    "tsub": torch.sub, "msub": lambda a, b: a.sub(b), "where": lambda a, b: torch.where(a > b, a, -b), "hypot": torch.hypot,
    "addalpha": lambda a, b: torch.add(a, b, alpha=3), "rem": lambda a, b: a % (b * b + 0.5), "fmod": lambda a, b: torch.fmod(a, b * b + 0.5),
    "pow": lambda a, b: (a * a + 0.1) ** b, "lerp": lambda a, b: torch.lerp(a, b, 0.3), "outer_sub": lambda a, b: a.unsqueeze(-1) - b.unsqueeze(0),
    "fdiv": lambda a, b: a // (b * b + 0.5), "dist": lambda a, b: torch.nn.functional.mse_loss(a, b, reduction="none"),
    "bt": lambda a, b: torch.broadcast_tensors(a, b)[1],
}
LINEAR = {
    "mm": operator.matmul, "matmul": torch.matmul, "dot": torch.dot, "mv": torch.mv, "outer": torch.outer, "mmT": lambda a, b: a @ b.T,
    "einsum": lambda a, b: torch.einsum("ab,bc->ac", a, b), "einsum1": lambda a, b: torch.einsum("a,a->", a, b),
    "tensordot": lambda a, b: torch.tensordot(a, b, dims=1), "bmm": torch.bmm, "cdist": torch.cdist,
    "solve": lambda a, b: torch.linalg.solve(a @ a.mT + 3 * torch.eye(a.shape[-1], dtype=a.dtype), b),
    "cat": lambda a, b: torch.cat([a, b], 0), "catk": lambda a, b: torch.cat((a, b), dim=-1), "stack": lambda a, b: torch.stack([a, b]),
    "stack-1": lambda a, b: torch.stack((b, a), dim=-1), "kron": torch.kron,
}


def shape_ops(rng, shape):
    """Unary operations for the given positional shape."""
    nd = len(shape)
    d = rng.randrange(-nd, nd) if nd else None
    out = []
    if nd:
        kd = rng.random() < 0.5
        out += [
            ("sum", lambda x: x.sum(d)), ("sumk", lambda x: torch.sum(x, dim=d, keepdim=kd)), ("mean", lambda x: x.mean(dim=d, keepdim=kd)),
            ("prod", lambda x: torch.prod(x, d)), ("amax", lambda x: torch.amax(x, dim=d)), ("argmax", lambda x: torch.argmax(x, dim=d)),
            ("cumsum", lambda x: torch.cumsum(x, d)), ("softmax", lambda x: torch.softmax(x, d)), ("lse", lambda x: torch.logsumexp(x, d)),
            ("nfsoftmax", lambda x: torch.nn.functional.log_softmax(x, dim=d)), ("flip", lambda x: torch.flip(x, [d])),
            ("roll", lambda x: torch.roll(x, 1, d)), ("maxv", lambda x: x.max(dim=d)[0]), ("maxi", lambda x: torch.max(x, d).indices),
            ("sort", lambda x: torch.sort(x, d, descending=kd).values), ("var", lambda x: torch.var(x, dim=d, unbiased=False)),
            ("norm", lambda x: torch.linalg.norm(x, dim=d)), ("diff", lambda x: torch.diff(x, dim=d)), ("any", lambda x: torch.any(x > 0, dim=d)),
            ("all", lambda x: (x > 0).all(d)), ("chunk", lambda x: torch.chunk(x, 2, d)[-1]), ("split", lambda x: x.split(1, d)[-1]),
            ("unbind", lambda x: torch.unbind(x, d)[0]), ("select", lambda x: torch.select(x, d, 0)), ("narrow", lambda x: x.narrow(d, 0, 1)),
            ("unflatten", lambda x: x.unflatten(d, (1, -1))), ("topk", lambda x: torch.topk(x, 1, dim=d).values),
            ("index_select", lambda x: torch.index_select(x, d, torch.tensor([0, x.shape[d] - 1, 0]))), ("cumprod", lambda x: x.cumprod(dim=d)),
            ("gather", lambda x: torch.gather(x, d, torch.zeros(x.shape, dtype=torch.long))), ("aminmax", lambda x: torch.aminmax(x, dim=d)[1]),
            ("movedim", lambda x: torch.movedim(x, d, 0)), ("repeat", lambda x: x.repeat_interleave(2, d)), ("median", lambda x: x.median(d)[0]),
        ]
        perm = list(range(nd))
        rng.shuffle(perm)
        out += [("permute", lambda x: x.permute(*perm)), ("permute2", lambda x: torch.permute(x, perm)), ("flatten", lambda x: torch.flatten(x)),
                ("transpose", lambda x: x.transpose(0, d)), ("tile", lambda x: torch.tile(x, (2,))), ("squeeze", lambda x: x.squeeze()),
                ("squeezed", lambda x: x.squeeze(d)), ("reshape", lambda x: x.reshape(-1)), ("reshape2", lambda x: torch.reshape(x, (1, *perm_shape(x, perm)))),
                ("view", lambda x: x.clone().view(-1, 1))]
    if nd == 2:
        out += [("T", lambda x: x.T), ("tril", torch.tril), ("trace", lambda x: torch.trace(x)), ("diag", lambda x: torch.diagonal(x)),
                ("det", lambda x: torch.linalg.det(x @ x.mT)), ("inv", lambda x: torch.linalg.inv(x @ x.mT + 2 * torch.eye(x.shape[0], dtype=x.dtype))),
                ("chol", lambda x: torch.linalg.cholesky(x @ x.mT + 2 * torch.eye(x.shape[0], dtype=x.dtype)))]
    if nd == 1:
        out += [("diag_embed", lambda x: torch.diag_embed(x)), ("diag1", lambda x: torch.diag(x)), ("vander", lambda x: torch.stack([x, x * 2, x * 3], dim=1))]
    out += [("sumall", lambda x: x.sum()), ("meanall", torch.mean), ("unsq", lambda x: x.unsqueeze(0)), ("unsq-1", lambda x: torch.unsqueeze(x, -1)),
            ("expand", lambda x: x.expand(2, *x.shape)), ("maxall", lambda x: torch.max(x)), ("bcast", lambda x: torch.broadcast_to(x, (2, *x.shape))),
            ("atleast", lambda x: torch.atleast_2d(x)), ("argminall", lambda x: x.argmin()), ("varall", lambda x: torch.var(x, unbiased=False)),
            ("ravel", torch.ravel), ("getnone", lambda x: x[None]), ("getell", lambda x: x[..., None])]
    return out


def perm_shape(x, perm):
    return [x.shape[p] for p in perm]


MULTI = {
    "max": lambda x: torch.max(x, dim=-1), "sort": lambda x: torch.sort(x), "split": lambda x: torch.split(x, 1), "unbind": lambda x: x.unbind(0),
    "chunk": lambda x: x.chunk(2, -1), "aminmax": lambda x: torch.aminmax(x), "var_mean": lambda x: torch.var_mean(x, unbiased=False),
    "slogdet": lambda x: torch.linalg.slogdet(x @ x.mT + torch.eye(x.shape[-2], dtype=x.dtype)), "meshgrid": lambda x: torch.meshgrid(x, x * 2, indexing="ij"),
    "frexp": lambda x: torch.frexp(x), "topk": lambda x: x.topk(1),
}


class Pool:
    """Real values next to their families."""

    def __init__(self, c, names, sizes):
        self.c, self.names, self.sizes = c, names, sizes
        self.items = []

    def fresh(self, shape=None, kind="float"):
        c, rng = self.c, self.c.rng
        ns = rng.sample(self.names, rng.randint(0, len(self.names)))
        if shape is None:
            shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        t = random_tensor(rng, [self.sizes[n] for n in ns] + list(shape), kind)
        fam = from_tensor(t, ns)
        # name the dimensions wherever they are
        lay = list(range(t.dim()))
        rng.shuffle(lay)
        if rng.random() < 0.5:
            lay = list(range(t.dim()))
        # positions: keep the positional dimensions in order
        pos = sorted(p for p in lay if p >= len(ns))
        it = iter(pos)
        lay = [p if p < len(ns) else next(it) for p in lay]
        u = t.permute(lay) if lay else t
        key = tuple(ns[p]() if p < len(ns) else slice(None) for p in lay)
        real = u[key] if ns else t
        return real, fam


def both(c, what, fn, reals, fams, multi=False):
    """Runs fn on the named tensors and on every assignment; None when torch itself refuses."""
    try:
        want = lift(lambda *a: fn(*a), *fams)
    except Exception:
        c.count("refused")
        return None
    got = fn(*reals)
    c.count("steps")
    if len([f for f in fams if f.sizes]) > 1:
        c.count("named_pairs")
    if multi:
        vals = next(iter(want.items.values()))
        c.check(isinstance(got, tuple) and len(got) == len(vals), f"{what}: {len(vals)} results expected, got {type(got)}")
        out = []
        for k in range(len(vals)):
            f = Fam(want.sizes, {a: v[k] for a, v in want.items.items()})
            compare(c, got[k], f, f"{what}[{k}]")
            out.append((got[k], f))
        return out
    compare(c, got, want, what)
    return [(got, want)]


def program(c):
    rng = c.rng
    names = new_names(rng, rng.choice([1, 2, 2, 3]))
    sizes = {n: rng.choice([1, 2, 3, 2]) for n in names}
    pool = Pool(c, names, sizes)
    items = [pool.fresh() for _ in range(rng.choice([2, 3]))]
    for r, f in items:
        if f.sizes:
            compare(c, r, f, "initial value")
    trail = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.random()
        r, f = rng.choice(items)
        small = next(iter(f.items.values()))
        if small.dtype in (torch.bool, torch.int64, torch.int32, torch.float32) and rng.random() < 0.85:
            r, f = r.double() if rng.random() < 0.5 else r.to(torch.float64), lift(lambda x: x.double(), f)
        if k < 0.2:
            n = rng.choice(list(UNARY))
            res = both(c, n, UNARY[n], [r], [f])
        elif k < 0.5:
            n = rng.choice(list(BINARY))
            r2, f2 = rng.choice(items) if rng.random() < 0.4 else pool.fresh(rng.choice([None, list(small.shape), [], list(small.shape)[-1:]]))
            args = [(r, f), (r2, f2)]
            rng.shuffle(args)
            res = both(c, n, BINARY[n], [a[0] for a in args], [a[1] for a in args])
        elif k < 0.8:
            n, fn = rng.choice(shape_ops(rng, tuple(small.shape)))
            res = both(c, n, fn, [r], [f])
        elif k < 0.9:
            n = rng.choice(list(LINEAR))
            s = list(small.shape)
            r2, f2 = pool.fresh(rng.choice([s, s[::-1], s[-1:] + [2], s[-1:], [s[0]] if s else [], s[:-2] + s[-1:] + [2] if len(s) > 1 else s]))
            res = both(c, n, LINEAR[n], [r, r2], [f, f2])
        else:
            n = rng.choice(list(MULTI))
            res = both(c, n, MULTI[n], [r], [f], True)
        if res:
            trail.append((n, tuple(small.shape)))
            items += [x for x in res if torch.as_tensor(next(iter(x[1].items.values()))).numel() <= 40]
    c.key((trail, [(n.__name__, sizes[n]) for n in names]))
    c.sample(trail)


# ---------------------------------------------------------------- indexing
def indexing(c):
    """Index expressions: names, integers, slices, None, Ellipsis, index arrays."""
    rng = c.rng
    names = new_names(rng, 3)
    dims = rng.choice([1, 2, 3, 4])
    shape = [rng.choice([1, 2, 3, 4]) for _ in range(dims)]
    t = random_tensor(rng, shape)
    lead = rng.choice([0, 0, 1])  # a name the tensor already has
    base_name = names[2]
    if lead:
        t = random_tensor(rng, [2] + shape)
        real, fam = t[base_name()], from_tensor(t, [base_name])
    else:
        real, fam = t, from_tensor(t, [])
    # the key
    key, concrete, used = [], [], {}
    kinds = set()
    fams = [fam]
    n = rng.randint(1, dims)
    ell = rng.randrange(n + 1) if rng.random() < 0.35 else None
    d = 0
    order = list(range(n))
    pos = [p if ell is None or p < ell else dims - n + p for p in range(n)]
    for p, axis in zip(order, pos):
        if ell is not None and p == ell:
            key.append(Ellipsis)
            concrete.append(Ellipsis)
        while rng.random() < 0.15:
            key.append(None)
            concrete.append(None)
        size = shape[axis]
        k = rng.random()
        free = [x for x in names[:2] if x not in used or used[x] == size]
        if k < 0.4 and free:
            x = rng.choice(free)
            used[x] = size
            key.append(x())
            f = Fam({x: size}, {(a,): torch.tensor(a) for a in range(size)})
            concrete.append(f)
            kinds.add("name")
        elif k < 0.6:
            v = rng.randrange(-size, size)
            key.append(v)
            concrete.append(v)
            kinds.add("int")
        elif k < 0.85:
            a, b, s = rng.choice([None, 0, 1, -1]), rng.choice([None, size, -1, size + 2]), rng.choice([None, 1, 2])
            sl = slice(a, b, s)
            if len(range(size)[sl]) == 0:
                sl = slice(None)
            key.append(sl)
            concrete.append(sl)
            kinds.add("slice" if sl != slice(None) else "all")
        elif k < 0.93:
            v = random_tensor(rng, [rng.choice([1, 2])] * rng.choice([0, 1]), size)
            key.append(v)
            concrete.append(v)
            kinds.add("array")
        else:
            # an index array with a name of its own
            x = names[rng.randrange(2)]
            if x in used:
                m = used[x]
            else:
                m = used[x] = rng.choice([1, 2, 3])
            v = random_tensor(rng, [m], size)
            key.append(v[x()])
            concrete.append(from_tensor(v, [x]))
            kinds.add("named_array")
    if ell is not None and ell == n:
        key.append(Ellipsis)
        concrete.append(Ellipsis)
    key, concrete = tuple(key), tuple(concrete)
    has_none = any(k is None for k in key)
    advanced = kinds & {"array", "named_array"}
    if ("name" in kinds and advanced) or (advanced and kinds & {"slice", "all", "int"}) or (advanced and (has_none or ell is not None or n < dims or lead)):
        # adjacent advanced indices only
        if not simple_advanced(key) or "name" in kinds or kinds & {"int"} or has_none or "named_array" in kinds:
            c.count("mixtures")
            return
    what = f"{'named ' if lead else ''}{tuple(shape)}[{key}]"
    parts = [fam] + [k for k in concrete if isinstance(k, Fam)]

    def ref(x, *ks):
        it = iter(ks)
        kk = tuple(int(next(it)) if isinstance(k, Fam) and torch.as_tensor(next_peek(k)).dim() == 0 else next(it) if isinstance(k, Fam) else k for k in concrete)
        return x[kk]

    def next_peek(k):
        return next(iter(k.items.values()))

    want = lift(ref, *parts)
    arg = key if len(key) != 1 or rng.random() < 0.5 else key[0]
    got = torch_getitem(real, key) if rng.random() < 0.3 else real[arg]
    compare(c, got, want, what)
    c.count("index_exprs")
    # use it in an operation, too
    compare(c, got * 2 - got, lift(lambda x: x * 2 - x, want), what + " used")
    if "name" in kinds:
        # later: with an index for the name
        x = next(k for k in key if isinstance(k, Term) and k.op in used and not isinstance(k, torch.Tensor)).op
        v = rng.randrange(used[x])
        with handler({x: lambda: torch.tensor(v)}):
            sub = evaluate(got)
        rest = {n: s for n, s in want.sizes.items() if n is not x}
        names_ = list(want.sizes)
        f2 = Fam(rest, {tuple(e.values()): want.at({**e, x: v}) for e in assignments(rest)})
        if not (advanced or has_none or kinds & {"slice", "all"} or ell is not None or n < dims):
            compare(c, sub, f2, what + f" with {x}={v}")
            c.count("substituted")
    c.key((what, [k.__name__ if isinstance(k, Operation) else "" for k in used]))


def simple_advanced(key):
    where = [i for i, k in enumerate(key) if isinstance(k, torch.Tensor)]
    return where == list(range(where[0], where[-1] + 1))


# ------------------------------------------------------------------ binding
def binding(c):
    """Names to positions and back."""
    rng = c.rng
    k = rng.choice([1, 2, 3, 4])
    names = new_names(rng, k)
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2]))]
    kind = rng.choice(["float", "int", "bool", "pos"])
    pool = Pool(c, names, sizes)
    t = random_tensor(rng, [sizes[n] for n in names] + shape, kind)
    fam = from_tensor(t, names)
    style = rng.choice(["getitem", "unbind", "computed", "staged"])
    if style == "getitem":
        real = t[tuple(n() for n in names)]
    elif style == "unbind":
        real = unbind_dims(t, *names)
    elif style == "staged":
        real = t
        for n in names:
            real = unbind_dims(real, n)
    else:
        real = t[tuple(n() for n in names)].clone()
    compare(c, real, fam, f"{style} of {names}")
    c.check(dict(sizesof(real)) == sizes, "sizes")
    c.check(fvsof(real) >= set(names), "free variables of a named tensor")
    # some names to positions
    some = rng.sample(names, rng.randint(0, k))
    rest = [n for n in names if n not in some]
    part = bind_dims(real, *some) if some else real
    if some and not rest:
        c.check(not isinstance(part, Term), "binding every name leaves a plain tensor")
    sub = Fam({n: sizes[n] for n in rest}, {tuple(e.values()): dense(Fam({n: sizes[n] for n in some}, {tuple(e2.values()): fam.at({**e, **e2}) for e2 in assignments({n: sizes[n] for n in some})}), some)
                                            for e in assignments({n: sizes[n] for n in rest})})
    compare(c, part, sub, f"bound {some} of {names}")
    back = unbind_dims(part, *some) if some else part
    compare(c, back, fam, "bound and unbound")
    # different order and new names
    other = new_names(rng, len(some))
    re = unbind_dims(part, *other) if some else part
    ren = Fam({**{o: sizes[n] for o, n in zip(other, some)}, **{n: sizes[n] for n in rest}},
              {(*(e[o] for o in other), *(e[n] for n in rest)): fam.at({**{n: e[o] for o, n in zip(other, some)}, **{n: e[n] for n in rest}})
               for e in assignments({**{o: sizes[n] for o, n in zip(other, some)}, **{n: sizes[n] for n in rest}})})
    compare(c, re, ren, "bound and unbound with other names")
    c.count("bindings")
    # containers
    if some:
        u = random_tensor(rng, [sizes[n] for n in names])
        tree = {"a": real, "b": [u[tuple(n() for n in names)], (real * 2,)]}
        bound = bind_dims(tree, *some)
        compare(c, bound["a"], sub, "in a container")
        c.check(type(bound["b"]) is list and type(bound["b"][1]) is tuple, "container types")
        back = unbind_dims(bound, *some)
        compare(c, back["a"], fam, "unbound in a container")
        compare(c, back["b"][0], from_tensor(u, names), "unbound in a container")
    # rejected
    if k >= 1:
        n = rng.choice(names)
        c.raises(ValueError, lambda: bind_dims(real, n, n), "binding a name twice")
        wrong = random_tensor(rng, [sizes[n] + 1])[n()]
        c.raises(ValueError, lambda: real + wrong, "conflicting sizes")
        c.raises(ValueError, lambda: sizesof((real, wrong)), "sizes of conflicting tensors")
        c.raises(ValueError, lambda: torch.stack([real.sum(), wrong]) if kind != "bool" else wrong * real, "conflicting sizes")
        c.raises(TypeError, lambda: torch_getitem(t, (n,)), "an operation as an index")
        c.count("conflicts")
    # a name it does not have
    stranger = new_names(rng, 1)[0]
    same = bind_dims(real, stranger)
    if not isinstance(same, Term) or dict(sizesof(same)) == sizes:
        compare(c, same, fam, "binding a name it does not have")
    mixed = bind_dims(real, names[0], stranger)
    c.check(isinstance(mixed, Term) and not isinstance(mixed, torch.Tensor), "binding a known and an unknown name is not decided", r=mixed)
    # the diagonal
    if kind != "bool" and sizes[names[0]] == t.shape[0]:
        sq = random_tensor(rng, [3, 3, 2])
        x = names[0]
        diag = sq[x(), x()]
        compare(c, diag, Fam({x: 3}, {(a,): sq[a, a] for a in range(3)}), "diagonal")
        compare(c, diag + 0, Fam({x: 3}, {(a,): sq[a, a] for a in range(3)}), "diagonal used")
        c.count("diagonals")
    c.key((style, [(n.__name__, s) for n, s in sizes.items()], shape, kind, [names.index(n) for n in some]))


# ----------------------------------------------------------------- deferred
def deferred(c):
    """Expressions over tensors that are not known yet."""
    rng = c.rng
    names = new_names(rng, 2)
    sizes = {n: rng.choice([1, 2, 3]) for n in names}
    pool = Pool(c, names, sizes)
    shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2]))]
    vs = [Operation.define(torch.Tensor, name="v") for _ in range(2)]
    vals = [pool.fresh(shape), pool.fresh(shape)]
    known = pool.fresh(shape)

    def step(ops, x, y):
        for n, kind in ops:
            x = UNARY[n](x) if kind == "u" else BINARY[n](x, y)
        return x

    un = ["exp", "sin", "neg", "sq", "rsub", "rpow", "abs", "mod", "rmod", "tanh", "addk", "rdiv"]
    bi = ["add", "sub", "mul", "div", "max", "tsub", "rem", "hypot", "where", "addalpha", "fdiv", "lerp"]
    ops = [(rng.choice(un), "u") if rng.random() < 0.4 else (rng.choice(bi), "b") for _ in range(rng.choice([1, 2, 3]))]
    red = rng.choice([lambda x: x, lambda x: x.sum(-1) if isinstance(x, torch.Tensor) else torch.sum(x, -1), lambda x: torch.softmax(x, -1), lambda x: torch.stack([x, x])])
    which = rng.choice(["free-known", "known-free", "free-free"])

    def whole(a, b, k):
        if which == "free-known":
            return red(step(ops, a, k))
        if which == "known-free":
            return red(step(ops, k, a))
        return red(step(ops, a, b))

    two = any(k == "b" for _, k in ops)
    if which == "free-known":
        fams = [vals[0][1], known[1] if two else None, None]
        fn = lambda *a: whole(a[0], None, a[1])
    elif which == "known-free":
        fams = [known[1], vals[0][1] if two else None]
        fn = lambda *a: whole(a[1], None, a[0])
    else:
        fams = [vals[0][1], vals[1][1] if two else None]
        fn = lambda *a: whole(a[0], a[1], None)
    try:
        want = lift(fn, *fams)
    except Exception:
        return
    term = whole(vs[0](), vs[1](), known[0])
    used = fvsof(term) & set(vs)
    if used:
        c.check(isinstance(term, Term), "an expression with an unknown tensor is deferred", term=term)
        c.check(set(sizesof(term)) <= set(names), "names of a deferred expression")
    how = rng.choice(["once", "staged", "intp"])
    intp = {v: (lambda r=r: r) for v, (r, _) in zip(vs, vals)}
    if how == "once":
        with handler(intp):
            got = evaluate(term)
    elif how == "intp":
        got = evaluate(term, intp=intp)
    else:
        first = rng.choice(vs)
        got = evaluate(evaluate(term, intp={first: intp[first]}), intp=intp)
    compare(c, got, want, f"deferred {which} {ops}")
    c.count("deferred")
    # a name used as a number
    x = names[0]
    real, fam = pool.fresh(shape)
    if x in fam.sizes:
        got = rng.choice([lambda: real * x(), lambda: torch.mul(x(), real), lambda: real * 1.0 * x()])()
        compare(c, got, lift(lambda a, i: a * i, fam, Fam({x: sizes[x]}, {(a,): torch.tensor(a) for a in range(sizes[x])})), "an index as a number")
        c.count("index_values")
    c.key((which, ops, how, shape))


OPERATORS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.pow, operator.floordiv, operator.mod, operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne, operator.matmul]
INT_OPERATORS = [operator.lshift, operator.rshift, operator.and_, operator.or_, operator.xor, operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod]
UNARY_OPERATORS = [(operator.neg, "pos"), (operator.pos, "pos"), (abs, "pos"), (operator.invert, 4)]


def positive(rng, shape, kind):
    return random_tensor(rng, shape, kind) + (1 if kind == 4 else 0)


def operators(c):
    """Every operator with operands of every kind, in turn."""
    rng = c.rng
    names = new_names(rng, 2)
    sizes = {n: 2 for n in names}
    v = Operation.define(torch.Tensor)
    k = c.index
    allops = [(o, "pos") for o in OPERATORS] + [(o, 4) for o in INT_OPERATORS]
    if k % 10 == 0:
        op, kind = UNARY_OPERATORS[(k // 10) % len(UNARY_OPERATORS)]
        t = positive(rng, [2, 2], kind)
        r, f = t[names[0]()], from_tensor(t, [names[0]])
        compare(c, op(r), lift(op, f), op.__name__)
        compare(c, evaluate(op(v()), intp={v: lambda: r}), lift(op, f), op.__name__ + " deferred")
        c.key((op.__name__, kind))
        return
    k = k - k // 10 - 1
    op, kind = allops[k % len(allops)]
    other = ["named", "plain", "scalar", "free-named", "free-plain", "free-scalar", "free-free"][(k // len(allops)) % 7]
    t = positive(rng, [2, 2, 2], kind)
    r, f = t[names[0]()], from_tensor(t, [names[0]])
    if other.endswith(("named", "-free")):
        t2 = positive(rng, [2, 2, 2], kind)
        n = rng.choice(names)
        r2, f2 = t2[n()], from_tensor(t2, [n])
    elif other.endswith("plain") or op is operator.matmul:
        r2 = positive(rng, [2, 2], kind)
        f2 = from_tensor(r2, [])
    else:
        r2 = 1.75 if kind == "pos" else 2
        f2 = Fam({}, {(): r2})
    for swap in (False, True):
        what = f"{op.__name__} {other} swap={swap}"
        try:
            want = lift(lambda a, b: op(b, a) if swap else op(a, b), f, f2)
        except TypeError:
            continue  # plain tensors do not support it
        intp = {v: lambda: r}
        if other.startswith("free"):
            if other == "free-free":
                w = Operation.define(torch.Tensor)
                intp[w] = lambda: r2
                term = op(w(), v()) if swap else op(v(), w())
            else:
                term = op(r2, v()) if swap else op(v(), r2)
            c.check(isinstance(term, Term), what + " is deferred")
            got = evaluate(term, intp=intp)
        else:
            got = op(r2, r) if swap else op(r, r2)
        compare(c, got, want, what)
        c.count("operators")
        c.key((what, kind))


SECTIONS = [
    Section("operators", operators, 190, 4000, 1),
    Section("program", program, 300, 15000, 3),
    Section("indexing", indexing, 700, 50000, 2),
    Section("binding", binding, 200, 12000, 3),
    Section("deferred", deferred, 250, 12000, 3),
]
