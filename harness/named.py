"""Families of tensors: the reference meaning of a tensor with named dimensions."""
import itertools

import torch

from effectful.handlers.torch import bind_dims, sizesof


class Fam:
    """A tensor for every assignment of the names in `sizes` (name -> size)."""

    def __init__(self, sizes, items):
        self.sizes, self.items = dict(sizes), items  # items: assignment tuple (in order of sizes) -> value

    def at(self, env):
        return self.items[tuple(env[n] for n in self.sizes)]

    def __repr__(self):
        return f"Fam({self.sizes}, {self.items})"


def assignments(sizes):
    names = list(sizes)
    for idx in itertools.product(*(range(sizes[n]) for n in names)):
        yield dict(zip(names, idx))


def lift(fn, *fams):
    """fn applied separately at every assignment of all names of its operands."""
    sizes = {}
    for f in fams:
        if isinstance(f, Fam):
            for n, s in f.sizes.items():
                assert sizes.setdefault(n, s) == s
    items = {}
    for env in assignments(sizes):
        items[tuple(env.values())] = fn(*[f.at(env) if isinstance(f, Fam) else f for f in fams])
    return Fam(sizes, items)


def from_tensor(t, names):
    """The first dimensions of a plain tensor, named."""
    sizes = dict(zip(names, t.shape))
    return Fam(sizes, {tuple(e.values()): t[tuple(e.values())] for e in assignments(sizes)})


def dense(fam, order):
    """Stacked in the given order of names, names first."""
    order = list(order)
    vals = [fam.at(e) for e in assignments({n: fam.sizes[n] for n in order})]
    shape = [fam.sizes[n] for n in order]
    v = torch.stack([torch.as_tensor(x) for x in vals])
    return v.reshape(shape + list(v.shape[1:]))


def close(a, b, tol=1e-9):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.is_floating_point or a.dtype.is_complex:
        t = tol if a.dtype in (torch.float64, torch.complex128) else 1e-4
        return bool(torch.allclose(a, b, rtol=t, atol=t, equal_nan=True))
    return bool((a == b).all())


def _prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def compare(c, real, fam, what, tol=1e-9):
    """The real value must be the family: names, sizes, shape, dtype, every entry."""
    got_sizes = dict(sizesof(real)) if isinstance(real, torch.Tensor) else None
    c.check(got_sizes is not None, f"{what}: not a tensor: {type(real)}")
    want = dict(fam.sizes)
    c.check(got_sizes == want, f"{what}: dimensions {got_sizes}, expected {want}")
    order = list(want)
    c.rng.shuffle(order)
    pos = bind_dims(real, *order) if order else real
    c.check(type(pos) in (torch.Tensor, torch.nn.Parameter), f"{what}: binding all dimensions leaves {type(pos)}")
    ref = dense(fam, order)
    c.check(tuple(pos.shape) == tuple(ref.shape), f"{what}: shape {tuple(pos.shape)}, expected {tuple(ref.shape)}")
    c.check(tuple(real.shape) == tuple(ref.shape[len(order):]), f"{what}: reported shape {tuple(real.shape)}, expected {tuple(ref.shape[len(order):])}")
    n = len(ref.shape) - len(order)
    c.check(real.dim() == n and real.ndim == n and real.numel() == ref.numel() // max(1, _prod(want.values())), f"{what}: dim {real.dim()}, numel {real.numel()}")
    c.check([real.size(d) for d in range(-n, n)] == list(real.shape) * 2 and tuple(real.size()) == tuple(real.shape), f"{what}: size()")
    c.check(real.dtype == ref.dtype, f"{what}: reported dtype {real.dtype}, expected {ref.dtype}")
    c.check(pos.dtype == ref.dtype, f"{what}: dtype {pos.dtype}, expected {ref.dtype}")
    c.check(close(pos, ref, tol), f"{what}: values {pos.tolist()}, expected {ref.tolist()}", order=order)
    c.count("entries", ref.numel())


def random_tensor(rng, shape, kind="float"):
    n = 1
    for s in shape:
        n *= s
    if kind == "float":
        v = torch.tensor([round(rng.uniform(-2, 2), 3) for _ in range(n)], dtype=torch.float64)
    elif kind == "pos":
        v = torch.tensor([round(rng.uniform(0.1, 2), 3) for _ in range(n)], dtype=torch.float64)
    elif kind == "int":
        v = torch.tensor([rng.randint(-5, 5) for _ in range(n)], dtype=torch.int64)
    elif kind == "bool":
        v = torch.tensor([rng.random() < 0.5 for _ in range(n)], dtype=torch.bool)
    else:
        v = torch.tensor([rng.randrange(kind) for _ in range(n)], dtype=torch.int64)
    return v.reshape(shape)
