"""Families of JAX arrays: the reference meaning of an array with named dimensions."""
import itertools
import os

os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + " --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
os.environ.setdefault("JAX_PLATFORMS", "cpu")

import jax
import numpy as np

jax.config.update("jax_enable_x64", True)

from effectful.handlers.jax import bind_dims, jax_getitem, sizesof, unbind_dims  # noqa: E402
from effectful.ops.types import Operation, Term  # noqa: E402

from harness.named import Fam, assignments, lift  # noqa: E402,F401


def new_names(rng, k):
    base = rng.choice(["i", "j"])
    return [Operation.define(jax.Array, name=rng.choice([base, base, "k"])) for _ in range(k)]


def random_array(rng, shape, kind="float"):
    n = int(np.prod(shape)) if shape else 1
    if kind == "float":
        v = np.array([round(rng.uniform(-2, 2), 3) for _ in range(n)])
    elif kind == "pos":
        v = np.array([round(rng.uniform(0.1, 2), 3) for _ in range(n)])
    elif kind == "unit":
        v = np.array([round(rng.uniform(0.05, 0.95), 3) for _ in range(n)])
    elif kind == "int":
        v = np.array([rng.randint(-5, 5) for _ in range(n)])
    elif kind == "bool":
        v = np.array([rng.random() < 0.5 for _ in range(n)])
    else:
        v = np.array([rng.randrange(kind) for _ in range(n)])
    return jax.numpy.asarray(v.reshape(tuple(shape)))


def from_array(t, names):
    sizes = dict(zip(names, t.shape))
    return Fam(sizes, {tuple(e.values()): t[tuple(e.values())] for e in assignments(sizes)})


def dense(fam, order):
    order = list(order)
    vals = [fam.at(e) for e in assignments({n: fam.sizes[n] for n in order})]
    v = np.stack([np.asarray(x) for x in vals])
    return v.reshape([fam.sizes[n] for n in order] + list(v.shape[1:]))


def named(rng, names, sizes, shape, kind="float", k=None):
    ns = rng.sample(names, rng.randint(0, len(names)) if k is None else k)
    return with_names(rng, ns, sizes, shape, kind)


def with_names(rng, ns, sizes, shape, kind="float"):
    t = random_array(rng, [sizes[n] for n in ns] + list(shape), kind)
    fam = from_array(t, ns)
    if not ns:
        return t, fam
    s = rng.random()
    if s < 0.3:
        return unbind_dims(t, *ns), fam
    if shape and s < 0.5:
        return jax_getitem(jax.numpy.moveaxis(t, len(ns), 0), (slice(None), *(n() for n in ns))), fam
    return jax_getitem(t, tuple(n() for n in ns)), fam


def close(a, b, tol):
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc":
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return bool((a == b).all())


def compare(c, real, fam, what, tol=1e-9):
    is_arr = isinstance(real, jax.Array) or (isinstance(real, Term) and not isinstance(real, Operation))
    c.check(is_arr, f"{what}: not an array: {type(real)}")
    got = dict(sizesof(real))
    want = dict(fam.sizes)
    c.check(got == want, f"{what}: dimensions {got}, expected {want}")
    order = list(want)
    c.rng.shuffle(order)
    pos = bind_dims(real, *order) if order else real
    c.check(isinstance(pos, jax.Array), f"{what}: binding all dimensions leaves {type(pos)}")
    ref = dense(fam, order)
    n = len(ref.shape) - len(order)
    shape = tuple(ref.shape[len(order):])
    c.check(tuple(pos.shape) == tuple(ref.shape), f"{what}: shape {tuple(pos.shape)}, expected {tuple(ref.shape)}")
    c.check(tuple(real.shape) == shape, f"{what}: reported shape {real.shape}, expected {shape}")
    c.check(real.ndim == n and real.size == int(np.prod(shape)), f"{what}: ndim {real.ndim}, size {real.size}")
    if n:
        c.check(len(real) == shape[0], f"{what}: len {len(real)}")
    c.check(pos.dtype == ref.dtype, f"{what}: dtype {pos.dtype}, expected {ref.dtype}")
    c.check(close(np.asarray(pos), ref, tol), f"{what}: values {np.asarray(pos).tolist()}, expected {ref.tolist()}", order=order)
    c.count("entries", ref.size)
