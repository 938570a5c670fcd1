"""Reference interpreter for effect handlers, and random handler programs.

A program is a small AST.  It is executed twice by the same AST walker, once on
a backend that uses the library and once on a reference backend with an
explicit handler chain; both produce a trace of events which must be equal.
"""
from __future__ import annotations

import contextlib


class Boom(Exception):
    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


class BaseBoom(BaseException):
    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


BOOMS = [Boom, BaseBoom, KeyboardInterrupt, StopIteration, GeneratorExit]


# ----------------------------------------------------------------- programs
# op spec: dict(id, shape)   shape in {"var", "one", "zero", "kw"}
# handler: dict(id, op, body, shape)
# interpretation: {opid: handler} or ("co", i1, i2)
# statements:
#   ("call", opid, args, kwargs)     ("fwd",)       ("fwdargs", args, kwargs)
#   ("with", kind, intp, body)       kind: handler, interpreter, deco, stack, obj
#   ("try", body)  ("raise", k)  ("return",)  ("argcall", opid)


def gen_args(rng, shape, fresh):
    if shape == "zero":
        return (), {}
    if shape == "one":
        return (next(fresh),), {}
    if shape == "kw":
        return (next(fresh),), ({"k": next(fresh)} if rng.random() < 0.6 else {})
    n = rng.choice([0, 1, 1, 2, 3])
    kw = {"k": next(fresh)} if rng.random() < 0.3 else {}
    return tuple(next(fresh) for _ in range(n)), kw


class Gen:
    def __init__(self, rng, n_ops, allow_raise=True, allow_apply=False, exclusive=True):
        self.rng = rng
        self.shapes = [rng.choice(["var", "one", "zero", "kw", "var"]) for _ in range(n_ops)]
        self.n_ops = n_ops
        self.hid = 0
        self.allow_raise = allow_raise
        self.allow_apply = allow_apply
        self.exclusive = exclusive
        self.fresh = iter(range(1, 10**9))
        # what a default rule does: "value" or ("calls", j) with j > own index
        self.defaults = [
            ("calls", rng.randrange(i + 1, n_ops))
            if i + 1 < n_ops and rng.random() < 0.3
            else "value"
            for i in range(n_ops)
        ]

    def handler(self, op, depth):
        self.hid += 1
        return dict(id=self.hid, op=op, body=self.body(depth, op, in_excl=False))

    def intp(self, depth, keys=None):
        rng = self.rng
        if rng.random() < 0.25 and depth > 0:
            return ("co", self.intp(depth - 1), self.intp(depth - 1))
        n = rng.choice([0, 1, 1, 2, 2, 3])
        keys = rng.sample(range(self.n_ops), min(n, self.n_ops))
        d = {k: self.handler(k, depth - 1) for k in keys}
        if self.allow_apply and rng.random() < 0.3:
            d["apply"] = self.handler("apply", depth - 1)
        return d

    def body(self, depth, in_op=None, in_excl=False):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if in_op is not None else rng.choice([1, 2, 3, 4])):
            out.append(self.stmt(depth, in_op, in_excl))
        return out

    def stmt(self, depth, in_op, in_excl):
        rng = self.rng
        r = rng.random()
        if in_op is not None and not in_excl and r < 0.35:
            if in_op == "apply" or rng.random() < 0.6:
                return ("fwd",)
            a, k = gen_args(rng, self.shapes[in_op], self.fresh)
            if not a and not k:
                return ("fwd",)
            return ("fwdargs", a, k)
        if r < 0.65 or depth <= 0:
            j = rng.randrange(self.n_ops)
            return ("call", j, *gen_args(rng, self.shapes[j], self.fresh))
        if r < 0.85:
            kind = rng.choice(["handler", "handler", "deco", "stack", "obj"] + (["interpreter", "idec"] if self.exclusive else []))
            intp = self.intp(depth - 1)
            return ("with", kind, intp, self.body(depth - 1, in_op, in_excl or kind in ("interpreter", "idec")))
        if r < 0.92:
            return ("try", self.body(depth - 1, in_op, in_excl))
        if self.allow_raise and r < 0.97:
            return ("raise", rng.randrange(len(BOOMS)))
        return ("return",)


class Ret(Exception):
    pass


class Walker:
    def __init__(self, backend, gen, fuel):
        self.b = backend
        self.g = gen
        self.fuel = fuel
        self.trace = []

    def ev(self, *e):
        self.trace.append(e)

    def call(self, j, a, k):
        if self.fuel <= 0:
            return "nofuel"
        self.fuel -= 1
        self.ev("call", j, a, tuple(k.items()))
        try:
            r = self.b.call(j, a, k)
        except BaseException as e:
            self.ev("call-raised", j, type(e).__name__, getattr(e, "tag", None))
            raise
        self.ev("ret", j, r)
        return r

    def default(self, j, a, k):
        self.ev("default", j, a, tuple(k.items()))
        d = self.g.defaults[j]
        if d == "value":
            return ("D", j, a, tuple(k.items()))
        i = d[1]
        args = {"zero": (), "one": (("d", j),), "kw": (("d", j),), "var": (("d", j),)}[self.g.shapes[i]]
        return ("DC", j, self.call(i, args, {}))

    def run_handler(self, h, a, k):
        self.ev("enter", h["id"], tuple(self.b.show(x) for x in a), tuple(k.items()))
        try:
            acc = self.body(h["body"])
            return ("H", h["id"], acc)
        finally:
            self.ev("leave", h["id"])

    def body(self, stmts):
        """Runs statements; returns the tuple of the results seen."""
        acc = []
        try:
            self._body(stmts, acc)
        except Ret:
            pass
        return tuple(acc)

    def _body(self, stmts, acc):
        for s in stmts:
            kind = s[0]
            if kind == "call":
                acc.append(self.call(s[1], s[2], s[3]))
            elif kind in ("fwd", "fwdargs"):
                if self.fuel <= 0:
                    continue
                self.fuel -= 1
                self.ev(*s[:1])
                acc.append(self.b.fwd(None) if kind == "fwd" else self.b.fwd((s[1], s[2])))
                self.ev("fwd-ret", acc[-1])
            elif kind == "with":
                self.ev("install", s[1])
                try:
                    self.b.within(self, s[1], s[2], lambda: self._body(s[3], acc))
                finally:
                    self.ev("uninstall")
            elif kind == "try":
                try:
                    self._body(s[1], acc)
                except tuple(BOOMS) as e:
                    self.ev("caught", type(e).__name__, str(e))
                    acc.append("caught")
            elif kind == "raise":
                self.ev("raise", s[1])
                raise BOOMS[s[1]](f"t{len(self.trace)}")
            elif kind == "return":
                raise Ret()


# ---------------------------------------------------------------- reference
class RefBackend:
    """Chains of handlers, one explicit frame per running handler."""

    def __init__(self, n_ops):
        self.chains = {}  # opid -> tuple of handlers, outermost first
        self.frame = None
        self.w = None

    def show(self, x):
        return x

    def flatten(self, intp):
        if isinstance(intp, tuple):
            left, right = self.flatten(intp[1]), self.flatten(intp[2])
            out = dict(left)
            for k, ch in right.items():
                out[k] = out.get(k, ()) + ch
            return out
        return {k: (h,) for k, h in intp.items()}

    def within(self, w, kind, intp, thunk):
        saved, saved_frame = self.chains, self.frame
        new = self.flatten(intp)
        if kind in ("interpreter", "idec"):
            self.chains = new
            self.frame = None
        else:
            self.chains = dict(saved)
            for k, ch in new.items():
                self.chains[k] = self.chains.get(k, ()) + ch
        try:
            thunk()
        finally:
            self.chains, self.frame = saved, saved_frame

    def call(self, j, a, k):
        if j in self.chains:
            return self.at(j, self.chains[j], len(self.chains[j]) - 1, a, k)
        if "apply" in self.chains:
            ch = self.chains["apply"]
            return self.at("apply", ch, len(ch) - 1, (("op", j),) + tuple(a), k)
        return self.default(j, a, k)

    def default(self, j, a, k):
        saved = self.frame
        self.frame = None
        try:
            if j == "apply":
                return self.w.default(a[0][1], tuple(a[1:]), k)
            return self.w.default(j, a, k)
        finally:
            self.frame = saved

    def at(self, j, chain, pos, a, k):
        if pos < 0:
            return self.default(j, a, k)
        saved = self.frame
        self.frame = (j, chain, pos, a, k)
        try:
            return self.w.run_handler(chain[pos], a, k)
        finally:
            self.frame = saved

    def fwd(self, args):
        j, chain, pos, a, k = self.frame
        if args is not None:
            a, k = args
        return self.at(j, chain, pos - 1, a, k)


# --------------------------------------------------------------------- real
class RealBackend:
    def __init__(self, gen, lib):
        self.lib = lib
        self.w = None
        self.ops = []
        self.snapshots = []
        for j, shape in enumerate(gen.shapes):
            self.ops.append(self.make_op(j, shape))
        self.ids = {op: j for j, op in enumerate(self.ops)}

    def show(self, x):
        if isinstance(x, self.lib.Operation):
            return ("op", self.ids[x])
        return x

    def make_op(self, j, shape):
        O = self.lib.Operation
        if shape == "zero":
            def f() -> object:
                return self.w.default(j, (), {})
        elif shape == "one":
            def f(x) -> object:
                return self.w.default(j, (x,), {})
        elif shape == "kw":
            def f(x, **kw) -> object:
                return self.w.default(j, (x,), kw)
        else:
            def f(*a, **kw) -> object:
                return self.w.default(j, a, kw)
        f.__name__ = f"op{j}"
        return O.define(f)

    def fn(self, h):
        op = h["op"]
        shape = "var" if op == "apply" else self.w.g.shapes[op]
        run = self.w.run_handler
        # the python parameter style of the handler varies with its id
        style = h["id"] % 3
        if shape == "zero" and style:
            return lambda: run(h, (), {})
        if shape == "one" and style == 1:
            return lambda x: run(h, (x,), {})
        if shape == "kw" and style == 1:
            return lambda x, **kw: run(h, (x,), kw)
        return lambda *a, **kw: run(h, a, kw)

    def build(self, intp):
        if isinstance(intp, tuple):
            return self.lib.coproduct(self.build(intp[1]), self.build(intp[2]))
        return {
            (self.lib.apply if k == "apply" else self.ops[k]): self.fn(h)
            for k, h in intp.items()
        }

    def within(self, w, kind, intp, thunk):
        lib = self.lib
        m = self.build(intp)
        if kind == "obj":
            m = obj_of(lib, m)
        before = list(m.items()) if kind != "obj" else None
        if kind in ("handler", "obj"):
            with lib.handler(m):
                thunk()
        elif kind == "deco":
            @lib.handler(m)
            def f():
                thunk()

            f()
        elif kind == "stack":
            with contextlib.ExitStack() as st:
                st.enter_context(lib.handler(m))
                # later mutation of the caller's mapping must not matter
                saved = dict(m)
                m.clear()
                for op in self.ops:
                    m[op] = lambda *a, **k: "MUTATED"
                thunk()
                m.clear()
                m.update(saved)
        elif kind == "interpreter":
            with lib.interpreter(m):
                thunk()
        elif kind == "idec":
            lib.interpreter(m)(thunk)()
        if before is not None and list(m.items()) != before:
            raise AssertionError("installing an interpretation changed the mapping")

    def call(self, j, a, k):
        return self.ops[j](*a, **k)

    def fwd(self, args):
        if args is None:
            return self.lib.fwd()
        return self.lib.fwd(*args[0], **args[1])


def obj_of(lib, m):
    """The same interpretation as an ObjectInterpretation instance."""
    ns = {}
    for i, (op, fn) in enumerate(m.items()):
        def meth(self, *a, _fn=fn, **k):
            return _fn(*a, **k)

        ns[f"m{i}"] = lib.implements(op)(meth)
    return type("Obj", (lib.ObjectInterpretation,), ns)()


class Lib:
    def __init__(self):
        from effectful.internals.runtime import interpreter
        from effectful.ops.semantics import apply, coproduct, fwd, handler
        from effectful.ops.syntax import ObjectInterpretation, implements
        from effectful.ops.types import Operation

        self.__dict__.update(
            interpreter=interpreter, apply=apply, coproduct=coproduct, fwd=fwd,
            handler=handler, ObjectInterpretation=ObjectInterpretation,
            implements=implements, Operation=Operation,
        )


def execute(backend, gen, prog, fuel):
    w = Walker(backend, gen, fuel)
    backend.w = w
    try:
        w.ev("result", w.body(prog))
    except tuple(BOOMS) as e:
        w.ev("escaped", type(e).__name__, str(e))
    # probe after everything was unwound: no handler may be left behind
    w.fuel = 10**6
    for j in range(gen.n_ops):
        args = {"zero": (), "one": ("p",), "kw": ("p",), "var": ("p", "q")}[gen.shapes[j]]
        w.ev("probe", w.call(j, args, {}))
    return w.trace
