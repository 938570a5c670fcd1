"""C07: the inferred type of an expression is sound."""
import collections.abc as abc
import dataclasses
import inspect
import numbers
import typing

from harness.core import Section

from effectful.ops.semantics import evaluate, fvsof, handler, typeof
from effectful.ops.syntax import deffn, defop, defstream, iter_, next_, trace
from effectful.ops.types import NotHandled, Operation, Term

RULE = (
    "Random well-typed programs over generic operations (type variables in lists, dictionaries, sets, fixed and "
    "variadic tuples, functions, generic dataclasses, variadic, keyword-only and default parameters) are built as "
    "deferred expressions; the operations are then implemented by handlers that return values of the declared type and "
    "the expression is evaluated. The value must be an instance of the computed type, the computed type must be the "
    "one the program's own typing derivation gives when no information was lost on the way, and the class of every "
    "subexpression must offer the interface of its type. The same is required of what remains after evaluating some of "
    "the operations. Non-trivial: at least three generic operations; distinct by program."
)
ASSUMPTIONS = [
    "Return types are types the library can dispatch on: no unions (rejected), aliases, NewType or special forms.",
    "Arguments for one type variable have the same type (mixtures of int and bool under one variable are rejected, "
    "depending on their order, by the library).",
    "A container of several types and the value of a generic class count as untyped, and untyped parts are compatible "
    "with every type, as with typing.Any.",
]
NEED = {"sound": 1000, "exact": 300, "interfaces": 1500, "partial": 300}


class Cl:
    def __eq__(self, o):
        return isinstance(o, Cl)

    __hash__ = object.__hash__


class Cl2(Cl):
    pass


@dataclasses.dataclass
class D:
    a: int
    b: str = "q"


@dataclasses.dataclass
class G[X]:
    x: X


A, B, C3 = ("v", "A"), ("v", "B"), ("v", "C")
INT, STR, FLT, BOOL, CL, DD = ("int",), ("str",), ("float",), ("bool",), ("cl",), ("D",)
L = lambda t: ("list", t)
M = lambda t: ("dict", t)
S = lambda t: ("set", t)
Tu = lambda *t: ("tuple", *t)
Fn = lambda *t: ("fn", *t)  # parameters..., result
VT = lambda t: ("vtuple", t)
It = lambda t: ("iter", t)
Sq = lambda t: ("seq", t)
Mp = lambda t: ("map", t)
Gt = lambda t: ("G", t)

BASE = {"int": int, "str": str, "float": float, "bool": bool, "cl": Cl, "D": D}


def anno(t, tv, rng):
    k = t[0]
    if k in BASE:
        return BASE[k]
    if k == "v":
        return tv[t[1]]
    a = [anno(x, tv, rng) for x in t[1:]]
    alt = rng.random() < 0.4
    if k == "list":
        return typing.List[a[0]] if alt else list[a[0]]
    if k == "dict":
        return typing.Dict[str, a[0]] if alt else dict[str, a[0]]
    if k == "set":
        return typing.Set[a[0]] if alt else set[a[0]]
    if k == "tuple":
        return typing.Tuple[tuple(a)] if alt else tuple[tuple(a)]
    if k == "vtuple":
        return typing.Tuple[a[0], ...] if alt else tuple[a[0], ...]
    if k == "fn":
        return typing.Callable[a[:-1], a[-1]] if alt else abc.Callable[a[:-1], a[-1]]
    if k == "iter":
        return typing.Iterable[a[0]] if alt else abc.Iterable[a[0]]
    if k == "seq":
        return abc.Sequence[a[0]]
    if k == "map":
        return abc.Mapping[str, a[0]]
    if k == "G":
        return G[a[0]]
    raise AssertionError(k)


def subst(t, s):
    if t[0] == "v":
        return s[t[1]]
    return (t[0],) + tuple(subst(x, s) for x in t[1:])


def match(p, t, s):
    if p[0] == "v":
        if p[1] in s:
            return s if s[p[1]] == t else None
        return {**s, p[1]: t}
    if p[0] != t[0] or len(p) != len(t):
        return None
    for a, b in zip(p[1:], t[1:]):
        s = match(a, b, s)
        if s is None:
            return None
    return s


def tvars(t):
    return {t[1]} if t[0] == "v" else set().union(*[tvars(x) for x in t[1:]], set())


# (name, signature text, parameter kinds, result, implementation)
# parameters: (name, type, kind) with kind p positional, * variadic, ** variadic keyword, k keyword-only, d with default
SCHEMAS = [
    ("ident", [("x", A, "p")], A, lambda x: x),
    ("first", [("xs", L(A), "p")], A, lambda xs: xs[0]),
    ("firsts", [("xs", Sq(A), "p")], A, lambda xs: xs[0]),
    ("firsti", [("xs", It(A), "p")], A, lambda xs: next(iter(xs))),
    ("firstv", [("xs", VT(A), "p")], A, lambda xs: xs[0]),
    ("single", [("x", A, "p")], L(A), lambda x: [x]),
    ("twice", [("x", A, "p"), ("n", INT, "d", 2)], L(A), lambda x, n: [x] * max(1, abs(n) % 4)),
    ("concat", [("xs", L(A), "p"), ("ys", L(A), "p")], L(A), lambda xs, ys: list(xs) + list(ys)),
    ("pair", [("a", A, "p"), ("b", B, "p")], Tu(A, B), lambda a, b: (a, b)),
    ("swap", [("p", Tu(A, B), "p")], Tu(B, A), lambda p: (p[1], p[0])),
    ("fst", [("p", Tu(A, B), "p")], A, lambda p: p[0]),
    ("snd", [("p", Tu(A, B), "p")], B, lambda p: p[1]),
    ("mid", [("p", Tu(A, Tu(B, C3)), "p")], B, lambda p: p[1][0]),
    ("lookup", [("d", M(A), "p"), ("k", STR, "d", "k0")], A, lambda d, k: d.get(k, next(iter(d.values())))),
    ("lookupm", [("d", Mp(A), "p")], A, lambda d: next(iter(d.values()))),
    ("mk", [("k", STR, "p"), ("v", A, "p")], M(A), lambda k, v: {k: v}),
    ("vals", [("d", M(A), "p")], L(A), lambda d: list(d.values())),
    ("nested", [("d", M(L(A)), "p")], A, lambda d: next(iter(d.values()))[0]),
    ("nested2", [("d", L(Tu(A, L(B))), "p")], B, lambda d: d[0][1][0]),
    ("choose", [("c", BOOL, "p"), ("a", A, "p"), ("b", A, "p")], A, lambda c, a, b: a if c else b),
    ("pick", [("xs", A, "*")], A, lambda *xs: xs[-1]),
    ("pickn", [("n", INT, "p"), ("xs", A, "*")], Tu(INT, A), lambda n, *xs: (n, xs[0])),
    ("kwpick", [("kw", A, "**")], A, lambda **kw: list(kw.values())[0]),
    ("kwonly", [("x", A, "k"), ("n", INT, "kd", 0)], L(A), lambda *, x, n: [x]),
    ("kwmix", [("a", A, "p"), ("b", L(B), "k")], Tu(A, B), lambda a, *, b: (a, b[0])),
    ("deflt", [("a", A, "p"), ("b", INT, "d", 5), ("c", STR, "d", "z")], Tu(A, INT), lambda a, b, c: (a, b)),
    ("size", [("xs", L(A), "p")], INT, lambda xs: len(xs)),
    ("name", [("x", A, "p")], STR, lambda x: type(x).__name__),
    ("scale", [("x", FLT, "p")], FLT, lambda x: x * 2.0),
    ("isin", [("x", A, "p"), ("xs", L(A), "p")], BOOL, lambda x, xs: True),
    ("mkset", [("x", INT, "p")], S(INT), lambda x: {x}),
    ("ofset", [("x", S(A), "p")], A, lambda x: next(iter(x))),
    ("mkD", [("x", INT, "p")], DD, lambda x: D(x)),
    ("mkG", [("x", A, "p")], Gt(A), lambda x: G(x)),
    ("unG", [("g", Gt(A), "p")], A, lambda g: g.x),
    ("call", [("f", Fn(A, B), "p"), ("x", A, "p")], B, lambda f, x: f(x)),
    ("thunk", [("f", Fn(A), "p")], A, lambda f: f()),
    ("maplist", [("f", Fn(A, B), "p"), ("xs", L(A), "p")], L(B), lambda f, xs: [f(x) for x in xs]),
    ("const", [("x", B, "p")], Fn(INT, B), None),
    ("comp", [("f", Fn(B, C3), "p"), ("g", Fn(A, B), "p")], Fn(A, C3), lambda f, g: (lambda x: f(g(x)))),
    ("fnpair", [("p", Tu(Fn(A, B), A), "p")], B, lambda p: p[0](p[1])),
    ("mkcl", [("s", STR, "p")], CL, lambda s: Cl2() if s else Cl()),
]
IMPL = {}
for _s in SCHEMAS:
    IMPL[_s[0]] = _s[3]
IMPL["const"] = lambda x: (lambda n: x)


SHARED = {v: typing.TypeVar(v) for v in "ABC"}


def make_generic(schema, rng):
    """A fresh operation with the schema's signature, in a random spelling."""
    name, params, ret, _ = schema
    tv = SHARED if rng.random() < 0.6 else {v: typing.TypeVar(v) for v in "ABC"}
    ps = []
    ann = {}
    for p in params:
        nm, t, kind = p[:3]
        a = anno(t, tv, rng)
        if rng.random() < 0.1:
            a = typing.Annotated[a, "note"]
        K = inspect.Parameter
        k = {"p": K.POSITIONAL_OR_KEYWORD, "d": K.POSITIONAL_OR_KEYWORD, "*": K.VAR_POSITIONAL, "**": K.VAR_KEYWORD,
             "k": K.KEYWORD_ONLY, "kd": K.KEYWORD_ONLY}[kind]
        ps.append((nm, k, p[3] if kind in ("d", "kd") else K.empty))
        ann[nm] = a
    ann["return"] = anno(ret, tv, rng)
    src, star = [], False
    for nm, k, d in ps:
        K = inspect.Parameter
        if k == K.KEYWORD_ONLY and not star:
            src.append("*")
            star = True
        src.append({K.VAR_POSITIONAL: "*", K.VAR_KEYWORD: "**"}.get(k, "") + nm + ("" if d is K.empty else f"={d!r}"))
    ns = {"NotHandled": NotHandled}
    exec(f"def {name}({', '.join(src)}):\n    raise NotHandled", ns)
    fn = ns[name]
    fn.__annotations__ = ann
    return defop(fn)


def gen_type(rng, d=2, fn=True):
    r = rng.random()
    if d == 0 or r < 0.5:
        return rng.choice([INT, STR, FLT, BOOL, CL, DD, INT, STR])
    k = rng.choice(["list", "list", "dict", "tuple", "tuple", "set", "G"] + (["fn"] if fn else []))
    if k == "list":
        return L(gen_type(rng, d - 1, False))
    if k == "dict":
        return M(gen_type(rng, d - 1, False))
    if k == "set":
        return S(rng.choice([INT, STR]))
    if k == "G":
        return Gt(gen_type(rng, d - 1, False))
    if k == "fn":
        return Fn(rng.choice([INT, STR]), gen_type(rng, d - 1, False))
    return Tu(*[gen_type(rng, d - 1, False) for _ in range(rng.choice([1, 2, 2, 3]))])


class Skip(Exception):
    pass


def skippable(fn):
    def run(c):
        try:
            fn(c)
        except Skip:
            c.count("rejected")
        except TypeError:
            if not getattr(c, "lossy", False):
                raise
            c.count("rejected")

    return run


class Gen:
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.ops = {}
        self.vars = {}
        self.handlers = {}
        self.generic = 0
        self.lossy = False
        self.fuel = c.rng.choice([3, 6, 10, 16])
        self.log = []

    def op(self, schema):
        i = (schema[0], self.rng.randrange(2))
        if i not in self.ops:
            o = self.ops[i] = make_generic(schema, self.rng)
            self.handlers[o] = self.impl(schema)
        return self.ops[i]

    def impl(self, schema):
        f = IMPL[schema[0]]
        names = [p[0] for p in schema[1] if p[2] in ("p", "d")]

        def h(*a, **k):
            defaults = {p[0]: p[3] for p in schema[1] if p[2] in ("d", "kd")}
            if names and any(n in k for n in names):  # positional parameters given by keyword
                a = a + tuple(k.pop(n) if n in k else defaults.pop(n) for n in names[len(a):])
            for n, v in defaults.items():
                if n in names and names.index(n) >= len(a):
                    a = a + (v,)
                elif n not in names:
                    k.setdefault(n, v)
            return f(*a, **k)

        return h

    def var(self, t):
        key = (t, self.rng.randrange(2))
        if key not in self.vars:
            o = self.vars[key] = defop(anno(t, {}, self.rng), name=f"var{len(self.vars)}")
            v = self.value(t)
            self.handlers[o] = lambda: v
        return self.vars[key]

    def value(self, t):
        """A plain value of the type."""
        rng = self.rng
        k = t[0]
        if k == "int":
            return rng.choice([0, 1, -3, 7, 10**20])
        if k == "str":
            return rng.choice(["", "a", "k0"])
        if k == "float":
            return rng.choice([0.5, -1.0, 2.25])
        if k == "bool":
            return rng.choice([True, False])
        if k == "cl":
            return rng.choice([Cl, Cl2])()
        if k == "D":
            return D(rng.choice([1, 2]), "s")
        if k == "G":
            return G(self.value(t[1]))
        if k in ("list", "seq", "iter"):
            return [self.value(t[1]) for _ in range(rng.choice([1, 2, 3]))]
        if k == "vtuple":
            return tuple(self.value(t[1]) for _ in range(rng.choice([1, 2, 3])))
        if k == "set":
            return {self.value(t[1]) for _ in range(2)}
        if k in ("dict", "map"):
            return {f"k{i}": self.value(t[1]) for i in range(rng.choice([1, 2]))}
        if k == "tuple":
            return tuple(self.value(x) for x in t[1:])
        if k == "fn":
            v = self.value(t[-1])
            ps = [f"p{i}" for i in range(len(t) - 2)]
            ns = {"v": v}
            exec(f"def fun({', '.join(ps)}): return v", ns)
            fun = ns["fun"]
            fun.__annotations__ = {**{p: anno(x, {}, rng) for p, x in zip(ps, t[1:-1])}, "return": anno(t[-1], {}, rng)}
            return fun
        raise AssertionError(k)

    def expr(self, t, d=4):
        """A term or value (possibly containing terms) of the type."""
        rng = self.rng
        self.fuel -= 1
        # a more special type where a more general one is wanted
        if t[0] in ("seq", "iter"):
            t = L(t[1]) if rng.random() < 0.6 else VT(t[1])
        elif t[0] == "map":
            t = M(t[1])
        if t[0] == "vtuple":
            return self.build(t, d)
        r = rng.random()
        if d > 0 and self.fuel > 0 and r < 0.7:
            fits = [s for s in SCHEMAS if match(s[2], t, {}) is not None]
            if fits:
                return self.call(rng.choice(fits), t, d)
        if r < 0.8 and t[0] in BASE:
            return self.var(t)()
        return self.build(t, d)

    def build(self, t, d):
        """A value or container with terms in it, or a variable."""
        rng = self.rng
        k = t[0]
        if k != "fn" and "'fn'" in repr(t):
            self.lossy = self.c.lossy = True  # functions and expressions of function type do not mix
        if rng.random() < 0.3:
            return self.var(t)()
        sub = lambda x: self.expr(x, d - 1)
        if k == "list":
            return [sub(t[1]) for _ in range(rng.choice([1, 1, 2, 3]))]
        if k == "vtuple":
            return tuple(sub(t[1]) for _ in range(rng.choice([1, 2, 3])))
        if k == "dict":
            return {f"k{i}": sub(t[1]) for i in range(rng.choice([1, 2]))}
        if k == "tuple":
            return tuple(sub(x) for x in t[1:])
        if k == "G":
            self.lossy = self.c.lossy = True  # the value of a generic class does not know its argument
            return G(sub(t[1]))
        if k == "fn":
            style = rng.choice(["value", "deffn", "trace"])
            if style == "deffn":
                vs = [defop(anno(x, {}, rng), name="b") for x in t[1:-1]]
                body = sub(t[-1])
                if t[-1] in t[1:-1] and rng.random() < 0.5:
                    body = vs[t[1:-1].index(t[-1])]()
                return deffn(body, *vs)
            if style == "trace":
                body = sub(t[-1])
                ps = [f"p{i}" for i in range(len(t) - 2)]
                ns = {"body": body}
                exec(f"def fun({', '.join(ps)}): return body", ns)
                fun = ns["fun"]
                fun.__annotations__ = {p: anno(x, {}, rng) for p, x in zip(ps, t[1:-1])}
                return trace(fun)
        return self.value(t)

    def call(self, schema, t, d):
        rng = self.rng
        s = match(schema[2], t, {})
        for v in sorted(set().union(*[tvars(p[1]) for p in schema[1]], set()) - set(s)):
            s[v] = gen_type(rng, 1, fn=False)
            if schema[0] == "ofset":
                s[v] = INT
        if schema[0] == "ofset" and s["A"] not in (INT, STR):
            return self.var(t)()
        if tvars(schema[2]):
            self.generic += 1
        args, kwargs = [], {}
        by_kw = False
        for p in schema[1]:
            nm, pt, kind = p[:3]
            pt = subst(pt, s)
            if kind == "*":
                if by_kw:
                    return self.var(t)()
                args += [self.expr(pt, d - 1) for _ in range(rng.choice([1, 2, 3]))]
            elif kind == "**":
                kwargs.update({f"z{i}": self.expr(pt, d - 1) for i in range(rng.choice([1, 2]))})
            elif kind in ("d", "kd"):
                if rng.random() < 0.5:
                    if kind == "kd" or by_kw or rng.random() < 0.5:
                        kwargs[nm] = self.expr(pt, d - 1)
                        by_kw = True
                    else:
                        args.append(self.expr(pt, d - 1))
                else:
                    by_kw = True
            elif kind == "k":
                kwargs[nm] = self.expr(pt, d - 1)
            elif by_kw or (rng.random() < 0.15 and not any(q[2] == "*" for q in schema[1])):
                by_kw = True
                kwargs[nm] = self.expr(pt, d - 1)
            else:
                args.append(self.expr(pt, d - 1))
        try:
            term = self.op(schema)(*args, **kwargs)
        except Exception as e:
            if self.lossy and isinstance(e, TypeError):  # values and expressions of a generic class do not mix
                raise Skip
            self.c.info(f"{schema[0]} {list(map(str, args))} {({k: str(v) for k, v in kwargs.items()})}")
            raise
        self.log.append((schema[0], t))
        self.c.check(isinstance(term, Term), "an operation without a rule did not give an expression", op=schema[0], got=term)
        interface(self.c, term, t)
        return term


CANON = {
    "int": {int}, "str": {str}, "float": {float}, "bool": {bool}, "cl": {Cl, Cl2}, "D": {D},
    "list": {list, abc.MutableSequence}, "dict": {dict, abc.MutableMapping}, "set": {set, abc.MutableSet},
    "tuple": {tuple}, "fn": {abc.Callable}, "G": {G},
}


def interface(c, term, t):
    c.count("interfaces")
    if typeof(term) in (object, typing.Any):
        return  # nothing is promised
    k = t[0]
    if k in ("int", "bool"):
        c.check(isinstance(term, numbers.Integral), "not a number", term=type(term))
        c.check(isinstance(term + 1 if k == "int" else term & True, Term), "arithmetic on the expression")
        c.check(typeof(term.numerator) is int and typeof(term.denominator) is int, "parts of the number")
    elif k == "float":
        c.check(isinstance(term, numbers.Real) and not isinstance(term, numbers.Integral), "not a real number", term=type(term))
        c.check(typeof(term * 2.0) is float, "arithmetic on the expression")
        c.check(typeof(term.real) is float and typeof(term.imag) is float, "parts of the number")
    elif k == "fn":
        c.check(callable(term), "not callable", term=type(term))
    elif k in ("list", "dict", "set", "tuple", "str"):
        c.check(isinstance(term, abc.Iterable), "not iterable", term=type(term))
        if k == "tuple" and len(set(t[1:])) > 1:
            return  # the elements of a mixed tuple have no common type
        it = iter(term)
        c.check(isinstance(it, Term) and isinstance(next(it), Term), "iterating the expression")
        if k == "list" and typing.get_origin(t) is None:
            c.check(issubclass(typeof(it), abc.Iterator), "type of the iterator")
    elif k == "D":
        c.check(isinstance(term, D), "not of the dataclass", term=type(term))
        c.check(typeof(term.a) is int and typeof(term.b) is str, "type of a field")
    elif k == "G":
        c.check(isinstance(term, G) and isinstance(term.x, Term), "not of the generic dataclass")
    elif k == "cl":
        pass


def conforms(v, t):
    """The oracle's own typing of values."""
    k = t[0]
    if k in ("int", "str", "float", "bool"):
        return type(v) is BASE[k]
    if k in ("cl", "D"):
        return isinstance(v, BASE[k])
    if k == "G":
        return isinstance(v, G) and conforms(v.x, t[1])
    if k == "list":
        return isinstance(v, list) and all(conforms(x, t[1]) for x in v)
    if k == "set":
        return isinstance(v, set) and all(conforms(x, t[1]) for x in v)
    if k == "dict":
        return isinstance(v, dict) and all(type(q) is str and conforms(x, t[1]) for q, x in v.items())
    if k == "tuple":
        return isinstance(v, tuple) and len(v) == len(t) - 1 and all(map(conforms, v, t[1:]))
    if k == "fn":
        return callable(v)
    return True


def instance(v, tp):
    return tp is typing.Any or isinstance(v, dict if typing.is_typeddict(tp) else tp)


def programs(c):
    rng = c.rng
    g = Gen(c)
    t = gen_type(rng, rng.choice([0, 1, 2]))
    fits = [s for s in SCHEMAS if match(s[2], t, {}) is not None]
    term = g.call(rng.choice(fits), t, rng.choice([1, 2, 3, 4])) if fits else g.expr(t)
    if not isinstance(term, Term):
        return
    noise = []
    if rng.random() < 0.3:  # computing a type runs no handler
        with handler({o: (lambda *a, **k: noise.append(1)) for o in g.handlers}):
            tp = typeof(term)
    else:
        tp = typeof(term)
    c.check(not noise, "computing the type ran a handler")
    c.check(isinstance(tp, type) or tp is typing.Any, "the computed type is not a class", tp=tp)
    v = evaluate(term, intp=g.handlers)
    c.check(conforms(v, t), "the value is not of the type the program prescribes", v=v, t=t, program=g.log)
    c.check(instance(v, tp), "the value is not an instance of the computed type", v=v, tp=tp, program=g.log)
    c.count("sound")
    if not g.lossy and not has_fn(g.log) and g.generic:
        c.check(tp in CANON[t[0]], "the computed type is not the one the arguments determine", tp=tp, t=t, program=g.log)
        c.count("exact")
    # what remains after evaluating some of the operations is again well typed
    ops = sorted(fvsof(term) & set(g.handlers), key=lambda o: str(o))
    if len(ops) > 1:
        part = evaluate(term, intp={o: g.handlers[o] for o in ops if rng.random() < 0.5 and not takes_terms(o)})
        if isinstance(part, Term):
            ptp = typeof(part)
            v2 = evaluate(part, intp=g.handlers)
            c.check(instance(v2, ptp), "after partial evaluation the value is not an instance of the computed type", v=v2, tp=ptp)
            c.count("partial")
        else:
            c.check(instance(part, tp), "the value is not an instance of the computed type", v=part, tp=tp)
    if g.generic >= 3:
        c.key(g.log)
        c.sample(f"{term} : {tp} = {v!r}")


def takes_terms(o):
    """Handlers that inspect their arguments are only run on complete values."""
    return bool(o.__signature__.parameters)


def has_fn(log):
    return any("fn" in repr(t) for _, t in log) or any(n in ("call", "thunk", "maplist", "fnpair", "comp", "const", "unG", "mkcl") for n, _ in log)


MIXED = [
    ("choose", [("a", A, "p"), ("b", A, "p")], A),
    ("pick", [("xs", A, "*")], A),
    ("pick1", [("x", A, "p"), ("xs", A, "*")], A),
    ("kwpick", [("kw", A, "**")], A),
    ("kwonly", [("a", A, "p"), ("b", A, "k")], A),
    ("inlist", [("xs", L(A), "p")], A),
    ("inseq", [("xs", Sq(A), "p")], A),
    ("initer", [("xs", It(A), "p")], A),
    ("invt", [("xs", VT(A), "p")], A),
    ("indict", [("xs", M(A), "p")], A),
    ("inmap", [("xs", Mp(A), "p")], A),
    ("listand", [("xs", L(A), "p"), ("y", A, "p")], A),
    ("lists", [("xs", L(A), "p"), ("ys", L(A), "p")], A),
    ("listlist", [("xs", L(L(A)), "p")], A),
    ("pairs", [("p", Tu(A, A), "p")], A),
]


def mixed(c):
    """Arguments that do not agree on a type are rejected, or the computed type covers them all."""
    rng = c.rng
    schema = rng.choice(MIXED)
    op = make_generic(schema + (None,), rng)
    pool = [INT, STR, BOOL, FLT, CL, DD, L(INT), L(STR), Tu(INT, STR), M(INT), S(STR)]
    ts = [rng.choice(pool) for _ in range(2)] + [rng.choice(pool)]
    if rng.random() < 0.3:
        ts = [ts[0]] * 3
    g = Gen(c)
    vals = []

    def elem(t):
        v = g.value(t)
        if rng.random() < 0.5:
            o = defop(anno(t, {}, rng))
            g.handlers[o] = lambda: v
            vals.append((v, t))
            return o()
        vals.append((v, t))
        return v

    def many(n=2):
        return [elem(ts[i % 3]) for i in range(n)]

    args, kwargs = [], {}
    for i, (nm, t, kind) in enumerate(schema[1]):
        n = rng.choice([2, 3])
        if schema[0] in ("listand", "lists"):
            # one type per argument: a list of several types counts as a list of anything
            one = rng.choice(ts)
            args.append([elem(one) for _ in range(n)] if t != A else elem(one))
        elif kind == "*":
            args += many(n)
        elif kind == "**":
            kwargs.update({f"k{j}": v for j, v in enumerate(many(n))})
        else:
            if t == A:
                v = elem(rng.choice(ts))
            elif t == L(L(A)):
                v = [many(n), many(2)]
            elif t[0] in ("dict", "map"):
                v = {f"k{j}": x for j, x in enumerate(many(n))}
            elif t[0] == "tuple" or t[0] == "vtuple":
                v = tuple(many(2))
            else:
                v = many(n)
                v = tuple(v) if t[0] in ("seq", "iter") and rng.random() < 0.4 else v
            if kind == "k":
                kwargs[nm] = v
            else:
                args.append(v)
    try:
        term = op(*args, **kwargs)
    except TypeError:
        c.check(len({t for _, t in vals}) > 1, "arguments of one type were rejected", op=op, args=list(map(str, args)), vals=vals)
        c.count("rejected")
        c.key((schema[0], ts, "rejected"))
        return
    tp = typeof(term)
    for v, t in vals:
        c.check(instance(evaluate(term, intp={**g.handlers, op: lambda *a, **k: v}), tp),
                "the computed type does not cover every argument", v=v, tp=tp, vals=vals, schema=schema[0])
    c.count("covering")
    c.key((schema[0], ts))


def binders(c):
    """Types of functions, traced functions, streams, calls and iteration."""
    rng = c.rng
    g = Gen(c)
    t = gen_type(rng, 1, fn=False)
    ts = [gen_type(rng, 1, fn=False) for _ in range(rng.choice([0, 1, 2, 3]))]
    f = defop(anno(Fn(*ts, t), {}, rng), name="f")
    args = [g.expr(x, 2) for x in ts]
    call = f()(*args)
    c.check(isinstance(call, Term), "calling a function variable")
    ok(c, call, t, "call of a function variable")
    xs = [defop(anno(x, {}, rng), name=f"x{i}") for i, x in enumerate(ts)]
    # the body of a function decides the type of its calls
    i = rng.randrange(len(ts)) if ts and rng.random() < 0.5 else None
    body = g.var(t)() if i is None else xs[i]()
    bt = t if i is None else ts[i]
    fn = deffn(body, *xs)
    c.check(typeof(fn) is abc.Callable and callable(fn), "type of a function", tp=typeof(fn))
    applied = defop(lambda f, *a: f, name="opaque")
    style = rng.choice(["deffn", "trace"])
    if style == "trace":
        names = [f"p{j}" for j in range(len(ts))]
        ns = {"body": body, "i": i}
        exec(f"def fun({', '.join(names)}): return {'body' if i is None else names[i]}", ns)
        ns["fun"].__annotations__ = {p: anno(x, {}, rng) for p, x in zip(names, ts)}
        fn = trace(ns["fun"])
        c.check(typeof(fn) is abc.Callable, "type of a traced function")
        c.check(all(typeof(v()) in CANON[x[0]] for v, x in zip(fn.args[1:], ts)), "types of the parameters of a traced function")
    app = g.op(next(s for s in SCHEMAS if s[0] == "thunk")) if not ts else None
    if len(ts) == 1:
        app = g.op(next(s for s in SCHEMAS if s[0] == "call"))
    if app is not None:
        r = app(fn, *args)
        ok(c, r, bt, "applying a generic operation to a function")
        v = evaluate(r, intp=g.handlers)
        if not isinstance(v, Term):
            c.check(instance(v, typeof(r)), "value of an application", v=v, tp=typeof(r))
    # streams
    et = gen_type(rng, 1, fn=False)
    e = defop(anno(et, {}, rng), name="e")
    src = defop(anno(rng.choice([L, It])(et), {}, rng), name="src")
    use = rng.random() < 0.6
    st = defstream(e() if use else g.var(t)(), {e: src()})
    elem = et if use else t
    c.check(typeof(st) is abc.Iterable, "type of a stream", tp=typeof(st))
    it = iter(st)
    c.check(typeof(it) is abc.Iterator, "type of an iterator", tp=typeof(it))
    ok(c, next(it), elem, "element of a stream")
    ok(c, next_(iter_(src())), et, "element of an iterable")
    c.count("sound", 3)
    c.key((t, ts, et, use, style, i))


def ok(c, term, t, what):
    tp = typeof(term)
    if t[0] == "G" and tp is G:
        return
    c.check(tp in CANON[t[0]], f"{what}: computed type {tp}, expected {t}")
    interface(c, term, t)


SECTIONS = [
    Section("programs", skippable(programs), 2500, 60000, 4),
    Section("mixed", mixed, 1200, 30000, 2),
    Section("binders", skippable(binders), 500, 10000, 2),
]
