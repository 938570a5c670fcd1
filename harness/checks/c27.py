"""C27: restricted evaluation contains what generated code can reach."""
import ast
import builtins
import contextlib
import io
import os
import sys
import tempfile
import types
import typing
import warnings

import pydantic
from RestrictedPython import RestrictingNodeTransformer

from harness.checks.c26 import Gen, data
from harness.core import Section

from effectful.handlers.llm.encoding import Encodable, SynthesizedFunction
from effectful.handlers.llm.evaluation import ReplSession, RestrictedEvalProvider, UnsafeEvalProvider
from effectful.handlers.llm import evaluation
from effectful.ops.semantics import handler

warnings.simplefilter("ignore")

RULE = (
    "Escape attempts (imports, files, dynamic code, underscore names and attributes read, written and deleted, formatting tricks, "
    "frames, metaclasses, rebound guards, names built at run time) placed everywhere an expression or statement can stand, in "
    "code that runs at once, in functions called later from outside, across snippets of a session, in synthesised functions, and "
    "with environments that carry hostile guards and builtins. Audit hooks of the interpreter and canaries (objects with secrets "
    "and counted attribute access, a scratch directory, the modules and builtins) watch for effects; every attempt has to fail. Random programs of the "
    "restricted language are run under both providers and compared. Distinct by attempt, place and environment."
)
ASSUMPTIONS = [
    "RestrictedPython is the guard of the language itself; what the environment hands over (modules, functions) may be used.",
    "Writing public attributes and items of objects in the environment is allowed, as the provider documents by its write guard.",
]
NEED = {"attempts": 600, "blocked_at_compile": 150, "blocked_at_run": 150, "programs": 60, "values_compared": 400, "policies": 40, "audited": 1000}

CODE = pydantic.TypeAdapter(Encodable[types.CodeType])
SECRET = "s3cr3t-canary"
WATCH = {"on": False, "busy": False, "events": [], "seen": 0}


OURS = ("<attempt>", "<exec_code-", "<synthesis:")


def audit(event, args):
    """Records what code under restrictions makes the interpreter do."""
    if not WATCH["on"] or WATCH["busy"]:
        return
    WATCH["busy"] = True
    try:
        WATCH["seen"] += 1
        f = sys._getframe(1)
        while f is not None:
            name = f.f_code.co_filename
            if name.startswith(OURS):
                WATCH["events"].append((event, repr(args)[:200], name, f.f_lineno))
                return
            if "effectful" in name or name.endswith(("traceback.py", "linecache.py", "contextlib.py")):
                return
            f = f.f_back
    finally:
        WATCH["busy"] = False


def setup():
    with handler(RestrictedEvalProvider()):  # (imports what is imported lazily)
        ReplSession({}).exec_code(CODE.validate_python("1 / 0", context={}))
    sys.addaudithook(audit)


class Box:
    """A canary."""

    def __init__(self):
        self.__dict__["pub"] = 1
        self.__dict__["_secret"] = SECRET

    def _get(self):
        return SECRET

    def method(self):
        return 2

    def __repr__(self):
        return "Box"


# expressions that must not yield a value
EXPR = [
    "box._secret", "box._get()", "box.__class__", "box.__dict__", "().__class__.__base__.__subclasses__()", "box.method.__func__", "box.method.__globals__", "fun.__globals__",
    "fun.__code__", "fun.__closure__", "fun.__builtins__", "getattr(box, '_secret')", "getattr(box, '_sec' + 'ret')", "getattr(box, '__class__')", "getattr(box, name)", "getattr(fun, '__globals__')",
    "getattr(box, '_secret', None) or 1 / 0", "'{0._secret}'.format(box)", "'{x._secret}'.format_map({'x': box})", "str.format('{0._secret}', box)", "getattr('{0._secret}', 'format')(box)", "getattr(str, 'format')('{0._secret}', box)",
    "__import__('os')", "open(path)", "open(path, 'w').write('x')", "eval('1')", "exec('x = 1')", "compile('1', '', 'eval')", "globals()", "locals()", "vars(box)", "vars()", "dir(box)",
    "type(box)", "type('X', (), {})", "object()", "super()", "input()", "breakpoint()", "memoryview(b'x')", "__builtins__", "__build_class__", "_getattr_", "_write_", "_print_", "_getiter_", "_getitem_", "_inplacevar_", "_apply_", "_unpack_sequence_",
    "__metaclass__", "__loader__", "__spec__", "__file__", "(lambda _x: _x)(1)", "[_i for _i in (1,)]", "(_w := 1)", "(x for x in (1,)).gi_frame", "(x for x in (1,)).gi_code", "getattr((x for x in (1,)), 'gi_frame')",
    "setattr(box, 'pub', 2)", "setattr(box, '_secret', 2)", "delattr(box, 'pub')", "setattr(fun, '__code__', 1)", "help()", "exit()", "quit()", "classmethod(fun)", "staticmethod(fun)", "property(fun)", "fun.func_globals.__x__",
    "box.pub.__class__", "'a'.__class__.__mro__", "hasattr(box, '_secret')", "getattr(getattr(box, 'method'), '__self__')", "box.method.__self__._secret", "[].__reduce_ex__(2)", "''.join.__self__", "fun.__getattribute__('__globals__')", "getattr(box, *('_secret',))", "getattr(*(box, '_secret'))",
    "box.__init__.__globals__", "str.__dict__", "(lambda: 0).__code__", "(lambda: 0).__globals__", "getattr((lambda: 0), '__globals__')", "box.__getattribute__('_secret')", "__name__", "__annotations__", "_secret",
]
# statements that must not be executed
STMT = [
    "import os", "import os as o", "from os import path", "from os import *", "import sys, os", "from . import x", "box._secret = 1", "box.__class__ = 1", "del box._secret", "fun.__code__ = 1", "_x = 1", "__builtins__ = 1", "_getattr_ = fun", "_write_ = fun", "_getitem_ = fun",
    "def _f(): pass", "class _K: pass", "def f(_x): pass", "def f(*_a): pass", "def f(**_k): pass", "for _i in (1,): pass", "with cm as _c: pass", "try: 1 / 0\nexcept Exception as _e: pass", "x, _y = 1, 2", "[*_z] = (1,)",
    "try: 1 / 0\nexcept Exception as e: r = e.__traceback__", "try: 1 / 0\nexcept Exception as e: r = getattr(e, '__traceback__')", "try: 1 / 0\nexcept Exception as e: r = e.tb_frame", "class K(metaclass=fun): pass", "class K:\n    def __getattr__(self, n): return 1\n    __slots__ = ()\n    __class__ = 3\nK()._x",
    "nonlocal x", "async def f(): pass", "match 1:\n    case _: pass", "type X = int", "def f[T](x): pass", "class K:\n    def f(self): return self._secret\nK().f()", "class K:\n    def f(self): return self.__class__\nK().f()", "printed = 1", "def f():\n    global _g\n    _g = 1\nf()",
    "box.pub += 1", "d = {}\nd['x'] += 1", "class S(str):\n    def startswith(self, *a): return False\nr = getattr(box, S('_secret'))", "print(box._secret)", "print('x', file=box.__class__)", "assert box._secret", "raise box._secret", "return box._secret", "del __builtins__", "del _getattr_", "x: int = box._secret",
    "exec('r = 1')", "with open(path, 'w') as f: f.write('x')", "try: r = box._secret\nexcept AttributeError: r = box.__dict__", "try: pass\nexcept* ValueError: pass", "global __builtins__\n__builtins__ = 1",
]


def place_expr(rng, e):
    """Code that evaluates e, and a function to be called afterwards (or None)."""
    return rng.choice(
        [
            (f"r = {e}", None),
            (f"def run():\n    return {e}", "run"),
            (f"def run():\n    return {e}\nr = run()", None),
            (f"run = lambda: {e}", "run"),
            (f"r = [{e} for i in (1,)]", None),
            (f"r = [i for i in (1,) if {e}]", None),
            (f"def run(x=({e})):\n    return x", "run"),
            (f"def run(x={e}): return x", "run"),
            (f"class K:\n    v = {e}\nr = K.v", None),
            (f"class K:\n    def go(self): return {e}\nr = K().go()", None),
            (f"def deco(f): return {e}\n@deco\ndef r(): pass", None),
            (f"def run():\n    def inner():\n        return (lambda: {e})()\n    return inner()", "run"),
            (f"def gen():\n    yield {e}\ndef run():\n    return tuple(gen())", "run"),
            (f"r = {{1: {e}}}", None),
            (f"r = ({e},)[0]", None),
            (f"r = fun({e})", None),
            (f"r = fun(*({e},))", None),
            (f"if {e}: r = 1\nelse: r = 2", None),
            (f"for i in (1,):\n    r = {e}", None),
            (f"try:\n    r = 1 / 0\nexcept ZeroDivisionError:\n    r = {e}", None),
            (f"try:\n    pass\nfinally:\n    r = {e}", None),
            (f"x = 1\nx += fun({e}) and 0", None),
            (f"r = 1 if {e} else 2", None),
            (f"r = True and {e}", None),
            (f"r = (w := {e})", None),
            (f"while {e}:\n    break", None),
            (f"assert {e}, 1", None),
            (f"a, b = 1, {e}", None),
            (f"def run():\n    return sorted((1, 2), key=lambda i: ({e}, 1)[1])", "run"),
        ]
        + ([(f'r = f"{{{e}}}"', None), (f'r = f"{{1:{{{e}}}}}"', None), (f'r = f"{{{e}!r:>30}}"', None)] if '"' not in e and "{" not in e and ":=" not in e and "lambda" not in e else [])
    )


def place_stmt(rng, s):
    ind = s.replace("\n", "\n    ")
    return rng.choice(
        [
            (s, None),
            (f"def run():\n    {ind}\n    return 1", "run"),
            (f"if True:\n    {ind}", None),
            (f"for i in (1,):\n    {ind}", None),
            (f"def run():\n    def inner():\n        {ind.replace(chr(10), chr(10) + '    ')}\n        return 1\n    return inner()", "run"),
            (f"try:\n    {ind}\nfinally:\n    pass", None),
            (f"ok = 1\n{s}", None),
        ]
    )


class Plain:
    def __init__(self):
        self.pub = 1


class CM:
    def __enter__(self):
        return 1

    def __exit__(self, *a):
        return False


def fun(*args):
    return args[0] if args else None


def environment(c, path):
    """An environment, possibly with hostile entries."""
    rng = c.rng
    env = {"box": Box(), "fun": fun, "name": "_secret", "path": path, "cm": CM(), "S": str}
    hostile = []
    if rng.random() < 0.6:
        for k, v in {
            "__builtins__": rng.choice([vars(builtins), builtins]),
            "_getattr_": getattr,
            "getattr": getattr,
            "setattr": setattr,
            "delattr": delattr,
            "_write_": lambda x: x,
            "_getitem_": lambda o, i: SECRET,
            "__metaclass__": lambda *a: SECRET,
            "_apply_": lambda f, *a: SECRET,
            "_inplacevar_": lambda *a: SECRET,
            "_print_": fun,
            "_print": 5,
            "__name__": "some_module",
            "_iter_unpack_sequence_": fun,
            "_unpack_sequence_": fun,
            "_getiter_": fun,
            "__build_class__": lambda *a: SECRET,
        }.items():
            if rng.random() < 0.4:
                env[k] = v
                hostile.append(k)
    c.info(f"hostile: {hostile}")
    return env, hostile


@contextlib.contextmanager
def watching():
    WATCH.update(on=True, events=[], seen=0)
    try:
        yield
    finally:
        WATCH["on"] = False


def quiet(c):
    ev = WATCH["events"]
    c.check(not ev, "restricted code has an effect", events=ev[:5])
    c.count("audited", WATCH["seen"])


def attempt(c, src, later, env, how):
    """Run hostile code. The error, or None if it got through; and what it printed."""
    out = io.StringIO()
    error = None
    stage = "compile"
    box = env["box"]
    with handler(RestrictedEvalProvider()):
        if how == "exec":
            try:
                code = evaluation.compile(evaluation.parse(src, "<attempt>"), "<attempt>")
                stage = "run"
                with contextlib.redirect_stdout(out), watching():
                    evaluation.exec(code, env)
            except Exception as e:
                error = e
            got = env
        elif how == "session":
            session = ReplSession(env)
            try:
                code = CODE.validate_python(src, context={})
                stage = "run"
                with watching():
                    text = session.exec_code(code)
                out.write(text)
                if "Traceback" in text:
                    error = RuntimeError(text)
            except Exception as e:
                error = e
            got = session.locals
        else:
            fn = f"\ndef result() -> int:\n    return {later + '()' if later else 'r'}\n"
            ty = pydantic.TypeAdapter(Encodable[typing.Callable[[], int]])
            f = None
            stage = "run"
            try:
                with contextlib.redirect_stdout(out):
                    f = ty.validate_python(SynthesizedFunction(module_code=src + fn), context=env)
                with watching():
                    f()
            except Exception as e:
                error = e
            got, later = {}, None
    if error is None and later is not None:
        # called from outside, without a provider
        try:
            with contextlib.redirect_stdout(out), watching():
                r = got[later]()
            if isinstance(r, types.GeneratorType):
                r = list(r)
            out.write(repr(r))
        except Exception as e:
            error = e
            stage = "run"
    if stage == "run":
        quiet(c)
    c.count("blocked_at_compile", error is not None and stage == "compile")
    c.count("blocked_at_run", error is not None and stage == "run")
    c.check(vars(box) == {"pub": 1, "_secret": SECRET}, "a canary was changed", got=vars(box))
    return error, out.getvalue(), got


def escapes(c):
    rng = c.rng
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "file")
        for _ in range(8):
            env, hostile = environment(c, path)
            if rng.random() < 0.6:
                what = rng.choice(EXPR)
                src, later = place_expr(rng, what)
            else:
                what = rng.choice(STMT)
                src, later = place_stmt(rng, what)
            how = rng.choice(["exec", "exec", "session", "callable"])
            c.info(f"{how} {later}\n{src}")
            c.count("attempts")
            modules, bi = set(sys.modules), dict(vars(builtins))
            error, out, got = attempt(c, src, later, env, how)
            c.check(error is not None, f"an escape goes through: {what}", how=how, hostile=hostile, src=src)
            c.check(SECRET not in out, f"a secret is shown: {what}", how=how, hostile=hostile, src=src)
            c.check(not any(v is SECRET for k, v in got.items()), f"a secret is taken: {what}")
            c.check(not os.listdir(d), "a file is written")
            c.check(set(sys.modules) == modules, "a module is imported", got=set(sys.modules) - modules)
            c.check({k: id(v) for k, v in vars(builtins).items()} == {k: id(v) for k, v in bi.items()}, "builtins change")
            c.key((what, how, tuple(hostile), src[:12]))


# ordinary code; each line is a snippet of its own
ORDINARY = [
    "r = getattr(box, 'pub')", "r = getattr(box, 'nope', 5)", "r = getattr(box, 'nope')", "r = box.nope", "r = box.pub", "box.pub = a", "box.extra = 3\nr = box.extra", "del box.pub", "r = (1, 2, 3)[1:]", "xs[0:1] = [a, b]", "del xs[0]",
    "d = {'k': a}\nd['k'] = d['k'] + 1\nd['z'] = [d['k']]\nprint(d)", "d = {i: j for i, j in zip((1, 2), (a, b))}", "s = {i % 2 for i in seed_l}\nprint(sorted(s))", "(p, q), *rest = (a, b), 1, 2\nprint(p, q, rest)", "for i, (j, k) in [(1, (a, 2)), (3, (4, b))]: print(i, j, k)", "print([i * j for i, j in [(1, 2), (a, b)] if i])",
    "print(a, b, sep='|', end='!\\n')", "print()", "print(*xs)", "print(f'{a:>5}|{b!r}|{len(xs)}')", "print('%s-%s' % (a, b))", "print(sorted(xs), len(xs), tuple(range(3)), slice(1), hash(1), id(None) > 0, callable(len))", "print(isinstance(xs, str), issubclass(int, bool), complex(1), bytes(2), oct(3), zip((1,), (2,)) is None)", "print(round(1.5), abs(-a), divmod(7, 2), pow(2, 3), str(a), int('4'), float(a), bool(a), repr(xs), chr(65), ord('A'), hex(9), isinstance(a, int))",
    "with cm as w: print(w)", "with cm: raise ValueError('in with')", "def deco(f): return lambda *v: f(*v) + 100\n@deco\ndef g(v): return v\nprint(g(1))", "def g(v, *w, k=a, **z): return (v, w, k, z)\nprint(g(1, 2, 3, k=4, m=5), g(1), g(*[1, 2], **{'k': 3, 'q': 4}))", "def g(v):\n    yield v\n    yield from (1, 2)\nprint([v for v in g(a)])",
    "class K:\n    n = a\n    def __init__(self, v): self.v = v\n    def get(self): return self.v + self.n\nk = K(3)\nk.w = 2\nprint(k.get(), K(b).v, k.w)", "class B:\n    def go(self): return 1\nclass K(B):\n    def go(self): return B.go(self) + 1\nprint(K().go())", "class K(Exception): pass\ntry: raise K('x')\nexcept K as e: print(e)",
    "try: 1 / 0\nexcept (ZeroDivisionError, ValueError) as e: print('caught', e)\nelse: print('else')\nfinally: print('fin')", "raise ValueError('top') from KeyError('c')", "assert a == -99, 'message'", "r = xs[99]", "r = {}['nope']", "r = nope", "r = 'x' + 1", "while a < 3:\n    a += 1\n    if a == 2: continue\nelse: print('done')", "fact = lambda n: 1 if n < 2 else n * fact(n - 1)\nprint(fact(5))", "def even(n): return n == 0 or odd(n - 1)\ndef odd(n): return n > 0 and even(n - 1)\nprint(even(4))",
    "if (n := len(xs)) > 0: print(n)", "global a\na = 9", "print('a,b'.split(','), ' x '.strip(), 'ab'.upper(), 'x'.join(['1', '2']), 'abc'[::-1])", "print(r'\\d', b'x', 1_000, 0x1f, 1e3, 2j, ..., None, True)", "del a", "a = b = c = 4", "a, b = b, a", "xs.append(a)\nxs.extend([1])\nxs.sort()\nprint(xs.pop(), xs)", "print([[i for i in range(j)] for j in range(3)])", "print(tuple(i for i in xs), {1, 2} | {1})", "print(1 < a < 5, a is None, a not in xs, not a, ~a, a @ b)",
]


def differential(c):
    """Programs of the restricted language compute the same under both providers."""
    rng = c.rng
    g = Gen(rng, True)
    envs = [{"seed_n": 4, "seed_l": [3, 1, 2], "a": 1, "b": 2, "xs": [5], "seed_sub": lambda s: "sub", "__name__": "m", "box": Plain(), "cm": CM()} for _ in range(2)]
    funs = []
    for _ in range(rng.randint(1, 5)):
        src = g.snippet() if rng.random() < 0.5 else rng.choice(ORDINARY)
        c.key(src[:40])
        try:
            builtins.compile(src, "?", "exec")
        except SyntaxError:
            continue
        c.info(src)
        c.count("programs")
        outs, errs = [], []
        for P, env in zip((UnsafeEvalProvider, RestrictedEvalProvider), envs):
            o = io.StringIO()
            try:
                with handler(P()), contextlib.redirect_stdout(o):
                    evaluation.exec(evaluation.compile(evaluation.parse(src, "<p>"), "<p>"), env)
                errs.append(None)
            except BaseException as e:
                errs.append((type(e).__name__, str(e)))
            outs.append(o.getvalue())
        c.eq(errs[1], errs[0], "another error than without restrictions")
        c.eq(outs[1], outs[0], "another output than without restrictions")
        A, B = ({k: v for k, v in e.items() if k != "__builtins__"} for e in envs)
        c.check(A.keys() == B.keys(), "other names than without restrictions", extra=sorted(B.keys() - A.keys()), missing=sorted(A.keys() - B.keys()))
        for k in A:
            c.count("values_compared")
            c.eq(data(B[k]), data(A[k]), f"the value of {k}")
            if isinstance(A[k], Plain):
                c.eq(vars(B[k]), vars(A[k]), f"the attributes of {k}")
            if isinstance(A[k], types.FunctionType) and k != "seed_sub" and rng.random() < 0.5:
                rs = []
                for f in (A[k], B[k]):
                    o = io.StringIO()
                    try:
                        with contextlib.redirect_stdout(o):
                            rs.append((data(f(3)), o.getvalue()))
                    except BaseException as e:
                        rs.append((type(e).__name__, o.getvalue()))
                c.eq(rs[1], rs[0], f"{k}(3) called from outside")
        c.key(tuple(getattr(g, "kinds", ())))


NODES = {"While": "while False: pass", "Lambda": "f = lambda: 1", "For": "for i in (): pass", "ListComp": "x = [i for i in ()]", "ClassDef": "class K: pass", "Try": "try: pass\nfinally: pass", "With": "with cm: pass", "Subscript": "x = (1,)[0]", "IfExp": "x = 1 if 1 else 2", "Dict": "x = {}", "Raise": "if False: raise ValueError()", "FunctionDef": "def f(): pass"}


def policies(c):
    """The policy that is given is the one that applies."""
    rng = c.rng
    denied = rng.sample(sorted(NODES), rng.randint(0, 4))

    def deny(self, node):
        self.error(node, "denied by policy")

    policy = type("Policy", (RestrictingNodeTransformer,), {f"visit_{n}": deny for n in denied})
    with handler(RestrictedEvalProvider(policy=policy) if denied or rng.random() < 0.5 else RestrictedEvalProvider()):
        for n in rng.sample(sorted(NODES), 6):
            env = {"cm": CM()}
            go = lambda: evaluation.exec(evaluation.compile(evaluation.parse(NODES[n], "<p>"), "<p>"), env)
            c.count("policies")
            c.key((n, tuple(denied)))
            if n in denied:
                c.raises(SyntaxError, go, f"the policy denies {n}")
            else:
                go()
            # the restrictions of the base policy remain
            c.raises(SyntaxError, lambda: evaluation.compile(evaluation.parse("cm._x", "<p>"), "<p>"), "an underscore attribute")


SECTIONS = [
    Section("escapes", escapes, 160, 9000, 4, setup=setup),
    Section("differential", differential, 150, 8000, 2),
    Section("policies", policies, 30, 1500, 1),
]
