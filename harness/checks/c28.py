"""C28: synthesised functions are returned only when they satisfy the request."""
import ast
import builtins
import collections
import collections.abc
import contextlib
import importlib.util
import functools
import inspect
import itertools
import json
import operator
import os
import sys
import tempfile
import textwrap
import typing
import warnings

import pydantic

from harness.core import Section
from harness.llm import Model, boxed, calls, content_text, text

from effectful.handlers.llm import evaluation
from effectful.handlers.llm.completions import LiteLLMProvider, PythonRepl, ResultDecodingError, RetryLLMHandler, ToolCallDecodingError
from effectful.handlers.llm.encoding import Encodable, SynthesizedFunction
from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
from effectful.ops.semantics import fwd, handler

warnings.simplefilter("ignore")

RULE = (
    "Random sources - preludes of helpers, constants, classes, imports, rebindings of context names, effects on a log; last "
    "statements that satisfy the request (defaults, positional-only parameters, closures, recursion, globals, decorators, multi-line "
    "signatures) or miss it in every way the request can be missed - are decoded against random requests (typing and "
    "collections.abc, any parameters, no parameters, None results, no signature) from every input form, under both providers. "
    "The evaluation operations are recorded: a rejected source must not have run. What is returned is compared with the same "
    "source executed by the interpreter in a copy of the context; the context is compared before and after; every function is "
    "encoded again later and its source compared. Template modules are generated (templates at module level, in functions, classes, methods, "
    "with decorators, generics, existing errors around) and real type checks decide about answers and session code whose "
    "correctness is known by construction. Distinct by prelude, last statement, request, form and place."
)
ASSUMPTIONS = [
    "Without a template whose source can be recovered only the number of parameters and the presence of a return annotation are checked.",
    "A function that is part of a larger answer (such as a list of functions) of a template is not generated.",
    "mypy is trusted for the verdict about ordinary code.",
]
NEED = {"decoded": 500, "rejected": 500, "accepted": 300, "calls_compared": 1500, "encoded": 300, "redecoded": 35, "contexts_compared": 500, "regions": 50, "misplaced_imports": 6, "types_accepted": 12, "types_rejected": 20, "snippets_checked": 25}

_n = itertools.count()

# (annotation in the source, type, example arguments)
TYPES = {
    "int": (int, [0, 1, -2, 7]),
    "str": (str, ["", "ab"]),
    "bool": (bool, [True, False]),
    "float": (float, [0.5, 2.0]),
    "list[int]": (list[int], [[], [3, 1]]),
}


class Src:
    """A random source for a function of given parameters and result."""

    def __init__(self, rng, params, result, restricted, k):
        self.rng, self.params, self.result, self.R, self.k = rng, params, result, restricted, k
        self.lines, self.ints, self.strs, self.funs, self.decos = [], ["k", "4"], ["word"], ["helper"], []
        self.kinds = []

    def int(self, depth=2, names=()):
        rng = self.rng
        x = lambda: self.int(depth - 1, names)
        r = rng.randrange(8) if depth else rng.randrange(2)
        if r <= 1:
            return rng.choice(list(names) + self.ints)
        return [f"({x()} + {x()})", f"({x()} - {x()})", f"len({self.str(0)})", f"{rng.choice(self.funs)}({x()})", f"({x()} if {x()} > {x()} else {x()})", f"len([v for v in xs if v != {x()}])"][r - 2]

    def str(self, depth=1):
        return self.rng.choice(self.strs + ["'lit'", "'%s' % k", "word + 'z'"])

    def prelude(self):
        rng, L = self.rng, self.lines
        for i in range(rng.choice([0, 0, 1, 2, 3, 5])):
            kind = rng.choice(["log", "const", "rebind", "helper", "class", "import", "comp", "if", "doc", "comment", "deco", "loop", "blank", "shadow", "lambda"])
            self.kinds.append(kind)
            if kind == "log":
                L.append(f"log.append({self.int(1)})")
            elif kind == "const":
                L.append(f"c{i} = {self.int(1)}")
                self.ints.append(f"c{i}")
            elif kind == "rebind":
                L.append(f"k = {self.int(1)}")
            elif kind == "helper":
                L += [f"def h{i}(y: int) -> int:"] + rng.choice([[], ['    """doc"""'], ["    # comment", ""]]) + [f"    return y + {self.int(1)}"]
                self.funs.append(f"h{i}")
            elif kind == "shadow":
                # (an existing name of the context, possibly that of the function itself)
                L += ["def f(y: int) -> int:", "    return y - 1000"]
            elif kind == "lambda":
                L.append(f"l{i} = lambda y: y * 2")
                self.funs.append(f"l{i}")
            elif kind == "class":
                L += [f"class H{i}:", f"    v = {self.int(1)}", "    def get(self) -> int:", "        return self.v"]
                self.ints.append(f"H{i}().get()")
            elif kind == "import" and not self.R:
                L.append(rng.choice(["import math", "from math import floor, pi", "import collections.abc as cabc"]))
            elif kind == "comp":
                L.append(f"xs = [v + {self.int(0)} for v in xs]")
            elif kind == "if":
                L += [f"if k > 2:", f"    e{i} = 1", "else:", f"    e{i} = 2"]
                self.ints.append(f"e{i}")
            elif kind == "doc":
                L += ['"""A docstring', "over lines.", '"""']
            elif kind == "comment":
                L.append("# comment: def f(): pass")
            elif kind == "blank":
                L += ["", "    ", ""]
            elif kind == "deco":
                L += [f"def d{i}(fn):", "    log.append('decorating')", "    return fn"]
                self.decos.append(f"d{i}")
            elif kind == "loop":
                L += [f"t{i} = 0", "for q in xs:", f"    t{i} = t{i} + q"]
                self.ints.append(f"t{i}")

    def header(self, name, params=None, result=True, extra="", async_=False):
        rng = self.rng
        ps = [f"{n}: {t}" for n, t in (self.params if params is None else params)]
        if params is None and ps and rng.random() < 0.2:
            ps[-1] += f" = {rng.choice(['None', '0'])}"
        if params is None and ps and rng.random() < 0.2:
            ps.insert(rng.randint(1, len(ps)), "/")
        if extra:
            ps.append(extra)
        sep = ",\n        " if rng.random() < 0.2 else ", "
        inner = sep.join(ps)
        if "\n" in sep:
            inner = "\n        " + inner + "\n"
        return f"{'async ' if async_ else ''}def {name}({inner}){' -> ' + self.result if result else ''}:"

    def body(self, name):
        """Lines of the body."""
        rng = self.rng
        ints = [n for n, t in self.params if t in ("int", "bool")]
        e = self.int(2, ints)
        out = []
        if rng.random() < 0.3:
            out += rng.choice([['"""Docs."""'], ['"""Docs', "", "of lines", '"""'], ["# a comment"]])
        style = rng.choice(["plain", "closure", "recursive", "global", "log", "try", "comp"])
        self.kinds.append(style)
        if style == "closure":
            out += ["def inner(z):", f"    return z + {e}", f"r = inner({self.int(0)})"]
        elif style == "recursive" and ints:
            out += [f"r = {e}"]
        elif style == "global" and not self.R:
            out += ["global counter", "counter = globals().get('counter', 0) + 1", f"r = counter + {e}"]
        elif style == "log":
            out += [f"log.append('called')", f"r = {e} + len(log)"]
        elif style == "try":
            out += ["try:", f"    r = xs[{e}]", "except IndexError:", "    r = -1"]
        elif style == "comp":
            out += [f"r = sorted([{e} for _ in ()] + [1, 2])[0]".replace("for _ in", "for u in")]
        else:
            out += [f"r = {e}"]
        if self.result == "str":
            out.append("return str(r)")
        elif self.result == "bool":
            out.append("return r > 0")
        elif self.result == "float":
            out.append("return r + 0.5")
        elif self.result == "None":
            out += ["log.append(r)", "return None"] if rng.random() < 0.5 else ["log.append(r)"]
        elif self.result == "list[int]":
            out.append("return [r]")
        else:
            out.append("return r")
        return ["    " + l if l else l for l in out]


OK = ["plain", "plain", "plain", "decorated", "decorated2", "trailing comment"]
STATIC = ["one more", "one less", "kwonly", "vararg", "kwarg", "async", "class", "lambda", "expression", "statement after", "inside if", "no return annotation", "syntax", "empty", "comments only", "docstring only", "pass", "import last", "too many positional only", "call after", "kwonly instead", "vararg instead", "null byte"]
DYNAMIC = ["decorator number", "decorator signature", "decorator unannotated", "raises"]
# wrong only where the number of parameters is given
SHAPES = ("one more", "one less", "kwonly", "vararg", "kwarg", "too many positional only", "kwonly instead", "vararg instead", "decorator signature")
FORBIDDEN = ["w = word._x", "_u = 1", "nonlocal_ = ().__class__", "import os", "exec('1')"]  # (the last two fail when they run)


def last(src, how, name):
    """Append the last statement. Returns the lines of the definition."""
    rng, L, P = src.rng, src.lines, src.params
    start = len(L)
    body = src.body(name)
    if how in ("plain", "trailing comment"):
        L += [src.header(name)] + body
    elif how in ("decorated", "decorated2"):
        ds = [rng.choice(src.decos + ["same"]) for _ in range(1 if how == "decorated" else 2)]
        L += [f"@{d}" for d in ds] + [src.header(name)] + body
    elif how == "one more":
        L += [src.header(name, P + [("more", "int")])] + body
    elif how == "one less":
        L += [src.header(name, P[:-1])] + body
    elif how == "kwonly":
        L += [src.header(name, P, extra="*, kw: int = 1")] + body
    elif how == "kwonly instead":
        L += [src.header(name, P[:-1], extra="*, kw: int")] + body
    elif how == "vararg instead":
        L += [src.header(name, P[:-1], extra="*rest: int")] + body
    elif how == "vararg":
        L += [src.header(name, P, extra="*rest: int")] + body
    elif how == "kwarg":
        L += [src.header(name, P, extra="**rest: int")] + body
    elif how == "too many positional only":
        L += [src.header(name, P + [("more", "int")], extra="/")] + body
    elif how == "async":
        L += [src.header(name, P, async_=True)] + body
    elif how == "class":
        L += [f"class {name}:", f"    def go(self) -> int: return 1"]
    elif how == "lambda":
        L += [f"{name} = lambda {', '.join(n for n, _ in P)}: {src.int(1)}"]
    elif how == "expression":
        L += [f"log.append({src.int(1)})"]
    elif how == "statement after":
        L += [src.header(name)] + body + [f"after = {src.int(0)}"]
    elif how == "call after":
        L += [src.header(name)] + body + [f"{name}"]
    elif how == "inside if":
        L += ["if True:"] + ["    " + l for l in [src.header(name, P)] + body]
    elif how == "no return annotation":
        L += [src.header(name, result=False)] + body
    elif how == "syntax":
        L += [rng.choice([f"def {name}(x:", f"def {name}(x) -> int: return (", "def 5(): pass", f"def {name}(x, x) -> int: return 1", f"def {name}() -> int:\nreturn 1", "return 5\n" + "\n".join([src.header(name)] + body), "break\n" + "\n".join([src.header(name)] + body)])]
    elif how == "null byte":
        L += [src.header(name)] + body + ["\0"]
    elif how == "empty":
        L.clear()
    elif how == "comments only":
        L[:] = ["# nothing", ""]
    elif how == "docstring only":
        L[:] = ['"""nothing"""']
    elif how == "pass":
        L += ["pass"]
    elif how == "import last":
        L += ["import math"]
    elif how == "decorator number":
        L += ["def to5(fn):", "    return 5", "@to5", src.header(name)] + body
    elif how == "decorator signature":
        L += ["def sig(fn):", f"    def other(a, b, c, d, e, g: int) -> {src.result}:", "        return None", "    return other", "@sig", src.header(name)] + body
    elif how == "decorator unannotated":
        L += ["def una(fn):", f"    def other({', '.join(n for n, _ in P)}):", "        return None", "    return other", "@una", src.header(name)] + body
    elif how == "raises":
        L += ["xs[99]", src.header(name)] + body
    if how == "trailing comment":
        L += ["", "# the end", "   "]
        return L[start:-3]
    return L[start:]


def context(k):
    """A fresh context; mutable values belong to it alone."""
    log = []
    return {"k": k, "xs": [5, 6, 7], "word": "w" * k, "log": log, "helper": helper, "same": same, "f": 17, "__name__": "ctx_module", "bad-key": 1, "9x": 2, "<odd>": 3}


def helper(n: int) -> int:
    return n * 3


def same(fn):
    return fn


def plainly(f, *args):
    try:
        return ("value", f(*args))
    except Exception as e:
        return ("raises", type(e).__name__)


class Recorder:
    """Watches the evaluation operations."""

    def __init__(self, c, verdict=None):
        self.c, self.events, self.compiled, self.verdict, self.checked = c, [], [], verdict, []

    def handlers(self):
        def parse(source, filename):
            self.events.append("parse")
            return fwd()

        def compile(module, filename):
            self.events.append("compile")
            r = fwd()
            self.compiled.append(r)
            return r

        def exec(bytecode, env):
            self.events.append("exec")
            self.c.check(any(bytecode is b for b in self.compiled), "code is executed that the provider did not compile")
            return fwd()

        def type_check(source, lo=None, hi=None, *, lenient=False):
            self.events.append("type_check")
            self.checked.append((source, lo, hi, lenient))
            if self.verdict is not None:
                raise self.verdict

        return {evaluation.parse: parse, evaluation.compile: compile, evaluation.exec: exec, evaluation.type_check: type_check}


def request(rng, params, result):
    """A requested type."""
    rt = None if result == "None" else TYPES[result][0]
    C = rng.choice([typing.Callable, collections.abc.Callable])
    if rng.random() < 0.15:
        return C[..., rt], False
    return C[[TYPES[t][0] for _, t in params], rt], True


def form(rng, src):
    k = rng.randrange(4)
    if k == 0:
        return SynthesizedFunction(module_code=src)
    if k == 1:
        return json.dumps({"module_code": src})
    return {"module_code": src}


def same_context(c, ctx, before):
    c.check(list(ctx) == list(before) and all(ctx[k] is before[k] for k in before), "the context was altered", now=sorted(ctx), was=sorted(before))
    c.count("contexts_compared")


def decode(c):
    rng = c.rng
    made = []  # (function, adapter, source of the definition, self-contained source, k)
    for _ in range(8):
        R = rng.random() < 0.3
        result = rng.choice(["int", "int", "str", "bool", "float", "None", "list[int]"])
        params = [(n, rng.choice(list(TYPES))) for n in rng.sample(["x", "n", "s", "value"], rng.randint(0, 3))]
        ty, counted = request(rng, params, result)
        k = rng.randint(0, 4)
        src = Src(rng, params, result, R, k)
        src.prelude()
        how = rng.choice(OK if (u := rng.random()) < 0.5 else DYNAMIC if u < 0.6 else STATIC)
        if R and how in ("null byte",):
            how = "plain"
        name = rng.choice(["f", "f", "solve", "helper2"])
        forbidden = R and rng.random() < 0.15
        if forbidden:
            forbidden = rng.choice(FORBIDDEN)
            src.lines.insert(0, forbidden)
        if rng.random() < 0.5:
            src.lines.insert(0, "log.append('ran')")
        defn = last(src, how, name)
        code = "\n".join(src.lines) + rng.choice(["", "\n", "\n\n"])
        if how in ("one less", "kwonly instead", "vararg instead") and not params:
            continue
        free_ = SHAPES if not counted else ()
        free = how in free_
        good = how in OK or free
        if forbidden or (R and how == "import last"):
            good = False
        c.info(f"{'restricted' if R else ''} {how} {ty}\n{code}")
        c.key((how, tuple(src.kinds), str(ty), R))
        c.count("decoded")
        ctx = context(k)
        given = collections.ChainMap({}, ctx) if rng.random() < 0.4 else ctx
        before, log = dict(ctx), ctx["log"]
        adapter = pydantic.TypeAdapter(Encodable[ty])
        rec = Recorder(c)
        value, error = None, None
        fm = form(rng, code)
        with handler((RestrictedEvalProvider if R else UnsafeEvalProvider)()), handler(rec.handlers()):
            try:
                value = adapter.validate_python(fm, context=given)
            except Exception as e:
                error = e
        same_context(c, ctx, before)
        if isinstance(given, collections.ChainMap):
            c.check(not given.maps[0] and len(given.maps) == 2, "the context was altered")
        c.check(rec.events.count("exec") <= 1, "a source is run several times", events=rec.events)
        if good:
            # (what the source does when the interpreter runs it)
            ref = {k_: v for k_, v in context(k).items() if k_.isidentifier()}
            refused = None
            try:
                builtins.exec(builtins.compile(code, "<ref>", "exec"), ref)
            except Exception as e:
                refused = e
            if refused is not None:
                c.check(type(error) is type(refused), "another error than that of the source", got=error, want=refused)
                c.count("rejected")
                continue
            if error is not None:
                c.fail(f"a source that satisfies the request is rejected: {how}: {error!r}"[:600])
            c.count("accepted")
            c.check(value.__name__ == name or how.startswith("decor"), "another function", got=value.__name__)
            c.eq(log, ref["log"], "effects of the source")
            for _ in range(3):
                args = [rng.choice(TYPES[t][1]) for _, t in params]
                c.eq(plainly(value, *args), plainly(ref[name], *args), f"{name}{tuple(args)}")
                c.eq(log, ref["log"], f"effects of {name}{tuple(args)}")
                c.count("calls_compared")
            same_context(c, ctx, before)
            if how != "decorator signature":
                made.append((value, adapter, "\n".join(defn), code, ty, k, params, R))
        else:
            c.count("rejected")
            c.check(error is not None, f"a source is accepted that does not satisfy the request: {how}", code=code, ty=str(ty), forbidden=forbidden)
            if (how in STATIC and how not in free_) or forbidden in FORBIDDEN[:3]:
                c.check("exec" not in rec.events and not log, f"a rejected source has run: {how}", error=repr(error)[:200], code=code)
    # every function remembers its own source, whatever was decoded since
    rng.shuffle(made)
    for f, adapter, defn, code, ty, k, params, R in made:
        c.count("encoded")
        d = adapter.dump_python(f, mode="json")
        c.check(set(d) == {"module_code"}, "an encoding", got=d)
        c.eq(d["module_code"].strip(), textwrap.dedent(defn).strip(), "the encoding of a decoded function")
        c.eq(inspect.getsource(f).strip(), defn.strip(), "the source of a decoded function")
        c.check(adapter.validate_python(f) is f, "a function decodes to itself")
        if code.strip() == defn.strip():
            with handler(UnsafeEvalProvider()):
                g = adapter.validate_json(adapter.dump_json(f), context=context(k))
            ref = context(k)
            builtins.exec(code, ref)
            for _ in range(2):
                args = [rng.choice(TYPES[t][1]) for _, t in params]
                c.eq(plainly(g, *args), plainly(ref[f.__name__], *args), "a function decoded from its encoding")
            c.count("redecoded")


def requests(c):
    """Requests without a signature, other values, functions of the host."""
    rng = c.rng
    src = "log.append(1)\ndef f(x: int) -> int:\n    return x\n"
    rec = Recorder(c)
    for T in (typing.Callable, collections.abc.Callable):
        ctx = context(1)
        with handler(UnsafeEvalProvider()), handler(rec.handlers()):
            c.raises(Exception, lambda: pydantic.TypeAdapter(Encodable[T]).validate_python(form(rng, src), context=ctx), "no signature")
        c.check(not ctx["log"] and "exec" not in rec.events, "the source of a rejected request has run")
    ad = pydantic.TypeAdapter(Encodable[typing.Callable[[int], int]])
    for v in (5, None, [], [src], {"code": src}, src, {"module_code": 5}, {}, "[]", '{"module_code": 3}', ("x",)):
        with handler(UnsafeEvalProvider()), handler(rec.handlers()):
            c.raises(Exception, lambda: ad.validate_python(v, context={}), f"{v!r} is no function")
    c.check("exec" not in rec.events, "something was run")
    wrapper = functools.wraps(helper)(lambda n: helper(n) + 1)
    box = C28Callable()
    for f in (helper, len, box, box.method, C28Callable.klass, lambda x: x, int, "a".upper, wrapper,
              functools.lru_cache(helper), functools.partial(helper, 1), operator.itemgetter(0)):
        got = ad.validate_python(f)
        c.check(got is f, "a callable decodes to itself")
    c.eq(ad.dump_python(helper)["module_code"].strip(), "def helper(n: int) -> int:\n    return n * 3", "the encoding of a function of the host")
    c.check("def len" in ad.dump_python(len)["module_code"], "the encoding of a builtin")
    # no provider, no evaluation
    c.raises(Exception, lambda: ad.validate_python({"module_code": src}, context=context(1)), "without a provider")
    # a verdict against the source
    for err in (TypeError("ill-typed"), RuntimeError("mypy failed")):
        mod, t = template_module(c, None)
        try:
            ctx = {**context(1), **anchored(t)}
            rec = Recorder(c, verdict=err)
            with handler(UnsafeEvalProvider()), handler(rec.handlers()):
                e = c.raises(Exception, lambda: pydantic.TypeAdapter(Encodable[t.__signature__.return_annotation]).validate_python({"module_code": good_source(c, mod)}, context=ctx), "the type check fails")
            c.check("type_check" in rec.events, "no type check")
            c.check("exec" not in rec.events and not ctx["log"], "an ill-typed source has run")
        finally:
            mod.close()
    c.key(rng.random())


class C28Callable:
    def __call__(self, x):
        return x

    def method(self, x):
        return x

    @classmethod
    def klass(cls, x):
        return x


# ---------------------------------------------------------------- template modules

NOISE = [
    "broken: int = 'not an int'", "def noisy() -> int:\n    return 'wrong'", "class Noise:\n    def m(self) -> str:\n        return 5\n    attr: int = None", "undefined_name_1 if False else 0", "NUMBERS: list[int] = [1, 2,\n    3]",
    "def untyped(a, b):\n    return a + b", "TEXT = '''multi\nline # not a comment\ndef fake(): pass\n'''", "async def coroutine() -> None:\n    await asyncio.sleep(0)", "x: int = 1; y: int = 2", "if TYPE_CHECKING:\n    import decimal\nelse:\n    decimal = None", "try:\n    pass\nfinally:\n    fin = 1",
    "@functools.lru_cache(maxsize=None)\ndef cached(n: int) -> int:\n    return n", "@dataclasses.dataclass\nclass Point:\n    x: int\n    y: int = 0", "def over() -> int:\n    def inner() -> int:\n        return 1\n    return inner()", "# a comment\n", "type Alias = list[int]", "match 3:\n    case 3:\n        matched = 1\n    case _:\n        matched = 2", "f_string = f'{1:>{4}} {\"q\"}'", "def answer() -> str:\n    return 3",
]
HEADER = "import typing, functools, dataclasses, asyncio\nfrom typing import Callable, TYPE_CHECKING\nfrom effectful.handlers.llm import Template, Tool, Agent\nfrom effectful.ops.types import NotHandled\n"


class Mod:
    """A generated module with a template in it."""

    def close(self):
        os.unlink(self.path)
        sys.modules.pop(self.name, None)


def template_module(c, result=None, noise=True):
    rng = c.rng
    place = rng.choice(["module", "module", "function", "untyped function", "method", "nested class", "static", "double", "deep", "same names", "if", "params", "generic class", "local class", "shadowed name"])
    P = rng.choice([[], ["int"], ["int", "str"], ["str"], ["list[int]"], ["bool", "int"]])
    Rn = rng.choice(["int", "str", "bool", "list[int]", "None"])
    ret = result or f"Callable[[{', '.join(P)}], {Rn}]"
    if result is None and rng.random() < 0.15:
        ret = f"typing.Optional[{ret}]"
    prefix = HEADER.splitlines()
    noises = lambda: [l for s in rng.sample(NOISE, rng.randint(0, 4)) for l in s.split("\n")] if noise and rng.random() < 0.8 else []
    params = "" if rng.random() < 0.5 else "topic: str"
    doc = ['    """Write a function."""', "    raise NotHandled"] if rng.random() < 0.7 else ['    """Write', "", "    a function", '    """', "    raise NotHandled"]
    deco = ["@Template.define"]
    head = f"def target({params}) -> {ret}:" if rng.random() < 0.8 else f"def target(\n    {params or '*'}{',' if params else ', flag: int = 0'}\n) -> {ret}:"
    hl = head.split("\n")
    t = deco + hl + doc
    ind = lambda ls, n=1: ["    " * n + l if l else l for l in ls]
    self_ = lambda: [h.replace("def target(", "def target(self, " if params or len(hl) > 1 else "def target(self", 1) for h in hl]
    if len(hl) > 1:
        self_ = lambda: ["def target(self,"] + hl[1:]
    body = ["limit: int = 3", "word: str = 'wo'", "items: list[int] = [1, 2]", "ran: list[int] = []", "def twice(n: int) -> int:", "    return n * 2"]
    env = dict(local=None)
    get = "target"
    if place == "module":
        lines = t
    elif place in ("function", "untyped function", "deep"):
        sig = "def outer(local: int, tag: str) -> Template:" if place != "untyped function" else "def outer(local, tag):"
        inner = ["secret: int = local + 1"] + noises() + t + ["return target"]
        if place == "deep":
            inner = ["def middle(mid: int) -> Template:"] + ind(["secret: int = local + mid"] + t + ["return target"]) + ["return middle(2)"]
        lines = [sig] + ind(inner)
        get = "outer(4, 'tag')"
        env["local"] = 6 if place == "deep" else 5
    elif place == "method":
        lines = ["class Holder(Agent):", '    """A holder"""', "    size: int = 4"] + ind(deco + self_() + doc)
        get = "Holder().target"
    elif place == "nested class":
        lines = ["class Outer:", "    class Holder(Agent):", '        """A holder"""'] + ind(deco + self_() + doc, 2)
        get = "Outer.Holder().target"
    elif place == "local class":
        lines = ["def outer(local: int) -> typing.Any:", "    secret: int = local + 1", "    class Holder(Agent):", '        """A holder"""'] + ind(deco + self_() + doc, 2) + ["    return Holder()"]
        get = "outer(4).target"
        env["local"] = 5
    elif place == "generic class":
        lines = ["class Holder[T](Agent):", '    """A holder"""', "    def other(self, v: T) -> T:", "        return v"] + ind(deco + self_() + doc)
        get = "Holder().target"
    elif place == "static":
        lines = ["class Holder:", "    @Template.define", "    @staticmethod"] + ind(hl + doc)
        get = "Holder.target"
    elif place == "double":
        lines = ["def mark(fn: typing.Any) -> typing.Any:", "    fn.marked = True", "    return fn", "@mark"] + t
    elif place == "same names":
        lines = ["class A(Agent):", '    """One"""', "    @Template.define", "    def target(self) -> Callable[[str, str, str], bytes]:", '        """Another function."""', "        raise NotHandled", "def unrelated() -> int:", "    def target() -> int:", "        return 'wrong'", "    return target()"] + t
    elif place == "shadowed name":
        lines = ["def target(a: int) -> int:", "    # not a template", "    return a", "def wrapper() -> typing.Any:", "    class Holder(Agent):", '        """A holder"""', "        def plain(self) -> int:", "            def target() -> str:", "                return 'x'", "            return len(target())"] + ind(deco + self_() + doc, 2) + ["    def target(b: int) -> int:", "        return b", "    return Holder()"]
        get = "wrapper().target"
    elif place == "if":
        lines = ["if limit > 1:"] + ind(t) + ["else:", "    target = None"]
    elif place == "params":
        lines = [l.replace("def target(", "def target(amount: int, " if params or len(hl) > 1 else "def target(amount: int") for l in t]
        if len(hl) > 1:
            lines = deco + ["def target(amount: int,"] + hl[1:] + doc
    text_ = "\n".join(prefix + noises_at_module(noises()) + body + noises_at_module(noises()) + lines + noises_at_module(noises())) + "\n"
    m = Mod()
    m.name = f"c28_module_{os.getpid()}_{next(_n)}"
    m.path = os.path.join(SCRATCH, m.name + ".py")
    m.text, m.place, m.P, m.R, m.secret = text_, place, P, Rn, env["local"]
    m.args = (["amount"] if place == "params" else []) + (["topic"] if params else [])
    with open(m.path, "w") as f:
        f.write(text_)
    spec = importlib.util.spec_from_file_location(m.name, m.path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[m.name] = mod
    spec.loader.exec_module(mod)
    m.template = eval(get, vars(mod))
    m.module = mod
    c.info(f"{place} {ret}\n{text_}")
    return m, m.template


def noises_at_module(ls):
    return [l for l in ls if "undefined_name_1" not in l]


VALUE = {"int": ["1", "limit", "twice(2)", "len(word)", "len(items) + limit"], "str": ["'a'", "word", "word + 'x'", "str(limit)"], "bool": ["True", "limit > 2", "not items"], "list[int]": ["[1]", "items", "[limit, twice(3)]", "[n for n in items]"], "None": ["None"]}
WRONG = {"int": ["'a'", "word", "items", "None"], "str": ["1", "limit", "twice(2)", "items"], "bool": ["'no'", "word", "limit"], "list[int]": ["1", "['a']", "word", "(1, 2)", "[word]"], "None": ["1", "'a'", "limit"]}
# errors in a body or at the top of a source
ERRONEOUS = ["limit.upper()", "unknown_name", "twice('x')", "twice()", "word + 1", "items.push(1)", "len(5)", "items['a']", "word.strip(1)", "limit()"]


def good_source(c, m, bad=None):
    """A source for the template of a module; with an error of the given kind."""
    rng = c.rng
    names = rng.sample(["p", "q", "r"], len(m.P))
    ps = list(zip(names, m.P))
    if bad == "parameter":
        i = rng.randrange(len(ps))
        ps[i] = (ps[i][0], {"int": "str", "str": "int", "bool": "str", "list[int]": "list[str]"}[ps[i][1]])
    pre = []
    values = list(VALUE[m.R])
    same_typed = [n for n, t in ps if t == m.R]
    if same_typed:
        values += same_typed
    if m.secret is not None and m.R == "int":
        values.append("secret")
    if "topic" in m.args and m.R == "str":
        values.append("topic")
    for i in range(rng.choice([0, 0, 1, 2])):
        pre += rng.choice([[f"base{i}: int = {rng.choice(VALUE['int'])}"], [f"def helper{i}(n: int) -> int:", f"    return n + {rng.choice(VALUE['int'])}"], ["import math"], [f"class Part{i}:", "    size: int = 2"], ["# comment"], ['"""doc', 'more"""']])
    deco = []
    if rng.random() < 0.25:
        pre += ["def noop[F](fn: F) -> F:", "    return fn"]
        deco = ["@noop"]
    if bad == "prelude":
        pre.insert(0 if rng.random() < 0.6 or any(l.startswith(" ") or l.endswith('"""') for l in pre) else len(pre), rng.choice(["", "bad = ", "bad: int = "]) + rng.choice(ERRONEOUS))
    if bad == "prelude return":
        pre = ["def faulty(n: int) -> int:", "    return 'text'"] + pre
    if bad == "decorator":
        deco = [rng.choice(["@unknown_decorator", "@limit", "@twice", "@word.upper", "@twice('a')"])] + (deco if rng.random() < 0.5 else [])
        if rng.random() < 0.6:
            pre = [p for p in pre if False] if "@noop" not in deco else pre
    result = m.R
    if bad == "annotation":
        result = {"int": "str", "str": "int", "bool": "str", "list[int]": "list[str]", "None": "str"}[m.R]
    v = rng.choice(WRONG[m.R] if bad == "value" else VALUE[result] if result in VALUE else ["[word]"] if bad == "annotation" else values)
    if bad is None:
        v = rng.choice(values)
    out = [f"def made({', '.join(f'{n}: {t}' for n, t in ps)}) -> {result}:"]
    inner = []
    if rng.random() < 0.3:
        inner += ['"""Docs', '   of it."""']
    if rng.random() < 0.3:
        inner += ["for n in items:", "    if n > limit:", "        continue"]
    if bad == "body":
        inner += [rng.choice(["", "z = ", "return "]) + rng.choice(ERRONEOUS)]
    if bad == "nested body":
        inner += ["def nested(n: int) -> int:", f"    return {rng.choice(WRONG['int'])}"]
    inner += [f"return {v}"]
    m.value = v
    return "\n".join(pre + deco + out + ["    " + l for l in inner]) + "\n"


BAD = ["value", "body", "nested body", "annotation", "prelude", "prelude return", "decorator", "parameter"]
SCRATCH = None


def scratch():
    global SCRATCH
    import atexit
    import shutil

    SCRATCH = tempfile.mkdtemp(prefix="c28-")
    atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
    # (mypy reads the configuration of the working directory)
    os.chdir(SCRATCH)


def anchored(t):
    """What the context of an answer carries about its template: learned from a call."""
    from effectful.handlers.llm import encoding

    return {encoding.TYPE_CHECK_ANCHOR_KEY: t.__default__}


def arguments(m):
    return {"amount": 3, "topic": "tea"}, [{"amount": 3, "topic": "tea"}[a] for a in m.args]


def call(m, answers, *handlers):
    """Call the template of a module with a scripted model."""
    model = Model(answers)
    with contextlib.ExitStack() as st:
        for h in [LiteLLMProvider(), UnsafeEvalProvider(), *handlers, model]:
            st.enter_context(handler(h))
        return m.template(*arguments(m)[1]), model


def region(c):
    """What is type checked: the module of the template, with the answer in the place of the body."""
    rng = c.rng
    m, t = template_module(c)
    try:
        src = good_source(c, m, rng.choice([None] + BAD[:-1]))
        c.info(src)
        rec = Recorder(c)
        f = None
        if rng.random() < 0.15:
            # imports that cannot stand in the body of a function
            src = rng.choice(["from math import *\n", "from __future__ import annotations\n", "import math\nfrom os.path import *\n"]) + src
            c.raises(ResultDecodingError, lambda: call(m, [boxed({"module_code": src})], rec.handlers()), "an import that is illegal in the body of the template")
            c.check("exec" not in rec.events, "a rejected source has run")
            c.count("misplaced_imports")
            return
        try:
            f, _ = call(m, [boxed({"module_code": src})], rec.handlers())
        except ResultDecodingError as e:
            c.check("exec" in rec.events, "an answer is rejected without a reason", error=repr(e)[:300])
        c.eq(len(rec.checked), 1, "type checks for an answer")
        source, lo, hi, lenient = rec.checked[0]
        c.check(not lenient, "a lenient check of an answer")
        whole, answer, original = ast.parse(source), ast.parse(src), ast.parse(m.text)
        want = [ast.dump(s) for s in answer.body]
        # the statements of the answer stand in the region, one after the other
        found = None
        for n in ast.walk(whole):
            if isinstance(n, ast.FunctionDef) and n.name == "target":
                got = [ast.dump(s) for s in n.body]
                if got[: len(want)] == want:
                    found = n
        c.check(found is not None, "the answer is not checked in the place of the body of its template", source=source)
        for s in found.body[: len(want)]:
            first = min([s.lineno] + [d.lineno for d in getattr(s, "decorator_list", [])])
            c.check(lo <= first and s.end_lineno <= hi, "a part of the answer lies outside of the region checked", part=ast.unparse(s), region=(lo, hi))
        c.check(lo > found.lineno, "the region holds the signature of the template")
        c.check(all(s.lineno < hi for s in found.body[: len(want)]), "region")
        # nothing else is different
        for s in ast.walk(original):
            if isinstance(s, ast.FunctionDef) and s.name == "target" and "NotHandled" in ast.unparse(s) and s.decorator_list:
                s.body = []
        for s in ast.walk(whole):
            if isinstance(s, ast.FunctionDef) and s.name == "target" and (s is found or "NotHandled" in ast.unparse(s)) and s.decorator_list:
                s.body = []
        c.eq(ast.dump(whole), ast.dump(original), "the module around the template in the check")
        c.count("regions")
        c.key((m.place, m.R, tuple(m.P)))
    finally:
        m.close()


def types_(c):
    """Real type checks."""
    rng = c.rng
    m, t = template_module(c)
    try:
        for _ in range(2):
            bad = rng.choice(BAD) if rng.random() < 0.6 else None
            if bad == "parameter" and not m.P:
                bad = "value"
            src = good_source(c, m, bad)
            marker = "ran.append(1)\n"
            bare = src
            if not (bad == "decorator" and src.startswith("@")) and rng.random() < 0.7:
                src = marker + src
            c.info(f"--- {bad}\n{src}")
            ran = m.module.ran
            ran.clear()
            rec_exec = []

            def exec_(bytecode, env):
                rec_exec.append(1)
                return fwd()

            c.key((m.place, bad, m.R))
            if bad is None:
                try:
                    f, _ = call(m, [boxed({"module_code": src})])
                except ResultDecodingError as e:
                    c.fail(f"a well-typed answer is rejected: {e!r}"[:900])
                c.count("types_accepted")
                compare_value(c, m, f)
            else:
                e = c.raises(ResultDecodingError, lambda: call(m, [boxed({"module_code": src})], {evaluation.exec: exec_}), f"an ill-typed answer: {bad}")
                c.check(isinstance(e.original_error, TypeError), "another error", got=repr(e.original_error)[:300])
                c.check(not ran and not rec_exec, "an ill-typed answer has run")
                c.count("types_rejected")
                if rng.random() < 0.4:
                    good = good_source(c, m)
                    seen = []

                    def respond(req, n):
                        seen.append(req)
                        return boxed({"module_code": src if n == 0 else good})

                    f, model = call(m, respond, RetryLLMHandler())
                    c.eq(len(seen), 2, "requests until the answer is well-typed")
                    c.check("mypy" in json.dumps(seen[1].messages) or "TypeError" in json.dumps(seen[1].messages), "the model does not learn of the type error")
                    compare_value(c, m, f)
                    c.count("types_accepted")
    finally:
        m.close()


def compare_value(c, m, f):
    ns = {**vars(m.module), "secret": m.secret, **arguments(m)[0]}
    args = [{"int": 4, "str": "s", "bool": True, "list[int]": [9]}[t] for t in m.P]
    names = list(inspect.signature(f).parameters)
    want = eval(m.value, {**ns, **dict(zip(names, args))})
    c.eq(f(*args), want, f"the function computes {m.value}")


def snippets(c):
    """Session code is checked in the body of its template, after the earlier snippets."""
    rng = c.rng
    m, t = template_module(c, result="str")
    try:
        plan = []
        defined = []
        for i in range(rng.randint(2, 6)):
            r = rng.random()
            if r < 0.45 or i == 0:
                src, ok = rng.choice(
                    [
                        (f"v{i}: int = limit + {i}\nprint(v{i})", True),
                        (f"v{i} = [limit]\nprint(v{i})", True),
                        (f"v{i} = word\nprint(v{i})", True),
                        *[(f"v{i} = {i}\nprint(v{i})", True)] * 6,
                        (f"def uses{i}() -> int:\n    return len(shared)\nshared = 'a'\nprint(uses{i}())", True) if not any("uses" in p for p, _ in plan) else ("shared = 5\nprint(shared)", True),
                        (f"def g{i}(n: int) -> int:\n    return n + limit\nprint(g{i}(1))", True),
                        (f"import math\nprint(math.floor(2.5))", True),
                        ("# nothing at all", True),
                        ("limit_ = 1\nlimit_ = 'now a string'\nprint(limit_)", True),
                        ("def again() -> int:\n    return 1\ndef again() -> str:\n    return 'a'\nprint(again())", True),
                        ("print(1 / 0)", True),
                    ]
                )
            elif r < 0.75 and defined:
                d = defined[0] if rng.random() < 0.6 else rng.choice(defined)
                src, ok = (f"print({d}, 'again')", True)
            else:
                e = rng.choice(ERRONEOUS)
                src, ok = rng.choice([(e, False), (f"print(1)\n{e}", False), (f"def h{i}(n: int) -> int:\n    return 'a'", False), (f"def h{i}(n: int) -> int:\n    return {e}\nprint(2)", False), (f"@unknown_decorator\ndef h{i}(n: int) -> int:\n    return n", False), (f"w{i}: int = 'x'", False), ("print(undefined_later)\nundefined_later = 1" if False else f"print(nowhere{i})", False), ("if limit > 1:\n    print(word.nothing)", False)])
            plan.append((src, ok))
            if ok and src.startswith(f"v{i}"):
                defined.append(f"v{i}")
        c.info(repr(plan))
        state = {"i": 0, "bad": False}

        def respond(req, n):
            i = state["i"]
            if i > 0:
                src, ok = plan[i - 1]
                got = content_text(req.messages[-1]["content"])
                c.count("snippets_checked")
                if ok:
                    c.check("mypy" not in got, "well-typed session code is rejected", src=src, got=got[:700])
                else:
                    c.check("mypy" in got, "ill-typed session code is accepted", src=src, got=got[:700])
            if i == len(plan):
                return text("done")
            state["i"] += 1
            return calls((f"call_{n}", "exec_code", json.dumps({"code": plan[i][0]})))

        executed = []

        def exec_(bytecode, env):
            executed.append("".join(__import__("linecache").getlines(bytecode.co_filename)))
            return fwd()

        r, _ = call(m, respond, PythonRepl(), RetryLLMHandler(stop=lambda s: s.attempt_number > 20), {evaluation.exec: exec_})
        c.eq(r, "done", "the answer")
        c.eq([e.strip() for e in executed], [s for s, ok in plan if ok], "the session code that was executed")
        c.key((m.place, tuple(ok for _, ok in plan)))
    finally:
        m.close()


SECTIONS = [
    Section("decode", decode, 160, 9000, 3),
    Section("requests", requests, 16, 200, 1, setup=scratch),
    Section("region", region, 120, 4000, 2, setup=scratch),
    Section("types", types_, 32, 400, 8, setup=scratch),
    Section("snippets", snippets, 20, 160, 4, setup=scratch),
]
