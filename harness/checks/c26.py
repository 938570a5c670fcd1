"""C26: a code session behaves like one Python session."""
import builtins
import collections
import contextlib
import io
import itertools
import json
import linecache
import re
import sys
import traceback
import types
import warnings

import pydantic

from harness.core import Section, Violation
from harness.llm import Model, calls, content_text, text

from effectful.handlers.llm import Template, Tool
from effectful.handlers.llm.completions import LexicalReaders, LiteLLMProvider, PythonRepl
from effectful.handlers.llm.encoding import Encodable
from effectful.handlers.llm.evaluation import ReplSession, RestrictedEvalProvider, UnsafeEvalProvider, type_check
from effectful.ops.semantics import handler
from effectful.ops.types import NotHandled

warnings.simplefilter("ignore")

RULE = (
    "Sessions of random snippets - bindings, rebindings and deletions, functions, closures, classes, generators, global statements, "
    "comprehensions, shadowed builtins, imports, prints to both streams, errors of every kind in the middle of a snippet or "
    "inside functions of earlier snippets, exits, code that does not compile - run in several interleaved and nested sessions, under both "
    "providers. A reference executes the same snippets in one dictionary with the interpreter itself; after each snippet the "
    "monitor compares the output, the error with its position in every snippet involved, the names bound and the values of "
    "the data, and that the host's streams, builtins and variables are what they were. Distinct by snippet kinds."
)
ASSUMPTIONS = [
    "Snippets run one at a time in a process (output is captured by redirecting the streams of the process).",
    "Under the restricted provider the snippets keep to the language RestrictedPython accepts.",
]
NEED = {"snippets": 700, "errors": 120, "rejected": 25, "nested": 30, "restricted": 150, "exits": 5, "llm_snippets": 60, "variables_read": 8, "data_compared": 2000}

_n = itertools.count()
CODE = pydantic.TypeAdapter(Encodable[types.CodeType])
ERRS = ["ValueError", "KeyError", "ZeroDivisionError", "StopIteration", "AssertionError", "RuntimeError", "KeyboardInterrupt"]


class Gen:
    """Snippets over a small pool of names; what they refer to may or may not exist."""

    def __init__(self, rng, restricted):
        self.rng, self.restricted = rng, restricted
        self.ints, self.lists, self.funcs, self.classes, self.gens = ["a", "b", "seed_n"], ["xs", "seed_l"], [], [], []
        self.n = 0

    def e(self, depth=2):
        """An integer expression."""
        rng = self.rng
        k = rng.randrange(11) if depth else rng.randrange(3)
        x = lambda: self.e(depth - 1)
        if k == 0:
            return str(rng.randint(-3, 9))
        if k <= 2:
            return rng.choice(self.ints) if rng.random() < 0.97 else rng.choice(["missing", "nowhere"])
        if k == 3:
            return f"({x()} {rng.choice(['+', '-', '*'])} {x()})"
        if k == 4 and self.funcs:
            return f"{rng.choice(self.funcs)}({x()})"
        if k == 5:
            return f"len({rng.choice(self.lists)})"
        if k == 6:
            return f"({x()} if {x()} > {x()} else {x()})"
        if k == 7:
            return f"(lambda q, r={x()}: q + r)({x()})"
        if k == 8:
            return f"len([i for i in {rng.choice(self.lists)} if i != {x()}])"
        if k == 9 and self.classes:
            c = rng.choice(self.classes)
            return rng.choice([f"{c}.total", f"{c}().get({x()})", f"{c}.total + {x()}"])
        if k == 10:
            return f"{rng.choice(self.lists)}[{rng.choice(['0', '-1', '1', x()])}]"
        return x() if depth > 1 else "1"

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.rng.randint(0, 3)}"

    def block(self, lines, ind="    "):
        return [ind + l for l in lines]

    def stmt(self, depth=2, fn=False):
        rng, R = self.rng, self.restricted
        ks = ["assign", "aug", "print", "def", "class", "for", "try", "if", "list", "mutate", "raise", "del", "gen", "unpack", "closure", "walrus"]
        if not R:
            ks += ["import", "err", "shadow", "global_dict", "with", "annot", "match", "nested", "main", "sys", "decorated", "doc", "async", "star"]
        else:
            ks += ["nested"]
        k = rng.choice(ks)
        self.kinds.append(k)
        e = self.e
        if k == "assign":
            v = rng.choice(["a", "b", "seed_n", self.fresh("v")])
            if v not in self.ints:
                self.ints.append(v)
            return [f"{v} = {e()}"]
        if k == "aug":
            if rng.random() < 0.4:
                v = rng.choice(self.lists)
                return [f"alias = {v}", rng.choice([f"{v} += [{e()}]", f"{v} *= 2", f"{v} += ({e()}, 1)"]), f"print(alias, {v})"]
            return [f"{rng.choice(self.ints)} " + rng.choice([f"{rng.choice(['+=', '-=', '*=', '//=', '%=', '|=', '&=', '^='])} {e()}", "<<= 1", "**= 2", ">>= 1"])]
        if k == "print":
            if not R and rng.random() < 0.3:
                return [rng.choice([f"print({e()}, end='')", f"print({e()}, {e()}, sep='|')", "print()", f"print('é', {e()}, flush=True)", "print(*seed_l, sep=',')"])]
            return [f"print({e()}, {e()})"]
        if k == "def":
            f = rng.choice(self.funcs) if self.funcs and rng.random() < 0.3 else self.fresh("f")
            body = []
            if rng.random() < 0.3:
                v = rng.choice(["a", "b"])
                body += [f"global {v}", f"{v} = {e(1)}"]
            if rng.random() < 0.4:
                body += [f"print('in {f}', x)"]
            if rng.random() < 0.15:
                body += [f"if x > 3: raise {rng.choice(ERRS)}('from {f}')"]
            if rng.random() < 0.2:
                body += ["y = x", "for i in range(2):", "    y += i"]
            # (no recursion: the functions called existed before)
            body += [f"return {'x + ' if rng.random() < 0.7 else ''}{e(1)}"]
            if f not in self.funcs and rng.random() < 0.9:
                self.later.append(("f", f))
            body = [b.replace(f"{f}(", "abs(") for b in body]
            return [f"def {f}(x{', d=[]' if rng.random() < 0.2 else ''}):"] + self.block(body)
        if k == "closure":
            f = self.fresh("c")
            self.later.append(("f", f))
            return [f"def make(n):", f"    def inner(x):", f"        return x + n + {rng.choice(self.ints)}", "    return inner", f"{f} = make({e(1)})"]
        if k == "class":
            c = self.fresh("K")
            base = f"({rng.choice(self.classes)})" if self.classes and rng.random() < 0.4 and not R else ""
            base = "" if base == f"({c})" else base
            self.later.append(("c", c))
            body = [f"total = {e(1)}", "def get(self, x):", f"    return x + {'self.total' if rng.random() < 0.5 else rng.choice(self.ints)}"]
            if not R and rng.random() < 0.4:
                body += ["@property", "def p(self): return 1", "@staticmethod", "def s(x): return x"]
            return [f"class {c}{base}:"] + self.block(body)
        if k == "for":
            body = self.stmt(depth - 1) if depth else [f"print({e()})"]
            return [f"for i in range({rng.randint(0, 3)}):"] + self.block(body) + (["else:", "    print('else')"] if rng.random() < 0.3 else [])
        if k == "try":
            body = (self.stmt(depth - 1) if depth else []) + [f"raise {rng.choice(ERRS)}({e(1)})"] * (rng.random() < 0.5) + ["pass"]
            out = ["try:"] + self.block(body) + [f"except {rng.choice(['ValueError', 'KeyError', '(ValueError, LookupError)', 'Exception'])} as err:", "    print('caught', str(err))"]
            return out + (["finally:"] + self.block([f"print('finally', {e(0)})"]) if rng.random() < 0.4 else [])
        if k == "if":
            body = self.stmt(depth - 1) if depth else [f"a = {e()}"]
            return [f"if {e()} > {e()}:"] + self.block(body) + ["else:"] + self.block([f"b = {e()}"])
        if k == "list":
            v = rng.choice(["xs", "seed_l", self.fresh("l")])
            if v not in self.lists:
                self.lists.append(v)
            return [f"{v} = [{e()}, {e()}, {e()}]"]
        if k == "mutate":
            v = rng.choice(self.lists)
            return [rng.choice([f"{v}.append({e()})", f"{v}[0] = {e()}", f"del {v}[0]", f"{v}.insert(0, {e()})", f"{v}[1:] = [{e()}]"])]
        if k == "raise":
            return [rng.choice([f"raise {rng.choice(ERRS)}('boom')", "1 / 0", "missing", "seed_n.nope", "[][3]", "None + 1", f"{rng.choice(self.ints)}()"])] if rng.random() < 0.5 else ["pass"]
        if k == "del":
            return [f"del {rng.choice(self.ints + self.lists + self.funcs + ['missing'])}"] if rng.random() < 0.3 else ["pass"]
        if k == "gen":
            if self.gens and rng.random() < 0.6:
                return [f"for q in {rng.choice(self.gens)}:", "    print('q', q)"] + ["    break"] * (rng.random() < 0.6)
            g = self.fresh("g")
            self.gens.append(g)
            return ["def count(n):", "    for i in range(n):", f"        yield i + {rng.choice(self.ints)}", f"{g} = count({rng.randint(0, 5)})"]
        if k == "unpack":
            return [rng.choice([f"a, b = {e()}, {e()}", f"a, *xs = {e()}, {e()}, {e()}", f"(a, (b, *xs)) = ({e()}, ({e()}, {e()}))", "a, b = [1]", "a = b = 3", f"a, b = b, a"])]
        if k == "walrus":
            return [f"print((a := {e()}), [b := i for i in range(2)])"]
        if k == "nested":
            return [f"print(seed_sub('{rng.choice(['print(1)', 'a = 5', '1 / 0', 'print(a, seed_n)', 'seed_l.append(7)', 'a = 9; print(a); raise ValueError(a)'])}'))"]
        if k == "import":
            return [rng.choice(["import math", "from collections import OrderedDict as OD", "import os.path as osp", "import json, re", "import nowhere_to_be_found", "from math import pi, nope"]), "print(sorted(n for n in globals() if n in ('math', 'OD', 'osp', 're')))"]
        if k == "err":
            return ["import sys", f"print('to stderr', {e()}, file=sys.stderr)", f"sys.stdout.write('w{rng.randint(0, 9)}')"]
        if k == "shadow":
            return rng.choice([["len = lambda s: 42"], ["abs = 3"], ["del len"], ["del abs"], ["def range(n): return [n]"], ["sum = print", "sum('shadow')"], ["import builtins", "print(len is builtins.len)"]])
        if k == "global_dict":
            return [rng.choice(["print(sorted(n for n in globals() if len(n) == 1))", "globals()['a'] = 11", "print('a' in locals(), locals() is globals())", "exec('b = 77')", "print(eval('a + b'))", "print(sorted(n for n in dir() if len(n) <= 2))"])]
        if k == "with":
            return ["class CM:", "    def __enter__(self): print('enter'); return 5", f"    def __exit__(self, *x): print('exit', x[0] is None); return {rng.random() < 0.5}", "with CM() as a:"] + self.block((self.stmt(depth - 1) if depth else []) + ["a += 1"])
        if k == "annot":
            return [rng.choice(["a: int = 3", "zz: int", "print(sorted(__annotations__))", "b: 'undefined_type' = 4"])]
        if k == "match":
            return [f"match {e()}:", "    case 0 | 1: print('small')", "    case int() as a if a > 3: print('big', a)", "    case _: print('other')"]
        if k == "main":
            return ["print(__name__)", "class M: pass", "print(M.__module__, M.__qualname__)"]
        if k == "sys":
            return rng.choice([["raise SystemExit(3)"], ["import sys", "print('bye')", "sys.exit('now')"]]) if rng.random() < 0.3 else ["pass"]
        if k == "decorated":
            return ["def deco(f):", "    print('decorating')", "    return lambda *a: f(*a) + 100", "@deco", "def f0(x):", f"    return x + {e(0)}"]
        if k == "doc":
            return rng.choice([["'''a docstring'''", "print(globals().get('__doc__', 'none') is None)"], ["f0.__doc__ = 'd'"], ["# nothing"], [""], ["1 + 1"], ["None"]])
        if k == "async":
            return ["async def co(x):", "    return x + 1", "try:", "    co(3).send(None)", "except StopIteration as s:", "    print(s.value)"]
        return [f"a, b = {{**dict(u=1, v=2)}}.values()", f"print(*[*seed_l, {e()}])"]

    def snippet(self):
        self.kinds, self.later = [], []
        lines = []
        for _ in range(self.rng.choice([1, 1, 2, 3, 4])):
            lines += self.stmt()
        for k, n in self.later:
            pool = self.funcs if k == "f" else self.classes
            if n not in pool:
                pool.append(n)
        src = "\n".join(lines)
        return src + ("\n" if self.rng.random() < 0.7 else "")


INVALID = ["def f(:\n", "x = \n", "return 3\n", "nonlocal a\n", "a = 5\n  b = 3\n", "from __future__ import annotations\n", "from math import *\n", "print('a'\n", "break\n", "a = 1\nyield a\n", "'unfinished\n", "x = 1\0\n", "await a\n", "def f(a, a): pass\n", "del 3\n"]


class Reference:
    """One Python session."""

    def __init__(self, seed, label):
        self.ns = dict(seed)
        self.ns["__builtins__"] = builtins
        self.label, self.n = label, 0

    def run(self, src):
        """(stdout, stderr, error, [(snippet, line, function)])"""
        fname = f"<{self.label} {self.n}>"
        self.n += 1
        out, err = io.StringIO(), io.StringIO()
        error, frames = None, []
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                builtins.exec(builtins.compile(src, fname, "exec", dont_inherit=True), self.ns)
            except BaseException as e:
                error = e
                frames = [(f.filename, f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith("<") and not f.filename.startswith(("<string", "<frozen"))]
        return out.getvalue(), err.getvalue(), error, frames


def data(v, depth=0):
    """A description of a value that can be compared across sessions."""
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return (type(v).__name__, repr(v))
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__, [data(x, depth + 1) for x in v])
    if isinstance(v, dict) and depth < 4:
        return ("dict", [(data(k, depth + 1), data(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, type):
        return ("class", v.__name__, v.__module__, sorted(n for n in vars(v) if not n.startswith("__")), data(getattr(v, "total", None)))
    if isinstance(v, types.FunctionType):
        return ("function", v.__name__, v.__qualname__, v.__module__, data(v.__defaults__, depth + 1))
    return ("object", type(v).__name__)


class Pair:
    """A session and its reference."""

    def __init__(self, c, label, seed, rseed, restricted):
        self.c, self.label, self.restricted = c, label, restricted
        self.host = seed
        self.before = dict(seed)
        self.session = ReplSession(seed if c.rng.random() < 0.5 else collections.ChainMap(seed))
        self.ref = Reference(rseed, label)
        self.files = {}

    def decode(self, src):
        return CODE.validate_python(src, context={})


def describe(files, frames):
    return [(files.get(f, f), l, n) for f, l, n in frames]


def run(c, restricted):
    rng = c.rng
    pairs = []
    state = {"level": 0}

    def host_seed(real):
        shared = [3, 1, 2]
        out = []
        for i in range(n_sessions):
            def sub(src, i=i, real=real):
                """Runs a snippet in another session."""
                j = (i + 1) % n_sessions
                if j == i or state["level"] > 0:
                    return "no"
                state["level"] += 1
                try:
                    p = pairs[j]
                    if real:
                        code = p.decode(src)
                        p.files[code.co_filename] = f"<{p.label} {len(p.files)}>"
                        r = p.session.exec_code(code)
                        o = r.split("Traceback (most recent")[0]
                        c.count("nested")
                        return o
                    o, e, error, _ = p.ref.run(src)
                    return o + e
                finally:
                    state["level"] -= 1

            out.append({"seed_n": 4, "seed_l": shared, "seed_sub": sub, "__name__": "host_module"})
        return out

    n_sessions = rng.choice([1, 2, 2, 3])
    seeds, rseeds = host_seed(True), host_seed(False)
    for i in range(n_sessions):
        pairs.append(Pair(c, f"session{i}", seeds[i], rseeds[i], restricted))
    gens = [Gen(rng, restricted) for _ in range(n_sessions)]
    for step in range(rng.randint(4, 14)):
        i = rng.randrange(n_sessions)
        p, g = pairs[i], gens[i]
        if rng.random() < 0.06:
            bad = rng.choice(INVALID)
            names = dict(p.session.locals)
            c.raises(Exception, lambda: p.decode(bad), f"code that does not compile is accepted: {bad!r}")
            c.check(dict(p.session.locals) == names, "rejected code has effects")
            c.count("rejected")
            continue
        src = g.snippet()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error", SyntaxWarning)
                builtins.compile(src, "?", "exec")
        except (SyntaxError, SyntaxWarning):
            continue
        c.info(f"--- {p.label}\n{src}")
        c.key((restricted, tuple(g.kinds)))
        c.count("snippets")
        c.count("restricted", restricted)
        step_(c, p, src)
        for q in pairs:
            compare(c, q)
    for q in pairs:
        c.eq(set(q.host), set(q.before), "a session binds variables of its host")
        c.check(all(q.host[k] is q.before[k] for k in q.before), "a session rebinds a variable of its host")


def step_(c, p, src):
    code = p.decode(src)
    c.eq(CODE.dump_python(code), src, "a code object encodes to other source")
    p.files[code.co_filename] = f"<{p.label} {p.ref.n}>"
    out, err, error, frames = p.ref.run(src)
    streams = sys.stdout, sys.stderr, sys.__stdout__, sys.displayhook
    bi = dict(vars(builtins))
    exited = None
    start = len(p.session.stdout.getvalue()), len(p.session.stderr.getvalue())
    try:
        got = p.session.exec_code(code)
    except SystemExit as e:
        exited = e
        got = p.session.stdout.getvalue()[start[0] :] + p.session.stderr.getvalue()[start[1] :]
    except Violation:
        raise
    except BaseException as e:
        c.fail(f"the session lets through an error: {e!r}")
    now = sys.stdout, sys.stderr, sys.__stdout__, sys.displayhook
    c.check(all(x is y for x, y in zip(now, streams)), "the host's streams are replaced")
    after = dict(vars(builtins))
    c.check(after.keys() == bi.keys() and all(after[k] is bi[k] for k in bi), "the host's builtins change", changed=sorted(k for k in after.keys() | bi.keys() if after.get(k) is not bi.get(k)))
    if isinstance(error, SystemExit):
        c.check(exited is not None and exited.code == error.code, "an exit is swallowed", got=got)
        c.count("exits")
        c.eq(got, out + err, "the output of a snippet that exits")
        return
    c.check(exited is None, "a snippet exits that should not")
    c.check(got.startswith(out + err), "another output", got=got[:600], want=(out + err)[:600])
    rest = got[len(out + err) :]
    if error is None:
        c.eq(rest, "", "output of a snippet without errors")
        return
    c.count("errors")
    c.check(rest.startswith("Traceback (most recent call last):\n"), "an error is not reported", got=got[-600:], want=repr(error))
    last = rest.rstrip("\n").split("\n")[-1]
    want = traceback.format_exception_only(error)[-1].rstrip("\n")
    if "in session" not in want and error.__context__ is None:
        plain = lambda t: re.sub(r"\.? (Or did|Did) you (mean|forget).*", "", t)
        c.eq(plain(last), plain(want), "another error")
    if error.__context__ is None and error.__cause__ is None:
        got_frames = [(p.files.get(f, f), int(l), n) for f, l, n in re.findall(r'File "(<[^"]*>)", line (\d+), in (\S+)', rest) if not f.startswith(("<string", "<frozen"))]
        if p.restricted:
            # (RestrictedPython misplaces class statements)
            got_frames, frames = [(f, n) for f, _, n in got_frames], [(f, n) for f, _, n in frames]
        c.eq(got_frames, frames, "the error is reported at other places")


def compare(c, p):
    real = {k: v for k, v in p.session.locals.items() if k != "__builtins__"}
    ref = {k: v for k, v in p.ref.ns.items() if k != "__builtins__"}
    if p.restricted:
        # (RestrictedPython gives every class and module its own marks)
        ref.pop("__annotations__", None)
    c.check(real.keys() == ref.keys(), "other names are bound", got=sorted(real.keys() - ref.keys()), want=sorted(ref.keys() - real.keys()))
    for k in ref:
        if k == "seed_sub":
            continue
        c.count("data_compared")
        c.eq(data(real[k]), data(ref[k]), f"the value of {k}")


def sessions(c):
    with handler(UnsafeEvalProvider()):
        run(c, False)


def restricted(c):
    with handler(RestrictedEvalProvider()):
        run(c, True)


WORLD = """
@Template.define
def outer(q: int) -> str:
    '''Work on {q}'''
    raise NotHandled

@Template.define
def helper(z: int) -> str:
    '''Help with {z}'''
    raise NotHandled
"""


def llm(c):
    """Sessions of template calls."""
    rng = c.rng
    ns = {"Template": Template, "NotHandled": NotHandled, "__name__": "llm_world", "xs": [5, 6, 7], "seed_l": [3, 1, 2], "seed_n": 4, "a": 1, "b": 2}
    fname = f"<llm world {next(_n)}>"
    linecache.cache[fname] = (len(WORLD), None, WORLD.splitlines(True), fname)
    builtins.exec(builtins.compile(WORLD, fname, "exec"), ns)
    outer = ns["outer"]
    seed_ref, xs_ref = [3, 1, 2], [5, 6, 7]

    class Conversation:
        def __init__(self, kind, arg):
            self.kind, self.left = kind, rng.randint(1, 4)
            self.gen = Gen(rng, False)
            self.ref = Reference({"seed_n": 4, "seed_l": seed_ref, ("q" if kind == "outer" else "z"): arg, "__name__": "llm_world", "a": 1, "b": 2, "xs": xs_ref}, "llm")
            self.expected = None
            self.bound = set()

    stack = []

    def respond(req, n):
        last = req.messages[-1]
        if last["role"] == "user":
            kind = "outer" if "Work on" in content_text(last["content"]) else "helper"
            stack.append(Conversation(kind, 5 if kind == "outer" else 6))
        conv = stack[-1]
        if conv.expected is not None:
            got = content_text(last["content"])
            e = conv.expected
            if isinstance(e, tuple):
                out, error = e
                if error is None:
                    c.eq(got, out, "the output of a snippet")
                else:
                    c.check(got.startswith(out) and "Traceback" in got, "the error of a snippet", got=got[:500], want=out)
            else:
                c.check("".join(e.split()) == "".join(got.split()), "another answer", got=got, want=e)
            conv.expected = None
        c.check("exec_code" in req.tool_names, "no exec_code tool", names=req.tool_names)
        if readers:
            missing = conv.bound - set(req.tool_names)
            c.check(not missing, "variables bound by the session cannot be read", missing=missing)
        if conv.left == 0:
            stack.pop()
            if stack:
                stack[-1].expected = "all done"
            return text("all done")
        conv.left -= 1
        if len(stack) < 3 and rng.random() < 0.2:
            return calls((f"call_{n}", "helper" if conv.kind == "outer" else "outer", '{"z": 6}' if conv.kind == "outer" else '{"q": 5}'))
        if readers and rng.random() < 0.4:
            v = rng.choice([k for k, x in conv.ref.ns.items() if k in req.tool_names and (type(x) is int or type(x) is list and x and all(type(i) is int for i in x))])
            conv.expected = json.dumps(conv.ref.ns[v])
            c.count("variables_read")
            return calls((f"call_{n}", v, "{}"))
        conv.gen.kinds = []
        while True:
            src = conv.gen.snippet()
            if any(k in ("nested", "sys", "main", "global_dict", "import", "err", "del", "shadow", "annot", "doc", "async") for k in conv.gen.kinds) or re.search(r"\b(seed_sub|make|count|CM|deco|missing|nowhere)\b", src):
                continue
            break
        c.info("--- " + conv.kind + "\n" + src)
        c.count("llm_snippets")
        c.key(("llm", tuple(conv.gen.kinds), len(stack)))
        out, err, error, _ = conv.ref.run(src)
        conv.expected = (out + err, error)
        if error is None and rng.random() < 0.3:
            src += "\nzz_new = 5\n"
            conv.ref.ns["zz_new"] = 5
            conv.bound.add("zz_new")
        return calls((f"call_{n}", "exec_code", json.dumps({"code": src})))

    readers = rng.random() < 0.4
    before = dict(ns)
    with contextlib.ExitStack() as st:
        for h in [LiteLLMProvider(), UnsafeEvalProvider(), {type_check: lambda *a, **k: None}, PythonRepl()] + [LexicalReaders()] * readers + [Model(respond)]:
            st.enter_context(handler(h))
        for _ in range(rng.randint(1, 2)):
            stack.clear()
            c.eq(outer(5), "all done", "the answer")
    c.eq((ns["seed_l"], ns["xs"]), (seed_ref, xs_ref), "lists of the host")
    c.check(all(ns.get(k) is before[k] for k in before) and len(ns) == len(before), "a session changes variables of its host")
    del linecache.cache[fname]


SECTIONS = [
    Section("sessions", sessions, 120, 12000, 3),
    Section("restricted", restricted, 60, 5000, 2),
    Section("llm", llm, 40, 2500, 2),
]
