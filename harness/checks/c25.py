"""C25: a template sees its lexical scope, and itself only when declared recursive."""
import builtins
import contextlib
import inspect
import itertools
import linecache
import warnings

from harness.core import Section
from harness.llm import Model, boxed, calls, content_text, text

from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.completions import LexicalReaders, LiteLLMProvider, collect_tools
from effectful.handlers.llm.template import IsRecursive
from effectful.ops.semantics import fwd, handler
from effectful.ops.types import NotHandled

warnings.simplefilter("ignore")

RULE = (
    "Random programs: nested functions (same names at several levels, recursion, callers of the same name), classes, agents, methods, "
    "class and static methods, loops, conditionals; variables, tools, templates and agents bound, rebound, shadowed and deleted under "
    "a small pool of names before and after the definition, through global, nonlocal and closures called after the scope has "
    "returned; templates defined by decorators and through helpers elsewhere. Every program runs twice: a twin, in which a "
    "function at the place of each template reads every name of the pool, tells what Python's scoping shows there; the other calls the "
    "templates and the monitor records the environment, the tools offered and what readers return. Distinct by the kinds of scope and binding."
)
ASSUMPTIONS = [
    "A name that is local to an enclosing function but unbound at the moment is not compared (Python hides outer bindings of it).",
    "A name declared global in a function inside of another function that binds it locally is not generated.",
    "Under its own names a template that is not recursive reads as missing or None.",
    "Definitions of templates run in the function that encloses them or in helpers called by it.",
]
NEED = {"calls": 700, "names_compared": 8000, "visible": 2700, "hidden": 4500, "tools_offered": 700, "agent_tools": 380, "self_offered": 90, "self_withheld": 300, "read": 180, "late_calls": 300}

_n = itertools.count()
VARS = ["a", "b", "c", "d"]
TOOLS = ["t0", "t1", "t2"]
AGENTS = ["ag", "ah"]
POOL = VARS + TOOLS + AGENTS + ["gl", "target", "other"]
PRELUDE = """
import typing, dataclasses
from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.template import IsRecursive
from effectful.ops.types import NotHandled

class Helper(Agent):
    '''A helper'''
    def __init__(self, label):
        self.label = label
    @Tool.define
    def assist(self) -> str:
        '''assist'''
        return self.label
    @Template.define
    def chat(self) -> str:
        '''chat'''
        raise NotHandled

class Helper2(Helper):
    '''Another helper'''
    @Tool.define
    def assist(self) -> str:
        '''assist more'''
        return self.label + '!'
    @Tool.define
    def extra(self) -> str:
        '''extra'''
        return 'extra'
    def plain(self):
        return 1
    @property
    def failing(self):
        raise RuntimeError('a property was evaluated')

@dataclasses.dataclass(eq=False)
class Data(Agent):
    '''A dataclass'''
    label: str
    @Tool.define
    def assist(self) -> str:
        '''assist'''
        return self.label

def tool(label):
    def f() -> str:
        return label
    f.__doc__ = 'Tool ' + label
    f.__name__ = f.__qualname__ = label
    return Tool.define(f)
"""


class Prog:
    """A random program; PROBE lines exist in the twin only."""

    def __init__(self, rng):
        self.rng, self.v, self.k = rng, itertools.count(), itertools.count()
        self.kinds = []
        self.templates = 0

    def fresh(self):
        return f"'v{next(self.v)}'"

    def value(self, name):
        if name in VARS:
            return self.fresh()
        if name in TOOLS:
            return self.rng.choice([f"tool({self.fresh()})", f"tool({self.fresh()})", "t0", self.fresh()]) if name != "t0" else f"tool({self.fresh()})"
        return f"{self.rng.choice(['Helper', 'Helper2', 'Data'])}({self.fresh()})"

    def binding(self):
        name = self.rng.choice(VARS + VARS + TOOLS + AGENTS)
        v = self.value(name)
        if v == "t0":  # (an alias; t0 may be unbound)
            return [f"{name} = tool({self.fresh()})"] if self.rng.random() < 0.5 else ["try:", f"    {name} = t0", "except NameError:", "    pass"]
        return [f"{name} = {v}"]

    def in_class(self):
        name = self.rng.choice(VARS + AGENTS)
        return [f"{name} = {self.value(name)}"]

    def template(self, cls=False):
        """Lines that define a template and register it."""
        rng = self.rng
        self.templates += 1
        name = rng.choice(["target", "target", "other"])
        rec = rng.random() < 0.25
        ret = "typing.Annotated[str, IsRecursive]" if rec else "str"
        params = [p for p in ["a: str", "zz: int"] if rng.random() < 0.25]
        k = next(self.k)
        doc = f"'''Template {k}'''"
        self.kinds.append(("template", rec, len(params), bool(cls)))
        see = "SEE({" + ", ".join(f"'{n}': lambda: {n}" for n in POOL) + "})"
        if not cls:
            sig = ", ".join(params)
            how = rng.choice(["decorator"] * 4 + ["helper", "direct"])
            body = [f"    {doc}", "    raise NotHandled"]
            probe = [f"def probe{k}({sig}): return {see} #PROBE"]
            if how == "decorator":
                d = ["@Template.define", f"def {name}({sig}) -> {ret}:"] + body
            elif how == "helper":
                d = [f"def {name}({sig}) -> {ret}:"] + body + [f"{name} = DEFINE_{rng.choice(['f', 'g', 'rec', 'h'])}({name})"]
            else:
                d = [f"def {name}({sig}) -> {ret}:"] + body + [f"{name} = Template.define({name})"]
            return d + probe + [f"REG({k}, {name}, {rec}, {len(params)}) #REAL", f"REG({k}, probe{k}, {rec}, {name}) #PROBE"]
        # in a class
        C = rng.choice([f"C{k}", f"C{k}", "f", "g"])
        kind = rng.choice(["method", "method", "static", "class"])
        first = {"method": ["self"], "static": [], "class": ["cls"]}[kind]
        sig = ", ".join(first + params)
        deco = {"method": [], "static": ["@staticmethod"], "class": ["@classmethod"]}[kind]
        agent = rng.random() < 0.5
        d = [f"class {C}{'(Agent)' if agent else ''}:", f"    '''class {k}'''"]
        inner = []
        for _ in range(rng.randint(0, 2)):
            inner += self.in_class()
        inner += ["@Template.define"] + deco + [f"def {name}({sig}) -> {ret}:", f"    {doc}", "    raise NotHandled"]
        inner += [f"{x} #PROBE" for x in deco + [f"def probe{k}({sig}): return {see}"]]
        for _ in range(rng.randint(0, 1)):
            inner += self.in_class()
        # (bindings of the class body must not replace the template)
        d += ["    " + l for l in inner]
        obj = C if kind == "class" or (kind == "static" and rng.random() < 0.5) else f"{C}()"
        self.kinds.append((kind, agent))
        return d + [f"REG({k}, {obj}.{name}, {rec}, {len(params)}) #REAL", f"REG({k}, {obj}.probe{k}, {rec}, {obj}.{name}) #PROBE"]

    def block(self, depth, where):
        rng = self.rng
        L = []
        if where == "function":
            if rng.random() < 0.25:
                L += ["global gl", f"gl = {self.fresh()}"]
                self.kinds.append(("global",))
        elif rng.random() < 0.5:
            L += [f"gl = {self.fresh()}"]
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(["bind", "bind", "bind", "template", "template", "class", "def", "def", "call", "loop", "if", "del", "recursive"])
            if depth == 0 and kind in ("def", "recursive"):
                kind = "template"
            if kind == "bind":
                L += self.binding()
            elif kind == "template":
                L += self.template()
            elif kind == "class":
                L += self.template(cls=True)
            elif kind == "def":
                f = rng.choice(["f", "g", "f"])
                self.kinds.append(("def", depth))
                param = rng.choice(["", "", rng.choice(VARS)])
                body = self.block(depth - 1, "function")
                L += [f"def {f}({param}):"] + ["    " + l for l in body]
                # a closure that rebinds a variable of the function later
                locs = sorted({l.split(" = ")[0] for l in body if l.split(" = ")[0] in VARS} | ({param} if param else set()))
                if locs and rng.random() < 0.6:
                    n = rng.choice(locs)
                    L += ["    def setter(v):", f"        nonlocal {n}", f"        {n} = v", "    SETTERS.append(setter)"]
                    self.kinds.append(("setter",))
                for _ in range(rng.choice([1, 1, 2])):
                    L.append(f"{f}({self.fresh() if param else ''})")
            elif kind == "recursive":
                self.kinds.append(("recursive",))
                n = rng.choice(VARS)
                body = self.template() if rng.random() < 0.7 else self.template(cls=True)
                when = rng.choice(["before", "after"])
                self_call = ["if n > 0:", f"    rec(n - 1, {self.fresh()})"]
                L += [f"def rec(n, {n}):"] + ["    " + l for l in (self_call + body if when == "before" else body + self_call)] + [f"rec(2, {self.fresh()})"]
            elif kind == "call":
                L.append(f"CALL({rng.random():.4f})")
            elif kind == "loop":
                n = rng.choice(VARS)
                L += [f"for {n} in ({self.fresh()}, {self.fresh()}):"] + ["    " + l for l in (self.template() if rng.random() < 0.5 else self.binding())]
            elif kind == "if":
                L += [f"if {rng.random() < 0.5}:"] + ["    " + l for l in self.binding()] + ["else:"] + ["    " + l for l in self.binding()]
            elif kind == "del":
                n = rng.choice(VARS + TOOLS)
                L += ["try:", f"    del {n}", "except NameError:", "    pass"]
        L.append(f"CALL({rng.random():.4f})")
        return L

    def source(self):
        lines = self.block(self.rng.choice([1, 2, 2, 3]), "module")
        return "\n".join(lines) + "\n"


def split(src, probe):
    drop, keep = ("#REAL", "#PROBE") if probe else ("#PROBE", "#REAL")
    return "\n".join(l.replace(" " + keep, "") for l in src.split("\n") if not l.endswith(drop))


def describe(v):
    if isinstance(v, (Tool, Template)):
        return ("tool", v.__prompt_template__ if isinstance(v, Template) else v.__doc__)
    if isinstance(v, Agent):
        return ("agent", type(v).__name__, getattr(v, "label", None))
    return v


MISSING, UNBOUND = ("missing",), ("unbound",)


def helpers():
    """Functions that define templates, with names of the enclosing functions and locals of their own."""
    ns = {"Template": Template}
    for n in ("f", "g", "rec", "h"):
        builtins.exec(f"def {n}(fn, a='wrong', t0='wrong'):\n    b = c = d = t1 = t2 = ag = ah = other = 'wrong'\n    return Template.define(fn)\nDEFINE_{n} = {n}\n", ns)
    return {k: v for k, v in ns.items() if k.startswith("DEFINE_")}


HELPERS = helpers()


def see(names):
    """What Python's scoping shows."""
    out = {}
    for n, get in names.items():
        try:
            out[n] = get()
        except NameError as e:
            out[n] = UNBOUND if "free variable" in str(e) or "local variable" in str(e) else MISSING
    return out


def run(src, fname, namespace, call, setters):
    registered, log = [], []

    def CALL(u):
        if registered:
            log.append(call(*registered[int(u * len(registered))]))

    ns = {"REG": lambda *a: registered.append(a), "CALL": CALL, **HELPERS, "SEE": see, "SETTERS": setters, "__name__": namespace}
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    builtins.exec(builtins.compile(PRELUDE + src, fname, "exec"), ns)
    return ns, registered, log


def programs(c):
    rng = c.rng
    prog = Prog(rng)
    src = prog.source()
    while not 1 <= prog.templates <= 14:
        prog = Prog(rng)
        src = prog.source()
    c.info(src)
    name = f"c25_{next(_n)}"
    fname = f"<{name}>"

    def arguments(f):
        return ["ARG" if p == "a" else 5 for p in inspect.signature(f).parameters]

    # the twin
    psetters = []
    _, preg, plog = run(split(src, True), fname, name, lambda k, f, rec, t: (k, f(*arguments(f)), t), psetters)
    readers = rng.random() < 0.35
    rows = []

    def call(k, t, rec, n):
        seen = []

        def collect(env):
            seen.append({x: describe(env[x]) if x in env else MISSING for x in POOL})
            return fwd()

        read = {}

        def respond(req, i):
            if i > 0 and read:
                read["got"] = content_text(req.messages[-1]["content"])
                return boxed("done") if rec else text("done")
            if readers and not read:
                cand = [x for x in VARS if x in req.tool_names]
                if cand:
                    read["name"] = rng.choice(cand)
                    return calls((f"call_{i}", read["name"], "{}"))
            return boxed("done") if rec else text("done")

        model = Model(respond)
        hs = [LiteLLMProvider()] + [LexicalReaders()] * readers + [{collect_tools: collect}, model]
        with contextlib.ExitStack() as st:
            for h in hs:
                st.enter_context(handler(h))
            t(*arguments(t))
        req = model.requests[0]
        tools = [(x["function"]["name"], x["function"].get("description", "")) for x in req.tools or []]
        return (k, t, rec, seen, tools, read, arguments(t))

    setters = []
    ns, reg, log = run(split(src, False), fname, name, call, setters)
    c.eq([(r[0]) for r in reg], [r[0] for r in preg], "(templates registered)")
    # later, after every function has returned
    for _ in range(rng.randint(1, 4)):
        if setters and rng.random() < 0.6:
            i = rng.randrange(len(setters))
            v = prog.fresh()
            setters[i](v)
            psetters[i](v)
        if reg:
            i = rng.randrange(len(reg))
            log.append(call(*reg[i]))
            plog.append((preg[i][0], preg[i][1](*arguments(preg[i][1])), preg[i][3]))
            c.count("late_calls")
    c.check(len(log) == len(plog), "(calls)")
    for (k, t, rec, seen, tools, read, ars), (pk, raw, twin) in zip(log, plog):
        want = {x: describe(v) for x, v in raw.items()}
        c.check(k == pk, "(the same template)")
        c.count("calls")
        c.info(f"template {k}")
        own = ("tool", t.__prompt_template__)
        c.check(describe(twin) == own, "(the template of the twin)")
        c.check(len(seen) >= 1, "no tools are collected")
        for x in POOL:
            got, w = seen[0][x], want[x]
            c.count("names_compared")
            if w == UNBOUND:
                continue
            if raw[x] is twin and not rec:
                c.check(got in (None, MISSING), f"{x} in template {k}, which does not see itself", got=got)
                continue
            c.eq(got, w, f"{x} as seen by template {k}")
            c.count("hidden" if w == MISSING else "visible")
        # the tools offered: each visible one once, under one of its names
        visible = {}
        unknown = {x for x in POOL if want[x] == UNBOUND}
        for x, v in raw.items():
            if isinstance(v, (Tool, Template)):
                visible.setdefault(v, set()).add(x)
        offered = {tn: doc for tn, doc in tools if tn in POOL and not doc.startswith("Reads the value")}
        for v, names in visible.items():
            doc = describe(v)[1]
            under = [x for x in names if x in offered]
            if v is twin and not rec:
                c.check(not under, f"template {k} is offered to itself", under=under)
                c.count("self_withheld")
                continue
            c.check(len(under) == 1 or (not under and unknown), f"the tool {doc!r} in template {k}", offered=under, visible=sorted(names))
            c.check(all(offered[x] == doc for x in under), f"another tool is offered as {under}", doc=doc)
            c.count("tools_offered")
            if v is twin:
                c.count("self_offered")
        extra = set(offered) - set().union(*visible.values(), unknown)
        c.check(not extra, f"tools offered to template {k} that it cannot see", extra=extra)
        # the methods of agents
        labels = {}
        for x, w in want.items():
            if isinstance(w, tuple) and w[0] == "agent" and w[2] is not None:
                labels.setdefault(w, set()).add(x)
        dunder = [(tn, doc) for tn, doc in tools if tn.split("__")[0] in AGENTS and "__" in tn]
        for w, names in labels.items():
            methods = {"assist": "assist more" if w[1] == "Helper2" else "assist", } | ({"chat": "chat"} if w[1] != "Data" else {}) | ({"extra": "extra"} if w[1] == "Helper2" else {})
            for m, d in methods.items():
                got = [tn for tn, doc in dunder if tn.split("__")[0] in names and tn.split("__")[1] == m and doc == d]
                c.check(len(got) == 1, f"the tool {m} of {sorted(names)} in template {k}", got=dunder)
                c.count("agent_tools")
        known = set().union(*labels.values()) if labels else set()
        c.check(all(tn.split("__")[0] in known | unknown for tn, _ in dunder), f"methods of agents template {k} cannot see", got=dunder)
        c.check(len({tn for tn, _ in tools}) == len(tools), "a name is offered twice")
        # methods of the agent the template belongs to
        mine = [tn for tn, doc in tools if tn.startswith("self__") and doc == t.__prompt_template__]
        if getattr(t, "__history__", None) is not None:
            c.check(bool(mine) == rec or (rec and t.__prompt_template__ in offered.values()), f"template {k} as a tool of its agent", got=mine)
        # variables that are read
        if readers:
            for x in VARS:
                if want[x] == UNBOUND:
                    continue
                c.check((x in dict(tools)) == (want[x] != MISSING), f"a reader of {x} in template {k}", tools=sorted(dict(tools)))
            for x in AGENTS:
                c.check(x not in dict(tools), f"an agent is offered as a value in template {k}")
            if read:
                c.check(want[read["name"]] == UNBOUND or read["got"].strip('"') == want[read["name"]], f"reading {read['name']} in template {k}", got=read.get("got"), want=want[read["name"]])
                c.count("read")
        c.key((rec, tuple(sorted((x, w[0] if isinstance(w, tuple) else "v") for x, w in want.items() if w != MISSING))))
    # tools of the templates without a call
    for k, t, rec, n in reg[-3:]:
        i = [r[0] for r in reg].index(k)
        direct = t.tools
        c.check(rec or not any(x is t for x in direct.values()), "a template lists itself")
        c.check(len(set(map(id, direct.values()))) == len(direct), "a tool is listed twice")
    c.key(tuple(prog.kinds))
    linecache.cache.pop(fname, None)


SECTIONS = [Section("programs", programs, 260, 20000, 6)]
