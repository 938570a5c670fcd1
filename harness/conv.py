"""Random worlds of tools, templates and agents, and a monitor that talks to them as
the model: it invents every answer (good, malformed or failing), observes every
request and tool execution, and knows what each of them has to be."""
import copy
import dataclasses
import itertools
import json
import linecache

import pydantic
import tenacity

from harness.checks.c20 import DEEP, matches
from harness.core import Violation
from harness.llm import Model, calls, text, well_formed
from harness.llmtypes import D, FIELDS, gen_type, gen_value, leaf, same

from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.completions import (
    DEFAULT_SYSTEM_PROMPT,
    LiteLLMProvider,
    ResultDecodingError,
    RetryLLMHandler,
    ToolCallDecodingError,
    ToolCallExecutionError,
    call_assistant,
)
from effectful.handlers.llm.encoding import Encodable
from effectful.handlers.llm.template import IsRecursive
from effectful.ops.semantics import fwd, handler
from effectful.ops.syntax import ObjectInterpretation, implements
from effectful.ops.types import NotHandled

_n = itertools.count()


class BaseFailure(Exception):
    pass


class ToolFailure(BaseFailure):
    pass


class OtherFailure(BaseFailure, LookupError):
    pass


class ModelFailure(Exception):
    pass


class Interrupt(BaseException):
    pass


def encode(d, v):
    return pydantic.TypeAdapter(Encodable[d.ty]).dump_python(v, mode="json", context={})


def simple(rng):
    """A type whose values are told apart from everything malformed."""
    d = gen_type(rng, rng.choice([0, 0, 1, 2]), image=False)
    return leaf("int") if d.kind in ("none",) or "idict" in repr(d) else d


ERRORS = (ToolCallExecutionError, ToolCallDecodingError, ResultDecodingError, ModelFailure, Interrupt)


class Through(Exception):
    """An error of the code under test that a tool lets through."""

    def __init__(self, error):
        self.error = error


class Msg:
    """What a message has to be."""

    def __init__(self, role, content=None, tool_call_id=None, call_ids=(), raw=None):
        self.role, self.content, self.tool_call_id, self.call_ids, self.raw = role, content, tool_call_id, tuple(call_ids), raw
        self.id = None

    def problem(self, m):
        if m["role"] != self.role:
            return f"a {m['role']} message where a {self.role} message is due"
        if self.id is not None and m["id"] != self.id:
            return f"the identifier of a {self.role} message changed"
        if self.role == "tool" and m["tool_call_id"] != self.tool_call_id:
            return f"an answer to {m['tool_call_id']!r} where {self.tool_call_id!r} is due"
        if self.role == "assistant" and tuple(t["id"] for t in m.get("tool_calls") or []) != self.call_ids:
            return "an assistant message with other tool calls"
        if self.content is not None:
            p = self.content(m["content"])
            if p:
                return f"{self.role} message: {p}"
        self.id = m["id"]
        return None

    def __repr__(self):
        return f"{self.role}{list(self.call_ids) if self.call_ids else ''}{'->' + str(self.tool_call_id) if self.tool_call_id else ''}"


def blocks_text(content):
    return content if isinstance(content, str) else "" if content is None else "".join(b["text"] if b["type"] == "text" else json.dumps(b) for b in content)


def is_text(want):
    return lambda got: None if blocks_text(got) == want else f"content {blocks_text(got)!r} instead of {want!r}"


def has_text(*want):
    return lambda got: next((f"content lacks {w!r}" for w in want if w not in blocks_text(got)), None)


def spells(v):
    def check(got):
        t = blocks_text(got)
        if isinstance(v, str) and t == str(v):
            return None
        for read in (lambda: t, lambda: json.loads(t)):
            try:
                if matches(read(), v):
                    return None
            except ValueError:
                pass
        return f"content {t[:300]!r} does not spell {v!r}"

    return check


class Spec:
    """A tool or template of the world."""

    def __init__(self, name, kind, params, ret, owner=None, recursive=False, static=False):
        self.name, self.kind, self.params, self.ret, self.owner, self.recursive, self.static = name, kind, params, ret, owner, recursive, static
        self.key = f"{owner.cls}.{name}" if owner else name


class AgentSpec:
    def __init__(self, cls, names):
        self.cls, self.names, self.members = cls, names, []  # names: variables bound to instances


class Act:
    """A running template call."""

    def __init__(self, spec, agent, args, expected):
        self.spec, self.agent, self.args, self.expected = spec, agent, args, expected
        self.pending = []  # (id, target, kwargs) still to be executed
        self.temp = []
        self.attempts = 0
        self.requests = 0
        self.direct = False  # called by the body of a tool
        self.outcome = None


class World:
    def __init__(self, c, tools=(0, 4), templates=(1, 3), agents=(0, 2), retry=None, readers=False, bad=0.0, tool_fail=0.0, model_fail=0.0, inner=0.0, budget=14, fanout=3):
        rng = self.rng = c.rng
        self.c, self.bad, self.tool_fail, self.model_fail, self.inner, self.budget, self.fanout = c, bad, tool_fail, model_fail, inner, budget, fanout
        self.retry = retry  # dict(attempts=, catch=, traceback=) or None
        self.readers = readers
        self.stack, self.done, self.events = [], None, []
        self.requests = self.executed = self.answered = 0
        self.errors = []
        self.ids = itertools.count()
        self.ns = {"Template": Template, "Tool": Tool, "NotHandled": NotHandled, "Agent": Agent, "BODY": self.body, "IsRecursive": IsRecursive, "__name__": f"world_{next(_n)}"}
        import typing

        self.ns["Annotated"] = typing.Annotated
        self.specs = {}
        lines = ["", ""]
        tnames = rng.sample(["frob", "lookup", "add_2", "search", "_hidden", "zeta"], rng.randint(*tools))
        for t in tnames:
            lines += self.define(Spec(t, "tool", self.gen_params(rng.randint(0, 3)), simple(rng)), "")
        for t in rng.sample(["write", "plan", "judge", "aaa", "summary"], rng.randint(*templates)):
            lines += self.define(Spec(t, "template", self.gen_params(rng.randint(0, 2)), self.gen_ret(), recursive=rng.random() < 0.35), "")
        self.agents = {}
        for i in range(rng.randint(*agents)):
            A = AgentSpec(f"Bot{i}", rng.sample([f"bot{i}", f"zed{i}", f"alpha{i}", f"b{i}x"], rng.choice([1, 1, 2])))
            base = "Agent"
            if i and rng.random() < 0.3:
                base = "Bot0"
                A.members += [s for s in self.specs.values() if s.owner and s.owner.cls == "Bot0"]
            if rng.random() < 0.4:
                self.ns["dataclass"] = dataclasses.dataclass
                lines.append("@dataclass")
            lines += [f"class {A.cls}({base}):", f"    '''You are {A.cls}.'''", "    @property", "    def broken(self):", "        raise RuntimeError('broken')"]
            for t in rng.sample(["note", "fetch", "calc"], rng.randint(0, 2)):
                lines += self.define(Spec(t, "tool", self.gen_params(rng.randint(0, 2)), simple(rng), A, static=rng.random() < 0.25), "    ")
            for t in rng.sample(["send", "ask", "review"], rng.randint(1, 2)):
                lines += self.define(Spec(t, "template", self.gen_params(rng.randint(0, 2)), self.gen_ret(), A, rng.random() < 0.35), "    ")
            # (redefinitions replace inherited members)
            byname = {}
            for s in A.members:
                byname[s.name] = s
            A.members = list(byname.values())
            for v in A.names:
                lines.append(f"{v} = {A.cls}()")
                self.agents[v] = A
        src = "\n".join(lines) + "\n"
        fname = f"<world {next(_n)}>"
        linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
        c.info(src)
        exec(compile(src, fname, "exec"), self.ns)
        del linecache.cache[fname]
        self.history = {v: [] for v in self.agents}
        self.variables = {}
        for v in rng.sample(["limit", "title", "items"], rng.randint(0, 2) if readers else 0):
            self.variables[v] = self.ns[v] = gen_value(leaf(rng.choice(["int", "str", "bool"])), rng)
        # targets: what can be called, by every name it may be offered under
        self.targets = {}  # (key, agent variable or None) -> spec
        for s in self.specs.values():
            if s.owner is None:
                self.targets[(s.key, None)] = s
        for v, A in self.agents.items():
            for s in A.members:
                if s.static:
                    self.targets[(s.key, None)] = s
                else:
                    self.targets[(s.key, v)] = s

    # -- generation of the world
    def gen_params(self, n):
        return {f: simple(self.rng) for f in self.rng.sample([f for f in FIELDS if f != "name"], n)}

    def gen_ret(self):
        return leaf("str") if self.rng.random() < 0.4 else simple(self.rng)

    def define(self, s, ind):
        self.specs[s.key] = s
        if s.owner:
            s.owner.members.append(s)
        tag = s.key.replace(".", "_")
        sig = []
        for p, d in s.params.items():
            self.ns[f"PT_{tag}_{p}"] = d.ty
            sig.append(f"{p}: PT_{tag}_{p}")
        self.ns[f"RT_{tag}"] = s.ret.ty
        ret = f"Annotated[RT_{tag}, IsRecursive]" if s.recursive else f"RT_{tag}"
        if s.owner and not s.static:
            sig = ["self"] + sig
        out = [f"{ind}@{'Tool' if s.kind == 'tool' else 'Template'}.define"]
        if s.static:
            out.append(f"{ind}@staticmethod")
        out.append(f"{ind}def {s.name}({', '.join(sig)}) -> {ret}:")
        if s.kind == "tool":
            out.append(f"{ind}    '''Tool {s.key}.'''")
            me = "self" if s.owner and not s.static else "None"
            out.append(f"{ind}    return BODY({s.key!r}, {me}, {{{', '.join(f'{p!r}: {p}' for p in s.params)}}})")
        else:
            shown = [p for p, d in s.params.items() if d.kind in ("int", "str", "bool")]
            s.shown = shown
            out.append(f"{ind}    '''PROMPT {s.key}{''.join(' <{' + p + '}>' for p in shown)}'''")
            out.append(f"{ind}    raise NotHandled")
        return out

    # -- what the model may see
    def offered(self, act):
        """Object of the world -> the names it may be offered under."""
        out = {}
        for (key, v), s in self.targets.items():
            if s is act.spec and v == act.agent and not s.recursive or (s.owner is None and s is act.spec and not s.recursive):
                continue
            if s.owner is None:
                out[(key, v)] = {s.name}
            else:
                vs = [v] if v else [x for x, A in self.agents.items() if any(m.key == key for m in A.members)]
                names = {f"{x}__{s.name}" for x in vs}
                if act.agent is not None and (v == act.agent or v is None and any(m.key == key for m in self.agents[act.agent].members)):
                    names.add(f"self__{s.name}")
                out[(key, v)] = names
        return out

    def system(self, agent):
        return is_text(f"You are {self.agents[agent].cls}." if agent else DEFAULT_SYSTEM_PROMPT)

    def prompt(self, spec, args):
        return is_text(f"PROMPT {spec.key}" + "".join(" <" + (args[p] if isinstance(args[p], str) else json.dumps(args[p])) + ">" for p in spec.shown))

    def start(self, spec, agent, args):
        h = list(self.history[agent]) if agent else []
        if not h:
            h = [Msg("system", self.system(agent))]
        h.append(Msg("user", self.prompt(spec, args)))
        self.stack.append(Act(spec, agent, args, h))

    def note(self, *e):
        self.events.append(e)
        self.c.info(f"event {e!r}"[:400])

    # -- the monitor
    def watch(self, f, *args):
        """A violation seen inside a call is not for the code under test to handle."""
        try:
            return f(*args)
        except Through as e:
            raise e.error
        except BaseException as e:
            if isinstance(e, Violation) or not isinstance(e, (ToolFailure, OtherFailure, ValueError)) or "problem" not in str(e):
                self.violation = self.violation or e
            raise

    def respond(self, req, n):
        return self.watch(self._respond, req)

    def body(self, *args):
        return self.watch(self._body, *args)

    def _respond(self, req):
        c, rng = self.c, self.rng
        c.check(self.stack, "a request outside a call")
        act = self.stack[-1]
        if act.pending:
            (key, v), kw, cid = act.pending[0][1], act.pending[0][2], act.pending[0][0]
            s = self.targets[(key, v)]
            c.check(s.kind == "template", "the model is asked again before its tool calls are executed", pending=act.pending)
            c.check(len(self.stack) < 8, "runaway recursion")
            self.start(s, v, kw)
            self.executed += 1
            act = self.stack[-1]
        self.requests += 1
        act.requests += 1
        self.note("request", act.spec.key, [m["role"] for m in req.messages])
        # the history
        want = act.expected + act.temp
        c.check(len(req.messages) == len(want), "a request with other messages", got=[(m["role"], blocks_text(m["content"])[:80]) for m in req.messages], want=want)
        for m, w in zip(req.messages, want):
            p = w.problem(m)
            c.check(p is None, f"request: {p}", got=m, want=w)
        p = well_formed(req.messages)
        c.check(p is None, f"malformed history: {p}", got=[(m["role"], m["id"]) for m in req.messages])
        # the tools
        off = self.offered(act)
        by = {n: o for o, ns in off.items() for n in ns}
        names = req.tool_names
        c.check(len(set(names)) == len(names), "tools with the same name", names=names)
        mine = [x for x in names if x in by]
        c.check(self.readers or len(mine) == len(names), "tools that are not in scope are offered", names=sorted(set(names) - set(mine)))
        c.check(set(self.variables) <= set(names), "a variable cannot be read", names=names)
        objs = [by[x] for x in mine]
        c.check(len(set(objs)) == len(objs), "a tool is offered more than once", names=names)
        c.check(set(objs) == set(off), "tools in scope are not offered", missing=sorted(map(str, set(off) - set(objs))), names=names)
        for x in mine:
            s = self.targets[by[x]]
            P = req.tool(x)["parameters"]
            c.check(list(P.get("properties", {})) == list(s.params), "a tool is offered with other parameters", tool=x, got=P, want=list(s.params))
        # the answer
        boxed = req.response_format is not None
        r = rng.random()
        if r < self.model_fail and self.requests < self.budget:
            self.note("model fails")
            exc = rng.choice([ModelFailure, ModelFailure, Interrupt])
            self.abort(exc)
            return exc("no connection")
        if rng.random() < self.bad and self.requests < self.budget:
            return self.malformed(act, by, mine, boxed)
        if mine and self.requests < self.budget and rng.random() < 0.55:
            return self.request_tools(act, by, mine, boxed)
        return self.finish(act, boxed)

    def new_call(self, x, by):
        o = by[x]
        s = self.targets[o]
        kw = {p: gen_value(d, self.rng) for p, d in s.params.items()}
        order = list(kw)
        self.rng.shuffle(order)
        return (f"call_{next(self.ids)}", o, kw), (x, json.dumps({p: encode(s.params[p], kw[p]) for p in order}))

    def request_tools(self, act, by, mine, boxed):
        rng = self.rng
        if len(self.stack) > 3:
            mine = [x for x in mine if self.targets[by[x]].kind == "tool"]
            if not mine:
                return self.finish(act, boxed)
        cs = [self.new_call(rng.choice(mine), by) for _ in range(rng.randint(1, self.fanout))]
        if self.variables and rng.random() < 0.4:
            v = rng.choice(list(self.variables))
            cs.insert(0, ((f"call_{next(self.ids)}", None, {}), (v, "{}")))
        raw = [(a[0], x, args) for a, (x, args) in cs]
        self.settle(act)
        act.expected.append(Msg("assistant", call_ids=[a[0] for a, _ in cs]))
        for a, (x, _) in cs:
            if a[1] is None:  # a reader, executed without a trace
                c_first = Msg("tool", spells(self.variables[x]), a[0])
                act.expected.append(c_first)
                self.answered += 1
            else:
                act.pending.append(a)
        self.note("calls", raw)
        return calls(*raw, content=rng.choice([None, None, "Let me see.", ""]))

    def finish(self, act, boxed):
        rng = self.rng
        v = gen_value(act.spec.ret, rng)
        t = rng.choice(["", "done", "multi\nline", '{"value": 3}', "null"]) if not boxed else json.dumps({"value": encode(act.spec.ret, v)})
        if not boxed:
            v = t
        self.settle(act)
        act.expected.append(Msg("assistant", is_text(t)))
        self.note("final", v)
        self.stack.pop()
        act.outcome = ("ok", v, act)
        if act.direct:
            pass
        elif self.stack:
            self.answer(self.stack[-1], spells(v))
        else:
            self.done = ("ok", v, act)
        return text(t)

    def answer(self, act, content):
        cid, _, _ = act.pending.pop(0)
        act.expected.append(Msg("tool", content, cid))
        self.answered += 1

    def settle(self, act):
        self.c.count("recovered", bool(act.temp))
        act.temp, act.attempts = [], 0

    def malformed(self, act, by, mine, boxed):
        rng = self.rng
        act.attempts += 1
        last = self.retry is None or act.attempts >= self.retry["attempts"]
        err = self.errors
        if mine and (rng.random() < 0.6 or not boxed):
            good = [self.new_call(rng.choice(mine), by) for _ in range(rng.randint(0, 2))]
            raw = [(a[0], x, args) for a, (x, args) in good]
            x = rng.choice(mine)
            s = self.targets[by[x]]
            (cid, _, kw), (_, args) = self.new_call(x, by)
            J = json.loads(args)
            kinds = ["unknown", "syntax", "extra", "list"] + ["missing", "type"] * bool(J)
            k = rng.choice(kinds)
            if k == "unknown":
                x = rng.choice(["no_such_tool", "", "BODY", "__name__", "<repl_anchor>", "bot0"])
            elif k == "syntax":
                args = args[:-1]
            elif k == "extra":
                args = json.dumps({**J, "zz_extra": 1})
            elif k == "list":
                args = json.dumps([1])
            elif k == "missing":
                p = rng.choice(list(J))
                args = json.dumps({q: J[q] for q in J if q != p})
            else:
                p = rng.choice(list(J))
                args = json.dumps({**J, p: DEEP})
            at = rng.randint(0, len(raw))
            raw.insert(at, (cid, x, args))
            msg = calls(*raw)
            ids = [r[0] for r in raw]
            self.note("malformed call", k, raw)
            fb = [Msg("tool", self.feedback(cid) if i == cid else None, i) for i in ids]
            bad = [Msg("assistant", call_ids=ids)] + fb
            exc, cause = ToolCallDecodingError, cid
        else:
            ts = [None] if not boxed else ["not json", "", "[]", "{}", "null", '{"value": ', '{"val": 1}', json.dumps({"value": DEEP}), None]
            t = rng.choice(ts)
            self.note("malformed answer", t)
            msg = text(t)
            bad = [Msg("assistant"), Msg("user", self.feedback(None))]
            exc, cause = ResultDecodingError, None
        self.c.count("malformed")
        if last:
            act.temp, act.attempts = [], 0
            self.abort(exc, cause)
        else:
            act.temp += bad
        return msg

    def feedback(self, cid):
        """The feedback shows the error observed below the retrying handler."""
        n = len(self.errors)

        def check(got):
            if len(self.errors) <= n:
                return "no error was raised"
            e = self.errors[n]
            t = blocks_text(got)
            if str(e.original_error) not in t:
                return f"the feedback does not show the error: {t[:200]!r}"
            if ("Traceback" in t) != self.retry["traceback"]:
                return "the feedback has a traceback" if not self.retry["traceback"] else "the feedback lacks the traceback"
            return None

        return check

    def abort(self, exc, cause=None):
        """The running call fails with an error of class exc."""
        while True:
            act = self.stack.pop()
            act.outcome = ("error", exc, cause)
            if act.direct:
                return
            if not self.stack:
                self.done = act.outcome
                return
            parent = self.stack[-1]
            if self.catches(exc):
                self.answer(parent, has_text("Error"))
                return
            if issubclass(exc, Exception):
                exc, cause = ToolCallExecutionError, parent.pending[0][0]

    def catches(self, exc):
        return self.retry is not None and issubclass(exc, self.retry["catch"])

    def _body(self, key, me, kwargs):
        """Execution of a plain tool."""
        c = self.c
        c.check(self.stack and self.stack[-1].pending, "a tool runs that was not called", tool=key)
        act = self.stack[-1]
        cid, (wkey, wv), kw = act.pending[0]
        c.check(wkey == key, "another tool runs than the one called", got=key, want=wkey)
        c.check((me is None and wv is None) or (wv is not None and me is self.ns[wv]), "a tool of another agent runs", tool=key)
        c.check(same(kwargs, kw), "a tool receives other arguments", tool=key, got=kwargs, want=kw)
        self.executed += 1
        self.note("executes", key)
        s = self.targets[(wkey, wv)]
        if len(self.stack) < 4 and self.requests < self.budget and self.rng.random() < self.inner:
            self.inside(act, cid)
        if self.rng.random() < self.tool_fail:
            exc = self.rng.choice([ToolFailure, ToolFailure, OtherFailure, ValueError])
            self.note("tool fails", exc)
            text_ = f"problem {next(self.ids)}"
            c.count("tool_failures")
            self.tool_raises(act, cid, exc, text_, self_name(key))
            raise exc(text_)
        v = gen_value(s.ret, self.rng)
        self.answer(act, spells(v))
        return copy.deepcopy(v)

    def tool_raises(self, act, cid, exc, *shown):
        if self.catches(exc):
            self.answer(act, has_text(*shown))
        elif issubclass(exc, Exception):
            self.abort(ToolCallExecutionError, cid)
        else:
            self.abort(exc)

    def inside(self, act, cid):
        """The body of a tool calls a template itself."""
        c, rng = self.c, self.rng
        agent, s, kw, f = self.pick()
        self.note("call inside", s.key, agent)
        self.c.count("calls_inside")
        self.start(s, agent, kw)
        inner = self.stack[-1]
        inner.direct = True
        try:
            r = f(**kw)
        except ERRORS as e:
            c.check(inner.outcome is not None and inner.outcome[0] == "error" and type(e) is inner.outcome[1], "another error inside a tool", got=repr(e), want=inner.outcome)
            if isinstance(e, Exception) and rng.random() < 0.5:
                return
            self.tool_raises(act, cid, type(e))
            raise Through(e)
        c.check(inner.outcome is not None and inner.outcome[0] == "ok" and same(r, inner.outcome[1]), "a call inside a tool returns another value", got=r, want=inner.outcome)
        c.check(self.stack and self.stack[-1] is act, "the call returns with calls unfinished")

    def pick(self):
        agent, s = self.rng.choice([(v, s) for (k, v), s in self.targets.items() if s.kind == "template"])
        kw = {p: gen_value(d, self.rng) for p, d in s.params.items()}
        return agent, s, kw, getattr(self.ns[agent], s.name) if agent else self.ns[s.name]

    # -- running
    def handlers(self):
        w = self

        class Observer(ObjectInterpretation):
            @implements(call_assistant)
            def _call(self, *args, **kwargs):
                try:
                    return fwd()
                except (ToolCallDecodingError, ResultDecodingError) as e:
                    w.errors.append(e)
                    raise

        out = [LiteLLMProvider(), Observer(), Model(self.respond)]
        if self.readers:
            from effectful.handlers.llm.completions import LexicalReaders

            out.insert(1, LexicalReaders())
        if self.retry is not None:
            kw = {}
            if self.retry.get("callback"):
                kw["before_sleep"] = lambda state: self.c.check(
                    isinstance(state.outcome.exception(), (ToolCallDecodingError, ResultDecodingError)) and state.attempt_number < self.retry["attempts"],
                    "the user's callback before a retry")
            out.append(RetryLLMHandler(include_traceback=self.retry["traceback"], catch_tool_errors=self.retry["catch"], stop=tenacity.stop_after_attempt(self.retry["attempts"]), **kw))
        return out

    def call(self):
        """One call of a template from outside."""
        c, rng = self.c, self.rng
        agent, s, kw, f = self.pick()
        before = self.committed()
        self.stack, self.done = [], None
        self.start(s, agent, kw)
        act = self.stack[0]
        self.requests = 0
        self.note("call", s.key, agent, kw)
        self.violation = None
        try:
            try:
                r = f(*kw.values()) if rng.random() < 0.5 else f(**kw)
            finally:
                if self.violation is not None:
                    raise self.violation
        except ERRORS as e:
            c.check(self.done is not None and self.done[0] == "error", "the call fails although nothing went wrong", error=repr(e), done=self.done)
            c.check(type(e) is self.done[1], "another error", got=repr(e), want=self.done)
            if isinstance(e, (ToolCallExecutionError, ToolCallDecodingError)):
                c.check(e.raw_tool_call.id == self.done[2], "the error names another call", got=e.raw_tool_call, want=self.done)
            after = self.committed()
            c.check(after == before, "a call that fails changes a history", before=before, after=after)
            c.count("failures")
        else:
            c.check(self.done is not None and self.done[0] == "ok", "the call succeeds although it should have failed", got=r, done=self.done)
            c.check(same(r, self.done[1]), "the call returns another value", got=r, want=self.done[1])
            if agent:
                self.history[agent] = act.expected
            for v in self.agents:
                ms = list(self.ns[v].__history__.values())
                c.check(list(self.ns[v].__history__) == [m["id"] for m in ms], "a history is not indexed by identifier")
                c.check(len(ms) == len(self.history[v]), "the history of an agent has other messages", agent=v, got=[(m["role"], blocks_text(m["content"])[:60]) for m in ms], want=self.history[v])
                for m, w in zip(ms, self.history[v]):
                    p = w.problem(m)
                    c.check(p is None, f"history of {v}: {p}", got=m, want=w)
                if ms:
                    p = well_formed(ms)
                    c.check(p is None, f"malformed history of {v}: {p}")
                if v != agent:
                    c.check(ms == before[v], "a call changes the history of another agent", agent=v)
            c.count("successes")
        c.check(not self.stack, "the call returns with calls unfinished")
        c.count("requests", self.requests)

    def committed(self):
        return {v: copy.deepcopy(list(self.ns[v].__history__.values())) for v in self.agents}

    def run(self, n):
        hs = self.handlers()
        import contextlib

        with contextlib.ExitStack() as st:
            for h in hs:
                st.enter_context(handler(h))
            for _ in range(n):
                self.call()
        if hasattr(self.c, "sample"):
            self.c.sample([str(e)[:150] for e in self.events[:12]])
        self.c.count("executed", self.executed)
        self.c.count("answered", self.answered)
        for e in self.events:
            self.c.count("ev_" + e[0].replace(" ", "_"))


def self_name(key):
    return key.split(".")[-1]
