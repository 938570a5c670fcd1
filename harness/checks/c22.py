"""C22: histories are well-formed, complete and kept per agent."""
import gc
import random
import sys
import threading
import warnings

from harness.checks.c21 import shape
from harness.conv import OtherFailure, ToolFailure, World
from harness.core import Section, Violation
from harness.llm import Model, text, well_formed

from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.completions import LiteLLMProvider, call_assistant, call_system, call_tool, call_user
from effectful.ops.semantics import handler
from effectful.ops.types import NotHandled

warnings.simplefilter("ignore")

RULE = (
    "Random worlds with several agents (several instances of a class, subclasses, dataclasses whose instances are equal) are "
    "called again and again through their templates, templates being called by the model and by the bodies of tools, with "
    "failures of the model, of tools and of decoding and with interrupts at random points. A monitor predicts every message of every request and, after every "
    "call, the history of every agent. Threads run such worlds at the same time with shared provider and "
    "retry objects; short-lived agents are created and dropped by the hundreds. Distinct by event sequence."
)
ASSUMPTIONS = [
    "A call nested in another call (by the model or by the body of a tool) works on a copy of the history of its agent and leaves no trace in it, as the existing tests require.",
    "An agent is not called by two threads at a time.",
]
NEED = {"requests": 400, "successes": 120, "failures": 25, "calls_inside": 10, "agent_calls": 150, "threads": 6}


def agents(c):
    w = World(c, tools=(0, 2), templates=(1, 2), agents=(1, 3), bad=0.04, tool_fail=0.05, model_fail=0.06, inner=0.25, budget=10)
    w.run(c.rng.randint(3, 6))
    c.key(shape(w))


def retrying(c):
    rng = c.rng
    w = World(
        c, tools=(0, 2), templates=(1, 1), agents=(1, 2), bad=0.25, tool_fail=0.2, model_fail=0.04, inner=0.25, budget=12,
        retry=dict(attempts=rng.randint(1, 3), catch=rng.choice([Exception, (ToolFailure,), (ValueError, OtherFailure)]), traceback=rng.random() < 0.5),
    )
    w.run(c.rng.randint(2, 4))
    c.key(shape(w))


class Local:
    """A case as seen by one thread."""

    def __init__(self, c, seed, lock):
        self._c, self._lock, self.rng, self.log = c, lock, random.Random(seed), []

    def info(self, x):
        self.log.append(x)

    def check(self, cond, msg, **detail):
        with self._lock:
            try:
                return self._c.check(cond, msg, **detail)
            except Violation:
                for x in self.log[-30:]:
                    self._c.info(x)
                raise

    def count(self, *a):
        with self._lock:
            self._c.count(*a)

    def key(self, k):
        with self._lock:
            self._c.key(k)


def threads(c):
    rng, lock = c.rng, threading.Lock()
    shared = None
    failures = []
    n = rng.randint(2, 4)
    barrier = threading.Barrier(n)
    retry = dict(attempts=2, catch=Exception, traceback=False)
    worlds = [World(Local(c, rng.random(), lock), tools=(0, 2), templates=(1, 1), agents=(1, 2), bad=0.2, tool_fail=0.15, inner=0.15, budget=8, retry=retry) for _ in range(n)]
    shared = worlds[0].handlers()

    def go(w):
        try:
            own = w.handlers()
            hs = [shared[0] if type(h) is type(shared[0]) else shared[-1] if type(h) is type(shared[-1]) else h for h in own]
            w.handlers = lambda: hs
            barrier.wait()
            w.run(2)
            w.c.key(shape(w))
        except BaseException as e:
            failures.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=go, args=(w,)) for w in worlds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c.count("threads", n)
    for e in failures:
        raise e
    c.check(len({id(w.ns[v].__history__) for w in worlds for v in w.agents}) == sum(len(w.agents) for w in worlds), "agents share a history")


def lifecycle(c):
    """Agents that come and go."""
    import dataclasses

    rng = c.rng

    class Plain(Agent):
        """PLAIN"""

        @Template.define
        def send(self, x: int) -> str:
            """say {x}"""
            raise NotHandled

    @dataclasses.dataclass
    class Data(Agent):
        """DATA"""

        n: int = 0

        @Template.define
        def send(self, x: int) -> str:
            """say {x}"""
            raise NotHandled

    class Sub(Data):
        """SUB"""

    @dataclasses.dataclass(frozen=True)
    class Frozen(Agent):
        """FROZEN"""

        n: int = 0

        @Template.define
        def send(self, x: int) -> str:
            """say {x}"""
            raise NotHandled

    state = {}

    def respond(req, n):
        c.count("requests")
        p = well_formed(req.messages)
        c.check(p is None, f"malformed history: {p}")
        got = [m["content"] if isinstance(m["content"], str) else "".join(b["text"] for b in m["content"]) for m in req.messages]
        c.check(got == state["want"], "another conversation", got=got[:12], want=state["want"][:12])
        state["last"] = f"r{rng.random()}"
        return RuntimeError("down") if state["fail"] else text(state["last"])

    live = []
    with handler(LiteLLMProvider()), handler(Model(respond)):
        for i in range(rng.randint(20, 60)):
            r = rng.random()
            if r < 0.4 or not live:
                live.append((rng.choice([Plain, Data, Sub, Frozen])(), []))
            elif r < 0.6:
                live.pop(rng.randrange(len(live)))
                if rng.random() < 0.2:
                    gc.collect()
                continue
            a, h = rng.choice(live)
            x = rng.randint(0, 9)
            system = f"{__doc__}\n\n{type(a).__doc__}"
            if h and rng.random() < 0.15:  # the user of the agent forgets old messages
                for _ in range(rng.randint(1, len(h))):
                    a.__history__.popitem(last=False)
                    h.pop(0)
                c.count("trimmed")
            h2 = (h if h and h[0] == system else [system] + h) + [f"say {x}"]
            state["want"], state["fail"] = h2, rng.random() < 0.15
            c.count("agent_calls")
            if state["fail"]:
                c.raises(RuntimeError, lambda: a.send(x), "a failing call")
            else:
                f = a.send if rng.random() < 0.5 else type(a).__dict__["send"].__get__(a, type(a)) if "send" in type(a).__dict__ else a.send
                c.eq(f(x), state["last"], "the answer")
                h[:] = h2 + [state["last"]]
            for b, hb in live:
                got = [m["content"] if isinstance(m["content"], str) else "".join(t["text"] for t in m["content"]) for m in b.__history__.values()]
                c.check(got == hb, "the history of an agent", agent=type(b).__name__, got=got, want=hb)
            c.key((type(a).__name__, len(h), len(live), state["fail"]))
        c.check(len({id(a.__history__) for a, _ in live}) == len(live), "agents share a history")


SECTIONS = [
    Section("agents", agents, 70, 4000, 3),
    Section("retrying", retrying, 40, 2500, 2),
    Section("threads", threads, 10, 500, 2),
    Section("lifecycle", lifecycle, 30, 1500, 1),
]
