"""C03: thread isolation, under scheduled and free interleavings."""
import os
import random
import subprocess
import sys
import threading
import time

from harness import handlermodel as hm
from harness.core import Section

RULE = (
    "Two to five threads run random handler programs over the same operations. 'scheduled' hands a token "
    "between threads at every event (seeded, so the interleaving is reproducible), 'preempted' injects "
    "sleeps at random lines of the library with a 1 microsecond switch interval, 'first_use' starts fresh "
    "processes whose first library calls race. Each thread's trace must equal the reference run of that "
    "thread alone. Non-trivial when the token moved inside a handler scope; distinct by interleaving and programs."
)
ASSUMPTIONS = [
    "CPython with the GIL; preemption at line granularity inside the library (trace hooks) and at events elsewhere.",
]
NEED = {"context_switches": 2000, "threads": 500}


class Scheduler:
    """Passes a token between threads at yield points."""

    def __init__(self, rng, n):
        self.rng = rng
        self.cv = threading.Condition()
        self.alive = set(range(n))
        self.turn = 0
        self.order = []
        self.free = False

    def step(self, me):
        with self.cv:
            if self.free:
                return
            if self.turn == me:
                self.turn = self.rng.choice(sorted(self.alive))
                self.order.append(self.turn)
                self.cv.notify_all()
            while self.turn != me and not self.free:
                if not self.cv.wait(timeout=20):
                    self.free = True  # a lock held elsewhere: fall back to free running
                    self.cv.notify_all()

    def start(self, me):
        with self.cv:
            while self.turn != me and not self.free:
                if not self.cv.wait(timeout=20):
                    self.free = True
                    self.cv.notify_all()

    def done(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.alive and self.turn == me:
                self.turn = self.rng.choice(sorted(self.alive))
                self.order.append(self.turn)
            self.cv.notify_all()


class SharedOps(hm.RealBackend):
    """Operations shared by all threads; the walker is looked up per thread."""

    def __init__(self, gen, lib):
        self.tl = threading.local()
        super().__init__(gen, lib)

    @property
    def w(self):
        return self.tl.w

    @w.setter
    def w(self, v):
        if v is not None:
            self.tl.w = v


class Walk(hm.Walker):
    hook = None

    def ev(self, *e):
        super().ev(*e)
        if self.hook:
            self.hook()


def run_threads(c, gen, progs, hooks, fuel, wrap=None):
    lib = hm.Lib()
    shared = SharedOps(gen, lib)
    traces = [None] * len(progs)
    errors = [None] * len(progs)

    def body(i):
        start, hook, done = hooks(i)
        try:
            start()
            w = Walk(shared, gen, fuel)
            shared.w = w
            w.hook = hook
            try:
                w.ev("result", w.body(progs[i]))
            except tuple(hm.BOOMS) as e:
                w.ev("escaped", type(e).__name__, str(e))
            w.fuel = 10**6
            for j in range(gen.n_ops):
                args = {"zero": (), "one": ("p",), "kw": ("p",), "var": ("p", "q")}[gen.shapes[j]]
                w.ev("probe", w.call(j, args, {}))
            traces[i] = w.trace
        except BaseException as e:
            errors[i] = e
        finally:
            done()

    ts = [threading.Thread(target=wrap(body) if wrap else body, args=(i,), daemon=True) for i in range(len(progs))]
    outer = c.rng.random() < 0.5
    if outer:
        # the starting thread's own handlers must not be inherited
        m = {op: (lambda *a, **k: "LEAKED-FROM-PARENT") for op in shared.ops}
        with lib.handler(m):
            for t in ts:
                t.start()
            for t in ts:
                t.join(300)
            got = shared.ops[0](*{"zero": ()}.get(gen.shapes[0], (1,)))
            c.eq(got, "LEAKED-FROM-PARENT", "the parent's own handler while threads ran")
    else:
        for t in ts:
            t.start()
        for t in ts:
            t.join(300)
    for i, t in enumerate(ts):
        if t.is_alive():
            c.fail(f"thread {i} did not finish")
        if errors[i] is not None:
            raise errors[i]
    for i, prog in enumerate(progs):
        ref = hm.execute(hm.RefBackend(gen.n_ops), gen, prog, fuel)
        for n, (a, b) in enumerate(zip(traces[i], ref)):
            if a != b:
                c.info(f"thread {i} program {prog}")
                c.fail(f"thread {i}, event {n}: got {a}, alone it does {b}")
        c.check(len(ref) == len(traces[i]), "trace lengths differ")
    c.count("threads", len(progs))
    c.count("events", sum(len(t) for t in traces))
    return traces


def mk_programs(c, nthreads, depth):
    gen = hm.Gen(c.rng, c.rng.choice([1, 2, 3]))
    progs = []
    for _ in range(nthreads):
        p = gen.body(depth)
        for _ in range(c.rng.choice([1, 2, 3])):
            p = [("with", c.rng.choice(["handler", "deco", "stack", "obj", "interpreter"]), gen.intp(1), p)]
        progs.append(p + gen.body(1))
    return gen, progs


def scheduled(c):
    n = c.rng.choice([2, 2, 3, 4, 5])
    gen, progs = mk_programs(c, n, 1)
    s = Scheduler(random.Random(c.rng.random()), n)
    run_threads(c, gen, progs,
                lambda i: ((lambda: s.start(i)), (lambda: s.step(i)), (lambda: s.done(i))), 50)
    switches = sum(a != b for a, b in zip(s.order, s.order[1:]))
    c.count("context_switches", switches)
    if s.free:
        c.count("scheduler_gave_up")
    if switches > 2:
        c.key((s.order, progs))
        c.sample(f"order={s.order[:40]} programs={str(progs)[:400]}")


def in_library(fn):
    return "/effectful/" in fn


def injector(seed, p, counter):
    """Trace hook that sleeps at random lines of the library."""
    local = threading.local()

    def hook(fr, ev, arg):
        if not in_library(fr.f_code.co_filename):
            return None
        rng = getattr(local, "rng", None)
        if rng is None:
            rng = local.rng = random.Random(f"{seed}{threading.get_ident()}")
        if rng.random() < p:
            counter[0] += 1
            time.sleep(rng.random() * 0.0004)
        return hook

    return hook


def with_injection(c, p, fn):
    counter = [0]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    threading.settrace(injector(c.rng.random(), p, counter))
    try:
        return fn()
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
        c.count("injected_delays", counter[0])


def preempted(c):
    n = c.rng.choice([2, 3, 4])
    gen, progs = mk_programs(c, n, 1)
    bar = threading.Barrier(n)
    with_injection(c, 0.02, lambda: run_threads(
        c, gen, progs, lambda i: ((lambda: bar.wait(60)), (lambda: time.sleep(0)), (lambda: None)), 40))
    c.key(progs)


def methods(c):
    """Method operations of shared objects, first accessed by several threads."""
    lib = hm.Lib()
    rng = c.rng
    n = rng.choice([2, 3, 4])

    class Obj:
        def __init__(self, v):
            self.v = v

        @lib.Operation.define
        def m(self, x: int) -> object:
            return ("m", self.v, x)

        @lib.Operation.define
        @classmethod
        def k(cls, x: int) -> object:
            return ("k", cls.__name__, x)

    class Sub(Obj):
        pass

    objs = [Obj(0), Sub(1), Obj(2)]
    plans = [[(rng.choice(["m", "k"]), rng.randrange(3), rng.random() < 0.7) for _ in range(4)] for _ in range(n)]
    out = [None] * n
    bar = threading.Barrier(n)

    def body(i):
        res = []
        try:
            bar.wait(60)
            for kind, o, handled in plans[i]:
                get = (lambda: objs[o].m) if kind == "m" else (lambda: type(objs[o]).k)
                if handled:
                    with lib.handler({get(): lambda x: ("thread", i, x)}):
                        res.append(get()(5))
                else:
                    res.append(get()(5))
        except BaseException as e:
            res.append(e)
        out[i] = res

    def go():
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        [t.start() for t in ts]
        [t.join(120) for t in ts]

    with_injection(c, 0.1, go)
    for i in range(n):
        want = [
            ("thread", i, 5) if h else (("m", o, 5) if k == "m" else ("k", type(objs[o]).__name__, 5))
            for k, o, h in plans[i]
        ]
        c.eq(out[i], want, f"thread {i}", plans=plans)
    c.count("threads", n)
    c.key(plans)


FIRST = r"""
import sys, threading, time, random
rng = random.Random(sys.argv[1])
from effectful.ops.types import Operation
from effectful.ops.semantics import handler, fwd, evaluate
from effectful.ops.syntax import defdata
n = 4
@Operation.define
def op(x: int) -> object:
    return ("default", x)
seeds = [rng.random() for _ in range(n)]
bar = threading.Barrier(n)
out = [None] * n
def hook_for(i):
    r = random.Random(seeds[i])
    def hook(fr, ev, arg):
        if "/effectful/" not in fr.f_code.co_filename:
            return None
        if r.random() < 0.3:
            time.sleep(r.random() * 0.002)
        return hook
    return hook
def body(i):
    bar.wait()
    sys.settrace(hook_for(i))
    try:
        res = []
        with handler({op: lambda x: ("thread", i, x)}):
            res.append(op(1))
            with handler({op: lambda x: ("inner", i, fwd())}):
                res.append(op(2))
            res.append(op(3))
        res.append(op(4))
        out[i] = res
    except BaseException as e:
        out[i] = repr(e)
    finally:
        sys.settrace(None)
sys.setswitchinterval(1e-6)
ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
for i in range(n):
    want = [("thread", i, 1), ("inner", i, ("thread", i, 2)), ("thread", i, 3), ("default", 4)]
    if out[i] != want:
        print("MISMATCH", i, out[i], want)
        sys.exit(7)
print("OK")
"""


def first_use(c):
    r = subprocess.run([sys.executable, "-c", FIRST, str(c.rng.random())], capture_output=True,
                       text=True, timeout=300, env=os.environ)
    c.count("threads", 4)
    c.count("fresh_processes")
    c.check(r.returncode == 0 and "OK" in r.stdout,
            f"racing first use in a fresh process: exit {r.returncode} {r.stdout[-500:]} {r.stderr[-800:]}")
    c.key(c.index)


SECTIONS = [
    Section("scheduled", scheduled, 500, 8000, shards=3),
    Section("preempted", preempted, 60, 600, shards=2),
    Section("methods", methods, 60, 800, shards=2),
    Section("first_use", first_use, 12, 100, shards=2),
]
