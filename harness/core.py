"""Shared machinery of the monitors: cases, verdicts, counters, replay.

A check is a module harness/checks/<id>.py with a list SECTIONS.  Each section
is a workload: a function of a Case, run for a number of seeded cases.  The
function drives the real code and judges what it observes with c.check / c.eq.
Anything the code under test raises that the oracle did not expect is a
violation too (the workloads are silent on the unchanged tree).
"""
from __future__ import annotations

import dataclasses
import hashlib
import json
import os
import random
import signal
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT = 120.0  # CPU seconds of one case (they normally take ms)


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The monitor could not be reached or run (environment trouble)."""


class CaseTimeout(BaseException):
    pass


@dataclasses.dataclass
class Section:
    name: str
    fn: object
    quick: int
    thorough: int
    shards: int = 1  # worker processes in the quick tier (thorough: up to 8)
    setup: object = None  # called once per worker


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {
        e["key"]: e["what"]
        for e in data.get("findings", [])
        if e["property"] == pid and e.get("status") == "open"
    }


class Case:
    def __init__(self, worker, section, index):
        self.w = worker
        self.section = section
        self.index = index
        self.tier = worker.tier
        self.rng = random.Random(
            f"{worker.seed}/{worker.pid}/{section.name}/{index}"
        )
        self.log = []

    # -- verdicts -----------------------------------------------------------
    def fail(self, msg, **detail):
        for k, v in detail.items():
            self.info(f"{k} = {v!r}")
        raise Violation(msg)

    def check(self, cond, msg, **detail):
        self.w.counters["oracle_checks"] += 1
        if not cond:
            self.fail(msg, **detail)

    def eq(self, got, want, msg="", **detail):
        self.w.counters["oracle_checks"] += 1
        if not (type(got) is type(want) and got == want):
            self.fail(f"{msg}: got {got!r}, expected {want!r}", **detail)

    def raises(self, exc, fn, msg=""):
        self.w.counters["oracle_checks"] += 1
        try:
            r = fn()
        except exc as e:
            return e
        self.fail(f"{msg}: expected {exc}, got value {r!r}")

    def known(self, key, msg):
        """A mechanism listed in known_findings.json; else a violation."""
        if key in self.w.known:
            self.w.known_hits[key] += 1
        else:
            self.fail(msg)

    # -- observation --------------------------------------------------------
    def info(self, text):
        if len(self.log) < 400:
            self.log.append(str(text)[:2000])

    def count(self, name, n=1):
        self.w.counters[name] += n

    def key(self, obj):
        """Marks this case non-trivial; distinct by the given description."""
        h = hashlib.blake2b(repr(obj).encode("utf8", "replace"), digest_size=8)
        self.w.keys.add(f"{self.section.name}:{h.hexdigest()}")

    def sample(self, text):
        s = self.w.samples.setdefault(self.section.name, [])
        if len(s) < 2:
            s.append(str(text)[:1500])


class Worker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counters = Counter()
        self.keys = set()
        self.samples = {}
        self.violations = []
        self.known = load_known(pid)
        self.known_hits = Counter()
        self.evaluations = Counter()
        self.error = None

    def run(self, section, n, shard, nshards, only=None, max_violations=3):
        def on_timer(sig, frame):
            raise CaseTimeout()

        signal.signal(signal.SIGVTALRM, on_timer)
        indices = [only] if only is not None else range(shard, n, nshards)
        if section.setup is not None:
            section.setup()
        for i in indices:
            c = Case(self, section, i)
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
                try:
                    section.fn(c)
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except Inconclusive as e:
                self.error = f"{section.name}[{i}]: {e}"
                return
            except (MemoryError,) as e:
                self.error = f"{section.name}[{i}]: {e!r}"
                return
            except OSError as e:
                if getattr(e, "errno", None) in (12, 23, 24, 28):
                    self.error = f"{section.name}[{i}]: {e!r}"
                    return
                self.record(section, i, c, e, traceback.format_exc())
            except Violation as e:
                self.record(section, i, c, e, traceback.format_exc(limit=-4))
            except CaseTimeout:
                self.record(
                    section, i, c,
                    RuntimeError(f"case used more than {CASE_CPU_LIMIT} CPU seconds"),
                    traceback.format_exc(limit=-12),
                )
            except Exception as e:  # unexpected exception from the code under test
                self.record(section, i, c, e, traceback.format_exc())
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                self.record(section, i, c, e, traceback.format_exc())
            self.evaluations[section.name] += 1
            if len(self.violations) >= max_violations:
                return

    def record(self, section, i, c, e, tb):
        self.violations.append(
            dict(
                property=self.pid, section=section.name, case=i, seed=self.seed,
                tier=self.tier, kind=type(e).__name__, message=str(e)[:4000],
                log=c.log[-200:], traceback=tb[-6000:],
            )
        )

    def dump(self, path):
        with open(path, "w") as f:
            json.dump(
                dict(
                    counters=self.counters, keys=sorted(self.keys),
                    samples=self.samples, violations=self.violations,
                    known_hits=self.known_hits, evaluations=self.evaluations,
                    error=self.error,
                ),
                f, default=str,
            )
