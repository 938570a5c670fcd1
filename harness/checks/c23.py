"""C23: retries are bounded, informed by the error and leave no trace."""
import warnings

from harness.checks.c21 import shape
from harness.conv import BaseFailure, OtherFailure, ToolFailure, World
from harness.core import Section

warnings.simplefilter("ignore")

RULE = (
    "Random worlds under retrying handlers with 1 to 4 attempts, with and without tracebacks, for random sets of tool errors. The "
    "monitor that plays the model answers malformed most of the time: calls of unknown tools, arguments that are not JSON or lack, "
    "add or mistype a parameter, several calls of which one is bad, answers that do not decode or are empty; tools fail "
    "with errors inside and outside of the set; the model itself fails. It predicts every message of every request (the faulty "
    "message, and feedback that shows the very error raised), the number of attempts, the outcome, the error raised and the "
    "history of every agent. Distinct by event sequence."
)
ASSUMPTIONS = ["The number of attempts is given by tenacity.stop_after_attempt, without waits."]
NEED = {"malformed": 300, "recovered": 60, "tool_failures": 40, "failures": 60, "successes": 60, "requests": 500}


def world(c, **kw):
    rng = c.rng
    retry = dict(
        attempts=rng.choice([1, 2, 2, 3, 3, 4]),
        catch=rng.choice([Exception, Exception, ToolFailure, (ToolFailure,), (ValueError, OtherFailure), (), (KeyError,), BaseFailure, LookupError, (ValueError, LookupError), (BaseFailure, KeyError)]),
        callback=rng.random() < 0.3,
        traceback=rng.random() < 0.5,
    )
    w = World(c, retry=retry, **kw)
    w.run(rng.randint(1, 3))
    c.key((str(retry), shape(w)))


def decoding(c):
    world(c, tools=(1, 3), templates=(1, 2), agents=(0, 1), bad=c.rng.choice([0.3, 0.6]), budget=20)


def tools(c):
    world(c, tools=(1, 3), templates=(1, 2), agents=(0, 2), bad=0.1, tool_fail=0.5, model_fail=0.03, inner=0.2, budget=14)


SECTIONS = [
    Section("decoding", decoding, 110, 7000, 3),
    Section("tools", tools, 90, 6000, 3),
]
