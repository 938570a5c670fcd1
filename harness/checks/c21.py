"""C21: each tool call is decoded, executed once and answered, in order."""
import warnings

from harness.conv import World
from harness.core import Section

warnings.simplefilter("ignore")

RULE = (
    "Random worlds of tools (functions, methods and static methods of agents, templates) and templates; a monitor plays the model: "
    "it invents answers with any number of tool calls to any tool with random typed arguments, malformed ones included, and "
    "checks every request (tools offered, their names and parameters, the messages), every execution (which tool, on which "
    "agent, which arguments, in which order, how often) and every answer (identifier, encoded result) against what they have "
    "to be. Distinct by event sequence."
)
ASSUMPTIONS = [
    "Tools have distinct qualified names (no variable a__b next to an agent a with a method b).",
    "The model gives each call an identifier of its own.",
]
NEED = {"executed": 400, "answered": 400, "requests": 500, "malformed": 60, "successes": 100}


def shape(w):
    return tuple(e[0] if e[0] != "executes" else e[1] for e in w.events)


def conversation(c):
    w = World(c, tools=(1, 5), templates=(1, 3), agents=(0, 2), tool_fail=0.03, fanout=c.rng.choice([1, 3, 6]))
    w.run(c.rng.randint(1, 3))
    c.key(shape(w))


def malformed(c):
    w = World(c, tools=(1, 4), templates=(1, 2), agents=(0, 1), bad=0.3, fanout=3)
    w.run(2)
    c.key(shape(w))


def readers(c):
    w = World(c, tools=(0, 3), templates=(1, 2), agents=(0, 1), readers=True)
    w.run(2)
    c.key(shape(w))


SECTIONS = [
    Section("conversation", conversation, 80, 8000, 3),
    Section("malformed", malformed, 60, 5000, 2),
    Section("readers", readers, 30, 1500, 1),
]
