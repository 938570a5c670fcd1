"""A scripted model: answers the completion operation and records every request."""
import copy
import json

from litellm import ModelResponse

from effectful.handlers.llm.completions import completion
from effectful.ops.syntax import ObjectInterpretation, implements


def text(content, **message):
    return ModelResponse(id="r", model="m", choices=[{"index": 0, "finish_reason": "stop", "message": {"role": "assistant", "content": content, **message}}])


def boxed(encoded):
    """The text of an answer to a template that returns something other than text."""
    return text(json.dumps({"value": encoded}))


def calls(*cs, content=None):
    """An answer that requests tool calls; each is (id, name, arguments)."""
    return ModelResponse(
        id="r", model="m",
        choices=[{
            "index": 0, "finish_reason": "tool_calls",
            "message": {
                "role": "assistant", "content": content,
                "tool_calls": [
                    {"id": i, "type": "function", "function": {"name": n, "arguments": a if isinstance(a, str) else json.dumps(a)}}
                    for i, n, a in cs
                ],
            },
        }],
    )


class Request:
    def __init__(self, model, messages, tools, response_format, rest):
        self.model, self.messages, self.tools, self.response_format, self.rest = model, messages, tools, response_format, rest

    @property
    def tool_names(self):
        return [t["function"]["name"] for t in self.tools or []]

    def tool(self, name):
        return next(t["function"] for t in self.tools if t["function"]["name"] == name)


class Model(ObjectInterpretation):
    """``respond(request, n)`` gives the n-th answer (or raises)."""

    def __init__(self, respond):
        if isinstance(respond, (list, tuple)):
            script = list(respond)
            respond = lambda r, n: script[n]
        self.respond = respond
        self.requests = []

    @implements(completion)
    def _completion(self, model, messages=None, tools=None, response_format=None, **rest):
        r = Request(model, copy.deepcopy(list(messages)), copy.deepcopy(tools), response_format, rest)
        self.requests.append(r)
        a = self.respond(r, len(self.requests) - 1)
        if isinstance(a, BaseException):
            raise a
        return a


def content_text(content):
    """The text of a message (a string or a list of blocks without images)."""
    if content is None:
        return ""
    if isinstance(content, str):
        return content
    return "".join(b["text"] for b in content)


def well_formed(messages):
    """What is wrong with a message history, or None."""
    if not messages:
        return "no messages"
    if messages[0]["role"] != "system":
        return "the system message is not first"
    if any(m["role"] == "system" for m in messages[1:]):
        return "more than one system message"
    ids = [m["id"] for m in messages]
    if len(set(ids)) != len(ids):
        return "message identifiers repeat"
    pending = []
    for m in messages:
        if m["role"] == "tool":
            if not pending:
                return f"an answer {m['tool_call_id']!r} to no tool call"
            if m["tool_call_id"] != pending[0]:
                return f"answer {m['tool_call_id']!r} where {pending[0]!r} was due"
            pending.pop(0)
            continue
        if pending:
            return f"tool calls {pending} are not answered before a {m['role']} message"
        if m["role"] == "assistant":
            pending = [t["id"] for t in m.get("tool_calls") or []]
    if pending:
        return f"tool calls {pending} are not answered"
    return None
