"""C20: values survive the encoding used to talk to a language model."""
import base64
import copy
import inspect
import io
import json
import typing
import warnings

import jsonschema
import pydantic
from PIL import Image

from harness.core import Section
from harness.llmtypes import FIELDS, STRINGS, gen_type, gen_value, images, kinds, leaf, make_image, same, same_image

from effectful.handlers.llm import Tool
from effectful.handlers.llm.completions import call_tool
from effectful.handlers.llm.encoding import DecodedToolCall, Encodable, to_content_blocks
from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
from effectful.ops.semantics import handler

warnings.simplefilter("ignore")

RULE = (
    "Random types from the grammar of supported types (leaves, containers, tuples, named tuples, dataclasses, models, typed "
    "dicts, unions, images, nested) and random values: encoding, passing through JSON text and decoding must give an equal "
    "value of equal types at every level, the encoding must satisfy the advertised JSON schema, mutated data the schema "
    "rejects must not decode, and the content blocks must spell the encoding with every image in place. Values a tool "
    "returns are compared by structure with what is sent. Tools, tool calls and code round-trip. Distinct by type and value."
)
ASSUMPTIONS = [
    "Images have a mode PNG can store. Bytes are UTF-8. Fields of dataclasses, models and typed dicts that need it are declared Encodable.",
    "Unions whose members have confusable encodings (a number as a complex number) are not generated.",
    "Python sequences are accepted for tuples on decoding; other coercions of pydantic's lax mode do not count as wrong values.",
    "Dictionaries that are complete content blocks of their own are content blocks.",
]
NEED = {"roundtrips": 300, "mutants_rejected": 300, "images_in_place": 60, "tool_results": 80, "tools": 60, "calls": 60, "call_mutants": 40, "code": 30}


def decode_image(block):
    url = block["image_url"]
    url = url["url"] if isinstance(url, dict) else url
    im = Image.open(io.BytesIO(base64.b64decode(url.split(",")[1])))
    im.load()
    return im


def is_image_block(v):
    return isinstance(v, dict) and v.get("type") == "image_url" and isinstance(v.get("image_url"), dict) and "url" in v["image_url"]


def pieces(encoded):
    """What the content blocks must be: texts and images of the JSON text of ``encoded``."""
    if isinstance(encoded, str):
        return [encoded]
    imgs = []

    def sub(v):
        if is_image_block(v):
            imgs.append(v)
            return f"\x00<{len(imgs) - 1}>\x00"
        if isinstance(v, dict):
            return {k: sub(x) for k, x in v.items()}
        if isinstance(v, list):
            return [sub(x) for x in v]
        return v

    text = json.dumps(sub(encoded))
    out = []
    for i, im in enumerate(imgs):
        before, text = text.split(json.dumps(f"\x00<{i}>\x00"))
        out += [before, im]
    return out + [text]


def check_blocks(c, blocks, encoded, imgs, what):
    want = [p for p in pieces(encoded) if p != ""]
    got = [b["text"] if b["type"] == "text" else b for b in blocks]
    if encoded == "":
        c.check(got in ([""], []), f"{what}: content of the empty string", got=got)
        return
    c.check(all(x["type"] in ("text", "image_url") for x in blocks), f"{what}: unexpected block", blocks=blocks)
    c.check([x if isinstance(x, str) else "<img>" for x in got] == [x if isinstance(x, str) else "<img>" for x in want],
            f"{what}: content differs", got=got, want=want)
    ims = [decode_image(b) for b in got if not isinstance(b, str)]
    c.check(len(ims) == len(imgs) and all(same_image(a, b) for a, b in zip(ims, imgs)), f"{what}: images lost or reordered")
    c.count("images_in_place", len(ims))


# deeper than any generated type
DEEP = {"zz": [[{"zz": [[["zz!"]]]}]]}


def mutations(rng, data, n):
    """Random changes of JSON data (deep copies)."""

    def paths(v, p=()):
        out = [p]
        if isinstance(v, dict):
            for k in v:
                out += paths(v[k], p + (k,))
        elif isinstance(v, list):
            for i in range(len(v)):
                out += paths(v[i], p + (i,))
        return out

    ps = paths(data)
    for _ in range(n):
        box = [copy.deepcopy(data)]
        p = rng.choice(ps)
        node, key = box, 0
        for k in p:
            node, key = node[key], k
        cur = node[key]
        r = rng.random()
        weird = rng.choice([copy.deepcopy(DEEP), [[["zz"]], {"zz": 1}, 5, None, "q", 7.5, {}], "no-such-value", None, {}, 10.5])
        if isinstance(cur, dict) and cur and r < 0.35:
            del cur[rng.choice(list(cur))]
            yield "remove", box[0], False
        elif isinstance(cur, dict) and r < 0.7:
            cur["zz_extra"] = copy.deepcopy(DEEP)
            yield ("add" if not p else "add-inside"), box[0], False
        elif isinstance(cur, list) and r < 0.5:
            cur.append(copy.deepcopy(DEEP))
            yield "append", box[0], False
        else:
            node[key] = weird
            yield "replace", box[0], not isinstance(weird, (dict, list))


def roundtrip(c):
    rng = c.rng
    d = gen_type(rng, rng.choice([0, 1, 2, 2, 3]))
    v = gen_value(d, rng)
    c.info(f"type {d!r}\nvalue {v!r}")
    A = pydantic.TypeAdapter(Encodable[d.ty])
    e = A.dump_python(v, mode="json", context={})
    text = json.dumps(e)
    c.check(json.loads(text) == e, "the encoding is not JSON data", e=e)
    back = A.validate_python(json.loads(text), context={})
    c.check(same(back, v), "decoding the encoding gives another value", type=d, value=v, encoded=e, back=back)
    again = A.validate_json(text, context={})
    c.check(same(again, v), "decoding the JSON text gives another value", type=d, value=v, encoded=e, back=again)
    c.count("roundtrips")
    # schema
    schema = A.json_schema()
    V = jsonschema.Draft202012Validator(schema)
    errs = [x.message[:200] for x in V.iter_errors(e)]
    c.check(not errs, "the encoding violates the advertised schema", type=d, encoded=e, schema=schema, errors=errs[:3])
    check_blocks(c, to_content_blocks(e), e, images(v) if "set" not in kinds(d) else images(v), repr(d))
    # boxed response, as used for the answers of a model
    B = pydantic.create_model("Boxed", value=Encodable[d.ty])
    c.check(same(B.model_validate({"value": json.loads(text)}, context={}).value, v), "a boxed value decodes to another value", type=d, value=v)
    # data outside the schema
    strict = "image" not in kinds(d)
    for how, m, scalar in mutations(rng, e, 6):
        valid = V.is_valid(m)
        bad = not valid
        if how == "add-inside" or how == "add" and d.kind not in ("tuple", "nt", "complex"):
            bad = False  # ignoring an unknown key of a class is not a wrong value
        try:
            r = A.validate_python(copy.deepcopy(m), context={})
        except pydantic.ValidationError:
            if not valid:
                c.count("mutants_rejected")
            elif strict and how in ("remove", "add") and not kinds(d) & {"date", "datetime", "uuid", "decimal", "bytes", "idict"}:
                c.fail("data that satisfies the schema does not decode", type=d, data=m, schema=schema)
            continue
        if bad and not tolerated(kinds(d), how, scalar):
            c.fail(f"data outside the schema decodes ({how})", type=d, data=m, result=r, schema=schema)
    c.key((repr(d), repr(e)[:300]))


def tolerated(kinds, how, scalar):
    """Conversions of pydantic's lax mode (a number for a date or a decimal)."""
    return how == "replace" and scalar and bool(kinds & {"date", "datetime", "uuid", "decimal", "bytes"})


def gen_runtime(rng, depth):
    """A value with parts of any types, as a tool may return it."""
    if depth <= 0 or rng.random() < 0.3:
        r = rng.random()
        if r < 0.3:
            return make_image(rng)
        return gen_value(leaf(rng.choice(["int", "float", "bool", "str", "none", "complex", "date"])), rng)
    k = rng.choice(["list", "tuple", "dict", "list", "typed"])
    n = rng.choice([0, 1, 2, 2, 3])
    if k == "list":
        return [gen_runtime(rng, depth - 1) for _ in range(n)]
    if k == "tuple":
        return tuple(gen_runtime(rng, depth - 1) for _ in range(n))
    if k == "dict":
        return {f: gen_runtime(rng, depth - 1) for f in rng.sample(FIELDS, n)}
    return gen_value(gen_type(rng, 1), rng)


def matches(j, v):
    """Whether JSON data (images left in place) spells the value, by structure."""
    if isinstance(v, Image.Image):
        return is_image_block(j) and same_image(decode_image(j), v)
    if isinstance(v, tuple) and hasattr(v, "_fields") and isinstance(j, dict):
        return isinstance(j, dict) and list(j) == list(v._fields) and all(matches(j[f], x) for f, x in zip(v._fields, v))
    if isinstance(v, tuple):
        if isinstance(j, dict):
            return list(j) == [f"item_{i}" for i in range(len(v))] and all(matches(j[f"item_{i}"], x) for i, x in enumerate(v))
        return isinstance(j, list) and len(j) == len(v) and all(matches(a, x) for a, x in zip(j, v))
    if isinstance(v, list):
        return isinstance(j, list) and len(j) == len(v) and all(matches(a, x) for a, x in zip(j, v))
    if isinstance(v, (set, frozenset)):
        return isinstance(j, list) and len(j) == len(v) and all(any(matches(a, x) for a in j) for x in v)
    if isinstance(v, dict):
        return isinstance(j, dict) and list(j) == [str(k) for k in v] and all(matches(j[str(k)], x) for k, x in v.items())
    if v is None or isinstance(v, bool):
        return j is v
    if isinstance(v, (int, float)) :
        return isinstance(j, (int, float)) and not isinstance(j, bool) and j == v
    if isinstance(v, complex):
        return j == {"real": v.real, "imag": v.imag} or (isinstance(j, str) and complex(j) == v)
    if isinstance(v, str):
        return j == str(v)
    if hasattr(v, "__dataclass_fields__"):
        return isinstance(j, dict) and list(j) == list(v.__dataclass_fields__) and all(matches(j[f], getattr(v, f)) for f in j)
    if isinstance(v, pydantic.BaseModel):
        return isinstance(j, dict) and list(j) == list(type(v).model_fields) and all(matches(j[f], getattr(v, f)) for f in j)
    return j is not None  # dates, enumerations ...: covered by the round trips


def join(blocks):
    return "".join(b["text"] if b["type"] == "text" else json.dumps(b) for b in blocks)


def returned(c):
    """The message answering a tool call spells the value the tool returned."""
    rng = c.rng
    v = gen_runtime(rng, rng.choice([1, 2, 3]))
    c.info(f"value {v!r}")

    @Tool.define
    def produce():
        """Produces a value."""
        return v

    sig = inspect.signature(produce)
    tid = f"call_{rng.randint(0, 99)}"
    m = call_tool(DecodedToolCall(tool=produce, bound_args=sig.bind(), id=tid, name="produce"))
    c.check(m["role"] == "tool" and m["tool_call_id"] == tid, "the answer does not identify the call", m=m)
    blocks = m["content"]
    if isinstance(v, str):
        c.check(join(blocks) == str(v), "the answer is not the text returned", blocks=blocks, v=v)
    else:
        try:
            j = json.loads(join(blocks))
        except ValueError:
            j = join(blocks)
        c.check(matches(j, v), "the answer is not the value returned", blocks=blocks, v=v)
        if isinstance(j, (list, dict)):
            check_blocks(c, blocks, j, images(v), "tool answer")
    c.count("tool_results")
    c.key((repr(v)[:300]))


def build_tool(rng, name, types, log, posonly=0, defaults=None):
    names = rng.sample(FIELDS, len(types))
    params = [
        inspect.Parameter(n, inspect.Parameter.POSITIONAL_ONLY if i < posonly else inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=d.ty)
        for i, (n, d) in enumerate(zip(names, types))
    ]
    nkw = rng.randint(0, len(params) - posonly) if params else 0
    for i in range(len(params) - nkw, len(params)):
        params[i] = params[i].replace(kind=inspect.Parameter.KEYWORD_ONLY)
    src = [f"def {name}("]
    parts = []
    for i, p in enumerate(params):
        if posonly and i == posonly:
            parts.append("/")
        if p.kind is inspect.Parameter.KEYWORD_ONLY and "*" not in parts:
            parts.append("*")
        parts.append(p.name + (f"=defaults[{i}]" if defaults and i in defaults else ""))
    if posonly and posonly == len(params):
        parts.append("/")
    if posonly and nkw and posonly == len(params) - nkw:
        parts.remove("*")
        parts.insert(parts.index("/") + 1, "*")
    src = f"def {name}({', '.join(parts)}):\n    '''Does things with {name}.'''\n    log.append({{{', '.join(f'{n!r}: {n}' for n in names)}}})\n    return 1\n"
    ns = {"log": log, "defaults": defaults}
    exec(src, ns)
    f = ns[name]
    f.__annotations__ = {**{n: d.ty for n, d in zip(names, types)}, "return": int}
    f.__module__ = __name__
    return Tool.define(f), names


def tools(c):
    rng = c.rng
    types = [gen_type(rng, rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 3))]
    log = []
    pos = rng.choice([0, 0, 0, 1]) if types else 0
    vals = [gen_value(d, rng) for d in types]
    first = rng.randint(0, len(types)) if rng.random() < 0.6 else len(types)  # parameters with default values
    defaults = {i: vals[i] if rng.random() < 0.5 else gen_value(types[i], rng) for i in range(first, len(types))}
    tool, names = build_tool(rng, rng.choice(["frob", "lookup_2"]), types, log, pos, defaults)
    vals = dict(zip(names, vals))
    alias = rng.choice([tool.__name__, "alias", "self__frob"])
    other, _ = build_tool(rng, "other", [], [])
    ctx = {"other": other, alias: tool}
    c.info(f"tool {dict(zip(names, types))} posonly {pos} alias {alias}")
    spec = pydantic.TypeAdapter(Encodable[type(tool)]).dump_python(tool, mode="json", context={alias: tool})
    c.check(json.loads(json.dumps(spec)) == spec, "the specification is not JSON data")
    fn = spec["function"]
    c.check(fn["name"] == alias, "advertised under another name", spec=spec)
    c.check(fn["description"].strip() == f"Does things with {tool.__name__}.", "another description", spec=spec)
    P = fn["parameters"]
    c.check(list(P.get("properties", {})) == names and sorted(P.get("required", [])) == sorted(names) and P.get("additionalProperties") is False,
            "the advertised parameters are not those of the signature", spec=spec, names=names)
    c.check(pydantic.TypeAdapter(Encodable[type(tool)]).validate_python(spec, context=ctx) is tool, "the specification decodes to another tool")
    c.count("tools")
    # calls
    A = pydantic.TypeAdapter(Encodable[DecodedToolCall])
    enc = {n: pydantic.TypeAdapter(Encodable[d.ty]).dump_python(vals[n], mode="json", context={}) for n, d in zip(names, types)}
    order = list(names)
    rng.shuffle(order)
    raw = {"id": f"c{rng.randint(0, 9)}", "type": "function", "function": {"name": alias, "arguments": json.dumps({n: enc[n] for n in order})}}
    call = A.validate_python(raw, context=ctx)
    c.check(call.tool is tool and call.id == raw["id"] and call.name == alias, "decoded to another call", call=call)
    call.tool(*call.bound_args.args, **call.bound_args.kwargs)
    c.check(len(log) == 1 and same({n: log[0][n] for n in names}, vals), "the tool received other arguments", got=log, want=vals)
    e = A.dump_python(call, mode="json", context=ctx)
    c.check(e["id"] == raw["id"] and e["function"]["name"] == alias, "the call encodes to another call", e=e, raw=raw)
    c.check(set(json.loads(e["function"]["arguments"])) == set(names), "the encoded call has other arguments", e=e, raw=raw)
    if defaults:
        c.count("default_parameters")
    again = A.validate_python(json.loads(json.dumps(e)), context=ctx)
    c.check(again.tool is tool and again.id == call.id and again.name == call.name and same(dict(again.bound_args.arguments), dict(call.bound_args.arguments)),
            "a tool call does not survive encoding", call=call, again=again)
    c.count("calls")
    # calls that must not decode
    V = jsonschema.Draft202012Validator(P)
    bad = [("unknown tool", {**raw["function"], "name": "nope"}), ("not JSON", {**raw["function"], "arguments": "{'a': 1"}),
           ("not an object", {**raw["function"], "arguments": rng.choice(["[1]", "3", '"x"', "null"])}),
           ("extra argument", {**raw["function"], "arguments": json.dumps({**enc, "zz_extra": 1})})]
    if names and 0 not in defaults:
        bad.append(("missing argument", {**raw["function"], "arguments": json.dumps({n: enc[n] for n in names[1:]})}))
    for what, f in bad:
        try:
            r = A.validate_python({**raw, "function": f}, context=ctx)
        except Exception:
            c.count("call_mutants")
            continue
        c.fail(f"a call with {what} decodes", call=f, result=r)
    c.check(len(log) == 1, "decoding calls ran the tool")
    c.key((repr(types), alias, pos))


def code(c):
    import types

    rng = c.rng
    lines = [rng.choice(["x = 1", "def f(a):\n    return a + 1", "# note", "", "s = 'é'", "for i in range(3):\n    print(i)", "class K:\n    pass",
                         "t = '''a\n  b'''", "y = (1,\n     2)"]) for _ in range(rng.randint(0, 5))]
    src = "\n".join(lines) + rng.choice(["", "\n"])
    A = pydantic.TypeAdapter(Encodable[types.CodeType])
    prov = rng.choice([UnsafeEvalProvider, RestrictedEvalProvider])()
    with handler(prov):
        codes = [A.validate_python(src, context={}) for _ in range(2)]
        other = A.validate_python("zz = 5\n", context={})
        c.check(isinstance(codes[0], types.CodeType), "not code")
        for k in codes:
            e = A.dump_python(k, mode="json", context={})
            c.check(e == src, "the source does not survive", got=e, want=src)
            c.check(A.validate_python(k, context={}) is k, "code does not decode to itself")
        c.check(A.dump_python(other, mode="json", context={}) == "zz = 5\n", "sources are confused")
        for bad in ["x = ", "def f(:\n  pass", "return 1", "from __future__ import annotations\nx = 1", "from os import *", "x = 1\n  y = 2", 3, None, ["x"]]:
            c.raises(pydantic.ValidationError, lambda: A.validate_python(bad, context={}), f"decoding {bad!r} as code")
    c.check(jsonschema.Draft202012Validator(A.json_schema()).is_valid(src), "the source violates the schema")
    c.count("code")
    c.key(src)


SECTIONS = [
    Section("roundtrip", roundtrip, 900, 60000, 4),
    Section("returned", returned, 240, 20000, 2),
    Section("tools", tools, 240, 20000, 2),
    Section("code", code, 60, 2000, 1),
]
