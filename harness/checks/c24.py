"""C24: prompts render exactly the template with the arguments' encodings."""
import collections
import dataclasses
import itertools
import json
import linecache
import textwrap
import warnings

from PIL import Image

from harness.checks.c20 import decode_image
from harness.core import Section
from harness.llm import Model, text
from harness.llmtypes import make_image, same_image

from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.completions import LiteLLMProvider
from effectful.ops.semantics import handler
from effectful.ops.types import NotHandled

warnings.simplefilter("ignore")

RULE = (
    "Random prompts: literal text of any characters (braces escaped, newlines, indentation), placeholders naming parameters, "
    "locals of enclosing functions, globals and methods' objects, with attribute and index paths, conversions and format "
    "specifications (nested ones too), defined as functions, methods, static and class methods; the user message sent is "
    "compared with an independent rendering, images in place. Prompts with names that are not visible must be rejected when "
    "the template is defined, for every position a name can have. Distinct by prompt."
)
ASSUMPTIONS = [
    "Conversions and format specifications apply to the text of the encoded value, and prompts are dedented first (as documented in the tests).",
    "Values with images are used without conversion and specification.",
]
NEED = {"prompts": 200, "placeholders": 500, "images": 25, "rejected": 100, "accepted": 100}

_n = itertools.count()


@dataclasses.dataclass
class P:
    a: int
    b: str
    inner: object = None


def value(rng, depth=2):
    k = rng.choice(["str", "str", "int", "float", "bool", "none", "image", "list", "dict", "tuple", "P"]) if depth else rng.choice(["str", "int", "float", "bool"])
    if k == "str":
        return rng.choice(["", "cat", "two words", "{x}", "{{y}}", "é\n 中", '"q"', "a'b", "%s", "  pad "])
    if k == "int":
        return rng.choice([0, -5, 12345, True.__int__()])
    if k == "float":
        return rng.choice([0.5, -1.25, 3.0])
    if k == "bool":
        return rng.random() < 0.5
    if k == "none":
        return None
    if k == "image":
        return make_image(rng)
    n = rng.randint(0, 2)
    if k == "list":
        return [value(rng, depth - 1) for _ in range(n)]
    if k == "tuple":
        if depth < 2:  # spelled as an object or an array, depending on its siblings
            return n
        return tuple(value(rng, 0) if rng.random() < 0.7 else make_image(rng) for _ in range(n + 1))
    if k == "dict":
        return {key: value(rng, depth - 1) for key in rng.sample(["k", "two words", "type", "0"], n)}
    return P(rng.randint(0, 9), rng.choice(["x", "{b}"]), value(rng, 0))


def has_image(v):
    if isinstance(v, Image.Image):
        return True
    if isinstance(v, dict):
        return any(map(has_image, v.values()))
    if isinstance(v, (list, tuple)):
        return any(map(has_image, v))
    return False


def spell(v, top=True):
    """Texts and images of a value."""
    if isinstance(v, Image.Image):
        return [v]
    if isinstance(v, str) and top:
        return [v]
    if isinstance(v, P):
        v = {"a": v.a, "b": v.b, "inner": v.inner}
    if isinstance(v, tuple):
        v = {f"item_{i}": x for i, x in enumerate(v)}
    if isinstance(v, dict):
        out = ["{"]
        for i, (k, x) in enumerate(v.items()):
            out += [", "] * (i > 0) + [json.dumps(k) + ": "] + spell(x, False)
        return out + ["}"]
    if isinstance(v, list):
        out = ["["]
        for i, x in enumerate(v):
            out += [", "] * (i > 0) + spell(x, False)
        return out + ["]"]
    return [json.dumps(v)]


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not (isinstance(p, str) and p == ""):
            out.append(p)
    return [p for p in out if not (isinstance(p, str) and p == "")]


def steps(rng, v):
    """A random path into v: the text of it and what it leads to."""
    path = ""
    for _ in range(3):
        if rng.random() < 0.4:
            break
        if isinstance(v, P):
            f = rng.choice(["a", "b", "inner"])
            path, v = path + "." + f, getattr(v, f)
        elif isinstance(v, (list, tuple)) and v:
            i = rng.randrange(len(v))
            path, v = path + f"[{i}]", v[i]
        elif isinstance(v, dict) and v and set(v) != {"0"}:
            k = rng.choice([k for k in v if k != "0"])
            path, v = path + f"[{k}]", v[k]
        else:
            break
    return path, v


LITERALS = ["Hello ", "\n", "  indented\n", "{", "}", "{}", "a {b} c", "%d", "$x", "é中", ": ", "!r", "\t", "'quoted'", '"""', "\\n", "end.", " and ", "{{x}}", "\n\n"]


def prompt(rng, names):
    """A prompt (source text) and the pieces it renders to; names maps roots to values."""
    src, want, holes = "", [], 0
    for _ in range(rng.randint(1, 7)):
        if rng.random() < 0.45 or not names:
            t = rng.choice(LITERALS)
            src += t.replace("{", "{{").replace("}", "}}")
            want.append(t)
            continue
        root = rng.choice(list(names))
        path, v = steps(rng, names[root])
        conv = spec = ""
        ps = spell(v)
        if not has_image(v):
            s = "".join(ps)
            if rng.random() < 0.3:
                conv = rng.choice("rsa")
                s = {"r": repr, "s": str, "a": ascii}[conv](s)
            if rng.random() < 0.35:
                widths = [n for n, x in names.items() if type(x) is int and 0 < x < 40]
                if widths and rng.random() < 0.5:
                    w = rng.choice(widths)
                    spec = rng.choice([">", "*^", ""]) + "{" + w + "}"
                    s = format(s, spec.replace("{" + w + "}", str(names[w])))
                else:
                    spec = rng.choice([">12", "*^20", ".3", "<5", "s", "10.2"])
                    s = format(s, spec)
            ps = [s]
        src += "{" + root + path + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}"
        want += ps
        holes += 1
    return src, want, holes


def dedent_pieces(src, want):
    return want


KINDS = ["function", "function", "local", "nested", "method", "agent", "static", "class"]


def build(kind, doc, params, loc, glob, extra=None):
    """Defines a template with the given prompt; returns a callable."""
    ns = {"Template": Template, "NotHandled": NotHandled, "Agent": Agent, "P": P, "Tool": Tool, "Image": Image, "__name__": f"prompts_{next(_n)}", **glob}
    sig = ", ".join(f"{p}: object" for p in params)
    body = f"{doc!r}\nraise NotHandled\n"
    ind = lambda s, k: textwrap.indent(s, " " * k)
    if kind == "function":
        ns.update(loc)
        src = f"@Template.define\ndef ask({sig}) -> str:\n{ind(body, 4)}\nresult = ask\n"
    elif kind == "local":
        src = f"def make({', '.join(loc)}):\n    @Template.define\n    def ask({sig}) -> str:\n{ind(body, 8)}\n    return ask\nresult = make(**LOC)\n"
    elif kind == "nested":
        half = list(loc)[: len(loc) // 2]
        rest = list(loc)[len(loc) // 2:]
        src = (f"def outer({', '.join(half)}):\n    def make({', '.join(rest)}):\n        @Template.define\n        def ask({sig}) -> str:\n{ind(body, 12)}\n"
               f"        return ask\n    return make(**{{k: LOC[k] for k in {rest!r}}})\nresult = outer(**{{k: LOC[k] for k in {half!r}}})\n")
    else:
        dec, first = {"method": ("", "self"), "agent": ("", "self"), "static": ("        @staticmethod\n", ""), "class": ("        @classmethod\n", "cls")}[kind]
        base = "(Agent)" if kind == "agent" else ""
        sg = ", ".join(x for x in [first, sig] if x)
        src = (f"def make({', '.join(loc)}):\n    class K{base}:\n        '''Doc.'''\n        hidden_in_class = 1\n        @Template.define\n{dec}        def ask({sg}) -> str:\n{ind(body, 12)}\n"
               f"    k = K()\n    k.attr = ATTR\n    K.cattr = ATTR\n    return k.ask\nresult = make(**LOC)\n")
    ns["LOC"] = loc
    ns["ATTR"] = extra
    fname = f"<prompt {next(_n)}>"
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    try:
        exec(compile(src, fname, "exec"), ns)
    finally:
        del linecache.cache[fname]
    return ns["result"]


def rendering(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    params = {n: value(rng) for n in rng.sample(["x", "y", "topic", "_p", "width"], rng.randint(0, 3))}
    loc = {n: value(rng) for n in rng.sample(["l1", "l2", "loc", "x2"], rng.randint(0, 2))}
    glob = {n: value(rng) for n in rng.sample(["G", "g2", "l1"], rng.randint(0, 2))}
    if "width" in params:
        params["width"] = rng.randint(1, 30)
    names = {**glob, **loc, **params}
    extra = None
    if kind in ("method", "agent"):
        extra = value(rng)
    doc, want, holes = prompt(rng, names)
    if extra is not None and kind in ("method", "agent"):
        path, v = steps(rng, extra)
        doc += "{self.attr" + path + "}"
        want += spell(v)
        holes += 1
    if not doc.strip() or textwrap.dedent(doc) != doc:
        doc, want = "Say: " + doc + " end.", ["Say: ", *want, " end."]
    if textwrap.dedent(doc) != doc:  # whitespace-only lines: see dedenting
        return
    c.info(f"kind {kind}\nprompt {doc!r}\nparams {params}\nlocals {loc}\nglobals {glob} attr {extra!r}")
    ask = build(kind, doc, params, loc, glob, extra)
    model = Model([text("ok")])
    with handler(LiteLLMProvider()), handler(model):
        if rng.random() < 0.5:
            r = ask(*params.values())
        else:
            r = ask(**params)
    c.check(r == "ok", "another result", r=r)
    c.check(len(model.requests) == 1, "not one request")
    ms = model.requests[0].messages
    c.check([m["role"] for m in ms] == ["system", "user"], "other messages", ms=ms)
    got = ms[1]["content"]
    want = merge(want)
    gl = [b["text"] if b["type"] == "text" else decode_image(b) for b in got]
    gl = [x for x in gl if not (isinstance(x, str) and x == "")]
    c.check(all(isinstance(b, str) or same_image(b, w) for b, w in zip(gl, want) if not isinstance(w, str)) and
            [x if isinstance(x, str) else 0 for x in merge(gl)] == [x if isinstance(x, str) else 0 for x in want] and len(merge(gl)) == len(gl),
            "the prompt renders differently", got=gl, want=want)
    c.count("prompts")
    c.count("placeholders", holes)
    c.count("images", sum(not isinstance(w, str) for w in want))
    c.key((kind, doc))


def dedenting(c):
    """Indented docstrings lose the common indentation of the text, not of the values."""
    rng = c.rng
    lines = [" " * rng.choice([0, 2, 4]) + rng.choice(["Write {x}.", "{x!r}", "plain", "{{x}}", "\tTab {x}"]) for _ in range(rng.randint(1, 4))]
    pad = " " * rng.choice([4, 8])
    doc = "\n".join(pad + l for l in lines)
    if rng.random() < 0.5:
        doc = "\n" + doc + "\n" + pad
    x = rng.choice(["v", "l1\n    l2", "  lead"])
    ask = build("function", doc, {"x": x}, {}, {})
    want = textwrap.dedent(doc).replace("{{x}}", "\0").replace("{x!r}", repr(x)).replace("{x}", x).replace("\0", "{x}")
    model = Model([text("ok")])
    with handler(LiteLLMProvider()), handler(model):
        ask(x)
    got = model.requests[0].messages[1]["content"]
    c.check([b["text"] for b in got] == [want], "the prompt renders differently", got=got, want=want)
    c.key(doc)


def validation(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    kw = dict(params={"x": "v"}, loc={"loc": "7"}, glob={"G": "u"}, extra="e")
    good = rng.choice(["{x}", "{loc}", "{G}", "{x!r}", "{x:>5}", "{loc!s:^3}", "{x:{loc}}", "{x!r:>{loc[0]}}", "{G:{loc}.{loc}}", "no names {{unknown}}", "{G[0]}", "{x.__class__.__name__}"])
    bad = rng.choice([
        "{unknown}", "{unknown.attr}", "{unknown[0]}", "{unknown!r}", "{unknown:>5}", "{unknown!s:.2}", "{}", "{0}", "{0.a}", "{X}",
        "{x:{unknown}}", "{x:>{unknown}}", "{x!r:{unknown.width}}", "{hidden_in_class}", "{x1}", "{xx}", "{unknown-x}", "{x-unknown}", "{x y}", "{ x}",
        "{len}", "{.a}", "{[0]}",
    ])
    filler = rng.choice(["", "Text. ", "{x} and {G}. ", "{{a}} "])
    ok = filler + good
    c.info(f"{kind}: {ok!r} / {bad!r}")
    ask = build(kind, ok, **kw)
    model = Model([text("ok")])
    with handler(LiteLLMProvider()), handler(model):
        ask("v")
    c.count("accepted")
    doc = rng.choice([bad + filler, filler + bad, filler + bad + " " + good])
    try:
        build(kind, doc, **kw)
    except TypeError:
        c.count("rejected")
    except ValueError:
        c.count("rejected")
    else:
        c.fail(f"a prompt with {bad!r} is accepted", kind=kind, doc=doc)
    c.key((kind, ok, doc))


SECTIONS = [
    Section("rendering", rendering, 400, 30000, 3),
    Section("dedenting", dedenting, 60, 3000, 1),
    Section("validation", validation, 240, 10000, 1),
]
