"""A grammar of types a language model exchanges values of, with values,
comparison and the images a value contains, all independent of the encoders."""
import dataclasses
import datetime
import enum
import io
import itertools
import math
import typing
import uuid
from decimal import Decimal

import pydantic
from PIL import Image

from effectful.handlers.llm.encoding import Encodable

_names = itertools.count()


class Color(enum.Enum):
    RED = "red"
    GREEN = "green"
    TEN = 10


class Mood(enum.StrEnum):
    UP = "up"
    DOWN = "down"


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


@dataclasses.dataclass
class D:
    """A type: its kind, the annotation, and its parts."""

    kind: str
    ty: object
    parts: tuple = ()
    names: tuple = ()
    encodable: bool = False  # needs Encodable when it is a field of a class

    def __repr__(self):
        if self.names:
            return f"{self.kind}({', '.join(f'{n}:{p!r}' for n, p in zip(self.names, self.parts))})"
        if self.kind == "literal":
            return f"literal{self.parts}"
        return self.kind + (f"({', '.join(map(repr, self.parts))})" if self.parts else "")


LEAVES = {
    "int": int, "float": float, "bool": bool, "str": str, "none": type(None), "complex": complex, "image": Image.Image,
    "color": Color, "mood": Mood, "level": Level, "date": datetime.date, "datetime": datetime.datetime, "uuid": uuid.UUID,
    "decimal": Decimal, "bytes": bytes,
}
HASHABLE = ["int", "str", "bool", "color", "date", "uuid", "complex"]
STRINGS = [
    "", "a", "hello world", "line\nbreak", "tab\t", '{"a": 1}', '"quoted"', "é ü 中文 🙂", "back\\slash", "null", "1", "true",
    "{x}", "</instructions>", "[1, 2", "data:image/png;base64,AA==", " lead", "\u2028", "text", "image_url",
]
KEYS = ["a", "b", "type", "name", "item_0", "b c", "é", "real", "$ref", "url", "", "0"]
FIELDS = ["a", "b", "name", "kind", "type", "x1", "value", "item_0", "real"]


def leaf(k):
    return D(k, LEAVES[k], encodable=k in ("image", "complex"))


def gen_type(rng, depth, image=True, leaves=None):
    if depth <= 0 or rng.random() < 0.2:
        if leaves:
            return leaf(rng.choice(leaves))
        r = rng.random()
        if image and r < 0.14:
            return leaf("image")
        if r < 0.24:
            vals = tuple(rng.sample(["a", "b", "type", 1, 2, -3, "1"], rng.randint(1, 3)))
            return D("literal", typing.Literal[vals], vals)
        if r < 0.30:
            return D("annotated", typing.Annotated[int, "meta"])
        return leaf(rng.choice([k for k in LEAVES if k != "image"]))
    k = rng.choice(["list", "dict", "set", "tuple", "tuple", "vtuple", "nt", "dc", "model", "td", "opt", "union", "list", "idict"])
    sub = lambda: gen_type(rng, depth - 1, image)
    if k == "list":
        p = sub()
        return D(k, list[p.ty], (p,), encodable=p.encodable)
    if k == "dict":
        p = sub()
        return D(k, dict[str, p.ty], (p,), encodable=p.encodable)
    if k == "idict":
        p = sub()
        return D(k, dict[int, p.ty], (p,), encodable=p.encodable)
    if k == "set":
        p = leaf(rng.choice(HASHABLE))
        if rng.random() < 0.3:
            p = D("tuple", tuple[p.ty, int], (p, leaf("int")), encodable=True)
        if rng.random() < 0.5:
            return D("set", set[p.ty], (p,), encodable=p.encodable)
        return D("frozenset", frozenset[p.ty], (p,), encodable=p.encodable)
    if k == "tuple":
        ps = tuple(sub() for _ in range(rng.randint(0, 3)))
        ty = tuple[tuple(p.ty for p in ps)] if ps else tuple[()]
        return D(k, ty, ps, encodable=True)
    if k == "vtuple":
        p = sub()
        return D(k, tuple[p.ty, ...], (p,), encodable=p.encodable)
    if k in ("nt", "dc", "model", "td"):
        names = tuple(rng.sample(FIELDS, rng.randint(1, 3)))
        ps = tuple(sub() for _ in names)
        cname = f"{k.upper()}{next(_names)}"
        if k == "nt":
            return D(k, typing.NamedTuple(cname, [(n, p.ty) for n, p in zip(names, ps)]), ps, names, encodable=True)
        ann = [Encodable[p.ty] if p.encodable or rng.random() < 0.4 else p.ty for p in ps]
        if k == "dc":
            ty = dataclasses.make_dataclass(cname, list(zip(names, ann)), frozen=rng.random() < 0.3)
        elif k == "model":
            ty = pydantic.create_model(cname, **{n: (a, ...) for n, a in zip(names, ann)})
        else:
            ty = typing.TypedDict(cname, dict(zip(names, ann)))
        return D(k, ty, ps, names)
    if k == "opt":
        p = sub()
        ty = p.ty | None if rng.random() < 0.5 else typing.Optional[p.ty]
        return D(k, ty, (p,), encodable=p.encodable)
    # a union of types whose encodings cannot be confused with each other
    ps = rng.choice([
        lambda: [leaf("int"), leaf("str")],
        lambda: [leaf("bool"), leaf("int"), leaf("str")],
        lambda: [D("tuple", tuple[int, str], (leaf("int"), leaf("str")), encodable=True), leaf("str")],
        lambda: [D("nt", typing.NamedTuple(f"NT{next(_names)}", [("p", int), ("q", str)]), (leaf("int"), leaf("str")), ("p", "q"), encodable=True), leaf("int")],
        lambda: [D("nt", typing.NamedTuple(f"NT{next(_names)}", [("p", int), ("q", int)]), (leaf("int"), leaf("int")), ("p", "q"), encodable=True),
                 D("tuple", tuple[int, int], (leaf("int"), leaf("int")), encodable=True)],
        lambda: [leaf("complex"), leaf("str")],
        lambda: [D("tuple", tuple[int], (leaf("int"),), encodable=True), D("tuple", tuple[int, int], (leaf("int"), leaf("int")), encodable=True)],
        lambda: [leaf("str"), D("list", list[int], (leaf("int"),))],
        lambda: [leaf("image"), leaf("str")] if image else [leaf("int"), leaf("str")],
        lambda: [D("list", list[tuple[int, str]], (D("tuple", tuple[int, str], (leaf("int"), leaf("str")), encodable=True),), encodable=True), leaf("bool")],
    ])()
    rng.shuffle(ps)
    ty = ps[0].ty
    if rng.random() < 0.5:
        for p in ps[1:]:
            ty = ty | p.ty
    else:
        ty = typing.Union[tuple(p.ty for p in ps)]
    return D("union", ty, tuple(ps), encodable=any(p.encodable for p in ps))


def make_image(rng):
    mode = rng.choice(["RGB", "RGBA", "L", "1", "LA"])
    im = Image.new(mode, (rng.randint(1, 4), rng.randint(1, 4)))
    px = im.load()
    for x in range(im.width):
        for y in range(im.height):
            r = [rng.randint(0, 255) for _ in range(4)]
            px[x, y] = {"RGB": tuple(r[:3]), "RGBA": tuple(r), "L": r[0], "1": 255 * (r[0] > 127), "LA": tuple(r[:2])}[mode]
    if rng.random() < 0.5:
        b = io.BytesIO()
        im.save(b, "PNG")
        b.seek(0)
        im = Image.open(b)
        im.load()
    return im


def gen_value(d, rng):
    k = d.kind
    g = lambda p: gen_value(p, rng)
    if k in ("int", "annotated"):
        return rng.choice([0, 1, -1, 7, 2**31, -(2**53), 2**62, rng.randint(-1000, 1000)])
    if k == "float":
        return rng.choice([0.0, -0.0, 1.0, -2.5, 1e300, 5e-324, 0.1, math.pi, rng.uniform(-1e6, 1e6), 3.0])
    if k == "bool":
        return rng.random() < 0.5
    if k == "str":
        return rng.choice(STRINGS)
    if k == "none":
        return None
    if k == "complex":
        return complex(rng.choice([0.0, 1.5, -2.0, 1e10]), rng.choice([0.0, 3.0, -0.25]))
    if k == "image":
        return make_image(rng)
    if k in ("color", "mood", "level"):
        return rng.choice(list(d.ty))
    if k == "date":
        return datetime.date(rng.randint(1970, 2100), rng.randint(1, 12), rng.randint(1, 28))
    if k == "datetime":
        tz = rng.choice([None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30))])
        return datetime.datetime(rng.randint(1970, 2100), rng.randint(1, 12), 3, rng.randint(0, 23), 5, 59, rng.choice([0, 123456]), tz)
    if k == "uuid":
        return uuid.UUID(int=rng.getrandbits(128))
    if k == "decimal":
        return Decimal(rng.choice(["0", "1.10", "-3.5", "12345678901234567890.5"]))
    if k == "bytes":
        return rng.choice([b"", b"ab", "é".encode()])
    if k == "literal":
        return rng.choice(d.parts)
    if k == "list":
        return [g(d.parts[0]) for _ in range(rng.choice([0, 1, 2, 3]))]
    if k == "vtuple":
        return tuple(g(d.parts[0]) for _ in range(rng.choice([0, 1, 2, 3])))
    if k == "dict":
        return {n: g(d.parts[0]) for n in rng.sample(KEYS, rng.choice([0, 1, 2, 3]))}
    if k == "idict":
        return {n: g(d.parts[0]) for n in rng.sample([0, 1, -5, 10**12], rng.choice([0, 1, 2]))}
    if k in ("set", "frozenset"):
        return (set if k == "set" else frozenset)(g(d.parts[0]) for _ in range(rng.choice([0, 1, 2, 3])))
    if k == "tuple":
        return tuple(g(p) for p in d.parts)
    if k in ("nt", "dc", "model", "td"):
        return d.ty(**{n: g(p) for n, p in zip(d.names, d.parts)})
    if k == "opt":
        return None if rng.random() < 0.35 else g(d.parts[0])
    if k == "union":
        return g(rng.choice(d.parts))
    raise AssertionError(k)


def same_image(a, b):
    return isinstance(a, Image.Image) and isinstance(b, Image.Image) and a.mode == b.mode and a.size == b.size and a.tobytes() == b.tobytes()


def field(v, n):
    return v[n] if isinstance(v, dict) else getattr(v, n)


def same(a, b):
    """Equal values of the same types, at every level."""
    if isinstance(b, Image.Image):
        return same_image(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if dataclasses.is_dataclass(b):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(b))
    if isinstance(b, pydantic.BaseModel):
        return all(same(getattr(a, n), getattr(b, n)) for n in type(b).model_fields)
    if isinstance(b, (set, frozenset)):
        return a == b and all(any(type(x) is type(y) and x == y for x in a) for y in b)
    if isinstance(b, float):
        return math.copysign(1, a) == math.copysign(1, b) and a == b
    return a == b


def images(v):
    """The images in a value, in order."""
    if isinstance(v, Image.Image):
        return [v]
    if isinstance(v, dict):
        return [i for x in v.values() for i in images(x)]
    if isinstance(v, (list, tuple, set, frozenset)):
        return [i for x in v for i in images(x)]
    if dataclasses.is_dataclass(v):
        return [i for f in dataclasses.fields(v) for i in images(getattr(v, f.name))]
    if isinstance(v, pydantic.BaseModel):
        return [i for n in type(v).model_fields for i in images(getattr(v, n))]
    return []


def kinds(d):
    out = {d.kind}
    for p in d.parts if d.kind != "literal" else ():
        out |= kinds(p)
    return out
