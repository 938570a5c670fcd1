"""C12: deferred arithmetic gives what Python gives."""
import math
import numbers
import operator
import warnings
from fractions import Fraction

from harness.core import Section

from effectful.ops.semantics import evaluate, fvsof, handler
from effectful.ops.syntax import deffn, defop
from effectful.ops.types import NotHandled, Operation, Term

warnings.simplefilter("ignore")

RULE = (
    "Random numeric expressions over integers (also large), booleans, fractions, floats (also nan, infinities, signed "
    "zeros) and complex numbers are built twice from one plan: with concrete values and with a random subset of leaves "
    "replaced by variables. The deferred one is evaluated at once, in two stages, through substitution and through a "
    "function; value and type must be those of Python, an exception raised exactly when Python raises one. The order in "
    "which variables are read is logged and must be Python's. Distinct by expression and values."
)
ASSUMPTIONS = [
    "== and != on deferred numbers are structural at build time and are not part of this property.",
    "A comparison may be stored as its mirror image (b > a for a < b), as Python reflects it, so its operands may be read in that order.",
    "Python's own numbers cannot be rounded to a deferred number of digits.",
    "divmod, three-argument pow, int(), float(), complex(), bool(), hash() and index use of deferred numbers are not supported.",
    "Python compares a concrete Fraction with a rational expression through numerator and denominator, so the variable occurs twice then.",
    "Which exception is raised is not compared, only that one is.",
]
NEED = {"agree": 3000, "raised": 200, "reflected": 800, "staged": 500, "pairs": 5000, "stored_order": 1500}

INTS = [0, 1, -1, 2, -2, 3, 5, -7, 10, 63, 64, -64, 255, 2**31, -(2**63), 2**100 + 1, 10**17 + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 1.5, 2.5, 1e300, -1e-300, 3.75, math.inf, -math.inf, math.nan, 0.1, 7.0]
FRACS = [Fraction(0), Fraction(1, 2), Fraction(-3, 2), Fraction(7, 3), Fraction(5), Fraction(-1), Fraction(10**20 + 1, 3), Fraction(5, 2)]
CPLX = [0j, 1j, 1 + 2j, -0.5 - 1j, complex(2, 0), complex(math.inf, 1), complex(1, -0.0)]
KINDS = {
    "int": (int, INTS), "bool": (bool, [True, False]), "frac": (Fraction, FRACS), "float": (float, FLOATS),
    "complex": (complex, CPLX), "real": (numbers.Real, [1, 2.5, Fraction(1, 3)]), "num": (numbers.Number, [3, 0.5, 1j, Fraction(2)]),
    "integral": (numbers.Integral, [0, 4, -9]), "rational": (numbers.Rational, [Fraction(9, 4), 2]),
}
BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
    "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
    "^": operator.xor, "|": operator.or_, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge,
}
UN = {
    "neg": operator.neg, "pos": operator.pos, "inv": operator.invert, "abs": abs, "round": round, "floor": math.floor,
    "ceil": math.ceil, "trunc": math.trunc, "conj": lambda v: v.conjugate(), "real": lambda v: v.real, "imag": lambda v: v.imag,
    "num": lambda v: v.numerator, "den": lambda v: v.denominator, "roundN": lambda v: round(v, None),
    "round1": lambda v: round(v, 1), "round-1": lambda v: round(v, -1), "round0": lambda v: round(v, 0),
}
ARITH = ["+", "-", "*", "/", "//", "%"]
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
           "%": operator.imod, "&": operator.iand, "|": operator.ior, "^": operator.ixor, "<<": operator.ilshift}


@Operation.define
def poly(x: int, y: int = 2) -> int:
    return 3 * x - y // 2 + (y - x)


@Operation.define
def choose(x: float, y: float) -> float:
    raise NotHandled


class Skip(Exception):
    pass


def mag(v):
    try:
        if isinstance(v, (int, Fraction)):
            return max(abs(int(v.numerator)).bit_length(), int(v.denominator).bit_length())
        return 0
    except Exception:
        return 0


def guard(op, a, b):
    """Keeps integers printable."""
    if op in ("**", "<<", ">>") and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if abs(b) > 200 and op != ">>" and not (abs(b) <= 200):
            raise Skip
        if mag(a) * abs(int(b) or 1) > 20000:
            raise Skip
    if mag(a) + mag(b) > 50000:
        raise Skip


def leaf(rng, kinds):
    k = rng.choice(kinds)
    ty, vals = KINDS[k]
    v = rng.choice(vals)
    if k == "int" and rng.random() < 0.3:
        v = rng.randint(-20, 20)
    if k == "float" and rng.random() < 0.3:
        v = rng.uniform(-5, 5)
    return ("leaf", k, v, rng.random() < 0.6)


def plan(rng, depth, kinds):
    if depth == 0 or rng.random() < 0.12:
        return leaf(rng, kinds)
    r = rng.random()
    if r < 0.62:
        op = rng.choice(ARITH * 3 + ["**", "<<", ">>", "&", "^", "|", "<", ">", "<=", ">="])
        a, b = plan(rng, depth - 1, kinds), plan(rng, depth - 1, kinds)
        if op in ("**", "<<") and rng.random() < 0.8:
            b = ("leaf", "int", rng.choice([0, 1, 2, 3, -1]), rng.random() < 0.6)
        return ("bin", op, a, b)
    if r < 0.68:
        return ("ibin", rng.choice(list(INPLACE)), plan(rng, depth - 1, kinds), plan(rng, depth - 1, kinds))
    if r < 0.88:
        return ("un", rng.choice(list(UN)), plan(rng, depth - 1, kinds))
    if r < 0.92:
        return ("sum", [plan(rng, depth - 1, kinds) for _ in range(rng.choice([1, 2, 3]))])
    if r < 0.95:
        a = plan(rng, depth - 1, kinds)  # Python's own numbers cannot round to a deferred number of digits
        return ("roundv", a, ("leaf", "int", rng.choice([0, 1, 2, -1]), has_var(a) and rng.random() < 0.6))
    if r < 0.98:
        return ("poly", plan(rng, depth - 1, kinds), plan(rng, depth - 1, kinds))
    return ("choose", plan(rng, depth - 1, kinds), plan(rng, depth - 1, kinds))


def build(p, leaf, chooser, apply_bin=None):
    k = p[0]
    if k == "leaf":
        return leaf(p)
    if k in ("bin", "ibin"):
        a, b = build(p[2], leaf, chooser, apply_bin), build(p[3], leaf, chooser, apply_bin)
        if apply_bin:
            apply_bin(p[1], a, b)
        return (BIN if k == "bin" else INPLACE)[p[1]](a, b)
    if k == "un":
        return UN[p[1]](build(p[2], leaf, chooser, apply_bin))
    if k == "sum":
        return sum([build(q, leaf, chooser, apply_bin) for q in p[1]])
    if k == "roundv":
        a, b = build(p[1], leaf, chooser, apply_bin), build(p[2], leaf, chooser, apply_bin)
        return round(a, b)
    if k == "poly":
        a, b = build(p[1], leaf, chooser, apply_bin), build(p[2], leaf, chooser, apply_bin)
        if apply_bin:
            guard("*", a, b)
        return poly(a, b) if not apply_bin else 3 * a - b // 2 + (b - a)
    if k == "choose":
        a, b = build(p[1], leaf, chooser, apply_bin), build(p[2], leaf, chooser, apply_bin)
        return chooser(a, b)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, Fraction)):
        return a == b
    return repr(a) == repr(b)


def choose_py(a, b):
    return a - b * 2


def has_var(p):
    if p[0] == "leaf":
        return p[3]
    if p[0] == "sum":
        return any(map(has_var, p[1]))
    return any(has_var(q) for q in p[1:] if isinstance(q, tuple))


class Outcome:
    def __init__(self, fn):
        self.exc = self.value = None
        try:
            self.value = fn()
        except Skip:
            raise
        except Exception as e:
            self.exc = e

    def __repr__(self):
        return f"raises {self.exc!r}" if self.exc is not None else f"{self.value!r}"


FRAC_POW = "fraction-to-the-power-of-a-deferred-rational"


def agree(c, p, kinds, rng):
    log_py, log_df = [], []
    counter = [0]

    # concrete
    def conc(q):
        if q[3]:
            log_py.append(counter[0])
        counter[0] += 1
        return q[2]

    try:
        want = Outcome(lambda: build(p, conc, choose_py, guard))
    except Skip:
        c.count("skipped")
        return
    # deferred
    counter[0] = 0
    variables = {}
    share = rng.random() < 0.3
    by_value = {}

    def df(q):
        i = counter[0]
        counter[0] += 1
        if not q[3]:
            return q[2]
        key = (q[1], repr(q[2]))
        if share and key in by_value:
            v = by_value[key]
        else:
            v = by_value[key] = Operation.define(KINDS[q[1]][0], name=f"v{i}")
        variables[v] = q[2]
        ids.setdefault(v, []).append(i)
        return v()

    ids = {}
    built = Outcome(lambda: build(p, df, choose))
    if built.exc is not None:
        # an exception while building must be Python's too
        if want.exc is None and frac_pow(p)[2]:
            c.known(FRAC_POW, f"building {p} raised {built.exc!r}")
            return
        c.check(want.exc is not None, f"building {p} raised {built.exc!r}, Python gives {want}")
        c.count("raised")
        return
    term = built.value
    if has_var(p) and not isinstance(term, Term):
        c.fail(f"building {p} was evaluated to {term!r}")
    if not has_var(p):
        c.check(isinstance(term, Term) or (want.exc is None and same(term, want.value)), "concrete arithmetic", got=term, want=want)
    if p[0] == "bin" and p[1] not in ("<", ">", "<=", ">=") and isinstance(term, Term) and len(term.args) == 2:
        # the operands are stored in their order
        for side, q in enumerate(p[2:4]):
            if has_var(q) and not has_var(p[3 - side]) and "'choose'" not in repr(p[3 - side]):
                c.check(isinstance(term.args[side], Term) and not isinstance(term.args[1 - side], Term),
                        f"operands of {p} are stored as {term.args}")
                c.count("stored_order")
    c.check(fvs_ok(term, variables), "variables of the expression", term=term)

    def env(log=None):
        out = {choose: choose_py}
        for v, val in variables.items():
            def h(v=v, val=val):
                if log is not None:
                    log.append(v)
                return val
            out[v] = h
        return out

    outs = {}
    log = []

    def at_once():
        with handler(env(log)):
            return evaluate(term)

    outs["at once"] = Outcome(at_once)
    outs["intp"] = Outcome(lambda: evaluate(term, intp=env()))

    def staged():
        vs = list(variables)
        first = {v: (lambda x=variables[v]: x) for v in vs if rng.random() < 0.5}
        t = evaluate(term, intp=first)
        return evaluate(t, intp=env())

    if rng.random() < 0.4:
        outs["staged"] = Outcome(staged)
        c.count("staged")

    def renamed():
        new = {v: Operation.define(v) for v in variables}
        t = evaluate(term, intp={v: (lambda n=n: n()) for v, n in new.items()})
        e = env()
        with handler({choose: choose_py}), handler({new[v]: e[v] for v in new}):
            return evaluate(t)

    if rng.random() < 0.25:
        outs["renamed"] = Outcome(renamed)

    def applied():
        vs = list(variables)
        f = deffn(term, *vs)
        with handler({choose: choose_py}):
            return f(*[variables[v] for v in vs])

    if rng.random() < 0.3 and variables:
        outs["applied"] = Outcome(applied)
        c.count("applied")
    outs["again"] = Outcome(at_once)
    for name, got in outs.items():
        ok = (got.exc is None) == (want.exc is None) and (want.exc is not None or same(got.value, want.value))
        if not ok and frac_pow(p)[2]:
            c.known(FRAC_POW, f"{name}: {p} gives {got}, Python {want}")
            return
        c.check((got.exc is None) == (want.exc is None), f"{name}: {p} gives {got}, Python {want}")
        if want.exc is None:
            c.check(same(got.value, want.value), f"{name}: {p} gives {got} ({type(got.value).__name__}), Python {want} ({type(want.value).__name__})")
    c.count("raised" if want.exc is not None else "agree")
    if want.exc is None and not any_frac(p) and not unordered(p):
        c.count("ordered")
        n = len(log) // 2
        c.check(log[:n] == log[n:], "evaluation order changed")
        seq = log[:n]
        order = [next(v for v, l in ids.items() if i in l) for i in log_py]
        c.check(seq == order, f"variables are read in the order {seq}, Python's is {order}: {p}")
    c.key((p,))


def any_frac(p):
    if p[0] == "leaf":
        return p[1] in ("frac", "rational", "real", "num") and not p[3]
    if p[0] == "sum":
        return any(map(any_frac, p[1]))
    return any(any_frac(q) for q in p[1:] if isinstance(q, tuple))


def unordered(p):
    if p[0] == "leaf":
        return False
    if p[0] == "poly" or p[1] in ("<", ">", "<=", ">="):
        return True
    if p[0] == "sum":
        return any(map(unordered, p[1]))
    return any(unordered(q) for q in p[1:] if isinstance(q, tuple))


def frac_pow(p):
    """Does it raise a concrete Fraction to the power of a deferred number?  (value, deferred, found)"""
    if p[0] == "leaf":
        return p[2], p[3], False
    subs = [frac_pow(q) for q in (p[1] if p[0] == "sum" else [q for q in p[1:] if isinstance(q, tuple)])]
    found = any(f for _, _, f in subs)
    deferred = any(d for _, d, _ in subs)
    vals = [v for v, _, _ in subs]
    if p[0] == "bin" and p[1] == "**" and isinstance(vals[0], Fraction) and not subs[0][1] and subs[1][1]:
        found = True
    try:
        k = p[0]
        v = (BIN[p[1]](*vals) if k == "bin" else INPLACE[p[1]](*vals) if k == "ibin" else UN[p[1]](*vals) if k == "un"
             else sum(vals) if k == "sum" else round(*vals) if k == "roundv" else choose_py(*vals) if k == "choose"
             else 3 * vals[0] - vals[1] // 2 + (vals[1] - vals[0]))
    except Exception:
        v = None
    return v, deferred, found


def fvs_ok(term, variables):
    return set(variables) <= set(fvsof(term))


def expressions(c):
    rng = c.rng
    kinds = rng.choice([
        ["int"], ["int", "bool"], ["float"], ["frac"], ["complex"], ["int", "float"], ["int", "frac"],
        ["int", "float", "frac", "complex", "bool"], ["float", "complex"], ["int", "integral", "rational", "real", "num", "float"],
    ])
    for _ in range(3):
        p = plan(rng, rng.choice([1, 2, 2, 2, 3] + [4] * (c.tier == "thorough")), kinds)
        agree(c, p, kinds, rng)
    c.sample(p)


def pairs(c):
    """Every operator on every pair of kinds, deferred left, right and both."""
    rng = c.rng
    names = list(KINDS)
    ka, kb = names[c.index % len(names)], names[(c.index // len(names)) % len(names)]
    for op in BIN:
        for da, db in ((True, False), (False, True), (True, True)):
            a, b = rng.choice(KINDS[ka][1]), rng.choice(KINDS[kb][1])
            if op in ("**", "<<") and mag(a) > 1 and mag(b) > 6:
                b = rng.choice([v for v in KINDS[kb][1] if mag(v) <= 6])
            agree(c, ("bin", op, ("leaf", ka, a, da), ("leaf", kb, b, db)), [ka, kb], rng)
            c.count("pairs")
            if db and not da:
                c.count("reflected")
    for op in UN:
        agree(c, ("un", op, ("leaf", ka, rng.choice(KINDS[ka][1]), True)), [ka], rng)


SECTIONS = [
    Section("expressions", expressions, 700, 20000, 5),
    Section("pairs", pairs, 162, 1620, 3),
]
