"""The distribution families used by the NumPyro monitors: parameters, builders, a value."""
import numpy as np

from harness import jnamed  # noqa: F401  (sets the flags)
import jax.numpy as jnp
import numpyro.distributions as plain

import effectful.handlers.numpyro as named


def num(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3)


def gen_param(rng, kind, shape):
    n = int(np.prod(shape)) if shape else 1
    shape = tuple(shape)

    def fill(f, ev=()):
        m = n * (int(np.prod(ev)) if ev else 1)
        return np.array([f() for _ in range(m)]).reshape(shape + tuple(ev))

    if kind == "real":
        v = fill(lambda: num(rng, -2, 2))
    elif kind == "pos":
        v = fill(lambda: num(rng, 0.3, 2.5))
    elif kind == "big":  # strictly above every value of "real"
        v = fill(lambda: num(rng, 2.5, 4))
    elif kind == "df":
        v = fill(lambda: num(rng, 4.5, 8))
    elif kind == "unit":
        v = fill(lambda: num(rng, 0.1, 0.9))
    elif kind == "count":
        v = fill(lambda: rng.randint(2, 6))
    elif kind.startswith("simplex"):
        v = fill(lambda: num(rng, 0.2, 1), (int(kind[7:]),))
        v = v / v.sum(-1, keepdims=True)
    elif kind.startswith("vec"):
        v = fill(lambda: num(rng, -2, 2), (int(kind[3:]),))
    elif kind.startswith("posvec"):
        v = fill(lambda: num(rng, 0.3, 2), (int(kind[6:]),))
    elif kind.startswith("mat"):
        a, b = kind[3:].split("x")
        v = fill(lambda: num(rng, -1, 1), (int(a), int(b)))
    elif kind.startswith(("tril", "spd")):
        k = int(kind.lstrip("trilspd"))
        v = np.tril(fill(lambda: num(rng, -1, 1), (k, k)), -1) + fill(lambda: num(rng, 0.4, 1.5), (k,))[..., None] * np.eye(k)
        if kind.startswith("spd"):
            v = v @ np.swapaxes(v, -1, -2)
    else:
        raise AssertionError(kind)
    return np.asarray(v)




# name -> (class name, {parameter: kind}, constants given as keywords)
FAMILIES = {
    "Cauchy": ("Cauchy", {"loc": "real", "scale": "pos"}, {}),
    "Gumbel": ("Gumbel", {"loc": "real", "scale": "pos"}, {}),
    "Laplace": ("Laplace", {"loc": "real", "scale": "pos"}, {}),
    "LogNormal": ("LogNormal", {"loc": "real", "scale": "pos"}, {}),
    "Logistic": ("Logistic", {"loc": "real", "scale": "pos"}, {}),
    "Normal": ("Normal", {"loc": "real", "scale": "pos"}, {}),
    "StudentT": ("StudentT", {"df": "df", "loc": "real", "scale": "pos"}, {}),
    "BernoulliProbs": ("BernoulliProbs", {"probs": "unit"}, {}),
    "BernoulliLogits": ("BernoulliLogits", {"logits": "real"}, {}),
    "CategoricalProbs": ("CategoricalProbs", {"probs": "simplex3"}, {}),
    "CategoricalLogits": ("CategoricalLogits", {"logits": "vec3"}, {}),
    "GeometricProbs": ("GeometricProbs", {"probs": "unit"}, {}),
    "GeometricLogits": ("GeometricLogits", {"logits": "real"}, {}),
    "Beta": ("Beta", {"concentration1": "pos", "concentration0": "pos"}, {}),
    "Kumaraswamy": ("Kumaraswamy", {"concentration1": "pos", "concentration0": "pos"}, {}),
    "BinomialProbs": ("BinomialProbs", {"probs": "unit", "total_count": "count"}, {}),
    "BinomialProbsInt": ("BinomialProbs", {"probs": "unit"}, {"total_count": 4}),
    "BinomialLogits": ("BinomialLogits", {"logits": "real", "total_count": "count"}, {}),
    "BinomialLogitsInt": ("BinomialLogits", {"logits": "real"}, {"total_count": 3}),
    "NegativeBinomialProbs": ("NegativeBinomialProbs", {"total_count": "count", "probs": "unit"}, {}),
    "NegativeBinomialLogits": ("NegativeBinomialLogits", {"total_count": "count", "logits": "real"}, {}),
    "MultinomialProbs": ("MultinomialProbs", {"probs": "simplex3"}, {"total_count": 4}),
    "MultinomialLogits": ("MultinomialLogits", {"logits": "vec3"}, {"total_count": 3}),
    "Chi2": ("Chi2", {"df": "df"}, {}),
    "Dirichlet": ("Dirichlet", {"concentration": "posvec3"}, {}),
    "DirichletMultinomial": ("DirichletMultinomial", {"concentration": "posvec3"}, {"total_count": 4}),
    "Exponential": ("Exponential", {"rate": "pos"}, {}),
    "Poisson": ("Poisson", {"rate": "pos"}, {}),
    "Gamma": ("Gamma", {"concentration": "pos", "rate": "pos"}, {}),
    "HalfCauchy": ("HalfCauchy", {"scale": "pos"}, {}),
    "HalfNormal": ("HalfNormal", {"scale": "pos"}, {}),
    "LKJCholesky": ("LKJCholesky", {"concentration": "pos"}, {"dim": 3}),
    "MvnTril": ("MultivariateNormal", {"loc": "vec2", "scale_tril": "tril2"}, {}),
    "MvnCov": ("MultivariateNormal", {"loc": "vec2", "covariance_matrix": "spd2"}, {}),
    "MvnPrec": ("MultivariateNormal", {"loc": "vec2", "precision_matrix": "spd2"}, {}),
    "Pareto": ("Pareto", {"scale": "pos", "alpha": "df"}, {}),
    "Uniform": ("Uniform", {"low": "real", "high": "big"}, {}),
    "VonMises": ("VonMises", {"loc": "real", "concentration": "pos"}, {}),
    "Weibull": ("Weibull", {"scale": "pos", "concentration": "pos"}, {}),
    "Wishart": ("Wishart", {"df": "df", "scale_tril": "tril2"}, {}),
    "Delta": ("Delta", {"v": "real", "log_density": "real"}, {}),
    "DeltaV": ("Delta", {"v": "real"}, {}),
    "DeltaVec": ("Delta", {"v": "vec2"}, {"event_dim": 1}),
    "LowRankMvn": ("LowRankMultivariateNormal", {"loc": "vec3", "cov_factor": "mat3x2", "cov_diag": "posvec3"}, {}),
    "RelaxedBernoulliLogits": ("RelaxedBernoulliLogits", {"temperature": "pos", "logits": "real"}, {}),
    # defaults
    "NormalDefaultScale": ("Normal", {"loc": "real"}, {}),
    "NormalDefaultLoc": ("Normal", {"scale": "pos"}, {}),
    "StudentTDefault": ("StudentT", {"df": "df"}, {}),
    "GammaDefault": ("Gamma", {"concentration": "pos"}, {}),
    "UniformDefault": ("Uniform", {"high": "big"}, {}),
    "BinomialDefault": ("BinomialProbs", {"probs": "unit"}, {}),
    "MvnDefaultLoc": ("MultivariateNormal", {"scale_tril": "tril2"}, {}),
    "CauchyDefault": ("Cauchy", {"loc": "real"}, {}),
    "ParetoInt": ("Pareto", {"scale": "pos"}, {"alpha": 5}),
    "NormalIntScale": ("Normal", {"loc": "real"}, {"scale": 2}),
}

EVENT = {"simplex": 1, "vec": 1, "posvec": 1, "tril": 2, "spd": 2, "mat": 2}


def event(kind):
    for p, k in EVENT.items():
        if kind.startswith(p):
            return k
    return 0


PLAIN_NAMES = {"Wishart": {"df": "concentration"}, "LKJCholesky": {"dim": "dimension"}}


def build_named(fname, params, rng=None):
    """The library's distribution; with rng, arguments are also passed by position."""
    import inspect

    cls, kinds, const = FAMILIES[fname]
    kw = {**params, **const}
    op = getattr(named, cls)
    args = []
    if rng is not None:
        order = [p for p in inspect.signature(op).parameters if p != "kwargs"]
        k = rng.randint(0, len(order))
        for p in order[:k]:
            if p not in kw:
                break
            args.append(kw.pop(p))
    return op(*args, **kw)


def build_plain(fname, params):
    cls, kinds, const = FAMILIES[fname]
    ren = PLAIN_NAMES.get(cls, {})
    params = {k: jnp.asarray(v) for k, v in params.items()}
    return getattr(plain, cls)(**{ren.get(k, k): v for k, v in {**params, **const}.items()})
