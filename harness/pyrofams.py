"""The distribution families used by the Pyro monitors: parameters and builders."""
import torch

import pyro.distributions as dist

F64 = torch.float64


def num(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3)


def gen_param(rng, kind, shape):
    """A plain tensor of parameters of the given kind and batch shape."""
    n = 1
    for s in shape:
        n *= s

    def fill(f):
        return torch.tensor([f() for _ in range(n)], dtype=F64).reshape(shape)

    if kind == "real":
        return fill(lambda: num(rng, -2, 2))
    if kind == "pos":
        return fill(lambda: num(rng, 0.3, 2.5))
    if kind == "big":  # strictly above every value of "real"
        return fill(lambda: num(rng, 2.5, 4))
    if kind == "df":
        return fill(lambda: num(rng, 4.5, 8))
    if kind == "unit":
        return fill(lambda: num(rng, 0.1, 0.9))
    if kind == "count":
        return fill(lambda: float(rng.randint(2, 6)))
    if kind.startswith("simplex"):
        k = int(kind[7:])
        x = torch.tensor([num(rng, 0.2, 1) for _ in range(n * k)], dtype=F64).reshape(tuple(shape) + (k,))
        return x / x.sum(-1, keepdim=True)
    if kind.startswith("vec"):
        k = int(kind[3:])
        return torch.tensor([num(rng, -2, 2) for _ in range(n * k)], dtype=F64).reshape(tuple(shape) + (k,))
    if kind.startswith("posvec"):
        k = int(kind[6:])
        return torch.tensor([num(rng, 0.3, 2) for _ in range(n * k)], dtype=F64).reshape(tuple(shape) + (k,))
    if kind.startswith("tril"):
        k = int(kind[4:])
        x = torch.tensor([num(rng, -1, 1) for _ in range(n * k * k)], dtype=F64).reshape(tuple(shape) + (k, k))
        return torch.tril(x, -1) + torch.diag_embed(torch.tensor([num(rng, 0.4, 1.5) for _ in range(n * k)], dtype=F64).reshape(tuple(shape) + (k,)))
    if kind.startswith("spd"):
        t = gen_param(rng, "tril" + kind[3:], shape)
        return t @ t.transpose(-1, -2)
    if kind == "bool":
        return torch.tensor([rng.random() < 0.5 for _ in range(n)]).reshape(shape)
    raise AssertionError(kind)


def event(kind):
    """Number of trailing dimensions that belong to one parameter of this kind."""
    for p, k in (("simplex", 1), ("vec", 1), ("posvec", 1), ("tril", 2), ("spd", 2)):
        if kind.startswith(p):
            return k
    return 0


# name: (builder, parameters, how much of the batch may be positional)
FAMILIES = {
    "BernoulliProbs": (lambda probs: dist.Bernoulli(probs=probs), {"probs": "unit"}),
    "BernoulliLogits": (lambda logits: dist.Bernoulli(logits=logits), {"logits": "real"}),
    "Beta": (lambda a, b: dist.Beta(a, b), {"a": "pos", "b": "pos"}),
    "BinomialInt": (lambda probs: dist.Binomial(total_count=5, probs=probs), {"probs": "unit"}),
    "Binomial": (lambda n, probs: dist.Binomial(total_count=n, probs=probs), {"n": "count", "probs": "unit"}),
    "CategoricalProbs": (lambda probs: dist.Categorical(probs=probs), {"probs": "simplex3"}),
    "CategoricalLogits": (lambda logits: dist.Categorical(logits=logits), {"logits": "vec4"}),
    "Cauchy": (lambda l, s: dist.Cauchy(l, s), {"l": "real", "s": "pos"}),
    "Chi2": (lambda df: dist.Chi2(df), {"df": "df"}),
    "ContinuousBernoulli": (lambda probs: dist.ContinuousBernoulli(probs=probs), {"probs": "unit"}),
    "Delta": (lambda v: dist.Delta(v), {"v": "real"}),
    "DeltaDensity": (lambda v, d: dist.Delta(v, log_density=d), {"v": "real", "d": "real"}),
    "DeltaEvent": (lambda v, d: dist.Delta(v, log_density=d, event_dim=1), {"v": "vec3", "d": "real"}),
    "Dirichlet": (lambda c: dist.Dirichlet(c), {"c": "posvec3"}),
    "Exponential": (lambda r: dist.Exponential(r), {"r": "pos"}),
    "FisherSnedecor": (lambda a, b: dist.FisherSnedecor(a, b), {"a": "df", "b": "df"}),
    "Gamma": (lambda a, b: dist.Gamma(a, b), {"a": "pos", "b": "pos"}),
    "Geometric": (lambda probs: dist.Geometric(probs), {"probs": "unit"}),
    "GeometricLogits": (lambda l: dist.Geometric(logits=l), {"l": "real"}),
    "Gumbel": (lambda l, s: dist.Gumbel(l, s), {"l": "real", "s": "pos"}),
    "HalfCauchy": (lambda s: dist.HalfCauchy(s), {"s": "pos"}),
    "HalfNormal": (lambda s: dist.HalfNormal(s), {"s": "pos"}),
    "Kumaraswamy": (lambda a, b: dist.Kumaraswamy(a, b), {"a": "pos", "b": "pos"}),
    "Laplace": (lambda l, s: dist.Laplace(l, s), {"l": "real", "s": "pos"}),
    "LKJCholesky": (lambda c: dist.LKJCholesky(3, c), {"c": "pos"}),
    "Logistic": (lambda l, s: dist.Logistic(l, s), {"l": "real", "s": "pos"}),
    "LogisticNormal": (lambda l, s: dist.LogisticNormal(l, s), {"l": "vec3", "s": "posvec3"}),
    "LogNormal": (lambda l, s: dist.LogNormal(l, s), {"l": "real", "s": "pos"}),
    "Multinomial": (lambda probs: dist.Multinomial(5, probs=probs), {"probs": "simplex3"}),
    "MvnTril": (lambda l, s: dist.MultivariateNormal(l, scale_tril=s), {"l": "vec3", "s": "tril3"}),
    "MvnCov": (lambda l, s: dist.MultivariateNormal(l, covariance_matrix=s), {"l": "vec2", "s": "spd2"}),
    "MvnPrecision": (lambda l, s: dist.MultivariateNormal(l, precision_matrix=s), {"l": "vec2", "s": "spd2"}),
    "NegativeBinomial": (lambda n, probs: dist.NegativeBinomial(n, probs=probs), {"n": "count", "probs": "unit"}),
    "NegativeBinomialLogits": (lambda n, l: dist.NegativeBinomial(n, logits=l), {"n": "count", "l": "real"}),
    "Normal": (lambda l, s: dist.Normal(l, s), {"l": "real", "s": "pos"}),
    "NormalConstScale": (lambda l: dist.Normal(l, 1.5), {"l": "real"}),
    "OneHotCategorical": (lambda probs: dist.OneHotCategorical(probs=probs), {"probs": "simplex3"}),
    "OneHotLogits": (lambda l: dist.OneHotCategorical(logits=l), {"l": "vec3"}),
    "OneHotStraightThrough": (lambda probs: dist.OneHotCategoricalStraightThrough(probs=probs), {"probs": "simplex3"}),
    "Pareto": (lambda s, a: dist.Pareto(s, a), {"s": "pos", "a": "df"}),
    "Poisson": (lambda r: dist.Poisson(r), {"r": "pos"}),
    "RelaxedBernoulli": (lambda t, probs: dist.RelaxedBernoulli(t, probs=probs), {"t": "pos", "probs": "unit"}),
    "RelaxedBernoulliLogits": (lambda t, l: dist.RelaxedBernoulli(t, logits=l), {"t": "pos", "l": "real"}),
    "RelaxedOneHot": (lambda probs: dist.RelaxedOneHotCategorical(torch.tensor(0.7, dtype=F64), probs=probs), {"probs": "simplex3"}),
    "RelaxedOneHotLogits": (lambda l: dist.RelaxedOneHotCategorical(torch.tensor(1.3, dtype=F64), logits=l), {"l": "vec3"}),
    "RelaxedBernoulliConst": (lambda l: dist.RelaxedBernoulli(torch.tensor(0.7, dtype=F64), logits=l), {"l": "real"}),
    "StudentT": (lambda df, l, s: dist.StudentT(df, l, s), {"df": "df", "l": "real", "s": "pos"}),
    "StudentTKw": (lambda df: dist.StudentT(df), {"df": "df"}),
    "Uniform": (lambda a, b: dist.Uniform(a, b), {"a": "real", "b": "big"}),
    "VonMises": (lambda l, c: dist.VonMises(l, c), {"l": "real", "c": "pos"}),
    "Weibull": (lambda s, c: dist.Weibull(s, c), {"s": "pos", "c": "pos"}),
    "Wishart": (lambda df, s: dist.Wishart(df, scale_tril=s), {"df": "df", "s": "tril2"}),
    "WishartCov": (lambda df, s: dist.Wishart(df, covariance_matrix=s), {"df": "df", "s": "spd2"}),
    "NanMaskedMvn": (lambda l, s: dist.NanMaskedMultivariateNormal(l, scale_tril=s), {"l": "vec3", "s": "tril3"}),
    "NanMaskedNormal": (lambda l, s: dist.NanMaskedNormal(l, s), {"l": "real", "s": "pos"}),
    "ExtendedBinomial": (lambda n, probs: dist.ExtendedBinomial(n, probs), {"n": "count", "probs": "unit"}),
    "Folded": (lambda l, s: dist.FoldedDistribution(dist.Normal(l, s)), {"l": "real", "s": "pos"}),
    "Masked": (lambda l, s, m: dist.Normal(l, s).mask(m), {"l": "real", "s": "pos", "m": "bool"}),
    "MaskedTrue": (lambda l, s: dist.Normal(l, s).mask(True), {"l": "real", "s": "pos"}),
    "IndependentNormal": (lambda l, s: dist.Normal(l, s).to_event(1), {"l": "vec3", "s": "posvec3"}),
    "IndependentBeta": (lambda a, b: dist.Beta(a, b).to_event(1), {"a": "posvec2", "b": "posvec2"}),
    "IndependentDirichlet": (lambda c: dist.Dirichlet(c).to_event(0), {"c": "posvec3"}),
    "IndependentMvn": (lambda l, s: dist.Independent(dist.Normal(l, s), 1), {"l": "vec2", "s": "posvec2"}),
}
