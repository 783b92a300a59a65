"""Reference for topic models whose documents' topics are the softmax of a normal variable (Bohning's bound), written from the definitions."""
import itertools
import numpy as np
from scipy.special import logsumexp

from .space import distinct


def soft(m):
    m = np.asarray(m, dtype=np.float64)
    m = np.exp(m - m.max(axis=1, keepdims=True))
    return m / m.sum(axis=1, keepdims=True)


def curvature(K):
    return 0.5 * (np.eye(K) - 1.0 / (K + 1))


def per_document(words, means, vocab, inv, prior):
    """Per document: log-probability of its words plus the log-density (up to a constant) of its topic scores."""
    with np.errstate(divide="ignore", invalid="ignore"):
        like = np.where(words > 0, words * np.log(soft(means) @ vocab), 0).sum(axis=1)
    diff = means - prior
    return like - 0.5 * (diff @ inv * diff).sum(axis=1)


def shares(words, means, vocab):
    """Expected number of words of each document from each topic."""
    th = soft(means)
    return th * ((words / (th @ vocab)) @ vocab.T)


def climb(words, means, vocab, inv, prior, quick=None):
    """One maximisation of the quadratic lower bound; quick: the variances which stand in for the full covariances."""
    n, K, A = words.sum(axis=1), means.shape[1], curvature(means.shape[1])
    rhs = shares(words, means, vocab) + n[:, None] * (means @ A - soft(means)) + np.zeros_like(means) + prior @ inv
    if quick is not None:
        return quick * rhs
    return np.array([np.linalg.solve(inv + n[d] * A, rhs[d]) for d in range(len(words))]).reshape(means.shape)


def vocabulary(words, means, vocab, prior):
    """Expected counts of each word in each topic plus the prior, as proportions."""
    th = soft(means)
    v = vocab * (th.T @ (words / (th @ vocab))) + prior
    return v / v.sum(axis=1, keepdims=True)


def perplexity(words, means, vocab):
    with np.errstate(divide="ignore", invalid="ignore"):
        return float(np.exp(-np.where(words > 0, words * np.log(soft(means) @ vocab), 0).sum() / max(words.sum(), 1)))


def covariance(K, which):
    if which == 0:
        return np.eye(K)
    if which == 1:
        return np.diag(0.3 + distinct(K, 4))
    b = np.cos(1.0 + np.arange(K * K, dtype=float)).reshape(K, K)
    return b @ b.T * (0.7 if which == 2 else 6.0) + 0.4 * np.eye(K)


def scores(D, K, which):
    """Initial topic scores; in the last, those of different documents lie further apart than exp can bridge."""
    base = distinct(D * K, 13).reshape(D, K) - 1.4
    return (np.zeros((D, K)), base, 9.0 * base - 20.0, np.where((np.arange(D)[:, None] + np.arange(K)) % K == 0, 14.0, -14.0) + base,
            base + 950.0 * np.arange(D)[:, None] - 400)[which]


def words_of(K, T, which):
    i, j = np.arange(K)[:, None], np.arange(T)[None, :]
    v = (0.1 + distinct(K * T, 3).reshape(K, T), np.where((i + j) % K == 0, 40.0, 0.02) * distinct(K * T, 11).reshape(K, T))[which]
    return v / v.sum(axis=1, keepdims=True)


def mean_of(K, which):
    return (np.zeros(K), distinct(K, 21) - 1.2, 5 * distinct(K, 8) - 9)[which]


def ladder_words(D, T, seed=0, top=9):
    """A corpus with distinct-looking counts, many of them none."""
    x = distinct(D * T, 31 + seed, lo=0.0).reshape(D, T) / 2.0
    return np.where(x > 0.55, np.floor((x - 0.55) / 0.45 * top) + 1, 0.0)
