"""C09: pruning keeps exactly the documents that qualify, and shuffles everything alike."""
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import ds as D
from ..space import chunks, patterns, up_to_renaming

PROPERTY = "C09"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All link patterns between 3 documents (thorough: and, up to renaming, between 4) x word-count profiles x minimum distinct words x minimum links x "
        "seeds; ladders of up to 150 documents with chains and rings of links; citation matrices; vocabulary pruning over all "
        "4x3 occurrence patterns and all thresholds.")
ASSUMPTIONS = ["at least one document, and one word, qualifies"]


def build(words, links, cats=True, feats=True, dt=np.int32):
    from sidetopics.model.common import DataSet
    n, T = np.shape(words)
    c = ["c%d" % i for i in range(n)] if cats else None
    f = np.arange(n * 2, dtype=float).reshape(n, 2) if feats else None
    vocab = ["w%d" % i for i in range(T)]
    real = DataSet(ssp.csr_matrix(np.asarray(words).astype(dt)), None if f is None else ssp.csr_matrix(f),
                   None if links is None else ssp.csr_matrix(np.asarray(links)), vocab, c)
    return real, D.Ref(words, f, links, c, vocab)


def check(ctx, real, ref, mw, ml, seed):
    if not D.prune_survivors(ref, mw, ml):
        return
    name, enabled, run = D.op_prune(mw, ml, seed)
    ctx.step()
    ctx.ran(ml > 0 or mw > 1)
    before = D.state(real)
    res = run(ctx, real, ref)
    for r, rr in res:
        D.same(ctx, "pruned", r, rr)
        again = run(ctx, real, ref)
        if again:
            ctx.expect(D.state(again[0][0]) == D.state(r), "same-seed-different-result")
    ctx.expect(D.state(real) == before, "source-altered")


PROFILES = ([[1, 0, 0], [1, 1, 0], [2, 3, 4]], [[0, 0, 0], [5, 0, 0], [0, 1, 1]], [[1, 1, 1]] * 3)


def small(ctx, n, pats, seeds):
    for pat in pats:
        for pi, prof in enumerate(PROFILES):
            words = np.array([prof[d % 3] for d in range(n)])
            links = pat.astype(int) * (1 + (np.arange(n * n).reshape(n, n) % 2))
            real, ref = build(words, links, cats=pi != 1, feats=pi != 2)
            for mw, ml, seed in itertools.product((0.5, 2), (0, 1, 2), seeds):
                ctx.case(("small", links.tolist(), pi, mw, ml, seed))
                ctx.state(("small", links.tobytes(), pi, mw, ml, seed))
                check(ctx, real, ref, mw, ml, seed)


def ladder(ctx, deep):
    for n in (1, 2, 5, 9, 16, 40, 150):
        T = 6
        words = np.array([[(1 + (d * 5 + w) % 3) if w <= d % T else 0 for w in range(T)] for d in range(n)])
        chain = np.eye(n, k=1, dtype=int)                       # pruning unravels it one document at a time
        ring = chain.copy()
        ring[n - 1, 0] = 1
        comb = ring + np.eye(n, k=2, dtype=int) * 2
        half = ring.copy()
        half[n // 2] = 0                                        # a ring with one broken document
        clique = (np.add.outer(np.arange(n), np.arange(n)) % 3 == 0).astype(int)
        for li, links in enumerate((None, chain, ring, comb, half, clique, np.hstack((comb, comb))[:, :n + 3])):
            real, ref = build(words, links, cats=li % 2 == 0, feats=li % 3 == 0)
            for mw, ml, seed in itertools.product((0, 0.5, 1, 2, 4, 6), (0, 1, 2, 3), (0xC0FFEE, 1) if not deep else range(6)):
                ctx.case(("ladder", n, li, mw, ml, seed))
                ctx.state(("ladder", n, li, mw, ml, seed))
                check(ctx, real, ref, mw, ml, seed)
    # a shuffle is not the identity for every seed, and depends on the seed
    real, ref = build(np.ones((20, 3)), None)
    ctx.case("shuffles")
    orders = set()
    for seed in range(10):
        w = D.clone(real)
        orders.add(tuple(int(i) for i in w.prune_and_shuffle(seed=seed)))
        ctx.step()
    ctx.expect(len(orders) > 5, "seed-ignored", sorted(orders)[:2])


def vocabulary(ctx, pats):
    for pat in pats:
        words = pat.astype(int) * (1 + np.arange(pat.size).reshape(pat.shape) % 3)
        for kind in ("list", "array", None):
            from sidetopics.model.common import DataSet
            v = ["w%d" % i for i in range(words.shape[1])]
            real = DataSet(ssp.csr_matrix(words), None, None, np.array(v) if kind == "array" else None if kind is None else v)
            ref = D.Ref(words, vocab=None if kind is None else v)
            for m in range(1, words.shape[0] + 1):
                name, enabled, run = D.op_minfreq(m)
                if not enabled(ref):
                    continue
                ctx.case(("vocabulary", words.tolist(), kind, m))
                ctx.state(("vocabulary", words.tobytes(), kind, m))
                ctx.step()
                ctx.ran()
                before = D.state(real)
                for r, rr in run(ctx, real, ref):
                    D.same(ctx, "vocabulary", r, rr)
                ctx.expect(D.state(real) == before, "source-altered")
    ctx.sample({"words": words})


def tasks(tier, seed):
    seeds = (seed,) if tier == "quick" else (seed, 3, 8)
    out = [("links3-%d" % i, small, (3, c, seeds)) for i, c in enumerate(chunks(patterns(3, 3), 8))]
    if tier == "thorough":
        out += [("links4-%d" % i, small, (4, c, (seed,))) for i, c in enumerate(chunks(up_to_renaming(4), 16))]
    vs = list(patterns(4, 3))
    return out + [("ladder", ladder, (tier == "thorough",))] + \
        [("vocabulary-%d" % i, vocabulary, (c,)) for i, c in enumerate(chunks(vs, 6))]
