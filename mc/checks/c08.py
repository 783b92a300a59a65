"""C08: document completion divides every document in two halves that add up to it."""
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import ds as D
from ..space import chunks, count_matrices

PROPERTY = "C08"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All 2x3 count matrices over {0,1,5} (thorough: {0,1,2,5}) and a ladder of sizes to 200 documents and counts to 1e6, x seeds, x proportions 0.1..0.9, "
        "x minimum numbers of distinct words 0..3, x word types, x categories/order/links/features.")
ASSUMPTIONS = ["the proportion lies strictly between 0 and 1", "counts are whole and below 2^24"]
PROPS = (0.1, 0.3, 0.5, 0.7, 0.9)


def build(words, dt, feats=None, links=None, cats="list", order=True):
    from sidetopics.model.common import DataSet
    n = len(words)
    c = None if cats is None else ["c%d" % i for i in range(n)]
    real_c = np.array(c) if cats == "array" else c
    o = np.arange(n) * 2 + 11 if order else None
    vocab = ["w%d" % i for i in range(len(words[0]))]
    real = DataSet(ssp.csr_matrix(np.asarray(words).astype(dt)), feats, links, vocab, real_c, o, debug=True)
    return real, D.Ref(words, None if feats is None else D.dense(feats), None if links is None else D.dense(links), c, vocab, o)


def check(ctx, real, ref, m, seed, prop):
    before = D.state(real)
    dt = real.words.dtype
    ok, r = ctx.call("raised", real.doc_completion_split, m, seed, prop, True)
    ctx.step()
    ctx.ran(m > 0 or prop != 0.5)
    if not ok:
        return
    ctx.expect(D.state(real) == before, "source-altered")
    left, right = r
    if ref.feats is not None:
        D.same(ctx, "features", left, ref)
        D.same(ctx, "features", right, ref)
        return
    a, b = D.dense(left.words), D.dense(right.words)
    ctx.expect(left.words.dtype == dt and right.words.dtype == dt, "type-changed", [str(left.words.dtype), str(right.words.dtype)])
    # which documents survive is judged from the unfiltered split with the same seed
    full = real.doc_completion_split(0, seed, prop, True)
    fa, fb = D.dense(full[0].words), D.dense(full[1].words)
    ok = np.array_equal(fa + fb, ref.words) and (fa >= 0).all() and (fb >= 0).all() and np.array_equal(fa, np.round(fa))
    if not ok:
        ctx.fail("halves", {"left": fa, "right": fb, "words": ref.words})
        return
    slack = 0.5 + prop * prop * 0.666 * 8
    ctx.expect(bool((np.abs(fa - prop * ref.words) <= slack).all()), "proportion", {"left": fa, "words": ref.words, "proportion": prop})
    keep = [d for d in range(ref.n) if (fa[d] != 0).sum() >= m and (fb[d] != 0).sum() >= m]
    D.same(ctx, "left", left, ref.select(keep, None).but(words=fa[keep]))
    D.same(ctx, "right", right, ref.select(keep, None).but(words=fb[keep]))


def survivors(real, m, seed, prop):
    full = real.doc_completion_split(0, seed, prop, True)
    a, b = D.dense(full[0].words), D.dense(full[1].words)
    return sum(1 for d in range(len(a)) if (a[d] != 0).sum() >= m and (b[d] != 0).sum() >= m)


def small(ctx, mats, seeds):
    for words in mats:
        for dt in (np.int32, np.float64):
            real, ref = build(words, dt, cats="list" if words[0][0] else "array", order=bool(words[0][1]))
            for seed, prop, m in itertools.product(seeds, PROPS, (0, 1, 2)):
                if m and survivors(real, m, seed, prop) == 0:
                    continue
                ctx.case((words, np.dtype(dt).name, seed, prop, m))
                ctx.state((str(words), np.dtype(dt).name, seed, prop, m))
                check(ctx, real, ref, m, seed, prop)
    ctx.sample({"words": mats[-1], "seeds": seeds, "proportions": PROPS})


def ladder(ctx, deep):
    for n, T, hi in ((1, 1, 2), (1, 30, 3), (3, 17, 1), (7, 40, 9), (33, 20, 4), (64, 65, 30), (200, 50, 2), (5, 5, 1000), (3, 4, 10 ** 6)):
        i = np.arange(n)[:, None]
        j = np.arange(T)[None, :]
        words = ((i * 31 + j * 17 + i * j * 7) % (2 * hi + 1)) * ((i + j) % 3 > 0)
        words[:, 0] += 1
        for dt, (seed, prop, m), cats in itertools.product((np.int32, np.int64, np.float32, np.float64),
                itertools.product((0, 1, 0xBADB055) if not deep else range(20), PROPS, (0, 1, 2, 3, 5)), ("list", "array", None)):
            real, ref = build(words.tolist(), dt, cats=cats)
            if m and survivors(real, m, seed, prop) == 0:
                continue
            ctx.case(("ladder", n, T, hi, np.dtype(dt).name, seed, prop, m, cats))
            ctx.state(("ladder", n, T, hi, np.dtype(dt).name, seed, prop, m, cats))
            check(ctx, real, ref, m, seed, prop)
            if m == 0 and prop == 0.5:       # the same seed gives the same halves
                x, y = real.doc_completion_split(seed=seed), real.doc_completion_split(seed=seed)
                ctx.expect(D.state(x[0]) == D.state(y[0]) and D.state(x[1]) == D.state(y[1]), "not-deterministic")


def extras(ctx):
    words = [[1, 2, 0, 5], [3, 0, 1, 1], [0, 0, 0, 1]]
    feats = ssp.csr_matrix(np.array([[1.0, 0], [0, 2], [1, 1]]))
    links = ssp.csr_matrix(np.array([[0, 1, 0], [1, 0, 2], [0, 0, 1]]))
    for f, l, seed, prop, m in itertools.product((None, feats), (None, links), range(20), PROPS, (0, 1, 2)):
        real, ref = build(words, np.int32, f, l)
        ctx.case(("extras", f is not None, l is not None, seed, prop, m))
        ctx.state(("extras", f is not None, l is not None, seed, prop, m))
        if f is None and m:
            n = survivors(real, m, seed, prop)
            if n == 0:
                continue
            if l is not None and n < ref.n:      # documents cannot be removed from the links
                ctx.step()
                ctx.ran()
                ctx.raises("links-silently-wrong", (ValueError, AssertionError), real.doc_completion_split, m, seed, prop, True)
                continue
        check(ctx, real, ref, m, seed, prop)


def tasks(tier, seed):
    mats = [m.tolist() for m in count_matrices(2, 3, (0, 1, 5) if tier == "quick" else (0, 1, 2, 5)) if m.sum()]
    seeds = (seed,) if tier == "quick" else tuple(range(4))
    return [("small-%d" % i, small, (c, seeds)) for i, c in enumerate(chunks(mats, 8))] + \
           [("ladder", ladder, (tier == "thorough",)), ("extras", extras, ())]
