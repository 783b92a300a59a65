"""C10: splits and conversions of the links neither lose nor invent links."""
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import ds as D
from ..space import chunks, patterns, up_to_renaming

PROPERTY = "C10"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All link patterns between 3 documents and all 2x4 citation patterns (thorough: and, up to renaming, between 4 documents), x both random splits x seeds, x all "
        "folds of 2..5 folds x minimum link counts; ladders of rows with 0..40 links; graph conversions; feature splits over "
        "all 4x2 feature patterns x links x feature types.")
ASSUMPTIONS = ["symmetric splits are asked of symmetric links", "link weights are positive", "both sides of a feature split have documents"]


def build(links, feats=None, dt=np.int32, ft=np.float64):
    from sidetopics.model.common import DataSet
    n = links.shape[0]
    words = (np.arange(n * 3).reshape(n, 3) % 4) + 1
    v = ["a", "b", "c"]
    o = np.arange(n)[::-1] + 5
    cats = [["k%d" % i] for i in range(n)]
    real = DataSet(ssp.csr_matrix(words), None if feats is None else ssp.csr_matrix(feats.astype(ft)),
                   None if links is None else ssp.csr_matrix(links.astype(dt)), v, cats, o)
    return real, D.Ref(words, feats, links, cats, v, o)


def apply(ctx, op, real, ref, sig):
    name, enabled, run = op
    if not enabled(ref):
        return
    ctx.step()
    ctx.ran(bool(ref.links is not None and ref.links.any()))
    before = D.state(real)
    for r, rr in run(ctx, real, ref):
        D.same(ctx, sig, r, rr)
    ctx.expect(D.state(real) == before, sig + "-source-altered")


def all_folds(ctx, real, ref, k, m):
    """Over the folds, no link is held out twice; and only the remainder is never held out."""
    held = np.zeros_like(ref.links)
    counts = (ref.links != 0).sum(axis=1)
    for fold in range(k):
        ctx.case(("folded", ref.links.tolist(), k, m, fold))
        apply(ctx, D.op_folded(m, fold, k), real, ref, "folded")
        ok, r = ctx.call("folded-raised", real.folded_link_prediction_split, m, fold, k)
        if not ok:
            return
        b = D.dense(r[1].links)
        rows = [int(d) for d in r[2]]
        held[rows] += (b[rows] != 0)
    ctx.expect(bool((held <= 1).all()), "held-out-twice", held)
    for d in range(ref.n):
        if counts[d] >= m:
            ctx.expect(int(held[d].sum()) == (counts[d] // k) * k, "held-out-count", {"document": d, "held": held[d], "links": ref.links[d]})


def small(ctx, pats, seeds):
    for pat in pats:
        n, c = pat.shape
        links = pat.astype(float) * (1 + np.arange(n * c).reshape(n, c) % 3)
        variants = [links]
        if n == c:
            variants.append(np.tril(links) + np.tril(links, -1).T)
        for links in variants:
            for dt in (np.int32, np.float64):
                real, ref = build(links, dt=dt)
                for seed in seeds:
                    for symm in (False, True):
                        ctx.case(("split", links.tolist(), np.dtype(dt).name, seed, symm))
                        ctx.state(("split", links.tobytes(), links.shape, np.dtype(dt).name, seed, symm))
                        apply(ctx, D.op_linksplit(symm, seed), real, ref, "split")
                if dt is np.int32:
                    for op in (D.op_undirected(), D.op_binary()):
                        ctx.case((op[0], links.tolist()))
                        apply(ctx, op, real, ref, op[0])
                    for k, m in itertools.product((2, 3), (0, 1, 2)):
                        ctx.state(("folded", links.tobytes(), links.shape, k, m))
                        all_folds(ctx, real, ref, k, m)
    # no links at all: refused
    from sidetopics.model.common import DataSet
    bare = DataSet(ssp.csr_matrix(np.ones((3, 3))))
    ctx.case("no links")
    for fn, a in ((bare.link_prediction_split, ()), (bare.folded_link_prediction_split, (1, 0, 2)),
                  (bare.convert_to_undirected_graph, ()), (bare.convert_to_binary_link_matrix, ())):
        ctx.raises("missing-links-accepted", (AssertionError, ValueError), fn, *a)
        ctx.step()


def ladder(ctx, deep):
    for n, c in ((12, 12), (25, 41), (41, 41), (80, 80)):
        links = np.zeros((n, c))
        for d in range(n):                 # document d has d links (as many as there can be)
            for j in range(min(d, c)):
                links[d, (d * 3 + j) % c] = 1 + (d + j) % 4
        real, ref = build(links)
        for k, m in itertools.product((2, 3, 4, 5, 7, 10), (0, 1, 3, 5, 9, 10, 30)):
            ctx.state(("ladder", n, c, k, m))
            all_folds(ctx, real, ref, k, m)
        for seed in range(3 if not deep else 30):
            ctx.case(("ladder-split", n, c, seed))
            ctx.state(("ladder-split", n, c, seed))
            apply(ctx, D.op_linksplit(False, seed), real, ref, "split")
            if n == c:
                s = links + links.T
                rs = build(s)
                apply(ctx, D.op_linksplit(True, seed), *rs, "split")
    links = (np.arange(400).reshape(20, 20) % 3 == 0).astype(float)
    real, ref = build(links)
    for symm in (False, True):
        s, r = (real, ref) if not symm else build(links + links.T)
        ctx.case(("deterministic", symm))
        halves = {seed: D.state(s.link_prediction_split(symm, seed)[0]) for seed in range(6)}
        ctx.expect(all(D.state(s.link_prediction_split(symm, seed)[0]) == h for seed, h in halves.items()), "not-deterministic")
        ctx.expect(len(set(map(str, halves.values()))) > 3, "seed-ignored")


def feature(ctx, pats):
    links = (np.arange(16).reshape(4, 4) * 5 % 3).astype(float)
    for pat in pats:
        for ft, scale, l in itertools.product((np.float64, np.float32, np.int32), (1, 3), (None, links)):
            feats = np.hstack((pat * scale, np.ones((4, 1))))
            real, ref = build(links, feats, ft=ft)
            if l is None:
                from sidetopics.model.common import DataSet
                real = DataSet(real.words, real.feats, None, real.word_dict, real.doc_categories, real.order)
                ref = ref.but(links=None)
            for fs in ([0], [1], [0, 1], [1, 0]):
                ctx.case(("feature", pat.tolist(), np.dtype(ft).name, scale, l is None, fs))
                ctx.state(("feature", pat.tobytes(), np.dtype(ft).name, scale, l is None, str(fs)))
                apply(ctx, D.op_feature(fs), real, ref, "feature")
            ctx.case(("intercept", pat.tolist(), np.dtype(ft).name))
            apply(ctx, D.op_intercept(), real, ref, "intercept")
    ctx.sample({"features": feats})


def intercepts(ctx):
    """An intercept is a feature that is one for every document, whatever the other features are."""
    from sidetopics.model.common import DataSet
    for n in (1, 2, 3, 6, 7, 10, 49, 93):
        for others in ([0] * n, [2] * n, [i % 3 for i in range(n)], [1] * n, [-1] * n, [1] * (n - 1) + [0], [0.5 + (i % 2) for i in range(n)]):
            for where in (0, 1):
                for dense_feats in (False,):
                    f = np.array([others, [0.25] * n][:: 1 if where else -1]).T.astype(float)
                    real = DataSet(ssp.csr_matrix(np.ones((n, 2))), f if dense_feats else ssp.csr_matrix(f))
                    ref = D.Ref(np.ones((n, 2)), f)
                    ctx.case(("intercept", n, others[:6], where, dense_feats))
                    ctx.state(("intercept", n, str(others), where, dense_feats))
                    apply(ctx, D.op_intercept(), real, ref, "intercept")


def tasks(tier, seed):
    seeds = (seed, 5) if tier == "quick" else (seed, 5, 6, 7)
    p3, p24 = list(patterns(3, 3)), list(patterns(2, 4))
    p4 = [] if tier == "quick" else up_to_renaming(4)
    return [("links-%d" % i, small, (c, seeds)) for i, c in enumerate(chunks(p3 + p24 + p4, 12))] + \
        [("ladder", ladder, (tier == "thorough",)), ("intercepts", intercepts, ())] + \
        [("features-%d" % i, feature, (c,)) for i, c in enumerate(chunks(patterns(4, 2), 6))]
