"""C07: the folds of a cross-validation partition the documents."""
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import ds as D
from ..space import chunks, distinct

PROPERTY = "C07"
LEVEL = "model_checking"
NATIVE = []
RULE = ("Every number of documents 1..40 (thorough 1..120), every number of folds 2..documents and every fold: indices; "
        "every dataset shape (features/links/categories/order present or not) for 2..7 documents: the datasets themselves; "
        "every invalid fold or number of folds near the limits.")
ASSUMPTIONS = ["the number of folds is at most the number of documents"]


def dataset(n, feats, links, cats, order, dense_links=False):
    from sidetopics.model.common import DataSet
    T = 4
    words = (np.arange(n * T).reshape(n, T) % 5) + 1
    f = np.round(distinct(n * 2, 1).reshape(n, 2), 3) if feats else None
    l = {None: None, "square": (np.arange(n * n).reshape(n, n) * 7 % 4), "wide": np.arange(n * (n + 2)).reshape(n, n + 2) % 3}[links]
    c = {None: None, "list": [["c%d" % i] for i in range(n)], "array": np.array(["c%d" % i for i in range(n)])}[cats]
    o = None if not order else np.array([100 + 3 * i for i in range(n)][::-1])
    mk = lambda m, t: None if m is None else ssp.csr_matrix(m.astype(t))
    real = DataSet(mk(words, np.int32), mk(f, np.float64), mk(l, np.int32), ["w%d" % i for i in range(T)], c, o)
    return real, D.Ref(words, f, l, c, ["w%d" % i for i in range(T)], o)


def indices(ctx, ns):
    for n in ns:
        real, ref = dataset(n, False, None, None, False)
        for k in range(2, n + 1):
            queried, sizes = [], []
            for fold in range(k):
                ctx.case(("indices", n, k, fold))
                ctx.state((n, k, fold))
                ctx.step()
                ctx.ran(n > 2)
                ok, r = ctx.call("indices-raised", real.cross_valid_split_indices, fold, k)
                if not ok:
                    return
                t, q = [[int(i) for i in x] for x in r]
                ctx.expect(sorted(t + q) == list(range(n)), "train-and-query-not-a-partition", {"train": t, "query": q})
                ctx.expect(len(t) > 0 and len(q) > 0, "empty-side", {"train": t, "query": q})
                queried += q
                sizes.append(len(q))
            ctx.case(("folds", n, k))
            ctx.expect(sorted(queried) == list(range(n)), "documents-not-queried-once", {"n": n, "folds": k, "queried": sorted(queried)})
            ctx.expect(max(sizes) - min(sizes) <= 1, "unequal-folds", sizes)
        for k, fold in ((1, 0), (0, 0), (2, 2), (3, 3), (3, 4), (n + 1, n + 1)):
            ctx.case(("refused", n, k, fold))
            ctx.step()
            ctx.ran(False)
            ctx.raises("invalid-fold-accepted", (AssertionError, ValueError), real.cross_valid_split_indices, fold, k)
            ctx.raises("invalid-fold-accepted", (AssertionError, ValueError), real.cross_valid_split, fold, k)


def datasets(ctx, configs):
    for cfg in configs:
        n = cfg[0]
        real, ref = dataset(*cfg)
        for k in range(2, n + 1):
            seen = []
            for fold in range(k):
                for debug in (False, True):
                    ctx.case((cfg, k, fold, debug))
                    ctx.state((cfg, k, fold, debug))
                    ctx.step()
                    ctx.ran()
                    before = D.state(real)
                    ok, r = ctx.call("split-raised", real.cross_valid_split, fold, k, debug)
                    if not ok:
                        continue
                    t, q = real.cross_valid_split_indices(fold, k)
                    D.same(ctx, "train", r[0], ref.select(t))
                    D.same(ctx, "query", r[1], ref.select(q))
                    ctx.expect(D.state(real) == before, "source-altered")
                seen += [int(i) for i in r[1].order]
            ctx.expect(sorted(seen) == sorted(ref.order), "orders-of-the-folds", {"got": sorted(seen), "want": sorted(ref.order)})
    ctx.sample(configs[0])


def tasks(tier, seed):
    top = 40 if tier == "quick" else 120
    cfgs = [c for c in itertools.product(range(2, 8 if tier == "quick" else 13), (False, True), (None, "square", "wide"), (None, "list", "array"), (False, True))]
    return [("indices-%d" % i, indices, (c,)) for i, c in enumerate(chunks(range(1, top + 1), 4))] + \
           [("datasets-%d" % i, datasets, (c,)) for i, c in enumerate(chunks(cfgs, 8))]
