"""C06: every history of dataset operations keeps all the parts of the dataset about the same documents."""
import numpy as np
import scipy.sparse as ssp

from .. import ds as D
from ..space import chunks

PROPERTY = "C06"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All sequences of up to 3 (thorough: 4) operations out of 29 operation instances, from 9 initial datasets (with and without "
        "links, features, categories as list or array, an order, a dictionary; 1 to 9 documents); every reached state is compared "
        "with a reference dataset of plain arrays; states are deduplicated by content.")
ASSUMPTIONS = ["operations are applied within their documented domain (non-empty results, square links where links between documents are meant)"]


def initial():
    from sidetopics.model.common import DataSet
    rng_free = lambda r, c, m: np.array([[((i * 7 + j * 5 + i * j) * 3 + 1) % m for j in range(c)] for i in range(r)])
    out = []

    def add(name, words, feats=None, links=None, cats=None, vocab=None, order=None, dt=np.int32, lt=np.int32):
        mk = lambda m, t: None if m is None else ssp.csr_matrix(np.asarray(m).astype(t))
        real = DataSet(mk(words, dt), mk(feats, np.float64), mk(links, lt), vocab,
                       cats, None if order is None else np.array(order))
        out.append((name, real, D.Ref(words, feats, links, None if cats is None else list(cats), vocab, order)))

    w6 = rng_free(6, 5, 4)
    w6[2] = [0, 0, 1, 0, 0]
    f6 = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 0], [1, 1, 0], [0, 0, 0], [0, 1, 1]], dtype=float)
    l6 = np.array([[0, 1, 0, 0, 2, 0], [1, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1], [1, 1, 0, 0, 0, 0], [0, 0, 0, 3, 1, 0], [1, 0, 0, 0, 1, 0]])
    s6 = l6 + l6.T
    vocab = ["w%d" % i for i in range(5)]
    cats = [["a"], ["b"], ["c", "d"], ["e"], ["f"], ["g", "h"]]
    add("words", w6)
    add("full", w6, f6, l6, cats, vocab, [10, 20, 30, 40, 50, 60])
    add("symmetric", w6, None, s6, np.array(["p", "q", "r", "s", "t", "u"]), vocab)
    add("citations", w6, f6, np.hstack((l6, l6[:, :2])), None, None, [5, 4, 3, 2, 1, 0])
    add("floats", w6.astype(float), f6 * 0.5, None, cats, vocab, None, np.float64)
    add("one", w6[:1], np.ones((1, 2)), np.array([[2]]), [["z"]], vocab, [4])
    add("nine", rng_free(9, 4, 3) + np.eye(9, 4, dtype=int), None, (rng_free(9, 9, 5) > 3).astype(int), [[str(i)] for i in range(9)], None)
    add("two", w6[:2], f6[:2], l6[:2, :2], None, vocab[:5])
    add("weights", w6[:4], None, np.array([[0, 0.5, 0, 1], [0.25, 0.75, 0, 0], [0, 0, 0, 0.125], [2.5, 0, 0, 0]]), cats[:4], None, None, np.float64, np.float64)
    return out


def explore(ctx, start, first, depth):
    ops = D.all_ops()
    name, real, ref = initial()[start]
    ctx.case((name, []))
    if not D.same(ctx, "initial", real, ref):
        return
    frontier = [(real, ref, (name,))]
    for level in range(depth):
        nxt = []
        for ds, ref, path in frontier:
            for oi, (oname, enabled, run) in enumerate(ops):
                if level == 0 and oi not in first:
                    continue
                if not enabled(ref):
                    continue
                ctx.case(path + (oname,))
                before = D.state(ds)
                res = run(ctx, ds, ref)
                ctx.step()
                ctx.ran()
                ctx.expect(D.state(ds) == before, oname.split("-")[0] + "-altered-its-source")
                for k, (r, rr) in enumerate(res):
                    p = path + ("%s/%d" % (oname, k),)
                    ctx.case(p)
                    if D.same(ctx, oname.split("-")[0], r, rr) and ctx.state((rr.key(), str(r.words.dtype), type(r.feats).__name__)):
                        nxt.append((r, rr, p))
        frontier = nxt
    if frontier:
        ctx.sample(frontier[len(frontier) // 2][2])


def tasks(tier, seed):
    depth = 3 if tier == "quick" else 4
    n = len(D.all_ops())
    return [("from-%d-%d" % (s, i), explore, (s, c, depth)) for s in range(9) for i, c in enumerate(chunks(range(n), 3))]
