"""C11: building a dataset (in memory or from files) takes exactly the documents asked for, or refuses."""
import itertools
import os
import pickle
import numpy as np
import scipy.sparse as ssp

from .. import build, ds as D
from ..space import chunks

PROPERTY = "C11"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All combinations of present/absent features, links (square, wide), dictionary and categories, x orders (none, permutation, subset, "
        "repeated) x limits 0..n+1 x matrix formats (csr, csc, coo, dense), in memory and from files; all mismatched row counts; "
        "all ways of grouping 4 category labels in documents.")
ASSUMPTIONS = ["orders name existing documents"]

W = np.array([[1, 0, 2, 0], [0, 3, 0, 1], [4, 0, 0, 0], [0, 5, 1, 0], [2, 2, 0, 6]])
F = np.array([[1, 0.5], [0, 2], [0, 0], [3, 0.25], [1, 1]])
L = {"square": np.array([[0, 1, 0, 2, 0], [1, 0, 0, 0, 3], [0, 0, 1, 0, 0], [4, 0, 0, 0, 0], [0, 0, 5, 0, 0]]),
     "wide": np.arange(35).reshape(5, 7) % 4}
FORMATS = {"csr": ssp.csr_matrix, "csc": ssp.csc_matrix, "coo": ssp.coo_matrix, "dense": np.array, "f32": lambda m: ssp.csr_matrix(m.astype(np.float32))}
CATS = [["a"], ["b", "c"], ["d"], ["e"], ["f", "g"]]


def sub(ref, rows):
    square = ref.links is not None and ref.links.shape[0] == ref.links.shape[1]
    return ref.select(rows, rows if square else None)


def limited(ref, limit, order):
    """The reference: order describes the matrices given; a limit keeps the first documents."""
    r = ref if order is None else ref.but(order=list(order))
    return sub(r, range(limit)) if 0 < limit < ref.n else r


def memory(ctx, cases):
    from sidetopics.model.common import DataSet
    for feats, links, cats, vocab, order, limit, fmt in cases:
        ctx.case(("memory", feats, links, cats, vocab, order, limit, fmt))
        ctx.state(("memory", feats, links, cats, vocab, str(order), limit, fmt))
        ctx.step()
        ctx.ran()
        mk = FORMATS[fmt]
        c = None if cats is None else CATS if cats == "list" else np.array(["c%d" % i for i in range(5)])
        v = ["v%d" % i for i in range(4)] if vocab else None
        args = (mk(W), ssp.csr_matrix(F) if feats else None, None if links is None else mk(L[links]), v, c)
        before = D.snapshot(*[a for a in args if a is not None and (ssp.issparse(a) or isinstance(a, np.ndarray)) and getattr(a, "format", "csr") == "csr"])
        for debug in (False, True):
            ok, ds = ctx.call("raised", DataSet, *args, order=None if order is None else np.array(order), limit=limit, debug=debug)
            if ok:
                ref = limited(D.Ref(W, F if feats else None, None if links is None else L[links], c, v), limit, order)
                D.same(ctx, "memory", ds, ref)
                ctx.expect(ssp.isspmatrix_csr(ds.words) and (ds.links is None or ssp.isspmatrix_csr(ds.links)), "not-converted-to-csr",
                           [type(ds.words).__name__, type(ds.links).__name__])
        after = D.snapshot(*[a for a in args if a is not None and (ssp.issparse(a) or isinstance(a, np.ndarray)) and getattr(a, "format", "csr") == "csr"])
        ctx.expect(before == after, "argument-altered")
        if fmt != "csr" and fmt != "f32":
            ctx.raises("unconverted-accepted", (AssertionError, ValueError, TypeError), DataSet, *args, auto_convert_to_sparse=False)


def mismatches(ctx):
    from sidetopics.model.common import DataSet
    for nw, nf, nl, nc in itertools.product(range(0, 4), (None, 0, 1, 2, 3, 4), (None, 1, 2, 3, 4), (None, 0, 1, 2, 3, 4)):
        ctx.case(("mismatch", nw, nf, nl, nc))
        ctx.state(("mismatch", nw, nf, nl, nc))
        ctx.step()
        args = (ssp.csr_matrix(np.ones((nw, 3))), None if nf is None else ssp.csr_matrix(np.ones((nf, 2))),
                None if nl is None else ssp.csr_matrix(np.ones((nl, max(nl, 1)))), None, None if nc is None else [["x"]] * nc)
        valid = nw > 0 and all(x is None or x == nw for x in (nf, nl, nc))
        ctx.ran(not valid)
        for debug in (False, True):
            if valid:
                ctx.call("valid-refused", DataSet, *args, debug=debug)
            else:
                ctx.raises("mismatch-accepted", (AssertionError, ValueError), DataSet, *args, debug=debug)


def flat(groups):
    """The file format: one flat list of labels, the last of each document ending in a newline."""
    return [x + ("\n" if i + 1 == len(g) else "") for g in groups for i, x in enumerate(g)]


def files(ctx, cases):
    from sidetopics.model.common import DataSet
    here = os.path.join(build.scratch(), "files-%d" % os.getpid())
    os.makedirs(here, exist_ok=True)

    def put(name, obj):
        if obj is None:
            return None
        p = os.path.join(here, name)
        with open(p, "wb") as f:
            pickle.dump(obj, f)
        return p
    for feats, links, cats, vocab, order, limit, fmt in cases:
        if order is not None and limit > 0 and max(order) >= limit:
            continue        # an order of documents that the limit removed
        ctx.case(("files", feats, links, cats, vocab, order, limit, fmt))
        ctx.state(("files", feats, links, cats, vocab, str(order), limit, fmt))
        ctx.step()
        ctx.ran()
        v = ["v%d" % i for i in range(4)] if vocab else None
        mk = FORMATS[fmt]
        ok, ds = ctx.call("files-raised", DataSet.from_files, put("w", mk(W)), put("f", ssp.csr_matrix(F) if feats else None),
                          put("l", None if links is None else mk(L[links])), put("d", v), put("c", flat(CATS) if cats else None),
                          order=None if order is None else np.array(order), limit=limit)
        if ok:
            ref = limited(D.Ref(W, F if feats else None, None if links is None else L[links], CATS if cats else None, v), limit, None)
            if order is not None:
                ref = sub(ref, order)
            D.same(ctx, "files", ds, ref)
    # every grouping of labels into documents
    for cut in itertools.product((0, 1), repeat=3):
        groups, cur = [], ["p"]
        for c, x in zip(cut, "qrs"):
            if c:
                groups.append(cur)
                cur = [x]
            else:
                cur.append(x)
        groups.append(cur)
        n = len(groups)
        for last in (True, False):     # a last label without its newline still ends a document
            labels = flat(groups)
            if not last:
                labels[-1] = labels[-1].rstrip("\n")
            ctx.case(("labels", labels))
            ctx.state(("labels", str(labels)))
            ctx.step()
            ctx.ran()
            ok, ds = ctx.call("labels-raised", DataSet.from_files, put("w", ssp.csr_matrix(np.ones((n, 2)))), doc_category_file=put("c", labels))
            if ok:
                ctx.expect([list(x) for x in ds.doc_categories] == groups, "labels", {"got": ds.doc_categories, "want": groups})
            if n > 1:
                ctx.raises("label-mismatch-accepted", (AssertionError, ValueError), DataSet.from_files,
                           put("w", ssp.csr_matrix(np.ones((n - 1, 2)))), doc_category_file=put("c", labels))
    ctx.sample({"labels": labels})


def tasks(tier, seed):
    orders = (None, [4, 3, 2, 1, 0], [2, 0], [1], [0, 1, 2, 3, 4], [3, 3, 1]) if tier == "quick" else \
        (None,) + tuple(list(p) for r in (1, 2, 3, 5) for p in itertools.permutations(range(5), r)) + ([3, 3, 1],)
    limits = range(0, 7)
    mem = [(f, l, c, v, o, lim, fmt) for f, l, c, v, o, lim, fmt in itertools.product(
        (False, True), (None, "square", "wide"), (None, "list", "array"), (False, True), (None, [14, 13, 12, 11, 10]), limits, FORMATS)]
    fil = [(f, l, c, v, o, lim, fmt) for f, l, c, v, o, lim, fmt in itertools.product(
        (False, True), (None, "square", "wide"), (False, True), (False, True), orders, limits, ("csr", "dense") if tier == "quick" else ("csr",))]
    return [("memory-%d" % i, memory, (c,)) for i, c in enumerate(chunks(mem, 6))] + \
        [("files-%d" % i, files, (c,)) for i, c in enumerate(chunks(fil, 8))] + [("mismatches", mismatches, ())]
