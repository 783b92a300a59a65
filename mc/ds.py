"""Reference model of a dataset (plain lists and dense arrays), and every operation on it.

Each operation gives (enabled, run): run performs the operation on the real object and on the
model, reports differences through ctx, and returns the (real, model) pairs it leads to.
Random choices of the code are not predicted: they are read off the result and then checked
against what the operation may choose.
"""
import copy
import pickle
import numpy as np
import scipy.sparse as ssp

from .space import snapshot


class Ref:
    __slots__ = ("words", "feats", "links", "cats", "vocab", "order", "foreign")

    def __init__(self, words, feats=None, links=None, cats=None, vocab=None, order=None, foreign=False):
        self.words = np.asarray(words, dtype=np.float64)
        self.feats = None if feats is None else np.asarray(feats, dtype=np.float64)
        self.links = None if links is None else np.asarray(links, dtype=np.float64)
        self.cats = None if cats is None else list(cats)
        self.vocab = None if vocab is None else list(vocab)
        self.order = list(range(len(self.words))) if order is None else [int(i) for i in order]
        self.foreign = foreign or (self.links is not None and self.links.shape[1] != len(self.words))

    @property
    def n(self):
        return len(self.words)

    def but(self, **kw):
        r = Ref(self.words, self.feats, self.links, self.cats, self.vocab, self.order, self.foreign)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def select(self, rows, link_cols=None):
        rows = [int(r) for r in rows]
        links = self.links
        if links is not None:
            links = links[rows, :]
            if link_cols is not None:
                links = links[:, [int(c) for c in link_cols]]
        return Ref(self.words[rows, :], None if self.feats is None else self.feats[rows, :], links,
                   None if self.cats is None else [self.cats[r] for r in rows], self.vocab,
                   [self.order[r] for r in rows], self.foreign or link_cols is None)

    def key(self):
        f = lambda a: None if a is None else (a.shape, a.tobytes())
        return (f(self.words), f(self.feats), f(self.links), repr(self.cats), repr(self.vocab), tuple(self.order), self.foreign)


def dense(m):
    return None if m is None else np.asarray(m.todense(), dtype=np.float64) if ssp.issparse(m) else np.asarray(m, dtype=np.float64)


def state(ds):
    """Everything observable of a dataset, as bytes."""
    cats = ds.doc_categories
    return (snapshot(ds.words, ds.feats, ds.links), repr(None if cats is None else list(map(str, cats))),
            repr(None if ds.word_dict is None else list(map(str, ds.word_dict))), tuple(int(i) for i in ds.order))


def same(ctx, sig, ds, ref):
    """The real dataset is what the model says."""
    ok = True
    for name, got, want in (("words", ds.words, ref.words), ("feats", ds.feats, ref.feats), ("links", ds.links, ref.links)):
        if (got is None) != (want is None):
            ctx.fail(sig + "-" + name, {"got": got, "want": want})
            return False
        if got is not None:
            g = dense(got)
            if g.shape != want.shape or not np.array_equal(g, want):
                ctx.fail(sig + "-" + name, {"got": g, "want": want})
                ok = False
    for name, got, want in (("categories", ds.doc_categories, ref.cats), ("dictionary", ds.word_dict, ref.vocab)):
        g = None if got is None else [str(x) for x in got]
        w = None if want is None else [str(x) for x in want]
        if g != w:
            ctx.fail(sig + "-" + name, {"got": g, "want": w})
            ok = False
    if [int(i) for i in ds.order] != ref.order:
        ctx.fail(sig + "-order", {"got": list(ds.order), "want": ref.order})
        ok = False
    n = ref.n
    lens = np.asarray(ds.doc_lens)
    facts = [("len", len(ds), n), ("doc_count", ds.doc_count, n), ("word_count", float(ds.word_count), ref.words.sum()),
             ("doc_lens", lens.tolist(), ref.words.sum(axis=1).tolist()), ("has_links", bool(ds.has_links()), ref.links is not None),
             ("has_features", bool(ds.has_features()), ref.feats is not None),
             ("word_and_link_count", float(ds.word_and_link_count), ref.words.sum() + (0 if ref.links is None else ref.links.sum()))]
    if ref.links is not None:
        facts.append(("link_count", float(ds.link_count), ref.links.sum()))
    for name, got, want in facts:
        if got != want:
            ctx.fail(sig + "-" + name, {"got": got, "want": want})
            ok = False
    return ok


def clone(ds):
    return pickle.loads(pickle.dumps(ds))


# ---- reference semantics ----

def folds(n, k):
    """The only thing asked of folds is left to the checks; this is what a fold may look like."""
    return n >= k


def prune_survivors(ref, min_words, min_links):
    rows = [d for d in range(ref.n) if (ref.words[d] != 0).sum() >= min_words]
    if min_links and ref.links is not None:
        square = not ref.foreign
        while True:
            keep = [d for d in rows if (ref.links[d, rows].sum() if square else ref.links[d].sum()) >= min_links]
            if keep == rows:
                break
            rows = keep
    return rows


def op_copy(deep):
    def run(ctx, ds, ref):
        ok, r = ctx.call("copy-raised", ds.copy, deep) if deep else ctx.call("copy-raised", ds.copy)
        if not ok:
            return []
        if deep:
            # writing in the deep copy must not reach the original
            before = state(ds)
            r2 = ds.copy(deep=True)
            for m in (r2.words, r2.feats, r2.links):
                if m is not None:
                    (m.data if ssp.issparse(m) else m)[...] = 99
            r2.order[...] = 7
            ctx.expect(before == state(ds), "deep-copy-shared")
        return [(r, ref)]
    return ("copy-deep" if deep else "copy"), lambda ref: True, run


def op_changes(what):
    def run(ctx, ds, ref):
        if what == "words":
            new = ref.words[:, ::-1] + 1
            ok, r = ctx.call("copy-with-changes-raised", ds.copy_with_changes, words=ssp.csr_matrix(new.astype(ds.words.dtype)))
            want = ref.but(words=new)
        else:
            ok, r = ctx.call("copy-with-changes-raised", ds.copy_with_changes, feats=ssp.csr_matrix(np.eye(ref.n)))
            want = ref.but(feats=np.eye(ref.n))
        return [(r, want)] if ok else []
    return "changes-" + what, lambda ref: True, run


def op_cv(k, fold):
    def run(ctx, ds, ref):
        ok, r = ctx.call("cv-raised", ds.cross_valid_split, fold, k)
        if not ok:
            return []
        ok, idx = ctx.call("cv-indices-raised", ds.cross_valid_split_indices, fold, k)
        if not ok:
            return []
        t, q = [[int(i) for i in x] for x in idx]
        ctx.expect(sorted(t + q) == list(range(ref.n)), "cv-not-a-partition", {"train": t, "query": q})
        return [(r[0], ref.select(t)), (r[1], ref.select(q))]
    return "cv-%d-of-%d" % (fold, k), lambda ref: ref.n >= k, run


def op_prune(min_words, min_links, seed):
    def run(ctx, ds, ref):
        work = ds.copy()      # in place: on a dataset that shares its parts with the one it came from
        ok, order = ctx.call("prune-raised", work.prune_and_shuffle, min_words, min_links, seed)
        if not ok:
            return []
        order = [int(i) for i in order]
        want = prune_survivors(ref, min_words, min_links)
        ctx.expect(sorted(order) == want, "prune-wrong-documents", {"got": sorted(order), "want": want})
        new = ref.select(order, None if ref.links is None or ref.foreign else order)
        new.order, new.foreign = order, ref.foreign
        return [(work, new)]
    return ("prune-%s-%s-%s" % (min_words, min_links, seed),
            lambda ref: not (ref.foreign and ref.links is not None and ref.links.shape[0] == ref.links.shape[1])
            and len(prune_survivors(ref, min_words, min_links)) > 0, run)


def op_completion(min_words, seed, prop):
    def run(ctx, ds, ref):
        if min_words:
            ok, r = ctx.call("completion-raised", ds.doc_completion_split, min_words, seed, prop, True)
        else:
            ok, r = ctx.call("completion-raised", ds.doc_completion_split, seed=seed, est_prop=prop)
        if not ok:
            return []
        if ref.feats is not None:
            same(ctx, "completion-features-left", r[0], ref)
            same(ctx, "completion-features-right", r[1], ref)
            return []
        a, b = dense(r[0].words), dense(r[1].words)
        if a.shape != b.shape or not np.array_equal(a + b, ref.words) or (a < 0).any() or (b < 0).any() or not np.array_equal(a, np.round(a)):
            ctx.fail("completion-halves", {"left": a, "right": b, "want sum": ref.words})
            return []
        return [(r[0], ref.but(words=a)), (r[1], ref.but(words=b))]
    return "completion-%s-%s-%s" % (min_words, seed, prop), lambda ref: bool((ref.words == np.round(ref.words)).all()) and not min_words, run


def op_linksplit(symmetric, seed):
    def run(ctx, ds, ref):
        ok, r = ctx.call("linksplit-raised", ds.link_prediction_split, symmetric, seed)
        if not ok:
            return []
        a, b = dense(r[0].links), dense(r[1].links)
        good = np.array_equal(a + b, ref.links) and not ((a != 0) & (b != 0)).any()
        if symmetric:
            good = good and np.array_equal(a, a.T) and np.array_equal(b, b.T)
        if not good:
            ctx.fail("linksplit-halves", {"left": a, "right": b, "links": ref.links})
            return []
        units = lambda m: (np.tril(m) != 0).sum() if symmetric else (m != 0).sum()
        ctx.expect(abs(int(units(a)) - int(units(b))) <= 1, "linksplit-unbalanced", {"left": a, "right": b})
        return [(r[0], ref.but(links=a)), (r[1], ref.but(links=b))]
    return ("linksplit-%s-%s" % (symmetric, seed),
            lambda ref: ref.links is not None and (not symmetric or (not ref.foreign and np.array_equal(ref.links, ref.links.T))), run)


def folded_expect(ctx, ref, a, b, subset, k, min_links):
    counts = (ref.links != 0).sum(axis=1)
    want = [d for d in range(ref.n) if counts[d] >= min_links]
    good = [int(d) for d in subset] == want
    for d in range(ref.n):
        if d in want:
            good = good and np.array_equal(a[d] + b[d], ref.links[d]) and not ((a[d] != 0) & (b[d] != 0)).any() \
                and (b[d] != 0).sum() == counts[d] // k
        else:
            good = good and np.array_equal(a[d], ref.links[d])
    if not good:
        ctx.fail("folded-halves", {"left": a, "right": b, "links": ref.links, "documents": list(subset), "want documents": want})
    return good


def op_folded(min_links, fold, k):
    def run(ctx, ds, ref):
        ok, r = ctx.call("folded-raised", ds.folded_link_prediction_split, min_links, fold, k)
        if not ok:
            return []
        a, b = dense(r[0].links), dense(r[1].links)
        if not folded_expect(ctx, ref, a, b, r[2], k, min_links):
            return []
        return [(r[0], ref.but(links=a)), (r[1], ref.but(links=b))]
    return "folded-%d-%d-%d" % (min_links, fold, k), lambda ref: ref.links is not None, run


def feature_rows(ref, features):
    train = [d for d in range(ref.n) if not ref.feats[d, features].any()]
    query = [d for d in range(ref.n) if ref.feats[d, features[0]] != 0]
    return train, query


def op_feature(features):
    def run(ctx, ds, ref):
        ok, r = ctx.call("featsplit-raised", ds.split_on_feature, features)
        if not ok:
            return []
        train, query = feature_rows(ref, features)
        ctx.expect([int(d) for d in r[2]] == train, "featsplit-documents", {"got": list(r[2]), "want": train})
        a, b = ref.select(train, train), ref.select(query, train)
        a.foreign, b.foreign = False, True
        return [(r[0], a), (r[1], b)]

    def enabled(ref):
        if ref.feats is None or ref.feats.shape[1] <= max(features) or (ref.links is not None and ref.foreign):
            return False
        train, query = feature_rows(ref, features)
        return bool(train) and bool(query)
    return "featsplit-%s" % (features,), enabled, run


def op_intercept():
    def run(ctx, ds, ref):
        work = ds.copy()
        ok, r = ctx.call("intercept-raised", work.add_intercept_to_feats_if_required)
        if not ok:
            return []
        has = ref.feats is not None and any((ref.feats[:, j] == 1).all() for j in range(ref.feats.shape[1]))
        add = ref.feats is not None and not has
        ctx.expect(bool(r) == add, "intercept-return", {"got": r, "want": add})
        return [(work, ref.but(feats=np.hstack((ref.feats, np.ones((ref.n, 1)))) if add else ref.feats))]
    return "intercept", lambda ref: True, run


def op_dtype(dt):
    def run(ctx, ds, ref):
        work = ds.copy()
        ok, r = ctx.call("dtype-raised", work.convert_to_dtype, dt)
        if not ok:
            return []
        for m in (work.words, work.feats, work.links):
            if m is not None:
                ctx.expect(m.dtype == dt, "dtype-not-converted", str(m.dtype))
        return [(work, ref)]
    whole = lambda m: m is None or (m == np.round(m)).all()
    return "dtype-" + np.dtype(dt).name, lambda ref: np.dtype(dt).kind == "f" or (whole(ref.feats) and whole(ref.links)), run


def op_dtypes():
    def run(ctx, ds, ref):
        work = ds.copy()
        ok, r = ctx.call("dtypes-raised", work.convert_to_dtypes, np.int32, np.float64, np.float32)
        if not ok:
            return []
        ctx.expect(work.words.dtype == np.int32 and (work.feats is None or work.feats.dtype == np.float64)
                   and (work.links is None or work.links.dtype == np.float32), "dtypes-not-converted")
        return [(work, ref)]
    return "dtypes", lambda ref: True, run


def op_undirected():
    def run(ctx, ds, ref):
        work = ds.copy()
        ok, r = ctx.call("undirected-raised", work.convert_to_undirected_graph)
        if not ok:
            return []
        a = dense(work.links)
        want = (ref.links != 0) | (ref.links.T != 0)
        ctx.expect(np.array_equal(a != 0, want) and np.array_equal(a, a.T), "undirected", {"got": a, "links": ref.links})
        return [(work, ref.but(links=a))]
    return "undirected", lambda ref: ref.links is not None and not ref.foreign, run


def op_binary():
    def run(ctx, ds, ref):
        work = ds.copy()
        ok, r = ctx.call("binary-raised", work.convert_to_binary_link_matrix)
        return [(work, ref.but(links=(ref.links != 0).astype(float)))] if ok else []
    return "binary", lambda ref: ref.links is not None, run


def op_minfreq(m):
    def cols(ref):
        return [w for w in range(ref.words.shape[1]) if (ref.words[:, w] != 0).sum() >= m]

    def run(ctx, ds, ref):
        ok, r = ctx.call("minfreq-raised", ds.words_with_min_freq, m)
        if not ok:
            return []
        keep = cols(ref)
        return [(r, ref.but(words=ref.words[:, keep], vocab=None if ref.vocab is None else [ref.vocab[w] for w in keep]))]
    return "minfreq-%d" % m, lambda ref: bool(cols(ref)), run


def op_pickle():
    def run(ctx, ds, ref):
        return [(clone(ds), ref)]
    return "pickle", lambda ref: True, run


def op_ranges():
    """Read-only questions must not alter the dataset."""
    def run(ctx, ds, ref):
        ok, g = ctx.call("dictionary-raised", ds.gensim_dictionary)
        if ok:
            freq = (ref.words != 0).sum(axis=0)
            got = [int(g.dfs.get(w, 0)) for w in range(ref.words.shape[1])]
            ctx.expect(got == freq.tolist() and set(np.flatnonzero(freq).tolist()) <= set(g.keys()), "gensim-dictionary",
                       {"got": got, "want": freq, "ids": sorted(g.keys())})
            ctx.expect(g.num_docs == ref.n, "gensim-documents")
        return []
    return "gensim", lambda ref: bool((ref.words == np.round(ref.words)).all()), run


def all_ops():
    return [op_copy(False), op_copy(True), op_changes("words"), op_changes("feats"),
            op_cv(2, 0), op_cv(2, 1), op_cv(3, 1), op_prune(0.5, 0, 0xC0FFEE), op_prune(2, 2, 5), op_prune(1, 1, 9),
            op_completion(0, 3, 0.5), op_completion(0, 4, 0.8), op_linksplit(True, 1), op_linksplit(False, 2),
            op_folded(2, 0, 2), op_folded(1, 2, 3), op_feature([1]), op_feature([0, 2]), op_intercept(),
            op_dtype(np.float32), op_dtype(np.int32), op_dtype(np.float64), op_dtypes(), op_undirected(), op_binary(),
            op_minfreq(2), op_minfreq(1), op_pickle(), op_ranges()]
