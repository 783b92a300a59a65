"""C22 Link predictors: what two documents score, and which scores are kept for ranking."""
import contextlib
import io
import itertools
import numpy as np
import scipy.sparse as ssp
from scipy.special import log_ndtr, ndtr

from ..space import chunks, csr_with, distinct, patterns, snapshot

PROPERTY = "C22"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
KINDS = ("lro", "sim-lda", "tfidf", "mtm", "rtm")
RULE = ("Link predictors {offsets (lro), topic similarity, TF-IDF, matrix-variate (mtm3), relational (rtm)} x all assignments of representations from a palette (equal, "
        "near-equal, one-sided, spread) to 1-3 documents x all link patterns between them (up to 3x3) x all ordered choices of documents x 32- and 64-bit models where "
        "the kind allows, other documents asking than those linked to; ladders over 40-300 documents x 2-40 topics. Each score against its definition, the least true "
        "score, the scores kept at that and at other thresholds, and the metrics from what is kept.")
ASSUMPTIONS = ["scores closer than their own rounding are not told apart"]


def module(kind):
    import sidetopics.model.lro_vb as lro
    import sidetopics.model.sim_based_rec as sim
    import sidetopics.model.mtm3 as mtm
    import sidetopics.model.rtm as rtm
    return {"lro": lro, "sim-lda": sim, "tfidf": sim, "mtm": mtm, "rtm": rtm}[kind]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def dataset(words, dtype=np.float64, links=None):
    from sidetopics.model.common import DataSet
    D = len(words)
    links = np.zeros((D, D)) if links is None else links
    return DataSet(ssp.csr_matrix(np.asarray(words, dtype=dtype)), links=ssp.csr_matrix(np.asarray(links, dtype=dtype)))


def fresh(kind, words, K, dtype):
    """A model, and the state of its documents, before any training."""
    m = module(kind)
    ds = dataset(words if kind in ("mtm", "rtm") else np.full((len(words), np.shape(words)[1]), 2000), dtype)     # the kinds on LDA draw documents until they have words enough
    kw = {"sim-lda": {"method": m.LDA}, "tfidf": {"method": m.TF_IDF}}.get(kind, {}) if kind in ("sim-lda", "tfidf") else {}
    model = quiet(m.newModelAtRandom, ds, K, dtype=dtype, **kw)
    return m, model, quiet(m.newQueryState, ds, model)


def palette(K):
    """Rows of numbers from which documents are described; all positive, sums above 1."""
    a = np.full(K, 2.0)
    b = np.linspace(0.5, 4.0, K)
    c = np.full(K, 1e-3)
    c[0] = 30.0
    d = b.copy()
    d[-1] += 1e-6
    return [a, b, c, d]


def describe(kind, m, model, q, rows, rows2, dtype):
    """The documents' state with the given rows (and a second set of rows for kinds with two per document) in it, and the definition's ingredients."""
    rows, rows2 = np.asarray(rows), np.asarray(rows2)
    D, K = rows.shape
    if kind == "lro":
        lda = q.ldaQuery._replace(topicDists=rows.copy())
        offs = rows2 - 1.5                                        # offsets may be negative
        return q._replace(ldaQuery=lda, offsetTopicDists=offs.copy()), (rows / rows.sum(axis=1, keepdims=True), offs)
    if kind == "sim-lda":
        th = rows / rows.sum(axis=1, keepdims=True)
        return q._replace(reps=np.sqrt(th)), (th, th)
    if kind == "mtm":
        far = 900.0 if D > 2 else 0.0                             # scores further out than exp can reach: only their differences count
        out, inn = (np.log(rows) + far * (np.arange(D)[:, None] % 3 - 1)).astype(dtype), (rows2 - 1.0 + far * (np.arange(K) % 3 - 1)).astype(dtype)
        return q._replace(outMeans=out.copy(), inMeans=inn.copy()), (out.astype(float), inn.astype(float))
    if kind == "rtm":
        lens = np.floor(rows.sum(axis=1)) + 1
        full = np.hstack([rows, lens[:, None]]).astype(float)
        prior = np.asarray(model.topicPrior)[:K]
        share = rows / rows.sum(axis=1, keepdims=True) * lens[:, None]
        full[:, :K] = share + prior
        return q._replace(docLens=lens, topicDists=full.copy()), (np.hstack([share / lens[:, None], np.ones((D, 1))]),) * 2
    raise AssertionError(kind)


def scores(kind, model, src, dst):
    """What each pair scores: rows ask, columns are linked to."""
    if kind == "lro":
        return float(model.scale) * src @ dst.T
    if kind == "sim-lda":
        d = np.sqrt(((np.sqrt(src)[:, None, :] - np.sqrt(dst)[None, :, :]) ** 2).sum(axis=2))
        return np.sqrt(2) / np.maximum(d, 1e-30)
    if kind == "tfidf":
        n1, n2 = np.sqrt((src ** 2).sum(axis=1)), np.sqrt((dst ** 2).sum(axis=1))
        return (src @ dst.T) / np.where(n1 == 0, 1, n1)[:, None] / np.where(n2 == 0, 1, n2)[None, :]
    if kind == "mtm":
        a = np.exp(src - src.max(axis=1, keepdims=True))
        b = np.exp(dst - dst.max(axis=0, keepdims=True))
        return (a / a.sum(axis=1, keepdims=True)) @ (b / b.sum(axis=0, keepdims=True)).T
    if kind == "rtm":
        return ndtr((src * np.asarray(model.weights, dtype=float)) @ dst.T)
    raise AssertionError(kind)


def tfidf(words):
    words = np.asarray(words, dtype=float)
    n = words.sum(axis=1, keepdims=True)
    df = (words > 0).sum(axis=0)
    return words / np.where(n == 0, 1, n) * np.log(len(words) / (df + 1.0))


def compare(ctx, kind, got, want, sig, dtype):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    eps = 1e-5 if dtype == np.float32 else 1e-9
    if kind == "sim-lda":                                        # nearly the same document: how alike is a matter of rounding
        far = want < 1e5
        ctx.expect(bool((got[~far] >= 0.5e5).all()), sig + "-alike", {"got": got, "want": want})
        got, want = got[far], want[far]
        eps = 1e-8
    ctx.close(got, want, sig, rtol=eps, atol=1e-300 if kind == "rtm" else (1e-6 if dtype == np.float32 else 1e-11))


def state_of(kind, q):
    return [np.array(x, dtype=float) if not ssp.issparse(x) else x.toarray() for x in
            ([q.ldaQuery.topicDists, q.offsetTopicDists] if kind == "lro" else [q.reps] if kind in ("sim-lda", "tfidf") else [q.outMeans, q.inMeans] if kind == "mtm" else [q.topicDists, q.docLens])]


def calls(kind, m, model, dst_q, src_q, subset):
    if kind == "rtm":
        return (lambda links: quiet(m.min_link_probs, model, src_q, links)), (lambda mins: quiet(m.link_probs, model, src_q, mins))
    return (lambda links: quiet(m.min_link_probs, model, dst_q, src_q, links, subset)), (lambda mins: quiet(m.link_probs, model, dst_q, src_q, mins, subset))


def ranked(ctx, kind, m, model, dst_q, src_q, S, links, subset, dtype):
    """All about one choice of documents and links: S holds the scores of every pair by definition."""
    rows = list(range(len(S))) if subset is None else list(subset)
    least, keep = calls(kind, m, model, dst_q, src_q, subset)
    csr = csr_with(links, np.ones(int(links.sum())), dtype)
    before = snapshot(csr)
    was = state_of(kind, src_q) + state_of(kind, dst_q)
    ok, mins = ctx.call("minimum-raised", least, csr)
    if not ok:
        return
    mins = np.asarray(mins, dtype=float)
    if not ctx.expect(mins.shape == (len(rows),), "minimum-shape", mins.shape):
        return
    want = np.array([S[d][links[d]].min() if links[d].any() else np.nan for d in rows])
    some = ~np.isnan(want)
    compare(ctx, kind, mins[some], want[some], "minimum", dtype)
    none = np.array([(1e-300 if kind == "rtm" else -1.0) if not links[d].any() else np.nan for d in rows])
    if kind == "rtm":
        ctx.expect(bool((mins[~some] <= 1e-29).all()), "minimum-without-links", mins)
    else:
        ctx.close(mins[~some], none[~some], "minimum-without-links")
    ok, kept = ctx.call("scores-raised", keep, mins.astype(dtype) if kind != "rtm" else mins)
    if not ok:
        return
    ctx.expect(snapshot(csr) == before, "measuring-altered-links")
    held(ctx, kind, kept, S, rows, mins, dtype)
    for i, d in enumerate(rows):
        cols = set(kept.indices[kept.indptr[i]:kept.indptr[i + 1]].tolist())
        lost = [int(p) for p in np.nonzero(links[d])[0] if int(p) not in cols]
        if not ctx.expect(not lost, "true-link-dropped", {"document": d, "lost": lost, "minimum": mins[i], "scores": S[d]}):
            return
    for a, b in zip(was, state_of(kind, src_q) + state_of(kind, dst_q)):
        ctx.close(b, a, "measuring-altered-topics", rtol=1e-12, atol=1e-12)
    return kept, mins, csr


def held(ctx, kind, kept, S, rows, mins, dtype):
    if not ctx.expect(kept.shape == (len(rows), S.shape[1]), "scores-shape", kept.shape):
        return
    for i, d in enumerate(rows):
        lo, hi = kept.indptr[i], kept.indptr[i + 1]
        cols, vals = kept.indices[lo:hi], kept.data[lo:hi]
        ctx.expect(len(set(cols.tolist())) == len(cols), "scores-repeated", cols)
        compare(ctx, kind, vals, S[d][cols], "scores", dtype)
        near = np.isfinite(mins[i]) * ((1e-4 if dtype == np.float32 else 1e-5) * abs(mins[i]) + (0.0 if kind == "rtm" else 1e-5 if dtype == np.float32 else 1e-6))
        missing = [int(p) for p in np.nonzero(S[d] > mins[i] + near)[0] if p not in set(cols.tolist())]
        extra = [int(p) for p in cols if S[d][p] < mins[i] - near]
        if not ctx.expect(not missing and not extra, "scores-kept", {"document": d, "threshold": mins[i], "missing": missing, "extra": extra, "scores": S[d]}):
            return


def metrics(ctx, kind, m, model, dst_q, src_q, S, kept, csr, subset, dtype):
    """Ranking by what is kept is ranking by everything."""
    import sidetopics.model.evals as ev
    rows = list(range(len(S))) if subset is None else list(subset)
    if not csr[rows].nnz or not all(np.diff(np.sort(S[d])).min(initial=1.0) > 1e-4 * (1 + abs(S[d]).max()) for d in rows):
        return
    true = csr[rows] if subset is not None else csr
    full = ssp.csr_matrix(S[rows] - S.min() + 1.0)
    for name, f in (("reciprocal-rank", ev.mean_reciprocal_rank), ("average-precision", ev.mean_average_prec)):
        ok, a = ctx.call(name + "-raised", quiet, f, true, kept)
        ok2, b = ctx.call(name + "-raised", quiet, f, true, full)
        if ok and ok2:
            ctx.close(a, b, name, rtol=1e-9)
    ms = [1, 2, 5]
    ok, a = ctx.call("precision-raised", quiet, ev.mean_prec_rec_at, true, kept, at=ms)
    ok2, b = ctx.call("precision-raised", quiet, ev.mean_prec_rec_at, true, full, at=ms)
    if ok and ok2:
        for g in b[1]:
            ctx.close(a[1][g], b[1][g], "recall-at", rtol=1e-9)


def model_with(kind, words, K, dtype, scale=0.7, weights=None):
    m, model, q = fresh(kind, words, K, dtype)
    if kind == "lro":
        model = model._replace(scale=scale)
    if kind == "rtm":
        model = model._replace(weights=weights if weights is not None else np.array(list(distinct(K, 5) * 2 - 2) + [-0.5]))
    return m, model, q


def thresholds(S):
    """Below everything, in the middle, above everything."""
    v = np.unique(np.round(S, 12))
    return [-np.inf, float(v[len(v) // 2]), float(v[-1] * 2 + 1)]


def small(ctx, cases):
    for kind, dtype, K, assign, links_all, subsets in cases:
        D = len(assign)
        words = np.eye(D, 4) + 1
        pal = palette(K)
        rows = [pal[i] for i in assign]
        rows2 = [np.roll(pal[(2 * i + d) % 4], d) * (1 + 0.1 * d) for d, i in enumerate(assign)]
        m, model, q = model_with(kind, words, K, dtype)
        q, (src, dst) = describe(kind, m, model, q, rows, rows2, dtype)
        S = scores(kind, model, src, dst)
        base = ("small", kind, np.dtype(dtype).name, K, assign)
        for t in thresholds(S):
            ctx.case(base + ("threshold", t))
            ctx.ran()
            ctx.step()
            least, keep = calls(kind, m, model, q, q, None)
            ok, kept = ctx.call("scores-raised", keep, np.full(D, t))
            if ok:
                held(ctx, kind, kept, S, list(range(D)), np.full(D, t), dtype)
        for links in links_all:
            for sub in (subsets if kind != "rtm" else [None]):
                ctx.case(base + (links.astype(int).tolist(), sub))
                ctx.state((base, links.tobytes(), sub))
                ctx.ran(bool(links.any()))
                ctx.step(2)
                r = ranked(ctx, kind, m, model, q, q, S, links, None if sub is None else list(sub), dtype)
                if r is None:
                    continue
                metrics(ctx, kind, m, model, q, q, S, r[0], r[2], None if sub is None else list(sub), dtype)
    ctx.sample({"kind": kind, "assign": assign})


def tfidf_states(words, dtype, K=2):
    m, model, q = fresh("tfidf", words, K, dtype)
    ds = dataset(words, dtype)
    model, q, _ = quiet(m.train, ds, model, q, m.newTrainPlan(1))
    return m, model, q


def weighted(ctx, cases):
    """TF-IDF: from words to scores."""
    for words, qwords, dtype, links_all, subsets in cases:
        ctx.case(("tfidf", words.tolist(), None if qwords is None else qwords.tolist(), np.dtype(dtype).name))
        ok, r = ctx.call("tfidf-train-raised", tfidf_states, words, dtype)
        if not ok:
            return
        m, model, q = r
        src = dst = tfidf(words)
        sq = q
        if qwords is not None:
            dq = dataset(qwords, dtype)
            ok, r = ctx.call("tfidf-query-raised", quiet, m.query, dq, model, m.newQueryState(dq, model), m.newTrainPlan(1))
            if not ok:
                return
            sq, src = r[1], tfidf(qwords)
        S = scores("tfidf", model, src, dst)
        for links in links_all(len(src), len(dst)):
            for sub in subsets:
                ctx.case(("tfidf", words.tolist(), None if qwords is None else qwords.tolist(), np.dtype(dtype).name, links.astype(int).tolist() if links.size < 50 else links.shape, sub))
                ctx.state(("tfidf", words.tobytes(), None if qwords is None else qwords.tobytes(), np.dtype(dtype).name, links.tobytes(), sub))
                ctx.ran(bool(links.any()))
                ctx.step(2)
                r = ranked(ctx, "tfidf", m, model, q, sq, S, links, None if sub is None else list(sub), dtype)
                if r is not None:
                    metrics(ctx, "tfidf", m, model, q, sq, S, r[0], r[2], None if sub is None else list(sub), dtype)
    ctx.sample({"words": words if words.size < 30 else words.shape})


def ladder_links(n, d, density):
    x = np.modf(np.arange(n * d) * 0.7548776662466927 + 0.31 * np.arange(n * d) ** 2 % 1)[0].reshape(n, d)
    return x < density


def sized(ctx, cases):
    """Other documents ask than are linked to; many documents and topics."""
    for kind, dtype, K, Dd, Ds, density, seed in cases:
        m, model, qd = model_with(kind, np.eye(Dd, 6) + 1, K, dtype, weights=None if seed == 0 else np.array(list(distinct(K, 9) * 30 - 60) + [-1.0 - seed]))
        rows = distinct(Dd * K, 3 + seed).reshape(Dd, K) ** 2
        rows2 = distinct(Dd * K, 11 + seed).reshape(Dd, K)
        if seed:
            rows[1::3] = rows[0] + distinct(len(rows[1::3]) * K, 77).reshape(-1, K) * 1e-9      # nearly the same documents
            rows2[1::3] = rows2[0]
        qd, (sd, dst) = describe(kind, m, model, qd, rows, rows2, dtype)
        if kind == "rtm":
            qs, src, Ds = qd, sd, Dd
        else:
            _, _, qs = fresh(kind, np.eye(Ds, 6) + 1, K, dtype)
            rs = distinct(Ds * K, 31 + seed).reshape(Ds, K) ** 3
            if seed:
                rs[::4] = rows[1]
            qs, (src, _) = describe(kind, m, model, qs, rs, rs + 0.5, dtype)
        S = scores(kind, model, src, dst)
        links = ladder_links(Ds, Dd, density)
        for sub in ([None] if kind == "rtm" else [None, list(range(0, Ds, 3)), [Ds - 1], list(range(Ds))[::-1][:7]]):
            ctx.case(("sized", kind, np.dtype(dtype).name, K, Dd, Ds, density, seed, None if sub is None else sub[:9]))
            ctx.state(("sized", kind, np.dtype(dtype).name, K, Dd, Ds, density, seed, str(sub)))
            ctx.ran()
            ctx.step(2)
            r = ranked(ctx, kind, m, model, qd, qs, S, links, sub, dtype)
            if r is not None:
                metrics(ctx, kind, m, model, qd, qs, S, r[0], r[2], sub, dtype)
    ctx.sample({"kind": kind, "documents": Dd, "topics": K})


def ordered_subsets(D):
    out = [None]
    for n in range(1, D + 1):
        out += list(itertools.permutations(range(D), n))
    return out


def likelihoods(ctx, cases):
    """The likelihood of the matrix-variate model: words, and links to each document by its share of each topic."""
    import sidetopics.model.mtm3 as m
    for words, K, w1, w2, links, dtype in cases:
        D = len(words)
        _, model, q = fresh("mtm", words, K, dtype)
        pal = palette(K)
        out = np.log(np.array([pal[(w1 + d) % 4] for d in range(D)])).astype(dtype)
        inn = np.array([np.roll(pal[(w2 + d) % 3], d) * 0.3 for d in range(D)]).astype(dtype)
        vocab = (distinct(K * words.shape[1], 3).reshape(K, -1)).astype(dtype)
        vocab /= vocab.sum(axis=1, keepdims=True)
        model, q = model._replace(vocab=vocab), q._replace(outMeans=out.copy(), inMeans=inn.copy())
        ctx.case(("likelihood", words.tolist(), K, w1, w2, links.tolist(), np.dtype(dtype).name))
        ctx.state(("likelihood", words.tobytes(), K, w1, w2, links.tobytes(), np.dtype(dtype).name))
        ctx.ran(bool(links.any()))
        ctx.step()
        ds = dataset(words, dtype, links)
        frozen = snapshot(ds.words, ds.links, q.outMeans, q.inMeans, vocab)
        ok, got = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
        if not ok:
            return
        a = np.exp(out.astype(float) - out.max(axis=1, keepdims=True))
        a /= a.sum(axis=1, keepdims=True)
        want = float((words * np.log(a @ vocab.astype(float))).sum() + (links * np.log(scores("mtm", model, out.astype(float), inn.astype(float)))).sum())
        ctx.close(float(got), want, "likelihood", rtol=2e-5 if dtype == np.float32 else 1e-9, atol=1e-6)
        ctx.close(np.asarray(m.topicDists(q), dtype=float), a, "topics-of-documents", rtol=1e-5 if dtype == np.float32 else 1e-9)
        ctx.expect(frozen == snapshot(ds.words, ds.links, q.outMeans, q.inMeans, vocab), "measuring-altered-topics")
    ctx.sample({"words": words, "topics": K})


def tasks(tier, seed):
    thorough = tier == "thorough"
    cases = []
    two = [p for p in patterns(2, 2)]
    three = [p for i, p in enumerate(patterns(3, 3)) if thorough or i % 8 == 7 or p.sum() < 3]
    for kind in ("lro", "sim-lda", "mtm", "rtm"):
        for dtype in (np.float64,) + ((np.float32,) if kind == "mtm" else ()):
            for K in (2, 3):
                cases.append((kind, dtype, K, (1,), [p for p in patterns(1, 1)], ordered_subsets(1)))
                for a in itertools.product(range(4), repeat=2):
                    cases.append((kind, dtype, K, a, two, ordered_subsets(2)))
                for j, a in enumerate(itertools.product(range(4), repeat=3)):
                    if len(set(a)) > 1 and (thorough or j % 2 == K % 2):
                        pick = three if thorough else three[j % 3::3]
                        cases.append((kind, dtype, K, a, pick, ordered_subsets(3) if thorough else [None, (2, 0), (1,), (0, 2, 1)]))
    out = [("small-%d" % i, small, (c,)) for i, c in enumerate(chunks(cases, 10))]
    few = lambda n, d: [p for i, p in enumerate(patterns(n, d)) if thorough or i % (7 if n * d < 6 else 37) in (3, 6) or p.all()]
    wcases = []
    mats = [np.array(v).reshape(2, 2) for v in itertools.product((0, 1, 3), repeat=4)] + [np.array(v).reshape(3, 2) for v in itertools.product((0, 2), repeat=6)]
    mats += [np.array(v).reshape(3, 3) for v in itertools.product((0, 1), repeat=9)][::1 if thorough else 5]
    for i, w in enumerate(mats):
        for dtype in (np.float64, np.float32):
            wcases.append((w, None, dtype, few, [None, (len(w) - 1, 0), (1,)]))
        wcases.append((w, mats[(i * 5 + 3) % len(mats)] if mats[(i * 5 + 3) % len(mats)].shape[1] == w.shape[1] else w[::-1], np.float64, few, [None, (1, 0)]))
    big = lambda n, d: [ladder_links(n, d, 0.02), ladder_links(n, d, 0.3)]
    for D, T, dtype in ((40, 30, np.float64), (40, 30, np.float32), (250, 60, np.float64), (250, 60, np.float32)):
        w = np.floor(distinct(D * T, 3).reshape(D, T) * 2.2 - 2).clip(0)
        wcases.append((w, None, dtype, big, [None, (3, 1, 0, D - 1)]))
        wcases.append((w, np.floor(distinct(35 * T, 50).reshape(35, T) * 2.2 - 2).clip(0), dtype, big, [None, (3, 1, 0, 34)]))
    out += [("tfidf-%d" % i, weighted, (c,)) for i, c in enumerate(chunks(wcases, 5))]
    sz = [(kind, dtype, K, Dd, Ds, den, s) for kind in ("lro", "sim-lda", "mtm", "rtm") for dtype in (np.float64,) + ((np.float32,) if kind == "mtm" else ())
          for K, Dd, Ds, den in ((2, 40, 17, 0.1), (7, 130, 60, 0.05), (40, 300, 50, 0.02), (3, 9, 30, 0.5)) for s in (0, 1)]
    out += [("sized-%d" % i, sized, (c,)) for i, c in enumerate(chunks(sz, 5))]
    lk = [(w, K, a, b, p.astype(float) * v, dt) for w in (np.array([[2, 0, 1], [0, 1, 4]]), np.array([[1.5, 0.5]] * 2)) for K in (2, 3, 5) for a in range(4) for b in range(3) for p in two for v in (1, 2) for dt in (np.float64, np.float32)]
    lk += [(np.floor(distinct(D * 9, 4).reshape(D, 9) * 3), K, 1, 2, ladder_links(D, D, 0.2).astype(float), dt) for D in (1, 5, 40, 150) for K in (2, 6) for dt in (np.float64, np.float32)]
    out += [("likelihood-%d" % i, likelihoods, (c,)) for i, c in enumerate(chunks(lk, 3))]
    return out
