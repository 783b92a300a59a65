"""C23 Topics of linked documents: what the link predictors infer from words (and links)."""
import copy
import itertools
import numpy as np
import scipy.sparse as ssp
from scipy.special import digamma, log_ndtr

from .. import logistic as lg
from ..space import chunks, csr_with, distinct, patterns, snapshot
from .c22 import dataset, fresh, quiet

PROPERTY = "C23"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("Relational model: all corpora of 1-3 documents with counts from {1,3}/{0,1,4} x link patterns x start palettes x weight palettes (links near certain to near "
        "impossible), each training iteration and each query iteration against the update by definition, runs of 2-5 iterations against as many runs of one; "
        "ladders over 30-120 documents. Matrix-variate model: queries of 1-3 documents x palettes of scores, covariances, means, vocabularies, 1-4 iterations; "
        "ladders. Offset and similarity models: topics given and topics learnt. Copies of all models.")
ASSUMPTIONS = ["the weights of the relational model's links and the offsets and scale of the offset model are read from the code's results, not checked"]


# ------------------------------------------------------------------ relational

def sweep(words, links, prior, wd, weights, means):
    """Each document in turn: topics of its words, given theirs, its own so far and those of the documents it links to. Returns counts by word."""
    K = len(prior)
    means = means.copy()
    elog = digamma(wd) - digamma(wd.sum(axis=1))[:, None]
    counts = np.zeros_like(wd)
    n = words.sum(axis=1)
    for d in range(len(words)):
        z = elog + digamma(prior + n[d] * means[d])[:, None]
        for p in np.nonzero(links[d])[0]:
            x = float((weights[:K] * means[d] * means[p]).sum() + weights[K])
            hazard = np.exp(-0.5 * x * x - 0.5 * np.log(2 * np.pi) - log_ndtr(x))
            z = z + (hazard / n[d] * weights[:K] * means[p])[:, None]
        z = np.exp(z - z.max(axis=0))
        z /= z.sum(axis=0)
        counts += z * words[d]
        means[d] = z @ words[d] / n[d]
    return means, counts


def rtm_start(words, links, K, which, weights, prior_kind):
    import sidetopics.model.rtm as m
    ds = dataset(words, np.float64, links)
    D, T = words.shape
    model = m.newModelAtRandom(ds, K, vocabPrior=(0.6, 0.05)[prior_kind])
    prior = np.append((np.full(K, 0.9), 0.2 + distinct(K, 6))[prior_kind], 0.0)
    wd = (1.0 + distinct(K * T, 3).reshape(K, T), 0.1 + 6 * lg.words_of(K, T, 1))[which % 2]
    model = model._replace(topicPrior=prior, wordDists=wd.copy(), weights=weights.copy())
    q = m.newQueryState(ds, model)
    share = (lg.soft(distinct(D * K, 12).reshape(D, K)), lg.soft(4 * distinct(D * K, 19).reshape(D, K)))[which // 2 % 2]
    n = words.sum(axis=1)
    top = np.hstack([share * n[:, None] + prior[:K], n[:, None]])
    return m, ds, model, q._replace(topicDists=top, docLens=n.astype(float).copy())


def means_of(q, prior):
    n = np.asarray(q.docLens, dtype=float)
    K = len(prior)
    return (np.asarray(q.topicDists)[:, :K] - prior) / n[:, None]


def weights_of(K, which):
    w = distinct(K, 14)
    return (np.ones(K + 1), np.append(w * 3 - 4, -0.4), np.append(-8 * w, -3.0), np.append(w * 5, 2.0), np.append(-6 - w * 10, -6.0))[which]


def relational(ctx, cases):
    for words, links, K, which, ww, pk in cases:
        words = np.asarray(words, dtype=float)
        m, ds, model, q = rtm_start(words, links.astype(float), K, which, weights_of(K, ww), pk)
        prior = np.asarray(model.topicPrior)[:K].copy()
        tag = ("relational", words.tolist() if words.size < 30 else words.shape, links.astype(int).tolist() if links.size < 30 else links.shape, K, which, ww, pk)
        data = snapshot(ds.words, ds.links)
        start = copy.deepcopy((model, q))
        for step in range(3):
            # asked: words and weights stay, topics move
            ctx.case(tag + ("query", step))
            ctx.state(tag[:1] + (words.tobytes(), links.tobytes()) + tag[3:] + ("query", step))
            ctx.ran()
            ctx.step()
            a, b = copy.deepcopy((model, q))
            frozen = snapshot(a.wordDists, a.weights, a.topicPrior)
            want, _ = sweep(words, links, prior, np.asarray(a.wordDists, dtype=float), np.asarray(a.weights, dtype=float), means_of(b, prior))
            ok, r = ctx.call("query-raised", quiet, m.query, ds, a, b, m.newTrainPlan(1))
            if not ok:
                return
            ctx.close(means_of(r[1], prior), want, "query-topics", rtol=1e-7, atol=1e-9)
            ctx.expect(snapshot(r[0].wordDists, r[0].weights, r[0].topicPrior) == frozen == snapshot(a.wordDists, a.weights, a.topicPrior), "query-altered-model")
            two, _ = sweep(words, links, prior, np.asarray(model.wordDists, dtype=float), np.asarray(model.weights, dtype=float), want)
            a, b = copy.deepcopy((model, q))
            ok, r = ctx.call("query-raised", quiet, m.query, ds, a, b, m.newTrainPlan(2, logFrequency=1))
            if ok:
                ctx.close(means_of(r[1], prior), two, "query-topics-later", rtol=1e-6, atol=1e-8)
            # trained: topics and words move, then weights
            ctx.case(tag + ("train", step))
            ctx.ran()
            ctx.step()
            want, counts = sweep(words, links, prior, np.asarray(model.wordDists, dtype=float), np.asarray(model.weights, dtype=float), means_of(q, prior))
            ok, r = ctx.call("train-raised", quiet, m.train, ds, model, q, m.newTrainPlan(1, logFrequency=1 + step))
            if not ok:
                return
            model, q, _ = r
            ctx.close(means_of(q, prior), want, "topics", rtol=1e-7, atol=1e-9)
            ctx.close(np.asarray(model.wordDists), counts + (0.6, 0.05)[pk], "words-of-topics", rtol=1e-7, atol=1e-9)
            ctx.close(np.asarray(q.topicDists)[:, K], words.sum(axis=1), "document-lengths", rtol=1e-9)
            ctx.close(np.asarray(model.topicPrior), np.append(prior, 0), "prior-of-topics", rtol=1e-12)
            if not ctx.expect(bool(np.isfinite(model.weights).all()), "weights-not-finite", model.weights):
                return
            th = np.asarray(m.topicDists(q), dtype=float)
            ex = want * words.sum(axis=1)[:, None] + prior
            ctx.close(th, ex / ex.sum(axis=1, keepdims=True), "topics-of-documents", rtol=1e-7)
            ph = counts + (0.6, 0.05)[pk]
            ctx.close(np.asarray(m.wordDists(model), dtype=float), ph / ph.sum(axis=1, keepdims=True), "words-as-distributions", rtol=1e-7)
            like = float((words * np.log(th @ (ph / ph.sum(axis=1, keepdims=True)))).sum())
            ok, got = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
            if ok:
                ctx.close(float(got), like, "likelihood", rtol=1e-8, atol=1e-8)
        ctx.case(tag + ("runs",))
        ctx.ran()
        ctx.step(3)
        a, b = copy.deepcopy(start)
        a.weights[:] *= 1 + 1e-12
        b.topicDists[:, :K] *= 1 + 1e-12
        for _ in range(3):                                         # how much of a rounding error is left after three iterations, one at a time
            a, b, _ = quiet(m.train, ds, a, b, m.newTrainPlan(1))
        apart = max(np.abs(np.asarray(x) - np.asarray(y)).max() for x, y in ((a.wordDists, model.wordDists), (a.weights, model.weights), (b.topicDists, q.topicDists)))
        if apart < 1e-8:
            a, b = copy.deepcopy(start)
            ok, r = ctx.call("train-raised", quiet, m.train, ds, a, b, m.newTrainPlan(3, logFrequency=2))
            if ok:
                ctx.close(np.asarray(r[0].wordDists), np.asarray(model.wordDists), "three-at-once", rtol=1e-5, atol=1e-6)
                ctx.close(np.asarray(r[0].weights), np.asarray(model.weights), "three-at-once-weights", rtol=1e-4, atol=1e-5)
                ctx.close(np.asarray(r[1].topicDists), np.asarray(q.topicDists), "three-at-once-topics", rtol=1e-5, atol=1e-6)
        else:
            ctx.note("weights turn rounding into differences: runs of three iterations not compared")
        ctx.expect(data == snapshot(ds.words, ds.links), "training-altered-data")
    ctx.sample({"words": words if words.size < 30 else words.shape, "topics": K})


# ------------------------------------------------------------------ matrix-variate

def mtm_climb(words, means, vocab, inv, prior):
    K = means.shape[1]
    A = np.eye(K) - 1.0 / K
    n = words.sum(axis=1)
    rhs = lg.shares(words, means, vocab) + n[:, None] * (means @ A - lg.soft(means)) + prior @ inv
    return np.array([np.linalg.solve(inv + n[d] * A, rhs[d]) for d in range(len(words))]).reshape(means.shape)


def matrix_variate(ctx, cases):
    import sidetopics.model.mtm3 as m
    for words, K, sc, cv, mn, vo, outcov, dtype in cases:
        words = np.asarray(words, dtype=float)
        D, T = words.shape
        _, model, q = fresh("mtm", words, K, dtype)
        vocab = lg.words_of(K, T, vo)
        cov, mean = lg.covariance(K, cv), lg.mean_of(K, mn)
        model = model._replace(vocab=vocab.astype(dtype), topicCov=cov.astype(dtype), topicMean=mean.astype(dtype), outDocCov=outcov)
        start = lg.scores(D, K, sc)
        inn = 1.0 + distinct(D * K, 8).reshape(D, K)
        q = q._replace(outMeans=start.astype(dtype), inMeans=inn.astype(dtype))
        ds = dataset(words, dtype)
        inv = np.linalg.inv(np.asarray(model.topicCov, dtype=float)) / outcov
        prior = np.asarray(model.topicMean, dtype=float)
        V = np.asarray(model.vocab, dtype=float)
        small = dtype == np.float32
        tag = ("matrix-variate", words.tolist() if words.size < 30 else words.shape, K, sc, cv, mn, vo, outcov, np.dtype(dtype).name)
        want = np.asarray(q.outMeans, dtype=float)
        frozen = snapshot(model.vocab, model.topicCov, model.topicMean, ds.words, ds.links, q.inMeans)
        was = lg.per_document(words, want, V, inv, prior)
        for its in (1, 2, 3, 4):
            ctx.case(tag + (its,))
            ctx.state(tag[:1] + (words.tobytes(), words.shape) + tag[2:] + (its,))
            ctx.ran()
            ctx.step(its)
            want = mtm_climb(words, want, V, inv, prior)
            q1 = copy.deepcopy(q)
            ok, r = ctx.call("mtm-query-raised", quiet, m.query, ds, model, q1, m.newTrainPlan(its, logFrequency=its % 2))
            if not ok:
                return
            got = np.asarray(r[1].outMeans, dtype=float)
            scale = 1 + np.abs(want).max() + np.abs(start).max()
            if not ctx.close(got, want, "mtm-topics", rtol=2e-3 if small else 1e-7, atol=(2e-3 if small else 1e-8) * scale * (1 + np.linalg.cond(cov) * 1e-2)):
                return
            now = lg.per_document(words, got, V, inv, prior)
            if not small:
                ctx.expect(bool((now >= was - 1e-8 * (1 + np.abs(was))).all()), "mtm-query-went-down", {"before": was, "after": now})
                was = now
            ctx.expect(frozen == snapshot(r[0].vocab, r[0].topicCov, r[0].topicMean, ds.words, ds.links, r[1].inMeans), "mtm-query-altered-model")
            ctx.close(np.asarray(r[1].docLens, dtype=float), words.sum(axis=1), "mtm-document-lengths")
            ctx.expect(bool((np.asarray(r[1].outVarcs) > 0).all()), "mtm-variances", r[1].outVarcs)
    ctx.sample({"words": words if words.size < 30 else words.shape, "topics": K})


# ------------------------------------------------------------------ offsets and similarity

def arrays(obj, path=""):
    if isinstance(obj, np.ndarray):
        return [(path, obj)]
    if ssp.issparse(obj):
        return [(path, obj.data)]
    if hasattr(obj, "_fields"):
        return [x for f in obj._fields for x in arrays(getattr(obj, f), path + "." + f)]
    return []


def values(obj, path=""):
    if hasattr(obj, "_fields"):
        return [x for f in obj._fields for x in values(getattr(obj, f), path + "." + f)]
    if isinstance(obj, np.ndarray):
        return [(path, obj.shape, str(obj.dtype), obj.tobytes())]
    return [(path, repr(obj))]


def on_lda(ctx, cases):
    import sidetopics.model.lda_vb_python as lda
    for kind, words, K, its in cases:
        words = np.asarray(words, dtype=float)
        D = len(words)
        links = (distinct(D * D, 5).reshape(D, D) > 1.6).astype(float)
        links[0, D - 1] = 1
        ds = dataset(words, np.float64, links)
        ctx.case((kind, words.tolist() if words.size < 30 else words.shape, K, its))
        ctx.state((kind, words.tobytes(), words.shape, K, its))
        ctx.ran()
        ctx.step(4)
        m, model, _ = fresh(kind, words, K, np.float64)
        untouched = copy.deepcopy(model.ldaModel)
        plan = m.newTrainPlan(its, ldaIterations=its)
        data = snapshot(ds.words, ds.links)
        topics = (lambda q: q.ldaQuery) if kind == "lro" else (lambda q: q.ldaTopics)
        # topics learnt here
        if kind == "lro":
            q = quiet(m.newQueryState, ds, model)
            ref = copy.deepcopy(q.ldaQuery)
            lplan = lda.newTrainPlan(its, 1, plan.logFrequency, plan.fastButInaccurate, plan.debug)
            rm, rq, _ = quiet(lda.train, ds, copy.deepcopy(untouched), ref, lplan)
        else:
            q = quiet(m.newQueryState, ds, model)
        ok, r = ctx.call("train-raised", quiet, m.train, ds, model, q, plan)
        if not ok:
            return
        model, q, _ = r
        th = np.asarray(lda.topicDists(topics(q)), dtype=float)
        ph = np.asarray(lda.wordDists(model.ldaModel), dtype=float)
        if kind == "lro":
            ctx.close(th, np.asarray(lda.topicDists(rq), dtype=float), "topics-not-of-lda", rtol=1e-6, atol=1e-8)
            ctx.close(ph, np.asarray(lda.wordDists(rm), dtype=float), "words-not-of-lda", rtol=1e-6, atol=1e-8)
            ctx.expect(np.asarray(q.offsetTopicDists).shape == (D, K), "offsets-shape")
        else:
            ctx.close(np.asarray(q.reps, dtype=float) ** 2, th, "representation", rtol=1e-9, atol=1e-12)
        ctx.close(th.sum(axis=1), np.ones(D), "topics-not-distributions", rtol=1e-9)
        like = float((words * np.log(th @ ph)).sum())
        ok, got = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
        if ok:
            ctx.close(float(np.sum(got)), like, "likelihood", rtol=1e-7, atol=1e-7)
        # topics given: kept as they are
        given_m, given_q = copy.deepcopy((model.ldaModel, topics(q)))
        kw = {"method": m.LDA} if kind != "lro" else {}
        model2 = quiet(m.newModelAtRandom, ds, K, ldaModel=given_m, dtype=np.float64, **kw)
        q2 = quiet(m.newQueryState, ds, model2, withLdaTopics=given_q)
        keep = values(given_m) + values(given_q)
        ok, r = ctx.call("train-raised", quiet, m.train, ds, model2, q2, plan)
        if not ok:
            return
        model2, q2, _ = r
        ctx.close(np.asarray(lda.topicDists(topics(q2)), dtype=float), th, "given-topics-changed", rtol=1e-12)
        if kind != "lro":
            ctx.close(np.asarray(q2.reps, dtype=float) ** 2, th, "given-topics-not-used", rtol=1e-9, atol=1e-12)
        ctx.expect(keep == values(given_m) + values(given_q), "given-topics-changed-in-place")
        # asked: the model stays
        qw = words[::-1] + 1
        dq = dataset(qw, np.float64, links)
        keep = values(model)
        ok, r = ctx.call("query-raised", quiet, m.query, dq, model, quiet(m.newQueryState, dq, model), plan)
        if not ok:
            return
        ctx.expect(keep == values(model) == values(r[0]), "query-altered-model")
        qt = np.asarray(lda.topicDists(topics(r[1])), dtype=float)
        ctx.expect(qt.shape == (D, K), "query-topics-shape", qt.shape)
        ctx.close(qt.sum(axis=1), np.ones(len(qt)), "query-topics-not-distributions", rtol=1e-9)
        if kind != "lro":
            ctx.close(np.asarray(r[1].reps, dtype=float) ** 2, qt, "representation-of-query", rtol=1e-9, atol=1e-12)
        ctx.expect(data == snapshot(ds.words, ds.links), "training-altered-data")
    ctx.sample({"kind": kind, "topics": K})


def copies(ctx, cases):
    for kind, words, K in cases:
        words = np.asarray(words, dtype=float)
        D = len(words)
        links = np.ones((D, D)) - np.eye(D)
        ctx.case(("copy", kind, words.tolist(), K))
        ctx.state(("copy", kind, words.tobytes(), K))
        ctx.ran()
        ctx.step(2)
        m, model, q = fresh(kind, words, K, np.float64)
        ds = dataset(words, np.float64, links)
        if kind in ("mtm", "rtm"):
            model, q, _ = quiet(m.train, ds, model, quiet(m.newQueryState, ds, model), m.newTrainPlan(2))
        ok, c = ctx.call("copy-raised", quiet, m.newModelFromExisting, model)
        if not ok:
            return
        ctx.expect(values(c) == values(model), "copy-differs", [v[0] for v, w in zip(values(c), values(model)) if v != w])
        keep = values(model)
        for path, a in arrays(c):
            mine = [b for p, b in arrays(model) if p == path]
            ctx.expect(not any(np.shares_memory(a, b) for b in mine), "copy-shares", path)
        if kind != "tfidf":
            ok, _ = ctx.call("train-copy-raised", quiet, m.train, ds, c, quiet(m.newQueryState, ds, c), m.newTrainPlan(2))
            ctx.expect(keep == values(model), "training-copy-altered-model", [v[0] for v, w in zip(keep, values(model)) if v != w])
    ctx.sample({"kind": kind})


def corpora():
    out = []
    for D, T, vals in ((1, 2, (0, 1, 4)), (2, 2, (1, 3)), (2, 3, (0, 2)), (3, 2, (1, 3))):
        for v in itertools.product(vals, repeat=D * T):
            w = np.array(v).reshape(D, T)
            if (w.sum(axis=1) > 0).all():
                out.append(w)
    return out


def tasks(tier, seed):
    thorough = tier == "thorough"
    out, cases = [], []
    for i, w in enumerate(corpora()):
        D = len(w)
        pats = [p for p in patterns(D, D) if not p.diagonal().any()]
        pats = pats if thorough or D < 3 else pats[(i * 5) % 7::7]
        for p in pats:
            for K in (2, 3):
                for ww in range(5):
                    which = (i + ww + K) % 4
                    if thorough or (i + ww + K + int(p.sum())) % 4 == 0:
                        cases.append((w, p, K, which, ww, (i + ww) % 2))
    big = []
    for D, T, K, ww in ((12, 9, 4, 0), (30, 20, 6, 1), (30, 20, 3, 3), (60, 15, 12, 1)) + (((120, 40, 5, 0),) if thorough else ()):
        x = np.modf(np.arange(D * D) * 0.7548776662466927 + 0.31 * np.arange(D * D) ** 2 % 1)[0].reshape(D, D)
        p = (x < 0.15) & ~np.eye(D, dtype=bool)
        big.append((lg.ladder_words(D, T, top=6) + np.eye(D, T), p | p.T, K, ww % 4, ww, ww % 2))
        big.append((lg.ladder_words(D, T, top=6) + np.eye(D, T), p, K, (ww + 1) % 4, ww, 1 - ww % 2))
        big.append((lg.ladder_words(D, T, seed=3, top=6) + np.eye(D, T) * 0.5 + 0.5 * (np.arange(T) == 0), p, K, (ww + 2) % 4, ww, 1 - ww % 2))    # fractional counts
    out += [("relational-big-%d" % i, relational, (c,)) for i, c in enumerate(chunks(big, 4))]
    out += [("relational-%d" % i, relational, (c,)) for i, c in enumerate(chunks(cases, 8))]
    mv = []
    ws = [np.array(v).reshape(1, 2) for v in itertools.product((0, 1, 6), repeat=2)] + [np.array(v).reshape(2, 3) for v in itertools.product((0, 2), repeat=6)] + [np.array([[1, 0, 5], [0, 0, 0], [2.5, 0.5, 0]])]
    for i, w in enumerate(ws):
        for j, (K, sc, cv, mn, vo) in enumerate(itertools.product((2, 3), range(5), range(4), range(3), range(2))):
            if thorough or (i + j) % 8 == 0:
                mv.append((w, K, sc, cv, mn, vo, (10, 0.5)[(i + j) // 8 % 2], np.float64 if sc > 1 or (i + j) % 3 else np.float32))
    mv += [(lg.ladder_words(D, T), K, 1, 2, 1, 0, 10, dt) for D, T, K in ((30, 40, 5), (120, 60, 12), (1, 300, 8)) for dt in (np.float64, np.float32)]
    out += [("matrix-variate-%d" % i, matrix_variate, (c,)) for i, c in enumerate(chunks(mv, 5))]
    wl = [np.array([[3, 1, 0], [0, 2, 2]]), np.array([[1, 1], [4, 1], [1, 6]]), lg.ladder_words(12, 10) + np.eye(12, 10), lg.ladder_words(40, 25) + np.eye(40, 25) + 1]
    out += [("on-lda-%d" % i, on_lda, (c,)) for i, c in enumerate(chunks([(k, w, K, its) for k in ("lro", "sim-lda") for w in wl for K in (2, 4) for its in (1, 3, 12)], 3))]
    out += [("copies", copies, ([(k, w, K) for k in ("lro", "sim-lda", "tfidf", "mtm", "rtm") for w in (np.array([[3, 1, 0], [0, 2, 2]]), np.array([[1, 1], [4, 1], [1, 6]])) for K in (2, 3)],))]
    return out
