"""C25 Variational LDA by mini-batches: every batch a step of the stated size towards what its documents say of the whole corpus."""
import itertools
import numpy as np

from ..space import count_matrices, distinct, snapshot
from .c15 import assign, dataset, elbo, mod, posteriors, prior, put, step, PRIORS

PROPERTY = "C25"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All corpora of 1-3 documents of 1-3 words with counts from {0,1,3}, not empty, x 2-3 topics x priors x palettes of posteriors x batches of one document to one more than there are x "
        "delays from 0.3 to 64 x forgetting rates from 0.5 to 1: every batch against its definition; runs in stages and interleaved with queries and copies, to depth 4 (thorough 5); fixed points of "
        "full batches; all orders of querying; the estimator; ladders to 60 documents, 150 words, 25 topics.")
ASSUMPTIONS = ["every document has at least one word", "the schedule is the one plans have when given a batch size"]

RATES = ((0.6, 0.6), (0.3, 0.9), (1.0, 0.5), (2.5, 0.7), (64.0, 1.0))


def batches(words, gamma, lam, alpha, eta, S, iterations, delay, kappa, each=None):
    """Documents are taken in turn, S at a time, in one batch more than fit into the corpus per iteration."""
    gamma, lam = gamma.copy(), lam.copy()
    D, d = len(words), 0
    for b in range(iterations * (D // S + 1)):
        counts = np.zeros_like(lam)
        for _ in range(S):
            z = assign(words[d], gamma[d], lam)
            gamma[d] = alpha + (z * words[d]).sum(axis=1)
            counts += z * words[d]
            d = (d + 1) % D
        rho = min(1.0, (b + delay) ** -kappa)
        lam = (1 - rho) * lam + rho * (eta + counts * D / S)
        if each:
            each(b, gamma, lam)
    return gamma, lam


def train(ctx, m, ds, model, q, S, iterations, delay, kappa, **k):
    plan = m.newTrainPlan(iterations=iterations, batchSize=S, rate_delay=delay, forgetting_rate=kappa, **k)
    return ctx.call("train-raised", m.train, ds, model, q, plan)


def check(ctx, m, words, wdt, K, p, which, S, delay, kappa, iterations, tol=1e-8):
    a, av, b = prior(K, words.shape[1], p)
    ds = dataset(words, wdt)
    gamma, lam = posteriors(words, K, av, b, which)
    was = snapshot(ds.words)
    model, q = put(m, ds, words, K, a, b, gamma, lam)
    ok, r = train(ctx, m, ds, model, q, S, iterations, delay, kappa)
    if not ok:
        return
    g, l = batches(words, gamma, lam, av, b, S, iterations, delay, kappa)
    ctx.close(r[0].wordDists, l, "words-after-batches", rtol=tol)
    ctx.close(r[1].topicDists, g, "topics-after-batches", rtol=tol)
    ctx.expect(bool((np.asarray(r[0].wordDists) > 0).all()), "not-a-distribution", r[0].wordDists)
    ctx.close(m.wordDists(r[0]), l / l.sum(axis=1, keepdims=True), "word-distributions", rtol=tol)
    ctx.close(np.asarray(r[1].topicDists).sum(axis=1), words.sum(axis=1) + av.sum(), "tokens-lost-in-document", rtol=tol)
    ctx.close(r[0].topicPrior, av, "prior-changed", rtol=1e-12)
    ctx.expect(was == snapshot(ds.words), "data-altered")
    if S == len(words) and iterations == 1 and delay <= 1:
        # the first batch, of all documents, is what full batches start with
        first = []
        batches(words, gamma, lam, av, b, S, 1, delay, kappa, lambda i, g_, l_: first.append((g_.copy(), l_.copy())))
        model, q = put(m, ds, words, K, a, b, gamma, lam)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=1))
        if ok:
            ctx.close(r[0].wordDists, first[0][1], "first-batch-of-all", rtol=tol)
            ctx.close(r[1].topicDists, first[0][0], "first-batch-of-all", rtol=tol)


def steps(ctx, mats, deep):
    m = mod()
    for words in mats:
        D = len(words)
        for K in (2, 3):
            for p in PRIORS[K] if deep else PRIORS[K][::2]:
                for which in ((5, 6, 8, 12, 19) if deep else (6, 12, 19)):
                    for S in range(1, D + 2):
                        for delay, kappa in RATES if S <= D else RATES[:1]:
                            for its in ((1 if which == 6 else 2),) if not deep else (1, 2, 3):
                                ctx.case((words.tolist(), K, p, which, S, delay, kappa, its))
                                ctx.state((words.tobytes(), words.shape, K, str(p), which, S, delay, kappa, its))
                                ctx.ran()
                                ctx.step(its * (D // S + 1))
                                check(ctx, m, words, np.float64, K, p, which, S, delay, kappa, its)
    ctx.sample({"words": words})


def histories(ctx, depth):
    """T, U: train with batches of one and two; B: a full batch; Q: query others, with a plan of batches; C: carry on with a copy."""
    m = mod()
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3]])
    other = np.array([[0, 0, 1, 1], [3, 1, 0, 0]])
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        for delay, kappa in RATES[:3]:
            for n in range(1, depth + 1):
                for ops in itertools.product("TUBQC", repeat=n):
                    if ops[-1] == "C":
                        continue
                    ctx.case(("history", K, delay, kappa, "".join(ops)))
                    ctx.state(("history", K, delay, kappa, ops))
                    ctx.ran()
                    gamma, lam = posteriors(words, K, av, b, 6)
                    ds = dataset(words)
                    model, q = put(m, ds, words, K, av, b, gamma, lam)
                    for op in ops:
                        ctx.step()
                        if op in "TU":
                            S = 1 if op == "T" else 2
                            ok, r = train(ctx, m, ds, model, q, S, 1, delay, kappa)
                            if not ok:
                                break
                            model, q = r[0], r[1]
                            gamma, lam = batches(words, gamma, lam, av, b, S, 1, delay, kappa)
                        elif op == "B":
                            ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=1))
                            if not ok:
                                break
                            model, q = r[0], r[1]
                            gamma, lam = step(words, gamma, lam, av, b)
                        elif op == "C":
                            old = model
                            model = m.newModelFromExisting(model)
                            old.wordDists[...] = 77.0
                        else:
                            query(ctx, m, other, K, av, b, model, lam, 1, delay, kappa)
                        ctx.close(model.wordDists, lam, "history-words", rtol=1e-8)
                        ctx.close(q.topicDists, gamma, "history-topics", rtol=1e-8)


def query(ctx, m, words, K, av, b, model, lam, S, delay, kappa, iterations=2, which=1):
    """As many passes over the documents as asked for, whatever the batches."""
    ds = dataset(words)
    g0 = posteriors(words, K, av, b, which)[0]
    _, q = put(m, ds, words, K, av, b, g0, lam)
    was = snapshot(*model)
    ok, r = ctx.call("query-raised", m.query, ds, model, q, m.newTrainPlan(iterations=iterations, batchSize=S, rate_delay=delay, forgetting_rate=kappa))
    if not ok:
        return
    g = g0
    for _ in range(iterations):
        g, _l = step(words, g, lam, av, b, False)
    ctx.close(r[1].topicDists, g, "query", rtol=1e-8)
    ctx.expect(was == snapshot(*model) and was == snapshot(*r[0]), "query-altered-model")


def queries(ctx):
    m = mod()
    base = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 5, 1]])
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        for n in range(1, 5):
            for idx in itertools.permutations(range(4), n):
                for S in range(1, 6):
                    for its in (1, 2, 5):
                        ctx.case(("query", K, idx, S, its))
                        ctx.state(("query", K, idx, S, its))
                        ctx.ran()
                        ctx.step()
                        lam = posteriors(base, K, av, b, 6)[1]
                        model, _ = put(m, dataset(base), base, K, av, b, posteriors(base, K, av, b, 6)[0], lam)
                        query(ctx, m, base[list(idx)], K, av, b, model, lam, S, 0.6, 0.6, its)


def fixed_points(ctx):
    """Where full batches leave a corpus of like documents as it is, so do batches of any size."""
    m = mod()
    for row, K in itertools.product(([3, 1, 0, 2], [1, 1, 1], [5, 0, 2]), (2, 3)):
        for D in (1, 2, 3, 7):
            words = np.array([row] * D)
            av, b = np.linspace(0.4, 1.2, K), 0.3
            gamma, lam = posteriors(words[:1], K, av, b, 6)
            gamma = np.repeat(gamma, D, axis=0)
            for _ in range(20000):
                g, l = step(words, gamma, lam, av, b)
                moved = max(np.abs(g - gamma).max(), np.abs(l / lam - 1).max())
                gamma, lam = g, l
                if moved < 1e-13:
                    break
            for S in range(1, D + 2):
                for delay, kappa in RATES:
                    ctx.case(("fixed point", row, K, D, S, delay, kappa))
                    ctx.state(("fixed point", str(row), K, D, S, delay, kappa))
                    ctx.ran()
                    ctx.step()
                    ds = dataset(words)
                    model, q = put(m, ds, words, K, av, b, gamma, lam)
                    ok, r = train(ctx, m, ds, model, q, S, 3, delay, kappa)
                    if ok:
                        ctx.close(r[0].wordDists, lam, "left-fixed-point", rtol=1e-6)
                        ctx.close(r[1].topicDists, gamma, "left-fixed-point", rtol=1e-6)


def estimator(ctx):
    """The same through the estimator."""
    from sidetopics.model.common import DataSet
    import scipy.sparse as ssp
    from sidetopics.model.sklearn.lda_cvb import TopicModel, TopicModelType
    i, j = np.arange(7)[:, None], np.arange(9)[None, :]
    w = ((i * 5 + j * 3 + i * j) % 4) * 60 + (i + j) % 3 + 1
    m = mod()
    for S, (delay, kappa), n in itertools.product((1, 3, 7), RATES[:3], (1, 4)):
        ctx.case(("estimator", S, delay, kappa, n))
        ctx.state(("estimator", S, delay, kappa, n))
        ctx.ran()
        X = DataSet(ssp.csr_matrix(w.astype(float)))
        est = TopicModel(n_components=3, kind=TopicModelType.LDA_VB_PYTHON_IMPL, iterations=n, query_iterations=5, batchSize=S, rate_delay=delay, forgetting_rate=kappa, seed=5, doc_topic_prior=0.6, topic_word_prior=0.2)
        ok, _ = ctx.call("fit-raised", est.fit, X, persist_query_state=True)
        if not ok:
            continue
        c = np.asarray(est.components_, dtype=float)
        ctx.expect(c.shape == (3, 9) and bool((c > 0).all()), "not-a-distribution", c)
        before = c.copy()
        ok, y = ctx.call("transform-raised", est.transform, DataSet(X.words.copy()), iterations=4)
        if ok:
            ctx.close(np.asarray(y).sum(axis=1), np.ones(7), "assignments", rtol=1e-8)
        ctx.close(est.components_, before, "transform-altered-model", rtol=1e-14)
        est.fit(X, persist_query_state=True)
        for _ in range(3):      # in stages
            ctx.step()
            ok, _ = ctx.call("fit-raised", est.fit, X, resume=True, persist_query_state=True)
            c = np.asarray(est.components_, dtype=float)
            ctx.expect(bool(np.isfinite(c).all()) and bool((c > 0).all()), "not-a-distribution", c)


def big(ctx, D, T, K):
    m = mod()
    words = (distinct(D * T, 5).reshape(D, T) * 6).astype(int) * ((np.arange(D)[:, None] + np.arange(T)) % 3 > 0) + np.eye(D, T, dtype=int)
    for p in ((0.3, 0.1),):
        for S in (1, 7, D // 2, D - 1, D):
            for delay, kappa in RATES[::2]:
                ctx.case(("big", D, T, K, S, delay, kappa))
                ctx.state(("big", D, T, K, S, delay, kappa))
                ctx.ran()
                ctx.step()
                for wdt in (np.float64, np.int32):
                    check(ctx, m, words, wdt, K, p, 6, S, delay, kappa, 1, tol=1e-7)


def tasks(tier, seed):
    deep = tier == "thorough"
    small = [c for D, T in ((1, 2), (2, 2), (1, 3)) for c in count_matrices(D, T, (0, 1, 3)) if c.sum(axis=1).all()]
    more = [c for c in count_matrices(3, 2, (0, 1, 3)) if c.sum(axis=1).all()]
    small += more if deep else more[::9]
    n = 24
    out = [("batches-%d" % i, steps, (small[i::n], deep)) for i in range(n)]
    out += [("histories", histories, (5 if deep else 3,)), ("queries", queries, ()), ("fixed-points", fixed_points, ()), ("estimator", estimator, ())]
    for D, T, K in ((20, 30, 5), (60, 150, 25)) if not deep else ((20, 30, 5), (60, 150, 25), (200, 400, 40)):
        out.append(("big-%d" % D, big, (D, T, K)))
    return out
