"""C15 variational LDA (batch): every coordinate step, the bound as a bound, queries which leave the model alone."""
import itertools
import math
import numpy as np
import scipy.sparse as ssp
from scipy.special import digamma, gammaln

from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C15"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All corpora of 1-2 documents of 1-3 words with counts from {0,1,2}, not empty, x palettes of topic posteriors (even, skewed, nearly certain) and word "
        "posteriors x scalar, symmetric and asymmetric priors x 2-3 topics: one iteration of training and of querying against the coordinate-ascent "
        "update, the bound against its definition, against its value before, and against the exact log evidence (sum over every topic assignment of "
        "all tokens); every history of training, querying, copying and pruning to depth 4 (thorough 5); ladders to 60 documents, 150 words, 25 topics; "
        "counts of type int32, int64, float32, float64.")
ASSUMPTIONS = ["every document has at least one word", "batch learning (no mini-batches) in 64-bit", "topic priors are held fixed, as they are by default"]


def mod():
    import sidetopics.model.lda_vb_python as m
    return m


def dataset(words, wdt=np.float64):
    from sidetopics.model.common import DataSet
    return DataSet(ssp.csr_matrix(np.asarray(words).astype(wdt)))


def assign(row, gamma, lam):
    """Posterior of the topics of each word of a document: K x T."""
    s = digamma(lam) - digamma(lam.sum(axis=1))[:, None] + digamma(gamma)[:, None]
    s = s - s.max(axis=0)
    z = np.exp(s)
    return z / z.sum(axis=0)


def step(words, gamma, lam, alpha, eta, update=True):
    gamma, new = gamma.copy(), np.zeros_like(lam) + eta
    for d, row in enumerate(words):
        z = assign(row, gamma[d], lam)
        gamma[d] = alpha + (z * row).sum(axis=1)
        new += z * row
    return gamma, (new if update else lam)


def dir_terms(prior, post):
    """-KL(Dirichlet(post) || Dirichlet(prior)) of one row."""
    e = digamma(post) - digamma(post.sum())
    return gammaln(prior.sum()) - gammaln(prior).sum() - gammaln(post.sum()) + gammaln(post).sum() + ((prior - post) * e).sum()


def elbo(words, gamma, lam, alpha, eta):
    eta = np.zeros(lam.shape[1]) + eta
    r = sum(dir_terms(alpha, g) for g in gamma) + sum(dir_terms(eta, l) for l in lam)
    el = digamma(lam) - digamma(lam.sum(axis=1))[:, None]
    for d, row in enumerate(words):
        z = assign(row, gamma[d], lam)
        et = digamma(gamma[d]) - digamma(gamma[d].sum())
        with np.errstate(divide="ignore", invalid="ignore"):
            t = np.where(z > 0, z * (et[:, None] + el - np.log(z)), 0.0)
        r += (t * row).sum()
    return float(r)


def evidence(words, alpha, eta):
    """The exact log probability of the words: every assignment of a topic to every token."""
    D, T = words.shape
    K = len(alpha)
    eta = np.zeros(T) + eta
    tokens = [(d, t) for d in range(D) for t in range(T) for _ in range(int(words[d, t]))]
    out = []
    for zs in itertools.product(range(K), repeat=len(tokens)):
        n, m = np.zeros((D, K)), np.zeros((K, T))
        for (d, t), k in zip(tokens, zs):
            n[d, k] += 1
            m[k, t] += 1
        v = D * (gammaln(alpha.sum()) - gammaln(alpha).sum()) + (gammaln(alpha + n).sum() - gammaln((alpha + n).sum(axis=1)).sum())
        v += K * (gammaln(eta.sum()) - gammaln(eta).sum()) + (gammaln(eta + m).sum() - gammaln((eta + m).sum(axis=1)).sum())
        out.append(v)
    out = np.array(out)
    return float(out.max() + np.log(np.exp(out - out.max()).sum()))


def put(m, ds, words, K, alpha, eta, gamma, lam):
    """States with the given posteriors."""
    np.random.seed(7)
    long = dataset(np.full((1, words.shape[1]), 2000))      # drawing a model from short documents takes long
    model = m.newModelAtRandom(long, K, alpha if np.isscalar(alpha) else np.array(alpha, dtype=float), eta)
    model = model._replace(wordDists=np.array(lam, dtype=float))
    q = m.newQueryState(ds, model)
    return model, q._replace(topicDists=np.array(gamma, dtype=float))


def posteriors(words, K, alpha, eta, which):
    D, T = words.shape
    i, j = np.arange(K)[:, None], np.arange(T)[None, :]
    lam = {0: np.ones((K, T)) + 0.0 * i, 1: 0.1 + distinct(K * T, 3).reshape(K, T), 2: np.where((i + j) % K == 0, 50.0, 0.02),
           3: np.where(i == 0, 1e-3, 5.0) * distinct(K * T, 11).reshape(K, T),
           4: np.where(j == 0, 2e-4, 5.0) * distinct(K * T, 7).reshape(K, T)}[which % 5]      # a word no topic has seen
    f = {0: np.full((D, K), 1.0 / K), 1: distinct(D * K, 17).reshape(D, K), 2: np.where((np.arange(D)[:, None] + np.arange(K)) % K == 0, 1.0, 1e-6),
         3: np.eye(K)[np.arange(D) % K]}[which // 5]
    f = f / f.sum(axis=1, keepdims=True)
    return alpha + f * words.sum(axis=1, keepdims=True), lam


PRIORS = {2: ((0.5, 0.1), ([0.3, 2.0], 1.1), (5.0, [0.2, 1.0, 3.0]), (0.02, 0.01)), 3: ((0.5, 0.1), ([0.1, 1.0, 3.0], [0.5, 0.01, 2.0]), (1.0, 1.0))}


def prior(K, T, p):
    a, b = p
    av = np.zeros(K) + np.asarray(a, dtype=float)
    bv = b if np.isscalar(b) else np.asarray(b, dtype=float)[:T]
    return (a if np.isscalar(a) else av), av, bv


def steps(ctx, mats, wdts, most):
    m = mod()
    for words in mats:
        D, T = words.shape
        for K, wdt in itertools.product((2, 3), wdts):
            ds = dataset(words, wdt)
            for p in PRIORS[K]:
                a, av, b = prior(K, T, p)
                ev = evidence(words, av, b) if wdt is wdts[0] and K ** int(words.sum()) <= most else None
                for which in range(20) if wdt is wdts[0] else (6, 19):
                    ctx.case((words.tolist(), K, p, which, np.dtype(wdt).name))
                    ctx.state((words.tobytes(), words.shape, K, str(p), which, np.dtype(wdt).name))
                    ctx.ran()
                    ctx.step(4)
                    gamma, lam = posteriors(words, K, av, b, which)
                    one(ctx, m, ds, words, K, a, av, b, gamma, lam, ev)
    ctx.sample({"words": words, "topics": K, "prior": p})


def one(ctx, m, ds, words, K, a, av, b, gamma, lam, ev=None, tol=1e-8, iterations=1):
    ok, r = ctx.call("state-raised", put, m, ds, words, K, a, b, gamma, lam)
    if not ok:
        return
    model, q = r
    frozen = [snapshot(ds.words), snapshot(*[x for x in tuple(model) + tuple(q)])]
    ok, L = ctx.call("bound-raised", m.var_bound, ds, model, q)
    if ok:
        ctx.close(float(L), elbo(words, gamma, lam, av, b), "bound-is-not-its-definition", rtol=tol, atol=tol * (1 + words.sum()))
        if ev is not None:
            ctx.expect(float(L) <= ev + 1e-7 * (1 + abs(ev)), "bound-above-the-evidence", [float(L), ev])
    ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
    th, ph = gamma / gamma.sum(axis=1, keepdims=True), lam / lam.sum(axis=1, keepdims=True)
    if ok:
        want = float((words * np.log(th @ ph)).sum())
        ctx.close(float(ll), want, "likelihood", rtol=tol, atol=tol)
        ov = np.roll(th, 1, axis=1)
        ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q, ov)
        if ok:
            ctx.close(float(ll), float((words * np.log(ov @ ph)).sum()), "likelihood-with-other-topics", rtol=tol, atol=tol)
    ok, t = ctx.call("topics-raised", m.topicDists, q)
    ok2, w = ctx.call("words-raised", m.wordDists, model)
    if ok and ok2:
        ctx.close(t, th, "topic-distributions", rtol=1e-10)
        ctx.close(w, ph, "word-distributions", rtol=1e-10)
        for x in (t, w):
            x *= 0.0      # what is given out is the caller's
    ctx.expect(frozen == [snapshot(ds.words), snapshot(*[x for x in tuple(model) + tuple(q)])], "measuring-altered-state")
    # querying: only the topics move
    plan = m.newTrainPlan(iterations=iterations)
    model2, q2 = put(m, ds, words, K, a, b, gamma, lam)
    fixed = snapshot(*model2)
    ok, r = ctx.call("query-raised", m.query, ds, model2, q2, plan)
    if ok:
        g = gamma
        for _ in range(iterations):
            g, _l = step(words, g, lam, av, b, False)
        ctx.close(r[1].topicDists, g, "query-step", rtol=tol)
        ctx.expect(fixed == snapshot(*model2) and fixed == snapshot(*r[0]), "query-altered-model")
        L2 = elbo(words, np.asarray(r[1].topicDists), lam, av, b)
        ctx.expect(L2 >= float(L) - 1e-8 * (1 + abs(float(L))), "query-lowered-bound", [float(L), L2])
    # training
    ok, r = ctx.call("train-raised", m.train, ds, model, q, plan)
    if ok:
        g, l = gamma, lam
        for _ in range(iterations):
            g, l = step(words, g, l, av, b)
        ctx.close(r[1].topicDists, g, "topic-step", rtol=tol)
        ctx.close(r[0].wordDists, l, "word-step", rtol=tol)
        ctx.close(float(np.sum(r[0].wordDists)), float(words.sum() + K * (np.zeros(words.shape[1]) + b).sum()), "tokens-lost", rtol=tol)
        ctx.close(np.sum(r[1].topicDists, axis=1), words.sum(axis=1) + av.sum(), "tokens-lost-in-document", rtol=tol)
        ok, L3 = ctx.call("bound-raised", m.var_bound, ds, r[0], r[1])
        if ok:
            ctx.close(float(L3), elbo(words, g, l, av, b), "bound-is-not-its-definition", rtol=tol, atol=tol * (1 + words.sum()))
            ctx.expect(float(L3) >= float(L) - 1e-8 * (1 + abs(float(L))), "training-lowered-bound", [float(L), float(L3)])
            if ev is not None:
                ctx.expect(float(L3) <= ev + 1e-7 * (1 + abs(ev)), "bound-above-the-evidence", [float(L3), ev])


def fresh(ctx, cases):
    """Initial states made by the module itself."""
    m = mod()
    for words, K, p, wdt in cases:
        D, T = words.shape
        ctx.case(("fresh", words.shape, words.tolist() if words.size < 12 else None, K, p, np.dtype(wdt).name))
        ctx.state(("fresh", words.tobytes(), words.shape, K, str(p), np.dtype(wdt).name))
        ctx.ran()
        ctx.step()
        ds = dataset(words, wdt)
        np.random.seed(11)
        a, b = p
        ok, model = ctx.call("model-raised", m.newModelAtRandom, ds, K, a if a is None or np.isscalar(a) else np.array(a), b if b is None or np.isscalar(b) else np.array(b))
        if not ok:
            continue
        tp = np.asarray(model.topicPrior, dtype=float)
        ctx.expect(tp.shape == (K,) and bool((tp > 0).all()), "topic-prior", tp)
        if a is not None:
            ctx.close(tp, np.zeros(K) + np.asarray(a, dtype=float), "topic-prior-value", rtol=1e-12)
        w = np.asarray(model.wordDists)
        ctx.expect(w.shape == (K, T) and bool((w > 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < 1e-9)), "initial-words", w)
        ok, q = ctx.call("query-state-raised", m.newQueryState, ds, model)
        if not ok:
            continue
        ctx.close(np.asarray(q.docLens, dtype=float), words.sum(axis=1), "document-lengths")
        g = np.asarray(q.topicDists)
        ctx.expect(g.shape == (D, K) and bool(np.all(g >= tp * (1 - 1e-12))), "initial-topics", g)
        ctx.close(g.sum(axis=1), words.sum(axis=1) + tp.sum(), "initial-topics-sum", rtol=1e-9)
        # a copy is equal and independent
        ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
        if ok:
            ctx.expect(snapshot(*cp) == snapshot(*model), "copy-differs")
            ctx.expect(not np.shares_memory(cp.wordDists, model.wordDists) and not np.shares_memory(cp.topicPrior, model.topicPrior), "copy-shares")
        # parts
        for idx in ([0], list(range(D))[::-1], list(range(0, D, 2)), [D - 1]):
            ok, part = ctx.call("prune-raised", m.pruneQueryState, q, np.array(idx))
            if ok:
                ctx.close(part.topicDists, g[idx], "part-topics")
                ctx.close(part.docLens, words.sum(axis=1)[idx], "part-lengths")
        lam, bv, gam = w.copy(), model.vocabPrior if b is None else b, g.copy()
        one(ctx, m, ds, words, K, a if a is not None else tp, tp, np.asarray(bv, dtype=float) if not np.isscalar(bv) else bv, gam, lam, None, tol=1e-7, iterations=3)


def histories(ctx, depth):
    """All histories: T train on the corpus, t train in one go as long as the two before, Q query others, C carry on with a copy, P query a part."""
    m = mod()
    corpora = [np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3]]), np.array([[0, 0, 1, 1], [3, 1, 0, 0]]), np.array([[1, 1, 1, 1]])]
    words = corpora[0]
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQCP", repeat=n):
                if "C" in ops[-1:]:
                    continue
                ctx.case(("history", K, "".join(ops)))
                ctx.state(("history", K, ops))
                ctx.ran()
                gamma, lam = posteriors(words, K, av, b, 6)
                ds = dataset(words)
                model, q = put(m, ds, words, K, av, b, gamma, lam)
                for i, op in enumerate(ops):
                    ctx.step()
                    if op in "Tt":
                        its = 1 if op == "T" else 2
                        ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=its))
                        if not ok:
                            break
                        model, q = r[0], r[1]
                        for _ in range(its):
                            gamma, lam = step(words, gamma, lam, av, b)
                    elif op == "C":
                        old = model
                        model = m.newModelFromExisting(model)
                        old.wordDists[...] = 77.0
                        old.topicPrior[...] = 77.0
                    else:
                        other = corpora[1 + i % 2] if op == "Q" else words[[2, 0]]
                        ds2 = dataset(other, np.int32)
                        _, q2 = put(m, ds2, other, K, av, b, posteriors(other, K, av, b, 1)[0], lam)
                        g0 = np.array(q2.topicDists)
                        if op == "P":
                            q2 = m.pruneQueryState(q, np.array([2, 0]))
                            g0 = gamma[[2, 0]]
                        ok, r = ctx.call("query-raised", m.query, ds2, model, q2, m.newTrainPlan(iterations=3))
                        if not ok:
                            break
                        for _ in range(3):
                            g0, _l = step(other, g0, lam, av, b, False)
                        ctx.close(r[1].topicDists, g0, "history-query", rtol=1e-8)
                        ctx.expect(snapshot(*r[0]) == snapshot(*model), "history-query-returned-other-model")
                    ctx.close(model.wordDists, lam, "history-words", rtol=1e-8)
                    ctx.close(q.topicDists, gamma, "history-topics", rtol=1e-8)
                    ctx.close(model.topicPrior, av, "history-prior")
                    for x in model:
                        for y in q:
                            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y):
                                ctx.fail("model-shares-query-state", {"shape": x.shape})
    ctx.sample({"depth": depth})


def independence(ctx):
    """What is inferred for a document does not depend on the documents it is queried with, nor on their order."""
    m = mod()
    base = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 5, 1]])
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        gamma, lam = posteriors(base, K, av, b, 6)
        alone = {}
        for n in range(1, 5):
            for idx in itertools.permutations(range(4), n):
                ctx.case(("independence", K, idx))
                ctx.state(("independence", K, idx))
                ctx.ran()
                ctx.step()
                idx = list(idx)
                ds = dataset(base[idx])
                model, q = put(m, ds, base[idx], K, av, b, gamma[idx], lam)
                ok, r = ctx.call("query-raised", m.query, ds, model, q, m.newTrainPlan(iterations=20))
                if not ok:
                    continue
                for i, d in enumerate(idx):
                    if n == 1:
                        alone[d] = np.array(r[1].topicDists[0])
                    else:
                        ctx.close(r[1].topicDists[i], alone[d], "depends-on-other-documents", rtol=1e-10)
        # training does not depend on the order of documents, nor on that of words
        ds = dataset(base)
        model, q = put(m, ds, base, K, av, b, gamma, lam)
        ref = m.train(ds, model, q, m.newTrainPlan(iterations=5))
        for pd in itertools.permutations(range(4)):
            for pw in itertools.permutations(range(4)):
                ctx.case(("order", K, pd, pw))
                ctx.state(("order", K, pd, pw))
                ctx.ran()
                ctx.step()
                w = base[list(pd)][:, list(pw)]
                ds = dataset(w)
                model, q = put(m, ds, w, K, av, b, gamma[list(pd)], lam[:, list(pw)])
                ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=5))
                if ok:
                    ctx.close(r[0].wordDists, np.asarray(ref[0].wordDists)[:, list(pw)], "order-matters-words", rtol=1e-8)
                    ctx.close(r[1].topicDists, np.asarray(ref[1].topicDists)[list(pd)], "order-matters-topics", rtol=1e-8)


def rejects(ctx):
    m = mod()
    words = np.array([[1, 1], [2, 0], [0, 3]])
    for r in range(3):
        w = words.copy()
        w[r] = 0
        ctx.case(("empty", r))
        ctx.step()
        ctx.ran()
        ds = dataset(w)
        np.random.seed(1)
        model = m.newModelAtRandom(ds, 2, 0.5, 0.1)
        q = m.newQueryState(ds, model)
        ctx.raises("empty-document-accepted", ValueError, m.train, ds, model, q, m.newTrainPlan(iterations=1))
        ctx.raises("empty-document-queried", ValueError, m.query, ds, model, m.newQueryState(ds, model), m.newTrainPlan(iterations=1))


def tasks(tier, seed):
    deep = tier == "thorough"
    mats = [w for w in count_matrices(1, 3, (0, 1, 2)) if w.sum() > 0] + [w for w in count_matrices(2, 2, (0, 1, 2)) if (w.sum(axis=1) > 0).all()]
    mats += [np.array([[3]]), np.array([[1], [4], [2]])]
    if deep:
        mats += [w for w in count_matrices(2, 3, (0, 1, 2)) if (w.sum(axis=1) > 0).all()]
    wdts = (np.float64, np.int32, np.float32, np.int64)
    out = [("steps-%d" % i, steps, (c, wdts, 800 if deep else 130)) for i, c in enumerate(chunks(mats, 12))]
    shapes = [(1, 1, 2), (1, 9, 3), (4, 3, 2), (9, 17, 5), (40, 60, 12)] + ([(60, 150, 25), (100, 40, 7)] if deep else [(60, 150, 25)])
    cases = []
    for D, T, K in shapes:
        i, j = np.arange(D)[:, None], np.arange(T)[None, :]
        words = ((i * 31 + j * 17 + i * j * 7) % 5 == 0) * (1 + (i + j) % 4)
        words[:, 0] += 1
        for wdt in wdts:
            for p in ((None, None), (0.5, 0.1), (1, 1), (np.float64(0.3), np.float32(0.25)), (distinct(K).tolist(), 0.2), (0.7, distinct(T, 5).tolist()), (0.05, 0.01)):
                cases.append((words, K, p, wdt))
    out += [("fresh-%d" % i, fresh, (c,)) for i, c in enumerate(chunks(cases, 6))]
    return [("histories", histories, (5 if deep else 4,))] + out + [("independence", independence, ()), ("rejects", rejects, ())]
