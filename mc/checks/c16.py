"""C16 mixtures of multinomials: the variational learner step by step, and every trajectory of the sampler."""
import itertools
import numpy as np
import scipy.sparse as ssp
from scipy.special import digamma, gammaln, logsumexp

from ..ends import watch
from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C16"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("Variational learner: all corpora of 1-3 documents of 1-3 words with counts from {0,1,2}, not empty, x palettes of word and cluster posteriors x "
        "scalar, symmetric and asymmetric priors x 2-3 clusters: one and three iterations of training and querying against the coordinate-ascent update, the "
        "bound against its definition, its value before and the exact log evidence (sum over every assignment of documents to clusters). Sampler: a scripted "
        "source of randomness drives every trajectory of cluster choices for 1-3 documents, 2-3 clusters and 1-3 sweeps (at most 4096 per configuration) and "
        "every probability vector the code asks to sample from is compared with the collapsed conditional; all burn-in and thinning plans to 7 iterations. "
        "All histories of training, querying and copying to depth 4 (thorough 5); ladders to 60 documents, 150 words, 25 clusters.")
ASSUMPTIONS = ["every document has at least one word", "64-bit models", "hyper-parameters are held fixed",
               "the sampler draws by numpy.random.multinomial and numpy.random.dirichlet; a trajectory that uses neither is not judged"]


def em():
    import sidetopics.model.mom_em as m
    return m


def gibbs():
    import sidetopics.model.mom_gibbs as m
    return m


def dataset(words, wdt=np.float64):
    from sidetopics.model.common import DataSet
    return DataSet(ssp.csr_matrix(np.asarray(words).astype(wdt)))


def expected_ln(p):
    p = np.asarray(p, dtype=float)
    return digamma(p) - digamma(p.sum(axis=-1, keepdims=True))


def soft(s):
    s = s - s.max(axis=1, keepdims=True)
    s = np.exp(s)
    return s / s.sum(axis=1, keepdims=True)


def responsibilities(words, corpus, lam):
    return soft(words @ expected_ln(lam).T + expected_ln(corpus))


def run_train(words, resp, corpus, lam, alpha, eta, n):
    """(responsibilities, cluster Dirichlet, word Dirichlets), and whether the stopping rule was too close to call."""
    close = False
    for _ in range(n):
        new = responsibilities(words, corpus, lam)
        change, limit = np.abs(new - resp).sum(), 0.001 * new.size
        resp = new
        close = close or abs(change - limit) < 1e-6 * limit
        if change < limit:
            break
        corpus = alpha + resp.sum(axis=0)
        lam = eta + resp.T @ words
    return resp, corpus, lam, close


def ln_b(a):
    a = np.asarray(a, dtype=float)
    return gammaln(a).sum(axis=-1) - gammaln(a.sum(axis=-1))


def neg_kl(prior, post):
    prior = np.zeros_like(post) + prior
    return float((ln_b(post) - ln_b(prior) + ((prior - post) * expected_ln(post)).sum(axis=-1)).sum())


def elbo(words, resp, corpus, lam, alpha, eta):
    with np.errstate(divide="ignore", invalid="ignore"):
        ent = -np.where(resp > 0, resp * np.log(resp), 0).sum()
    return neg_kl(alpha, corpus) + neg_kl(np.zeros(lam.shape[1]) + eta, lam) + (resp * (expected_ln(corpus) + words @ expected_ln(lam).T)).sum() + ent


def evidence(words, alpha, eta):
    D, T = words.shape
    K = len(alpha)
    eta = np.zeros(T) + eta
    out = []
    for zs in itertools.product(range(K), repeat=D):
        z = np.eye(K)[list(zs)]
        out.append(ln_b(alpha + z.sum(axis=0)) - ln_b(alpha) + sum(ln_b(eta + z[:, k] @ words) - ln_b(eta) for k in range(K)))
    return float(logsumexp(out))


def lam_of(K, T, which):
    i, j = np.arange(K)[:, None], np.arange(T)[None, :]
    return (np.ones((K, T)), 0.1 + distinct(K * T, 3).reshape(K, T), np.where((i + j) % K == 0, 50.0, 0.02),
            np.where(i == 0, 1e-3, 5.0) * distinct(K * T, 11).reshape(K, T), 40 * distinct(K * T, 7).reshape(K, T))[which]


def put(m, ds, T, K, a, b, lam, corpus=None, resp=None):
    np.random.seed(7)
    long = dataset(np.full((1, T), 2000))
    model = m.newModelAtRandom(long, K, a if np.isscalar(a) else np.array(a, dtype=float), b if np.isscalar(b) else np.array(b, dtype=float))
    if m is em():
        model = model._replace(wordDistParam=np.array(lam, dtype=float), corpusTopicDistParam=np.array(corpus, dtype=float))
    else:
        model = model._replace(wordDists=np.array(lam, dtype=float))
    q = m.newQueryState(ds, model)
    if resp is not None:
        q = q._replace(topicDists=np.array(resp, dtype=float))
    return model, q


PRIORS = {2: ((0.5, 0.1), ([0.3, 2.0], 1.1), (5, [0.2, 1.0, 3.0]), (0.02, 0.01)), 3: ((0.5, 0.1), ([0.1, 1.0, 3.0], [0.5, 0.01, 2.0]), (1.0, 1))}


def prior(K, T, p):
    a, b = p
    av = np.zeros(K) + np.asarray(a, dtype=float)
    bv = b if np.isscalar(b) else np.asarray(b, dtype=float)[:T]
    return a if np.isscalar(a) else av, av, bv


def steps(ctx, mats, wdts, most):
    m = em()
    for words in mats:
        D, T = words.shape
        for K, wdt in itertools.product((2, 3), wdts):
            ds = dataset(words, wdt)
            for p in PRIORS[K]:
                a, av, b = prior(K, T, p)
                ev = evidence(words, av, b) if K ** D <= most else None
                for lw, cw in itertools.product(range(5), range(3)) if wdt is wdts[0] else ((1, 1), (4, 2)):
                    ctx.case((words.tolist(), K, p, lw, cw, np.dtype(wdt).name))
                    ctx.state((words.tobytes(), words.shape, K, str(p), lw, cw, np.dtype(wdt).name))
                    ctx.ran()
                    ctx.step(4)
                    corpus = (av.copy(), 0.2 + 10 * distinct(K, 5), np.where(np.arange(K) == 0, 30.0, 0.05))[cw]
                    resp = soft(np.log(0.05 + distinct(D * K, 13).reshape(D, K)))
                    one(ctx, m, ds, words, K, a, av, b, resp, corpus, lam_of(K, T, lw), ev, 1 + (lw + cw) % 2 * 2)
    ctx.sample({"words": words, "clusters": K, "prior": p})


def one(ctx, m, ds, words, K, a, av, b, resp, corpus, lam, ev, n, tol=1e-8):
    D, T = words.shape
    ok, r = ctx.call("state-raised", put, m, ds, T, K, a, b, lam, corpus, resp)
    if not ok:
        return
    model, q = r
    eta = np.zeros(T) + b
    frozen = [snapshot(ds.words), snapshot(*[x for x in tuple(model) + tuple(q)])]
    ok, L = ctx.call("bound-raised", m.var_bound, ds, model, q)
    scale = tol * (1 + words.sum() + abs(lam).sum())
    before = elbo(words, resp, corpus, lam, av, eta)
    if ok:
        ctx.close(float(L), before, "bound-is-not-its-definition", rtol=tol, atol=scale)
        if ev is not None:
            ctx.expect(float(L) <= ev + 1e-7 * (1 + abs(ev)), "bound-above-the-evidence", [float(L), ev])
    ph, th = lam / lam.sum(axis=1, keepdims=True), corpus / corpus.sum()
    ok, w = ctx.call("words-raised", m.wordDists, model)
    if ok:
        ctx.close(w, ph, "word-distributions", rtol=1e-10)
        w *= 0.0
    ok, t = ctx.call("topics-raised", m.topicDists, q)
    if ok:
        ctx.close(t, resp, "topic-distributions", rtol=1e-10)
    for qq, pz in ((q, resp), (None, th[None, :])):
        ok, ll = ctx.call("likelihood-raised", m.log_likelihood_point, ds, model, qq)
        if ok:
            ctx.close(float(ll), float(logsumexp(words @ np.log(ph).T + np.log(pz), axis=1).sum()), "likelihood", rtol=tol, atol=tol)
    ok, ll = ctx.call("expected-likelihood-raised", m.log_likelihood_expected, ds, model, None)
    if ok:
        want = sum(logsumexp([np.log(th[k]) + ln_b(lam[k] + row) - ln_b(lam[k]) for k in range(K)]) for row in words)
        ctx.close(float(ll), float(want), "expected-likelihood", rtol=tol, atol=scale)
    ctx.expect(frozen == [snapshot(ds.words), snapshot(*[x for x in tuple(model) + tuple(q)])], "measuring-altered-state")
    # querying
    model2, q2 = put(m, ds, T, K, a, b, lam, corpus, resp)
    fixed = snapshot(*model2)
    ok, r = ctx.call("query-raised", m.query, ds, model2, q2, m.newTrainPlan(iterations=n, logFrequency=0))
    if ok:
        ctx.close(r[1].topicDists, responsibilities(words, corpus, lam), "query-step", rtol=tol)
        ctx.close(np.asarray(r[1].docLens, dtype=float).reshape(-1), words.sum(axis=1), "query-lengths")
        ctx.expect(fixed == snapshot(*model2) and fixed == snapshot(*r[0]), "query-altered-model")
    # training
    for freq in (0, 1):
        model, q = put(m, ds, T, K, a, b, lam, corpus, resp)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=n, logFrequency=freq))
        if not ok:
            continue
        g, c, l, near = run_train(words, resp, corpus, lam, av, eta, n)
        if near:
            ctx.note("stopping-rule-too-close")
            continue
        ctx.close(r[1].topicDists, g, "cluster-probabilities", rtol=tol)
        ctx.close(r[0].corpusTopicDistParam, c, "cluster-step", rtol=tol)
        ctx.close(r[0].wordDistParam, l, "word-step", rtol=tol)
        ctx.close(np.sum(r[1].topicDists, axis=1), np.ones(D), "not-distributions", rtol=1e-9)
        ctx.close(r[0].topicPrior, av, "prior-altered")
        after = elbo(words, g, c, l, av, eta)
        ctx.expect(after >= before - 1e-8 * (1 + abs(before)), "training-lowered-bound", [before, after])
        ok, L3 = ctx.call("bound-raised", m.var_bound, ds, r[0], r[1])
        if ok:
            ctx.close(float(L3), after, "bound-is-not-its-definition", rtol=tol, atol=scale)
            if ev is not None:
                ctx.expect(float(L3) <= ev + 1e-7 * (1 + abs(ev)), "bound-above-the-evidence", [float(L3), ev])
        iters, bnds, likes = (np.asarray(x, dtype=float) for x in r[2])
        ctx.expect(len(iters) == len(bnds) == len(likes), "trace-lengths", [iters, bnds, likes])
        if freq:
            ctx.expect(bool(np.all(np.diff(bnds) >= -1e-8 * (1 + np.abs(bnds[1:])))), "trace-of-bounds-falls", bnds)


def measured(ctx, cases):
    """Training whose progress is measured ends past fifty iterations once the perplexity fell by less than one."""
    m = em()
    early = late = 0
    for D, a, b, common, eta in cases:
        words = a * np.eye(D, D + 1, dtype=int) + b * np.eye(D, D + 1, 1, dtype=int)      # a chain: clusters spread from its ends
        words[:, D // 2] += common
        ds = dataset(words)
        lam = words.sum(axis=0) / 2.0 + eta + np.zeros((2, 1))
        lam[0, 0] *= 3
        lam[1, -1] *= 3

        def run(n, freq):
            model, q = put(m, ds, D + 1, 2, 1.0, eta, lam, np.full(2, D / 2.0), np.full((D, 2), 0.5))
            return m.train(ds, model, q, m.newTrainPlan(iterations=n, logFrequency=freq))

        def close(r, want, kind):
            ctx.close(r[1].topicDists, want[1].topicDists, kind, rtol=1e-6, atol=1e-8)
            ctx.close(r[0].wordDistParam, want[0].wordDistParam, kind, rtol=1e-6)
            ctx.close(r[0].corpusTopicDistParam, want[0].corpusTopicDistParam, kind, rtol=1e-6)
        e, l = watch(ctx, ("measured", D, a, b, common, eta), run, lambda r: float(np.exp(-m.log_likelihood_point(ds, r[0], r[1]) / words.sum())), close,
                     (1, 2, 5, 10, 20, 25, 26, 27, 51), (51, 52, 53, 70, 90), 50, 2)
        early, late = early + e, late + l
    ctx.note("runs ended early", early)
    ctx.note("measurements after which they went on", late)


def histories(ctx, depth):
    """T train, Q query others, P query some of the same, C go on with a copy."""
    m = em()
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 1, 4]])
    others = [np.array([[0, 0, 1, 1], [3, 1, 0, 0]]), np.array([[1, 1, 1, 1]])]
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        eta = np.zeros(4) + b
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQCP", repeat=n):
                if ops[-1] == "C":
                    continue
                ctx.case(("history", K, "".join(ops)))
                ctx.state(("history", K, ops))
                ctx.ran()
                resp, corpus, lam = soft(np.log(0.05 + distinct(4 * K, 13).reshape(4, K))), av + 1, lam_of(K, 4, 1)
                ds = dataset(words)
                model, q = put(m, ds, 4, K, av, b, lam, corpus, resp)
                for i, op in enumerate(ops):
                    ctx.step()
                    if op in "Tt":
                        its = 1 if op == "T" else 2
                        ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=its, logFrequency=0))
                        if not ok:
                            break
                        model, q = r[0], r[1]
                        resp, corpus, lam, near = run_train(words, resp, corpus, lam, av, eta, its)
                        if near:
                            break
                    elif op == "C":
                        old = model
                        model = m.newModelFromExisting(model)
                        ctx.expect(snapshot(*model) == snapshot(*old), "copy-differs")
                        for x in old:
                            if isinstance(x, np.ndarray) and x.ndim:
                                x[...] = 77.0
                    else:
                        other = others[i % 2] if op == "Q" else words[[2, 0]]
                        ds2 = dataset(other, np.int32)
                        q2 = m.newQueryState(ds2, model)
                        before = snapshot(*model)
                        ok, r = ctx.call("query-raised", m.query, ds2, model, q2, m.newTrainPlan(iterations=3, logFrequency=0))
                        if not ok:
                            break
                        ctx.close(r[1].topicDists, responsibilities(other, corpus, lam), "history-query", rtol=1e-8)
                        ctx.expect(snapshot(*model) == before == snapshot(*r[0]), "history-query-altered-model")
                    ctx.close(model.wordDistParam, lam, "history-words", rtol=1e-8)
                    ctx.close(model.corpusTopicDistParam, corpus, "history-clusters", rtol=1e-8)
                    ctx.close(q.topicDists, resp, "history-topics", rtol=1e-8)
                    ctx.close(model.topicPrior, av, "history-prior")
                    ctx.close(np.zeros(4) + model.vocabPrior, eta, "history-vocabulary-prior")
    ctx.sample({"depth": depth})


def fresh(ctx, cases):
    for words, K, p, wdt in cases:
        D, T = words.shape
        for m in (em(), gibbs()):
            ctx.case(("fresh", m.__name__, words.shape, words.tolist() if words.size < 12 else None, K, str(p), np.dtype(wdt).name))
            ctx.state(("fresh", m.__name__, words.tobytes(), words.shape, K, str(p), np.dtype(wdt).name))
            ctx.ran()
            ctx.step()
            ds = dataset(words, wdt)
            np.random.seed(11)
            a, b = p
            ok, model = ctx.call("model-raised", m.newModelAtRandom, ds, K, a if a is None or np.isscalar(a) else np.array(a), b if np.isscalar(b) else np.array(b))
            if not ok:
                continue
            tp = np.asarray(model.topicPrior, dtype=float)
            ctx.expect(tp.shape == (K,) and bool((tp > 0).all()), "topic-prior", tp)
            if a is not None:
                ctx.close(tp, np.zeros(K) + np.asarray(a, dtype=float), "topic-prior-value", rtol=1e-12)
            w = np.asarray(m.wordDists(model))
            ctx.expect(w.shape == (K, T) and bool((w > 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < 1e-9)), "initial-words", w)
            ok, q = ctx.call("query-state-raised", m.newQueryState, ds, model)
            if not ok:
                continue
            ctx.close(np.asarray(q.docLens, dtype=float), words.sum(axis=1), "document-lengths")
            g = np.asarray(q.topicDists)
            ctx.expect(g.shape == (D, K) and bool((g >= 0).all()) and bool(np.all(np.abs(g.sum(axis=1) - 1) < 1e-9)), "initial-topics", g)
            ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
            if ok:
                ctx.expect(snapshot(*cp) == snapshot(*model), "copy-differs")
                for i, x in enumerate(cp):
                    if isinstance(x, np.ndarray) and np.shares_memory(x, model[i]):
                        ctx.fail("copy-shares", {"field": i})
            if m is em():
                lam, corpus = np.array(model.wordDistParam), np.array(model.corpusTopicDistParam)
                one(ctx, m, ds, words, K, tp if a is None else a if np.isscalar(a) else np.array(a), tp, b if np.isscalar(b) else np.array(b),
                    np.maximum(g, 1e-30), corpus, lam, None, 3, tol=1e-7)
            else:
                plan = m.newTrainPlan(iterations=6, logFrequency=0)
                both = []
                for _ in range(2):
                    np.random.seed(5)
                    q2 = m.newQueryState(ds, model)
                    ok, r = ctx.call("train-raised", m.train, ds, m.newModelFromExisting(model), q2, plan)
                    if not ok:
                        break
                    z = np.asarray(r[1].topicDists)
                    ctx.expect(z.shape == (D, K) and bool(np.isin(z, (0, 1)).all()) and bool((z.sum(axis=1) == 1).all()), "not-a-membership", z)
                    w = np.asarray(m.wordDists(r[0]))
                    ctx.expect(bool((w >= 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < 1e-9)), "sampled-words", w)
                    frozen = snapshot(*r[0])
                    ok, s = ctx.call("query-raised", m.query, ds, r[0], m.newQueryState(ds, r[0]), m.newTrainPlan(iterations=1 + D % 7, logFrequency=0))
                    if ok:
                        z2 = np.asarray(s[1].topicDists)
                        ctx.expect(z2.shape == (D, K) and bool((z2 >= 0).all()) and bool(np.all(np.abs(z2.sum(axis=1) - 1) < 1e-9)), "query-not-distributions", z2)
                        ctx.expect(frozen == snapshot(*r[0]), "query-altered-model")
                        both.append(snapshot(*r[0], z, z2))
                if len(both) == 2:
                    ctx.expect(both[0] == both[1], "same-seed-differs")


class Script:
    """Stands in for numpy.random: hands out prescribed choices, records what was asked."""

    def __init__(self, choices):
        self.choices, self.i, self.asked = choices, 0, []

    def multinomial(self, n, pvals, size=None):
        pvals = np.array(pvals, dtype=float)
        k = self.choices[self.i] if self.i < len(self.choices) else 0
        self.i += 1
        self.asked.append(("z", int(n), pvals))
        hot = np.zeros(len(pvals), dtype=np.int64)
        hot[k] = n
        return hot if size is None else np.tile(hot, (int(np.prod(size)), 1)).reshape(tuple(np.atleast_1d(size)) + (len(pvals),))

    def dirichlet(self, alpha, size=None):
        alpha = np.array(alpha, dtype=float)
        self.asked.append(("phi", 0, alpha))
        x = draw(alpha, sum(1 for a in self.asked if a[0] == "phi"))
        return x if size is None else np.tile(x, (int(np.prod(size)), 1)).reshape(tuple(np.atleast_1d(size)) + (len(alpha),))

    def __enter__(self):
        self.old = np.random.multinomial, np.random.dirichlet
        np.random.multinomial, np.random.dirichlet = self.multinomial, self.dirichlet
        return self

    def __exit__(self, *a):
        np.random.multinomial, np.random.dirichlet = self.old


def draw(alpha, i):
    """The i-th "random" distribution: skewed differently each time."""
    x = alpha * (0.2 + distinct(len(alpha), 3 + i % 5))
    return x / x.sum()


def conditional(words, d, z, phi, alpha):
    s = words[d] @ np.log(np.maximum(phi, 1e-300)).T + np.log(np.delete(z, d, axis=0).sum(axis=0) + alpha)
    return np.exp(s - logsumexp(s))


def trajectories(ctx, configs):
    """Every sequence of cluster choices, in training and in querying."""
    m = gibbs()
    for words, K, p, sweeps, init, mode in configs:
        D, T = words.shape
        a, av, b = prior(K, T, p)
        eta = np.zeros(T) + b
        phi0 = lam_of(K, T, 1) / lam_of(K, T, 1).sum(axis=1, keepdims=True)
        z0 = (np.eye(K)[np.arange(D) % K], np.full((D, K), 1.0 / K), np.eye(K)[np.zeros(D, dtype=int)])[init]
        for choices in itertools.product(range(K), repeat=D * sweeps):
            ctx.case(("trajectory", mode, words.tolist(), K, p, sweeps, init, choices))
            if not ctx.state(("trajectory", mode, words.tobytes(), words.shape, K, str(p), sweeps, init, choices)):
                continue
            ctx.ran()
            ctx.step(D * sweeps)
            ds = dataset(words, np.int32 if sum(choices) % 2 else np.float64)
            model, q = put(m, ds, T, K, a, b, phi0, None, z0)
            plan = m.newTrainPlan(iterations=sweeps, burnIn=0, thinning=1, logFrequency=sum(choices) % 2)
            fixed = snapshot(*model)
            with Script(choices) as s:
                ok, r = ctx.call(mode + "-raised", getattr(m, mode), ds, model, q, plan)
            if not ok:
                continue
            if not any(k == "z" for k, _, _ in s.asked) or (mode == "train" and not any(k == "phi" for k, _, _ in s.asked)):
                ctx.note("trajectories not judged: another source of randomness")
                continue
            z, phi, want, zs = z0.copy(), phi0.copy(), [], []
            it = iter(choices)
            drawn = 0
            for _ in range(sweeps):
                for d in range(D):
                    want.append(("z", 1, conditional(words, d, z, phi, av)))
                    z[d] = np.eye(K)[next(it)]
                zs.append(z.copy())
                if mode == "train":
                    new = phi.copy()
                    for k in range(K):
                        drawn += 1
                        want.append(("phi", 0, eta + z[:, k] @ words))
                        new[k] = draw(want[-1][2], drawn)
                    phi = new
            if not ctx.expect([w[:2] for w in want] == [w[:2] for w in s.asked], mode + "-sequence-of-draws", {"asked": [w[:2] for w in s.asked], "want": [w[:2] for w in want]}):
                continue
            for w, g in zip(want, s.asked):
                if not ctx.close(g[2], w[2], mode + ("-cluster-probabilities" if w[0] == "z" else "-word-parameters"), rtol=1e-8, atol=1e-12):
                    break
            if mode == "train":
                ctx.close(r[1].topicDists, z, "sampled-memberships")
                ctx.close(r[0].wordDists, phi, "sampled-words", rtol=1e-9)
            else:
                ctx.close(r[1].topicDists, np.mean(zs[1:] or zs[-1:], axis=0), "average-of-samples", rtol=1e-9)
                ctx.expect(fixed == snapshot(*model) and fixed == snapshot(*r[0]), "query-altered-model")
            ctx.close(model.topicPrior, av, "prior-altered")
            zt = np.asarray(r[1].topicDists, dtype=float)
            ok, ll = ctx.call("likelihood-raised", m.log_likelihood_point, ds, r[0], r[1])
            if ok:
                lp = words @ np.log(phi if mode == "train" else phi0).T
                with np.errstate(divide="ignore"):
                    ctx.close(float(ll), float(logsumexp(lp + np.log(zt), axis=1).sum()), "sampler-likelihood", rtol=1e-8, atol=1e-8)
    ctx.sample({"words": words, "clusters": K, "sweeps": sweeps})


def plans(ctx, most):
    """Which iterations of a query count: after the burn-in, every thinning-th; the last one if there are none."""
    m = gibbs()
    words = np.array([[1, 0], [0, 2], [1, 1]])
    K = 2
    phi0 = lam_of(K, 2, 1) / lam_of(K, 2, 1).sum(axis=1, keepdims=True)
    z0 = np.full((3, K), 0.5)
    for n in range(1, most + 1):
        for burn, thin in list(itertools.product(range(n + 1), range(1, n + 1))) + [(None, None)]:
            for pattern in range(8):
                ctx.case(("plan", n, burn, thin, pattern))
                ctx.state(("plan", n, burn, thin, pattern))
                ctx.ran()
                ctx.step(n)
                choices = [((pattern * 7 + i * i + (i // 3) * (1 + pattern)) >> (pattern % 3)) % 2 for i in range(3 * n)]
                ds = dataset(words)
                model, q = put(m, ds, 2, K, 0.5, 0.2, phi0, None, z0)
                ok, plan = ctx.call("plan-raised", m.newTrainPlan, iterations=n, burnIn=burn, thinning=thin, logFrequency=0)
                if not ok:
                    continue
                bi, th = (n // 4, max(1, n // 10)) if burn is None else (burn, thin)
                with Script(choices) as s:
                    ok, r = ctx.call("query-raised", m.query, ds, model, q, plan)
                if not ok or not s.asked:
                    continue
                zs = np.eye(K)[np.array(choices)].reshape(n, 3, K)
                keep = [i for i in range(n) if i > 0 and i > bi and i % th == 0] or [n - 1]
                ctx.close(r[1].topicDists, zs[keep].mean(axis=0), "average-of-samples", rtol=1e-9)


def independence(ctx):
    """The variational posterior of a document depends on it and the model alone; training on order not at all."""
    m = em()
    base = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 5, 1]])
    for K in (2, 3):
        av, b = np.linspace(0.4, 1.2, K), 0.3
        lam, corpus = lam_of(K, 4, 1), av + 1
        resp = soft(np.log(0.05 + distinct(4 * K, 13).reshape(4, K)))
        for n in range(1, 5):
            for idx in itertools.permutations(range(4), n):
                ctx.case(("independence", K, idx))
                ctx.state(("independence", K, idx))
                ctx.ran()
                ctx.step()
                idx = list(idx)
                ds = dataset(base[idx])
                model, q = put(m, ds, 4, K, av, b, lam, corpus)
                ok, r = ctx.call("query-raised", m.query, ds, model, q, m.newTrainPlan(iterations=20, logFrequency=0))
                if ok:
                    ctx.close(r[1].topicDists, responsibilities(base, corpus, lam)[idx], "depends-on-other-documents", rtol=1e-8)
        g, c, l, near = run_train(base, resp, corpus, lam, av, np.zeros(4) + b, 4)
        for pd, pw in itertools.product(itertools.permutations(range(4)), repeat=2):
            ctx.case(("order", K, pd, pw))
            ctx.state(("order", K, pd, pw))
            ctx.ran()
            ctx.step()
            pd, pw = list(pd), list(pw)
            w = base[pd][:, pw]
            ds = dataset(w)
            model, q = put(m, ds, 4, K, av, b, lam[:, pw], corpus, resp[pd])
            ok, r = ctx.call("train-raised", m.train, ds, model, q, m.newTrainPlan(iterations=4, logFrequency=0))
            if ok and not near:
                ctx.close(r[0].wordDistParam, l[:, pw], "order-matters-words", rtol=1e-8)
                ctx.close(r[1].topicDists, g[pd], "order-matters-topics", rtol=1e-8)


def rejects(ctx):
    for m in (em(), gibbs()):
        words = np.array([[1, 1], [2, 0], [0, 3]])
        if m is em():      # without an iteration, nothing changes
            ds, resp = dataset(words), np.array([[0.25, 0.75], [0.5, 0.5], [0.875, 0.125]])
            ctx.case(("no iterations", m.__name__))
            ctx.step()
            ctx.ran()
            model, q = put(m, ds, 2, 2, 0.5, 0.1, np.array([[.6, .4], [.3, .7]]), np.array([0.5, 0.5]), resp)
            ok, r = ctx.call("query-raised", m.query, ds, model, q, m.newTrainPlan(iterations=0, logFrequency=0))
            if ok:
                ctx.expect(np.array_equal(m.topicDists(r[1]), resp), "query-of-no-iterations", m.topicDists(r[1]))
        for r in range(3):
            w = words.copy()
            w[r] = 0
            ctx.case(("empty", m.__name__, r))
            ctx.step()
            ctx.ran()
            ds = dataset(w)
            model, q = put(m, ds, 2, 2, 0.5, 0.1, np.full((2, 2), 0.5), np.array([0.5, 0.5]))
            ctx.raises("empty-document-accepted", ValueError, m.train, ds, model, q, m.newTrainPlan(iterations=1, logFrequency=0))


def tasks(tier, seed):
    deep = tier == "thorough"
    mats = [w for w in count_matrices(1, 3, (0, 1, 2)) if w.sum() > 0] + [w for w in count_matrices(2, 2, (0, 1, 2)) if (w.sum(axis=1) > 0).all()]
    mats += [np.array([[3]]), np.array([[1], [4], [2]]), np.array([[1, 0, 1], [2, 2, 0], [0, 0, 3]]), np.array([[3000, 1], [0, 2]])]
    if deep:
        mats += [w for w in count_matrices(3, 2, (0, 1, 2)) if (w.sum(axis=1) > 0).all()]
    wdts = (np.float64, np.int32, np.float32, np.int64)
    out = [("steps-%d" % i, steps, (c, wdts, 3000)) for i, c in enumerate(chunks(mats, 8))]
    cfg = []
    for words in (np.array([[1, 2]]), np.array([[1, 0], [0, 3]]), np.array([[1, 0, 2], [0, 3, 1]]), np.array([[1, 1], [2, 0], [0, 1]]), np.array([[40, 1, 0], [1, 0, 30], [3, 3, 3]])):
        for K in (2, 3):
            for sweeps in (1, 2, 3):
                if K ** (len(words) * sweeps) > (20000 if deep else 300):
                    continue
                for p in PRIORS[K]:
                    for init, mode in itertools.product(range(3), ("train", "query")):
                        cfg.append((words, K, p, sweeps, init, mode))
    cfg.sort(key=lambda c: -c[1] ** (len(c[0]) * c[3]))
    out += [("trajectories-%d" % i, trajectories, (cfg[i::8],)) for i in range(8)]
    cases = []
    for D, T, K in [(1, 1, 2), (1, 9, 3), (4, 3, 2), (9, 17, 5), (40, 60, 12), (60, 150, 25)]:
        i, j = np.arange(D)[:, None], np.arange(T)[None, :]
        words = ((i * 31 + j * 17 + i * j * 7) % 5 == 0) * (1 + (i + j) % 4)
        words[:, 0] += 1
        for wdt in wdts:
            for p in ((None, 1.1), (0.5, 0.1), (1, 1), (np.float64(0.3), np.float32(0.25)), (distinct(K).tolist(), 0.2), (0.7, distinct(T, 5).tolist()), (0.05, 0.01)):
                cases.append((words, K, p, wdt))
    out += [("fresh-%d" % i, fresh, (c,)) for i, c in enumerate(chunks(cases, 6))]
    chains = [(d, a, b, c, eta) for d, a, b, c in ((150, 1, 1, 0), (150, 2, 2, 0), (300, 1, 1, 0), (60, 1, 1, 0), (100, 1, 1, 0), (150, 1, 1, 30), (200, 2, 2, 100), (300, 1, 1, 100)) for eta in (0.01, 0.1, 1.0)]
    out += [("measured-%d" % i, measured, (c,)) for i, c in enumerate(chunks(chains, 3))]
    return out + [("histories", histories, (5 if deep else 4,)), ("plans", plans, (9 if deep else 7,)), ("independence", independence, ()), ("rejects", rejects, ())]
