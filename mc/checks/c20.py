"""C20 topic model with features: querying and training against the updates they stand for, whatever the order of the documents."""
import copy
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import logistic as ref
from ..ends import watch
from .c19 import nearly_even, two_kinds
from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C20"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All corpora of 1-3 documents of 1-3 words with counts from {0,1,2}, empty documents included, and with fractional counts, x all 0/1 feature matrices of 1-2 features (thorough: 3) and "
        "graded ones, stored dense and sparse, x palettes of topic scores, word distributions, weights and covariances x 2-3 topics x 32/64-bit numbers: 1 and 2 "
        "iterations of training and full queries against independent updates; every order of the documents of corpora of 4 with equal, rising and falling "
        "lengths; all histories of training, querying and copying to depth 3 (thorough 4); ladders to 60 documents, 150 words, 20 features, 12 topics.")
ASSUMPTIONS = ["the words and features are stored in the precision of the model, which is 64 bits unless stated", "every topic gives every word some probability",
               "training fits the weights by least squares once in each iteration and leaves the latent features as they are, as the code does now"]


def mdl():
    import sidetopics.model.stm_yv_bohning as m
    return m


def dataset(words, feats, dt, sparse=True):
    from sidetopics.model.common import DataSet
    f = np.asarray(feats).astype(dt)
    return DataSet(ssp.csr_matrix(np.asarray(words).astype(dt)), feats=ssp.csr_matrix(f) if sparse else f)


class Par:
    """Parameters of a model and of a query state."""

    def __init__(self, words, feats, K, P, which, dt, fv=0.7, lfv=1.3, prior=0.01, sparse=True):
        self.words, self.feats, self.dt, self.sparse = np.asarray(words, dtype=float), np.asarray(feats, dtype=float), dt, sparse
        D, T = self.words.shape
        F = self.feats.shape[1]
        self.K, self.P, self.fv, self.lfv, self.prior = K, P, fv, lfv, prior
        r = lambda x: np.asarray(np.array(x, dtype=dt), dtype=float)
        self.Y, self.V = r(distinct(K * P, 41).reshape(K, P) - 1.5), r(distinct(P * F, 43).reshape(P, F) - 1.5)
        self.A = r(distinct(K * F, 47).reshape(K, F) - 1.5)
        self.cov, self.vocab, self.means = r(ref.covariance(K, which % 4)), r(ref.words_of(K, T, which % 2)), r(ref.scores(D, K, 1 + which % 2))
        self.varcs = r(0.2 + distinct(D * K, 53).reshape(D, K))

    def put(self, m):
        dt, T, F = self.dt, self.words.shape[1], self.feats.shape[1]
        np.random.seed(7)
        model = m.newModelAtRandom(dataset(np.full((1, T), 2000), np.ones((1, F)), dt, self.sparse), self.P, self.K, self.fv, self.lfv, vocabPrior=self.prior, dtype=dt)
        a = lambda x: np.array(x, dtype=dt)
        model = model._replace(Y=a(self.Y), V=a(self.V), A=a(self.A), sigT=a(self.cov), vocab=a(self.vocab))
        ds = dataset(self.words, self.feats, dt, self.sparse)
        q = m.newQueryState(ds, model)
        return ds, model, q._replace(means=a(self.means), varcs=a(self.varcs))

    def train(self, n):
        """The reference: the parameters move on n iterations."""
        n_d, (D, _), F, K = self.words.sum(axis=1), self.words.shape, self.feats.shape[1], self.K
        for _ in range(n):
            self.A = (np.linalg.pinv(self.feats) @ self.means).T
            off = self.A - self.Y @ self.V
            for _ in range(10):
                pull = self.feats @ self.A.T
                res = self.means - pull
                self.cov = (self.Y @ self.Y.T / self.lfv + off @ off.T / self.fv + res.T @ res + np.diag(self.varcs.sum(axis=0))) / (self.P + D + F)
                inv = np.linalg.inv(self.cov)
                self.vocab = ref.vocabulary(self.words, self.means, self.vocab, self.prior)
                self.varcs = 1.0 / ((n_d * (K - 1.0) / K)[:, None] + np.diag(inv))
                self.means = ref.climb(self.words, self.means, self.vocab, inv, pull)
        return self

    def settled(self, n):
        """Whether a change of the scores in the sixth digit stays there: rounding must not decide the result."""
        a, b = copy.deepcopy(self), copy.deepcopy(self)
        b.means = b.means * (1 + 1e-6 * np.cos(np.arange(b.means.size))).reshape(b.means.shape)
        b.Y = b.Y * (1 - 1e-6)
        a.train(n)
        b.train(n)
        return all(abs(x - y).max() < 2e-5 * (1 + abs(x).max()) for x, y in ((a.means, b.means), (a.vocab, b.vocab), (a.cov, b.cov), (a.A, b.A)))

    def query(self, words, feats, start, n):
        out, inv, pull = [np.asarray(start, dtype=float)], np.linalg.inv(self.cov), feats @ self.A.T
        for _ in range(n):
            out.append(ref.climb(words, out[-1], self.vocab, inv, pull))
        return out


def plan(m, n, freq=0):
    return m.newTrainPlan(iterations=n, logFrequency=freq)


def arrays(t):
    return snapshot(*[x for x in t if isinstance(x, np.ndarray)])


def check_query(ctx, m, p, words, feats, start, model, n, t):
    ds = dataset(words, feats, p.dt, p.sparse)
    q = m.newQueryState(ds, model)._replace(means=np.array(start, dtype=p.dt))
    fixed, data = arrays(model), snapshot(ds.words, ds.feats)
    ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, n))
    if not ok:
        return
    start = np.asarray(np.array(start, dtype=p.dt), dtype=float)
    traj = p.query(words, feats, start, max(n, 100))
    perps = [ref.perplexity(words, x, p.vocab) for x in traj]
    allowed = [i for i in range(1, len(traj)) if i in (n, len(traj) - 1) or (i > 21 and perps[i - 1] - perps[i] < 1 + 10 * t)]
    got = np.asarray(r[1].means, dtype=float)
    size = 1 + max(abs(traj[-1]).max(), abs(start).max(), abs(feats @ p.A.T @ np.linalg.inv(p.cov)).max())
    ctx.expect(got.shape == start.shape and any(np.allclose(got, traj[i], rtol=10 * t, atol=10 * t * size) for i in allowed), "query-scores",
               {"got": got, "wanted one of": [traj[allowed[0]], traj[-1]]})
    inv = np.linalg.inv(p.cov)
    ctx.close(r[1].varcs, 1.0 / ((words.sum(axis=1) * (p.K - 1.0) / p.K)[:, None] + np.diag(inv)), "query-variances", rtol=10 * t)
    was, now = (ref.per_document(words, x, p.vocab, inv, feats @ p.A.T) for x in (start, got))
    ctx.expect(bool(np.all(now >= was - 10 * t * (1 + abs(was)))), "query-made-a-document-worse", [was, now])
    ctx.expect(fixed == arrays(model) == arrays(r[0]), "query-altered-model")
    ctx.expect(data == snapshot(ds.words, ds.feats), "query-altered-data")


def check_model(ctx, p, model, q, t):
    size = 1 + abs(p.means).max()
    ctx.close(model.A, p.A, "trained-weights", rtol=t, atol=t * size)
    ctx.close(model.sigT, p.cov, "trained-covariance", rtol=t, atol=t * (1 + abs(p.cov).max()))
    ctx.close(model.vocab, p.vocab, "trained-words", rtol=t, atol=t)
    ctx.close(q.means, p.means, "trained-scores", rtol=t, atol=t * size)
    ctx.close(q.varcs, p.varcs, "trained-variances", rtol=t, atol=t)
    ctx.close(q.docLens, p.words.sum(axis=1), "trained-lengths")
    ctx.close(model.Y, p.Y, "latent-altered")
    ctx.close(model.V, p.V, "latent-altered")


def one(ctx, m, p, n, qn, t):
    ok, r = ctx.call("state-raised", p.put, m)
    if not ok:
        return
    ds, model, q = r
    words = p.words
    frozen = [snapshot(ds.words, ds.feats), arrays(model), snapshot(q.means, q.varcs, q.docLens)]
    ok, th = ctx.call("topics-raised", m.topicDists, q)
    if ok:
        ctx.close(th, ref.soft(p.means), "topic-distributions", rtol=t, atol=t)
    ok, w = ctx.call("words-raised", m.wordDists, model)
    if ok:
        ctx.close(w, p.vocab, "word-distributions", rtol=t)
    ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
    if ok:
        ctx.close(float(ll), float(np.where(words > 0, words * np.log(ref.soft(p.means) @ p.vocab), 0).sum()), "likelihood", rtol=t, atol=t * (1 + words.sum()))
    ctx.expect(frozen == [snapshot(ds.words, ds.feats), arrays(model), snapshot(q.means, q.varcs, q.docLens)], "measuring-altered-state")
    check_query(ctx, m, p, words, p.feats, p.means, model, qn, t)
    done = []
    for freq in (0, 1):
        ds, model, q = p.put(m)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, n, freq))
        if ok:
            done.append(r)
            iters, bounds, likes = (np.asarray(x, dtype=float) for x in r[2])
            ctx.expect(len(iters) == len(bounds) == len(likes) == (n if freq else 0), "trace-lengths", [iters, bounds, likes])
    if p.dt is np.float32 and not p.settled(n):
        ctx.note("single-precision-cases-too-sensitive")
        return
    p.train(n)
    t2 = max(t, 3e-5) if p.sparse else t               # least squares of sparse features are solved by iteration
    for r in done:
        check_model(ctx, p, r[0], r[1], 10 * t2)
        if len(r[2][2]):
            ctx.close(r[2][2][-1], float(np.where(words > 0, words * np.log(ref.soft(p.means) @ p.vocab), 0).sum()), "trace-of-likelihoods", rtol=30 * t2, atol=30 * t2 * (1 + words.sum()))


def features(D, F, thorough):
    out = [np.array(v, dtype=float).reshape(D, F) for v in itertools.product((0, 1), repeat=D * F)]
    return [x for x in out if x.any()] + [distinct(D * F, 61).reshape(D, F) - 1.0]


def steps(ctx, cases):
    m = mdl()
    for i, words, feats in cases:
        for K, P in ((2, 1), (3, 2)):
            dt = np.float32 if i % 6 == 0 else np.float64
            sparse, n, which = i % 2 == 0, 1 + i % 3 % 2, i % 4 + K
            ctx.case((words.tolist(), feats.tolist(), K, which, sparse, n, np.dtype(dt).name))
            ctx.state((words.tobytes(), words.shape, feats.tobytes(), feats.shape, K, which, sparse, n, np.dtype(dt).name))
            ctx.ran(bool(words.sum()))
            ctx.step(20 * n + 22)
            p = Par(words, feats, K, P, which, dt, prior=(0.01, 1.0, 0.3)[i % 3], fv=(0.7, 3.0)[i % 2], lfv=(1.3, 0.2)[i % 5 % 2], sparse=sparse)
            one(ctx, m, p, 1 if dt is np.float32 else n, (1, 30, 120)[i % 3], 1e-8 if dt is np.float64 else 5e-4)
    ctx.sample({"words": words, "features": feats})


def orders(ctx, cases):
    """Whatever the order of the documents, each keeps its own results."""
    m = mdl()
    for words, feats, sparse in cases:
        D, T = words.shape
        for perm in itertools.permutations(range(D)):
            perm = list(perm)
            ctx.case(("order", words.tolist(), feats.tolist(), sparse, perm))
            ctx.state(("order", words.tobytes(), feats.tobytes(), sparse, tuple(perm)))
            ctx.ran()
            ctx.step(42)
            base = Par(words, feats, 2, 1, 3, np.float64, sparse=sparse)
            p = Par(words[perm], feats[perm], 2, 1, 3, np.float64, sparse=sparse)
            p.means, p.varcs = base.means[perm], base.varcs[perm]
            ok, r = ctx.call("state-raised", p.put, m)
            if not ok:
                continue
            ds, model, q = r
            data = snapshot(ds.words, ds.feats)
            ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, 2))
            if not ok:
                continue
            ctx.expect(data == snapshot(ds.words, ds.feats), "training-altered-data")
            base.train(2)
            t = 3e-4 if sparse else 1e-7
            base.means, base.varcs, base.words = base.means[perm], base.varcs[perm], base.words[perm]
            check_model(ctx, base, r[0], r[1], t)
            th = np.exp(np.asarray(r[1].expMeans, dtype=float))
            ctx.expect(np.asarray(r[1].expMeans).shape == (D, 2), "trained-exponentials", th)
            check_query(ctx, m, base, words[perm], feats[perm], base.means, r[0], 3, t)
            check_query(ctx, m, base, words[perm], feats[perm], base.means + 950.0 * np.arange(D)[:, None] - 400, r[0], 3, t)
            for d in range(D):                          # a query about one document, alone
                one_w, one_f = words[perm][d:d + 1], feats[perm][d:d + 1]
                solo = base.query(one_w, one_f, base.means[d:d + 1], 100)
                ds1 = dataset(one_w, one_f, np.float64, sparse)
                q1 = m.newQueryState(ds1, r[0])._replace(means=np.array(base.means[d:d + 1]))
                ok, s = ctx.call("query-raised", m.query, ds1, r[0], q1, plan(m, 1))
                if ok:
                    got = np.asarray(s[1].means)
                    ctx.expect(any(np.allclose(got, x, rtol=10 * t, atol=10 * t) for x in solo[1:]), "lone-query", {"got": got, "wanted": solo[-1]})
    ctx.sample({"words": words})


def ladder(ctx, cases):
    m = mdl()
    for D, T, F, K, P, scale, dt, sparse in cases:
        words = ref.ladder_words(D, T) * scale
        feats = np.where(distinct(D * F, 71).reshape(D, F) > 1.4, 1.0, 0.0)
        feats[:, 0] = 1.0
        ctx.case(("ladder", D, T, F, K, P, scale, sparse, np.dtype(dt).name))
        ctx.state(("ladder", D, T, F, K, P, scale, sparse, np.dtype(dt).name))
        ctx.ran()
        ctx.step(42)
        p = Par(words, feats, K, P, 3, dt, sparse=sparse)
        one(ctx, m, p, 1, 1, 1e-7 if dt is np.float64 else 2e-3)
    ctx.sample({"documents": D, "features": F, "topics": K})


def measured(ctx, cases):
    """Training whose progress is measured ends past twenty iterations once the perplexity fell by less than one."""
    m = mdl()
    early = late = 0
    for share, eps, sparse in cases:
        words = two_kinds(share)
        D, T = words.shape
        feats = np.ones((D, 1)) if eps > 1e-8 else np.hstack([np.ones((D, 1)), np.arange(D)[:, None] % 3])
        ds0 = dataset(words, feats, np.float64, sparse)

        def run(n, freq):
            p = Par(words, feats, 2, 1, 0, np.float64, sparse=sparse)
            p.vocab, p.means = nearly_even(2, T, eps), np.zeros((D, 2))
            ds, model, q = p.put(m)
            return m.train(ds, model, q, plan(m, n, freq))

        def close(r, want, kind):
            ctx.close(r[1].means, want[1].means, kind, rtol=1e-8, atol=1e-10)
            ctx.close(r[0].vocab, want[0].vocab, kind, rtol=1e-8)
        e, l = watch(ctx, ("measured", share, eps, sparse), run, lambda r: float(np.exp(-m.log_likelihood(ds0, r[0], r[1]) / words.sum())), close,
                     (1, 2, 5, 7, 11, 21), (21, 22, 27, 45), 20, 2)
        early, late = early + e, late + l
    ctx.note("runs ended early", early)
    ctx.note("measurements after which they went on", late)


def histories(ctx, depth):
    """T/t train, Q query others, P query some of the same, C go on with a copy."""
    m = mdl()
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 0], [0, 0, 1, 4]], dtype=float)
    feats = np.array([[1, 0], [1, 1], [0, 1], [1, 0.5]])
    others = [(np.array([[0, 0, 1, 1], [3, 1, 0, 0]], dtype=float), np.array([[1.0, 1], [0, 2]])), (np.array([[1.0, 1, 1, 1]]), np.array([[0.0, 1]]))]
    for K, sparse in ((2, False), (3, True)):
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQCP", repeat=n):
                if ops[-1] == "C":
                    continue
                ctx.case(("history", K, "".join(ops)))
                ctx.state(("history", K, ops))
                ctx.ran()
                p = Par(words, feats, K, 1, 1, np.float64, sparse=sparse)
                t = 3e-3 if sparse else 1e-6
                ds, model, q = p.put(m)
                for i, op in enumerate(ops):
                    ctx.step()
                    if op in "Tt":
                        its = 1 if op == "T" else 2
                        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, its))
                        if not ok:
                            break
                        model, q = r[0], r[1]
                        p.train(its)
                    elif op == "C":
                        old = model
                        model = m.newModelFromExisting(model)
                        ctx.expect(arrays(model) == arrays(old), "copy-differs")
                        for x in old:
                            if isinstance(x, np.ndarray) and x.ndim:
                                x[...] = 77.0
                    else:
                        w, f = others[i % 2] if op == "Q" else (words[[2, 0]], feats[[2, 0]])
                        check_query(ctx, m, p, w, f, ref.scores(len(w), K, 1), model, 3, t)
                    check_model(ctx, p, model, q, t)
    ctx.sample({"depth": depth})


def fresh(ctx, cases):
    m = mdl()
    for words, feats, K, P, dt, sparse in cases:
        D, T = words.shape
        ctx.case(("fresh", words.shape, feats.shape, K, P, sparse, np.dtype(dt).name))
        ctx.state(("fresh", words.tobytes(), words.shape, feats.shape, K, P, sparse, np.dtype(dt).name))
        ctx.ran()
        ctx.step()
        ds = dataset(words, feats, dt, sparse)
        F = feats.shape[1]
        np.random.seed(11)
        ok, model = ctx.call("model-raised", m.newModelAtRandom, ds, P, K, 0.5, 2.0, dtype=dt)
        if not ok:
            continue
        e = 1e-9 if dt is np.float64 else 1e-4
        w = np.asarray(m.wordDists(model), dtype=float)
        ctx.expect(w.shape == (K, T) and bool((w >= 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < e)), "initial-words", w)
        ctx.close(model.Ab, ref.curvature(K), "curvature", rtol=1e-6, atol=1e-7)
        ctx.expect((model.F, model.P, model.K, model.fv, model.lfv) == (F, P, K, 0.5, 2.0), "sizes", [model.F, model.P, model.K, model.fv, model.lfv])
        ctx.expect(np.shape(model.A) == (K, F) and np.shape(model.Y) == (K, P) and np.shape(model.V) == (P, F), "shapes")
        ok, q = ctx.call("query-state-raised", m.newQueryState, ds, model)
        if not ok:
            continue
        ctx.close(q.docLens, words.sum(axis=1), "document-lengths")
        ctx.expect(np.shape(q.means) == (D, K) and bool(np.isfinite(q.means).all()), "initial-scores", q.means)
        ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
        if ok:
            ctx.expect(arrays(cp) == arrays(model) and cp.name == model.name, "copy-differs")
            for i, x in enumerate(model):
                ctx.expect(not isinstance(x, np.ndarray) or not np.shares_memory(cp[i], x), "copy-shares", {"field": i})
    ctx.sample({"topics": K})


def corpora(thorough):
    mats = []
    for D, T in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((1, 3), (3, 2)) if thorough else ()):
        mats += list(count_matrices(D, T, (0, 1, 2)))
    mats += list(count_matrices(2, 3, (0, 2))) + list(count_matrices(3, 2, (0, 3)))
    mats += list(count_matrices(2, 1, (1.0, 2.0, 2.75, 2.25))) + list(count_matrices(2, 2, (0, 1.0, 1.5)))
    mats = [x.astype(float) for x in mats if x.sum()]
    return [(w, f) for w in mats for F in ((1, 2, 3) if thorough else (1, 2)) for f in features(len(w), F, thorough)]


def tasks(tier, seed):
    thorough = tier == "thorough"
    pairs = corpora(thorough)
    pairs = [(i, w, f) for i, (w, f) in enumerate(pairs)]
    if not thorough:
        pairs = pairs[::3]
    out = [("steps-%d" % i, steps, (c,)) for i, c in enumerate(chunks(pairs, 24 if thorough else 10))]
    wf = [(np.array(w, dtype=float), f) for w, f in itertools.product(
        ([[1, 0], [2, 1], [0, 4], [3, 3]], [[3, 3], [0, 4], [2, 1], [1, 0]], [[1, 1], [2, 0], [0, 2], [1, 1]], [[2, 1], [0, 0], [0, 3], [1, 1]], [[0, 1], [5, 0], [1, 0], [0, 5]], [[1, 1], [2, 0.75], [2.5, 0], [1, 0.5]]),
        (np.array([[1, 0], [1, 1], [1, 2.0], [1, 5]]), np.array([[1.0], [2], [0], [1]])))]
    out += [("orders-%d" % i, orders, (c,)) for i, c in enumerate(chunks([(w, f, s) for w, f in wf for s in (False, True)], 4))]
    big = [(d, t, f, k, p, s, dt, sp) for d, t, f, k, p in ((8, 9, 2, 2, 1), (15, 21, 4, 5, 2), (30, 64, 9, 8, 4), (60, 150, 20, 12, 5))
           for s in (1, 40) for dt in (np.float64, np.float32) for sp in (False, True) if not (dt is np.float32 and s > 1)]
    out += [("ladder-%d" % i, ladder, (c,)) for i, c in enumerate(chunks(big, 4))]
    slow = [(s, e, sp) for s in (0, 4, 6) for e in (1e-1, 1e-6, 1e-9, 1e-12, 1e-14, 1e-15) for sp in ((True,) if s else (True, False))]
    out += [("measured-%d" % i, measured, (c,)) for i, c in enumerate(chunks(slow, 4))]
    out.append(("histories", histories, (4 if thorough else 3,)))
    fr = [(w, f, k, p, dt, sp) for w, f in ((np.full((1, 3), 2000.0), np.ones((1, 2))), (np.array([[900.0, 0, 2000], [0, 0, 0], [1000, 1000, 1]]), np.eye(3)),
          (900 * ref.ladder_words(20, 40), distinct(60, 3).reshape(20, 3))) for k in (2, 3, 7) for p in (1, 3) for dt in (np.float64, np.float32) for sp in (False, True)]
    out.append(("fresh", fresh, (fr,)))
    return out
