"""C26 topic models on Bouchard's bound, with and without features: every step against the maximisation it is, and the bound itself."""
import itertools
import numpy as np
import scipy.sparse as ssp
from sklearn.covariance import oas

from .. import logistic as ref
from ..ends import watch
from .c19 import nearly_even, two_kinds
from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C26"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All corpora of 1-3 documents of 1-3 words with counts from {0,1,2}, empty documents included, and with fractional counts, x palettes of topic scores, variances, offsets, word "
        "distributions, prior means and covariances (for the model with features: 0/1 and graded features, dense and sparse, weights and latent features) x 2-3 topics x 32/64-bit "
        "numbers: 1, 2 and 5 iterations of querying and training against independent updates, the bound against its definition and, for two topics, against the exact log-probability "
        "of the words, and after every iteration of queries; queries of up to 60 iterations against the stopping rule; every document alone, in reverse "
        "order and among others; all histories of training, querying and copying to depth 3 (thorough 4); ladders to 60 documents, 150 words, 25 topics.")
ASSUMPTIONS = ["the words and features are stored in the precision of the model, which is 64 bits unless stated", "every topic gives every word some probability",
               "in the model with features the covariance of the topics is diagonal, as training leaves it"]


def mdl(kind):
    if kind == "ctm":
        import sidetopics.model.ctm as m
    else:
        import sidetopics.model.stm_yv as m
    return m


def lam(means, varcs, s):
    """The curvature of the bound at the point which makes it tightest."""
    xi = np.sqrt((means - s[:, None]) ** 2 + varcs)
    return (1 / (1 + np.exp(-xi)) - 0.5) / (2 * xi), xi


class Par:
    """Parameters of a model and of a query state, and the steps which move them."""

    def __init__(self, kind, words, K, which, dt, feats=None, P=1, offset=0, prior=1.1, sparse=True, start=None, cov=None):
        self.kind, self.words, self.dt, self.K, self.P, self.prior, self.sparse = kind, np.asarray(words, dtype=float), dt, K, P, prior, sparse
        D, T = self.words.shape
        r = lambda x: np.asarray(np.array(x, dtype=dt), dtype=float)
        self.vocab = r(ref.words_of(K, T, which % 2))
        self.means = r(ref.scores(D, K, 1 + which % 2 if start is None else start))
        self.varcs = r(0.2 + 2 * distinct(D * K, 53).reshape(D, K))
        self.s = r(offset * (distinct(D, 3) - 0.5))
        self.lxi = lam(self.means, self.varcs, self.s)[0]
        c = which % 4 if cov is None else cov
        self.cov = r(ref.covariance(K, c) if kind == "ctm" else np.diag(np.diag(ref.covariance(K, c))))
        self.mean = r(ref.mean_of(K, which % 3))
        if kind == "stm":
            self.feats = np.asarray(feats, dtype=float)
            F = self.feats.shape[1]
            self.fv, self.lfv = 0.7, 1.3
            self.Y, self.V = r(distinct(K * P, 41).reshape(K, P) - 1.5), r(distinct(P * F, 43).reshape(P, F) - 1.5)
            self.A, self.RY = r(distinct(K * F, 47).reshape(K, F) - 1.5), r(self.lfv * np.eye(P))

    def data(self, rows=None):
        from sidetopics.model.common import DataSet
        rows = range(len(self.words)) if rows is None else rows
        w = ssp.csr_matrix(self.words[list(rows)].astype(self.dt))
        if self.kind == "ctm":
            return DataSet(w)
        f = self.feats[list(rows)].astype(self.dt)
        return DataSet(w, feats=ssp.csr_matrix(f) if self.sparse else f)

    def model(self):
        m, dt, T = mdl(self.kind), self.dt, self.words.shape[1]
        from sidetopics.model.common import DataSet
        a = lambda x: np.array(x, dtype=dt)
        np.random.seed(7)
        long = ssp.csr_matrix(np.full((1, T), 2000).astype(dt))
        if self.kind == "ctm":
            return m.newModelAtRandom(DataSet(long), self.K, vocabPrior=self.prior, dtype=dt)._replace(topicMean=a(self.mean), sigT=a(self.cov), vocab=a(self.vocab))
        f = np.ones((1, self.feats.shape[1]), dtype=dt)
        return m.newModelAtRandom(DataSet(long, feats=f), self.P, self.K, self.fv, self.lfv, vocabPrior=self.prior, dtype=dt)._replace(
            Y=a(self.Y), V=a(self.V), A=a(self.A), R_Y=a(self.RY), sigT=a(self.cov), vocab=a(self.vocab))

    def state(self, ds, model, rows=None):
        rows = list(range(len(self.words)) if rows is None else rows)
        a = lambda x: np.array(x[rows], dtype=self.dt)
        return mdl(self.kind).newQueryState(ds, model)._replace(means=a(self.means), varcs=a(self.varcs), s=a(self.s), lxi=a(self.lxi))

    def put(self):
        ds, model = self.data(), self.model()
        return ds, model, self.state(ds, model)

    def pull(self):
        return self.mean[None, :] + 0 * self.means if self.kind == "ctm" else self.feats @ self.A.T

    def variances(self, inv):
        return 1 / (2 * self.words.sum(axis=1)[:, None] * self.lxi + np.diag(inv))

    def scores(self, S, inv, pull):
        n = self.words.sum(axis=1)
        rhs = n[:, None] * (2 * self.s[:, None] * self.lxi - 0.5) + S + pull @ inv
        return np.array([np.linalg.solve(inv + np.diag(2 * n[d] * self.lxi[d]), rhs[d]) for d in range(len(n))]).reshape(self.means.shape)

    def query(self, n):
        inv, pull = np.linalg.inv(self.cov), self.pull()
        for _ in range(n):
            self.means = self.scores(ref.shares(self.words, self.means, self.vocab), inv, pull)
            self.varcs = self.variances(inv)
            self.lxi = lam(self.means, self.varcs, self.s)[0]
            if self.kind == "ctm":
                self.s = (2 * (self.lxi * self.means).sum(axis=1) + 0.5 * self.K - 1) / (2 * self.lxi.sum(axis=1))
        return self

    def train(self, n):
        (D, _), K = self.words.shape, self.K
        self.s = 0 * self.s
        for _ in range(n):
            S0 = ref.shares(self.words, self.means, self.vocab)
            if self.kind == "ctm":
                k = K + 2
                self.mean = self.means.sum(axis=0) / (D + k)
                self.cov = np.diag(np.diag(oas(self.means)[0]) + self.varcs.mean(axis=0) + 0.1 + k * D / (k + D) * self.mean ** 2)
                inv = np.linalg.inv(self.cov)
                self.vocab = ref.vocabulary(self.words, self.means, self.vocab, self.prior)
                S = ref.shares(self.words, self.means, self.vocab)
                pull, varcs = self.pull(), self.variances(inv)
                self.means, self.varcs = self.scores(S, inv, pull), varcs
                self.means = self.means - self.means[:, :1]
            else:
                X, (_, F), P = self.feats, self.feats.shape, self.P
                off, res = self.A - self.Y @ self.V, self.means - self.pull()
                cov = self.Y @ self.Y.T / self.lfv + off @ off.T / self.fv + res.T @ res + np.diag(self.varcs.sum(axis=0))
                self.cov = np.diag(np.diag(cov)) / (P + F + D) + 0.001 * np.eye(K)
                inv = np.linalg.inv(self.cov)
                self.vocab = ref.vocabulary(self.words, self.means, self.vocab, self.prior)
                self.V = np.linalg.solve(self.RY + self.Y.T @ inv @ self.Y, self.Y.T @ inv @ self.A)
                self.RY = np.linalg.inv(np.eye(P) / self.lfv + self.V @ self.V.T / self.fv)
                self.Y = self.A @ self.V.T @ self.RY / self.fv
                self.A = np.linalg.solve(X.T @ X + np.eye(F) / self.fv, (self.Y @ self.V / self.fv + self.means.T @ X).T).T
                means = self.scores(S0, inv, self.pull())
                self.varcs, self.means = self.variances(inv), means
            self.lxi = lam(self.means, self.varcs, self.s)[0]
        return self

    def bound(self):
        """Lower bound to the log-probability of the words of each document."""
        inv, n, m, v, s = np.linalg.inv(self.cov), self.words.sum(axis=1), self.means, self.varcs, self.s
        l, xi = lam(m, v, s)
        diff = m - self.pull()
        prior = -0.5 * (np.linalg.slogdet(self.cov)[1] + (diff @ inv * diff).sum(axis=1) + (v * np.diag(inv)).sum(axis=1))
        entropy = 0.5 * (self.K + np.log(v).sum(axis=1))
        top = m.max(axis=1, keepdims=True)
        like = np.where(self.words > 0, self.words * (np.log(np.exp(m - top) @ self.vocab) + top), 0).sum(axis=1)
        lse = s + (0.5 * (m - s[:, None] - xi) + l * ((m - s[:, None]) ** 2 + v - xi ** 2) + np.logaddexp(0, xi)).sum(axis=1)
        return prior + entropy + like - n * lse

    def evidence(self):
        """For two topics: the log-probability itself, by integrating over the difference of the two scores."""
        c = np.array([-1.0, 1.0])
        mu, sd = self.pull() @ c, np.sqrt(c @ self.cov @ c)
        u = np.linspace(-12, 12, 4001)
        delta = mu[:, None] + sd * u
        th = np.stack([np.zeros_like(delta), delta], axis=2)
        th = np.exp(th - th.max(axis=2, keepdims=True))
        th /= th.sum(axis=2, keepdims=True)
        ll = np.einsum("dt,dut->du", self.words, np.log(th @ self.vocab))
        top = ll.max(axis=1, keepdims=True)
        w = np.exp(-0.5 * u * u) / np.sqrt(2 * np.pi) * (u[1] - u[0])
        return np.log((np.exp(ll - top) * w).sum(axis=1)) + top[:, 0]


def tol(dt):
    return 1e-8 if dt is np.float64 else 4e-4


def plan(m, n, freq=0):
    return m.newTrainPlan(iterations=n, logFrequency=freq, debug=False)


def arrays(t):
    return snapshot(*[x for x in t if isinstance(x, np.ndarray)])


def check_state(ctx, p, q, what, t):
    size = 1 + abs(p.means).max()
    ctx.close(q.means, p.means, what + "-scores", rtol=t, atol=t * size)
    ctx.close(q.varcs, p.varcs, what + "-variances", rtol=t, atol=t)
    ctx.close(q.docLens, p.words.sum(axis=1), "document-lengths")


def check_model(ctx, p, model, t):
    ctx.close(model.vocab, p.vocab, "trained-words", rtol=t, atol=t)
    ctx.close(model.sigT, p.cov, "trained-covariance", rtol=t, atol=t * abs(p.cov).max())
    for field, want in (("topicMean", p.mean),) if p.kind == "ctm" else (("A", p.A), ("Y", p.Y), ("V", p.V)):
        ctx.close(getattr(model, field), want, "trained-" + field, rtol=t, atol=t * (1 + abs(want).max()))


def likelihood(p):
    return float(np.where(p.words > 0, p.words * np.log(ref.soft(p.means) @ p.vocab), 0).sum())


def one(ctx, make, n):
    """make() -> Par"""
    p = make()
    m, t = mdl(p.kind), tol(p.dt)
    exact = p.dt is np.float64
    ok, r = ctx.call("state-raised", p.put)
    if not ok:
        return
    ds, model, q = r
    frozen = [snapshot(ds.words, q.means, q.varcs, q.s, q.lxi, q.docLens), arrays(model)]
    ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
    if ok:
        ctx.close(float(ll), likelihood(p), "likelihood", rtol=t, atol=t * (1 + p.words.sum()))
    if p.kind == "ctm":
        ok, vb = ctx.call("bound-raised", m.var_bound, ds, model, q)
        if ok:
            ctx.close(float(vb), p.bound().sum(), "bound", rtol=10 * t, atol=10 * t * (1 + p.words.sum() * (1 + abs(p.means).max() ** 2)))
        if p.K == 2 and exact:
            ctx.expect(bool(np.all(p.bound() <= p.evidence() + 1e-6)), "no-lower-bound", [p.bound(), p.evidence()])
    ctx.expect(frozen == [snapshot(ds.words, q.means, q.varcs, q.s, q.lxi, q.docLens), arrays(model)], "measuring-altered-state")
    # a query
    was = float(p.bound().sum()) if p.kind == "ctm" else None
    ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, n))
    if ok:
        p.query(n)
        check_state(ctx, p, r[1], "query", t)
        ctx.expect(frozen[1] == arrays(model) == arrays(r[0]), "query-altered-model")
        if p.kind == "ctm" and exact:
            now = float(m.var_bound(ds, r[0], r[1]))
            ctx.close(now, p.bound().sum(), "bound-after-query", rtol=1e-7, atol=1e-7 * (1 + p.words.sum() * (1 + abs(p.means).max() ** 2)))
            ctx.expect(now >= was - 1e-7 * (1 + abs(was)), "query-lowered-the-bound", [was, now])
        # and on from there
        ok, r = ctx.call("query-raised", m.query, ds, r[0], r[1], plan(m, 1))
        if ok:
            check_state(ctx, p.query(1), r[1], "second-query", 2 * t)
    # training
    for freq in (0, 1):
        p = make()
        ds, model, q = p.put()
        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, n, freq))
        if not ok:
            continue
        p.train(n)
        check_state(ctx, p, r[1], "trained", t)
        check_model(ctx, p, r[0], t)
        ctx.expect(snapshot(ds.words) == snapshot(p.data().words), "training-altered-data")
        iters, bounds, likes = (np.asarray(x, dtype=float) for x in r[2])
        ctx.expect(len(iters) == len(bounds) == len(likes) == (n if freq else 0), "trace-lengths", [iters, bounds, likes])
        if freq and len(likes):
            ctx.close(likes[-1], likelihood(p), "trace-of-likelihoods", rtol=10 * t, atol=10 * t * (1 + p.words.sum()))
            if p.kind == "ctm":
                ctx.close(bounds[-1], p.bound().sum(), "trace-of-bounds", rtol=20 * t, atol=20 * t * (1 + p.words.sum() * (1 + abs(p.means).max() ** 2)))


def features(D, i):
    F = 1 + i % 3
    if i % 2:
        return (((np.arange(D)[:, None] * 3 + np.arange(F)[None, :] * 2 + i) % 5) < 3).astype(float)
    return np.round(distinct(D * F, 17 + i % 4).reshape(D, F) - 1.2, 3)


def steps(ctx, kind, mats, keep):
    i = 0
    for words in mats:
        D, T = words.shape
        for K in (2, 3):
            i += 1
            for which, start in itertools.product(range(12), range(5)):
                i += 1
                if (i + which) % 5 >= keep:
                    continue
                dt = np.float32 if i % 7 == 0 and start < 2 else np.float64
                n, prior, offset = (1, 2, 5)[i % 3] if dt is np.float64 else 1, (1.1, 0.01, 3)[i % 4 % 3], (0, 2.5)[i % 2]
                if kind == "stm":
                    offset = 0
                key = (kind, words.tolist(), K, which, start, n, prior, offset, np.dtype(dt).name, i % 12)
                ctx.case(key)
                ctx.state(repr(key))
                ctx.ran(bool(words.sum()))
                ctx.step(4 * n + 1)
                one(ctx, lambda: Par(kind, words, K, which, dt, features(D, i), 1 + i % 2, offset, prior, i % 4 > 1, start), n)
    ctx.sample({"model": kind, "words": words, "topics": K})


def ladder(ctx, cases):
    for kind, D, T, K, scale, which, dt in cases:
        words = ref.ladder_words(D, T) * scale
        key = ("ladder", kind, D, T, K, scale, which, np.dtype(dt).name)
        ctx.case(key)
        ctx.state(key)
        ctx.ran()
        ctx.step(9)
        n = 3 if dt is np.float64 else 1
        one(ctx, lambda: Par(kind, words, K, which, dt, features(D, D + which), 2, 0, 1.1, which % 2 == 0, 1), n)
    ctx.sample({"documents": D, "vocabulary": T, "topics": K})


def together(ctx, kind, mats):
    """A document's scores do not depend on the company it keeps while the query runs for as long."""
    m = mdl(kind)
    for words in mats:
        D, T = words.shape
        for K, which in itertools.product((2, 3), (0, 5, 6)):
            ctx.case(("company", kind, words.tolist(), K, which))
            ctx.state(("company", kind, words.tobytes(), words.shape, K, which))
            ctx.ran()
            p = Par(kind, words, K, which, np.float64, features(D, which + D), 2, start=(1, 4)[which % 2])
            out = {}
            for rows in [list(range(D)), list(range(D))[::-1]] + [[d] for d in range(D)] + [[0] * 3]:
                ctx.step()
                ds, model = p.data(rows), p.model()
                ok, r = ctx.call("query-raised", m.query, ds, model, p.state(ds, model, rows), plan(m, 7))
                if not ok:
                    continue
                for d, s in zip(rows, np.asarray(r[1].means)):
                    out.setdefault(d, []).append(s)
            for d, ss in out.items():
                for s in ss[1:]:
                    ctx.close(s, ss[0], "company-changes-a-document", rtol=1e-7, atol=1e-8)
            if D < 2:
                continue
            # training: the sequence of the documents is all the same
            back, res = list(range(D))[::-1], []
            for rows in (list(range(D)), back):
                ctx.step()
                ds, model = p.data(rows), p.model()
                ok, r = ctx.call("train-raised", m.train, ds, model, p.state(ds, model, rows), plan(m, 3))
                if ok:
                    res.append((np.asarray(r[1].means)[np.argsort(rows)], r[0].vocab, r[0].sigT))
            if len(res) == 2:
                for a, b in zip(*res):
                    ctx.close(a, b, "order-changes-training", rtol=1e-6, atol=1e-7)
    ctx.sample({"words": words})


def stopping(ctx, kind, cases):
    """Long queries: the bound at every step, and when a query may stop."""
    m = mdl(kind)
    for words, K, which in cases:
        words = np.asarray(words, dtype=float)
        D = len(words)
        ctx.case(("long", kind, words.tolist() if words.size < 20 else words.shape, K, which))
        ctx.state(("long", kind, words.tobytes(), words.shape, K, which))
        make = lambda: Par(kind, words, K, which, np.float64, features(D, which), 2)
        p = make()
        traj, perps = [], []
        for _ in range(60):
            p.query(1)
            traj.append(p.means)
            perps.append(ref.perplexity(words, p.means, p.vocab))
        for n in (10, 21, 22, 60):
            ctx.ran()
            ctx.step(n)
            ds, model, q = make().put()
            ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, n))
            if not ok:
                continue
            allowed = [i for i in range(1, n + 1) if i == n or (i > 21 and perps[i - 2] - perps[i - 1] < 1 + 1e-6)]
            got = np.asarray(r[1].means, dtype=float)
            ctx.expect(any(np.allclose(got, traj[i - 1], rtol=1e-6, atol=1e-7) for i in allowed), "query-stopped-elsewhere", {"iterations": n, "got": got, "wanted": traj[n - 1]})
        if kind == "ctm":
            ds, model, q = make().put()
            last = float(m.var_bound(ds, model, q))
            for i in range(40):
                ctx.ran()
                ctx.step()
                ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, 1))
                if not ok:
                    break
                q = r[1]
                now = float(m.var_bound(ds, model, q))
                if not ctx.expect(now >= last - 1e-8 * (1 + abs(last)), "query-lowered-the-bound", [i, last, now]):
                    break
                last = now
            if K == 2:
                top = float(make().evidence().sum())
                ctx.expect(last <= top + 1e-6 * (1 + abs(top)), "no-lower-bound", [last, top])
    ctx.sample({"words": words, "topics": K})


def measured(ctx, cases):
    """Training whose progress is measured ends past some iterations once the perplexity fell by less than one."""
    early = late = 0
    for kind, share, eps in cases:
        m = mdl(kind)
        words = two_kinds(share)
        D, T = words.shape

        def run(n, freq):
            p = Par(kind, words, 2, 0, np.float64, features(D, 1), 1, prior=0.1, start=0)
            p.vocab = nearly_even(2, T, eps)
            p.mean = np.zeros(2)
            ds, model, q = p.put()
            return m.train(ds, model, q, plan(m, n, freq))

        def close(r, want, kind):
            ctx.close(r[1].means, want[1].means, kind, rtol=1e-8, atol=1e-10)
            ctx.close(r[0].vocab, want[0].vocab, kind, rtol=1e-8)
        ds = Par(kind, words, 2, 0, np.float64, features(D, 1), 1).data()
        e, l = watch(ctx, ("measured", kind, share, eps), run, lambda r: float(np.exp(-m.log_likelihood(ds, r[0], r[1]) / words.sum())), close,
                     (1, 5, 10, 25, 26), (20, 40, 66, 90), 29 if kind == "ctm" else 50, 2)
        early, late = early + e, late + l
    ctx.note("runs ended early", early)
    ctx.note("measurements after which they went on", late)


def histories(ctx, kind, depth):
    """T/t train, Q query others, S query the documents trained on, C go on with a copy."""
    m = mdl(kind)
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 1, 4]], dtype=float)
    other = np.array([[0, 0, 1, 1], [3, 1, 0, 0]], dtype=float)
    for K in (2, 3):
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQSC", repeat=n):
                if ops[-1] == "C":
                    continue
                ctx.case(("history", kind, K, "".join(ops)))
                ctx.state(("history", kind, K, ops))
                ctx.ran()
                p = Par(kind, words, K, 3, np.float64, features(4, 2), 2)
                ds, model, q = p.put()
                for op in ops:
                    ctx.step()
                    if op in "Tt":
                        its = 1 if op == "T" else 2
                        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, its))
                        if not ok:
                            break
                        model, q = r[0], r[1]
                        p.train(its)
                    elif op == "C":
                        old = model
                        model = m.newModelFromExisting(model)
                        ctx.expect(arrays(model) == arrays(old), "copy-differs")
                        for x in old:
                            if isinstance(x, np.ndarray) and x.ndim:
                                x[...] = 77.0
                    else:
                        before = arrays(model)
                        if op == "S":
                            ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, 2))
                            if not ok:
                                break
                            q = r[1]
                            p.query(2)
                        else:
                            o = Par(kind, other, K, 3, np.float64, features(2, 5), 2)
                            for x in ("vocab", "cov") + (("mean",) if kind == "ctm" else ("A",)):
                                setattr(o, x, getattr(p, x))
                            ds2 = o.data()
                            ok, r = ctx.call("query-raised", m.query, ds2, model, o.state(ds2, model), plan(m, 3))
                            if not ok:
                                break
                            check_state(ctx, o.query(3), r[1], "history-query", 1e-7)
                        ctx.expect(arrays(model) == before, "history-query-altered-model")
                    check_model(ctx, p, model, 1e-7)
                    check_state(ctx, p, q, "history", 1e-7)
    ctx.sample({"depth": depth})


def fresh(ctx, cases):
    for kind, words, K, dt in cases:
        m = mdl(kind)
        words = np.asarray(words, dtype=float)
        D, T = words.shape
        ctx.case(("fresh", kind, words.shape, K, np.dtype(dt).name))
        ctx.state(("fresh", kind, words.tobytes(), words.shape, K, np.dtype(dt).name))
        ctx.ran()
        ctx.step()
        long = np.vstack([words, np.full((1, T), 400.0 + T)])
        p = Par(kind, long, K, 0, dt, features(D + 1, 2), 2)
        ds = p.data()
        np.random.seed(11)
        args = (ds, K) if kind == "ctm" else (ds, 2, K, 0.7, 1.3)
        ok, model = ctx.call("model-raised", m.newModelAtRandom, *args, dtype=dt)
        if not ok:
            continue
        e = 1e-9 if dt is np.float64 else 1e-4
        w = np.asarray(model.vocab, dtype=float)
        ctx.expect(w.shape == (K, T) and bool((w >= 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < e)), "initial-words", w)
        ok, q = ctx.call("query-state-raised", m.newQueryState, ds, model)
        if not ok:
            continue
        ctx.close(q.docLens, long.sum(axis=1), "document-lengths")
        ctx.expect(np.asarray(q.means).shape == (D + 1, K) and bool(np.isfinite(q.means).all()), "initial-scores", q.means)
        f = lambda x: np.array(x, dtype=float)
        ctx.close(q.lxi, lam(f(q.means), f(q.varcs), f(q.s))[0], "initial-curvature", rtol=1e-6 if dt is np.float64 else 1e-3)
        ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
        if ok:
            idx = [i for i, x in enumerate(model) if isinstance(x, np.ndarray)]
            ctx.expect(arrays(cp) == arrays(model), "copy-differs")
            for i in idx:
                ctx.expect(not np.shares_memory(cp[i], model[i]), "copy-shares", {"field": i})
        p.vocab, p.cov, p.means, p.varcs, p.s, p.prior = f(model.vocab), f(model.sigT), f(q.means), f(q.varcs), f(q.s), float(model.vocabPrior)
        p.lxi = lam(p.means, p.varcs, p.s)[0]
        if kind == "ctm":
            p.mean = f(model.topicMean)
        else:
            p.A, p.Y, p.V, p.RY = f(model.A), f(model.Y), f(model.V), f(model.R_Y)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, 3, 2))
        if ok:
            p.train(3)
            check_model(ctx, p, r[0], 3 * tol(dt))
            check_state(ctx, p, r[1], "trained", 10 * tol(dt))
            ctx.expect(list(np.asarray(r[2][0])) == [0, 2], "trace", r[2][0])
    ctx.sample({"words": words, "topics": K})


def coefficients(ctx):
    """lambda(xi) of a given xi, of that derived from scores, of all documents and of one."""
    import sidetopics.model.ctm as m
    for D, K, dt in itertools.product((1, 2, 5), (2, 3, 7), (np.float64, np.float32)):
        for start, off in itertools.product(range(5 if dt is np.float64 else 2), (0, 2.5)):
            ctx.case(("coefficients", D, K, start, off, np.dtype(dt).name))
            ctx.state(("coefficients", D, K, start, off, np.dtype(dt).name))
            ctx.ran()
            ctx.step(2 + D)
            t = 1e-9 if dt is np.float64 else 1e-4
            means, varcs, s = (np.array(x, dtype=dt) for x in (ref.scores(D, K, start), 0.2 + 2 * distinct(D * K, 53).reshape(D, K), off * (distinct(D, 3) - 0.5)))
            want, xi = lam(*(x.astype(float) for x in (means, varcs, s)))
            for what, args, w in [("of-xi", None, want), ("of-all", (means, varcs, s), want)] + [("of-one", (means, varcs, s, d), want[d]) for d in range(D)]:
                ok, got = ctx.call("coefficient-raised", *((m.negJakkola, xi) if args is None else (m.negJakkolaOfDerivedXi, *args)))
                if ok:
                    ctx.close(got, w, "coefficient-" + what, rtol=10 * t, atol=t * 1e-3)
    ctx.sample({"documents": D, "topics": K})


def corpora(thorough):
    mats = []
    for D, T in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)) + (((3, 2),) if thorough else ()):
        mats += list(count_matrices(D, T, (0, 1, 2)))
    mats += list(count_matrices(2, 3, (0, 2) if not thorough else (0, 1, 2))) + list(count_matrices(3, 3, (0, 1)))[::2 if thorough else 29]
    mats += list(count_matrices(2, 2, (0, 0.5, 1.75)))
    return [np.asarray(x, dtype=float) for x in mats if x.sum()]


def tasks(tier, seed):
    thorough = tier == "thorough"
    mats = corpora(thorough)
    out = [("steps-%s-%d" % (k, i), steps, (k, c, 3 if thorough else 1)) for k in ("ctm", "stm") for i, c in enumerate(chunks(mats, 16 if thorough else 8))]
    big = [(kind, d, t, k, s, c, dt) for kind in ("ctm", "stm") for d, t, k in ((5, 8, 2), (13, 21, 5), (30, 64, 8), (60, 150, 25), (1, 150, 12), (60, 3, 3))
           for s in (1, 50) for c in (0, 1, 2) for dt in (np.float64, np.float32) if not (dt is np.float32 and s > 1)]
    out += [("ladder-%d" % i, ladder, (c,)) for i, c in enumerate(chunks(big, 4))]
    out += [("together-%s-%d" % (k, i), together, (k, c)) for k in ("ctm", "stm") for i, c in enumerate(chunks([x for x in mats if len(x) > 1][::1 if thorough else 4], 2))]
    longs = [(w, k, c) for w in list(count_matrices(2, 2, (0, 1, 3)))[1:] + [ref.ladder_words(9, 14), 5 * ref.ladder_words(20, 30)] for k in (2, 3) for c in ((0, 1, 6, 11) if thorough else (1, 6))]
    out += [("stopping-%s-%d" % (k, i), stopping, (k, c)) for k in ("ctm", "stm") for i, c in enumerate(chunks(longs, 4))]
    slow = [(k, s, e) for k in ("ctm", "stm") for s in (0, 4) for e in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9, 1e-11)]
    out += [("measured-%d" % i, measured, (c,)) for i, c in enumerate(chunks(slow, 4))]
    out += [("histories-" + k, histories, (k, 4 if thorough else 3)) for k in ("ctm", "stm")]
    fr = [(kind, w, k, dt) for kind in ("ctm", "stm") for w in (np.ones((1, 3)), np.array([[1, 0, 2], [0, 0, 0]]), ref.ladder_words(6, 9), ref.ladder_words(40, 80), 30 * ref.ladder_words(12, 33))
          for k in (2, 3, 6, 15) for dt in (np.float64, np.float32)]
    out += [("fresh", fresh, (fr,)), ("coefficients", coefficients, ())]
    return out
