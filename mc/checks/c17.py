"""C17 topic-model estimators: every history of fitting, transforming, resuming and scoring, and what scores mean."""
import itertools
import logging
import pickle
import numpy as np
import scipy.sparse as ssp
from scipy.special import logsumexp

from ..space import chunks, distinct, snapshot

PROPERTY = "C17"
LEVEL = "model_checking"
NATIVE = ["lda_cvb_fast", "lda_cvb0_fast", "lda_gibbs_fast", "lda_vb_fast", "se_fast", "sig_fast"]
KINDS = ("LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS")
RULE = ("For six kinds of model: every sequence of operations {fit, fit and keep, fit resuming, transform, transform and keep, transform resuming, fit_transform, "
        "score, score by document completion, on either of two corpora} to depth 3 (thorough 4), in lock-step with a model of the estimator which drives the learning modules "
        "itself under the same seeds; every scoring method x way of giving assignments x number type x container; per-document likelihoods for "
        "all small corpora x palettes of weightings and components, uneven and nearly certain ones included; copies, clones, pickles and parameters.")
ASSUMPTIONS = ["documents have words in both halves where they are split", "kinds LDA_VB and LDA_SVB, which do not run at this commit, are left out"]
ITER, QITER = 3, 2


def lib():
    logging.disable(logging.CRITICAL)
    import sidetopics.model.sklearn as s
    return s


def corpus(which, dt=np.float64, raw=False, alike=False):
    from sidetopics.model.common import DataSet
    i, j = np.arange(4 + (0 if alike else which))[:, None], np.arange(6)[None, :]
    w = 4 * (((i * 7 + j * 5 + i * j + which) % 4) * 30 + 10 + (i + 2 * j + which) % 7)
    w = ssp.csr_matrix(w.astype(dt))
    return w if raw else DataSet(w)


def seed_all(n):
    import sidetopics.model.lda_gibbs as g
    g.seed_rng(n)
    np.random.seed(n)


def new(kind, **kw):
    s = lib()
    return s.TopicModel(kind, n_components=3, **dict(dict(iterations=ITER, query_iterations=QITER), **kw))


class Model:
    """What an estimator is meant to do, in terms of the learning modules."""

    def __init__(self, kind):
        s = lib()
        self.kind, self.m = kind, s.TopicModelType[kind].value
        self.state, self.kept, self.kept_x, self.version = None, None, None, 0

    def plan(self, n):
        if self.kind == "LDA_GIBBS":
            return self.m.newTrainPlan(iterations=n, burnIn=-1, thin=-1, logFrequency=0)
        return self.m.newTrainPlan(iterations=n, epsilon=0.1, logFrequency=0)

    def start(self, X, resume):
        return self.kept if resume else self.m.newQueryState(X, self.state)

    def keep(self, X, q, keep):
        self.kept, self.kept_x = (q, X) if keep else (None, None)

    def fit(self, X, keep=False, resume=False, n=ITER):
        if self.state is None:
            self.state = self.m.newModelAtRandom(data=X, K=3, topicPrior=None, vocabPrior=None)
        q = self.start(X, resume)
        self.state, q = self.m.train(X, self.state, q, self.plan(n))[:2]
        self.keep(X, q, keep)
        self.version += 1

    def transform(self, X, keep=False, resume=False, n=QITER):
        q = self.start(X, resume)
        _, q = self.m.query(X, self.state, q, self.plan(n))
        self.keep(X, q, keep)
        return np.array(self.m.topicDists(q))

    def components(self):
        return np.array(self.m.wordDists(self.state))


def likelihoods(kind, words, y, phi):
    words, y, phi = (np.asarray(a, dtype=np.float64) for a in (words, y, phi))
    with np.errstate(divide="ignore", invalid="ignore"):
        if kind.startswith("MOM"):
            return logsumexp(words @ np.log(np.maximum(phi, 1e-300)).T + np.log(np.maximum(y, 1e-300)), axis=1)
        return np.where(words > 0, words * np.log(y @ phi), 0.0).sum(axis=1)


def tolerance(y, phi):
    return 1e-8 if np.asarray(y).dtype == np.float64 and np.asarray(phi).dtype == np.float64 else 2e-4


OPS = ("fit", "fit-keep", "fit-resume", "transform", "transform-keep", "transform-resume", "fit_transform", "score", "complete", "swap")


def histories(ctx, kind, depth, prefix=()):
    s = lib()
    for n in range(len(prefix) or 1, depth + 1):
        for ops in itertools.product(OPS, repeat=n - len(prefix)):
            ops = tuple(prefix) + ops
            if ops[-1] == "swap" or any(a == b == "swap" for a, b in zip(ops, ops[1:])):
                continue
            ctx.case((kind, ops))
            ctx.state((kind, ops))
            ctx.ran()
            history(ctx, s, kind, ops)
            if "swap" in ops:
                history(ctx, s, kind, ops, alike=True)
    ctx.sample({"kind": kind, "operations": ops})


def history(ctx, s, kind, ops, alike=False):
    """alike: the other corpus has as many documents as the first."""
    est, ref = new(kind, seed=5), Model(kind)
    Xs = [corpus(0), corpus(1, alike=alike)]
    Rs = [corpus(0), corpus(1, alike=alike)]      # the model has corpora of its own
    frozen = [snapshot(X.words) for X in Xs]
    cur, out = 0, []
    for i, op in enumerate(ops):
        ctx.step()
        if op == "swap":
            cur = 1 - cur
            continue
        X, R = Xs[cur], Rs[cur]
        sig = kind + "-" + op
        seed_all(100 + i)
        fitted = ref.state is not None
        legal = (fitted or op.startswith("fit")) and (not op.endswith("resume") or (ref.kept_x is R))
        name, _, how = op.partition("-")
        kw = {"keep": {"persist_query_state": True}, "resume": {"resume": True, "persist_query_state": True}, "": {}}[how]
        before = snapshot(ref.components()) if fitted else None
        call = {"fit": lambda: est.fit(X, **kw), "transform": lambda: est.transform(X, **kw), "fit_transform": lambda: est.fit_transform(X),
                "score": lambda: est.score(X), "complete": lambda: est.score(X, method=s.ScoreMethod.DocCompletionLogLikelihoodPoint)}[name]
        if not legal:
            if name == "fit" and not fitted:       # resuming an estimator that was never fitted
                ctx.raises(sig + "-accepted", ValueError, call)
                return
            ctx.raises(sig + "-accepted", ValueError, call)
        else:
            ok, got = ctx.call(sig + "-raised", call)
            if not ok:
                return
            seed_all(100 + i)
            if name == "fit":
                ref.fit(R, bool(kw), how == "resume")
                ctx.expect(got is est, sig + "-returned-other")
            elif name == "fit_transform":
                ref.fit(R, True)
                out.append((got, np.array(got)))
                compare(ctx, sig, got, ref.transform(R, False, True))
            elif name == "transform":
                want = ref.transform(R, bool(kw), how == "resume")
                compare(ctx, sig, got, want)
                out.append((got, np.array(got)))
            else:
                kept = ref.kept, ref.kept_x
                I = R
                if name == "complete":
                    I, R2 = R.doc_completion_split()
                    seed_all(100 + i)
                else:
                    R2 = R
                y = ref.transform(I)
                ref.kept, ref.kept_x = kept
                phi = ref.components()
                want = likelihoods(kind, R2.words.toarray(), y, phi).sum()
                ctx.close(float(got), float(want), sig + "-value", rtol=tolerance(y, phi))
        if ref.state is None:
            continue
        ok, comp = ctx.call("components-raised", lambda: est.components_)
        if not ok:
            return
        compare(ctx, sig + "-components", comp, ref.components())
        if name in ("transform", "score", "complete") or not legal:
            ctx.expect(before == snapshot(ref.components()), sig + "-reference-broken")
            ctx.expect(snapshot(np.array(comp, dtype=ref.components().dtype))[0][0] == (3, 6), sig + "-shape")
        comp[...] = 0.125      # what is given out belongs to the caller
        compare(ctx, sig + "-components-written-through", est.components_, ref.components())
        ctx.expect((est.query_state_ is None) == (ref.kept is None), sig + "-kept", {"kept": est.query_state_ is not None, "want": ref.kept is not None})
        if out and name.endswith("transform") and legal:
            for g, w in out[-1:]:      # what is given out belongs to the caller
                g[...] = w[...] = 0.125
        if est.query_state_ is not None and ref.kept is not None:
            compare(ctx, sig + "-state-written-through", ref.m.topicDists(est.query_state_), ref.m.topicDists(ref.kept))
        for g, w in out:
            ctx.expect(np.array_equal(g, w), kind + "-assignments-changed-later", {"got": g, "was": w})
    ctx.expect(frozen == [snapshot(X.words) for X in Xs], kind + "-corpus-altered")


def compare(ctx, sig, got, want):
    got = np.asarray(got)
    want = np.asarray(want)
    ctx.close(got, want, sig, rtol=1e-9 if want.dtype == np.float64 else 1e-5, atol=1e-12 if want.dtype == np.float64 else 1e-7)
    ctx.close(got.sum(axis=1, dtype=np.float64), np.ones(len(got)), sig + "-not-distributions", rtol=1e-4 if got.dtype == np.float32 else 1e-8)


def scores(ctx, kind):
    """Every way to score a fitted model."""
    s = lib()
    S = s.ScoreMethod
    for dt, container in itertools.product((np.float64, np.int32, np.int64, np.float32), ("dataset", "csr", "dense")):
        if dt is np.int64 and kind.startswith("LDA_CVB"):
            continue      # a type these modules say they do not take
        ctx.case((kind, np.dtype(dt).name, container))
        ctx.state((kind, np.dtype(dt).name, container))
        est = new(kind, seed=5)
        X = corpus(0, dt)
        give = {"dataset": X, "csr": X.words.copy(), "dense": X.words.toarray()}[container]
        words = X.words.toarray().astype(np.float64)
        ctx.raises("untrained-transform", ValueError, est.transform, give)
        ctx.raises("untrained-score", ValueError, est.score, give)
        seed_all(1)
        ok, y = ctx.call(kind + "-fit-raised", est.fit_transform, X, persist_query_state=True)
        if not ok:
            continue
        comp = np.array(est.components_)
        q = est.query_state_
        tol = tolerance(y, comp)
        N = words.sum()
        weightings = [("own", np.array(y)), ("even", np.full_like(y, 1.0 / 3)), ("skewed", (distinct(y.size, 3).reshape(y.shape) / distinct(y.size, 3).reshape(y.shape).sum(axis=1, keepdims=True)).astype(y.dtype)),
                      ("other-type", np.array(y, dtype=np.float32 if y.dtype == np.float64 else np.float64))]
        state = np.random.get_state()[1].tobytes()
        for name, w in weightings:
            ctx.ran()
            ctx.step()
            want = likelihoods(kind, words, w, comp)
            t = tolerance(w, comp)
            ok, per = ctx.call(kind + "-per-document-raised", est.log_likelihood_score_point, X, w.astype(comp.dtype))
            if ok:
                ctx.close(np.asarray(per).reshape(-1), want, "per-document-likelihood", rtol=t)
                ctx.expect(np.asarray(per).shape == (len(words),), "per-document-shape", np.asarray(per).shape)
            for m in S:
                if not m.is_point_estimate():
                    ctx.raises("assignments-for-expected-score", ValueError, est.score, give, y=w, method=m)
                    continue
                total = float(want.sum())
                expected = float(np.exp(-total / N)) if m.is_perplexity() else total
                for given in (m, m.value, "  " + m.value.upper() + "\n"):
                    if name != "own" and given is not m:
                        continue
                    if name == "other-type" and not kind.startswith("MOM"):
                        continue
                    ok, got = ctx.call(kind + "-score-raised", est.score, give, y=w, method=given)
                    if ok:
                        ctx.close(float(got), expected, "score-of-assignments", rtol=t)
                ctx.raises("both-accepted", ValueError, est.score, give, y=w, y_query_state=q, method=m)
                if name == "own":
                    ok, got = ctx.call(kind + "-score-raised", est.score, give, y_query_state=q, method=m)
                    if ok:
                        ctx.close(float(got), expected, "score-of-query-state", rtol=t)
        for bad in ("", "perplexity", "log_likelihood"):
            ctx.raises("unknown-method-accepted", ValueError, est.score, give, y=y, method=bad)
        ctx.expect(np.random.get_state()[1].tobytes() == state, kind + "-scoring-used-randomness")
        # without assignments: those of a transform; by document completion: those of a transform of one half
        for m in S:
            if not m.is_point_estimate():
                continue
            ctx.ran()
            ctx.step()
            inf, ev = (X, X) if not m.is_doc_completion() else X.doc_completion_split()
            if m.is_doc_completion():
                ctx.expect(np.array_equal(inf.words.toarray().astype(float) + ev.words.toarray(), words), "halves-do-not-sum")
            seed_all(9)
            ok, y2 = ctx.call(kind + "-transform-raised", est.transform, inf)
            if not ok:
                continue
            total = float(likelihoods(kind, ev.words.toarray(), y2, comp).sum())
            expected = float(np.exp(-total / float(ev.words.sum()))) if m.is_perplexity() else total
            for dflt in (False, True):
                seed_all(9)
                if dflt:
                    est.default_scoring_method = m
                ok, got = ctx.call(kind + "-score-raised", est.score, give, **({} if dflt else {"method": m}))
                if ok:
                    ctx.close(float(got), expected, "score-without-assignments", rtol=tol)
        compare(ctx, "scoring-altered-model", est.components_, comp)
    ctx.sample({"kind": kind})


def per_document(ctx, kinds):
    """The likelihood of a document for given weightings and components."""
    s = lib()
    from sidetopics.model.common import DataSet
    for K, T in ((2, 1), (2, 3), (3, 4), (12, 40)):
        comps = [distinct(K * T, o).reshape(K, T) for o in (0, 9)] + [np.where((np.arange(K)[:, None] + np.arange(T)) % K == 0, 1.0, 1e-9)]
        for D in (1, 2, 5, 30):
            i, j = np.arange(D)[:, None], np.arange(T)[None, :]
            corpora = [((i * 3 + j * 5 + i * j) % 4), ((i + j) % 3) * 400, np.where(i == 0, 3000, 1) * (1 + j % 2), np.where(i % 2 == 1, 0, 2) + 0 * j]
            for ci, comp, (wi, w), dt in itertools.product(range(4), comps, enumerate([np.full((D, K), 1.0 / K), distinct(D * K, 4).reshape(D, K), np.where(i % K == np.arange(K)[None, :], 1.0, 1e-12)]),
                                                          (np.float64, np.int32, np.float32)):
                words, phi = corpora[ci], comp / comp.sum(axis=1, keepdims=True)
                w = w / w.sum(axis=1, keepdims=True)
                ctx.case((D, T, K, ci, wi, np.dtype(dt).name))
                ctx.state((D, T, K, ci, wi, comp.tobytes(), np.dtype(dt).name))
                X = DataSet(ssp.csr_matrix(words.astype(dt)), debug=True)
                for kind in kinds:
                    ctx.ran()
                    ctx.step()
                    ok, got = ctx.call(kind + "-likelihood-raised", point, s, kind, X, w, phi)
                    if ok:
                        want = likelihoods(kind, words, w, phi)
                        ctx.close(np.asarray(got).reshape(-1), want, "document-likelihood", rtol=1e-8, atol=1e-8)
                    if not kind.startswith("MOM"):
                        continue
                    # a single weighting for all documents
                    for one in (w[0], w[:1]):
                        ctx.step()
                        ok, got = ctx.call(kind + "-likelihood-raised", point, s, kind, X, one, phi)
                        if ok:
                            ctx.close(np.asarray(got).reshape(-1), likelihoods(kind, words, np.repeat(w[:1], D, axis=0), phi), "document-likelihood-of-one-weighting", rtol=1e-8, atol=1e-8)


def point(s, kind, X, w, phi):
    est = new(kind, seed=5)
    seed_all(3)
    est.fit(corpus(0))

    class Fixed(type(est)):
        components_ = property(lambda self: phi)
    est.__class__ = Fixed
    return est.log_likelihood_score_point(X, w)


def estimators(ctx, kind):
    """Copies, clones, pickles, parameters, seeds."""
    from sklearn.base import clone
    s = lib()
    T = s.TopicModelType[kind]
    prior = np.array([0.3, 0.7, 1.1])
    grids = [dict(), dict(n_components=4), dict(iterations=7), dict(iterations=25, query_iterations=None), dict(iterations=9, query_iterations=None), dict(iterations=1, query_iterations=None), dict(doc_topic_prior=0.4), dict(topic_word_prior=0.2), dict(doc_topic_prior=prior)]
    X = corpus(0)
    for g in grids:
        ctx.case((kind, str(g)))
        ctx.state((kind, str(g)))
        ctx.ran()
        ctx.step()
        kw = dict(dict(n_components=3, iterations=ITER, query_iterations=QITER, seed=11), **g)
        ok, a = ctx.call("estimator-raised", s.TopicModel, T, **kw)
        if not ok:
            continue
        ok, b = ctx.call("estimator-raised", s.TopicModel, kind, **kw)
        ctx.expect(a.get_params().keys() == b.get_params().keys() and all(same(a.get_params()[k], b.get_params()[k]) for k in a.get_params()), "name-and-kind-differ")
        for k, v in kw.items():
            if v is not None:
                ctx.expect(same(a.get_params()[k], v), "parameter-lost", {"name": k, "got": a.get_params()[k]})
        ctx.expect(int(a.query_iterations) >= 1, "no-query-iterations", a.query_iterations)
        if kw["query_iterations"] is None:
            ctx.expect(a.query_iterations == max(1, kw["iterations"] // 10), "query-iterations", a.query_iterations)
        # the same seed gives the same results
        outs = []
        for how in range(3):
            if how < 2:
                e = s.TopicModel(kind, **kw)
            else:
                e.set_params(seed=3)
                e = clone(e).set_params(seed=11)
            ok, y = ctx.call(kind + "-fit-raised", e.fit_transform, X, persist_query_state=True)
            if not ok:
                return
            outs.append((y, np.array(e.components_), e))
            ctx.expect(y.shape == (X.doc_count, kw["n_components"]) and outs[-1][1].shape == (kw["n_components"], 6), "shapes")
            ctx.expect(np.array_equal(y, outs[0][0]) and np.array_equal(outs[-1][1], outs[0][1]), kind + "-same-seed-differs", how)
        y, comp, e = outs[0]
        c = clone(e)
        ctx.expect(all(same(c.get_params()[k], e.get_params()[k]) for k in e.get_params()), "clone-parameters")
        ctx.raises("clone-is-fitted", ValueError, c.transform, X)
        for name, make in (("copy", e.copy), ("pickle", lambda: pickle.loads(pickle.dumps(e)))):
            ok, c = ctx.call(kind + "-" + name + "-raised", make)
            if not ok:
                continue
            ctx.expect(np.array_equal(c.components_, comp) and all(same(c.get_params()[k], e.get_params()[k]) for k in e.get_params()), kind + "-" + name + "-differs")
            seed_all(4)
            y1 = e.transform(X)
            seed_all(4)
            ok, y2 = ctx.call(kind + "-" + name + "-transform-raised", c.transform, X)
            if ok:
                ctx.close(y2, y1, kind + "-" + name + "-transforms-differently")
            seed_all(5)
            ok, _ = ctx.call(kind + "-" + name + "-fit-raised", c.fit, corpus(1), iterations=4)
            ctx.expect(np.array_equal(e.components_, comp), kind + "-" + name + "-shares-the-model")
            ctx.expect(not np.array_equal(c.components_, comp), kind + "-" + name + "-not-fitted")
        ok, c = ctx.call("copy-of-unfitted-raised", s.TopicModel(kind, **kw).copy)
        if ok:
            ctx.raises("copy-of-unfitted-is-fitted", ValueError, c.transform, X)


def wrapped(ctx):
    """The wrapper of scikit-learn's LDA is that class with the parameters it stands for; both wrappers score like a topic model."""
    from sklearn.base import clone
    from sklearn.decomposition import LatentDirichletAllocation
    from gensim.corpora import Dictionary
    from gensim.matutils import Sparse2Corpus
    from gensim.sklearn_api import HdpTransformer
    s = lib()
    S = s.ScoreMethod
    words = ["w%d" % i for i in range(6)]

    def sk(n, k):
        how = dict(learning_method="batch") if not k.get("batchSize") else dict(learning_method="online", learning_decay=k.get("rate_b", 0.5), learning_offset=k.get("rate_a", 2), batch_size=k["batchSize"])
        return LatentDirichletAllocation(n_components=3, doc_topic_prior=k.get("doc_topic_prior"), topic_word_prior=k.get("topic_word_prior"), max_iter=n, random_state=np.random.RandomState(7), **how)

    for k in (dict(), dict(doc_topic_prior=0.4), dict(topic_word_prior=0.3), dict(perp_tolerance=0.2), dict(batchSize=2), dict(batchSize=3, rate_a=5.0, rate_b=0.8)):
        for dt, container in itertools.product((np.float64, np.int32, np.int64, np.float32), ("dataset", "csr")):
            ctx.case(("scikit-learn", str(k), np.dtype(dt).name, container))
            ctx.state(("scikit-learn", str(k), np.dtype(dt).name, container))
            ctx.ran()
            X = corpus(0, dt)
            give = X if container == "dataset" else X.words
            est = s.WrappedSckitLda(n_components=3, iterations=3, seed=7, **k)
            c = clone(est)
            ctx.expect(all(same(c.get_params()[n], est.get_params()[n]) for n in est.get_params()), "wrapper-clone-parameters")
            ctx.expect(all(same(est.get_params()[n], v) for n, v in k.items()), "wrapper-parameter-lost", est.get_params())
            ok, _ = ctx.call("wrapper-fit-raised", est.fit, give)
            if not ok:
                continue
            ref = sk(3, k).fit(X.words)
            f4 = dt is np.float32
            tol = 1e-3 if f4 else 1e-8
            ctx.close(est.components_, ref.components_, "wrapper-components", rtol=tol)
            ctx.close(est.transform(give), ref.transform(X.words), "wrapper-transform", rtol=tol)
            scored(ctx, S, "wrapper", est, X, give)
            ok, y = ctx.call("wrapper-fit-raised", s.WrappedSckitLda(n_components=3, iterations=3, seed=7, **k).fit_transform, give)
            if ok:
                ctx.close(y, sk(3, k).fit_transform(X.words), "wrapper-fit-transform", rtol=tol)
            if not k.get("batchSize"):
                for a, b in ((1, 2), (2, 3), (3, 1)):      # iterations made in stages
                    ctx.step()
                    est = s.WrappedSckitLda(n_components=3, iterations=a, seed=7, **k).fit(give)
                    est.max_iter = b
                    ok, _ = ctx.call("wrapper-resume-raised", est.fit, give, resume=True)
                    if ok:
                        ctx.close(est.components_, sk(a + b, k).fit(X.words).components_, "wrapper-resume", rtol=tol)
                    est.max_iter = a
                    est.random_state = np.random.RandomState(7)
                    est.fit(give)      # and afresh after that
                    ctx.close(est.components_, sk(a, k).fit(X.words).components_, "wrapper-afresh", rtol=tol)
    for dt, container in itertools.product((np.float64, np.int32, np.float32), ("dataset", "csr")):
        for K, n in ((2, 1), (3, 2), (12, 2)):
            ctx.case(("gensim", K, n, np.dtype(dt).name, container))
            ctx.state(("gensim", K, n, np.dtype(dt).name, container))
            ctx.ran()
            X = corpus(0, dt)
            give = X if container == "dataset" else X.words
            kw = dict(n_components=K, iterations=n, seed=7)
            for more in (dict(), dict(batchSize=2), dict(expected_corpus_size=3, rate_delay=1.5, forgetting_rate=0.8), dict(batchSize=1, rate_delay=64.0, forgetting_rate=1.0)):
                ctx.step()      # what gensim's own class gives with the same
                d = Dictionary([words])
                ref = HdpTransformer(id2word=d, T=K, K=K, max_chunks=n, chunksize=more.get("batchSize") or more.get("expected_corpus_size", 10000), kappa=more.get("forgetting_rate", 0.6),
                                     tau=more.get("rate_delay", 0.6), random_state=np.random.RandomState(7))
                est = s.WrappedScikitHdp(d, **kw, **more)
                for resume in (False, True, True, False):
                    ok, _ = ctx.call("hdp-fit-raised", est.fit, give, **(dict(resume=True) if resume else {}))
                    if not ok:
                        break
                    c = Sparse2Corpus(X.words, documents_columns=False)
                    ref.partial_fit(c) if resume else ref.fit(c)
                    m = ref.gensim_model
                    ctx.close(est.components_, m.m_lambda / m.m_lambda.sum(axis=1, keepdims=True), "hdp-components-as-gensim", rtol=1e-4)
                    ok, y = ctx.call("hdp-transform-raised", est.transform, give)
                    if ok:
                        z = ref.transform([list(doc) for doc in Sparse2Corpus(X.words, documents_columns=False)])
                        ctx.close(y, np.hstack([z, np.zeros((len(z), K - z.shape[1]))]), "hdp-transform-as-gensim", rtol=1e-3, atol=1e-5)
                ok, y = ctx.call("hdp-fit-raised", s.WrappedScikitHdp(d, **kw, **more).fit_transform, give)
                if ok:
                    est = s.WrappedScikitHdp(d, **kw, **more).fit(give)
                    ctx.close(y, est.transform(give), "hdp-fit-transform", rtol=1e-4, atol=1e-5)
            est = s.WrappedScikitHdp(Dictionary([words]), **kw)
            c = clone(est)
            ctx.expect(all(same(c.get_params()[m], v) for m, v in kw.items()), "wrapper-clone-parameters")
            ok, _ = ctx.call("hdp-fit-raised", est.fit, give)
            if not ok:
                continue
            ctx.close(est.components_.sum(axis=1), np.ones(K), "hdp-components", rtol=1e-6)
            ok, y = ctx.call("hdp-transform-raised", est.transform, give)
            if ok:
                ctx.expect(y.shape == (X.doc_count, K) and (y >= 0).all() and (y.sum(axis=1) <= 1 + 1e-5).all(), "hdp-assignments", y)
                for i in range(X.doc_count):      # each document alone
                    ctx.step()
                    ok, z = ctx.call("hdp-transform-raised", est.transform, X.words[i])
                    if ok and ctx.expect(z.shape == (1, K), "hdp-assignments-of-one", z):
                        ctx.close(z[0], y[i], "hdp-assignments-of-one", rtol=1e-4, atol=1e-5)
            scored(ctx, S, "hdp", est, X, give)


def scored(ctx, S, name, est, X, give):
    w = X.words.toarray().astype(np.float64)
    K = len(est.components_)
    y = distinct(len(w) * K, 3).reshape(len(w), K)
    y /= y.sum(axis=1, keepdims=True)
    phi = np.asarray(est.components_, dtype=np.float64)
    phi = phi / phi.sum(axis=1, keepdims=True)
    like = float((w * np.log(y @ phi)).sum())
    for m in S:
        ctx.step()
        if not m.is_point_estimate():
            continue
        want = float(np.exp(-like / w.sum())) if m.is_perplexity() else like
        ok, got = ctx.call(name + "-score-raised", est.score, give, y=y, method=m)
        if ok:
            ctx.close(float(got), want, name + "-score", rtol=1e-5)
        ctx.raises(name + "-query-state-accepted", ValueError, est.score, give, y_query_state="a state", method=m)
        if name == "wrapper":      # without assignments: those of a transform, of one half for document completion
            inf, ev = (X, X) if not m.is_doc_completion() else X.doc_completion_split()
            z, v = np.asarray(est.transform(inf), dtype=np.float64), ev.words.toarray().astype(np.float64)
            l = float((v * np.log(z @ phi)).sum())
            ok, got = ctx.call(name + "-score-raised", est.score, give, method=m.value)
            if ok:
                ctx.close(float(got), float(np.exp(-l / v.sum())) if m.is_perplexity() else l, name + "-score-without-assignments", rtol=1e-4)


def same(a, b):
    return np.array_equal(a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else a == b


def methods(ctx):
    s = lib()
    S = s.ScoreMethod
    ctx.case("methods")
    want = {"log_likelihood_point": (1, 0, 0), "log_likelihood_expectation": (0, 0, 0), "perplexity_point": (1, 1, 0), "perplexity_expectation": (0, 1, 0),
            "doc_completion_log_likelihood_point": (1, 0, 1), "doc_completion_perplexity_point": (1, 1, 1)}
    for name, flags in want.items():
        for pad in itertools.product(("", " ", "\n\t"), repeat=2):
            for text in (name, name.upper(), name.title()):
                ctx.ran()
                ctx.step()
                ctx.state((name, pad, text))
                ok, m = ctx.call("method-name-raised", S.from_str, pad[0] + text + pad[1])
                if ok:
                    ctx.expect(m.value == name and (m.is_point_estimate(), m.is_perplexity(), m.is_doc_completion()) == tuple(bool(f) for f in flags), "method", name)
        for cut in range(len(name)):
            ctx.raises("part-of-a-method-name-accepted", ValueError, S.from_str, name[:cut])
    for T in s.TopicModelType:
        ctx.expect(T.is_mixture() == T.name.startswith("MOM") and T.is_admixture() != T.is_mixture(), "kind", T.name)


def tasks(tier, seed):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        if deep:
            out += [("histories-%s-%s" % (k, op), histories, (k, 4, (op,))) for op in OPS]
        else:
            out.append(("histories-" + k, histories, (k, 3)))
        out += [("scores-" + k, scores, (k,)), ("estimators-" + k, estimators, (k,))]
    return out + [("per-document", per_document, (("LDA_VB_PYTHON_IMPL", "MOM_VB"),)), ("methods", methods, ()), ("wrapped", wrapped, ())]
