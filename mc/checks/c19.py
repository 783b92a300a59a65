"""C19 correlated topic model: every step of training and querying against the maximisation it is, and what follows from it."""
import importlib
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import logistic as ref
from ..ends import watch
from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C19"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All corpora of 1-3 documents of 1-3 words with counts from {0,1,2}, empty documents included, and with fractional counts, x palettes of topic scores, word distributions, prior "
        "means and prior covariances (identity, diagonal, correlated) x 2-3 topics x full and quick mode x 32/64-bit numbers: 1, 2 and 5 iterations of querying and "
        "training against an independent maximisation of the quadratic bound; queries of up to 60 iterations against the documented stopping rule; the "
        "objective after every iteration; every document alone, in reverse order and among others; all histories of training, querying and copying "
        "to depth 4 (thorough 5); ladders to 60 documents, 150 words, 25 topics and 30000 words per document. A ninth of it (thorough: all) for the twin of the model, ctm_grad_arb.")
ASSUMPTIONS = ["training has at least two documents", "the words are stored in the precision of the model, which is 64 bits unless stated", "every topic gives every word some probability",
               "training holds the covariance of the topics at the identity, as the code does now"]


NAMES = ("ctm_bohning", "ctm_grad_arb")     # the model, and its twin of the same interface
_name = [NAMES[0]]


def mdl():
    return importlib.import_module("sidetopics.model." + _name[0])


def twin(ctx, f, *args):
    """The same exploration of the twin."""
    _name[0] = NAMES[1]
    try:
        f(ctx, *args)
    finally:
        _name[0] = NAMES[0]


def dataset(words, dt):
    from sidetopics.model.common import DataSet
    return DataSet(ssp.csr_matrix(np.asarray(words).astype(dt)))


def template(m, T, K, dt, prior):
    np.random.seed(7)
    return m.newModelAtRandom(dataset(np.full((1, T), 2000), dt), K, vocabPrior=prior, dtype=dt)


def put(m, ds, T, K, dt, prior, mean, cov, vocab, start):
    """A model and a query state with the given parameters."""
    model = template(m, T, K, dt, prior)._replace(topicMean=np.array(mean, dtype=dt), sigT=np.array(cov, dtype=dt), vocab=np.array(vocab, dtype=dt))
    q = m.newQueryState(ds, model)
    return model, q._replace(means=np.array(start, dtype=dt))


def tol(dt):
    return 1e-8 if dt is np.float64 else 3e-4


def variances(words, K, diag):
    return 1.0 / (words.sum(axis=1)[:, None] * (K - 1.0) / K + diag)


def ref_query(words, start, vocab, inv, mean, n, quick):
    var = variances(words, len(mean), np.diag(inv)) if quick else None
    out = start
    for _ in range(n):
        out = ref.climb(words, out, vocab, inv, mean[None, :], var)
    return out


def ref_train(words, start, vocab, prior, n, quick):
    K = vocab.shape[0]
    var = variances(words, K, np.ones(K)) if quick else None
    mean = None
    for _ in range(n):
        mean = start.mean(axis=0)
        vocab = ref.vocabulary(words, start, vocab, prior)
        start = ref.climb(words, start, vocab, np.eye(K), mean[None, :], var)
    return mean, vocab, start


def objective(words, mean, vocab, means, prior):
    return float(ref.per_document(words, means, vocab, np.eye(len(mean)), mean[None, :]).sum() + prior * np.log(vocab).sum())


def plan(m, n, quick=False, freq=0):
    return m.newTrainPlan(iterations=n, logFrequency=freq, fastButInaccurate=quick)


def one(ctx, m, words, K, dt, prior, mean, cov, vocab, start, n, quick):
    words = np.asarray(words, dtype=float)
    D, T = words.shape
    t = tol(dt)
    mean, cov, vocab, start = (np.asarray(np.array(x, dtype=dt), dtype=float) for x in (mean, cov, vocab, start))
    inv = np.linalg.inv(cov)
    ds = dataset(words, dt)
    ok, r = ctx.call("state-raised", put, m, ds, T, K, dt, prior, mean, cov, vocab, start)
    if not ok:
        return
    model, q = r
    ctx.close(q.docLens, words.sum(axis=1), "document-lengths")
    # what is read off
    frozen = snapshot(ds.words, *[x for x in tuple(model) if isinstance(x, np.ndarray)], q.means, q.docLens)
    ok, th = ctx.call("topics-raised", m.topicDists, q)
    if ok:
        ctx.close(th, ref.soft(start), "topic-distributions", rtol=t, atol=t)
    ok, w = ctx.call("words-raised", m.wordDists, model)
    if ok:
        ctx.close(w, vocab, "word-distributions", rtol=t)
    ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, model, q)
    if ok:
        want = float(np.where(words > 0, words * np.log(ref.soft(start) @ vocab), 0).sum())
        ctx.close(float(ll), want, "likelihood", rtol=t, atol=t * (1 + words.sum()))
    ctx.expect(frozen == snapshot(ds.words, *[x for x in tuple(model) if isinstance(x, np.ndarray)], q.means, q.docLens), "measuring-altered-state")
    # a query
    fixed = snapshot(*[x for x in model if isinstance(x, np.ndarray)])
    ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, n, quick))
    if ok:
        want = ref_query(words, start, vocab, inv, mean, n, quick)
        size = 1 + abs(want).max() + abs(start).max() + abs(mean @ inv).max()
        ctx.close(r[1].means, want, "query-scores", rtol=t, atol=t * size)
        if quick:
            ctx.close(r[1].varcs, variances(words, K, np.diag(inv)), "query-variances", rtol=t)
        ctx.expect(fixed == snapshot(*[x for x in model if isinstance(x, np.ndarray)]) == snapshot(*[x for x in r[0] if isinstance(x, np.ndarray)]), "query-altered-model")
        if not quick:
            was, now = (ref.per_document(words, x, vocab, inv, mean[None, :]) for x in (start, np.asarray(r[1].means, dtype=float)))
            ctx.expect(bool(np.all(now >= was - 10 * t * (1 + abs(was)))), "query-made-a-document-worse", [was, now])
    # training
    for freq in (0, 1) if D > 1 else ():               # a covariance takes two documents
        model, q = put(m, ds, T, K, dt, prior, mean, cov, vocab, start)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, n, quick, freq))
        if not ok:
            continue
        gm, gv, gs = ref_train(words, start, vocab, prior, n, quick)
        size = 1 + abs(gs).max() + abs(start).max()
        if abs(gs).max() > (1e6 if quick else np.inf):
            continue                                   # the quick mode need not settle
        ctx.close(r[0].topicMean, gm, "trained-mean", rtol=t, atol=t * size)
        ctx.close(r[0].vocab, gv, "trained-words", rtol=t, atol=t)
        ctx.close(r[1].means, gs, "trained-scores", rtol=t, atol=t * size)
        ctx.close(r[0].sigT, np.eye(K), "trained-covariance")
        ctx.close(r[1].docLens, words.sum(axis=1), "trained-lengths")
        ctx.close(r[1].varcs, variances(words, K, np.ones(K)), "trained-variances", rtol=t)
        iters, bounds, likes = (np.asarray(x, dtype=float) for x in r[2])
        ctx.expect(len(iters) == len(bounds) == len(likes) == (n if freq else 0), "trace-lengths", [iters, bounds, likes])
        if freq and len(likes):
            want = float(np.where(words > 0, words * np.log(ref.soft(gs) @ gv), 0).sum())
            ctx.close(likes[-1], want, "trace-of-likelihoods", rtol=10 * t, atol=10 * t * (1 + words.sum()))


def steps(ctx, mats):
    m = mdl()
    i = 0
    for words in mats:
        D, T = words.shape
        for K in (2, 3):
            for mean, cov, start in itertools.product(range(3), range(4), range(4)):
                i += 1
                if start == 2 and i % 4 > 1:
                    start = 4
                dt = np.float32 if i % 5 == 0 and start < 2 else np.float64
                n, quick, voc, prior = (1, 2, 5)[i % 3], i % 7 == 3, i % 2, (1.1, 0.01, 3)[i % 4 % 3]
                if quick:
                    n = 1
                ctx.case((words.tolist(), K, mean, cov, start, voc, n, quick, prior, np.dtype(dt).name))
                ctx.state((words.tobytes(), words.shape, K, mean, cov, start, voc, n, quick, np.dtype(dt).name))
                ctx.ran(bool(words.sum()))
                ctx.step(3 * n)
                one(ctx, m, words, K, dt, prior, ref.mean_of(K, mean), ref.covariance(K, cov), ref.words_of(K, T, voc), ref.scores(D, K, start), n, quick)
    ctx.sample({"words": words, "topics": K})


def ladder(ctx, cases):
    m = mdl()
    for D, T, K, scale, cov, dt in cases:
        words = ref.ladder_words(D, T) * scale
        ctx.case(("ladder", D, T, K, scale, cov, np.dtype(dt).name))
        ctx.state(("ladder", D, T, K, scale, cov, np.dtype(dt).name))
        ctx.ran()
        ctx.step(9)
        one(ctx, m, words, K, dt, 1.1, ref.mean_of(K, 1), ref.covariance(K, cov), ref.words_of(K, T, 0), ref.scores(D, K, 1), 3, False)
    ctx.sample({"documents": D, "vocabulary": T, "topics": K})


def together(ctx, mats):
    """A document's scores do not depend on the company it keeps while the query runs for as long."""
    m = mdl()
    for words in mats:
        words = np.asarray(words, dtype=float)
        D, T = words.shape
        for K, cov in itertools.product((2, 3), (0, 2, 3)):
            ctx.case(("company", words.tolist(), K, cov))
            ctx.state(("company", words.tobytes(), words.shape, K, cov))
            ctx.ran()
            start = ref.scores(D, K, (1, 4)[cov // 2 % 2])
            args = (ref.mean_of(K, 1), ref.covariance(K, cov), ref.words_of(K, T, 1))
            out = {}
            for rows in [list(range(D)), list(range(D))[::-1]] + [[d] for d in range(D)] + [[0] * 3]:
                ctx.step()
                ds = dataset(words[rows], np.float64)
                model, q = put(m, ds, T, K, np.float64, 1.1, *args, start[rows])
                ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, 7))
                if not ok:
                    continue
                for d, s in zip(rows, np.asarray(r[1].means)):
                    out.setdefault(d, []).append(s)
            for d, ss in out.items():
                for s in ss[1:]:
                    ctx.close(s, ss[0], "company-changes-a-document", rtol=1e-7, atol=1e-8)
    ctx.sample({"words": words})


def stopping(ctx, cases):
    """Long queries, and long training: the objective at every step, and when a query may stop."""
    m = mdl()
    for words, K, cov, start in cases:
        words = np.asarray(words, dtype=float)
        D, T = words.shape
        mean, sig, voc, s0 = ref.mean_of(K, 1), ref.covariance(K, cov), ref.words_of(K, T, 0), ref.scores(D, K, start)
        inv = np.linalg.inv(sig)
        ctx.case(("long", words.tolist() if words.size < 20 else words.shape, K, cov, start))
        ctx.state(("long", words.tobytes(), words.shape, K, cov, start))
        traj, perps = [s0], []
        for _ in range(60):
            traj.append(ref_query(words, traj[-1], voc, inv, mean, 1, False))
            perps.append(ref.perplexity(words, traj[-1], voc))
        for n in (10, 21, 22, 60):
            ctx.ran()
            ctx.step(n)
            ds = dataset(words, np.float64)
            model, q = put(m, ds, T, K, np.float64, 1.1, mean, sig, voc, s0)
            ok, r = ctx.call("query-raised", m.query, ds, model, q, plan(m, n))
            if not ok:
                continue
            allowed = [i for i in range(1, n + 1) if i == n or (i > 21 and perps[i - 2] - perps[i - 1] < 1 + 1e-6)]
            got = np.asarray(r[1].means, dtype=float)
            ctx.expect(any(np.allclose(got, traj[i], rtol=1e-6, atol=1e-7) for i in allowed), "query-stopped-elsewhere", {"iterations": n, "got": got, "wanted": traj[n]})
        ds = dataset(words, np.float64)
        model, q = put(m, ds, T, K, np.float64, 1.1, mean, sig, voc, s0)
        last = -np.inf
        for i in range(40):
            ctx.ran()
            ctx.step()
            ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, 1))
            if not ok:
                break
            model, q = r[0], r[1]
            now = objective(words, *(np.asarray(x, dtype=float) for x in (model.topicMean, model.vocab, q.means)), 1.1)
            if not ctx.expect(now >= last - 1e-8 * (1 + abs(last)), "training-lowered-the-objective", [i, last, now]):
                break
            last = now
        gm, gv, gs = ref_train(words, s0, voc, 1.1, 40, False)
        ctx.close(q.means, gs, "long-training-scores", rtol=1e-6, atol=1e-6)
        ctx.close(model.vocab, gv, "long-training-words", rtol=1e-6, atol=1e-7)
    ctx.sample({"words": words, "topics": K})


def two_kinds(share, D=6, T=60):
    """Documents of two kinds, which are told apart the later the more words they share."""
    return (share + 4 * ((np.arange(D)[:, None] + np.arange(T)[None, :]) % 2)).astype(float)


def nearly_even(K, T, eps):
    v = np.ones((K, T)) + eps * ((np.arange(T) + np.arange(K)[:, None]) % K == 0)
    return v / v.sum(axis=1, keepdims=True)


def measured(ctx, cases):
    """Training whose progress is measured ends past a hundred iterations once the perplexity stays within one."""
    m = mdl()
    early = late = 0
    for share, eps, quick in cases:
        words = two_kinds(share)
        D, T = words.shape
        ds = dataset(words, np.float64)

        def run(n, freq):
            model, q = put(m, ds, T, 2, np.float64, 0.1, np.zeros(2), np.eye(2), nearly_even(2, T, eps), np.zeros((D, 2)))
            return m.train(ds, model, q, plan(m, n, quick, freq))

        def close(r, want, kind):
            ctx.close(r[1].means, want[1].means, kind, rtol=1e-8, atol=1e-10)
            ctx.close(r[0].vocab, want[0].vocab, kind, rtol=1e-8)
        e, l = watch(ctx, ("measured", share, eps, quick), run, lambda r: float(np.exp(-m.log_likelihood(ds, r[0], r[1]) / words.sum())), close,
                     (1, 5, 10, 26, 50, 51, 101), (90, 102, 115, 160), 100, 3, lambda a, b: abs(a - b))
        early, late = early + e, late + l
    ctx.note("runs ended early", early)
    ctx.note("measurements after which they went on", late)


def histories(ctx, depth):
    """T/t train, Q query others, P query some of the same, C go on with a copy."""
    m = mdl()
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3], [0, 0, 1, 4]], dtype=float)
    others = [np.array([[0, 0, 1, 1], [3, 1, 0, 0]], dtype=float), np.array([[1, 1, 1, 1]], dtype=float)]
    for K in (2, 3):
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQCP", repeat=n):
                if ops[-1] == "C":
                    continue
                ctx.case(("history", K, "".join(ops)))
                ctx.state(("history", K, ops))
                ctx.ran()
                mean, cov, voc, s = ref.mean_of(K, 1), ref.covariance(K, 2), ref.words_of(K, 4, 1), ref.scores(4, K, 1)
                ds = dataset(words, np.float64)
                model, q = put(m, ds, 4, K, np.float64, 1.1, mean, cov, voc, s)
                for i, op in enumerate(ops):
                    ctx.step()
                    if op in "Tt":
                        its = 1 if op == "T" else 2
                        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, its))
                        if not ok:
                            break
                        model, q = r[0], r[1]
                        mean, voc, s = ref_train(words, s, voc, 1.1, its, False)
                        cov = np.eye(K)
                    elif op == "C":
                        old = model
                        model = m.newModelFromExisting(model)
                        ctx.expect(snapshot(*[x for x in model if isinstance(x, np.ndarray)]) == snapshot(*[x for x in old if isinstance(x, np.ndarray)]), "copy-differs")
                        for x in old:
                            if isinstance(x, np.ndarray) and x.ndim:
                                x[...] = 77.0
                    else:
                        other = others[i % 2] if op == "Q" else words[[2, 0]]
                        ds2 = dataset(other, np.float64)
                        q2 = m.newQueryState(ds2, model)
                        s2 = ref.scores(len(other), K, 2)
                        q2 = q2._replace(means=s2.copy())
                        before = snapshot(*[x for x in model if isinstance(x, np.ndarray)])
                        ok, r = ctx.call("query-raised", m.query, ds2, model, q2, plan(m, 3))
                        if not ok:
                            break
                        ctx.close(r[1].means, ref_query(other, s2, voc, np.linalg.inv(cov), mean, 3, False), "history-query", rtol=1e-7, atol=1e-7)
                        ctx.expect(snapshot(*[x for x in model if isinstance(x, np.ndarray)]) == before, "history-query-altered-model")
                    ctx.close(model.vocab, voc, "history-words", rtol=1e-7)
                    ctx.close(model.topicMean, mean, "history-mean", rtol=1e-7, atol=1e-8)
                    ctx.close(model.sigT, cov, "history-covariance", rtol=1e-9)
                    ctx.close(q.means, s, "history-scores", rtol=1e-7, atol=1e-7)
    ctx.sample({"depth": depth})


def fresh(ctx, cases):
    m = mdl()
    for words, K, dt in cases:
        words = np.asarray(words, dtype=float)
        D, T = words.shape
        ctx.case(("fresh", words.shape, words.tolist() if words.size < 12 else None, K, np.dtype(dt).name))
        ctx.state(("fresh", words.tobytes(), words.shape, K, np.dtype(dt).name))
        ctx.ran()
        ctx.step()
        long = np.vstack([words, np.full((1, T), 400.0 + T)])
        ds = dataset(long, dt)
        np.random.seed(11)
        ok, model = ctx.call("model-raised", m.newModelAtRandom, ds, K, dtype=dt)
        if not ok:
            continue
        e = 1e-9 if dt is np.float64 else 1e-4
        w = np.asarray(m.wordDists(model), dtype=float)
        ctx.expect(w.shape == (K, T) and bool((w >= 0).all()) and bool(np.all(np.abs(w.sum(axis=1) - 1) < e)), "initial-words", w)
        ctx.close(model.A, ref.curvature(K), "curvature", rtol=1e-6, atol=1e-7)
        ctx.expect(np.asarray(model.topicMean).shape == (K,) and abs(float(np.sum(model.topicMean)) - 1) < e, "initial-mean", model.topicMean)
        ok, q = ctx.call("query-state-raised", m.newQueryState, ds, model)
        if not ok:
            continue
        ctx.close(q.docLens, long.sum(axis=1), "document-lengths")
        ctx.expect(np.asarray(q.means).shape == (D + 1, K) and bool(np.isfinite(q.means).all()), "initial-scores", q.means)
        ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
        if ok:
            arrays = [i for i, x in enumerate(model) if isinstance(x, np.ndarray)]
            ctx.expect(snapshot(*[cp[i] for i in arrays]) == snapshot(*[model[i] for i in arrays]), "copy-differs")
            for i in arrays:
                ctx.expect(not np.shares_memory(cp[i], model[i]), "copy-shares", {"field": i})
        s0, v0 = np.array(q.means, dtype=float), np.array(model.vocab, dtype=float)
        ok, r = ctx.call("train-raised", m.train, ds, model, q, plan(m, 4, False, 2))
        if ok:
            gm, gv, gs = ref_train(long, s0, v0, float(model.vocabPrior), 4, False)
            t = tol(dt)
            ctx.close(r[0].vocab, gv, "trained-words", rtol=t, atol=t)
            ctx.close(r[1].means, gs, "trained-scores", rtol=10 * t, atol=10 * t * (1 + abs(gs).max()))
            ctx.expect(list(np.asarray(r[2][0])) == [0, 2], "trace", r[2][0])
            ok, th = ctx.call("topics-raised", m.topicDists, r[1])
            if ok:
                ctx.expect(np.asarray(th).shape == (D + 1, K) and bool(np.all(np.abs(np.sum(th, axis=1) - 1) < 1e-4)), "trained-topics", th)
    ctx.sample({"words": words, "topics": K})


def corpora(thorough):
    mats = []
    for D, T in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)) + (((3, 2),) if thorough else ()):
        mats += list(count_matrices(D, T, (0, 1, 2)))
    mats += list(count_matrices(2, 3, (0, 2) if not thorough else (0, 1, 2))) + list(count_matrices(3, 3, (0, 1)))[::1 if thorough else 7]
    mats += list(count_matrices(2, 2, (0, 0.5, 1.75))) + list(count_matrices(3, 1, (0, 2.0, 2.75)))
    return [x for x in mats if x.sum()]


def tasks(tier, seed):
    thorough = tier == "thorough"
    mats = corpora(thorough)
    out = [("steps-%d" % i, steps, (c,)) for i, c in enumerate(chunks(mats, 24 if thorough else 8))]
    big = [(d, t, k, s, c, dt) for d, t, k in ((5, 8, 2), (13, 21, 5), (30, 64, 8), (60, 150, 25), (1, 150, 12), (60, 3, 3))
           for s in (1, 50, 3000 if t < 30 else 100) for c in (0, 1, 2) for dt in (np.float64, np.float32) if not (dt is np.float32 and s > 50)]
    out += [("ladder-%d" % i, ladder, (c,)) for i, c in enumerate(chunks(big, 4))]
    out += [("together-%d" % i, together, (c,)) for i, c in enumerate(chunks([x for x in mats if len(x) > 1][::1 if thorough else 2], 4))]
    longs = [(w, k, c, s) for w in list(count_matrices(2, 2, (0, 1, 3)))[1:] + [ref.ladder_words(9, 14), 5 * ref.ladder_words(20, 30)] for k in (2, 3) for c in (0, 2, 3) for s in (1, 2)]
    out += [("stopping-%d" % i, stopping, (c,)) for i, c in enumerate(chunks(longs, 6))]
    slow = [(s, e, q) for s in (0, 4, 6) for e in (1e-1, 1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13) for q in (False, True)]
    out += [("measured-%d" % i, measured, (c,)) for i, c in enumerate(chunks(slow, 4))]
    out.append(("histories", histories, (5 if thorough else 4,)))
    fr = [(w, k, dt) for w in (np.ones((1, 3)), np.array([[1, 0, 2], [0, 0, 0]]), ref.ladder_words(6, 9), ref.ladder_words(40, 80), 30 * ref.ladder_words(12, 33))
          for k in (2, 3, 6, 15) for dt in (np.float64, np.float32)]
    out.append(("fresh", fresh, (fr,)))
    some = out if thorough else [("steps-t", steps, (mats[::9],)), ("ladder-t", ladder, (big[::5],)), ("together-t", together, ([x for x in mats if len(x) > 1][::12],)),
                                 ("stopping-t", stopping, (longs[::7] + longs[-2:],)), ("measured-t", measured, (slow[::5],)), ("histories-t", histories, (2,)), ("fresh-t", fresh, (fr[::3],))]
    out += [("twin-" + name, twin, (f,) + tuple(args)) for name, f, args in some]
    return out
