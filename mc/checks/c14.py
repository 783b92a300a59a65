"""C14 collapsed variational LDA (zero and second order): every token step, conservation of counts, likelihood and bound."""
import itertools
import math
import numpy as np
import scipy.sparse as ssp
from scipy.special import gammaln

from ..space import chunks, count_matrices, distinct, snapshot

PROPERTY = "C14"
LEVEL = "model_checking"
NATIVE = ["lda_cvb_fast", "lda_cvb0_fast", "se_fast", "sig_fast"]
RULE = ("Token steps: every assignment of 1-3 (thorough 4) tokens to a palette of topic distributions (certain, even, skewed) x documents x words x "
        "background model counts x priors x 2-3 topics x {f32,f64} x both algorithms, one pass each, every token of the pass compared with the "
        "conditional given the assignments before and after it; word lists of all 2x3 count matrices over {0,1,2}; every iteration count 0..12 "
        "x measuring interval; ladders to 60 documents, 20 topics and 80 words; all histories of 1-4 (thorough 5) training and querying steps with new documents or the state of the step before.")
ASSUMPTIONS = ["priors are positive and symmetric", "documents have at least one word",
               "second order: the exponential of the correction is an approximation within 4 %"]


def mods():
    import sidetopics.model.lda_cvb0 as c0
    import sidetopics.model.lda_cvb as c
    return {"cvb0": c0, "cvb": c}


def loglik(m):
    return getattr(m, "log_likelihood_point", None) or m.log_likelihood


def bound(m):
    return getattr(m, "log_likelihood_expected", None) or m.var_bound


def counts(q, T):
    """The counts that the assignments of a query state stand for."""
    z = np.asarray(q.z_dnk, dtype=np.float64)
    D, K = z.shape[0], z.shape[2]
    n_dk, n_kt, v_dk, v_kt = np.zeros((D, K)), np.zeros((K, T)), np.zeros((D, K)), np.zeros((K, T))
    for d in range(D):
        for n in range(int(q.docLens[d])):
            n_dk[d] += z[d, n]
            n_kt[:, q.W_list[d, n]] += z[d, n]
            v_dk[d] += z[d, n] * (1 - z[d, n])
            v_kt[:, q.W_list[d, n]] += z[d, n] * (1 - z[d, n])
    return n_dk, n_kt, n_kt.sum(axis=1), v_dk, v_kt, v_kt.sum(axis=1)


NAMES = ("n_dk", "n_kt", "n_k", "v_dk", "v_kt", "v_k")


def consistent(ctx, sig, q, T, base=None, tol=1e-9, atol=0.0):
    """All counts of the state are those of its assignments (plus those of the model it continues from)."""
    want = counts(q, T)
    for i, name in enumerate(NAMES):
        if not hasattr(q, name):
            continue
        w = want[i]
        if base is not None and i % 3:
            w = w + base[i]
        ctx.close(np.asarray(getattr(q, name)), w, sig + "-" + name, rtol=tol, atol=tol * (1 + w.sum()) + atol)


def put(q, z, T, dt, base=None):
    """The query state with the assignments z (and the counts that they imply)."""
    q = q._replace(z_dnk=np.ascontiguousarray(z.astype(dt)))
    c = counts(q, T)
    return q._replace(**{name: np.ascontiguousarray(c[i].astype(dt)) for i, name in enumerate(NAMES) if hasattr(q, name)})


def one_pass(ctx, sig, order2, before, after, q, T, a, b, base, tol):
    """Each token, in turn, has the conditional distribution given the new assignments before it and the old ones after it."""
    z0, z1 = np.asarray(before, dtype=np.float64), np.asarray(after, dtype=np.float64)
    lens = [int(x) for x in q.docLens]
    n = list(counts(q._replace(z_dnk=z0), T))
    if base is not None:
        for i in (1, 2, 4, 5):
            n[i] = n[i] + base[i]
    for d in range(z0.shape[0]):
        for i in range(lens[d]):
            t = q.W_list[d, i]
            old, new = z0[d, i], z1[d, i]
            x, y, w = a + n[0][d] - old, b + n[1][:, t] - old, T * b + n[2] - old
            p = x * y / w
            if order2:
                e = -n[3][d] / (2 * x * x) - n[4][:, t] / (2 * y * y) + n[5] / (2 * w * w)
                p = p * np.where(e > -75.5, np.exp(np.maximum(e, -75.5)), 1e-33)      # the smallest correction made
                if np.any(np.abs(e + 75.5) < 0.01):
                    p = new
            p = p / p.sum()
            ok = bool(np.all(np.abs(new - p) <= tol * p * (1 - p) * 2 + tol * 1e-3 + 1e-12)) if order2 else bool(np.all(np.abs(new - p) <= tol))
            ok = ok and abs(new.sum() - 1) < 1e-5
            if not ok:
                ctx.fail(sig, {"document": d, "token": i, "word": int(t), "got": new, "want": p})
                return
            n[0][d] += new - old
            n[1][:, t] += new - old
            n[2] += new - old
            n[3][d] += new * (1 - new) - old * (1 - old)
            n[4][:, t] += new * (1 - new) - old * (1 - old)
            n[5] += new * (1 - new) - old * (1 - old)


def state_for(m, words, K, a, b, dt, wdt=np.int32, seed=3):
    from sidetopics.model.common import DataSet
    ds = DataSet(ssp.csr_matrix(np.asarray(words).astype(wdt)))
    np.random.seed(seed)
    model = m.newModelAtRandom(ds, K, topicPrior=a if np.isscalar(a) else np.asarray(a, dtype=dt), vocabPrior=b, dtype=dt)
    return ds, model, m.newQueryState(ds, model)


def lists(ctx, mats):
    """Initial states: the words of each document, each as often as it occurs, in any sequence."""
    for words in mats:
        for (name, m), wdt, dt, K in itertools.product(mods().items(), (np.int32, np.float32, np.float64), (np.float32, np.float64), (2, 3)):
            D, T = words.shape
            ctx.case((name, words.tolist(), np.dtype(wdt).name, np.dtype(dt).name, K))
            ctx.state((name, words.tobytes(), words.shape, np.dtype(wdt).name, np.dtype(dt).name, K))
            ctx.step()
            ctx.ran()
            ok, r = ctx.call("state-raised", state_for, m, words, K, 0.5, 0.1, dt, wdt)
            if not ok:
                continue
            q = r[2]
            ctx.expect([int(x) for x in q.docLens] == words.sum(axis=1).tolist(), "document-lengths", q.docLens)
            for d in range(D):
                got = np.bincount(np.asarray(q.W_list[d, :q.docLens[d]], dtype=int), minlength=T)
                ctx.expect(got.tolist() == words[d].tolist(), "word-list", {"document": d, "got": got, "want": words[d]})
                z = np.asarray(q.z_dnk[d, :q.docLens[d]], dtype=float)
                ctx.expect(bool((z >= 0).all()) and bool(np.all(np.abs(z.sum(axis=1) - 1) < 1e-5)) if len(z) else True, "initial-assignments", z)
            consistent(ctx, "initial", q, T, tol=2e-5 if dt is np.float32 else 1e-10)


PALETTE = {2: ([1.0, 0.0], [0.0, 1.0], [0.5, 0.5], [0.9, 0.1]), 3: ([1.0, 0, 0], [0, 0.25, 0.75], [0.3, 0.3, 0.4])}


def train(m, ds, model, q, iterations, freq=0, query=False):
    return m.train(ds, model, q, m.newTrainPlan(iterations=iterations, epsilon=1, logFrequency=freq, fastButInaccurate=False, debug=False), query)


def tolerance(name, dt):
    return 0.085 if name == "cvb" else 2e-5 if dt is np.float32 else 1e-9


def steps(ctx, cases):
    """One pass from every assignment of the tokens."""
    for words, K, prior, background, dt in cases:
        words = np.array(words)
        D, T = words.shape
        a, b = prior
        n_tok = int(words.sum())
        for name, m in mods().items():
            ds, model, q0 = state_for(m, words, K, a, b, dt)
            base = None
            if background:        # a model trained earlier, on other documents
                nd = np.array([[background * (1 + k) for k in range(K)]], dtype=dt)
                nt = np.array([[background * (1 + k) * (0.5 if t == 0 else 0.5 / (T - 1) if T > 1 else 0) * (2 if T == 1 else 1) for t in range(T)] for k in range(K)], dtype=dt)
                new = dict(n_dk=nd, n_kt=nt, n_k=nt.sum(axis=1))
                if name == "cvb":
                    new.update(v_dk=nd / 4, v_kt=nt / 4, v_k=nt.sum(axis=1) / 4)
                model = model._replace(**new)
                z = np.zeros((K, T))
                base = [None, nt.astype(float), nt.sum(axis=1).astype(float), None, nt.astype(float) / 4, nt.sum(axis=1).astype(float) / 4]
            for zs in itertools.product(PALETTE[K], repeat=n_tok):
                z = np.zeros(q0.z_dnk.shape)
                it = iter(zs)
                for d in range(D):
                    for n in range(int(q0.docLens[d])):
                        z[d, n] = next(it)
                ctx.case((name, words.tolist(), K, prior, background, np.dtype(dt).name, zs))
                ctx.state((name, words.tobytes(), words.shape, K, prior, background, np.dtype(dt).name, str(zs)))
                ctx.step(n_tok)
                ctx.ran()
                q = put(q0, z, T, dt)
                start = q.z_dnk.copy()
                mb = [snapshot(x) for x in model if isinstance(x, np.ndarray)]
                ok, r = ctx.call("pass-raised", train, m, ds, model, q, 1, 0, True)
                if not ok:
                    continue
                q1 = r[1]
                one_pass(ctx, name + "-conditional", name == "cvb", start, q1.z_dnk, q1, T, a, b, base, tolerance(name, dt))
                # adding the background and taking it away again costs its rounding
                consistent(ctx, name + "-after-pass", q1, T, tol=5e-5 if dt is np.float32 else 1e-9, atol=(6e-7 if dt is np.float32 else 1e-15) * 4 * K * background)
                ctx.expect(mb == [snapshot(x) for x in model if isinstance(x, np.ndarray)], "query-altered-model")
    ctx.sample({"words": words, "topics": K, "prior": prior})


def ref_loglik(words, n_dk, n_kt, a, b):
    th = (n_dk + a) / (n_dk + a).sum(axis=1, keepdims=True)
    ph = (n_kt + b) / (n_kt + b).sum(axis=1, keepdims=True)
    return float((words * np.log(th @ ph)).sum())


def ref_bound(lens, n_dk, n_kt, n_k, z, a, b):
    D, K = n_dk.shape
    T = n_kt.shape[1]
    r = D * (gammaln(K * a) - K * gammaln(a)) + K * (gammaln(T * b) - T * gammaln(b))
    r += gammaln(a + n_dk).sum() - gammaln(K * a + np.asarray(lens)).sum() + gammaln(b + n_kt).sum() - gammaln(T * b + n_k).sum()
    zz = z[z > 0]
    return float(r - (zz * np.log(zz)).sum())


def measures(ctx, name, m, ds, words, model, q, a, b, dt, seen):
    rt = 3e-4 if dt is np.float32 else 1e-9
    f = lambda x: np.asarray(x, dtype=np.float64)
    before = [snapshot(x) for x in tuple(model) + tuple(q) if isinstance(x, np.ndarray)]
    ok, got = ctx.call("likelihood-raised", loglik(m), ds, model, q)
    if ok:
        want = ref_loglik(words, f(q.n_dk), f(model.n_kt), a, b)
        ctx.close(float(got), want, name + "-likelihood", rtol=rt, atol=rt)
    if seen:
        ok, got = ctx.call("bound-raised", bound(m), ds, model, q)
        if ok:
            z = np.concatenate([f(q.z_dnk)[d, :q.docLens[d]].ravel() for d in range(len(words))])
            want = ref_bound(q.docLens, f(q.n_dk), f(model.n_kt), f(model.n_k), z, a, b)
            ctx.close(float(got), want, name + "-bound", rtol=rt, atol=rt * 30)
    ctx.expect(before == [snapshot(x) for x in tuple(model) + tuple(q) if isinstance(x, np.ndarray)], "measuring-altered-state")


def simplex(ctx, sig, p):
    p = np.asarray(p, dtype=float)
    ctx.expect(bool(np.isfinite(p).all()) and bool((p >= -1e-6).all()) and bool(np.all(np.abs(p.sum(axis=1) - 1) < 1e-4)), sig, p)


def histories(ctx, cases):
    """Train, train again on other documents, query others; from fresh states."""
    for words, K, prior, dt, wdt, freq in cases:
        a, b = prior
        for name, m in mods().items():
            D, T = words.shape
            ctx.case(("history", name, words.shape, K, prior, np.dtype(dt).name, np.dtype(wdt).name, freq))
            ctx.state(("history", name, words.tobytes(), words.shape, K, prior, np.dtype(dt).name, np.dtype(wdt).name, freq))
            ok, r = ctx.call("state-raised", state_for, m, words, K, a if freq else np.full(K, a), b, dt, wdt)
            if not ok:
                continue
            tol = 2e-4 if dt is np.float32 else 1e-8
            ds, model, q = r
            ok, r = ctx.call("train-raised", train, m, ds, model, q, 7, freq)
            ctx.step(7)
            ctx.ran()
            if not ok:
                continue
            model, q, (its, bs, ls) = r
            consistent(ctx, name + "-trained", q, T, tol=tol)
            c = counts(q, T)
            for i, nm in enumerate(NAMES):
                if hasattr(model, nm):
                    ctx.close(getattr(model, nm), c[i], name + "-model-" + nm, rtol=tol, atol=tol * (1 + abs(c[i]).sum()))
            ctx.close(float(np.sum(model.n_kt, dtype=float)), float(words.sum()), name + "-tokens-lost", rtol=tol)
            ctx.expect(len(its) == len(bs) == len(ls) and bool(np.all(np.isfinite(bs))) and bool(np.all(np.isfinite(ls))), "measurements", [its, bs, ls])
            simplex(ctx, "topic-distributions", m.topicDists(q))
            simplex(ctx, "word-distributions", m.wordDists(model))
            ctx.close(m.topicDists(q), c[0] / c[0].sum(axis=1, keepdims=True), "topic-distributions-value", rtol=tol, atol=tol)
            ctx.close(m.wordDists(model), c[1] / c[1].sum(axis=1, keepdims=True), "word-distributions-value", rtol=max(tol, 1e-6) * 20, atol=tol)
            measures(ctx, name, m, ds, words, model, q, a, b, dt, True)
            ctx.close(float(bs[-1]), float(bound(m)(ds, model, q)), "last-bound", rtol=max(tol, 1e-7), atol=tol * 30)
            ctx.close(float(ls[-1]), float(loglik(m)(ds, model, q)), "last-likelihood", rtol=max(tol, 1e-7), atol=tol * 30)
            # a copy is equal and independent
            ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
            if ok:
                for nm in NAMES:
                    if hasattr(model, nm):
                        x, y = getattr(model, nm), getattr(cp, nm)
                        ctx.expect(np.array_equal(x, y) and not np.shares_memory(x, y), "copy-" + nm, {"model": x, "copy": y})
            # query other documents: the model does not change, and the query's counts are its own
            other = np.roll(words, 1, axis=1)[::-1][:max(1, D // 2)] + (np.arange(T) == 0)
            ds2, _, q2 = state_for(m, other, K, a, b, dt, wdt, seed=9)
            before = [snapshot(x) for x in model if isinstance(x, np.ndarray)]
            ok, r = ctx.call("query-raised", m.query, ds2, model, q2, m.newTrainPlan(iterations=4, logFrequency=freq))
            ctx.step(4)
            if ok:
                model2, q2 = r
                ctx.expect(before == [snapshot(x) for x in model if isinstance(x, np.ndarray)], "query-altered-model")
                ctx.expect(before == [snapshot(x) for x in model2 if isinstance(x, np.ndarray)], "query-returned-other-model")
                consistent(ctx, name + "-queried", q2, T, tol=tol)
                simplex(ctx, "query-topic-distributions", m.topicDists(q2))
                measures(ctx, name, m, ds2, other, model2, q2, a, b, dt, False)
                # the likelihood of documents is the sum of those of each
                if len(other) > 1:
                    total = float(loglik(m)(ds2, model2, q2))
                    parts = 0.0
                    for d in range(len(other)):
                        parts += ref_loglik(other[d:d + 1], np.asarray(q2.n_dk, dtype=float)[d:d + 1], np.asarray(model2.n_kt, dtype=float), a, b)
                    ctx.close(total, parts, "likelihood-not-additive", rtol=3e-4 if dt is np.float32 else 1e-9)
            # train further, on those documents
            ds3, _, q3 = state_for(m, other, K, a, b, dt, wdt, seed=5)
            old = [np.array(getattr(model, nm), dtype=float) if hasattr(model, nm) else None for nm in NAMES]
            ok, r = ctx.call("further-raised", train, m, ds3, model, q3, 3, freq)
            ctx.step(3)
            if ok:
                model3, q3 = r[0], r[1]
                c3 = counts(q3, T)
                for i, nm in enumerate(NAMES):
                    if hasattr(model3, nm):
                        want = np.vstack((old[i], c3[i])) if i % 3 == 0 else old[i] + c3[i]
                        ctx.close(getattr(model3, nm), want, name + "-further-" + nm, rtol=tol, atol=tol * (1 + abs(want).sum()))
    ctx.sample({"shape": words.shape, "topics": K, "prior": prior})


def iterations(ctx):
    """The number of passes is the number asked for, however they are measured; zero passes change nothing."""
    words = np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3]])
    for (name, m), freq, dt in itertools.product(mods().items(), (0, 1, 2, 3, 5, 10, 30), (np.float64, np.float32)):
        ds, model, q = state_for(m, words, 2, 0.3, 0.2, dt)
        z, T = q.z_dnk.copy(), 4
        for n in range(0, 13):
            if n:
                ref = put(q, z, T, dt)
                z = train(m, ds, model, ref, 1, 0, True)[1].z_dnk.copy()
            ctx.case(("iterations", name, freq, n, np.dtype(dt).name))
            ctx.state(("iterations", name, freq, n, np.dtype(dt).name))
            ctx.step(n)
            ctx.ran()
            _, _, start = state_for(m, words, 2, 0.3, 0.2, dt)
            ok, r = ctx.call("iterations-raised", train, m, ds, model, start, n, freq, True)
            if ok:
                ctx.close(r[1].z_dnk, z, name + "-wrong-number-of-passes", rtol=5e-4 if dt is np.float32 else 1e-7, atol=5e-4 if dt is np.float32 else 1e-7)
    for name, m in mods().items():
        ctx.case(("empty document", name))
        ctx.step()
        ds, model, q = state_for(m, np.array([[1, 1], [0, 0]]), 2, 0.3, 0.2, np.float64)
        ctx.raises("empty-document-accepted", ValueError, train, m, ds, model, q, 1)


def stopping(ctx, deep):
    """When progress is measured, passes end early once they number over fifty (thirty) and the perplexity fell by less than one between measurements."""
    T, D = 60, 6
    early = late = 0
    for (name, m), share in itertools.product(mods().items(), (0, 4, 6)):
        words = share + 4 * ((np.arange(D)[:, None] + np.arange(T)[None, :]) % 2)      # two kinds of documents: told apart the later the more they share
        N = words.sum()
        least = 50 if name == "cvb0" else 30
        for eps in 10.0 ** -np.arange(1, 14, 2 if not deep else 1):
            def start():
                ds, model, q = state_for(m, words, 2, 0.3, 0.2, np.float64)
                z = np.full(q.z_dnk.shape, 0.5)
                z[::2, :, 0] += eps * (1 + np.arange(len(z[::2]))[:, None] % 3)
                z[:, :, 1] = 1 - z[:, :, 0]
                return ds, model, put(q, z, T, np.float64)
            after = {}

            def passes(n):
                if n not in after:
                    ds, model, q = start()
                    r = train(m, ds, model, q, n)
                    after[n] = np.exp(-m.log_likelihood(ds, r[0], r[1]) / N), r[1].z_dnk.copy()
                return after[n]
            for freq, n in itertools.product((1, 5, 10, 20, 50), (31, 33, 60, 100, 145)):
                want, i, decided = n, 0, True
                for i in range(n // freq - 1):
                    if i >= 2 and i * freq > least:
                        fell = passes(i * freq)[0] - passes((i + 1) * freq)[0]
                        decided = decided and abs(fell - 1) > 1e-6
                        if fell < 1:
                            want = (i + 1) * freq
                            break
                        late += 1
                if not decided:
                    continue
                early += want < n
                ctx.case(("stopping", name, share, float(eps), freq, n))
                ctx.state(("stopping", name, share, float(eps), freq, n))
                ctx.step(want)
                ctx.ran()
                ds, model, q = start()
                ok, r = ctx.call("stopping-raised", train, m, ds, model, q, n, freq)
                if ok:
                    ctx.close(r[1].z_dnk, passes(want)[1], name + "-stopped-too-soon-or-late", rtol=1e-7, atol=1e-7)
    ctx.note("runs stopped early", early)
    ctx.note("measurements past the least number of passes after which they went on", late)


def big_steps(ctx, shapes):
    """One pass from a random start on larger data."""
    for D, K, T, hi in shapes:
        i, j = np.arange(D)[:, None], np.arange(T)[None, :]
        words = ((i * 31 + j * 17 + i * j * 7) % 11 == 0) * (1 + (i + j) % hi)
        words[:, 0] += 1
        for (name, m), dt, prior in itertools.product(mods().items(), (np.float32, np.float64), ((0.1, 0.01), (50.0 / K, 0.6))):
            ctx.case(("big", name, D, K, T, hi, np.dtype(dt).name, prior))
            ctx.state(("big", name, D, K, T, hi, np.dtype(dt).name, prior))
            ctx.step(int(words.sum()))
            ctx.ran()
            ds, model, q = state_for(m, words, K, prior[0], prior[1], dt)
            start = q.z_dnk.copy()
            ok, r = ctx.call("pass-raised", train, m, ds, model, q, 1, 0, True)
            if ok:
                tol = tolerance(name, dt) * (10 if dt is np.float32 and name == "cvb0" else 1)
                one_pass(ctx, name + "-conditional", name == "cvb", start, r[1].z_dnk, r[1], T, prior[0], prior[1], None, tol)
                consistent(ctx, name + "-after-pass", r[1], T, tol=5e-4 if dt is np.float32 else 1e-9)


def chains(ctx, depth):
    """All histories of training and querying, with new documents or with the documents (and state) of the step before."""
    corpora = [np.array([[2, 1, 0, 1], [0, 2, 2, 0], [1, 0, 0, 3]]), np.array([[0, 0, 1, 1], [3, 1, 0, 0]]), np.array([[1, 1, 1, 1]])]
    for (name, m), dt, K, freq in itertools.product(mods().items(), (np.float64, np.float32), (2, 3), (0, 2)):
        tol = 5e-4 if dt is np.float32 else 1e-8
        for n in range(1, depth + 1):
            for ops in itertools.product("TtQq", repeat=n):
                if ops[0] != "T":
                    continue
                ctx.case(("chain", name, np.dtype(dt).name, K, freq, "".join(ops)))
                ctx.state(("chain", name, np.dtype(dt).name, K, freq, ops))
                ctx.ran()
                T = 4
                ds, model, q = state_for(m, corpora[0], K, 0.4, 0.2, dt)
                total = None
                for i, op in enumerate(ops):
                    ctx.step()
                    if i and op in "TQ":
                        ds, _, q = state_for(m, corpora[i % 3], K, 0.4, 0.2, dt, seed=i)
                    before = [snapshot(x) for x in model if isinstance(x, np.ndarray)]
                    plan = m.newTrainPlan(iterations=3, logFrequency=freq)
                    ok, r = ctx.call("chain-raised", m.train, ds, model, q, plan) if op in "Tt" else ctx.call("chain-raised", m.query, ds, model, q, plan)
                    if not ok:
                        break
                    model, q = r[0], r[1]
                    c = counts(q, T)
                    consistent(ctx, name + "-chain-query", q, T, tol=tol)
                    if op in "Tt":
                        total = c if total is None else [np.vstack((x, y)) if j % 3 == 0 else x + y for j, (x, y) in enumerate(zip(total, c))]
                        for j, nm in enumerate(NAMES):
                            if hasattr(model, nm):
                                ctx.close(getattr(model, nm), total[j], name + "-chain-model-" + nm, rtol=tol, atol=tol * (1 + abs(total[j]).sum()))
                    else:
                        ctx.expect(before == [snapshot(x) for x in model if isinstance(x, np.ndarray)], "chain-query-altered-model")
                    for x in model:
                        for y in q:
                            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.size and y.size and np.shares_memory(x, y):
                                ctx.fail("model-shares-query-state", {"shape": x.shape})
    ctx.sample({"depth": depth})


def tasks(tier, seed):
    deep = tier == "thorough"
    mats = [m for m in count_matrices(2, 3, (0, 1, 2)) if (m.sum(axis=1) > 0).all()] + [np.array([[3]]), np.array([[0, 4, 1]]), np.array([[1], [2], [5]])]
    docs = [[[1]], [[2]], [[1, 1]], [[1], [1]], [[1, 0], [0, 1]], [[2, 1]], [[1, 1], [0, 1]], [[3, 0, 0]], [[1, 1, 1]]]
    if deep:
        docs += [[[2, 2]], [[1, 1], [1, 1]], [[1, 0, 3]], [[1], [2], [1]]]
    priors = ((0.5, 0.1), (2.0, 1.0), (0.01, 0.005))
    cases = [(w, K, p, bg, dt) for w in docs for K in (2, 3) for p in priors for bg in (0, 10.0, 3000.0) for dt in (np.float64, np.float32)]
    shapes = [(1, 1, 3), (1, 2, 2), (3, 3, 4), (7, 5, 9), (20, 4, 15)] + ([(60, 20, 80)] if deep else [(40, 11, 30)])
    hist = []
    for D, K, T in shapes:
        i, j = np.arange(D)[:, None], np.arange(T)[None, :]
        words = (i * 5 + j * 3 + i * j) % 4
        words[:, 0] += 1
        hist += [(words, max(K, 2), p, dt, wdt, f) for p in priors[:2] for dt in (np.float64, np.float32) for wdt in (np.int32, np.float64, np.float32) for f in (0, 2, 10)]
    big = [(5, 3, 7, 3), (20, 8, 33, 2), (60, 20, 80, 4), (3, 40, 5, 6)] + ([(100, 10, 200, 3)] if deep else [])
    return [("chains", chains, (5 if deep else 4,))] + [("lists-%d" % i, lists, (c,)) for i, c in enumerate(chunks(mats, 6))] + \
        [("steps-%d" % i, steps, (c,)) for i, c in enumerate(chunks(cases, 16))] + \
        [("histories-%d" % i, histories, (c,)) for i, c in enumerate(chunks(hist, 8))] + \
        [("iterations", iterations, ()), ("stopping", stopping, (deep,))] + [("big-%d" % i, big_steps, ([s],)) for i, s in enumerate(big)]
