"""C21 Dirichlet-multinomial regression: the weights of the features climb the probability of the sampled topics."""
import itertools
import numpy as np
import scipy.sparse as ssp
from scipy.special import digamma, gammaln

from .. import build
from ..space import chunks, distinct, snapshot
from . import c13

PROPERTY = "C21"
LEVEL = "model_checking"
NATIVE = ["dmr_fast", "se_fast", "sig_fast"]
SCRIPTED = ["dmr_fast"]
RULE = ("All tables of 1-3 documents x 2 topics x 1-2 samples with counts from {0,1,3} x feature matrices (0/1, graded, dense, sparse, 1-3 features) x palettes of "
        "weights x prior variances: value and every partial derivative of the objective against the definition, and the weights after an update against its "
        "stationarity; ladders over 4999-10001 documents. The C random number generator is replaced by a script: every plan of up to 3 batches of 1-4 sweeps, a last "
        "partial batch, burn-in 0-2 and thinning 1-2, each run compared with the run that is one batch shorter.")
ASSUMPTIONS = ["64-bit models", "the number of sweeps between two updates of the weights is a multiple of the thinning, as it is by default"]


def mdl():
    import sidetopics.model.dmr as m
    return m


def logp(w, k, W, counts, X, sigma):
    """Log-probability of the samples (averaged) as a function of topic k's weights, up to a constant."""
    V = np.array(W, dtype=float)
    V[k] = w
    al = np.exp(X @ V.T)
    S = counts.shape[2]
    tot, n = al.sum(axis=1), counts.sum(axis=1)
    r = gammaln(tot).sum() - gammaln(tot[:, None] + n).sum() / S + gammaln(al[:, k, None] + counts[:, k, :]).sum() / S - gammaln(al[:, k]).sum()
    return float(r - 0.5 / sigma * (V[k] ** 2).sum())


def slope(w, k, W, counts, X, sigma):
    V = np.array(W, dtype=float)
    V[k] = w
    al = np.exp(X @ V.T)
    S = counts.shape[2]
    tot, n = al.sum(axis=1), counts.sum(axis=1)
    g = digamma(tot) - digamma(tot[:, None] + n).sum(axis=1) / S + digamma(al[:, k, None] + counts[:, k, :]).sum(axis=1) / S - digamma(al[:, k])
    return (g * al[:, k]) @ X - V[k] / sigma


def weights_of(K, F, which):
    w = distinct(K * F, 17 + which).reshape(K, F) - 1.4
    return (np.full((K, F), 0.05), w, 2.5 * w)[which]


def features(D, F, which):
    x = distinct(D * F, 29).reshape(D, F)
    return (np.where(x > 1.4, 1.0, 0.0) + np.eye(D, F), x - 0.7, np.ones((D, F)))[which]


def derivatives(ctx, cases):
    m = mdl()
    if not (hasattr(m, "objective") and hasattr(m, "gradient")):
        ctx.note("no objective to compare: left to the updates")
        ctx.ran()
        return
    for counts, K, F, fw, ww, sigma, sparse in cases:
        D = counts.shape[0]
        X, W = features(D, F, fw), weights_of(K, F, ww)
        tag = ("objective", counts.tolist() if counts.size < 20 else counts.shape, K, F, fw, ww, sigma, sparse)
        ctx.case(tag)
        ctx.state(("objective", counts.tobytes(), counts.shape, K, F, fw, ww, sigma, sparse))
        S = counts.shape[2]
        store = np.concatenate([counts, np.full((D, K, 2), 9)], axis=2).astype(np.uint16)   # room for samples not yet taken
        given = ssp.csr_matrix(X) if sparse else X.copy()
        frozen = snapshot(store, given, W)
        for k in range(K):
            w1, w2 = W[k] + 0.1 * np.cos(np.arange(F) + k), W[k] * 0.5 - 0.2
            vals = []
            for w in (w1, w2):
                ctx.ran()
                ctx.step(2)
                ok, v = ctx.call("objective-raised", m.objective, w.copy(), k, W, S, store, given, sigma)
                ok2, g = ctx.call("gradient-raised", m.gradient, w.copy(), k, W, S, store, given, sigma)
                if not (ok and ok2):
                    return
                vals.append(-float(v))
                want = slope(w, k, W, counts, X, sigma)
                ctx.close(-np.asarray(g, dtype=float).reshape(-1), want, "gradient", rtol=1e-7, atol=1e-7 * (1 + counts.sum() + D))
            a, b = logp(w1, k, W, counts, X, sigma), logp(w2, k, W, counts, X, sigma)
            ctx.close(vals[0] - vals[1], a - b, "objective", rtol=1e-7, atol=1e-8 * (1 + abs(a) + abs(b)))
        ctx.expect(frozen == snapshot(store, given, W), "measuring-altered-state")
    ctx.sample({"counts": counts.shape, "features": F})


def improved(ctx, before, after, counts, X, sigma):
    """Each topic's weights, given the other topics' before."""
    for k in range(len(before)):
        a, b = logp(before[k], k, before, counts, X, sigma), logp(after[k], k, before, counts, X, sigma)
        if not ctx.expect(b >= a - 1e-9 * (1 + abs(a)), "update-made-weights-worse", {"topic": k, "before": a, "after": b}):
            return
        g0, g1 = slope(before[k], k, before, counts, X, sigma), slope(after[k], k, before, counts, X, sigma)
        ctx.expect(np.linalg.norm(g1) <= 2e-2 * (1 + np.linalg.norm(g0)), "update-stopped-early", {"topic": k, "slope before": g0, "slope after": g1})


def updates(ctx, cases):
    m = mdl()
    if not hasattr(m, "updateWeights"):
        ctx.note("no update to call: left to training")
        ctx.ran()
        return
    for counts, K, F, fw, ww, sparse in cases:
        D = counts.shape[0]
        X, W = features(D, F, fw), weights_of(K, F, ww)
        ctx.case(("update", counts.tolist() if counts.size < 20 else counts.shape, K, F, fw, ww, sparse))
        ctx.state(("update", counts.tobytes(), counts.shape, K, F, fw, ww, sparse))
        ctx.ran()
        ctx.step()
        got = W.copy()
        given = ssp.csr_matrix(X) if sparse else X.copy()
        frozen = snapshot(counts, given)
        ok, _ = ctx.call("update-raised", m.updateWeights, counts.astype(np.uint16), counts.shape[2], given, got)
        if ok:
            ctx.expect(bool(np.isfinite(got).all()), "weights-not-finite", got)
            improved(ctx, W, got, counts, X, m.Sigma)
            ctx.expect(frozen == snapshot(counts, given), "update-altered-data")
    ctx.sample({"counts": counts.shape, "features": F})


def training(ctx, cases):
    """Runs of several batches: each draws with the priors that the weights learned from all samples so far imply."""
    m = mdl()
    for words, feats, K, sparse in cases:
        words, feats = np.asarray(words), np.asarray(feats, dtype=float)
        D, T = words.shape
        from sidetopics.model.common import DataSet
        ds = DataSet(ssp.csr_matrix(words.astype(np.int32)), feats=ssp.csr_matrix(feats) if sparse else feats.copy())
        W0 = weights_of(K, feats.shape[1], 1)

        def run(burn, total, every, thin):
            model = m.newModelAtRandom(ds, K, 0.5, 0.3)._replace(weights=W0.copy())
            q = m.newQueryState(ds, model)
            q = q._replace(z_list=((np.arange(len(q.w_list)) * 5 + 1) % K).astype(np.uint8))
            keep = c13.script(c13.DRAWS)
            plan = m.newTrainPlan(10)._replace(iterations=burn + total, burnIn=burn, thin=thin, weightUpdateInterval=every)
            return m.train(ds, model, q, plan)
        for burn, thin, mult in itertools.product((0, 2), (1, 2), (1, 2)):
            every = thin * mult
            past = (W0, np.zeros((D, K, 0)), np.zeros((D, K)), np.zeros((K, T)))
            for total in [every, 2 * every, 3 * every] + ([3 * every + thin] if mult > 1 else []):
                ctx.case(("training", words.tolist(), feats.tolist(), K, sparse, burn, total, every, thin))
                ctx.state(("training", words.tobytes(), feats.tobytes(), K, sparse, burn, total, every, thin))
                ctx.ran()
                ctx.step(burn + total)
                data = snapshot(ds.words, ds.feats)
                ok, r = ctx.call("train-raised", run, burn, total, every, thin)
                if not ok:
                    break
                model, q, _ = r
                ctx.expect(data == snapshot(ds.words, ds.feats), "training-altered-data")
                taken = total // thin
                ctx.expect(model.numSamples == q.numSamples == taken, "samples", [model.numSamples, q.numSamples, taken])
                store = np.asarray(model.n_dk_samples)[:, :, :taken].astype(float)
                ctx.close(store.sum(axis=1), np.repeat(words.sum(axis=1)[:, None], taken, axis=1), "stored-counts-lose-tokens")
                old = past[1].shape[2]
                ctx.expect(np.array_equal(store[:, :, :old], past[1]), "earlier-samples-changed")
                al = np.exp(feats @ past[0].T)
                share = sum(((store[:, :, s] + al) / (store[:, :, s] + al).sum(axis=1, keepdims=True) for s in range(old, taken)), np.zeros((D, K)))
                ctx.close(np.asarray(q.topicSum) - past[2], share, "batch-prior", rtol=1e-8, atol=1e-10)
                ctx.expect(bool(np.isfinite(model.weights).all()), "weights-not-finite", model.weights)
                improved(ctx, past[0], np.asarray(model.weights), store, feats, m.Sigma)
                ctx.close(np.sum(model.vocabSum, axis=1), np.full(K, taken), "words-not-distributions", rtol=1e-8)
                past = (np.array(model.weights), store, np.array(q.topicSum), np.array(model.vocabSum))
    ctx.sample({"words": words, "topics": K})


def tables(thorough):
    out = []
    for D, K, S in ((1, 2, 1), (2, 2, 1), (1, 2, 2), (1, 3, 1)) + (((3, 2, 1), (2, 2, 2)) if thorough else ()):
        for v in itertools.product((0, 1, 3), repeat=D * K * S):
            c = np.array(v).reshape(D, K, S)
            if S == 1 or bool((c.sum(axis=1) == c.sum(axis=1)[:, :1]).all()):     # every sample has all tokens
                out.append((c, K))
    return out


def sized(D, K, S, seed=0):
    base = np.floor(distinct(D * K, 5 + seed).reshape(D, K, 1) * 3)
    total = base.sum(axis=1, keepdims=True)
    out = [base[:, np.roll(np.arange(K), s), :] for s in range(S)]
    return np.concatenate(out, axis=2)


def tasks(tier, seed):
    thorough = tier == "thorough"
    cases = []
    for i, (c, K) in enumerate(tables(thorough)):
        for F, fw, ww in itertools.product((1, 2, 3), range(3), range(3)):
            cases.append((c, K, F, fw, ww, (0.01, 1.0)[(i + F) % 2], (i + fw) % 2 == 0))
    out = [("objective-%d" % i, derivatives, (c,)) for i, c in enumerate(chunks(cases, 6))]
    big = [(sized(D, K, S), K, F, fw, 1, 0.5, True) for D, K, S, F, fw in ((40, 5, 3, 4, 1), (200, 12, 2, 9, 0), (4999, 3, 2, 2, 1), (5000, 3, 1, 2, 1), (5001, 3, 2, 2, 1), (10001, 2, 2, 3, 0), (10000, 2, 1, 1, 1))]
    out += [("objective-big-%d" % i, derivatives, (c,)) for i, c in enumerate(chunks(big, 2))]
    ups = [(c, K, F, fw, ww, sp) for c, K, F, fw, ww, _, sp in cases if ww < 2][::1 if thorough else 3]
    ups += [(sized(D, K, S), K, F, fw, 0, sp) for D, K, S, F, fw in ((10, 3, 2, 2, 1), (40, 5, 3, 4, 1), (200, 8, 2, 6, 0)) for sp in (False, True)] + [(sized(5001, 2, 2), 2, 2, 1, 0, True)]
    out += [("updates-%d" % i, updates, (c,)) for i, c in enumerate(chunks(ups, 6))]
    runs = [(w, f[:len(w)], K, sp) for w in ([[2, 1, 0], [0, 0, 1], [1, 0, 2]], [[1, 1]], [[0, 3, 0, 1], [2, 0, 1, 0], [1, 1, 1, 1], [0, 5, 0, 0]], [[4, 0], [0, 1]])
            for f in (np.array([[1, 0.5], [0, 1], [1, 1], [0.3, 0]]), np.array([[1.0], [0.5], [2], [1]]), np.array([[1, 0, 1], [1, 1, 0], [0, 1, 0], [1, 0, 0.0]])) for K in (2, 3) for sp in (True, False)]
    out += [("training-%d" % i, training, (c,)) for i, c in enumerate(chunks(runs, 6))]
    return out
