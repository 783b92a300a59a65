"""C13: the collapsed Gibbs samplers draw every token's topic from its exact conditional, and keep their counts."""
import itertools
import numpy as np
import scipy.sparse as ssp

from .. import build
from ..space import chunks, count_matrices, distinct

PROPERTY = "C13"
LEVEL = "model_checking"
NATIVE = ["lda_gibbs_fast", "dmr_fast", "se_fast", "sig_fast"]
SCRIPTED = ["lda_gibbs_fast", "dmr_fast"]
RULE = ("The C random number generator is replaced by a script. Conditionals: every combination of background counts over {0,1,4} for 2 topics x 2 words "
        "(and ladders to 40 topics), priors and initial topics, each with every one of 400 equally spaced draws; sweeps: every "
        "initial assignment of 1-3 tokens with every tuple of draws on a grid; the extreme draws; sample accounting for every "
        "sweep count 0..12 and thinning 1..13, training and query; whole runs of training and querying of both models for every plan of up to 6 sweeps "
        "(thorough 9), burn-in and thinning, against the runs that keep every sweep; the conditional of a queried token with 200 draws, also for words of probabilities down to 1e-7 and queries of 1-2000 tokens.")
ASSUMPTIONS = ["the scripted draws are equally likely values of the generator's range; conditionals are compared to within the grid's resolution"]
RAND_MAX = 2 ** 31 - 1


def module(which):
    if which == "lda":
        import sidetopics.model.lda_gibbs_fast as m
    else:
        import sidetopics.model.dmr_fast as m
    return m


def script(values):
    a = np.ascontiguousarray(values, dtype=np.int32)
    build.random_control.mc_script(a.ctypes.data, len(a))
    return a


class Chain:
    """The state of a sampler: real arrays."""

    def __init__(self, which, docs, z, K, T, a, b, back=None, backdoc=None):
        self.which, self.K, self.T = which, K, T
        self.w = np.array([v for d in docs for v in d], dtype=np.uint16)
        self.z = np.array(z, dtype=np.uint8)
        self.lens = np.array([len(d) for d in docs], dtype=np.int32)
        self.a = np.array(a, dtype=np.float64)          # K (lda) or DxK (dmr)
        self.b = np.array(b, dtype=np.float64)
        D = len(docs)
        self.back = np.zeros((K, T), dtype=np.int32) if back is None else np.asarray(back, dtype=np.int32)
        self.backdoc = np.zeros((D, K), dtype=np.int32) if backdoc is None else np.asarray(backdoc, dtype=np.int32)
        self.ndk, self.nkv, self.nk = self.recount()
        if which == "dmr":
            self.ndk = self.ndk.astype(np.uint16)
        self.topicSum, self.vocabSum = np.zeros((D, K)), np.zeros((K, T))
        self.store = np.full((D, K, 40), 777, dtype=np.uint16)

    def prior(self, d):
        return self.a if self.which == "lda" else self.a[d]

    def recount(self):
        ndk, nkv = self.backdoc.copy(), self.back.copy()
        i = 0
        for d, n in enumerate(self.lens):
            for _ in range(n):
                ndk[d, self.z[i]] += 1
                nkv[self.z[i], self.w[i]] += 1
                i += 1
        return ndk, nkv, nkv.sum(axis=1).astype(np.int32)

    def run(self, count, thin, query=False):
        m = module(self.which)
        if self.which == "lda":
            return m.sample(count, thin, self.w, self.z, self.lens, self.ndk, self.nkv, self.nk, self.topicSum, self.vocabSum, self.a, self.b, query, False)
        return m.sample(count, thin, self.w, self.z, self.lens, self.a, self.ndk, self.nkv, self.nk, self.store, self.topicSum, self.vocabSum, self.b, query, False)

    def consistent(self, ctx, sig, query=False, before=None):
        if not ctx.expect(bool((self.z < self.K).all()), sig + "-topic-out-of-range", self.z):
            return False
        ndk, nkv, nk = self.recount()
        if query:
            nkv, nk = before
        return ctx.expect(np.array_equal(self.ndk, ndk) and np.array_equal(self.nkv, nkv) and np.array_equal(self.nk, nk), sig + "-counts",
                          lambda: {"z": self.z, "ndk": self.ndk, "want ndk": ndk, "nkv": self.nkv, "want nkv": nkv, "nk": self.nk})


def conditional(doc_counts, nkv, nk, v, a, b):
    p = (doc_counts + a) * (nkv[:, v] + b[v]) / (nk + b.sum())
    return p / p.sum()


def single(ctx, which, cases, G):
    """One token, any background: the measure of the draws that lead to each topic is its conditional probability."""
    grid = ((np.arange(G) + 0.5) / G * (RAND_MAX + 1.0)).astype(np.int64)
    for K, T, back, backdoc, a, b, z0, v, query in cases:
        ctx.case((which, "conditional", K, T, np.asarray(back).tolist(), list(backdoc), list(a), z0, v, query))
        ctx.state((which, K, T, str(np.asarray(back).tolist()), str(backdoc), str(a), z0, v, query))
        av = np.array(a, dtype=float)
        hits = np.zeros(K)
        c = Chain(which, [[v]], [z0], K, T, av if which == "lda" else av[None, :], b, back, [backdoc])
        for g in grid:
            c.z[0] = z0
            c.ndk[...], c.nkv[...], c.nk[...] = c.recount()
            fixed = (c.nkv.copy(), c.nk.copy())
            keep = script([g, g])
            c.run(1, 2, query)
            if not c.consistent(ctx, "conditional", query, fixed):
                return
            hits[c.z[0]] += 1
        if build.random_control.mc_calls() == 0:
            ctx.note("sampler does not use rand(): conditional not decided")
            return
        ctx.step(G)
        ctx.ran(n=G)
        bk = np.asarray(back, dtype=float).copy()
        nkv = bk.copy()
        if query:
            nkv[z0, v] += 1     # in a query the words' counts are kept fixed
        want = conditional(np.asarray(backdoc, dtype=float), nkv, nkv.sum(axis=1), v, av, np.asarray(b, dtype=float))
        ctx.expect(bool((np.abs(hits / G - want) <= 1.6 / G).all()), "conditional", {"draws to topics": hits / G, "conditional": want})
        ctx.expect(not c.topicSum.any() and not c.vocabSum.any(), "sampled-during-burn-in")


def single_cases(quick):
    out = []
    priors = (((0.5, 0.5), (0.1, 0.1)), ((0.3, 1.7), (0.25, 2.0)), ((25.0, 0.01), (0.01, 5.0)))
    for n, back in enumerate(itertools.product((0, 1, 4), repeat=4)):
        for m, (backdoc, (a, b)) in enumerate(itertools.product(((0, 0), (3, 1), (0, 2)), priors)):
            if quick and (n + m) % 3:
                continue
            for z0, v in itertools.product((0, 1), (0, 1)):
                query = (n + m // 3 + z0 + v) % 2 == 1
                out.append((2, 2, np.array(back).reshape(2, 2), backdoc, a, b, z0, v, query))
    for K, T in ((3, 2), (3, 5), (4, 3), (7, 4), (16, 6), (40, 3)):
        for r in range(4 if quick else 16):
            back = ((np.arange(K * T) * (3 + r) + np.arange(K * T) ** 2) % (5 + r)).reshape(K, T)
            backdoc = tuple(int(x) for x in (np.arange(K) * (r + 2)) % 4)
            out.append((K, T, back, backdoc, tuple(distinct(K, r)), tuple(distinct(T, r + 5) * 0.3), r % K, r % T, r % 3 == 2))
    return out


def exact_sweep(c, d_docs, query):
    """The distribution over z after one sweep, starting at a token chosen uniformly in each document."""
    dist = {tuple(int(x) for x in c.z): 1.0}
    start = 0
    for d, doc in enumerate(d_docs):
        n = len(doc)
        if n:
            new = {}
            for first in range(n):
                cur = {z: p / n for z, p in dist.items()}
                for i in range(n):
                    t = start + (first + i) % n
                    nxt = {}
                    for z, p in cur.items():
                        ndk, nkv = np.zeros(c.K), c.back.astype(float)
                        fixed_z = tuple(c.z) if query else z
                        for x in range(len(z)):
                            if x != t or query:
                                nkv[fixed_z[x], c.w[x]] += 1
                        for x in range(start, start + n):
                            if x != t:
                                ndk[z[x]] += 1
                        q = conditional(ndk, nkv, nkv.sum(axis=1), int(c.w[t]), c.prior(d), c.b)
                        for k in range(c.K):
                            y = z[:t] + (k,) + z[t + 1:]
                            nxt[y] = nxt.get(y, 0.0) + p * q[k]
                    cur = nxt
                for z, p in cur.items():
                    new[z] = new.get(z, 0.0) + p
            dist = new
        start += n
    return dist


def sweeps(ctx, which, cases):
    for docs, K, T, z0, query, G in cases:
        n = sum(len(d) for d in docs)
        D = len(docs)
        a = distinct(K * D, 2).reshape(D, K) * 0.8
        c = Chain(which, docs, z0, K, T, a[0] if which == "lda" else a, distinct(T, 9) * 0.4, back=(np.arange(K * T) % 3).reshape(K, T))
        start_state = (c.z.copy(), c.ndk.copy(), c.nkv.copy(), c.nk.copy())
        want = exact_sweep(c, docs, query)
        hits, total = {}, 0
        grid = [int((i + 0.5) / G * (RAND_MAX + 1.0)) for i in range(G)]
        # one draw per document (where to start: as many values as tokens) and one per token
        spaces = []
        for d in docs:
            spaces.append([int((i + 0.5) / max(len(d), 1) * (RAND_MAX + 1.0)) for i in range(max(len(d), 1))])
            spaces += [grid] * len(d)
        ctx.case((which, "sweep", docs, K, list(z0), query))
        ctx.state((which, "sweep", str(docs), K, tuple(z0), query))
        for draws in itertools.product(*spaces):
            c.z[...], c.ndk[...], c.nkv[...], c.nk[...] = start_state
            keep = script(draws)
            c.run(1, 2, query)
            if total % 997 == 0 and not c.consistent(ctx, "sweep", query, start_state[2:]):
                return
            z = tuple(int(x) for x in c.z)
            hits[z] = hits.get(z, 0) + 1
            total += 1
        if not 0 < build.random_control.mc_calls() <= len(spaces):
            ctx.note("sampler draws a different number of values: sweep not decided")
            return
        ctx.step(total)
        ctx.ran(n=total)
        tol = 1.05 * n / G if n > 1 else 1.6 / G
        worst = max(abs(hits.get(z, 0) / total - p) for z, p in want.items())
        ctx.expect(worst <= tol and set(hits) <= set(want), "sweep-distribution", lambda: {"got": {str(z): h / total for z, h in hits.items()}, "want": {str(z): p for z, p in want.items()}, "tolerance": tol})
    ctx.sample({"documents": docs, "start": list(z0), "schedules": total})


def sweep_cases(quick):
    out = []
    for docs, K, T, G in (([[0]], 2, 2, 200), ([[0, 1]], 2, 2, 40), ([[0, 0]], 2, 1, 40), ([[0, 1]], 3, 2, 40), ([[0], [1]], 2, 2, 40), ([[1], [], [0]], 3, 2, 40),
                          ([[0, 1, 1]], 2, 2, 14 if quick else 26), ([[0, 1], [1]], 2, 3, 14 if quick else 26)):
        n = sum(len(d) for d in docs)
        for z0 in itertools.product(range(K), repeat=n):
            for query in (False, True):
                out.append((docs, K, T, z0, query, G))
    return out


def extremes(ctx, which):
    """Draws at the very ends of the generator's range stay inside the counts."""
    docs = [[0, 1, 2], [], [2, 2], [1]]
    n = 6
    for K in (2, 3, 5, 200, 255):
        for vals in itertools.product((0, 1, RAND_MAX - 1, RAND_MAX), repeat=3):
            draws = [vals[i % 3] for i in range(40)]
            for zero_prior in (False, True):
                a = np.full((4, K), 1e-300 if zero_prior else 0.4)
                c = Chain(which, docs, [i % K for i in range(n)], K, 3, a[0] if which == "lda" else a, [0.1, 0.2, 0.3])
                keep = script(draws)
                ctx.case((which, "extreme", K, vals, zero_prior))
                ctx.state((which, "extreme", K, vals, zero_prior))
                for s in range(3):
                    c.run(1, 2)
                    ctx.step()
                    if not c.consistent(ctx, "extreme"):
                        break
                ctx.ran()


def accounting(ctx, which, counts):
    """Which sweeps are sampled, and what a sample adds."""
    docs = [[0, 1, 2, 1], [], [2, 2], [1, 0, 0]]
    K, T, D, n = 3, 4, 4, 9
    for count in counts:
        for thin in range(1, 14):
            for query in (False, True):
                a = distinct(K * D, 1).reshape(D, K)
                mk = lambda: Chain(which, docs, [i % K for i in range(n)], K, T, a[0] if which == "lda" else a, distinct(T, 4), back=np.arange(12).reshape(3, 4))
                c, s = mk(), mk()
                ctx.case((which, "accounting", count, thin, query))
                ctx.state((which, "accounting", count, thin, query))
                module(which).initGlobalRng(count * 100 + thin)
                keep = script([])
                fixed = (c.nkv.copy(), c.nk.copy())
                words = c.w.copy()
                got = c.run(count, thin, query)
                if not c.consistent(ctx, "accounting", query, fixed):
                    continue
                # the same chain one sweep at a time
                module(which).initGlobalRng(count * 100 + thin)
                keep = script([])
                topics, vocab, taken, stored = np.zeros((D, K)), np.zeros((K, T)), 0, []
                for i in range(count):
                    s.run(1, 2, query)
                    if (i + 1) % thin == 0:
                        for d in range(D):
                            p = s.prior(d)
                            topics[d] += (s.ndk[d] + p) / (s.lens[d] + p.sum())
                        vocab += (s.nkv + s.b) / (s.nk + s.b.sum())[:, None]
                        taken += 1
                        stored.append(np.array(s.ndk))
                ctx.step(count)
                ctx.ran()
                ctx.expect(np.array_equal(s.z, c.z), "sweeps-not-alike")
                ctx.expect(got == taken, "sample-count", {"got": got, "want": taken})
                ctx.close(c.topicSum, topics, "topic-sum", rtol=1e-10)
                ctx.close(c.vocabSum, np.zeros((K, T)) if query else vocab, "vocab-sum", rtol=1e-10)
                if which == "dmr":
                    ctx.expect(all(np.array_equal(c.store[:, :, i], x) for i, x in enumerate(stored)) and bool((c.store[:, :, taken:] == 777).all()), "stored-counts")
                ctx.expect(np.array_equal(words, c.w) and c.lens.tolist() == [4, 0, 2, 3], "corpus-altered")


def flattening(ctx, mats):
    for X in mats:
        for which, dt in (("lda", np.int32), ("dmr", np.uint16)):
            m = module(which)
            ctx.case((which, "flatten", X.tolist()))
            ctx.state((which, "flatten", X.tobytes()))
            ctx.step()
            ctx.ran(X.sum() > 1)
            M = ssp.csr_matrix(X.astype(dt))
            ok, r = ctx.call("flatten-raised", m.flatten, M)
            if not ok:
                continue
            w, lens = np.asarray(r[0]), np.asarray(r[1])
            back = np.zeros(X.shape, dtype=int)
            i = 0
            for d, n in enumerate(lens.tolist()):
                for t in w[i:i + n]:
                    back[d, t] += 1
                i += n
            ctx.expect(lens.tolist() == X.sum(axis=1).tolist() and i == len(w) and np.array_equal(back, X), "flatten", {"words": w, "lengths": lens, "want": X})
            z = (np.arange(len(w)) * 2 % 3).astype(np.uint8)
            D, T = X.shape
            ndk = np.zeros((D, 3), dtype=np.int32 if which == "lda" else np.uint16)
            nkv, nk = np.zeros((3, T), dtype=np.int32), np.zeros(3, dtype=np.int32)
            m.sumSuffStats(w, z, lens.astype(np.int32), ndk, nkv, nk)
            c = Chain(which, [w[int(lens[:d].sum()):int(lens[:d + 1].sum())].tolist() for d in range(D)], z, 3, T, np.ones(3) if which == "lda" else np.ones((D, 3)), np.ones(T))
            ctx.expect(np.array_equal(ndk, c.ndk) and np.array_equal(nkv, c.nkv) and np.array_equal(nk, c.nk), "initial-counts", {"ndk": ndk, "nkv": nkv, "nk": nk})


def big(ctx):
    """Sizes near the limits of the storage types."""
    for which in ("lda", "dmr"):
        m = module(which)
        X = ssp.csr_matrix((np.array([1, 2, 300]), (np.array([0, 0, 1]), np.array([65535, 7, 40000]))), shape=(2, 65536)).astype(np.int32 if which == "lda" else np.uint16)
        ctx.case((which, "widest vocabulary"))
        ctx.state((which, "widest"))
        ctx.step()
        ctx.ran()
        ok, r = ctx.call("flatten-raised", m.flatten, X)
        if ok:
            ctx.expect(sorted(r[0][:3].tolist()) == [7, 7, 65535] and r[0][3:].tolist() == [40000] * 300 and np.asarray(r[1]).tolist() == [3, 300], "flatten-wide", r)
        ctx.raises("too-wide-accepted", ValueError, m.flatten, ssp.csr_matrix((2, 65537), dtype=X.dtype))
    docs = [[(i * 7) % 50 for i in range(400)], [], [(i * 3) % 50 for i in range(300)], [5] * 280]
    n = sum(map(len, docs))
    for which in ("lda", "dmr"):
        for K in (2, 50, 255):
            a = np.full((4, K), 0.3)
            c = Chain(which, docs, [i % K for i in range(n)], K, 50, a[0] if which == "lda" else a, [0.1] * 50)
            ctx.case((which, "big", K))
            ctx.state((which, "big", K))
            keep = script([])
            for s in range(4):
                c.run(1, 1)
                ctx.step()
                if not c.consistent(ctx, "big"):
                    break
            ctx.ran()


def learner(which):
    if which == "lda":
        import sidetopics.model.lda_gibbs as m
    else:
        import sidetopics.model.dmr as m
    return m


def lengthy(ctx):
    """Documents of very many words, of one kind or of several, are sampled in full or refused."""
    for which in ("lda", "dmr"):
        m = learner(which)
        for n, spread, what in itertools.product((300, 32767, 32768, 65532, 65533, 65536, 70000, 131074), (1, 2, 3), ("train", "query")):
            first = [n - (n // 3) * (spread - 1)] + [n // 3] * (spread - 1)
            words = np.array([first + [0] * (3 - spread) + [2, 1], [5, 0, 6, 0, 70]])
            ctx.case((which, "long documents", words.tolist(), what))
            ctx.state((which, "long documents", words.tobytes(), what))
            ctx.step()
            ctx.ran()
            small = corpus(np.minimum(words, 900) + 1, np.ones((2, 1)), np.int32)
            ds = corpus(words, np.ones((2, 1)), np.int32)
            np.random.seed(3)
            keep = script(DRAWS)
            model = m.newModelAtRandom(small, 2, 0.5, 0.1)
            if what == "query":
                model = m.train(small, model, m.newQueryState(small, model), m.newTrainPlan(12))[0]
            try:
                q = m.newQueryState(ds, model)
                r = getattr(m, what)(ds, model, q, m.newTrainPlan(12))
            except Exception as e:
                if not ctx.expect(words.sum(axis=1).max() > 65535, "long-document-refused", repr(e)):
                    return
                continue
            ctx.expect(np.array_equal(bag(np.asarray(r[1].w_list), np.asarray(r[1].docLens), 5), words), "long-document-lost-words", {"lengths": r[1].docLens})
            ctx.expect(len(r[1].z_list) == words.sum(), "long-document-lost-topics", len(r[1].z_list))
            th = np.asarray(m.topicDists(r[1]), dtype=float)
            ctx.expect(th.shape == (2, 2) and bool((th >= 0).all()) and bool((abs(th.sum(axis=1) - 1) < 1e-6).all()), "long-document-topics", th)


DRAWS = ((np.arange(1, 6001, dtype=np.int64) * 1103515245 + 12345) * 48271 % RAND_MAX).astype(np.int64)


def corpus(words, feats, dt):
    from sidetopics.model.common import DataSet
    return DataSet(ssp.csr_matrix(np.asarray(words).astype(dt)), feats=ssp.csr_matrix(np.asarray(feats, dtype=float)))


def bag(w_list, lens, T):
    out, i = np.zeros((len(lens), T)), 0
    for d, n in enumerate(lens):
        for v in w_list[i:i + n]:
            out[d, v] += 1
        i += n
    return out


def tallies(z, w, lens, K, T):
    ndk, nkv, i = np.zeros((len(lens), K)), np.zeros((K, T)), 0
    for d, n in enumerate(lens):
        for x in range(i, i + n):
            ndk[d, z[x]] += 1
            nkv[z[x], w[x]] += 1
        i += n
    return ndk, nkv


def sparse_ll(words, th, ph):
    return float(np.where(words > 0, words * np.log(th @ ph), 0).sum())


class Case:
    """A corpus, a start, and a model to be trained with it from a scripted source of randomness."""

    def __init__(self, which, words, feats, K, a, b, dt=np.int32):
        self.which, self.words, self.feats, self.K, self.m = which, np.asarray(words), np.asarray(feats, dtype=float), K, learner(which)
        self.T = self.words.shape[1]
        self.ds = corpus(words, feats, dt)
        self.a, self.b = a, b
        self.prior_b = np.zeros(self.T) + np.asarray(b, dtype=float)

    def fresh(self):
        v = lambda x: x if np.isscalar(x) else np.array(x, dtype=float)
        model = self.m.newModelAtRandom(self.ds, self.K, v(self.a), v(self.b))
        if self.which == "dmr":
            model = model._replace(weights=(distinct(self.K * self.feats.shape[1], 17) - 1.2).reshape(self.K, -1))
        return model

    def alphas(self, model, feats, D):
        if self.which == "dmr":
            return np.exp(np.asarray(feats) @ np.asarray(model.weights).T)
        return np.zeros((D, self.K)) + np.asarray(self.a, dtype=float)

    def start(self, ds, model):
        q = self.m.newQueryState(ds, model)
        return q._replace(z_list=((np.arange(len(q.w_list)) * 5 + 1) % self.K).astype(np.uint8))

    def plan(self, total, burn, thin):
        p = self.m.newTrainPlan(10)._replace(iterations=total, burnIn=burn, thin=thin)
        return p._replace(weightUpdateInterval=1000000) if self.which == "dmr" else p

    def train(self, total, burn, thin):
        model = self.fresh()
        q = self.start(self.ds, model)
        al = self.alphas(model, self.feats, len(self.words))
        keep = script(DRAWS)
        r = self.m.train(self.ds, model, q, self.plan(total, burn, thin))
        return r, al


def runs(ctx, which, cases, N):
    """Training and querying as a whole: which sweeps count is worked out from runs that keep every sweep."""
    for words, feats, K, a, b, dt in cases:
        c = Case(which, words, feats, K, a, b, dt)
        D, T = c.words.shape
        tag = (which, "run", str(c.words.tolist()), K, str(a), str(b), np.dtype(dt).name)
        ctx.case(tag)
        each, zs, ok = [(np.zeros((D, K)), np.zeros((K, T)))], [], True
        for i in range(1, N + 1):
            ok, r = ctx.call("train-raised", c.train, i, 0, 1)
            if not ok:
                break
            (model, q, _), al = r
            ctx.step(i)
            ctx.ran()
            each.append((np.array(q.topicSum), np.array(model.vocabSum)))
            z, w, lens = np.asarray(q.z_list), np.asarray(q.w_list), np.asarray(q.docLens)
            zs.append(z.copy())
            ctx.expect(np.array_equal(bag(w, lens, T), c.words) and bool((z < K).all()), "run-tokens", [z, w, lens])
            ndk, nkv = tallies(z, w, lens, K, T)
            ctx.expect(model.numSamples == q.numSamples == i, "run-samples", [model.numSamples, q.numSamples, i])
            ctx.close(each[i][0] - each[i - 1][0], (ndk + al) / (ndk + al).sum(axis=1, keepdims=True), "run-topics", rtol=1e-9)
            ctx.close(each[i][1] - each[i - 1][1], (nkv + c.prior_b) / (nkv + c.prior_b).sum(axis=1, keepdims=True), "run-words", rtol=1e-9)
            if which == "dmr":
                ctx.expect(np.array_equal(np.asarray(model.n_dk_samples)[:, :, :i], np.stack([tallies(x, w, lens, K, T)[0] for x in zs], axis=2)), "run-stored-counts")
        if not ok:
            continue
        final = None
        for n, burn, thin in itertools.product(range(1, N + 1), range(N), range(1, N + 1)):
            if burn >= n:
                continue
            ctx.case(tag + (n, burn, thin))
            ctx.state(tag + (n, burn, thin))
            ctx.step(n)
            ctx.ran()
            ok, r = ctx.call("train-raised", c.train, n, burn, thin)
            if not ok:
                break
            (model, q, _), al = r
            take = [s for s in range(1, n + 1) if s > burn and (s - burn) % thin == 0]
            ctx.expect(np.array_equal(q.z_list, zs[n - 1]), "plan-sweeps", {"got": q.z_list, "want": zs[n - 1]})
            ctx.expect(model.numSamples == q.numSamples == len(take), "plan-samples", [model.numSamples, q.numSamples, take])
            wt, wv = (sum((each[s][j] - each[s - 1][j] for s in take), np.zeros_like(each[0][j])) for j in (0, 1))
            ctx.close(q.topicSum, wt, "plan-topics", rtol=1e-8, atol=1e-10)
            ctx.close(model.vocabSum, wv, "plan-words", rtol=1e-8, atol=1e-10)
            if not take:
                continue
            th, ph = c.m.topicDists(q), c.m.wordDists(model)
            ctx.close(th, wt / len(take), "topic-distributions", rtol=1e-8)
            ctx.close(ph, wv / len(take), "word-distributions", rtol=1e-8)
            ok, ll = ctx.call("likelihood-raised", c.m.log_likelihood, c.ds, model, q)
            if ok:
                ctx.close(float(ll), sparse_ll(c.words, wt / len(take), wv / len(take)), "likelihood", rtol=1e-8, atol=1e-8)
            if len(take) > 1:
                final = model
        if final is not None:
            inquire(ctx, c, final, tag, N)
        for its in (0, 1, 2, 3, 7, 20, 101, 1001):
            for extra in ({}, {"burnIn": 3}, {"thin": 1}, {"burnIn": 0, "thin": 1}):
                if its <= extra.get("burnIn", 0) and its:
                    continue
                p = c.m.newTrainPlan(its, **extra)
                ctx.expect(p.burnIn == extra.get("burnIn", p.burnIn) and p.thin == extra.get("thin", p.thin) and p.burnIn >= 0 and p.thin >= 1, "plan", p)
                ctx.expect(its == 0 or "burnIn" in extra or (p.iterations - p.burnIn == its and its // p.thin >= 1), "plan-without-samples", [its, p])
    ctx.sample({"words": c.words, "topics": K})


def inquire(ctx, c, model, tag, N):
    m, K, T = c.m, c.K, c.T
    ph = np.array(m.wordDists(model))
    from ..space import snapshot
    for other, feats in ((np.array([[2] + [0] * (T - 2) + [1], [0] * (T - 1) + [3], [1] * T]), c.feats[[0, -1, 0]]), (np.array([[1] * T]), c.feats[:1])):
        ds = corpus(other, feats, np.int64)
        al = c.alphas(model, feats, len(other))
        frozen = snapshot(*[x for x in model if isinstance(x, np.ndarray)])
        each, zs = [np.zeros((len(other), K))], []

        def go(total, burn, thin):
            q = c.start(ds, model)
            keep = script(DRAWS)
            return m.query(ds, model, q, c.plan(total, burn, thin))
        for n, burn, thin in [(i, 0, 1) for i in range(1, N + 1)] + [x for x in itertools.product(range(1, N + 1), range(N), range(1, N + 1)) if x[1] < x[0]]:
            ctx.case(tag + ("query", other.tolist(), n, burn, thin))
            ctx.state(tag + ("query", other.tobytes(), n, burn, thin))
            ctx.step(n)
            ctx.ran()
            ok, r = ctx.call("query-raised", go, n, burn, thin)
            if not ok:
                return
            back, q = r
            if len(each) <= N:
                each.append(np.array(q.topicSum))
                zs.append(np.array(q.z_list))
                w, lens = np.asarray(q.w_list), np.asarray(q.docLens)
                ndk, _ = tallies(zs[-1], w, lens, K, T)
                ctx.expect(np.array_equal(bag(w, lens, T), other), "query-tokens")
                ctx.close(each[-1] - each[-2], (ndk + al) / (ndk + al).sum(axis=1, keepdims=True), "query-topics", rtol=1e-9)
            take = [s for s in range(1, n + 1) if s > burn and (s - burn) % thin == 0]
            ctx.expect(q.numSamples == len(take) and np.array_equal(q.z_list, zs[n - 1]), "query-plan", [q.numSamples, take])
            want = sum((each[s] - each[s - 1] for s in take), np.zeros_like(each[0]))
            ctx.close(q.topicSum, want, "query-plan-topics", rtol=1e-8, atol=1e-10)
            for mod in (model, back):
                ctx.expect(frozen == snapshot(*[x for x in mod if isinstance(x, np.ndarray)]) and mod.numSamples == model.numSamples, "query-altered-model")
            if take:
                ok, ll = ctx.call("likelihood-raised", m.log_likelihood, ds, back, q)
                if ok:
                    ctx.close(float(ll), sparse_ll(other, want / len(take), ph), "query-likelihood", rtol=1e-8, atol=1e-8)
    ok, cp = ctx.call("copy-raised", m.newModelFromExisting, model)
    if ok:
        arrays = [i for i, x in enumerate(model) if isinstance(x, np.ndarray)]
        ctx.expect(snapshot(*[cp[i] for i in arrays]) == snapshot(*[model[i] for i in arrays]) and cp.numSamples == model.numSamples and cp.name == model.name, "copy-differs")
        ctx.expect(not any(np.shares_memory(cp[i], model[i]) for i in arrays), "copy-shares", [i for i in arrays if np.shares_memory(cp[i], model[i])])
    # a lone token is drawn from the topics' probabilities of the word
    G = 200
    for v in range(T):
        ds = corpus(np.eye(T, dtype=int)[[v]], c.feats[:1], np.int32)
        al = c.alphas(model, c.feats[:1], 1)
        hits = np.zeros(K)
        for g in range(G):
            q = c.start(ds, model)
            keep = script([int((g + 0.5) / G * (RAND_MAX + 1.0))] * 2)
            ok, r = ctx.call("query-raised", m.query, ds, model, q, c.plan(1, 0, 1))
            if not ok:
                return
            hits[r[1].z_list[0]] += 1
        ctx.step(G)
        ctx.ran(n=G)
        if not build.random_control.mc_calls():
            return
        want = al[0] * ph[:, v]
        ctx.expect(bool((abs(hits / G - want / want.sum()) <= 1.6 / G).all()), "query-conditional", {"got": hits / G, "want": want / want.sum(), "word": v})


def rare(ctx, which, probs, G):
    """Queries of many one-word documents: each token is drawn by its word's probabilities alone, however rare and however many others are asked about."""
    for p, n, z0, v in itertools.product(probs, (1, 4, 60, 2000), (0, 1), (0, 1)):
        K = len(p)
        ph = np.zeros((K, 3))
        ph[:, v], ph[:, 1 - v] = p, 0.3
        ph[:, 2] = 1 - ph.sum(axis=1)
        c = Case(which, [[1, 1, 1]], [[1, 0.5]], K, 0.6, 0.1)
        model = c.fresh()._replace(vocabSum=4 * ph, numSamples=4)
        words = np.zeros((n, 3), dtype=int)
        words[:, v] = 1
        feats = np.ones((n, 2)) * [1, 0.5]
        ds = corpus(words, feats, np.int32)
        al = c.alphas(model, feats[:1], 1)
        want = al[0] * ph[:, v]
        hits = np.zeros(K)
        g0 = G if n < 100 else 20
        ctx.case((which, "rare", p, n, z0, v))
        ctx.state((which, "rare", p, n, z0, v))
        for g in range(g0):
            q = c.m.newQueryState(ds, model)
            q = q._replace(z_list=np.full(n, z0, dtype=np.uint8))
            keep = script([int((g + 0.5) / g0 * (RAND_MAX + 1.0))] * 2 * n)  # one position to start from, so every draw may be the same
            ok, r = ctx.call("query-raised", c.m.query, ds, model, q, c.plan(1, 0, 1))
            if not ok:
                return
            hits += np.bincount(np.asarray(r[1].z_list, dtype=int), minlength=K) / n
        ctx.step(g0)
        ctx.ran(n=g0)
        if not build.random_control.mc_calls():
            return
        ctx.expect(bool((abs(hits / g0 - want / want.sum()) <= 1.6 / g0).all()), "query-of-rare-words", {"got": hits / g0, "want": want / want.sum(), "probabilities": p, "tokens": n})


def run_cases(quick):
    f = np.array([[1, 0.5], [0, 1], [1, 1], [0.3, 0]])
    out = []
    for words in ([[2, 1, 0], [0, 0, 1], [1, 0, 2]], [[1, 1]], [[0, 3, 0, 1], [0, 0, 0, 0], [2, 0, 1, 0], [1, 1, 1, 1]], [[4, 0], [0, 1]]):
        T = len(words[0])
        for K, a, b, dt in ((2, 0.7, 0.2, np.int32), (3, [0.2, 1.5, 0.6], (distinct(T, 3) * 0.4).tolist(), np.float64), (5, 1, 1, np.int64), (3, None, None, np.uint8)):
            out.append((words, f[:len(words)], K, 50.0 / K if a is None else a, 0.1 if b is None else b, dt))
    return out


def tasks(tier, seed):
    quick = tier == "quick"
    out = []
    for which in ("lda", "dmr"):
        out += [("%s-runs-%d" % (which, i), runs, (which, c, 6 if quick else 9)) for i, c in enumerate(chunks(run_cases(quick), 4))]
        out += [("%s-rare-%d" % (which, i), rare, (which, [p], 40 if quick else 200)) for i, p in enumerate([(1e-7, 3e-7), (4e-6, 1.9e-6), (2e-5, 0.9e-5, 5e-5), (5e-4, 4.5e-3), (0.2, 0.4, 0.1)])]
    for which in ("lda", "dmr"):
        out += [("%s-sweeps-%d" % (which, i), sweeps, (which, c)) for i, c in enumerate(chunks(sweep_cases(quick), 6))]
        out += [("%s-conditional-%d" % (which, i), single, (which, c, 400)) for i, c in enumerate(chunks(single_cases(quick), 4))]
        out += [("%s-extremes" % which, extremes, (which,))]
        out += [("%s-accounting-%d" % (which, i), accounting, (which, c)) for i, c in enumerate(chunks(range(13), 2))]
    mats = list(count_matrices(2, 3, (0, 1, 3))) + list(count_matrices(1, 3, (0, 2, 300)))
    return out + [("flatten-%d" % i, flattening, (c,)) for i, c in enumerate(chunks(mats, 2))] + [("big", big, ()), ("lengthy", lengthy, ())]
