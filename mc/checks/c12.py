"""C12: the evaluation scores are what their definitions say."""
import itertools
import math
import numpy as np
import scipy.sparse as ssp

from ..space import chunks, snapshot

PROPERTY = "C12"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All sets of expected links and all rankings (permutations) of 4 (thorough 5) candidates for one document, all pairs of 3-candidate "
        "documents, with and without documents that have no links, x cut-offs 1..6 (numbers and lists) x link-count groups; "
        "ladders of up to 300 candidates; perplexity over a grid of likelihoods and token counts.")
ASSUMPTIONS = ["candidates of a document have distinct probabilities", "some document has expected links, and expected links are among the candidates (for rankings by average precision)"]


def csr_rows(rows, width, dt=np.float64, shuffle=False):
    """rows: list of {column: value}; columns stored in the given order (which CSR does not prescribe)."""
    data, ind, ptr = [], [], [0]
    for r in rows:
        items = sorted(r.items(), reverse=shuffle)
        ind += [c for c, _ in items]
        data += [v for _, v in items]
        ptr.append(len(ind))
    return ssp.csr_matrix((np.array(data, dtype=dt), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=(len(rows), width))


def ranked(r):
    return [c for c, v in sorted(r.items(), key=lambda cv: -cv[1])]


def ref_mrr(exp, est):
    s = [1.0 / (ranked(est[d]).index(e) + 1) for d in range(len(exp)) for e in exp[d] if e in est[d]]
    return sum(s) / len(s)


def ref_map(exp, est):
    tot = 0.0
    for d in range(len(exp)):
        if exp[d]:
            order = ranked(est[d])
            ps = [len(set(order[:order.index(e) + 1]) & set(exp[d])) / (order.index(e) + 1) for e in exp[d]]
            tot += sum(ps) / len(ps)
    return tot / len(exp)


def ref_at(exp, est, ms, groups):
    groups = [tuple(g) for g in (groups or [])]
    allg = (-1, -1)
    precs, recs, counts = {}, {}, {}
    for g in set(groups) | {allg}:
        docs = [d for d in range(len(exp)) if exp[d] and (g == allg or next((h for h in groups if h != allg and h[0] <= len(exp[d]) <= h[1]), None) == g)]
        counts[g] = len(docs)
        hit = lambda d, m: len(set(ranked(est[d])[:m]) & set(exp[d]))
        precs[g] = [sum(hit(d, m) / m for d in docs) / max(1, len(docs)) for m in ms]
        recs[g] = [sum(hit(d, m) / len(exp[d]) for d in docs) / max(1, len(docs)) for m in ms]
    return precs, recs, counts


ATS = (1, 2, [1], [2, 3], [1, 4, 6], [3, 1], None)
GROUPS = (None, [(1, 1), (2, 3), (4, 50)], [(2, 2)], [(1, 10), (-1, -1)], [(-1, -1), (0, 1), (2, 9)])


def check(ctx, exp, est, width, ats=ATS, groups=GROUPS, rank=True):
    import sidetopics.model.evals as ev
    E = csr_rows([{c: 1.0 + c for c in e} for e in exp], width)
    P = csr_rows(est, width)
    P2 = csr_rows(est, width, shuffle=True)
    before = snapshot(E, P)
    ctx.step(3)
    ctx.ran(len(exp[0]) > 1)
    if rank:
        for X in (P, P2):
            ok, got = ctx.call("mrr-raised", ev.mean_reciprocal_rank, E, X)
            if ok:
                ctx.close(got, ref_mrr(exp, est), "mrr", rtol=1e-12)
            ok, got = ctx.call("map-raised", ev.mean_average_prec, E, X)
            if ok:
                ctx.close(got, ref_map(exp, est), "map", rtol=1e-12)
    for at in ats:
        ms = [100] if at is None else at if isinstance(at, list) else [at]
        for g in groups:
            given = None if g is None else list(g)
            ok, got = ctx.call("at-m-raised", ev.mean_prec_rec_at, E, P, at, given)
            if not ok:
                continue
            want = ref_at(exp, est, ms, g)
            for name, a, b in zip(("precision", "recall", "counts"), got, want):
                good = set(a) == set(b) and all(np.allclose(a[k], b[k], rtol=1e-12, atol=0) for k in b)
                ctx.expect(good, "at-m-" + name, {"at": at, "groups": g, "got": str(a), "want": str(b)})
            ctx.expect(given == (None if g is None else list(g)), "groups-altered", {"given": g, "now": given})
    ctx.expect(before == snapshot(E, P), "input-altered")


def single(ctx, n, perms):
    for perm in perms:
        est = {c: 0.9 - 0.1 * r for r, c in enumerate(perm)}
        for bits in itertools.product((0, 1), repeat=n):
            e = [c for c in range(n) if bits[c]]
            if not e:
                continue
            ctx.case(("single", perm, e))
            ctx.state((tuple(perm), tuple(e)))
            check(ctx, [e], [est], n)
            ctx.case(("single+empty", perm, e))
            check(ctx, [[], e, []], [{0: 0.5}, est, {}], n, ats=([1, 3],), groups=GROUPS[:3])


def partial(ctx):
    """Fewer candidates than links: precision and recall at m only."""
    for k in range(0, 4):
        for perm in itertools.permutations(range(4), k):
            est = {c: 0.9 - 0.1 * r for r, c in enumerate(perm)}
            for bits in itertools.product((0, 1), repeat=4):
                e = [c for c in range(4) if bits[c]]
                ctx.case(("partial", perm, e))
                ctx.state(("partial", perm, tuple(e)))
                check(ctx, [e, [1]], [est, {1: 0.5, 0: 0.25}], 4, rank=False)


def pairs(ctx, perms):
    for p1 in perms:
        for p2 in itertools.permutations(range(3)):
            est = [{c: 1e-3 * (9 - r) for r, c in enumerate(p1)}, {c: 5.0 - r for r, c in enumerate(p2)}]
            for b in itertools.product((0, 1), repeat=6):
                exp = [[c for c in range(3) if b[c]], [c for c in range(3) if b[3 + c]]]
                if not (exp[0] or exp[1]):
                    continue
                ctx.case(("pair", p1, p2, exp))
                ctx.state((p1, p2, str(exp)))
                check(ctx, exp, est, 3, ats=([1, 2],), groups=GROUPS[:2])


def ladder(ctx):
    for n in (10, 33, 100, 101, 300):
        for step in (1, 3, 7):
            est = [{c: ((c * 7919 + d * 104729) % 99991) / 99991 + c * 1e-7 for c in range(n)} for d in range(4)]
            exp = [[c for c in range(n) if (c + d) % step == 0][: 5 ** d] for d in range(4)]
            ctx.case(("ladder", n, step))
            ctx.state(("ladder", n, step))
            check(ctx, exp, est, n, ats=(None, [1, 10, 50, 99, 100, 101, 250]))


def perplexity(ctx):
    import sidetopics.model.evals as ev
    from sidetopics.model.common import DataSet
    for ll in (-1e5, -1234.5, -10.0, -0.5, 0.0, np.float32(-77.5)):
        for n in (1, 2, 7, 1000, 12345):
            ctx.case(("perplexity", float(ll), n))
            ctx.state(("perplexity", float(ll), n))
            ctx.step()
            ctx.ran()
            with np.errstate(over="ignore"):
                ok, got = ctx.call("perplexity-raised", ev.perplexity_from_like, ll, n)
                if ok:
                    try:
                        want = math.exp(-float(ll) / n)
                    except OverflowError:
                        want = math.inf
                    ctx.close(got, want, "perplexity", rtol=1e-6)
    words = np.array([[1, 2, 0], [0, 4, 9]])
    links = np.array([[0, 3], [1, 0]])
    for dt in (np.int32, np.float64):
        for l in (None, links):
            data = DataSet(ssp.csr_matrix(words.astype(dt)), links=None if l is None else ssp.csr_matrix(l))
            ctx.case(("perplexity-data", np.dtype(dt).name, l is not None))
            ctx.state(("perplexity-data", np.dtype(dt).name, l is not None))
            ctx.step(2)
            ctx.ran()
            ok, got = ctx.call("perplexity-raised", ev.perplexity_from_like, -40.0, data)
            if ok:
                ctx.close(got, math.exp(40.0 / (16 + (0 if l is None else 4))), "perplexity-data", rtol=1e-12)
            seen = []

            def like(d, m, q):
                seen.append((d, m, q))
                return -24.0
            ok, got = ctx.call("perplexity-raised", ev.word_perplexity, like, "model", "query", data)
            if ok:
                ctx.close(got, math.exp(24.0 / 16), "word-perplexity", rtol=1e-12)
                ctx.expect(seen == [(data, "model", "query")], "word-perplexity-arguments")
    ctx.sample({"words": words, "log likelihood": -24.0})


def tasks(tier, seed):
    n = 4 if tier == "quick" else 5
    perms = list(itertools.permutations(range(n)))
    return [("single-%d" % i, single, (n, c)) for i, c in enumerate(chunks(perms, 8))] + \
        [("pairs-%d" % i, pairs, (c,)) for i, c in enumerate(chunks(itertools.permutations(range(3)), 3))] + \
        [("partial", partial, ()), ("ladder", ladder, ()), ("perplexity", perplexity, ())]
