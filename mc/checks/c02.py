"""C02 softmax family: softmax, self-softmax dot, log-sum-exp, softplus sum, entropy of topic-word products."""
import itertools
import math
import numpy as np

from ..space import chunks, distinct, snapshot

PROPERTY = "C02"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All R x C score matrices, R*C<=4 (quick) / <=6 (thorough), over an alphabet of scores that includes ties, the "
        "overflow and underflow limits and 1e30-size values, x {f32,f64,long double} x {out, no out, in place} x weights "
        "{ones, integers, fractions, zero} in every accepted dtype; row/column ladders up to 257.")
ASSUMPTIONS = ["scores are finite; long double stands for a dtype without a native kernel"]

SCORES = [-1e30, -745.5, -88.0, -1.0, 0.0, 0.5, 2.0, 89.0, 710.0, 1e30]
SMALL = [-2.5, -1.0, 0.0, 0.5, 3.0]


def softmax(row):
    m = max(row)
    e = [math.exp(max(v - m, -800.0)) for v in row]
    s = sum(e)
    return [x / s for x in e]


def rt(dt):
    return 4e-5 if dt is np.float32 else 1e-11


def one(ctx, sig, se, M, dt):
    R, C = M.shape
    A = np.ascontiguousarray(M.astype(dt))
    A8 = A.astype(np.float64)
    rows = np.array([softmax(r) for r in A8.tolist()])
    cols = np.array([softmax(c) for c in A8.T.tolist()]).T
    for what, fn, want in (("rowwise", sig.rowwise_softmax, rows), ("colwise", sig.colwise_softmax, cols)):
        for mode in ("none", "fresh", "self"):
            a = A.copy()
            out = None if mode == "none" else a if mode == "self" else np.full(A.shape, -7, dtype=dt)
            ctx.case((what, mode, A.tolist(), str(dt)))
            ok, got = ctx.call(what + "-raised", fn, a, **({} if out is None else {"out": out}))
            ctx.step()
            ctx.ran()
            if not ok:
                continue
            ctx.close(got, want, what + "-softmax", rtol=rt(dt), atol=1e-30 if dt is np.float32 else 1e-290)
            ctx.expect(got.dtype == A.dtype, what + "-dtype")
            if out is not None:
                ctx.close(out, want, what + "-softmax-out", rtol=rt(dt), atol=1e-30 if dt is np.float32 else 1e-290)
            if mode != "self":
                ctx.expect(snapshot(a) == snapshot(A), what + "-input-altered")
    terms = np.array([sum(p * v for p, v in zip(ps, r) if p > 0) for ps, r in zip(rows.tolist(), A8.tolist())])
    scale = np.array([sum(abs(p * v) for p, v in zip(ps, r) if p > 0) for ps, r in zip(rows.tolist(), A8.tolist())])
    for mod in (sig, se):
        ctx.case(("selfsoft", mod.__name__, A.tolist(), str(dt)))
        ok, got = ctx.call("selfsoft-raised", mod.selfSoftDot, A)
        ctx.step()
        ctx.ran()
        if ok:
            ctx.close(float(got), terms.sum(), "selfsoft", rtol=rt(dt), atol=rt(dt) * scale.sum() + 1e-30)
    for wname, w in (("ones", np.ones(R)), ("int", np.arange(R) + 2), ("mixed", np.arange(R) - 1), ("frac", distinct(R, 3))):
        for wdt in (np.int64, np.int32, np.float64, np.float32):
            if wname == "frac" and wdt in (np.int64, np.int32):
                continue
            wv = w.astype(wdt)
            ctx.case(("scaled", wname, wdt.__name__, A.tolist(), str(dt)))
            ok, got = ctx.call("scaled-raised", sig.scaledSelfSoftDot, A, wv)
            ctx.step()
            ctx.ran()
            if ok:
                wf = wv.astype(np.float64)
                ctx.close(float(got), float((wf * terms).sum()), "scaled-selfsoft", rtol=4e-5 if np.float32 in (dt, wdt) else 1e-11,
                          atol=(4e-5 if np.float32 in (dt, wdt) else 1e-11) * float((np.abs(wf) * scale).sum()) + 1e-30)


def lse_and_sums(ctx, sig, se, M, dt):
    R, C = M.shape
    A = np.ascontiguousarray(M.astype(dt))
    A8 = A.astype(np.float64)
    limit = 80 if dt is np.float32 else 700
    if np.abs(A8).max() < limit:
        want = np.array([max(r) + math.log(sum(math.exp(v - max(r)) for v in r)) for r in A8.tolist()])
        for mod in (sig, se):
            ctx.case(("lse", mod.__name__, A.tolist(), str(dt)))
            ok, got = ctx.call("lse-raised", mod.lse, A)
            ctx.step()
            ctx.ran()
            if ok:
                ctx.close(got, want, "lse", rtol=rt(dt), atol=rt(dt))
    if dt is np.longdouble:
        return
    soft = np.array([[max(v, 0.0) + math.log1p(math.exp(-min(abs(v), 745.0))) for v in r] for r in A8.tolist()])
    for w in (np.ones(R), np.arange(R) + 0.5, np.arange(R) - 1.0):
        wv = w.astype(dt)
        ctx.case(("softplus", wv.tolist(), A.tolist(), str(dt)))
        ok, got = ctx.call("softplus-raised", se.scaledSumOfLnOnePlusExp, wv, A)
        ctx.step()
        ctx.ran()
        if ok:
            wf = wv.astype(np.float64)[:, None]
            tol = 2e-4 if dt is np.float32 else 1e-6
            ctx.close(float(got), float((wf * soft).sum()), "softplus-sum", rtol=tol, atol=tol * float((np.abs(wf) * soft).sum()) + 1e-30)


def small(ctx, cases):
    import sidetopics.util.sigmoid_utils as sig
    import sidetopics.util.sparse_elementwise as se
    sig.WarnIfSlow = se.WarnIfSlow = False
    for R, C, vals, dt in cases:
        M = np.array(vals, dtype=np.float64).reshape(R, C)
        ctx.state((R, C, vals, np.dtype(dt).name))
        with np.errstate(all="ignore"):
            one(ctx, sig, se, M, dt)
            lse_and_sums(ctx, sig, se, M, dt)
    ctx.sample({"shape": [R, C], "scores": list(vals), "dtype": np.dtype(dt).name})


def ladder(ctx):
    import sidetopics.util.sigmoid_utils as sig
    import sidetopics.util.sparse_elementwise as se
    sig.WarnIfSlow = se.WarnIfSlow = False
    for n in list(range(1, 18)) + [31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257]:
        for R, C in ((n, 2), (2, n), (n, 1), (1, n)):
            for k, f in enumerate((1.0, 40.0, 300.0)):
                for dt in (np.float64, np.float32, np.longdouble):
                    M = ((distinct(R * C, 11 * k) - 1.5) * f).reshape(R, C)
                    ctx.state((R, C, k, np.dtype(dt).name))
                    with np.errstate(all="ignore"):
                        one(ctx, sig, se, M, dt)
                        lse_and_sums(ctx, sig, se, M, dt)
    ctx.sample({"shape": [R, C], "scale": f})


def entropy(ctx, deep):
    import sidetopics.util.sparse_elementwise as se
    se.WarnIfSlow = False
    probs = [0.0, 0.25, 0.5, 1.0]
    count = 0
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 1, 3), (3, 1, 1), (1, 3, 1)] + ([(2, 2, 2)] if deep else [])
    ladder = [(d, k, t) for d, k, t in ((5, 3, 7), (3, 17, 4), (2, 3, 33), (33, 3, 2), (4, 4, 4), (1, 5, 5), (5, 1, 5), (5, 5, 1))]
    def cases():
        for D, K, T in shapes:
            for tv in itertools.product([0.0, 0.5, 3.0], repeat=D * K):
                top = np.array(tv).reshape(D, K)
                if (top.sum(axis=1) == 0).any():
                    continue
                for vv in itertools.product(probs, repeat=K * T):
                    yield top, np.array(vv).reshape(K, T)
        for D, K, T in ladder:
            voc = distinct(K * T, 5).reshape(K, T)
            voc /= voc.sum(axis=1, keepdims=True)
            yield distinct(D * K, 9).reshape(D, K), voc
            voc = voc.copy()
            voc[:, 0] = 0
            yield distinct(D * K, 9).reshape(D, K), voc
    for top, voc in cases():
        want = 0.0
        for row in top.tolist():
            s = sum(row)
            for k, p in enumerate(row):
                for q in voc[k].tolist():
                    z = p / s * q
                    if z > 0:
                        want -= z * math.log(z)
        for dt in (np.float64, np.float32, np.longdouble):
            a, b = top.astype(dt), voc.astype(dt)
            ctx.case(("entropy", a.tolist(), b.tolist(), np.dtype(dt).name))
            ctx.state((top.shape, voc.shape, top.tobytes(), voc.tobytes(), np.dtype(dt).name))
            before = snapshot(a, b)
            ok, got = ctx.call("entropy-raised", se.entropyOfDot, a, b)
            ctx.step()
            ctx.ran(want != 0)
            if ok:
                ctx.close(float(got), want, "entropy", rtol=rt(dt), atol=1e-5 if dt is np.float32 else 1e-11)
                ctx.expect(before == snapshot(a, b), "entropy-input-altered")
    ctx.sample({"topics": top, "vocab": voc, "entropy": want})


def tasks(tier, seed):
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]
    cases = []
    for R, C in shapes:
        alpha = SCORES if R * C <= 3 else SMALL + [-745.5, 710.0]
        for vals in itertools.product(alpha, repeat=R * C):
            for dt in (np.float64, np.float32, np.longdouble):
                cases.append((R, C, vals, dt))
    if tier == "thorough":
        for R, C in ((1, 4), (4, 1), (2, 3), (3, 2)):
            for vals in itertools.product([-745.5, 0.0, 0.5, 89.0, 1e30] if R * C == 4 else [-88.0, 0.0, 1.0, 710.0], repeat=R * C):
                for dt in (np.float64, np.float32, np.longdouble):
                    cases.append((R, C, vals, dt))
    return [("scores-%02d" % i, small, (c,)) for i, c in enumerate(chunks(cases, 16))] + \
           [("ladder", ladder, ()), ("entropy", entropy, (tier == "thorough",))]
