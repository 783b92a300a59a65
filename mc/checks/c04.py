"""C04 overflow-safe numerics: every half-precision value, every binary exponent, every branch boundary and its neighbours."""
import itertools
import math
import numpy as np

from ..space import chunks, snapshot, distinct

PROPERTY = "C04"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("Scalar functions: all finite half-precision values, every power of two of the double (single) range with 3 mantissas "
        "and both signs, and every branch boundary +-40 ulps, in all array shapes (scalar block, vector, 2-D, empty, strided) "
        "and all out modes; matrix functions: all 1x1..3x3 matrices over a small alphabet and diagonal ladders.")
ASSUMPTIONS = ["arguments are finite and, for logarithms, inside the function's domain"]


def grid(dt, positive=False, bounds=()):
    half = np.arange(65536, dtype=np.uint16).view(np.float16)
    half = half[np.isfinite(half)].astype(np.float64)
    info = np.finfo(dt)
    lo, hi = (-1074, 1023) if dt is np.float64 else (-149, 127)
    exps = np.array([m * 2.0 ** e for e in range(lo, hi + 1) for m in (1.0, 1.25, 1.75) if m * 2.0 ** e <= float(info.max)])
    parts = [half, exps, -exps]
    for b in bounds:
        x = np.array(b, dtype=dt)
        up, dn = [x], [x]
        for _ in range(40):
            up.append(np.nextafter(up[-1], np.array(np.inf, dtype=dt)))
            dn.append(np.nextafter(dn[-1], np.array(-np.inf, dtype=dt)))
        parts.append(np.array(up + dn, dtype=np.float64))
    v = np.unique(np.concatenate(parts).astype(dt))
    v = v[np.isfinite(v)]
    return v[v >= 0] if positive else v


def layouts(v):
    n = len(v) // 2 * 2
    yield "vector", v
    yield "matrix", v[:n].reshape(2, -1)
    yield "column", v.reshape(-1, 1)
    yield "fortran", np.asfortranarray(v[:n].reshape(-1, 2))
    yield "strided", np.repeat(v, 2)[::2]
    yield "empty", v[:0]
    yield "single", v[len(v) // 3:len(v) // 3 + 1]
    yield "cube", v[:len(v) // 4 * 4].reshape(2, 2, -1)


def cmp(ctx, sig, got, want, rtol, atol, args, detail=None):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want)
    if got.shape != want.shape:
        ctx.fail(sig, {"shapes": [got.shape, want.shape]})
        return
    with np.errstate(all="ignore"):
        bad = ~((got == want) | (np.abs(got - want) <= atol + rtol * np.abs(want)))
    if bad.any():
        i = np.flatnonzero(bad.ravel())[:5]
        ctx.fail(sig, {"args": np.asarray(args).ravel()[i], "got": got.ravel()[i], "want": want.ravel()[i], "detail": detail})


def softplus_ref(x):
    x = x.astype(np.longdouble)
    with np.errstate(all="ignore"):
        return (np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))).astype(np.float64)


def vectorised(ctx, dt):
    import sidetopics.util.overflow_safe as o
    eps = float(np.finfo(dt).eps)
    jobs = []
    # log(1 + exp(x)): documented as close enough beyond +-17, where the neglected term is below 1e-7 of the result
    v = grid(dt, bounds=(-17, 0, 33, -33, 17, 709.78, -745.13))
    jobs.append(("softplus", o.safe_log_one_plus_exp_of, v, softplus_ref, 1e-7 if dt is np.float64 else 1e-6, 1e-307 if dt is np.float64 else 1.2e-7))
    v = grid(dt, bounds=(0.375, -0.375, 0, 1e-8))
    v = v[(v >= -0.375) & (v < 1e300)]
    jobs.append(("log1p", o.safe_log_one_plus, v, lambda x: np.log1p(x.astype(np.longdouble)).astype(np.float64), 1e-13 if dt is np.float64 else 3e-7, 1e-310 if dt is np.float64 else 1e-40))
    tiny = 1e-300 if dt is np.float64 else 1e-35
    v = grid(dt, positive=True, bounds=(0, tiny, 1))
    v = v[v < float(np.finfo(dt).max) / 1e4]
    with np.errstate(all="ignore"):
        jobs.append(("xlogx", o.safe_x_log_x, v, lambda x: np.where(x > 0, x.astype(np.float64) * np.log(np.where(x > 0, x, 1).astype(np.float64)), 0.0),
                     1e-12 if dt is np.float64 else 1e-6, 0))
    floor = float(np.log(np.array(tiny, dtype=np.float64)))
    v = grid(dt, bounds=(0, tiny, 1))

    def log_ref(x):
        x = x.astype(np.float64)
        return np.where(x >= float(np.array(tiny, dtype=dt)), np.log(np.where(x > 0, x, 1)), floor)
    with np.errstate(all="ignore"):
        for name, fn, v, ref, rtol, atol in jobs:
            want_all = ref(v)
            for lname, x in layouts(v):
                ctx.case((name, lname, dt.__name__, len(v)))
                ctx.state((name, lname, dt.__name__))
                before = snapshot(np.ascontiguousarray(x))
                ok, got = ctx.call(name + "-raised", fn, x)
                ctx.step(x.size)
                ctx.ran(n=x.size)
                if ok:
                    cmp(ctx, name, got, ref(x), rtol, atol, x, lname)
                    ctx.expect(bool(np.all(np.isfinite(got))), name + "-not-finite")
                    ctx.expect(before == snapshot(np.ascontiguousarray(x)), name + "-input-altered")
        for lname, x in layouts(v):
            for mode in ("none", "fresh", "self"):
                a = x.copy()
                out = None if mode == "none" else a if mode == "self" else np.full(x.shape, 7.5, dtype=dt)
                ctx.case(("log", lname, mode, dt.__name__))
                ctx.state(("log", lname, mode, dt.__name__))
                before = snapshot(a)
                ok, got = ctx.call("log-raised", o.safe_log, a, **({} if out is None else {"out": out}))
                ctx.step(x.size)
                ctx.ran(n=x.size)
                if ok:
                    cmp(ctx, "log", got, log_ref(x), 4 * eps, 4 * eps, x, (lname, mode))
                    if out is not None:
                        cmp(ctx, "log-out", out, log_ref(x), 4 * eps, 4 * eps, x, (lname, mode))
                    if mode != "self":
                        ctx.expect(before == snapshot(a), "log-input-altered")
    ctx.sample({"function": "safe_log", "values": len(v), "dtype": dt.__name__, "first": v[:3]})


def scalar_kernels(ctx):
    import sidetopics.util.se_fast as f
    for dt, fn, bounds, rtol, atol in ((np.float64, f.safe_log_one_plus_exp_f8, (-17, 17, 33, 0), 1e-7, 1e-307),
                                       (np.float32, f.safe_log_one_plus_exp_f4, (-11, 11, 13.8, 0), 2e-4, 1e-37)):
        v = grid(dt, bounds=bounds)
        want = softplus_ref(v)
        ctx.case(("softplus-kernel", dt.__name__))
        got = np.empty(len(v))
        for i, x in enumerate(v.tolist()):
            got[i] = fn(x)
        ctx.step(len(v))
        ctx.ran(n=len(v))
        ctx.state(("kernel", dt.__name__))
        cmp(ctx, "softplus-kernel", got, want, rtol, atol, v)
        # monotone up to the documented approximation at the branch points
        ctx.expect(bool(np.all(np.diff(got) >= -(atol + rtol * np.abs(got[1:])))), "softplus-kernel-monotone")


def det_ref(M):
    n = len(M)
    from fractions import Fraction
    M = [[Fraction(float(x)) for x in r] for r in M]
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det_ref([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def determinants(ctx, deep):
    import sidetopics.util.overflow_safe as o
    for n, alpha in ((1, (-2.0, 0.0, 1e-3, 1.0, 4.0)), (2, (-1.0, 0.0, 0.5, 2.0)), (3, (-1.0, 0.0, 2.0) if deep else (0.0, 1.0))):
        for vals in itertools.product(alpha, repeat=n * n):
            M = np.array(vals).reshape(n, n)
            d = float(det_ref(M.tolist()))
            for dt in (np.float64, np.float32):
                A = M.astype(dt)
                ctx.case(("det", A.tolist(), dt.__name__))
                ctx.state(("det", n, vals, dt.__name__))
                ctx.step(2)
                ctx.ran()
                d = float(det_ref(A.tolist()))
                before = snapshot(A)
                ok, got = ctx.call("det-raised", o.safeDet, A, "M")
                if ok:
                    tiny = 1e-35 if dt is np.float32 else 1e-300
                    if d > 1e-3:
                        ctx.close(float(got), d, "det", rtol=1e-5 if dt is np.float32 else 1e-10)
                    else:       # singular up to rounding, or negative: a tiny positive number
                        ctx.expect(0 < got and float(got) <= max(2 * tiny, abs(d) * 1.01 + 1e-5), "det-not-positive", float(got))
                if abs(d) > 1e-3:
                    ok, got = ctx.call("logdet-raised", o.safe_log_det, A)
                    if ok:
                        ctx.close(float(got), math.log(abs(d)), "logdet", rtol=1e-5 if dt is np.float32 else 1e-10, atol=1e-5 if dt is np.float32 else 1e-10)
                ctx.expect(before == snapshot(A), "det-input-altered")
    for n in (1, 2, 3, 5, 17, 64, 200):
        for s in (1e-200, 1e-3, 1.0, 1e3, 1e200):
            diag = distinct(n, 3) * s
            A = np.diag(diag)
            ctx.case(("diag", n, s))
            ctx.state(("diag", n, s))
            ctx.step(2)
            ctx.ran()
            want = sum(math.log(x) for x in diag.tolist())
            for name, fn in (("diag-logdet", o.lnDetOfDiagMat), ("slogdet", o.safe_log_det)):
                ok, got = ctx.call(name + "-raised", fn, A)
                if ok:
                    ctx.close(float(got), want, name, rtol=1e-10, atol=1e-9)
    ctx.sample({"matrix": A[:2, :2], "logdet": want})


def tasks(tier, seed):
    return [("vectorised-f8", vectorised, (np.float64,)), ("vectorised-f4", vectorised, (np.float32,)),
            ("kernels", scalar_kernels, ()), ("determinants", determinants, (tier == "thorough",))]
