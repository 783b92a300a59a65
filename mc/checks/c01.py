"""C01 sparse-by-low-rank kernels: every pattern, shape, precision, window and output mode."""
import itertools
import numpy as np
import scipy.sparse as ssp

from ..space import csr_with, patterns, distinct, chunks, snapshot

PROPERTY = "C01"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("All sparsity patterns of all shapes up to 3x3 (quick) / 3x4 and 4x3 (thorough) x rank 1..3 x {f32,f64} x all row "
        "windows x {no out, fresh out, out is A} x 4 value palettes (distinct, signed, zeros and subnormals, explicit "
        "zeros); plus rank/row/column ladders up to 1025 for structured patterns. Every result entry compared.")
ASSUMPTIONS = ["A is CSR with 32-bit indices; A, B and C have one floating dtype; an out matrix has the pattern of the result"]

TINY = {np.float64: np.finfo(np.float64).tiny, np.float32: float(np.finfo(np.float32).tiny)}
RT = {np.float64: 1e-11, np.float32: 3e-5}


def factors(D, K, T, dt, palette):
    B = distinct(D * K, 100).reshape(D, K)
    C = distinct(K * T, 1000).reshape(K, T)
    if palette == "signed":
        B = B * np.where(np.arange(D) % 2 == 0, -1.0, 1.0)[:, None]
    elif palette == "edge":
        # zero rows/columns, products that underflow, products just around the smallest normal number
        sc = np.array([0.0, 1.0, float(TINY[dt]) / 4, 3e-160 if dt is np.float64 else 3e-20])
        B = B * sc[(np.arange(D) + 1) % 4][:, None]
        C = C * np.array([1.0, 0.0, 1e-160 if dt is np.float64 else 1e-20])[np.arange(T) % 3][None, :]
    return np.ascontiguousarray(B.astype(dt)), np.ascontiguousarray(C.astype(dt))


def values(n, palette):
    v = distinct(n, 7)
    if palette == "signed":
        v[1::2] *= -1
    if palette == "zeros":
        v[::2] = 0
    return v


def reference(kind, A, B, C, d, dt):
    """The specification, in double precision on exactly the inputs given."""
    rows = np.repeat(np.arange(A.shape[0]), np.diff(A.indptr))
    B8, C8 = B.astype(np.float64), C.astype(np.float64)
    if kind == "normed":
        C8 = C8 / d.astype(np.float64)[:, None]
    dots = np.array([sum(B8[r, k] * C8[k, c] for k in range(B8.shape[1])) for r, c in zip(rows, A.indices)]) \
        if B8.shape[1] * len(rows) < 4000 else np.einsum("ik,ki->i", B8[rows], C8[:, A.indices])
    a = A.data.astype(np.float64)
    with np.errstate(all="ignore"):
        if kind == "product":
            return a * dots
        if kind == "log":
            t = float(TINY[dt])
            return a * np.log(np.where(dots > t, dots, t)) if len(dots) else a
        return a / dots


def compare(ctx, kind, dt, got, A, want, out, mode, win):
    if not ctx.expect(ssp.issparse(got) and got.shape == A.shape, "%s-shape" % kind, lambda: {"shape": getattr(got, "shape", None)}):
        return
    ctx.expect(np.array_equal(got.indptr, A.indptr) and np.array_equal(got.indices, A.indices), "%s-pattern" % kind)
    ctx.expect(got.dtype == A.dtype, "%s-dtype" % kind, str(got.dtype))
    ctx.close(got.data, want, "%s-value" % kind, rtol=RT[dt], atol=0 if kind != "log" else 3e-5 if dt is np.float32 else 1e-11,
              detail={"mode": mode, "window": win})
    if out is not None:
        ctx.close(out.data, want, "%s-out" % kind, rtol=RT[dt], atol=0 if kind != "log" else 3e-5 if dt is np.float32 else 1e-11,
                  detail={"mode": mode, "window": win})


def run_case(ctx, se, A, K, dt, palette, windows=True):
    D, T = A.shape
    B, C = factors(D, K, T, dt, palette)
    d = distinct(K, 5000).astype(dt)
    kinds = [("product", se.sparseScalarProductOfDot, False), ("quotient", se.sparseScalarQuotientOfDot, True),
             ("normed", se.sparseScalarQuotientOfNormedDot, False), ("log", se.sparseScalarProductOfSafeLnDot, True)]
    for kind, fn, windowed in kinds:
        if palette == "edge" and kind in ("quotient", "normed", "product"):
            continue
        if palette == "signed" and kind == "log":
            continue
        want = reference(kind, A, B, C, d, dt)
        extra = (d,) if kind == "normed" else ()
        for mode in ("none", "fresh", "self"):
            a = A.copy()
            out = None
            if mode == "fresh":
                out = A.copy()
                out.data[:] = -77.25
            elif mode == "self":
                out = a
            ctx.case((kind, dt.__name__, palette, mode, K, A.shape, A.indptr.tolist(), A.indices.tolist()))
            before = snapshot(B, C, d) if mode == "self" else snapshot(a, B, C, d)
            ok, got = ctx.call("%s-raised" % kind, fn, a, B, C, *extra, **({} if out is None else {"out": out}))
            ctx.step()
            ctx.ran(A.nnz > 0)
            if ok:
                compare(ctx, kind, dt, got, A, want, out, mode, None)
                ctx.expect(before == (snapshot(B, C, d) if mode == "self" else snapshot(a, B, C, d)), "%s-input-altered" % kind)
                if mode == "none":
                    ctx.expect(got is not a and not np.shares_memory(got.data, a.data) or a.nnz == 0, "%s-aliases-input" % kind)
        if windowed and windows:
            for s, e in itertools.combinations_with_replacement(range(D + 1), 2):
                if s >= D:
                    continue
                sub = A[s:e, :]
                ws = want[A.indptr[s]:A.indptr[e]]
                for mode in ("none", "fresh"):
                    out = None
                    if mode == "fresh":
                        out = sub.copy()
                        out.data[:] = -77.25
                    ctx.case((kind, "window", s, e, dt.__name__, palette, mode, K, A.shape, A.indptr.tolist(), A.indices.tolist()))
                    before = snapshot(A, B, C)
                    ok, got = ctx.call("%s-window-raised" % kind, fn, A, np.ascontiguousarray(B[s:e]), C, start=s, end=e,
                                       **({} if out is None else {"out": out}))
                    ctx.step()
                    ctx.ran(sub.nnz > 0)
                    if ok:
                        compare(ctx, kind + "-window", dt, got, sub, ws, out, mode, (s, e))
                        ctx.expect(before == snapshot(A, B, C), "%s-input-altered" % kind)


def small(ctx, cases):
    import sidetopics.util.sparse_elementwise as se
    for D, T, bits, K, dt, palette in cases:
        pat = np.array(bits, dtype=bool).reshape(D, T)
        A = csr_with(pat, values(int(pat.sum()), palette), dt)
        ctx.state((D, T, bits, K, dt.__name__, palette))
        run_case(ctx, se, A, K, dt, palette)
    ctx.sample({"shape": [D, T], "pattern": list(map(int, bits)), "rank": K, "dtype": dt.__name__, "palette": palette})


def ladder(ctx, cases):
    import sidetopics.util.sparse_elementwise as se
    for D, T, K, dt, shape in cases:
        pat = np.zeros((D, T), dtype=bool)
        r, c = np.ogrid[:D, :T]
        if shape == "dense":
            pat[:] = True
        elif shape == "band":
            pat = ((c - r) % 3 == 0)
        elif shape == "edges":
            pat[0, :] = True
            pat[-1, :] = True
            pat[:, -1] = True
        elif shape == "hole":
            pat[:] = True
            pat[D // 2] = False
        for palette in ("distinct", "edge"):
            A = csr_with(pat, values(int(pat.sum()), palette), dt)
            ctx.state((D, T, K, dt.__name__, shape, palette))
            run_case(ctx, se, A, K, dt, palette, windows=D <= 12)
            # unsorted column indices and stored duplicates of the same cell are legal CSR
        A = csr_with(pat, values(int(pat.sum()), "distinct"), dt)
        if A.nnz > 1 and D <= 12:
            B = A.copy()
            for row in range(D):
                lo, hi = B.indptr[row], B.indptr[row + 1]
                B.indices[lo:hi] = B.indices[lo:hi][::-1].copy()
            ctx.state((D, T, K, dt.__name__, shape, "unsorted"))
            run_case(ctx, se, B, K, dt, "distinct")
            if B.nnz > 1:
                B = A.copy()
                B.indices[:] = B.indices[0]
                ctx.state((D, T, K, dt.__name__, shape, "duplicates"))
                run_case(ctx, se, B, K, dt, "distinct", windows=False)
    ctx.sample({"shape": [D, T], "rank": K, "pattern": shape})


def dense_factor(ctx):
    """The product with an explicit dense matrix, and integer matrices, which have no native kernel."""
    import sidetopics.util.sparse_elementwise as se
    for D, T in itertools.product(range(1, 4), repeat=2):
        for pat in patterns(D, T):
            for dt in (np.float64, np.float32, np.int32, np.int64):
                A = csr_with(pat, values(int(pat.sum()), "signed") * (10 if dt in (np.int32, np.int64) else 1), dt)
                B = (distinct(D * T, 50).reshape(D, T) * 10).astype(dt)
                want = A.toarray().astype(np.float64) * B.astype(np.float64)
                for mode in ("none", "fresh", "self"):
                    a = A.copy()
                    out = None if mode == "none" else a if mode == "self" else A.copy()
                    if mode == "fresh":
                        out.data[:] = 77
                    ctx.case(("dense", D, T, str(dt), mode, pat.tolist()))
                    ctx.state((D, T, pat.tobytes(), str(dt)))
                    b0 = snapshot(B)
                    ok, got = ctx.call("dense-raised", se.sparseScalarProductOf, a, B, **({} if out is None else {"out": out}))
                    ctx.step()
                    ctx.ran(A.nnz > 0)
                    if ok:
                        ctx.close(got.toarray(), want, "dense-value", rtol=1e-6)
                        ctx.expect(np.array_equal(got.indptr, A.indptr) and np.array_equal(got.indices, A.indices), "dense-pattern")
                        if out is not None:
                            ctx.close(out.toarray(), want, "dense-out", rtol=1e-6)
                        ctx.expect(b0 == snapshot(B), "dense-input-altered")
                if dt in (np.int32, np.int64):
                    for K in (1, 2):
                        L, R = (distinct(D * K, 3).reshape(D, K) * 5).astype(dt), (distinct(K * T, 9).reshape(K, T) * 5).astype(dt)
                        want = A.toarray().astype(np.int64) * L.astype(np.int64).dot(R.astype(np.int64))
                        for mode in ("none", "fresh", "self"):
                            a = A.copy()
                            out = None if mode == "none" else a if mode == "self" else A.copy()
                            if mode == "fresh":
                                out.data[:] = 77
                            ctx.case(("int-product", D, T, str(dt), mode, K, pat.tolist()))
                            ok, got = ctx.call("int-raised", se.sparseScalarProductOfDot, a, L, R, **({} if out is None else {"out": out}))
                            ctx.step()
                            ctx.ran(A.nnz > 0)
                            if ok:
                                ctx.close(got.toarray(), want, "int-value", rtol=0)
                                if out is not None:
                                    ctx.close(out.toarray(), want, "int-out", rtol=0)


def refusals(ctx):
    """What the kernels cannot do they refuse, rather than compute nonsense."""
    import sidetopics.util.sparse_elementwise as se
    A = csr_with(np.ones((2, 2), bool), [1, 2, 3, 4], np.float64)
    B, C = np.ones((2, 2)), np.ones((2, 2))
    for fn, extra in ((se.sparseScalarProductOfDot, ()), (se.sparseScalarQuotientOfDot, ()), (se.sparseScalarProductOfSafeLnDot, ()),
                      (se.sparseScalarQuotientOfNormedDot, (np.ones(2),))):
        for what, args in (("csc", (A.tocsc(), B, C)), ("fortran-B", (A, np.asfortranarray(B), C)), ("fortran-C", (A, B, np.asfortranarray(C)))):
            ctx.case(("refuse", fn.__name__, what))
            ctx.state(("refuse", fn.__name__, what))
            ctx.raises("accepts-" + what, (AssertionError, ValueError, TypeError), fn, *(args + extra))
            ctx.step()
            ctx.ran()


def tasks(tier, seed):
    shapes = [(d, t) for d in range(1, 4) for t in range(1, 4)]
    if tier == "thorough":
        shapes += [(4, 3), (3, 4), (5, 2), (2, 5), (4, 2), (2, 4)]
    cases = []
    for D, T in shapes:
        for bits in itertools.product((0, 1), repeat=D * T):
            for K in (1, 2, 3):
                if D * T >= 12 and K == 2:
                    continue
                for dt in (np.float64, np.float32):
                    for pal in ("distinct", "signed", "edge", "zeros"):
                        if tier == "quick" and D * T >= 9 and (K == 1 or (pal == "signed")):
                            continue
                        cases.append((D, T, bits, K, dt, pal))
    out = [("small-%02d" % i, small, (c,)) for i, c in enumerate(chunks(cases, 24))]
    lad = []
    big = [4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 101, 127, 129, 255, 256, 257, 1000, 1025]
    for n in big:
        for dt in (np.float64, np.float32):
            for shape in ("dense", "band", "edges", "hole"):
                lad += [(3, 3, n, dt, shape), (n, 3, 2, dt, shape), (3, n, 2, dt, shape)]
                if n <= 33:
                    lad += [(n, n, n, dt, shape)]
    out += [("ladder-%02d" % i, ladder, (c,)) for i, c in enumerate(chunks(lad, 12))]
    out += [("dense", dense_factor, ()), ("refusals", refusals, ())]
    return out
