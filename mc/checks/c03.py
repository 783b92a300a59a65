"""C03 vec-transpose: every shape, divisor, precision and sparsity pattern."""
import itertools
import numpy as np
import scipy.sparse as ssp

from ..space import csr_with, patterns, distinct, chunks, snapshot

PROPERTY = "C03"
LEVEL = "model_checking"
NATIVE = ["vt_fast"]
RULE = ("All shapes up to 8x8 (quick) / 16x12 (thorough) x every scale 1..rows+1 x {f64,f32,i32,i64} x {C, Fortran, strided} "
        "layouts; all sparsity patterns of all shapes with at most 8 (quick) / 12 (thorough) cells x every scale; all "
        "permutation matrices of shapes up to 12x12 / 40x40 and a ladder of larger shapes.")
ASSUMPTIONS = ["sparse matrices are CSR with 32-bit indices"]
DTYPES = (np.float64, np.float32, np.int32, np.int64)


def reference(A, p):
    """Each column reshaped, in column order, to p rows; the results stacked from top to bottom."""
    rows, cols = A.shape
    out = np.zeros((cols * p, rows // p), dtype=A.dtype)
    for c in range(cols):
        for r in range(rows):
            out[c * p + r % p, r // p] = A[r, c]
    return out


def dense(ctx, cases):
    import sidetopics.util.vectrans as vt
    for rows, cols, dt in cases:
        A0 = (np.arange(rows * cols).reshape(rows, cols) * 3 + 1).astype(dt)
        layouts = [("C", A0)]
        if dt in (np.float64, np.float32):
            layouts += [("F", np.asfortranarray(A0)), ("strided", np.repeat(np.repeat(A0, 2, 0), 2, 1)[::2, ::2])]
        for layout, A in layouts:
            for p in range(1, rows + 2):
                ctx.case(("dense", rows, cols, p, np.dtype(dt).name, layout))
                ctx.state((rows, cols, p, np.dtype(dt).name, layout))
                ctx.step()
                ctx.ran()
                if rows % p:
                    ctx.raises("dense-accepts-bad-scale", (ValueError, AssertionError, ZeroDivisionError), vt.vec_transpose, A, p)
                    continue
                before = snapshot(np.ascontiguousarray(A))
                ok, got = ctx.call("dense-raised", vt.vec_transpose, A, p)
                if not ok:
                    continue
                ctx.close(got, reference(A0, p), "dense-value", rtol=0, atol=0)
                ctx.expect(got.dtype == A.dtype, "dense-dtype")
                ctx.expect(before == snapshot(np.ascontiguousarray(A)), "dense-input-altered")
                # the inverse: reading the blocks back gives the original
                back = np.vstack([got[c * p:(c + 1) * p, :].reshape(-1, order="F") for c in range(cols)]).T
                ctx.close(back, A0, "dense-lossy", rtol=0, atol=0)
        ctx.case(("vec", rows, cols))
        ok, got = ctx.call("vec-raised", vt.vec, A0)
        if ok:
            ctx.close(got, np.array([[A0[r, c]] for c in range(cols) for r in range(rows)]), "vec-value", rtol=0, atol=0)
    ctx.sample({"shape": [rows, cols], "dtype": np.dtype(dt).name})


def sparse_case(ctx, vt, A, p):
    rows, cols = A.shape
    ctx.step()
    ctx.ran(A.nnz > 0)
    if rows % p:
        ctx.raises("sparse-accepts-bad-scale", (ValueError, AssertionError, ZeroDivisionError), vt.vec_transpose_csr, A, p)
        return
    before = snapshot(A)
    ok, got = ctx.call("sparse-raised", vt.vec_transpose_csr, A, p)
    if not ok:
        return
    ctx.close(got.toarray(), reference(A.toarray(), p), "sparse-value", rtol=0, atol=0)
    ctx.expect(ssp.issparse(got) and got.dtype == A.dtype and got.nnz == A.nnz, "sparse-form",
               lambda: {"dtype": str(got.dtype), "nnz": [got.nnz, A.nnz]})
    ctx.expect(before == snapshot(A), "sparse-input-altered")


def sparse(ctx, shapes, maxbits):
    import sidetopics.util.vectrans as vt
    for rows, cols in shapes:
        for pat in patterns(rows, cols):
            for dt in DTYPES:
                A = csr_with(pat, np.arange(1, rows * cols + 1) * 3, dt)
                for p in range(1, rows + 2):
                    if rows % p and pat.sum() not in (0, rows * cols):
                        continue
                    ctx.case(("sparse", pat.tolist(), p, np.dtype(dt).name))
                    ctx.state((rows, cols, pat.tobytes(), p, np.dtype(dt).name))
                    if rows % p and pat.sum() == 0:
                        continue
                    sparse_case(ctx, vt, A, p)
        ctx.sample({"shape": [rows, cols], "patterns": 2 ** (rows * cols)})


def sparse_big(ctx):
    import sidetopics.util.vectrans as vt
    for rows, cols in ((12, 5), (24, 3), (6, 30), (60, 2), (64, 9), (120, 3), (256, 4), (300, 7)):
        for k in range(4):
            r, c = np.ogrid[:rows, :cols]
            pat = [(r + c) % 2 == 0, (r * c) % 3 == 1, (r < rows // 2) & (c >= 0), (r == rows - 1) | (c == cols - 1)][k]
            for dt in DTYPES:
                A = csr_with(pat, np.arange(1, rows * cols + 1), dt)
                for p in [q for q in range(1, rows + 1) if rows % q == 0]:
                    ctx.case(("sparse-big", rows, cols, k, p, np.dtype(dt).name))
                    ctx.state((rows, cols, k, p, np.dtype(dt).name))
                    sparse_case(ctx, vt, A, p)
                    if k == 0 and A.nnz > 3:      # unsorted indices are legal
                        B = A.copy()
                        for row in range(rows):
                            lo, hi = B.indptr[row], B.indptr[row + 1]
                            B.indices[lo:hi] = B.indices[lo:hi][::-1].copy()
                        sparse_case(ctx, vt, B, p)
    ctx.sample({"shape": [rows, cols]})


def matrix(ctx, shapes):
    import sidetopics.util.vectrans as vt
    for rows, cols in shapes:
        ctx.case(("permutation", rows, cols))
        ctx.state((rows, cols))
        ctx.step()
        ctx.ran()
        A = np.arange(rows * cols, dtype=np.float64).reshape(rows, cols) + 1
        ok, P = ctx.call("permutation-raised", vt.sp_vec_trans_matrix, (rows, cols))
        if not ok:
            continue
        ctx.close(P.dot(A.reshape(-1, 1, order="F")), A.T.reshape(-1, 1, order="F"), "permutation-value", rtol=0, atol=0)
        ctx.expect(P.shape == (rows * cols,) * 2 and P.nnz == rows * cols, "permutation-form")
        ctx.expect(np.array_equal(np.bincount(P.indices, minlength=rows * cols), np.ones(rows * cols)), "permutation-not-one")
    ctx.sample({"shape": [rows, cols]})


def tasks(tier, seed):
    R, C = (8, 8) if tier == "quick" else (16, 12)
    ds = [(r, c, dt) for r in range(1, R + 1) for c in range(1, C + 1) for dt in DTYPES]
    ds += [(r, c, dt) for r, c in ((32, 3), (100, 2), (33, 7), (3, 129), (129, 3), (256, 2), (257, 1)) for dt in DTYPES]
    cells = 8 if tier == "quick" else 12
    sh = [(r, c) for r in range(1, cells + 1) for c in range(1, cells + 1) if r * c <= cells]
    n = 12 if tier == "quick" else 40
    ms = [(r, c) for r in range(1, n + 1) for c in range(1, n + 1)] + [(37, 53), (1, 300), (300, 1), (101, 7), (128, 129), (257, 33)]
    return [("dense-%d" % i, dense, (c,)) for i, c in enumerate(chunks(ds, 6))] + \
           [("sparse-%dx%d" % s, sparse, ([s], cells)) for s in sh] + [("sparse-big", sparse_big, ())] + \
           [("matrix-%d" % i, matrix, (c,)) for i, c in enumerate(chunks(ms, 4))]
