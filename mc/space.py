"""Enumerators of small finite spaces, shared by the checks."""
import itertools
import numpy as np
import scipy.sparse as ssp

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def distinct(n, offset=0, lo=0.5):
    """n distinct, unrelated positive numbers in [lo, lo+2): any mixed-up index shows."""
    i = np.arange(1, n + 1, dtype=np.float64) + offset
    return lo + 2.0 * np.modf(i * 0.6180339887498949 + i * i * 0.0317)[0]


def patterns(rows, cols):
    """All 0/1 matrices of the shape."""
    for bits in itertools.product((0, 1), repeat=rows * cols):
        yield np.array(bits, dtype=bool).reshape(rows, cols)


def csr_with(pattern, values, dtype):
    """CSR matrix with exactly the stored entries of pattern, in row-major order."""
    rows, cols = pattern.shape
    r, c = np.nonzero(pattern)
    indptr = np.zeros(rows + 1, dtype=np.int32)
    np.cumsum(np.bincount(r, minlength=rows), out=indptr[1:])
    return ssp.csr_matrix((np.asarray(values, dtype=dtype)[:len(r)].copy(), c.astype(np.int32), indptr), shape=(rows, cols))


def chunks(seq, n):
    """Splits a list in n interleaved shards (those which are not empty)."""
    seq = list(seq)
    return [s for s in (seq[i::n] for i in range(n)) if s]


def count_matrices(rows, cols, values):
    """All matrices with entries from values."""
    for v in itertools.product(values, repeat=rows * cols):
        yield np.array(v).reshape(rows, cols)


def snapshot(*arrays):
    """Bytes of arrays / sparse matrices, to show that nobody altered them."""
    out = []
    for a in arrays:
        if a is None:
            out.append(None)
        elif ssp.issparse(a):
            out.append((a.shape, a.data.tobytes(), a.indices.tobytes(), a.indptr.tobytes(), str(a.dtype)))
        elif isinstance(a, np.ndarray):
            out.append((a.shape, a.tobytes(), str(a.dtype)))
        else:
            out.append(repr(a))
    return out


def up_to_renaming(n):
    """One link pattern between n documents for each class of those that differ in the names of the documents only."""
    seen, out = set(), []
    perms = list(itertools.permutations(range(n)))
    for pat in patterns(n, n):
        p = np.asarray(pat)
        if p.tobytes() in seen:
            continue
        for q in perms:
            seen.add(p[np.ix_(q, q)].tobytes())
        out.append(p)
    return out
