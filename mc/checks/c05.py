"""C05: training stops on the bound exactly when its last rise is flatter than the threshold."""
import itertools
import math
import numpy as np

from ..space import chunks

PROPERTY = "C05"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All pairs of measurement iterations up to 60 x a ladder of rises with slopes around each threshold (each angle from 1 to 89 "
        "degrees, +-1e-6 relative) x all positions in the measurement arrays x minimum iterations around the last measurement; "
        "clamping for every length up to 12 and three types.")
ASSUMPTIONS = ["measurements are at increasing iterations and the bound does not fall"]


def stopping(ctx, angles, deep):
    from sidetopics.util.misc import converged
    gaps = (1, 2, 5, 10) if not deep else (1, 2, 3, 5, 7, 10, 25, 50)
    for eps in angles:
        for gap in gaps:
            edge = math.tan(math.radians(eps)) * gap
            for rise, want in ((0.0, True), (edge * (1 - 1e-6), True), (edge * (1 + 1e-6), False), (edge / 2, True), (edge * 2, False), (edge * 1e6, False)):
                for base in (0.0, -1e3, -123456.75):
                    if base and rise and abs(rise - edge) < 1e-5 * edge:
                        continue        # the difference of large bounds is too coarse for the edge
                    for n in (2, 3, 5, 8):
                        for last in (gap + 3, gap + 40, gap + 150):
                            iters = np.arange(12) * 1000 + 5000       # unused places hold rubbish
                            values = np.full(12, 1e9)
                            iters[:n] = last - gap - np.arange(n)[::-1] + 1
                            values[:n] = base - 1e7 * np.arange(n)[::-1]
                            iters[n - 1], iters[n - 2] = last, last - gap
                            values[n - 1], values[n - 2] = base + rise, base
                            for mi in (0, last - 1, last, last + 1, 100):
                                ctx.case(("stop", eps, gap, rise, base, n, last, mi))
                                ctx.state((eps, gap, rise, base, n, last, mi))
                                ctx.step()
                                ctx.ran()
                                expected = want and last >= mi
                                for it, va in ((iters, values), (iters.tolist(), values.tolist())):
                                    ok, got = ctx.call("raised", converged, it, va, n, epsilon=eps, minIters=mi)
                                    if ok:
                                        ctx.expect(bool(got) == expected, "wrong-answer", {"got": bool(got), "want": expected})
    # fewer than two measurements never suffice
    for n in (0, 1):
        for v in (0.0, 1.0):
            ctx.case(("few", n, v))
            ctx.step()
            ctx.ran(False)
            ok, got = ctx.call("raised", converged, np.array([500, 600]), np.array([v, v]), n, epsilon=50, minIters=0)
            if ok:
                ctx.expect(not got, "converged-on-nothing")
    for it, va, want in (([150, 160], [0.0, 1.7], True), ([150, 160], [0.0, 1.8], False), ([80, 90], [0.0, 0.0], False), ([90, 100], [0.0, 0.0], True)):
        ctx.case(("defaults", it, va))          # by default: 10 degrees, 100 iterations
        ctx.step()
        ok, got = ctx.call("raised", converged, np.array(it), np.array(va), 2)
        if ok:
            ctx.expect(bool(got) == want, "defaults", {"got": bool(got), "want": want})


def clamping(ctx):
    from sidetopics.util.misc import clamp, constantArray
    for n in range(0, 13):
        for k in range(0, n + 1):
            for t in itertools.product((np.int32, np.float64, np.float32), repeat=3):
                a = [np.arange(n).astype(x) + 7 * i for i, x in enumerate(t)]
                ctx.case(("clamp", n, k, [x.__name__ for x in t]))
                ctx.state(("clamp", n, k, str(t)))
                ctx.step()
                ctx.ran(0 < k < n)
                ok, r = ctx.call("clamp-raised", clamp, a[0], a[1], a[2], k)
                if ok:
                    for i in range(3):
                        ctx.expect(r[i].dtype == t[i] and r[i].tolist() == a[i][:k].tolist(), "clamp", {"got": r[i], "want": a[i][:k]})
                        r[i][...] = 99
                    ctx.expect(all(a[i].tolist() == (np.arange(n).astype(t[i]) + 7 * i).tolist() for i in range(3)), "clamp-shares")
    for shape in ((0,), (1,), (5,), (2, 3), (3, 1, 2)):
        for v, dt in ((0.5, np.float64), (3, np.int32), (1e-3, np.float32)):
            ctx.case(("constant", shape, v))
            ctx.step()
            ctx.ran()
            ok, r = ctx.call("constant-raised", constantArray, shape, v, dt)
            if ok:
                ctx.expect(r.shape == shape and r.dtype == dt and bool((r == dt(v)).all()), "constant", r)
    ctx.sample({"clamp": [n, k]})


def tasks(tier, seed):
    angles = [0.5, 1, 5, 10, 20, 30, 45, 60, 89] if tier == "quick" else [0.01, 0.1, 0.5] + list(range(1, 90))
    return [("stopping-%d" % i, stopping, (c, tier == "thorough")) for i, c in enumerate(chunks(angles, 7))] + [("clamp", clamping, ())]
