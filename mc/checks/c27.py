"""C27 tools that prepare data and reshape results: what is in their files is what they give, no more, no less."""
import contextlib
import csv
import io
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import scipy.sparse as ssp

from ..space import chunks, distinct

PROPERTY = "C27"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All tables of up to 2x2, 3x1 and 1x3 of eight kinds of number, dense and sparse, in four layouts; all sequences of up to 4 user records from a palette x bounds; all totals 0-5 of up to 4 "
        "groups x all targets, all small sets of users x contributions; all sequences of up to 3 batches of results of twelve kinds; author lists of up to 3 names of nine "
        "kinds in every separation; all orders of the fields of abstracts; ladders.")
ASSUMPTIONS = ["files are well-formed: tables are rectangular, results have a precision table and a mean reciprocal rank, fields of abstracts have a colon"]


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="c27-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quietly(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


# --- tables of numbers ------------------------------------------------------------------------
TOKENS = ("0", "7", "-3", "2.5", "-0.25", "1e-2", "+4", "3e2")
LAYOUTS = ("%s", " %s ", "%s\r", "\t%s")


def table(ctx, m, d, rows, layout, sparse, given=None):
    path = os.path.join(d, "numbers.dat")
    out = path[:-4] + ".npy"
    if os.path.exists(out):
        os.remove(out)
    with open(path, "w", newline="") as f:
        f.write("\n".join(LAYOUTS[layout] % (" " if layout % 2 == 0 else "\t").join(r) for r in rows) + ("\n" if layout != 1 else ""))
    save = m.save_as_numpy_sparse if sparse else m.save_as_numpy
    if given is not None:
        try:
            quietly(save, path, given)
            ctx.fail("wrong-length-accepted", given)
        except Exception:
            pass
        except SystemExit:
            pass
        ctx.expect(not os.path.exists(out), "wrong-length-written", given)
        return
    try:
        ok, _ = ctx.call("table-raised", quietly, save, path, len(rows))
    except SystemExit:
        ctx.fail("table-refused", rows)
        return
    if not ok:
        return
    with open(out, "rb") as f:
        got = pickle.load(f)
    if sparse and not ctx.expect(ssp.issparse(got), "not-sparse"):
        return
    got = got.toarray() if ssp.issparse(got) else np.asarray(got)
    want = np.array([[float(x) for x in r] for r in rows])
    ctx.expect(got.shape == want.shape, "shape", got.shape)
    whole = bool(np.all(want == np.round(want)))
    if got.shape == want.shape:
        ctx.expect(bool(np.all(got.astype(float) == (want if whole else want.astype(np.float32).astype(float)))) or bool(np.all(got.astype(float) == want)), "numbers", {"got": got, "want": want})


def tables(ctx, cases):
    import sidetopics.run.text_to_numpy as m
    with folder() as d:
        for i, (shape, toks) in enumerate(cases):
            rows = [list(toks[r * shape[1]:(r + 1) * shape[1]]) for r in range(shape[0])]
            for sparse in (False, True):
                ctx.case(("table", rows, i % 4, sparse))
                ctx.state(("table", shape, toks, i % 4, sparse))
                ctx.ran()
                ctx.step()
                table(ctx, m, d, rows, i % 4, sparse)
                if i % 5 == 0:
                    for given in (shape[0] - 1, shape[0] + 1):
                        ctx.step()
                        table(ctx, m, d, rows, i % 4, sparse, given)
        for n, text in ((3, "3 x.dat\n"), (12345, "   12345 some file.dat\n")):
            p = os.path.join(d, "x.cnt")
            with open(p, "w") as f:
                f.write(text)
            ctx.case(("count", text))
            ok, got = ctx.call("count-raised", m.read_wc_l_output, p)
            if ok:
                ctx.expect(got == n, "count", got)
    ctx.sample({"rows": rows})


def big_tables(rows, cols, which):
    x = distinct(rows * cols, 5 + which)
    out = []
    for i, v in enumerate(x):
        out.append(("%d" % (v * 1e6), "%.4f" % (v - 1), "0" if i % 3 else "%d" % (v * 100), "%d" % (i * 50021))[which % 4])
    if which == 4:
        out[-1] = "0.5"
    return (rows, cols), tuple(out)


# --- users ------------------------------------------------------------------------------------
LINES = ((5, "a", "x.txt"), (2, "a", "x.dat"), (3, "a", "y.z.txt"), (4, "b", "x"), (1, "b", "w"), (9, "c", "v.txt"))


def users(ctx, depth):
    import sidetopics.run.selectusers as m
    with folder() as d:
        path = os.path.join(d, "counts.txt")
        for n in range(1, depth + 1):
            for ls in itertools.product(LINES, repeat=n):
                with open(path, "w") as f:
                    f.write("".join("%d\t%s\t%s\n" % l for l in ls))
                for lo, hi in ((0, 10 ** 9), (2, 8), (4, 10)):
                    ctx.case(("counts", ls, lo, hi))
                    ctx.state(("counts", ls, lo, hi))
                    ctx.ran()
                    ctx.step()
                    want = {}
                    for c, g, u in ls:
                        u = u.rsplit(".", 1)[0]
                        want.setdefault(g, {})
                        want[g][u] = want[g].get(u, 0) + c
                    want = {g: {u: c for u, c in us.items() if lo < c < hi} for g, us in want.items()}
                    ok, got = ctx.call("counts-raised", m.read_counts, path, lo, hi)
                    if ok:
                        ctx.expect({g: dict(us) for g, us in got.items() if us} == {g: us for g, us in want.items() if us}, "counts", {"got": got, "want": want})
    ctx.sample({"records": ls})


def shares(ctx, cases):
    """Every group gives as much as any other, or all it has, and together they give what was asked for."""
    import sidetopics.run.selectusers as m
    for totals, target in cases:
        ctx.case(("shares", totals, target))
        ctx.state(("shares", totals, target))
        ctx.ran()
        ctx.step()
        counts = {"g%d" % i: ({"u%d" % i: t - t // 3, "v%d" % i: t // 3} if t else {}) for i, t in enumerate(totals)}
        ok, got = ctx.call("shares-raised", m.select_group_contribs, counts, target)
        if not ok:
            continue
        if not ctx.expect(set(got) == set(counts), "groups-missing", got):
            continue
        c = [got["g%d" % i] for i in range(len(totals))]
        level = max(c)
        ctx.expect(all(x == min(t, level) for x, t in zip(c, totals)), "uneven-shares", c)
        if target >= sum(totals):
            ctx.expect(c == list(totals), "not-all", c)
        else:
            ctx.expect(abs(sum(c) - target) <= len(c), "off-target", c)
    ctx.sample({"totals": totals, "target": target})


def choices(ctx, cases):
    import sidetopics.run.selectusers as m
    was = m.SortTweet
    try:
        for groups, contribs, ordered in cases:
            ctx.case(("choice", groups, contribs, ordered))
            ctx.state(("choice", groups, contribs, ordered))
            ctx.ran()
            ctx.step()
            m.SortTweet = ordered
            counts = {"g%d" % g: {"g%du%d" % (g, i): c for i, c in enumerate(us)} for g, us in enumerate(groups)}
            ok, got = ctx.call("choice-raised", quietly, m.select_users, counts, {"g%d" % g: c for g, c in enumerate(contribs)})
            if not ok:
                continue
            ctx.expect(set(got) <= {u for us in counts.values() for u in us}, "unknown-users", got)
            for g, want in enumerate(contribs):
                us = counts["g%d" % g]
                has = [c for u, c in us.items() if u in got]
                rest = [c for u, c in us.items() if u not in got]
                ctx.expect(sum(has) >= min(want, sum(us.values())), "too-few-users", {"chosen": has, "wanted": want})
                ctx.expect(not has or sum(has) - max(has) < want if not ordered else not has or sum(has) - min(has) < want, "too-many-users", {"chosen": has, "wanted": want})
                if ordered:
                    ctx.expect(not has or not rest or min(has) >= max(rest), "not-the-largest", {"chosen": has, "left": rest})
    finally:
        m.SortTweet = was
    ctx.sample({"groups": groups, "wanted": contribs})


# --- results ----------------------------------------------------------------------------------
RANGES = ("0->", "0->3", "3->5", "5->10", "10->")
CUTS = (10, 20, 30, 40, 50, 75, 100, 150, 250, 500)
TITLES = (("LDA/cvb", "50", "trained on all"), ("Rtm", "10", ""), ('sim', "5", 'by "cosine", weighted'), ("lro", "100", "a, b"))


def number(*key):
    return float(int(distinct(1, hash(key) % 9973)[0] * 1e4) % 9000) / 1e4


def batch(kind, i):
    """Text of a batch of results, and what it says."""
    perp, avg, docs, recall = kind
    counts = ((40, 12, 9, 11, 8), (7, 7, 0, 0, 0), (20, 5, 15, 0, 0))[docs]
    prec = {r: [number(i, 1, a, b, docs) for b in range(10)] for a, r in enumerate(RANGES)}
    rec = {r: [number(i, 2, a, b, docs) for b in range(10)] for a, r in enumerate(RANGES)}
    name, k, about = TITLES[(i + docs + 2 * avg) % 4]
    text = ["%s, K=%s%s" % (name, k, " " + about if about else "")]
    if perp:
        text.append("Training perplexity is %s" % (321.5 + i))

    def put(title, t):
        text.extend([title, "| Group | Count | " + " | ".join(map(str, CUTS)) + " |", "-" * 40])
        text.extend("| %s | %s | %s |" % (r, n, " | ".join("%.4f" % x for x in t[r])) for r, n in zip(RANGES, counts))
    put("Precision", prec)
    if recall:
        put("Recall", rec)
    text.append("Mean reciprocal-rank: %s" % (0.25 + i / 8))
    if avg:
        text.append("Mean average-precision: %s" % (0.125 + i / 8))
    by = dict(zip(RANGES, counts))

    def rows(t):
        out = {r: t[r] for r in RANGES}
        for r, of in (("3->", RANGES[2:]), ("5->", RANGES[3:])):
            n = sum(by[o] for o in of)
            out[r] = [sum(by[o] * t[o][b] for o in of) / n if n else None for b in range(10)]
        return out
    p, r = rows(prec), rows(rec) if recall else None
    want = []
    for g in ("0->", "0->3", "3->", "3->5", "5->", "5->10", "10->"):
        n = by[g] if g in by else sum(by[o] for o in RANGES[2 if g == "3->" else 3:])
        for b, c in enumerate(CUTS):
            want.append(((name, k, about, g, str(c)), (0.25 + i / 8, 0.125 + i / 8 if avg else None, 321.5 + i if perp else None, n, p[g][b], r[g][b] if recall else "none")))
    return text, want


def results(ctx, cases):
    import sidetopics.run.reshape_results as m
    with folder() as d:
        src, dst = os.path.join(d, "in.txt"), os.path.join(d, "out.csv")
        for kinds, gap, end in cases:
            ctx.case(("results", kinds, gap, end))
            ctx.state(("results", kinds, gap, end))
            ctx.ran()
            ctx.step(len(kinds))
            text, want = ["# collected"] if gap else [], []
            for i, kind in enumerate(kinds):
                t, w = batch(kind, i)
                text += t + [("", "  ", "# note")[(j + i) % 3] if j else "" for j in range(1 + gap)]
                want += w
            with open(src, "w") as f:
                f.write("\n".join(text).rstrip() + ("\n" if end else ""))
            ok, _ = ctx.call("results-raised", quietly, m.run, [src, dst])
            if not ok:
                continue
            with open(dst, newline="") as f:
                got = list(csv.reader(f))
            if not ctx.expect(got[0] == ["Algor", "TopicCount", "TrainDesc", "MRR", "MAP", "Perplexity", "Group", "M", "DocCount", "Precision", "Recall"] and len(got) == 1 + len(want), "rows",
                              {"got": len(got) - 1, "want": len(want)}):
                continue
            for g, (key, vals) in zip(got[1:], want):
                if not ctx.expect(len(g) == 11 and (g[0], g[1], g[2], g[6], g[7]) == key, "row-of", {"got": g, "want": key}):
                    break
                nums = [float(x) if x else None for x in (g[3], g[4], g[5], g[8], g[9], g[10])]
                bad = False
                for x, v in zip(nums, vals):
                    if v is None:
                        bad |= not (x is None or x <= 0 or x != x)
                    elif v != "none":
                        bad |= x is None or abs(x - v) > 1e-9 * max(1, abs(v))
                if not ctx.expect(not bad, "row-says", {"got": g, "want": vals}):
                    break
        for text in ("LDA, K=5\n", "LDA, K=5 x\n\n# nothing\n"):
            with open(src, "w") as f:
                f.write(text)
            ctx.case(("no results", text))
            ctx.raises("missing-results-accepted", ValueError, quietly, m.read_all_results, src)
    ctx.sample({"batches": kinds})


# --- papers -----------------------------------------------------------------------------------
NAMES = (("Edward Witten", "Witten, Edward"), ("J.K.Smith", "Smith, J. K."), ("Plato", "Plato"), ("John Smith Jr.", "Smith Jr., John"), ("Ludwig van Beethoven", "van Beethoven, Ludwig"),
         ("A. B. Zamolodchikov", "Zamolodchikov, A. B."), ("Sandy Randall", "Randall, Sandy"), ("Hans von Storch III", "von Storch III, Hans"), ("Fernando Rand", "Rand, Fernando"))


def papers(ctx, cases):
    import sidetopics.run.arxiv_to_aan as m
    with folder() as d:
        for names, style, order, journal, stem in cases:
            ctx.case(("paper", names, style, order, journal, stem))
            ctx.state(("paper", names, style, order, journal, stem))
            ctx.ran()
            ctx.step()
            people = [NAMES[i][0] + ("", " (CERN (Geneva), UK)")[(style + i) % 2] for i in names]
            sep, last = ((", ", ", "), (" and ", " and "), (", ", " and "), (", ", ", and "), (",\n  ", ",\n  and "))[style]
            fields = [["Title: Strings: a", "  long {story}"], ["Authors: " + sep.join(people[:-1]) + (last if people[:-1] else "") + people[-1]], ["Comments: 12 pages, Latex: yes"],
                      ["Journal-ref: Phys.Lett. B1 (1996) 3"] if journal else ["Report-no: 5"], ["Date: Mon, 1 Jan 1996 12:00:00 GMT   (10kb)"]]
            lines = ["-" * 78, "\\\\", "Paper: hep-th/" + stem] + [l for i in order for l in fields[i]] + ["\\\\", "  The abstract. Title: wrong", "Authors: nobody", "\\\\"]
            p, out = os.path.join(d, stem + ".abs"), os.path.join(d, "out.txt")
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
            ok, _ = ctx.call("paper-raised", quietly, m.run, [p, out])
            if not ok:
                continue
            with open(out) as f:
                got = [l for l in f.read().split("\n") if l]
            year = int(stem[:2])
            want = ["id={%d}" % int(stem), "title={Strings: a long (story)}", "author={%s}" % "; ".join(NAMES[i][1] for i in names)] + (["venue={Phys.Lett.}"] if journal else []) + \
                   ["year={%d}" % (year + (1900 if year >= 90 else 2000))]
            ctx.expect(got == want, "record", {"got": got, "want": want})
        for missing in ("Title", "Authors", "Title Authors"):
            ctx.case(("paper without", missing))
            ctx.step()
            p, out = os.path.join(d, "9601091.abs"), os.path.join(d, "none.txt")
            with open(p, "w") as f:
                f.write("\n".join(["-" * 78, "\\\\"] + ["%s: something" % k for k in ("Title", "Authors", "Journal-ref") if k not in missing.split()] + ["\\\\", "abstract"]) + "\n")
            ctx.raises("incomplete-record-accepted", ValueError, quietly, m.run, [p, out])
    ctx.sample({"authors": people})


def authors(ctx, cases):
    import sidetopics.run.arxiv_author_ids as m
    with folder() as d:
        src, dst = os.path.join(d, "meta.txt"), os.path.join(d, "ids.txt")
        for lists in cases:
            ctx.case(("authors", lists))
            ctx.state(("authors", lists))
            ctx.ran()
            ctx.step()
            with open(src, "w") as f:
                for i, l in enumerate(lists):
                    f.write("id={%d}\ntitle={Some author; of note}\nauthor={%s}\nyear={2001}\n\n" % (i, "; ".join(NAMES[j][1] for j in l)))
            ok, _ = ctx.call("authors-raised", m.run, src, dst)
            if not ok:
                continue
            with open(dst) as f:
                got = f.read()
            want = sorted({NAMES[j][1] for l in lists for j in l})
            ctx.expect(got == "".join("%d\t%s\n" % (i + 1, a) for i, a in enumerate(want)), "author-ids", {"got": got, "want": want})
    ctx.sample({"authors": lists})


def tasks(tier, seed):
    thorough = tier == "thorough"
    cases = [(s, t) for s in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)) for t in itertools.product(TOKENS, repeat=s[0] * s[1])]
    if thorough:
        cases += [(s, t) for s in ((2, 3), (3, 2)) for t in itertools.product(TOKENS[:6], repeat=6)][::3]
    cases += [big_tables(r, c, w) for r, c in ((40, 3), (300, 40), (1, 500)) for w in range(5)]
    out = [("tables-%d" % i, tables, (c,)) for i, c in enumerate(chunks(cases, 8))]
    out.append(("users", users, (5 if thorough else 4,)))
    top = 6 if thorough else 5
    sh = [(t, g) for n in (1, 2, 3, 4) for t in itertools.product(range(top), repeat=n) for g in range(0, sum(t) + 4, 1 if n < 4 else 2)]
    for n in (7, 12, 30):
        t = tuple(int(x) for x in 1e5 * (distinct(n, n) - 0.4) ** 3)
        sh += [(t, int(sum(t) * x)) for x in (0.001, 0.1, 0.4, 0.7, 0.95, 0.999, 1, 1.5)]
    out += [("shares-%d" % i, shares, (c,)) for i, c in enumerate(chunks(sh, 4))]
    us = [u for n in (0, 1, 2, 3) for u in itertools.product((1, 2, 5), repeat=n)]
    ch = [((a, b), (x, y), o) for i, a in enumerate(us) for b in (us if thorough else us[i % 3::3]) for x, y in ((0, 1), (1, 3), (2, 5), (6, 4), (7, 0), (99, 8)) for o in (False, True)]
    out += [("choices-%d" % i, choices, (c,)) for i, c in enumerate(chunks(ch, 2))]
    kinds = [(p, a, n, r) for p in (0, 1) for a in (0, 1) for n in (0, 1, 2) for r in (0, 1)]
    rs = [((k,), g, e) for k in kinds for g in (0, 1, 40) for e in (0, 1)] + [((a, b), g, e) for a in kinds for b in kinds for g, e in ((0, 1), (2, 0))]
    rs += [(t, 1, 1) for i, t in enumerate(itertools.product(kinds, repeat=3)) if thorough or i % 23 == 0]
    out += [("results-%d" % i, results, (c,)) for i, c in enumerate(chunks(rs, 8))]
    people = [p for n in (1, 2, 3) for p in itertools.permutations(range(len(NAMES)), n)]
    orders = list(itertools.permutations(range(5)))
    ps = [(p, s, orders[(i * 7 + s) % 120], (i + s) % 2, ("9601091", "0001001", "9003002", "8912001", "0306083")[i % 5]) for i, p in enumerate(people) for s in range(5)]
    ps += [((0, 3), 3, o, j, "9601091") for o in orders for j in (0, 1)]
    out += [("papers-%d" % i, papers, (c,)) for i, c in enumerate(chunks(ps, 4))]
    out.append(("authors", authors, ([ls for n in (0, 1, 2, 3) for ls in itertools.product([(0,), (1, 2), (2, 0, 5), (8,)], repeat=n)],)))
    return out
