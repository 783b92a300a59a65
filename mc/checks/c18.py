"""C18 evaluation runs: what a run does with its data and models, whatever part of it fails, and what it reports and saves."""
import contextlib
import io
import itertools
import logging
import os
import pickle
import re
import shutil
import tempfile
import numpy as np
import scipy.sparse as ssp

from .. import build
from ..space import snapshot
from ..stub import Stub, Fault, dense, ids, BLOCK, SHARED, K
from .c12 import ref_mrr, ref_map, ref_at

PROPERTY = "C18"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast"]
RULE = ("Every cross-validated run over 2-7 documents x number of folds x number of folds to finish x position (thorough: pair of positions) at which a call into the model "
        "fails, with and without features and saving, with a model that records what it is given; every ranking evaluation (of links, of tags, of hashtags; "
        "split at random, by fold or by feature) over the same dimensions without failures; word splits for all small matrices x column sets x proportions; pooled tables for all small "
        "groups; runs of the whole program for each model and number type, whose reported and saved results are recomputed from the data and the saved files.")
ASSUMPTIONS = ["some fold finishes", "a model which fails leaves the data alone"]


def main():
    logging.disable(logging.CRITICAL)
    import importlib
    return importlib.import_module("sidetopics.run.__main__")


def dataset(D, feats=False, links=False, F=3, density=2):
    from sidetopics.model.common import DataSet
    T = D * BLOCK + SHARED
    w = np.zeros((D, T))
    for d in range(D):
        w[d, d * BLOCK:(d + 1) * BLOCK] = 20 + d, 30 + 2 * d
        for s in range(SHARED):
            w[d, D * BLOCK + s] = (d * 5 + s * 3 + d * s) % 4
    x = None
    if feats:
        x = np.array([[1.0 if (d >> f) & 1 else 0.0 for f in range(F)] for d in range(D)])
        x = ssp.csr_matrix(x)
    l = None
    if links:
        l = np.array([[((i * 3 + j * 2 + i * j) % density == 0) * (1 + (i + j) % 2) for j in range(D)] for i in range(D)], dtype=np.float64)
        l = ssp.csr_matrix(l)
    return DataSet(ssp.csr_matrix(w), x, l), w, None if x is None else dense(x), None if l is None else dense(l)


def quietly(fn, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            r = fn(*a, **k)
        except Exception as e:
            return out.getvalue(), None, e
    return out.getvalue(), r, None


TOTAL = re.compile(r"Total \((\d+)\): (Train|Query)-set Likelihood:\s*(\S+)\s+(?:Train|Query)-set Perplexity:\s*(\S+)")
FOLD = re.compile(r"Fold (\d+): Train-set Perplexity:\s*(\S+)\s+Query-set Perplexity:\s*(\S+)")


def folder():
    return tempfile.mkdtemp(dir=build.scratch(), prefix="models-")


def perp(like, words):
    return float(np.exp(-like / words))


def near(ctx, got, want, sig, tol=6e-4):
    ctx.expect(abs(float(got) - want) <= tol + 1e-9 * abs(want), sig, {"printed": got, "want": want})


def split_by_run(events):
    """Events of each copy of the template."""
    runs = {}
    for e in events:
        runs.setdefault(e["model"], []).append(e)
    return [runs[m] for m in sorted(runs)]


def check_training(ctx, run, w, docs, plan, links=None):
    tr = [e for e in run if e["kind"] == "train"]
    if not ctx.expect(len(tr) == 1, "trained-more-or-less-than-once", len(tr)):
        return None
    t = tr[0]
    ctx.expect(sorted(t["docs"]) == sorted(docs), "trained-on-other-documents", {"got": t["docs"], "want": docs})
    ctx.expect(t["own_state"] and t["fresh"], "training-state-of-others")
    ctx.expect(t["plan"] is plan, "training-plan")
    if all(0 <= d < len(w) for d in t["docs"]):
        ctx.expect(np.array_equal(t["words"], w[t["docs"]]), "training-words")
    return t


def perplexity_runs(ctx, D, with_feats, deep, named):
    M = main()
    data, w, x, _ = dataset(D, with_feats)
    before = snapshot(data.words, data.feats, data.order)
    for folds in range(1, D + 1):
        for finish in sorted({-1, 0, 1, folds - 1, folds, folds + 2}):
            base = Stub()
            quietly(M.cross_val_and_eval_perplexity, data, base, base.template(w.shape[1]), "TP", "QP", folds, finish, None)
            calls = range(base.calls)
            plans = [()] + [(i,) for i in calls]
            if deep:
                plans += [p for p in itertools.combinations(range(base.calls + 6), 2)]
            for bad in plans:
                for save in ((False, True) if len(bad) < 2 else (False,)):
                    one_perplexity(ctx, M, data, w, x, D, folds, finish, bad, save, named)
    ctx.expect(snapshot(data.words, data.feats, data.order) == before, "data-altered")


def one_perplexity(ctx, M, data, w, x, D, folds, finish, bad, save, named):
    ctx.case({"documents": D, "features": x is not None, "folds": folds, "to finish": finish, "calls failing": bad, "save": save, "model": named})
    stub = Stub(fail_at=bad)
    tmpl = stub.template(w.shape[1], named, 4 if named != "stub" else None)
    out_dir = folder() if save else None
    out, files, error = quietly(M.cross_val_and_eval_perplexity, data, stub, tmpl, "TP", "QP", folds, finish, out_dir)
    ctx.step(stub.calls)
    ctx.ran(bool(bad))
    ctx.state((D, x is not None, folds, finish, bad, save, named))
    ctx.expect(bool(np.all(tmpl.vocab == 1.0) and np.all(tmpl.tag == 0)), "template-altered")
    ctx.expect(all(e["clean"] for e in stub.events if e["kind"] == "copy"), "template-altered")
    totals = {g[1]: (int(g[0]), float(g[2]), float(g[3])) for g in TOTAL.findall(out)}
    runs = split_by_run(stub.events)
    try:
        if folds == 1:
            if error is not None:
                ctx.expect(isinstance(error, Fault), "raised", repr(error))
                return
            ctx.expect(len(runs) == 1, "number-of-runs", len(runs))
            t = check_training(ctx, runs[0], w, list(range(D)), "TP")
            likes = [e for e in runs[0] if e["kind"] == "like"]
            ctx.expect(len(likes) >= 1 and all(np.array_equal(e["words"], w[e["docs"]]) and sorted(e["docs"]) == list(range(D)) and e["trained"] == 1 and e["tops"] == 1 for e in likes), "likelihood-of-others")
            m = re.search(r"Train-set Likelihood:\s*(\S+)", out), re.search(r"Train-set Perplexity:\s*(\S+)", out)
            if ctx.expect(m[0] and m[1], "nothing-reported", out[-300:]) and likes:
                near(ctx, m[0].group(1), likes[-1]["value"], "total-likelihood")
                near(ctx, m[1].group(1), perp(likes[-1]["value"], w.sum()), "total-perplexity")
            saved(ctx, files, out_dir, data, [(0, runs[0], t, None)])
            return
        # the folds the run should have tried: all until enough have finished
        want_finish = finish if finish >= 1 else folds
        good, tried, expected_docs = [], 0, []
        for run in runs:
            tr = [e for e in run if e["kind"] == "train"]
            likes = [e for e in run if e["kind"] == "like"]
            trained = [e for e in likes if e["tops"] == 1]
            queried = [e for e in likes if e["tops"] == 2]
            if any(e.get("done") for e in tr) and trained and queried:
                good.append((run, tr[0], trained, queried))
        if error is not None:
            ctx.expect(not good, "raised", repr(error))
            return
        numbers = [int(f[0]) for f in FOLD.findall(out)]
        ctx.expect(len(numbers) == len(good), "folds-reported", {"reported": numbers, "finished": len(good)})
        ctx.expect(len(good) == want_finish or len(good) < want_finish and _all_tried(stub, folds, len(good), bad), "folds-finished", {"finished": len(good), "wanted": want_finish})
        seen = []
        train_like = query_like = train_words = query_words = 0.0
        reports = FOLD.findall(out)
        entries = []
        for i, (run, tr, trained, queried) in enumerate(good):
            held = sorted(set(range(D)) - set(tr["docs"]))
            if i < len(numbers) and not any(numbers[:i] and n >= numbers[i] for n in numbers[:i]):
                held_want = fold_docs(data, numbers[i], folds)
                ctx.expect(held == held_want, "held-out-documents", {"fold": numbers[i], "got": held, "want": held_want})
            check_training(ctx, run, w, [d for d in range(D) if d not in held], "TP")
            for e in trained:
                ctx.expect(e["own_state"] and e["trained"] == 1 and sorted(e["docs"]) == sorted(tr["docs"]) and np.array_equal(e["words"], w[e["docs"]]), "training-likelihood-of-others")
            qs = [e for e in run if e["kind"] == "query"]
            if not ctx.expect(len(qs) == 1, "queried-more-or-less-than-once", len(qs)):
                continue
            q = qs[0]
            ctx.expect(q["plan"] == "QP", "query-plan")
            ctx.expect(q["own_state"] and q["trained"] == 1 and sorted(q["docs"]) == held, "queried-other-documents", {"got": q["docs"], "want": held})
            for e in queried:
                ctx.expect(e["own_state"] and e["trained"] == 1 and e["docs"] == q["docs"], "query-likelihood-of-others")
                if x is None:
                    ctx.expect(np.array_equal(e["words"] + q["words"], w[q["docs"]]), "evaluated-on-words-it-was-given", {"given": q["words"], "evaluated": e["words"], "all": w[q["docs"]]})
                else:
                    ctx.expect(np.array_equal(e["words"], w[q["docs"]]) and np.array_equal(q["words"], w[q["docs"]]), "query-words")
            seen += held
            tl, ql, tw, qw = trained[-1]["value"], queried[-1]["value"], trained[-1]["words"].sum(), queried[-1]["words"].sum()
            train_like, query_like, train_words, query_words = train_like + tl, query_like + ql, train_words + tw, query_words + qw
            if i < len(reports):
                near(ctx, reports[i][1], perp(tl, tw), "fold-perplexity")
                near(ctx, reports[i][2], perp(ql, qw), "fold-perplexity")
                entries.append((numbers[i], run, tr, q))
        ctx.expect(len(seen) == len(set(seen)), "held-out-twice", seen)
        if len(good) == folds:
            ctx.expect(sorted(seen) == list(range(D)), "never-held-out", seen)
        if ctx.expect(set(totals) == {"Train", "Query"}, "nothing-reported", out[-300:]) and good:
            for which, like, words in (("Train", train_like, train_words), ("Query", query_like, query_words)):
                n, got_like, got_perp = totals[which]
                ctx.expect(n == len(good), "folds-reported", totals)
                near(ctx, got_like, like, "total-likelihood")
                near(ctx, got_perp, perp(like, words), "total-perplexity")
        saved(ctx, files, out_dir, data, entries)
    finally:
        if out_dir:
            shutil.rmtree(out_dir)


def _all_tried(stub, folds, good, bad):
    # fewer folds than wanted finished: every failed one had a call that failed
    return folds - good <= len([b for b in bad if b < stub.calls])


def fold_docs(data, fold, folds):
    _, q = data.cross_valid_split(fold, folds)
    return sorted(ids(q.words))


def saved(ctx, files, out_dir, data, entries):
    """One readable file for each finished fold, with the model and the assignments of that fold."""
    if out_dir is None:
        ctx.expect(files == [] or files is None or list(files) == [], "saved-unasked", files)
        return
    files = list(files or [])
    ctx.expect(len(files) == len(entries) and len(set(files)) == len(files), "files", {"files": files, "folds": [e[0] for e in entries]})
    ctx.expect(sorted(os.path.join(out_dir, f) for f in os.listdir(out_dir)) == sorted(files), "files-on-disk", os.listdir(out_dir))
    for f, (number, run, tr, q) in zip(files, entries):
        with open(f, "rb") as fh:
            order, itrs, vbs, likes, model, train_tops, query_tops = pickle.load(fh)
        n = run[0]["model"]
        ctx.expect(np.array_equal(order, data.order), "saved-order")
        ctx.expect(model.tag[0] == n and model.tag[1] == 1, "saved-model", {"saved": model.tag, "want": n})
        ctx.expect(list(vbs) == [n, 2 * n] and list(likes) == [-n, -3 * n] and list(itrs) == [0, 1], "saved-measurements")
        ctx.expect([int(i) for i in train_tops.varcs[:, 0]] == tr["docs"] and np.all(train_tops.varcs[:, 1] == 1), "saved-training-assignments")
        if q is not None:
            ctx.expect(query_tops is not None and [int(i) for i in query_tops.varcs[:, 0]] == q["docs"] and np.all(query_tops.varcs[:, 1] == 2), "saved-query-assignments")
        ctx.expect(("_fold_%d_" % number) in os.path.basename(f), "file-name", f)


# ------------------------------------------------------------------ rankings

def tables(text):
    """The printed tables: [(title, {group: (count, [values])})]."""
    out, cur = [], None
    for line in text.splitlines():
        if line.strip() in ("Precision", "Recall") or line.endswith("Precision") or line.endswith("Recall"):
            cur = {}
            out.append((line.strip().split()[-1], cur))
        elif cur is not None and line.startswith("|") and not line.startswith("| Group") and not line.startswith("|--"):
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            lo, hi = cells[0].split(",")
            cur[(int(lo), int(hi))] = (int(cells[1]), [float(v) for v in cells[2:]])
    return out


MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]
GROUPS = [(0, 3), (3, 5), (5, 10), (10, 1000)]


def rows_of(mat):
    return [{int(j): float(r[j]) for j in range(len(r)) if r[j] != 0} for r in mat]


def final_report(ctx, out, parts, with_map=True):
    """parts: [(expected rows: list of columns, predicted rows: {column: score})] of each fold."""
    final = out[out.rfind("Final Results"):]
    if not ctx.expect("Final Results" in out, "nothing-reported", out[-300:]):
        return
    refs = [ref_at(exp, est, MS, GROUPS) for exp, est in parts]
    got = {t: g for t, g in tables(final)}
    ctx.expect(set(got) == {"Precision", "Recall"}, "nothing-reported", final[-400:])
    for which, title in ((0, "Precision"), (1, "Recall")):
        for g in list(GROUPS) + [(-1, -1)]:
            counts = [r[2][g] for r in refs]
            n = sum(counts)
            want = [sum(r[which][g][i] * c for r, c in zip(refs, counts)) / max(1, n) for i in range(len(MS))]
            if g in got.get(title, {}):
                ctx.expect(got[title][g][0] == n, "pooled-count", {"group": g, "got": got[title][g][0], "want": n})
                for a, b in zip(got[title][g][1], want):
                    near(ctx, a, b, "pooled-" + title.lower())
            else:
                ctx.fail("group-not-reported", {"group": g, "title": title})
    D = [len(e) for e, _ in parts]
    m = re.search(r"Mean reciprocal-rank: (\S+)", final)
    if ctx.expect(m is not None, "nothing-reported", final[-300:]):
        near(ctx, m.group(1), sum(ref_mrr(e, p) * d for (e, p), d in zip(parts, D)) / sum(D), "pooled-reciprocal-rank", 2e-6)
    if with_map:
        m = re.search(r"Mean average-precision: (\S+)", final)
        if ctx.expect(m is not None, "nothing-reported", final[-300:]):
            near(ctx, m.group(1), sum(ref_map(e, p) * d for (e, p), d in zip(parts, D)) / sum(D), "pooled-average-precision", 2e-6)


def undirected(l):
    return np.asarray(((l + l.T) > 0), dtype=np.float64)


def link_training(ctx, t, hidden, l, undir, name):
    """The links trained on have none of those to be predicted, and nothing new."""
    got = t["links"]
    if undir:
        ctx.expect(np.array_equal(got, got.T) and set(np.unique(got)) <= {0.0, 1.0}, name + "-training-links-not-undirected")
        want = ((l - hidden) != 0) | ((l - hidden).T != 0)
        ctx.expect(np.array_equal(got != 0, want), name + "-training-links", {"got": got, "all": l, "hidden": hidden})
    else:
        ctx.expect(np.array_equal(got, l - hidden), name + "-training-links", {"got": got, "all": l, "hidden": hidden})


def link_runs(ctx, D, density, undir):
    M = main()
    for folds in range(2, 5):
        for finish in (-1, None, 1, 2, folds):
            for save in (False, True):
                data, w, _, l = dataset(D, links=True, density=density)
                before = snapshot(data.words, data.links, data.order)
                n_want = folds if finish in (-1, None) else min(finish, folds)
                for kind in ("random", "fold", "map"):
                    if kind == "map" and finish is not None:
                        continue
                    ctx.case({"evaluation": "links " + kind, "documents": D, "links 1 in": density, "folds": folds, "to finish": finish, "undirected": undir, "save": save})
                    stub = Stub(undirected=undir)
                    tmpl = stub.template(w.shape[1])
                    out_dir = folder() if save else None
                    if kind == "random":
                        out, files, err = quietly(M.link_split_prec_rec, data, stub, tmpl, "TP", folds, finish, out_dir)
                    elif kind == "fold":
                        out, files, err = quietly(M.insample_lro_style_prec_rec, data, stub, tmpl, "TP", folds, finish, out_dir)
                    else:
                        out, files, err = quietly(M.link_split_map, data, stub, tmpl, "TP", folds, out_dir)
                        n_want = folds
                    ctx.step(stub.calls)
                    ctx.ran()
                    ctx.state((D, density, folds, finish, undir, save, kind))
                    try:
                        if not ctx.expect(err is None, "raised", repr(err)):
                            continue
                        ctx.expect(all(e["clean"] for e in stub.events if e["kind"] == "copy"), "template-altered")
                        runs = split_by_run(stub.events)
                        ctx.expect(len(runs) == n_want, "folds-finished", {"got": len(runs), "want": n_want})
                        parts, entries = [], []
                        for i, run in enumerate(runs):
                            t = check_training(ctx, run, w, list(range(D)), "TP")
                            lk = [e for e in run if e["kind"] == "links"]
                            fl = [e for e in run if e["kind"] == "floor"]
                            if t is None or not ctx.expect(len(lk) == 1 and len(fl) == 1, "predicted-more-or-less-than-once"):
                                continue
                            ctx.expect(lk[0]["trained"] == 1 and all(k == 1 for k in lk[0]["kinds"]) and all(tp == list(range(D)) for tp in lk[0]["tops"]), "predicted-with-others")
                            hidden = fl[0]["links"]
                            ctx.expect(np.all((hidden == 0) | (hidden == l)), "predicted-links-not-in-data", hidden)
                            subset = lk[0]["subset"]
                            # a directed predictor takes sources and destinations, and may be limited to some sources; an undirected one takes one set of topics
                            ctx.expect(len(lk[0]["tops"]) == (1 if undir else 2) and len(fl[0]["tops"]) == (1 if undir else 2) and not (undir and subset is not None), "predictor-interface",
                                       {"topics given": len(lk[0]["tops"]), "subset": subset})
                            if undir and kind == "fold":
                                sel = [d for d in range(D) if (l[d] != 0).sum() >= 5]
                            else:
                                sel = list(range(D)) if subset is None else [int(s) for s in subset]
                            ctx.expect((subset is None) == (fl[0]["subset"] is None) and (subset is None or list(subset) == list(fl[0]["subset"])), "subset")
                            # documents with too few links to take any from are not predicted: they
                            # keep them all to be trained on
                            hidden = np.array([row if d in sel else np.zeros(D) for d, row in enumerate(hidden)])
                            link_training(ctx, t, hidden, l, undir, kind)
                            probs = rows_of(lk[0]["probs"])
                            parts.append(([[j for j in range(D) if hidden[d, j]] for d in sel], [probs[d] for d in sel] if undir else probs))
                            entries.append((i, run, t, None))
                        if kind == "map":
                            vals = re.findall(r"Mean-Average-Precision\s+(\S+)", out)
                            ctx.expect(len(vals) == len(parts), "nothing-reported")
                            for v, (e, p) in zip(vals, parts):
                                near(ctx, v, ref_map(e, p), "average-precision")
                        else:
                            final_report(ctx, out, parts, with_map=kind == "fold")
                        saved(ctx, files, out_dir, data, entries)
                        ctx.expect(snapshot(data.words, data.links, data.order) == before, "data-altered")
                    finally:
                        if out_dir:
                            shutil.rmtree(out_dir)


def predictable(D, x, l, mask):
    ok = True
    for i in range(len(mask)):
        old = [d for d in range(D) if not x[d, list(mask[i:])].any()]
        new = [d for d in range(D) if x[d, mask[i]]]
        ok = ok and bool(old) and bool(new) and bool(l[np.ix_(new, old)].any())
    return ok


def feature_runs(ctx, D):
    M = main()
    for undir in (False, True):
        for mask in [m for r in (1, 2, 3) for m in itertools.permutations(range(3), r)]:
            data, w, x, l = dataset(D, feats=True, links=True, density=2)
            ctx.case({"evaluation": "links by feature", "documents": D, "features": mask, "undirected": undir})
            stub = Stub(undirected=undir)
            before = snapshot(data.words, data.links, data.feats)
            # the masks at which some documents are left to train on
            # and some links to predict from the others to them
            if not predictable(D, x, l, mask):
                continue
            out, files, err = quietly(M.outsample_lro_style_prec_rec, data, stub, stub.template(w.shape[1]), "TP", [("f%d" % f, f) for f in mask], None)
            ctx.step(stub.calls)
            ctx.ran()
            ctx.state((D, mask, undir))
            if not ctx.expect(err is None, "raised", repr(err)):
                continue
            runs = split_by_run(stub.events)
            ctx.expect(len(runs) == len(mask), "features-evaluated", {"got": len(runs), "want": len(mask)})
            parts = []
            for i, run in enumerate(runs):
                left = list(mask[i:])
                train = [d for d in range(D) if not x[d, left].any()]
                held = [d for d in range(D) if x[d, mask[i]]]
                t = check_training(ctx, run, w, train, "TP")
                qs, lk, fl = ([e for e in run if e["kind"] == k] for k in ("query", "links", "floor"))
                if t is None or not ctx.expect(len(qs) == len(lk) == len(fl) == 1, "predicted-more-or-less-than-once"):
                    continue
                ctx.expect(sorted(qs[0]["docs"]) == held and qs[0]["trained"] == 1 and qs[0]["own_state"], "queried-other-documents", {"got": qs[0]["docs"], "want": held})
                ctx.expect(np.array_equal(qs[0]["words"], w[qs[0]["docs"]]), "query-words")
                ctx.expect(lk[0]["tops"] == [t["docs"], qs[0]["docs"]] and lk[0]["kinds"] == [1, 2] and lk[0]["trained"] == 1, "predicted-with-others", {"kinds": lk[0]["kinds"]})
                sub = l[np.ix_(t["docs"], t["docs"])]
                if undir:
                    ctx.expect(np.array_equal(t["links"], undirected(sub)), "feature-training-links", {"got": t["links"], "want": undirected(sub)})
                else:
                    ctx.expect(np.array_equal(t["links"], sub), "feature-training-links", {"got": t["links"], "want": sub})
                want = l[np.ix_(qs[0]["docs"], t["docs"])]
                ctx.expect(np.array_equal(fl[0]["links"], want), "links-to-predict", {"got": fl[0]["links"], "want": want})
                parts.append(([[j for j in range(len(train)) if r[j]] for r in fl[0]["links"]], rows_of(lk[0]["probs"])))
            if len(parts) == len(mask) and all(any(e) for e, _ in parts):
                final_report(ctx, out, parts)
            ctx.expect(snapshot(data.words, data.links, data.feats) == before, "data-altered")


def lda_runs(ctx, D):
    """Models built on an LDA model get the one given, and its topics of just the documents trained on."""
    M = main()
    import sidetopics.model.lda_gibbs as g
    import sidetopics.model.lda_vb_python as v
    import sidetopics.model.lro_vb as lro
    import sidetopics.model.mtm3 as mtm
    import sidetopics.model.sim_based_rec as sim
    dists = np.arange(D, dtype=np.float64)[:, None] * 10 + np.arange(K)[None, :]
    lens = np.arange(D) + 100
    ldas = {"none": (None, None),
            "variational": (v.ModelState(K, .1, .1, None, True, np.float64, v.MODEL_NAME), v.QueryState(lens, dists, True)),
            "sampled": (g.ModelState(K, 6, .1, .1, None, None, 3, True, np.float64, g.MODEL_NAME), g.QueryState(None, None, lens, dists, 3, True))}
    for name in (lro.MODEL_NAME, mtm.MODEL_NAME, sim.MODEL_NAME_PREFIX + sim.LDA):
        for which, (model, topics) in ldas.items():
            for kind in ("random", "fold", "feature"):
                for mask in [m for r in (1, 2) for m in itertools.permutations(range(3), r)] if kind == "feature" else [()]:
                    data, w, x, l = dataset(D, feats=True, links=True, density=2)
                    if kind == "feature" and not predictable(D, x, l, mask):
                        continue
                    ctx.case({"evaluation": "links " + kind, "documents": D, "features": mask, "model": name, "LDA": which})
                    ctx.ran()
                    ctx.state((kind, D, mask, name, which))
                    stub = Stub()
                    tmpl = stub.template(w.shape[1], name)
                    if kind == "random":
                        out, _, err = quietly(M.link_split_prec_rec, data, stub, tmpl, "TP", 2, 2, None, model, topics)
                    elif kind == "fold":
                        out, _, err = quietly(M.insample_lro_style_prec_rec, data, stub, tmpl, "TP", 2, 2, None, model, topics)
                    else:
                        out, _, err = quietly(M.outsample_lro_style_prec_rec, data, stub, tmpl, "TP", [("f%d" % f, f) for f in mask], None, model, topics)
                    ctx.step(stub.calls)
                    if not ctx.expect(err is None, "raised", repr(err)):
                        continue
                    for i, run in enumerate(split_by_run(stub.events)):
                        train = list(range(D)) if kind != "feature" else [d for d in range(D) if not x[d, list(mask[i:])].any()]
                        cp = [e for e in run if e["kind"] == "copy"][0]
                        st = [e for e in run if e["kind"] == "state"]
                        if not ctx.expect(len(st) >= 1 and st[0]["docs"] == train, "states-of-other-documents"):
                            continue
                        if kind != "random" or name == lro.MODEL_NAME:
                            ctx.expect([m for m in cp["kw"].values() if m is not None] == ([model] if model is not None else []), "lda-model-not-passed")
                        if kind == "random":
                            continue
                        got = [t for t in st[0]["kw"].values() if t is not None]
                        if model is None:
                            ctx.expect(not got, "topics-from-nowhere")
                        elif ctx.expect(len(got) == 1, "lda-topics-not-passed"):
                            rows = got[0].topicDists if which == "variational" else got[0].topicSum
                            ctx.expect(np.array_equal(rows, dists[train]) and np.array_equal(got[0].docLens, lens[train]), "lda-topics-of-other-documents", rows)
                        ctx.expect(all(not any(t is not None for t in e["kw"].values()) for e in st[1:]), "lda-topics-for-queries")


def softmax(m):
    e = np.exp(m - m.max(axis=1)[:, None])
    return e / e.sum(axis=1)[:, None]


def means_of(docs):
    return np.array([[0.1 * i, 0.05 * i * i] for i in docs], dtype=np.float64).reshape(len(docs), K)


def trained_dists(stub, T):
    m = stub.template(T)
    m.vocab[:] += 1.0 + np.arange(m.vocab.size).reshape(m.vocab.shape) * 0.01
    return stub.wordDists(m), m.vocab


def tag_runs(ctx, D):
    M = main()
    T = D * BLOCK + SHARED
    first = D * BLOCK
    names = ["w%d" % i for i in range(T)]
    for folds in range(2, D + 1):
        for finish in (-1, None) + tuple(range(1, folds + 1)):
            for tags in ([first], [first, first + 2], list(range(first, T)), [0, first + 1, first + 3]):
                for prop in (1.0, 0.5, 0.0):
                    for save in (False, True):
                        data, w, _, _ = dataset(D)
                        ctx.case({"evaluation": "tags", "documents": D, "folds": folds, "to finish": finish, "tags": tags, "proportion": prop, "save": save})
                        stub = Stub()
                        out_dir = folder() if save else None
                        out, files, err = quietly(M.cross_val_and_eval_tag_prec_rec_at_m, data, list(tags), prop, stub, stub.template(T), "TP", names, folds, finish, out_dir)
                        ctx.step(stub.calls)
                        ctx.ran(prop > 0)
                        ctx.state((D, folds, finish, tuple(tags), prop, save))
                        try:
                            runs = split_by_run(stub.events)
                            parts, entries, hidden_any = [], [], []
                            n_want = folds if finish in (-1, None) else finish
                            for i, run in enumerate(runs):
                                held = fold_docs(data, i, folds)
                                t = check_training(ctx, run, w, [d for d in range(D) if d not in held], "TP")
                                qs = [e for e in run if e["kind"] == "query"]
                                if t is None or not qs:
                                    continue
                                q = qs[0]
                                ctx.expect(sorted(q["docs"]) == held and q["own_state"] and q["trained"] == 1, "queried-other-documents")
                                moved = w[q["docs"]] - q["words"]
                                others = [c for c in range(T) if c not in tags]
                                ctx.expect(not moved[:, others].any(), "other-words-removed", moved)
                                ctx.expect(np.all((moved == 0) | (moved == w[q["docs"]])), "tags-removed-in-part", moved)
                                if prop == 1.0:
                                    ctx.expect(not q["words"][:, tags].any(), "tags-left-in", q["words"][:, tags])
                                if prop == 0.0:
                                    ctx.expect(not moved.any(), "tags-removed", moved)
                                hidden_any.append(bool(moved.any()))
                                wd, _ = trained_dists(stub, T)
                                p = softmax(means_of(q["docs"])) @ wd
                                exp = [[j for j in range(T) if r[j]] for r in moved]
                                parts.append((exp, [{j: p[d, j] for j in exp[d]} for d in range(len(exp))]))
                                entries.append((i, run, t, None))
                            if err is not None:
                                ctx.expect(not all(hidden_any) or len(hidden_any) < len(runs), "raised", repr(err))
                                continue
                            ctx.expect(len(runs) == n_want, "folds-finished", {"got": len(runs), "want": n_want})
                            final_report(ctx, out, parts)
                            saved(ctx, files, out_dir, data, entries)
                        finally:
                            if out_dir:
                                shutil.rmtree(out_dir)


HMS = [10, 50, 100, 150, 200, 250, 1000, 1500, 3000, 5000, 10000]


def hashtag_runs(ctx, D):
    M = main()
    T = D * BLOCK + SHARED
    first = D * BLOCK
    names = ["#w%d" % i if i >= first else "w%d" % i for i in range(T)]
    for folds in range(2, min(D, 4) + 1):
        for finish in (-1,) + tuple(range(1, folds + 1)):
            for tags in ([first], [first, first + 2], list(range(first, T))):
                for keep in (0, 1):
                    data, w, _, _ = dataset(D)
                    ctx.case({"evaluation": "hashtags", "documents": D, "folds": folds, "to finish": finish, "tags": tags, "proportion kept": keep})
                    stub = Stub()
                    out, files, err = quietly(M.cross_val_and_eval_hashtag_prec_at_m, data, list(tags), keep, stub, stub.template(T), "TP", names, folds, finish, None)
                    ctx.step(stub.calls)
                    ctx.ran(keep == 0)
                    ctx.state((D, folds, finish, tuple(tags), keep))
                    if not ctx.expect(err is None, "raised", repr(err)):
                        continue
                    runs = split_by_run(stub.events)
                    ctx.expect(len(runs) == (folds if finish < 1 else finish), "folds-finished", len(runs))
                    blocks = out.split("Metric")[1:]
                    ctx.expect(len(blocks) == len(runs), "nothing-reported", len(blocks))
                    for i, run in enumerate(runs):
                        held = fold_docs(data, i, folds)
                        check_training(ctx, run, w, [d for d in range(D) if d not in held], "TP")
                        qs = [e for e in run if e["kind"] == "query"]
                        if not qs or i >= len(blocks):
                            continue
                        q = qs[0]
                        ctx.expect(sorted(q["docs"]) == held, "queried-other-documents")
                        hashtag_report(ctx, stub, w, blocks[i], q, tags, keep, names)


def hashtag_report(ctx, stub, w, block, q, tags, keep, names):
    """What was hidden from a query, and what is reported of each hashtag."""
    T = w.shape[1]
    hidden = w[q["docs"]] - q["words"]
    want_hidden = np.zeros_like(hidden)
    if keep == 0:
        want_hidden[:, tags] = w[q["docs"]][:, tags]
    ctx.expect(np.array_equal(hidden, want_hidden), "hashtags-hidden", {"got": hidden, "want": want_hidden})
    m = stub.template(T)
    m.vocab[:] += 1.0 + np.arange(m.vocab.size).reshape(m.vocab.shape) * 0.01
    score = softmax(means_of(q["docs"])) @ m.vocab
    lines = [l.split("\t") for l in block.splitlines()]
    for tag in tags:
        has = want_hidden[:, tag] > 0
        order = np.argsort(-score[:, tag], kind="stable")
        for title, denom in (("Precision", None), ("Recall", has.sum())):
            row = [l for l in lines if l[0].strip() == title and len(l) > 2 and l[1].strip() == names[tag]]
            if not ctx.expect(len(row) == 1, "tag-not-reported", names[tag]):
                continue
            ctx.expect(int(row[0][2]) == has.sum(), "tag-count", {"got": row[0][2], "want": int(has.sum())})
            for m_, v in zip(HMS, row[0][3:]):
                hit = has[order[:m_]].sum()
                near(ctx, v, hit / m_ if denom is None else hit / max(1, min(m_, denom)), "tag-" + title.lower())


def helpers(ctx, deep):
    M = main()
    # words moved out
    for rows, cols in ((1, 3), (2, 3), (3, 2)):
        for v in itertools.product((0, 1, 3), repeat=rows * cols):
            m = np.array(v).reshape(rows, cols)
            for dt in (np.int32, np.float64):
                a = ssp.csr_matrix(m.astype(dt))
                snap = snapshot(a)
                for sel in itertools.chain.from_iterable(itertools.combinations(range(cols), r) for r in range(cols + 1)):
                    for prop, kind in ((1.0, list), (0.5, set), (0.0, list)):
                        ctx.case({"split": m, "columns": sel, "proportion": prop})
                        ctx.ran(bool(sel))
                        ctx.step()
                        ctx.state((v, rows, sel, prop))
                        ok, r = ctx.call("word-split-raised", M.soft_split_on_indices, a, kind(sel), np.random.RandomState(1), prop)
                        if not ok:
                            continue
                        left, right = dense(r[0]), dense(r[1])
                        ctx.expect(left.shape == right.shape == m.shape and np.array_equal(left + right, m), "word-split-lost", {"left": left, "right": right})
                        ctx.expect(np.all((left == 0) | (right == 0)), "word-split-in-part")
                        ctx.expect(not right[:, [c for c in range(cols) if c not in sel]].any(), "word-split-others")
                        ctx.expect(prop < 1 or not left[:, list(sel)].any(), "word-split-left-in")
                        ctx.expect(prop > 0 or not right.any(), "word-split-moved")
                        ctx.expect(r[0].dtype == dt and r[1].dtype == dt, "word-split-type")
                        ctx.expect(snapshot(a) == snap, "word-split-altered")
                for lo, hi in ((0, 1), (1, 2), (2, 5)):
                    ok, r = ctx.call("clip-raised", M.csr_clip, a, lo, hi)
                    if ok:
                        ctx.expect(np.array_equal(dense(r), np.where(m > 0, np.clip(m, lo, hi), 0)) and snapshot(a) == snap, "clip")
    # pooling of averages
    gs = [(0, 3), (3, 5), (-1, -1)]
    for counts in itertools.product((0, 1, 2, 7), repeat=4):
        ctx.case({"pooled counts": counts})
        ctx.ran()
        ctx.step()
        ctx.state(("pool", counts))
        parts = [({gs[0]: [0.5 * bool(c), 0.25 * bool(c)], gs[2]: [0.125 * c, 1.0 * bool(c)]}, {gs[0]: c, gs[2]: c + 1}) for c in counts]
        avg, cnt, bad = None, None, False
        for a, c in parts:
            snap = repr((a, c))
            ok, r = ctx.call("pool-raised", M.combine_map, avg, cnt, a, c)
            if not ok:
                bad = True
                break
            avg, cnt = r
            ctx.expect(repr((a, c)) == snap, "pool-altered")
        if bad:
            continue
        for g in (gs[0], gs[2]):
            n = sum(c[g] for _, c in parts)
            ctx.expect(cnt[g] == n, "pooled-count")
            for i in range(2):
                ctx.close(avg[g][i], sum(a[g][i] * c[g] for a, c in parts) / max(1, n), "pooled-average", rtol=1e-12)
    # popular words
    from sidetopics.model.common import DataSet
    for v in itertools.product((1, 2, 5), repeat=4):
        w = np.vstack([np.array(v) * (10 ** 0) + np.array([.01, .02, .03, .04]) * 0, np.array([8, 16, 24, 32])])
        d = DataSet(ssp.csr_matrix(w.astype(np.float64)))
        tot = w.sum(axis=0)
        for sel in itertools.chain.from_iterable(itertools.permutations(range(4), r) for r in range(1, 5)):
            for n in (1, 2, 50):
                ctx.ran()
                ctx.step()
                ctx.case({"popular of": tot, "among": sel, "count": n})
                ok, r = ctx.call("popular-raised", M.popular_indices, d, list(sel), n)
                if ok:
                    r = [int(i) for i in r]
                    ctx.expect(len(r) == min(n, len(sel)) and len(set(r)) == len(r) and set(r) <= set(sel) and all(tot[r[i]] >= tot[r[i + 1]] for i in range(len(r) - 1))
                               and all(tot[o] <= tot[r[-1]] for o in sel if o not in r), "popular", r)
    words = ["#a", "b", "#c", "d"]
    for v in itertools.permutations((1, 2, 3, 4)):
        d = DataSet(ssp.csr_matrix(np.array([v, v], dtype=np.float64)))
        for n in (1, 2, 9):
            ctx.case({"popular hashtags of": v, "count": n})
            ctx.ran()
            ok, r = ctx.call("hashtags-raised", M.popular_hashtag_indices, d, words, n)
            if ok:
                ctx.expect([int(i) for i in r] == sorted((0, 2), key=lambda i: -v[i])[:n], "hashtags", r)
    # options
    names = {"f4": np.float32, "f32": np.float32, "f8": np.float64, "f64": np.float64, "i4": np.int32, "i32": np.int32, "u2": np.uint16, "u16": np.uint16}
    for a in names:
        for b in list(names) + [None]:
            for pad in ("", " "):
                for up in (str, str.upper):
                    ctx.case({"types": (a, b)})
                    ctx.ran()
                    ok, r = ctx.call("types-raised", M.parse_dtypes, up(pad + a + pad + (":" + pad + b + pad if b else "")))
                    if ok:
                        ctx.expect(tuple(r) == (names[a], names[b or a]), "types", r)
    for bad in ("", "f", "f16", "i8", "f4;f8", "f4:", ":f4"):
        ctx.case({"types": bad})
        ctx.raises("types-accepted", ValueError, M.parse_dtypes, bad)
    # saved LDA models are for the same documents in the same order only
    d = folder()
    for n in (1, 3, 4):
        for saved_order in itertools.permutations(range(n)):
            for order in itertools.permutations(range(n)):
                p = os.path.join(d, "m.pkl")
                with open(p, "wb") as f:
                    pickle.dump((np.array(saved_order), 1, 2, 3, "MODEL", "TRAIN", "QUERY"), f)
                ctx.case({"saved order": saved_order, "order": order})
                ctx.ran(saved_order != order)
                ctx.step()
                ctx.state((saved_order, order))
                if saved_order == order:
                    ok, r = ctx.call("load-raised", M.load_and_adapt_lda_model, p, np.array(order))
                    if ok:
                        ctx.expect(tuple(r) == ("MODEL", "TRAIN"), "loaded", r)
                else:
                    ctx.raises("load-of-other-documents", ValueError, M.load_and_adapt_lda_model, p, np.array(order))
    shutil.rmtree(d)


# ------------------------------------------------------------------ the whole program

MODELS = {"lda_vb": ("lda_vb_python", ("f8:f8", "i4:f8")), "lda_cvb0": ("lda_cvb0", ("f8:f8", "f4:f4", "i4:f8")), "lda_cvb": ("lda_cvb", ("f8:f8", "f4:f4", "i4:f8")),
          "lda_gibbs": ("lda_gibbs", ("f8:f8", "i4:f8")), "mom_em": ("mom_em", ("f8:f8", "i4:f8")), "mom_gibbs": ("mom_gibbs", ("f8:f8", "i4:f8")),
          "ctm_bohning": ("ctm_bohning", ("f8:f8",)), "ctm_bouchard": ("ctm", ("f8:f8",)), "stm_yv_bouchard": ("stm_yv", ("f8:f8",)), "stm_yv_bohning": ("stm_yv_bohning", ("f8:f8",)), "dmr": ("dmr", ("f8:f8",)), "lro_vb": ("lro_vb", ("f8:f8",)), "sim_lda_vb": ("sim_based_rec", ("f8:f8",))}


def program(ctx, name):
    import importlib
    M = main()
    mod = importlib.import_module("sidetopics.model." + MODELS[name][0])
    from sidetopics.model.common import DataSet
    d = folder()
    D, T = 16, 12
    i, j = np.arange(D)[:, None], np.arange(T)[None, :]
    w = ((i * 5 + j * 3 + i * j) % 4) * 60 + (i + j) % 3
    w[[3, 7]] = 0
    w[3, 1], w[7, :2] = 5, 7  # too few words
    l = ((i[:, :1] * 3 + np.arange(D)[None, :] * 2 + i * np.arange(D)[None, :]) % 2 == 0).astype(np.int64)
    x = np.hstack([(i >> np.arange(3)[None, :]) & 1, np.ones((D, 1), dtype=np.int64)])
    for n, m in (("w", w), ("l", l), ("x", x)):
        with open(os.path.join(d, n), "wb") as f:
            pickle.dump(ssp.csr_matrix(m), f)
    kept = [r for r in range(D) if (w[r] > 0).sum() >= 3]
    feats = name in ("stm_yv_bouchard", "stm_yv_bohning", "dmr")
    for dt in MODELS[name][1]:
        for folds, finish, limit, iters in ((1, -1, 0, 11), (1, -1, 0, 1), (1, -1, 0, 20), (2, -1, 0, 11), (2, -1, 0, 10), (2, -1, 0, 3), (3, 2, 0, 11), (3, -1, 12, 11)):
            for links in ((True,) if name in ("sim_lda_vb", "lro_vb") else (False, True)):
                out_dir = folder()
                ctx.case({"program": name, "types": dt, "folds": folds, "to finish": finish, "limit": limit, "iterations": iters, "links": links})
                ctx.ran()
                ctx.step()
                ctx.state((name, dt, folds, finish, limit, iters, links))
                args = ["-m", name, "-k", "3", "-w", os.path.join(d, "w"), "-i", str(iters), "-j", "4", "-f", str(folds), "-t", dt, "-o", out_dir, "--truncate-folds", str(finish), "--limit-to", str(limit)]
                args += ["-c", os.path.join(d, "l")] if links else []
                args += ["-x", os.path.join(d, "x"), "-p", "2"] if feats else []
                out, files, err = quietly(M.run, args)
                if not ctx.expect(err is None, "program-raised", repr(err)):
                    continue
                docs = [r for r in kept if not limit or r < limit]
                n_want = folds if finish < 1 else finish
                ctx.expect(len(files) == n_want and all(os.path.exists(f) for f in files), "files", files)
                reports = {int(g[0]): g for g in FOLD.findall(out)}
                tl = ql = tw = qw = 0.0
                from sidetopics.model.evals import perplexity_from_like
                for f in files:
                    with open(f, "rb") as fh:
                        order, itrs, vbs, likes, model, train_tops, query_tops = pickle.load(fh)
                    ctx.expect(sorted(int(o) for o in order) == docs, "documents-kept", {"got": order, "want": docs})
                    fold = int(re.search(r"_fold_(\d+)_", os.path.basename(f)).group(1))
                    types = [x.strip() for x in dt.split(":")]
                    real = {"f8": np.float64, "f4": np.float32, "i4": np.int32}
                    data = DataSet(ssp.csr_matrix(w[order].astype(real[types[0]])), feats=ssp.csr_matrix(x[order].astype(real[types[0]])) if feats else None)
                    train, query = (data, data) if folds == 1 else data.cross_valid_split(fold, folds)
                    like = mod.log_likelihood(train, model, train_tops)
                    if folds == 1:
                        m = re.search(r"Train-set Perplexity:\s*(\S+)", out)
                        ctx.expect(m is not None, "nothing-reported")
                        near(ctx, m.group(1), perp(like, w[order].sum()), "program-perplexity", 2e-3)
                        continue
                    est, evl = query.doc_completion_split()
                    qlike = mod.log_likelihood(evl, model, query_tops)
                    if ctx.expect(fold in reports, "folds-reported", list(reports)):
                        near(ctx, reports[fold][1], perp(like, train.word_count), "program-perplexity", 2e-3)
                        near(ctx, reports[fold][2], perp(qlike, evl.word_count), "program-perplexity", 2e-3)
                    tl, ql, tw, qw = tl + like, ql + qlike, tw + train.word_count, qw + evl.word_count
                if folds > 1:
                    totals = {g[1]: (int(g[0]), float(g[2]), float(g[3])) for g in TOTAL.findall(out)}
                    if ctx.expect(set(totals) == {"Train", "Query"}, "nothing-reported"):
                        near(ctx, totals["Train"][2], perp(tl, tw), "program-perplexity", 2e-3)
                        near(ctx, totals["Query"][2], perp(ql, qw), "program-perplexity", 2e-3)
                shutil.rmtree(out_dir)
    shutil.rmtree(d)


def tasks(tier, seed):
    deep = tier == "thorough"
    out = []
    for D in (2, 3, 4, 5, 7) if not deep else (2, 3, 4, 5, 6, 7, 9):
        out.append(("perplexity-%d" % D, perplexity_runs, (D, False, deep and D <= 5, "stub")))
    out.append(("perplexity-features", perplexity_runs, (4, True, False, "stub")))
    out.append(("perplexity-stm", perplexity_runs, (4, False, False, "stm-yv/bohning")))
    for D, density in ((9, 1), (8, 2), (14, 2)) if not deep else ((9, 1), (8, 2), (14, 2), (14, 1), (21, 2)):
        for u in (False, True):
            out.append(("links-%d-%d-%d" % (D, density, u), link_runs, (D, density, u)))
    for D in (7, 8) if not deep else (6, 7, 8, 16):
        out.append(("by-feature-%d" % D, feature_runs, (D,)))
    out += [("tags-%d" % D, tag_runs, (D,)) for D in (3, 5)] + [("hashtags-%d" % D, hashtag_runs, (D,)) for D in ((4, 12) if not deep else (4, 12, 30))]
    out += [("links-lda-%d" % D, lda_runs, (D,)) for D in (8, 14)]
    out.append(("helpers", helpers, (deep,)))
    out += [("program-" + m, program, (m,)) for m in MODELS]
    return out
