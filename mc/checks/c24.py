"""C24 The command line: what is asked for is what is trained, queried and measured, and every link predictor is ranked by its own scores."""
import contextlib
import importlib
import itertools
import os
import pickle
import re
import shutil
import numpy as np
import scipy.sparse as ssp

from ..stub import Stub, QueryState, dense, BLOCK, SHARED
from ..stub import K as STUB_K
from .c12 import ref_map
from .c18 import GROUPS, MS, final_report, folder, hashtag_report, main, means_of, near, quietly, rows_of, softmax, split_by_run, trained_dists

PROPERTY = "C24"
LEVEL = "model_checking"
NATIVE = ["se_fast", "sig_fast", "lda_gibbs_fast"]
RULE = ("Runs of the whole program: sixteen models x {topics x vocabulary prior x number types x latent features x variances} and x {iterations x query iterations x folds x debugging x "
        "batches x limit x files given}, with what reaches training and querying recorded; every link predictor x {held-out links by halves, by folds, by feature} x number types x "
        "given or own LDA model, the report recomputed from all pairs' scores under the saved models; tag and hashtag measures x tag ranges x proportions x dictionaries; "
        "all options that must be refused.")
ASSUMPTIONS = ["the functions of a model's module are what training and querying go through"]

# name on the command line: module, fields that must hold what was asked for besides K and dtype, files it needs
VOCAB, FEAT = {"vocabPrior": "vocab"}, {"vocabPrior": "vocab", "P": "P", "fv": "fv", "lfv": "lfv"}
MODELS = {"ctm_bouchard": ("ctm", VOCAB, ""), "ctm_bohning": ("ctm_bohning", VOCAB, ""), "stm_yv_bouchard": ("stm_yv", FEAT, "x"), "stm_yv_bohning": ("stm_yv_bohning", FEAT, "x"),
          "lda_cvb": ("lda_cvb", {}, ""), "lda_cvb0": ("lda_cvb0", {}, ""), "lda_vb": ("lda_vb_python", VOCAB, ""), "lda_svb": ("lda_vb_python", VOCAB, ""), "lda_gibbs": ("lda_gibbs", {}, ""),
          "rtm_vb": ("rtm", {}, "l"), "mtm2_vb": ("mtm3", {}, "l"), "lro_vb": ("lro_vb", {}, "l"), "dmr": ("dmr", {}, "x"), "sim_lda_vb": ("sim_based_rec", {"method": "lda"}, "l"),
          "sim_tfidf": ("sim_based_rec", {"method": "tfidf"}, "l"), "mom_em": ("mom_em", {}, ""), "mom_gibbs": ("mom_gibbs", {}, "")}
TYPES = {"f4": np.float32, "f32": np.float32, "f8": np.float64, "F64": np.float64, "i4": np.int32, "u16": np.uint16}


def module(name):
    return importlib.import_module("sidetopics.model." + MODELS[name][0])


@contextlib.contextmanager
def patched(mod, **fns):
    old = {n: getattr(mod, n) for n in fns if hasattr(mod, n)}
    try:
        for n, f in fns.items():
            setattr(mod, n, f)
        yield
    finally:
        for n in fns:
            if n in old:
                setattr(mod, n, old[n])
            else:
                delattr(mod, n)


def corpus(D, T=7, constant=None):
    """Words (rows long enough that no model looks for more, some with too few different words), features, links."""
    i, j = np.arange(D)[:, None], np.arange(T)[None, :]
    w = ((i * 5 + j * 3 + i * j) % 4 + (i + j) % 2) * 90 + i + 1
    for d in (2, D - 2):
        w[d] = 0
        w[d, d % T] = 900 + d                            # one word only
    w[4, 3:] = 0                                         # just three words
    f = np.arange(3)[None, :]
    x = (i >> f) & 1
    if constant is not None:
        x[:, constant] = 1
    k = np.arange(D)[None, :]
    l = ((i * 3 + k * 2 + i * k) % 3 == 0).astype(np.int64) * (1 + (i + k) % 2)
    return w, x, l


def store(d, **arrays):
    for n, a in arrays.items():
        with open(os.path.join(d, n), "wb") as f:
            pickle.dump(ssp.csr_matrix(a) if isinstance(a, np.ndarray) else a, f)


class Seen:
    """Stands in for the functions of a model which do work, and notes what they are given."""

    def __init__(self):
        self.trained, self.queried, self.tried = [], [], []

    def newQueryState(self, data, model, *a, **k):
        return "fresh"

    def newModelFromExisting(self, model, *a, **k):
        return model

    def train(self, data, model, tops, plan, *a, **k):
        self.trained.append((data, model, plan))
        return model, "trained", (np.arange(2), np.arange(2.0), np.arange(2.0))

    def query(self, data, model, tops, plan, *a, **k):
        self.queried.append((data, model, plan))
        return model, "queried"

    def log_likelihood(self, data, model, tops, *a, **k):
        return -1.0

    def stand_ins(self):
        return {n: getattr(self, n) for n in ("newQueryState", "newModelFromExisting", "train", "query", "log_likelihood")}


def arr(m):
    return None if m is None else np.asarray(m.todense()) if ssp.issparse(m) else np.asarray(m)


def options(ctx, name, deep, part):
    M, mod = main(), module(name)
    fields, needs = MODELS[name][1], MODELS[name][2]
    d = folder()
    D = 12
    w, x, l = corpus(D)
    _, xc, _ = corpus(D, constant=1)
    store(d, w=w, x=x, xc=xc, l=l)
    good = [r for r in range(D) if (w[r] > 0).sum() >= 3]
    base = {"K": 3, "vocab": None, "types": None, "P": 2, "fv": None, "lfv": None, "iters": 7, "queries": 4, "folds": 1, "debug": None, "batch": None, "limit": None, "feats": needs == "x", "links": needs == "l"}
    runs = []
    if part == "model":
        dims = {"K": (2, 3, 5), "vocab": (None, 0.05, 2.5) if "vocabPrior" in fields else (None, 0.3), "types": (None, "f8:f8", "f4:f8", "f8:f4", "F64", "i4:f32", " u16 : f8 "),
                "P": (2, 3) if "P" in fields else (2,), "fv": (None, 0.5) if "fv" in fields else (None,), "lfv": (None, 2.0) if "lfv" in fields else (None,)}
    else:
        dims = {"iters": (None, 1, 7), "queries": (None, 3, 50), "folds": (1, 3), "debug": (None, "True", "False", "true", "0"), "batch": (None, 4) if name in ("lda_svb", "lda_vb") else (None,),
                "limit": (None, 9, 40), "feats": (False, True, "constant") if needs != "x" else (True, "constant"), "links": (False, True) if needs != "l" else (True,)}
        if not deep:
            dims["debug"] = (None, "True", "False")
    for values in itertools.product(*dims.values()):
        o = dict(base)
        o.update(zip(dims, values))
        one_run(ctx, M, mod, name, fields, d, w, {True: x, "constant": xc, False: None}[o["feats"]], l if o["links"] else None, good, o)
    shutil.rmtree(d)


def arguments(name, d, o):
    args = ["--model", name, "--num-topics", str(o["K"]), "--words", os.path.join(d, "w"), "--num-lat-feats", str(o["P"]), "--folds", str(o["folds"])]
    for flag, key in (("--vocab-prior", "vocab"), ("--dtype", "types"), ("--feat-var", "fv"), ("--lat-feat-var", "lfv"), ("--iters", "iters"), ("--query-iters", "queries"), ("--debug", "debug"), ("--limit-to", "limit")):
        if o[key] is not None:
            args += [flag, str(o[key])]
    if o["feats"]:
        args += ["--feats", os.path.join(d, "xc" if o["feats"] == "constant" else "x")]
    if o["links"]:
        args += ["--links", os.path.join(d, "l")]
    if o["batch"] is not None:
        args += ["--gradient-batch-size", str(o["batch"]), "--gradient-rate-delay", "0.7", "--gradient-forgetting-rate", "0.8"]
    return args


def one_run(ctx, M, mod, name, fields, d, w, x, l, good, o):
    ctx.case(dict(o, model=name))
    ctx.ran()
    ctx.step()
    ctx.state((name,) + tuple(sorted((k, str(v)) for k, v in o.items())))
    seen = Seen()
    with patched(mod, **seen.stand_ins()):
        _, _, err = quietly(M.run, arguments(name, d, o))
    if not ctx.expect(err is None, "raised", repr(err)):
        return
    folds = o["folds"]
    if not ctx.expect(len(seen.trained) == folds and len(seen.queried) == (folds if folds > 1 else 0), "trained-and-queried", {"trained": len(seen.trained), "queried": len(seen.queried)}):
        return
    kinds = [t.strip() for t in (o["types"] or "f4:f4").split(":")]
    in_type, out_type = TYPES[kinds[0]], TYPES[kinds[-1]]
    vals = {"vocab": 1.1 if o["vocab"] is None else o["vocab"], "P": o["P"], "fv": 0.001 if o["fv"] is None else o["fv"], "lfv": 0.001 if o["lfv"] is None else o["lfv"]}
    docs = [r for r in good if not o["limit"] or r < o["limit"]]
    for data, model, plan in seen.trained + seen.queried:
        ctx.expect(model.K == o["K"], "topics", {"got": model.K})
        ctx.expect(np.dtype(model.dtype) == np.dtype(out_type), "model-type", {"got": model.dtype})
        for f, v in fields.items():
            got = np.asarray(getattr(model, f)) if f != "method" else getattr(model, f)
            if f == "method":
                ctx.expect(got == getattr(mod, {"lda": "LDA", "tfidf": "TF_IDF"}[v]), "method", {"got": got})
            else:
                ctx.expect(bool(np.all(np.abs(got.astype(float) - vals[v]) <= 1e-6 * abs(vals[v]))), "field-" + f, {"got": got, "want": vals[v]})
    for data, model, plan in seen.trained:
        want = mod.newTrainPlan(500 if o["iters"] is None else o["iters"]).iterations     # samplers add their burn-in
        ctx.expect(plan.iterations == want, "iterations", {"got": plan.iterations, "want": want})
        if hasattr(plan, "batchSize"):
            want = o["batch"] or 0 if name == "lda_svb" else 0
            ctx.expect(plan.batchSize == want, "batch", {"got": plan.batchSize, "want": want})
            if want:
                ctx.expect(plan.rate_delay == 0.7 and plan.forgetting_rate == 0.8, "rates", {"got": (plan.rate_delay, plan.forgetting_rate)})
    for data, model, plan in seen.queried:
        want = mod.newTrainPlan(100 if o["queries"] is None else o["queries"]).iterations
        ctx.expect(plan.iterations == want, "query-iterations", {"got": plan.iterations, "want": want})
    for data, model, plan in seen.trained + seen.queried:
        ctx.expect(bool(plan.debug) == (str(o["debug"]).lower() == "true"), "debug", {"got": plan.debug, "asked": o["debug"]})
    # what is trained on
    all_docs = []
    for data, model, plan in seen.trained:
        order = [int(i) for i in data.order]
        all_docs.append(order)
        if not ctx.expect(set(order) <= set(docs) and len(set(order)) == len(order), "documents", {"got": order, "want": docs}):
            return
        ctx.expect(data.words.dtype == in_type and np.array_equal(arr(data.words), w[order].astype(in_type)), "words", {"type": data.words.dtype})
        if x is None:
            ctx.expect(data.feats is None, "features-unasked")
        else:
            full = x[order] if (x[docs] == 1).all(axis=0).any() else np.hstack([x[order], np.ones((len(order), 1))])
            ctx.expect(data.feats is not None and data.feats.dtype == in_type and np.array_equal(arr(data.feats), full.astype(in_type)), "features", {"type": data.feats.dtype, "got": arr(data.feats), "want": full})
        if l is None:
            ctx.expect(data.links is None, "links-unasked")
        elif folds == 1:
            ctx.expect(data.links.dtype == in_type and np.array_equal(arr(data.links), l[np.ix_(order, order)].astype(in_type)), "links", {"got": arr(data.links)})
    if folds == 1:
        ctx.expect(sorted(all_docs[0]) == docs, "documents", {"got": all_docs[0], "want": docs})
    else:
        ctx.expect(all(sum(r in got for got in all_docs) == folds - 1 for r in docs), "documents", {"got": all_docs, "want": docs})


# ------------------------------------------------------------------ refusals

def refusals(ctx):
    M = main()
    d = folder()
    w, x, l = corpus(12)
    store(d, w=w, x=x, l=l)
    ok = ["-m", "lda_gibbs", "-k", "3", "-w", os.path.join(d, "w"), "-i", "5"]

    def changed(flag, value):
        a = list(ok)
        if flag in a:
            a[a.index(flag) + 1] = value
        else:
            a += [flag, value]
        return a
    mods = {n: module(n) for n in MODELS}
    tries = [("-m", v) for v in ("lda", "ctm", "LDA_GIBBS", "", "lda_gibbs ")] + [("-v", v) for v in ("perp", "", "PERPLEXITY", "prec_at_m")] + [("-t", v) for v in ("f2:f8", "f8:x", "", "int", "f8:", ":f8")]
    tries += [("-w", os.path.join(d, "none")), ("-x", os.path.join(d, "none")), ("-c", os.path.join(d, "none")), ("--debug", "perhaps"), ("-k", "three"), ("-i", "1.5"), ("-f", "x"), ("--no-such-option", "1")]
    for flag, value in [(None, None)] + tries:
        ctx.case({"option": flag, "value": value})
        ctx.ran()
        ctx.step()
        ctx.state((flag, value))
        seen = Seen()
        with contextlib.ExitStack() as stack:
            for m in {id(m): m for m in mods.values()}.values():
                stack.enter_context(patched(m, **seen.stand_ins()))
            try:
                _, _, err = quietly(M.run, ok if flag is None else changed(flag, value))
            except SystemExit as e:                       # how argument errors end a program
                err = e
        if flag is None:
            ctx.expect(err is None and len(seen.trained) == 1, "accepted", repr(err))
        else:
            ctx.expect(err is not None and not (isinstance(err, SystemExit) and not err.code) and not seen.trained, "not-refused", {"raised": repr(err), "trained": len(seen.trained)})
    shutil.rmtree(d)


# ------------------------------------------------------------------ link predictors, end to end

class Spy:
    """Passes on to a link predictor, noting training data, states and links asked about."""

    def __init__(self, mod):
        self.mod, self.runs, self.within = mod, [], 0

    def pass_on(self, name, *a, **k):
        self.within += 1
        try:
            return self.inner[name](*a, **k)
        finally:
            self.within -= 1

    def train(self, data, model, tops, plan, *a, **k):
        r = self.pass_on("train", data, model, tops, plan, *a, **k)
        if self.within:                                  # a query which trains
            return r
        self.runs.append({"order": [int(i) for i in data.order], "links": arr(data.links).astype(float), "words": arr(data.words), "result": r, "plan": plan, "floors": []})
        return r

    def query(self, data, model, tops, plan, *a, **k):
        r = self.pass_on("query", data, model, tops, plan, *a, **k)
        if not self.within and self.runs and "queried" not in self.runs[-1]:
            self.runs[-1]["queried"] = {"order": [int(i) for i in data.order], "words": arr(data.words), "tops": r[1]}
        return r

    def min_link_probs(self, *a, **k):
        for v in list(a) + list(k.values()) if not self.within else ():
            if ssp.issparse(v):
                self.runs[-1]["floors"].append(arr(v).astype(float))
        return self.pass_on("min_link_probs", *a, **k)

    @contextlib.contextmanager
    def watching(self):
        self.inner = {n: getattr(self.mod, n) for n in ("train", "query", "min_link_probs") if hasattr(self.mod, n)}
        with patched(self.mod, **{n: getattr(self, n) for n in self.inner}):
            yield


def social(D, T, seed):
    """Documents in three groups by words, links mostly within them; two documents with too few words."""
    i, j = np.arange(D)[:, None], np.arange(T)[None, :]
    w = 20 + (i * 7 + j * 3 + i * j * (1 + seed)) % 11 + 150 * ((j % 3) == (i % 3)) + 3 * ((i * j) % 5)
    for d in (1, D - 3):
        w[d] = 0
        w[d, d % T] = 700
    k = np.arange(D)[None, :]
    h = (i * i * 5 + k * 3 + i * k + seed) % 7
    l = ((((i % 3) == (k % 3)) & (h < 5)) | (h == 6)).astype(np.int64)
    np.fill_diagonal(l, 0)
    l[5], l[6] = 0, 0                                   # links to nobody
    l[6, 0] = 1                                         # to one
    x = np.stack([(np.arange(D) % 4 == 1), (np.arange(D) % 5 == 2), (np.arange(D) // 3 % 3 > 0), np.ones(D)], axis=1).astype(np.int64)
    return w, x, l


def all_pairs(name, mod, model, train_tops, query_tops):
    """Every pair's score by the predictor's own functions (C22 has them by definition)."""
    if name == "rtm_vb":
        return mod.link_probs(model, train_tops, np.full(len(train_tops.docLens), 1e-320))
    n = {"lro_vb": lambda q: len(q.offsetTopicDists), "mtm2_vb": lambda q: len(q.outMeans)}.get(name, lambda q: q.reps.shape[0])(query_tops)
    return mod.link_probs(model, train_tops, query_tops, np.full(n, -2.0))


MASK = [("one", 0), ("two", 1)]


def predictors(ctx, name, D, seed, iters):
    M, mod = main(), module(name)
    d = folder()
    T = 9
    w, x, l = social(D, T, seed)
    store(d, w=w, x=x, l=l)
    docs = [r for r in range(D) if (w[r] > 0).sum() >= 3]
    for dt in ("f8:f8", "f4:f4") if name in ("mtm2_vb", "sim_tfidf") else ("f8:f8",):  # LDA is for double precision only
        lda_files = {None: None}
        if name in ("lro_vb", "sim_lda_vb", "mtm2_vb") and dt == "f8:f8":
            for kind in ("lda_vb",) + (("lda_gibbs",) if name == "mtm2_vb" else ()):
                out_dir = folder()
                _, files, err = quietly(M.run, ["-m", kind, "-k", "3", "-w", os.path.join(d, "w"), "-x", os.path.join(d, "x"), "-c", os.path.join(d, "l"), "-i", "12", "-t", dt, "-o", out_dir])
                ctx.case({"training": kind, "types": dt})
                if ctx.expect(err is None and len(files) == 1, "lda-raised", repr(err)):
                    lda_files[kind] = files[0]
        for lda, lda_file in lda_files.items():
            for measure in ("meanprecrec_all", "meanavgprec_all", "lro_meanprecrec_all", "lro_meanprecrec_featsplit"):
                by_feature = measure == "lro_meanprecrec_featsplit"
                if by_feature and name == "rtm_vb":      # an undirected predictor knows one set of documents only
                    continue
                for folds, finish, mask in ((2, -1, MASK), (3, 2, MASK)) if not by_feature else ((1, -1, MASK), (1, -1, [("most", 2)]), (1, -1, MASK[::-1])):
                    if measure == "meanavgprec_all":
                        finish = -1
                    ctx.case({"predictor": name, "documents": D, "data": seed, "types": dt, "measure": measure, "folds": folds, "to finish": finish, "given LDA": lda, "iterations": iters, "features": mask})
                    ctx.ran()
                    ctx.step()
                    ctx.state((name, D, seed, dt, measure, folds, finish, lda, iters, str(mask)))
                    out_dir = folder()
                    args = ["-m", name, "-k", "3", "-w", os.path.join(d, "w"), "-x", os.path.join(d, "x"), "-c", os.path.join(d, "l"), "-i", str(iters), "-t", dt, "-o", out_dir, "-v", measure,
                            "-f", str(folds), "--truncate-folds", str(finish), "--feats-mask", ",".join("%s:%d" % p for p in mask)]
                    args += ["--lda-model", lda_file] if lda_file else []
                    spy = Spy(mod)
                    with spy.watching():
                        out, files, err = quietly(M.run, args)
                    if ctx.expect(err is None, "raised", repr(err)):
                        ranking(ctx, M, mod, name, dt, measure, folds, finish, mask, lda_file, spy, out, files, w, x, l, docs)
                    shutil.rmtree(out_dir)
    shutil.rmtree(d)


def ranking(ctx, M, mod, name, dt, measure, folds, finish, mask, lda_file, spy, out, files, w, x, l, docs):
    by_feature = measure == "lro_meanprecrec_featsplit"
    want = len(mask) if by_feature else folds if finish < 1 else finish
    if not ctx.expect(len(files) == want and len(spy.runs) == want, "folds-finished", {"files": len(files), "trained": len(spy.runs), "want": want}):
        return
    parts, tied = [], False
    for i, (f, run) in enumerate(zip(files, spy.runs)):
        with open(f, "rb") as fh:
            order, _, _, _, model, train_tops, query_tops = pickle.load(fh)
        order = [int(o) for o in order]
        ctx.expect(sorted(order) == docs, "documents", {"got": order, "want": docs})
        ctx.expect(len(run["floors"]) == 1, "predicted-more-or-less-than-once", len(run["floors"]))
        if not run["floors"]:
            return
        asked = run["floors"][0]
        if lda_file and name in ("lro_vb", "sim_lda_vb") and measure != "meanprecrec_all" and measure != "meanavgprec_all":
            with open(lda_file, "rb") as fh:
                lda = pickle.load(fh)[4]
            ctx.expect(np.array_equal(np.asarray(model.ldaModel.wordDists), np.asarray(lda.wordDists)), "given-lda-unused")
        if by_feature:
            left = [m for _, m in mask[i:]]
            t_docs = [r for r in order if not x[r][left].any()]
            q_docs = [r for r in order if x[r][left[0]]]
            ctx.expect(run["order"] == t_docs, "trained-on-other-documents", {"got": run["order"], "want": t_docs})
            q = run.get("queried")
            if not ctx.expect(q is not None and q["order"] == q_docs and np.array_equal(q["words"], w[q_docs]), "queried-other-documents"):
                return
            full = l[np.ix_(q_docs, t_docs)].astype(float)
            ctx.expect(np.array_equal(asked, full), "predicted-other-links", {"got": asked, "want": full})
            ctx.expect(np.array_equal(run["links"], l[np.ix_(t_docs, t_docs)]), "trained-on-other-links")
            probs = arr(all_pairs(name, mod, model, run["result"][1], q["tops"])).astype(float)
            sel = list(range(len(q_docs)))
        else:
            full = l[np.ix_(order, order)].astype(float)
            ctx.expect(run["order"] == order and np.array_equal(run["words"], w[order]), "trained-on-other-documents")
            hidden = asked
            sel = list(range(len(order)))
            if measure == "lro_meanprecrec_all":
                sel = [r for r in sel if (full[r] > 0).sum() >= 5]
                if len(asked) == len(sel) != len(order):
                    asked = np.array([asked[sel.index(r)] if r in sel else np.zeros(len(order)) for r in range(len(order))])
                hidden = np.array([asked[r] if r in sel else np.zeros(len(order)) for r in range(len(order))])
            ctx.expect(bool(np.all((hidden == 0) | (hidden == full))) and hidden.any(), "predicted-other-links", hidden)
            rest = full - hidden
            if name == "rtm_vb":
                rest = ((rest > 0) | (rest.T > 0)).astype(float)
            ctx.expect(np.array_equal(run["links"], rest), "trained-on-other-links", {"got": run["links"], "want": rest})
            probs = arr(all_pairs(name, mod, model, train_tops, train_tops)).astype(float)
            asked = hidden
        if not ctx.expect(bool(np.isfinite(probs).all()), "scores-not-finite"):
            return
        ordered = np.sort(probs, axis=1)
        if (np.diff(ordered, axis=1) <= 1e-9 * np.abs(ordered[:, 1:])).any():
            tied = True                                  # any order of tied scores is a right one
        rows = rows_of(probs)
        parts.append(([[int(c) for c in np.nonzero(asked[r])[0]] for r in sel], [rows[r] for r in sel]))
    ctx.note("reports not compared, scores being tied", int(tied))
    if tied:
        return
    if measure == "meanavgprec_all":
        vals = re.findall(r"Mean-Average-Precision\s+(\S+)", out)
        if ctx.expect(len(vals) == want, "nothing-reported", out[-300:]):
            for v, (e, p) in zip(vals, parts):
                near(ctx, v, ref_map(e, p), "average-precision", 1.1e-3)
    else:
        final_report(ctx, out, parts, with_map=measure != "meanprecrec_all")


# ------------------------------------------------------------------ tags

def tag_corpus(D):
    T = D * BLOCK + SHARED
    w = np.zeros((D, T))
    for d in range(D):
        w[d, d * BLOCK:(d + 1) * BLOCK] = 20 + d, 30 + 2 * d
        for s in range(SHARED):
            w[d, D * BLOCK + s] = (d * 5 + s * 3 + d * s) % 4 + (s == d % SHARED)
    return w


def stub_in(name, stub, T):
    plans = {}

    def plan(iterations, *a, **k):
        return plans.setdefault(iterations, "plan of %s" % iterations)
    return patched(module(name), newModelAtRandom=lambda data, K, *a, **k: stub.template(T), newTrainPlan=plan, newModelFromExisting=stub.newModelFromExisting, newQueryState=stub.newQueryState,
                   train=stub.train, query=stub.query, log_likelihood=stub.log_likelihood, wordDists=stub.wordDists, QueryState=QueryState)


def tags(ctx, D, name="ctm_bohning"):
    M = main()
    w = tag_corpus(D)
    T = w.shape[1]
    first = D * BLOCK
    d = folder()
    names = ["#w%d" % i if i >= first else "w%d" % i for i in range(T)]
    store(d, w=w, dict=names)
    docs = [r for r in range(D) if (w[r] > 0).sum() >= 3]
    for folds, finish in ((2, -1), (3, 2), (3, -1)):
        for opts, span, prop in ((None, (0, T), 0.333), ("%d:-1,1.0" % first, (first, T), 1.0), (" %d : %d , 0.5" % (first, first + 3), (first, first + 3), 0.5), ("0:%d,0.0" % first, (0, first), 0.0), ("%d:%d,1" % (first - 1, first + 2), (first - 1, first + 2), 1.0)):
            ctx.case({"measure": "tags", "documents": D, "folds": folds, "to finish": finish, "options": opts})
            ctx.ran()
            ctx.step()
            ctx.state((D, folds, finish, opts))
            stub = Stub()
            args = ["-m", name, "-k", str(STUB_K), "-w", os.path.join(d, "w"), "-i", "9", "-j", "4", "-f", str(folds), "--truncate-folds", str(finish), "-t", "f8:f8", "-v", "tag_prec_at_m", "--word-dict", os.path.join(d, "dict")]
            args += ["--tag-recall-opts", opts] if opts else []
            with stub_in(name, stub, T):
                out, files, err = quietly(M.run, args)
            columns = list(range(*span))
            popular = sorted(columns, key=lambda c: -w[docs][:, c].sum())
            least = w[docs][:, popular[min(50, len(popular)) - 1]].sum()     # ties at the edge may go either way
            allowed = [c for c in columns if w[docs][:, c].sum() >= least]
            sure = [c for c in columns if w[docs][:, c].sum() > least] if len(columns) > 50 else columns
            parts, hid = [], []
            for run in split_by_run(stub.events):
                t = [e for e in run if e["kind"] == "train"]
                qs = [e for e in run if e["kind"] == "query"]
                if not ctx.expect(len(t) == 1 and len(qs) <= 1, "trained-and-queried"):
                    return
                ctx.expect(t[0]["plan"] == "plan of 9", "plan", t[0]["plan"])
                if not qs:
                    continue
                q = qs[0]
                moved = w[q["docs"]] - q["words"]
                others = [c for c in range(T) if c not in allowed]
                ctx.expect(not moved[:, others].any(), "other-words-removed", {"columns": sorted(set(np.nonzero(moved)[1].tolist())), "allowed": allowed})
                if prop == 1.0:
                    ctx.expect(not q["words"][:, sure].any(), "tags-left-in")
                if prop == 0.0:
                    ctx.expect(not moved.any(), "tags-removed")
                hid.append(bool(moved.any()))
                wd, _ = trained_dists(stub, T)
                p = softmax(means_of(q["docs"])) @ wd
                exp = [[j for j in range(T) if r[j]] for r in moved]
                parts.append((exp, [{j: p[k, j] for j in exp[k]} for k in range(len(exp))]))
            if err is not None:
                ctx.expect(not all(hid) or not hid, "raised", repr(err))
                continue
            ctx.expect(len(parts) == (folds if finish < 1 else finish), "folds-finished", len(parts))
            if 0.0 < prop < 1.0 and D >= 5:
                share = sum(len(e) for es, _ in parts for e in es) / max(1, sum((w[docs][:, allowed] > 0).sum() * len(parts) / folds for _ in (0,)))
                ctx.expect(0.08 * prop < share < 1, "proportion", share)
            final_report(ctx, out, parts)
    for folds, finish in ((2, -1), (3, 2)):
        ctx.case({"measure": "hashtags", "documents": D, "folds": folds, "to finish": finish})
        ctx.ran()
        ctx.step()
        ctx.state((D, folds, finish, "#"))
        stub = Stub()
        args = ["-m", name, "-k", str(STUB_K), "-w", os.path.join(d, "w"), "-i", "9", "-j", "4", "-f", str(folds), "--truncate-folds", str(finish), "-t", "f8:f8", "-v", "hashtag_prec_at_m", "--word-dict", os.path.join(d, "dict")]
        with stub_in(name, stub, T):
            out, files, err = quietly(M.run, args)
        if not ctx.expect(err is None, "raised", repr(err)):
            continue
        n = folds if finish < 1 else finish
        runs = split_by_run(stub.events)
        ctx.expect(len(runs) == 2 * n, "folds-finished", len(runs))      # both measures of tags
        blocks = out.split("Metric")[1:]
        if ctx.expect(len(blocks) == n, "nothing-reported", len(blocks)):
            for block, run in zip(blocks, runs[n:]):
                q = [e for e in run if e["kind"] == "query"]
                if ctx.expect(len(q) == 1, "trained-and-queried", len(q)):
                    hashtag_report(ctx, stub, w, block, q[0], list(range(first, T)), 0, names)
    shutil.rmtree(d)


def tasks(tier, seed):
    deep = tier == "thorough"
    out = [("options-%s-%s" % (n, part), options, (n, deep, part)) for n in MODELS for part in ("model", "run")]
    out.append(("refusals", refusals, ()))
    for n in ("rtm_vb", "mtm2_vb", "lro_vb", "sim_lda_vb", "sim_tfidf"):
        for D, s, iters in ((16, 0, 4), (25, 1, 6)) if not deep else ((16, 0, 4), (16, 1, 1), (25, 1, 6), (25, 2, 15), (40, 3, 8)):
            out.append(("links-%s-%d-%d" % (n, D, s), predictors, (n, D, s, iters)))
    out += [("tags-%d" % D, tags, (D,)) for D in ((3, 5, 30) if not deep else (3, 4, 5, 8, 30, 60))]
    return out
