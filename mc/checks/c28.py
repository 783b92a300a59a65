"""C28 reports of runs: every configuration with outputs gets a report that lists exactly those outputs, and nothing else changes."""
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import tempfile

from ..space import chunks

PROPERTY = "C28"
LEVEL = "model_checking"
NATIVE = []
RULE = ("All sets of up to 3 files (thorough 4) of a palette of outputs of both kinds of model, both bounds, several numbers of topics, latent sizes and folds, and of names that merely look "
        "like them, x all requests of bounds, topics, latent sizes and data; all histories of adding and removing outputs and generating reports to depth 4 (thorough 5); all "
        "combinations of the program's arguments; the built-in templates; names as the main program gives them; ladders to 10 folds of 40 configurations.")
ASSUMPTIONS = ["folders have no quotes or backslashes in their names", "folds are counted by one digit"]

BOUNDS = ("bouchard", "bohning")
IMPL = {("ctm", "bouchard"): "ctm", ("ctm", "bohning"): "ctm_bohning", ("stm", "bouchard"): "stm_yv", ("stm", "bohning"): "stm_yv_bohning"}
TEMPLATES = {"ctm": "CtmResultsSheet-Template.ipynb", "tweets": "StmResultsSheet-Template.ipynb", "nips": "StmResultsSheet-Nips-Template.ipynb"}
PDF = ("article_nocode.tplx", "convert-to-pdf.sh")
BODY = "KIND %s\nB=$bound\nC=$codePath\nP=$outFilesPrefix\nF=[ $outputFiles ]\nI=$implName\ncost $$5, $$x \\alpha {bound} %%s\n"

PALETTE = tuple([(("ctm", b, k, None), "ctm_%s_k_%d_fold_%d_20140304_12%02d.pkl" % (b, k, f, 10 * f))
                 for b, k, f in (("bohning", 5, 0), ("bohning", 5, 9), ("bohning", 50, 0), ("bouchard", 5, 0), ("bouchard", 15, 3))]
                + [(("stm", b, k, p), "stm_yv_%s_k_%d_p_%d_fold_%d_20131231_2359.pkl" % (b, k, p, f))
                   for b, k, p, f in (("bohning", 5, 3, 0), ("bohning", 5, 3, 4), ("bohning", 5, 30, 0), ("bohning", 3, 5, 1), ("bouchard", 5, 3, 0))]
                + [(None, x) for x in ("ctm_bohning_k_5_fold_0_20140304_1200.pkl.bak", "ctm_bohning_k_5_fold_0_20140304_1200.pkl~", "old_ctm_bohning_k_5_fold_0_20140304_1200.pkl",
                                       "ctm_bohning_k_5_20140304_1200.pkl", "ctm_bohning_k_5_fold_0_20140304.pkl", "ctm_bohning_k_5_p_3_fold_0_20140304_1200.pkl",
                                       "ctm_bohning_k_5_fold_0_20140304_1200xpkl", "stm_yv_bohning_k_5_fold_0_20140304_1200.pkl", "stm_yv_bohning_k_5_p_3_fold_0_20140304_1200.pkl.tmp",
                                       "lda_gibbs_k_5_fold_0_20140304_1200.pkl", "readme.txt")])
REQUESTS = (("ctm", ("bohning",), (5,), None), ("ctm", BOUNDS, (5, 50), None), ("ctm", ("bouchard", "bohning"), (15, 7), None), ("ctm", ("bouchard",), (), None),
            ("stm", ("bohning",), (5,), (3,)), ("stm", BOUNDS, (5, 3), (3, 30, 5)), ("stm", ("bouchard",), (5,), (30, 3)), ("stm", ("bohning",), (5,), ()))


def tool():
    import sidetopics.run.report_generator as m
    return m


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        for sub in ("in", "out", "templates"):
            os.mkdir(os.path.join(d, sub))
        for kind, name in TEMPLATES.items():
            put(os.path.join(d, "templates", name), BODY % kind)
        for name in PDF:
            put(os.path.join(d, "templates", name), "built in " + name)
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


def contents(d):
    out = {}
    for base, _, files in os.walk(d):
        for x in files:
            with open(os.path.join(base, x)) as f:
                out[os.path.relpath(os.path.join(base, x), d)] = f.read()
    return out


def clear(d):
    for x in os.listdir(d):
        os.remove(os.path.join(d, x))


def quietly(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a)


def name_of(kind, b, k, p):
    return "ctm_%s_k_%d.ipynb" % (b, k) if kind == "ctm" else "stm_yv_%s_k_%d_p_%d.ipynb" % (b, k, p)


def wanted(files, request):
    """Report name -> (configuration, its outputs), for every configuration asked for."""
    kind, bounds, topics, sizes = request
    return {name_of(kind, b, k, p): ((kind, b, k, p), sorted(x for key, x in files if key == (kind, b, k, p)))
            for b in bounds for k in topics for p in (sizes if kind == "stm" else (None,))}


def ask(m, d, request, templates, data):
    kind, bounds, topics, sizes = request
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    if kind == "ctm":
        return quietly(m.generate_reports_ctm, list(bounds), list(topics), i, o, templates)
    return quietly(m.generate_reports_stm_yv, list(bounds), list(topics), list(sizes), i, o, templates, data)


def listed(ctx, text, folder, config, outputs, data, kind):
    """The report says what its configuration is, and which files belong to it."""
    got = dict(re.findall(r"^(KIND|[BCPFI])(?: |=)(.*)$", text, re.M))
    if not ctx.expect(set(got) == {"KIND", "B", "C", "P", "F", "I"}, "report-mangled", text):
        return
    ctx.expect(got["KIND"] == ("ctm" if config[0] == "ctm" else data), kind + "-template", got)
    ctx.expect(got["B"].lower() == config[1] and got["I"] == IMPL[config[:2]], kind + "-names-other-model", got)
    ctx.expect(text.endswith("cost $5, $x \\alpha {bound} %s\n"), kind + "-text-altered", text[-60:])
    try:
        prefix = eval(got["P"], {})
        files = eval("[" + got["F"].strip()[1:-1] + "]", {"outputPathPrefix": prefix})
        code = eval(got["C"], {})
    except Exception as e:
        ctx.fail(kind + "-unusable", [got, repr(e)])
        return
    ctx.expect(sorted(os.path.normpath(x) for x in files) == [os.path.join(folder, x) for x in outputs], kind + "-lists-other-files", {"listed": files, "wanted": outputs})
    ctx.expect(isinstance(code, str) and bool(code), kind + "-code-path", code)


def checked(ctx, d, result, want, before, data, extra, kind):
    """What was returned and written is what was wanted; everything else is as it was."""
    folder, out = os.path.join(d, "in"), os.path.join(d, "out")
    ctx.expect({os.path.relpath(k, out): v for k, v in result.items()} == {k: len(v[1]) for k, v in want.items()}, kind + "-counts", {"got": result, "wanted": want})
    now = contents(d)
    reports = {os.path.join("out", k): v for k, v in want.items() if v[1]}
    pdf = {os.path.join("out", x): before.get(os.path.join("out", x), now.get(os.path.join("templates", x))) for x in PDF}
    for name, (config, outputs) in reports.items():
        if ctx.expect(name in now, kind + "-report-missing", name):
            listed(ctx, now[name], folder, config, outputs, data, kind)
    for name, text in pdf.items():
        ctx.expect(now.get(name) == text, kind + "-pdf-conversion", name)
    rest = {k: v for k, v in now.items() if k not in reports and k not in pdf}
    ctx.expect(rest == {k: v for k, v in before.items() if k not in reports and k not in pdf}, kind + "-touched-other-files", sorted(rest))


def sets(ctx, batch):
    m = tool()
    with scratch() as d:
        for n, (files, r) in enumerate(batch):
            request, data = REQUESTS[r], ("tweets", "nips")[n % 2]
            ctx.case(("set", [x for _, x in files], r))
            ctx.state(("set", files, r, data))
            ctx.ran()
            ctx.step()
            clear(os.path.join(d, "in"))
            clear(os.path.join(d, "out"))
            for i, (_, x) in enumerate(files):
                put(os.path.join(d, "in", x), "output %d" % i)
            if n % 3 == 1:
                put(os.path.join(d, "out", PDF[n % 2]), "the user's own")
            if n % 5 == 2:
                put(os.path.join(d, "out", "ctm_bohning_k_5.ipynb"), "an old report")
                put(os.path.join(d, "out", "notes.txt"), "notes")
            before = contents(d)
            ok, got = ctx.call("report-raised", ask, m, d, request, os.path.join(d, "templates"), data)
            if ok:
                checked(ctx, d, got, wanted(files, request), before, data, None, "report")
    ctx.sample({"files": [x for _, x in files], "request": request})


def histories(ctx, depth):
    """a/b add an output, x remove one, g/h/j generate reports: the reports are always those of the outputs there."""
    m = tool()
    a, b, c = PALETTE[0], PALETTE[1], PALETTE[3]
    for n in range(1, depth + 1):
        for ops in itertools.product("abcxgh", repeat=n):
            if ops[-1] not in "gh":
                continue
            ctx.case(("history", "".join(ops)))
            ctx.state(("history", ops))
            ctx.ran()
            with scratch() as d:
                files, last = set(), {}
                for op in ops:
                    ctx.step()
                    if op in "abc":
                        files.add({"a": a, "b": b, "c": c}[op])
                        put(os.path.join(d, "in", {"a": a, "b": b, "c": c}[op][1]), op)
                    elif op == "x":
                        for x in list(files):
                            os.remove(os.path.join(d, "in", x[1]))
                        files = set()
                    else:
                        request = ("ctm", BOUNDS if op == "g" else ("bohning",), (5,), None)
                        before = contents(d)
                        ok, got = ctx.call("history-raised", ask, m, d, request, os.path.join(d, "templates"), "tweets")
                        if ok:
                            checked(ctx, d, got, wanted(files, request), before, "tweets", None, "history")
                            if set(files) == last.get(op):
                                ctx.expect(contents(d) == before, "history-repeat-differs")
                            last = {op: set(files)}
    ctx.sample({"depth": depth})


def options(ctx, cases):
    """The program with its arguments: which reports it makes, what it returns, and what it refuses."""
    m = tool()
    for model, topics, sizes, data, given in cases:
        ctx.case(("program", model, topics, sizes, data, given))
        ctx.state(("program", model, topics, sizes, data, given))
        ctx.ran()
        ctx.step()
        kind = "stm" if model.startswith("stm_yv") else "ctm"
        bounds = tuple(b for b in BOUNDS if model.endswith(b)) or BOUNDS
        with scratch() as d:
            for i, (_, x) in enumerate(PALETTE):
                put(os.path.join(d, "in", x), "output %d" % i)
            before = contents(d)
            args = ["--model", model, "-k", topics, "--report-dir", os.path.join(d, "out"), "-i", os.path.join(d, "in")]
            args += ["-q", sizes] if sizes else []
            args += ["--dataset", data] if data else []
            args += ["-t", os.path.join(d, "templates")] if given else []
            good = re.fullmatch("(ctm|stm_yv)(_bohning|_bouchard)?", model) and (kind == "stm" or data in (None, "tweets")) and (kind == "ctm" or sizes)
            try:
                got = quietly(m.run, args)
            except (Exception, SystemExit) as e:
                ctx.expect(not good, "program-raised", [args, repr(e)])
                ctx.expect(contents(d) == before, "program-refused-but-wrote", args)
                continue
            if not ctx.expect(bool(good), "program-accepted", args):
                continue
            want = wanted(PALETTE, (kind, bounds, tuple(int(x) for x in topics.split(",")), tuple(int(x) for x in sizes.split(",")) if sizes else None))
            made = sorted(k for k, v in want.items() if v[1])
            ctx.expect(got is not None and sorted(os.path.relpath(x, os.path.join(d, "out")) for x in got) == made, "program-returned", {"got": got, "wanted": made})
            if given:
                checked(ctx, d, {os.path.join(d, "out", k): len(v[1]) for k, v in want.items()}, want, before, data or "tweets", None, "program")
            else:
                now = contents(os.path.join(d, "out"))
                ctx.expect(sorted(now) == sorted(made + list(PDF)), "program-wrote", sorted(now))
                for x in made:
                    notebook(ctx, now[x], os.path.join(d, "in"), *want[x])
    ctx.sample({"arguments": args})


def notebook(ctx, text, folder, config, outputs):
    """A report from a built-in template: a notebook whose cells name its configuration and its outputs."""
    try:
        nb = json.loads(text)
    except ValueError as e:
        ctx.fail("notebook-unreadable", repr(e))
        return
    cells = [c for w in nb.get("worksheets", [nb]) for c in w["cells"]]
    code = "".join("".join(c.get("input", c.get("source", []))) + "\n" for c in cells if c["cell_type"] == "code")
    everything = "".join("".join(c.get("input", c.get("source", []))) + "\n" for c in cells)
    names = {}
    for var in ("codePath", "outputPathPrefix", "outputFiles"):
        line = re.search(r"^%s *= .*$" % var, code, re.M)
        if not ctx.expect(line is not None, "notebook-lacks", var):
            return
        try:
            exec(line.group(0), names)
        except Exception as e:
            ctx.fail("notebook-unusable", [line.group(0), repr(e)])
            return
    ctx.expect(sorted(os.path.normpath(x) for x in names["outputFiles"]) == [os.path.join(folder, x) for x in outputs], "notebook-lists-other-files", names["outputFiles"])
    ctx.expect("%s Bound" % config[1].capitalize() in everything, "notebook-names-other-bound", config)
    ctx.expect("model.%s import" % IMPL[config[:2]] in code, "notebook-loads-other-model", config)
    ctx.expect(os.path.isdir(names["codePath"]), "notebook-code-path", names["codePath"])


def named_by_program(ctx, cases):
    """Outputs as the main program names them are found by the reports of their configuration."""
    m = tool()
    from sidetopics.run.__main__ import newModelFile
    import sidetopics.model.ctm as ctm, sidetopics.model.ctm_bohning as ctmb, sidetopics.model.stm_yv as stm, sidetopics.model.stm_yv_bohning as stmb
    names = {("ctm", "bouchard"): ctm.MODEL_NAME, ("ctm", "bohning"): ctmb.MODEL_NAME, ("stm", "bouchard"): stm.MODEL_NAME, ("stm", "bohning"): stmb.MODEL_NAME}
    for K, P, folds in cases:
        ctx.case(("named", K, P, folds))
        ctx.state(("named", K, P, folds))
        ctx.ran()
        with scratch() as d:
            files = []
            for (kind, b), name in names.items():
                for f in range(folds):
                    p = P if kind == "stm" else None
                    path = newModelFile(name, K, p, f, os.path.join(d, "in"))
                    put(path, "an output")
                    files.append(((kind, b, K, p), os.path.basename(path)))
            ctx.expect(len(set(x for _, x in files)) == len(files), "outputs-share-a-name", files)
            for request in (("ctm", BOUNDS, (K, K + 1), None), ("stm", BOUNDS, (K,), (P, P + 1))):
                ctx.step()
                before = contents(d)
                ok, got = ctx.call("named-raised", ask, m, d, request, os.path.join(d, "templates"), "tweets")
                if ok:
                    checked(ctx, d, got, wanted(files, request), before, "tweets", None, "named")
    ctx.sample({"topics": K, "latent": P, "folds": folds})


def ladder(ctx, cases):
    m = tool()
    for folds, topics, sizes in cases:
        ctx.case(("ladder", folds, topics, sizes))
        ctx.state(("ladder", folds, topics, sizes))
        ctx.ran()
        with scratch() as d:
            files = [(("ctm", b, k, None), "ctm_%s_k_%d_fold_%d_20140304_1200.pkl" % (b, k, f)) for b in BOUNDS for k in topics for f in range(folds)]
            files += [(("stm", b, k, p), "stm_yv_%s_k_%d_p_%d_fold_%d_20140304_1200.pkl" % (b, k, p, f)) for b in BOUNDS for k in topics for p in sizes for f in range(folds)]
            for _, x in files:
                put(os.path.join(d, "in", x), "x")
            for request in (("ctm", BOUNDS, topics, None), ("stm", BOUNDS[::-1], topics, sizes)):
                ctx.step()
                before = contents(d)
                ok, got = ctx.call("ladder-raised", ask, m, d, request, os.path.join(d, "templates"), "nips")
                if ok:
                    checked(ctx, d, got, wanted(files, request), before, "nips", None, "ladder")
    ctx.sample({"folds": folds, "topics": topics})


def tasks(tier, seed):
    thorough = tier == "thorough"
    some = [(c, r) for n in range(4 if not thorough else 5) for c in itertools.combinations(PALETTE, n) for r in range(len(REQUESTS))]
    if not thorough:
        some = [x for i, x in enumerate(some) if len(x[0]) < 3 or i % 3 == 0 or i % 8 == 5]
    out = [("sets-%d" % i, sets, (c,)) for i, c in enumerate(chunks(some, 8 if not thorough else 24))]
    out.append(("histories", histories, (5 if thorough else 4,)))
    ways = [(mo, k, q, data, g) for mo in ("ctm", "ctm_bohning", "ctm_bouchard", "stm_yv", "stm_yv_bohning", "stm_yv_bouchard", "lda", "lda_bohning")
            for k in ("5", "5,50", "15,5,7") for q in (None, "3", "30,3,5") for data in (None, "tweets", "nips") for g in (False, True)]
    out += [("options-%d" % i, options, (c,)) for i, c in enumerate(chunks(ways, 4))]
    out.append(("named", named_by_program, ([(k, p, f) for k in (1, 5, 10, 150) for p in (1, 10, 75) for f in (1, 2, 5, 10)],)))
    out.append(("ladder", ladder, ([(f, t, s) for f in (1, 2, 5, 10) for t in ((5,), (1, 2, 10, 11, 100), (5, 10, 25, 50, 100, 150, 200, 250)) for s in ((10,), (1, 11, 5, 50, 100))],)))
    return out
