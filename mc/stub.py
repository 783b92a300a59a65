"""A topic model that records what an evaluation does with it, for C18: it learns nothing, and everything it returns says where it came from."""
import collections
import copy
import numpy as np
import scipy.sparse as ssp

ModelState = collections.namedtuple("ModelState", "K vocab tag name")
ModelStateP = collections.namedtuple("ModelStateP", "K P vocab tag name")
QueryState = collections.namedtuple("QueryState", "means expMeans varcs docLens")

BLOCK, SHARED, K = 2, 6, 2


class Fault(Exception):
    pass


def ids(words):
    """Which documents these are: each has two words nobody else has."""
    w = np.asarray(words.todense(), dtype=np.float64)
    own = w[:, :w.shape[1] - SHARED]
    own = own.reshape(len(w), -1, BLOCK).sum(axis=2)
    return [int(np.argmax(r)) if (r > 0).sum() == 1 else -1 for r in own]


def dense(m):
    return None if m is None else np.asarray(m.todense(), dtype=np.float64) if ssp.issparse(m) else np.asarray(m, dtype=np.float64).copy()


class Stub:
    """Stands for the module of a model."""
    QueryState = QueryState

    def __init__(self, undirected=False, fail_at=()):
        self.events, self.calls, self.fail_at, self.undirected, self.made = [], 0, set(fail_at), undirected, 0

    def _tick(self):
        self.calls += 1
        if self.calls - 1 in self.fail_at:
            raise Fault("planned failure of call %d" % (self.calls - 1))

    def template(self, T, name="stub", P=None):
        vocab = np.full((K, T), 1.0)
        tag = np.zeros(3)
        return ModelState(K, vocab, tag, name) if P is None else ModelStateP(K, P, vocab, tag, name)

    def _log(self, kind, **kw):
        kw["kind"] = kind
        self.events.append(kw)
        return kw

    def is_undirected_link_predictor(self):
        return self.undirected

    def newModelFromExisting(self, model, **kw):
        self._tick()
        self.made += 1
        clean = bool(np.all(model.vocab == 1.0) and np.all(model.tag == 0))
        m = copy.deepcopy(model)
        m.tag[0] = self.made
        self._log("copy", model=self.made, clean=clean, kw=kw)
        return m

    def newQueryState(self, data, model, **kw):
        self._tick()
        d = ids(data.words)
        self._log("state", model=float(model.tag[0]), docs=d, kw=kw)
        n = np.asarray(data.words.sum(axis=1)).reshape(-1)
        means = np.array([[0.1 * i, 0.05 * i * i] for i in d], dtype=np.float64).reshape(len(d), K)
        return QueryState(means, means.copy(), np.array([[float(i), 0.0] for i in d]), n)

    def train(self, data, model, tops, plan):
        e = self._log("train", model=float(model.tag[0]), docs=ids(data.words), words=dense(data.words), links=dense(data.links), plan=plan,
                      own_state=[int(i) for i in tops.varcs[:, 0]] == ids(data.words), fresh=model.tag[1] == 0, links_given=data.links)
        model.vocab[:] += 1.0 + np.arange(model.vocab.size).reshape(model.vocab.shape) * 0.01  # learns in place, as models do
        model.tag[1] += 1
        self._tick()
        n = float(model.tag[0])
        e["done"] = True
        return model, tops._replace(varcs=np.hstack([tops.varcs[:, :1], np.full((len(tops.varcs), 1), 1.0)])), (np.array([0, 1]), np.array([n, 2 * n]), np.array([-n, -3 * n]))

    def query(self, data, model, tops, plan):
        self._tick()
        self._log("query", model=float(model.tag[0]), trained=float(model.tag[1]), docs=ids(data.words), words=dense(data.words), plan=plan,
                  own_state=[int(i) for i in tops.varcs[:, 0]] == ids(data.words))
        return model, tops._replace(varcs=np.hstack([tops.varcs[:, :1], np.full((len(tops.varcs), 1), 2.0)]))

    def log_likelihood(self, data, model, tops):
        self._tick()
        w = dense(data.words)
        own = [int(i) for i in tops.varcs[:, 0]] == ids(data.words)
        value = -float(w.sum() * 2.0 + (w * (1 + np.arange(w.shape[1]) % 5)).sum() * 0.125 * (1 + 0.25 * model.tag[0]))
        self._log("like", model=float(model.tag[0]), trained=float(model.tag[1]), docs=ids(data.words), words=w, tops=int(tops.varcs[0, 1]) if len(w) else -1, own_state=own, value=value)
        return value

    def wordDists(self, model):
        v = model.vocab * (1.0 + 0.37 * np.sin(1 + np.arange(model.vocab.size).reshape(model.vocab.shape)))
        return v / v.sum(axis=1)[:, None]

    @staticmethod
    def link_scores(rows, n):
        i, j = np.asarray(rows, dtype=np.float64)[:, None], np.arange(n)[None, :]
        return np.modf(0.618034 * (i * 7.3 + 1) * (j + 1) + 0.0131 * i * j)[0] + 1e-3 * j / n + 0.01

    def min_link_probs(self, model, *a):
        self._tick()
        tops, links, subset = (list(a[:-1]), a[-1], None) if not ssp.issparse(a[-2]) else (list(a[:-2]), a[-2], a[-1])
        self._log("floor", model=float(model.tag[0]), trained=float(model.tag[1]), tops=[[int(i) for i in t.varcs[:, 0]] for t in tops], kinds=[int(t.varcs[0, 1]) for t in tops], links=dense(links), subset=subset)
        return np.zeros(links.shape[0])

    def link_probs(self, model, *a):
        self._tick()
        tops = [t for t in a if isinstance(t, QueryState)]
        rest = [t for t in a if not isinstance(t, QueryState)]
        subset = rest[1] if len(rest) > 1 else None
        rows = [int(i) for i in tops[-1].varcs[:, 0]]
        if subset is not None:
            rows = [rows[int(i)] for i in subset]
        p = self.link_scores(rows, tops[0].varcs.shape[0])
        self._log("links", model=float(model.tag[0]), trained=float(model.tag[1]), tops=[[int(i) for i in t.varcs[:, 0]] for t in tops], kinds=[int(t.varcs[0, 1]) for t in tops], rows=rows, probs=p, subset=subset)
        return ssp.csr_matrix(p)
