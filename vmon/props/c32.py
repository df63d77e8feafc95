"""C32 the example data readers and the tree network cell."""
import contextlib
import importlib.util
import io
import os
import sys
import tempfile
import types

import numpy as np
import torch
import torch_struct as ts

from ..core import REPO, to_np
from ..gen import gen_case, pick
from .c07 import events

KINDS = ("word pieces", "word piece batch", "conll", "list operations", "bucket", "tree cell", "tree graph")
N = {"quick": 20000, "thorough": 90000}
RULE = "one file, sentence or batch handed to an example reader, or one batch of tree nodes; distinct by content"
REQUIRED = ["kind:" + k for k in KINDS] + ["split at punctuation", "unreadable", "batch:1", "batch:4+", "one word", "blank lines", "hash sign", "words:100+", "dtype:float32", "dtype:float64"]
ASSUMPTIONS = ["torchtext and dgl are not installed; the examples get small stand-ins for the classes they derive from or call (Dataset, Example, RawField, BucketIterator, DGLGraph)",
               "empty sentences, which the CoNLL reader adds for blank lines, are ignored"]


# ------------------------------------------------------------ stand-ins
class RawField:
    def __init__(self, preprocessing=None, postprocessing=None):
        self.preprocessing, self.postprocessing, self.is_target = preprocessing, postprocessing, True

    def preprocess(self, x):
        return x if self.preprocessing is None else self.preprocessing(x)

    def process(self, batch):
        return batch if self.postprocessing is None else self.postprocessing(batch)


class Example:
    @classmethod
    def fromlist(cls, data, fields):
        ex = cls()
        for (name, field), val in zip(fields, data):
            setattr(ex, name, field.preprocess(val))
        return ex


class Dataset:
    def __init__(self, examples, fields, filter_pred=None):
        self.examples = [e for e in examples if filter_pred is None or filter_pred(e)]
        self.fields = dict(fields)


class BucketIterator:
    def __init__(self, dataset, **kw):
        self.dataset, self.kw = dataset, kw


class DGLGraph:
    def __init__(self):
        self.n, self.edges = 0, []

    def add_nodes(self, n):
        self.n += n

    def add_edges(self, a, b):
        self.edges += list(zip(a, b))


@contextlib.contextmanager
def stand_ins():
    tt, data, dgl = types.ModuleType("torchtext"), types.ModuleType("torchtext.data"), types.ModuleType("dgl")
    for c in (RawField, Example, Dataset, BucketIterator):
        setattr(data, c.__name__, c)
    tt.data, dgl.DGLGraph = data, DGLGraph
    new = {"torchtext": tt, "torchtext.data": data, "dgl": dgl}
    old = {k: sys.modules.get(k) for k in new}
    sys.modules.update(new)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


_mods = {}


def module(name):
    if name not in _mods:
        path = os.path.join(REPO, "examples", *name.split("/")) + ".py"
        spec = importlib.util.spec_from_file_location("example_" + name.replace("/", "_"), path)
        m = importlib.util.module_from_spec(spec)
        with stand_ins():
            spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


# ------------------------------------------------------------ word pieces
LETTERS = "abcdefgABC"
MARKS = "#'-.$%/äé1"


class Tokenizer:
    """Splits as it was told to and numbers the pieces."""

    def __init__(self, pieces):
        self.pieces = pieces  # lower-cased word -> its pieces
        self.ids = {}

    def tokenize(self, text):
        return [p for w in text.split() for p in self.pieces[w.lower()]]

    def encode(self, text, add_special_tokens=False):
        out = [self.ids.setdefault(p, 200 + len(self.ids)) for p in self.tokenize(text)]
        return [101] + out + [102] if add_special_tokens else out


def split(rng, w, punct):
    """Pieces of one word; continuations carry ## unless cut at a punctuation mark."""
    w = w.lower()
    cuts = sorted(rng.sample(range(1, len(w)), rng.randint(0, min(3, len(w) - 1)))) if len(w) > 1 else []
    parts = [w[a:b] for a, b in zip([0] + cuts, cuts + [len(w)])]
    return [p if i == 0 or punct else "##" + p for i, p in enumerate(parts)]


def sentence(ctx, punct):
    rng = ctx.rng
    chars = LETTERS + (MARKS if rng.random() < 0.5 else "")
    words = ["".join(rng.choice(chars) for _ in range(rng.randint(1, 6))) for _ in range(pick(rng, (20, rng.choice([1, 2, 3, 5, 9])), (2, rng.randint(10, 60)), (1, rng.randint(100, 320))))]
    if len(words) > 99:
        ctx.cover("words:100+")
    words = [w for w in words if "##" not in w] or ["a"]  # the sign of a continued word
    if any(w[0] == "#" for w in words):
        ctx.cover("hash sign")
    if len(words) == 1:
        ctx.cover("one word")
    pieces = {}
    for w in words:
        pieces.setdefault(w.lower(), split(rng, w, punct and rng.random() < 0.4))
    return words, Tokenizer(pieces)


def aligned(words, tok):
    """Position of each piece: 0 before, word number at its first piece, -1 at the others, last number after."""
    out = [0]
    for n, w in enumerate(words):
        out += [n + 1] + [-1] * (len(tok.pieces[w.lower()]) - 1)
    return out + [len(words) + 1]


def pieces(ctx):
    rng = ctx.rng
    punct = rng.random() < 0.4
    words, tok = sentence(ctx, punct)
    if punct:
        ctx.cover("split at punctuation")
    f = ctx.call("SubTokenizedField", module("data/data").SubTokenizedField, tok)
    ctx.desc = "pieces of %s: %s" % (words, [tok.pieces[w.lower()] for w in words])
    ctx.seen(ctx.desc)
    if rng.random() < 0.1:  # the tokenizer loses the end of the sentence
        ctx.cover("unreadable")
        full = tok.tokenize
        tok.tokenize = lambda text: full(text)[:-len(tok.pieces[words[-1].lower()])]
        with contextlib.redirect_stdout(io.StringIO()):
            ids, pos = ctx.call("token_pre unreadable", f.preprocess, words)
        ctx.expect("token_pre unreadable", ids == [0] * (len(words) + 2) and pos == [0] * (len(words) + 2), lambda: "%s %s" % (ids, pos))
        return
    ids, pos = ctx.call("token_pre", f.preprocess, words)
    ctx.expect("token_pre ids", list(ids) == tok.encode(" ".join(words), True), lambda: str(ids))
    cut = any(not q.startswith("##") for w in words for q in tok.pieces[w.lower()][1:])
    ctx.expect("token_pre positions" + (" of words split at punctuation" if cut else ""), list(pos) == aligned(words, tok), lambda: "%s, want %s" % (pos, aligned(words, tok)))
    ctx.expect("SubTokenizedField target", not f.is_target)


def piece_batch(ctx):
    rng = ctx.rng
    B = pick(rng, (20, rng.choice([1, 2, 3, 5])), (1, rng.randint(20, 60)))
    ctx.cover("batch:1" if B == 1 else "batch:4+" if B > 3 else "batch:2-3")
    ls = []
    for _ in range(B):
        words, tok = sentence(ctx, False)
        ls.append((tok.encode(" ".join(words), True), aligned(words, tok)))
    ctx.desc = "batch of %s" % ls
    ctx.seen(ctx.desc)
    f = ctx.call("SubTokenizedField", module("data/data").SubTokenizedField, None)
    ids, where, lens = ctx.call("token_post", f.process, [(list(a), list(b)) for a, b in ls])
    n, m = max(len(a) for a, _ in ls), max(max(b) for _, b in ls) + 1
    want = np.zeros((B, n), int)
    w2 = np.zeros((B, n, m), int)
    for b, (a, p) in enumerate(ls):
        want[b, :len(a)] = a
        for i, w in enumerate(p):
            if w >= 0:
                w2[b, i, w] = 1
    ctx.expect("token_post ids", tuple(ids.shape) == want.shape and (to_np(ids) == want).all(), lambda: str(ids))
    ctx.expect("token_post positions", tuple(where.shape) == w2.shape and (to_np(where) == w2).all(), lambda: str(where))
    ctx.expect("token_post lengths", [int(x) for x in lens] == [len(a) for a, _ in ls], lambda: str(lens))


# ------------------------------------------------------------ files
def with_file(text, fn):
    d = tempfile.mkdtemp(prefix="vmon-c32-")
    p = os.path.join(d, "data.txt")
    try:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return fn(p)
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def word(rng, but=""):
    chars = [ch for ch in "abcdefgäé0123-,#%&'\"\\/()[]<>_|;:*" if ch not in but]
    return "".join(rng.choice(chars) for _ in range(rng.randint(1, 5)))


def conll(ctx):
    rng = ctx.rng
    sep = rng.choice(["\t", "\t", " ", "|"])
    sents = []
    for _ in range(pick(rng, (20, rng.choice([1, 1, 2, 4, 7])), (1, rng.randint(20, 150)))):
        n = pick(rng, (40, rng.choice([1, 2, 3, 6])), (1, rng.randint(20, 300)))
        sents.append([[word(rng, sep), str(rng.randint(0, n))] for _ in range(n)])
        if n == 1:
            ctx.cover("one word")
    blank = rng.choice([1, 1, 1, 2])
    if blank > 1:
        ctx.cover("blank lines")
    cols = rng.choice([7, 8, 10])
    rows = []
    for s in sents:
        out = []
        for i, (w, h) in enumerate(s):
            c = ["x%d" % j for j in range(cols)]
            c[0], c[1], c[6] = str(i + 1), w, h
            out.append(sep.join(c))
        rows.append("\n".join(out) + "\n")
    text = ("\n" * blank).join(rows) + ("\n" if rng.random() < 0.5 else "")
    ctx.desc = "conll %r" % text[:300]
    ctx.seen(text)
    W, H = RawField(), RawField(preprocessing=lambda x: [int(v) for v in x])
    least = rng.choice([None, None, 2])
    kw = {} if sep == "\t" and rng.random() < 0.5 else {"separator": sep}
    if least:
        kw["filter_pred"] = lambda e: len(e.word) >= least
    d = ctx.call("ConllXDataset", with_file, text, lambda p: module("data/trees").ConllXDataset(p, (("word", W), ("head", H)), **kw))
    got = [(e.word, e.head) for e in d.examples if e.word or e.head]
    want = [([w for w, _ in s], [int(h) for _, h in s]) for s in sents if not least or len(s) >= least]
    ctx.expect("ConllXDataset sentences", got == want, lambda: "%s, want %s" % (got, want))
    ctx.expect("ConllXDataset fields", set(d.fields) == {"word", "head"})


NAMES = ["<unk>", "<pad>", "[MAX", "[MIN", "1", "2", "9", "]", "(a", "b)", "#", "a(", "0", ")("]


def bracketed(rng, lo, n, spans, toks, words):
    """Random bracketing of n words from position lo."""
    if n == 1:
        return leaf(rng, lo, spans, toks, words)
    toks.append("(")
    left, at = n, lo
    while left:
        k = rng.randint(1, min(left, n - 1))
        bracketed(rng, at, k, spans, toks, words)
        at += k
        left -= k
    toks.append(")")
    spans.append((lo, lo + n - 1, ")"))


def leaf(rng, lo, spans, toks, words):
    words.append(rng.choice(NAMES[2:]))
    toks.append(words[-1])
    spans.append((lo, lo, words[-1]))


def list_ops(ctx):
    rng = ctx.rng
    lines, want = [], []
    B = rng.choice([1, 2, 3, 5])
    ctx.cover("batch:1" if B == 1 else "batch:4+" if B > 3 else "batch:2-3")
    for _ in range(B):
        spans, toks, words = [], [], []
        n = pick(rng, (20, rng.choice([1, 2, 3, 5, 8])), (1, rng.randint(10, 40)), (0.2, rng.randint(60, 140)))
        if n == 1:
            ctx.cover("one word")
        bracketed(rng, 0, n, spans, toks, words)
        lab = str(rng.randint(0, 9))
        lines.append(lab + "\t" + " ".join(toks))
        want.append((words, lab, spans))
    ctx.desc = "list operations %s" % lines
    ctx.seen(ctx.desc)
    D = module("data/trees").ListOpsDataset
    field = types.SimpleNamespace(vocab=Vocab({w: i for i, w in enumerate(NAMES)}))
    tree = RawField(postprocessing=D.tree_field(field))
    d = ctx.call("ListOpsDataset", with_file, "\n".join(lines) + "\n", lambda p: D(p, (("word", RawField()), ("label", RawField()), ("tree", tree))))
    got = [(list(e.word), e.label, [tuple(x) for x in e.tree]) for e in d.examples]
    ctx.expect("ListOpsDataset count", len(got) == B, lambda: "%d examples, want %d" % (len(got), B))
    for g, w in zip(got, want):
        ctx.expect("ListOpsDataset words", g[0] == w[0], lambda: "%s, want %s" % (g[0], w[0]))
        ctx.expect("ListOpsDataset label", g[1] == w[1], lambda: "%s, want %s" % (g[1], w[1]))
        ctx.expect("ListOpsDataset spans", sorted(g[2]) == sorted(w[2]), lambda: "%s, want %s" % (g[2], w[2]))
    t = ctx.call("tree_field", tree.process, [e.tree for e in d.examples])
    L, V = max(len(w) for w, _, _ in want), len(field.vocab)
    full = np.zeros((B, L, L, 10 + V))
    for b, (_, _, spans) in enumerate(want):
        for i, j, w in spans:
            if i == j:
                full[b, i, j, field.vocab.stoi[w] + 1] = 1
            else:
                full[b, i, j, 0] = 1
    ctx.expect("tree_field tensor", tuple(t.shape) == full.shape and (to_np(t) == full).all(), lambda: "%s" % (tuple(t.shape),))


class Vocab:
    def __init__(self, stoi):
        self.stoi = stoi

    def __len__(self):
        return len(self.stoi)


def bucket(ctx):
    rng = ctx.rng
    m = module("data/data")
    train, size, dev = object(), rng.randint(1, 3000), rng.choice(["cpu", "cuda:1"])
    ex = types.SimpleNamespace(word=[[0] * rng.randint(1, 12)])
    ctx.desc = "bucket of %d, %d words" % (size, len(ex.word[0]))
    ctx.seen(ctx.desc, dev)
    own = rng.random() < 0.5
    kw = {"key": lambda x: 3 * len(x.word[0])} if own else {}
    it = ctx.call("TokenBucket", m.TokenBucket, train, size, device=dev, **kw)
    k = 3 * len(ex.word[0]) if own else max(len(ex.word[0]), 5)
    ctx.expect("TokenBucket arguments", it.dataset is train and it.kw["batch_size"] == size and it.kw["device"] == dev, lambda: str(it.kw))
    ctx.expect("TokenBucket training", it.kw["train"] and it.kw["shuffle"] and it.kw["repeat"] and it.kw["sort_within_batch"], lambda: str(it.kw))
    n = rng.randint(0, 500)
    ctx.expect("TokenBucket size", it.kw["batch_size_fn"](ex, 3, n) == n + k, "size of a batch that grows")
    ctx.expect("TokenBucket order", it.kw["sort_key"](ex) == k, "sort key")


# ------------------------------------------------------------ tree network
def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def cell(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    dtype = rng.choice([torch.float32, torch.float64])
    X, H, n = rng.randint(1, 5), rng.randint(1, 6), rng.choice([1, 2, 5])
    if rng.random() < 0.1:
        X, H, n = rng.randint(6, 70), rng.randint(7, 70), rng.randint(1, 130)
    ctx.cover("dtype:" + str(dtype)[6:], "batch:1" if n == 1 else "batch:4+" if n > 3 else "batch:2-3")
    torch.manual_seed(rng.getrandbits(40))
    net = ctx.call("TreeLSTMCell", module("networks/TreeLSTM").TreeLSTMCell, X, H).to(dtype)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(nrng.standard_normal(p.shape)))
    p = {k: to_np(v) for k, v in net.state_dict().items()}
    T = lambda *s: torch.tensor(nrng.standard_normal(s), dtype=dtype)  # noqa: E731
    h, c, iou, x = T(n, 2, H), T(n, 2, H), T(n, 3 * H), T(n, X)
    ctx.desc = "tree cell X=%d H=%d n=%d %s" % (X, H, n, dtype)
    ctx.seen(to_np(h).tobytes(), p["U_f.weight"].tobytes())
    tol = 1e-10 if dtype == torch.float64 else 1e-5
    msg = ctx.call("TreeLSTMCell.message_func", net.message_func, types.SimpleNamespace(src={"h": h, "c": c, "iou": iou}))
    ctx.expect("tree cell message", set(msg) == {"h", "c"} and bool((msg["h"] == h).all()) and bool((msg["c"] == c).all()))
    r = ctx.call("TreeLSTMCell.reduce_func", net.reduce_func, types.SimpleNamespace(mailbox={"h": h, "c": c}))
    cat = to_np(h).reshape(n, 2 * H)
    f = sigmoid(cat @ p["U_f.weight"].T + p["U_f.bias"]).reshape(n, 2, H)
    ctx.close("tree cell memory", r["c"], (f * to_np(c)).sum(1), tol * 10)
    ctx.close("tree cell gates", r["iou"], cat @ p["U_iou.weight"].T, tol * 10 * (1 + H))
    a = ctx.call("TreeLSTMCell.apply_node_func", net.apply_node_func, types.SimpleNamespace(data={"iou": iou, "c": c[:, 0]}))
    g = to_np(iou) + p["b_iou"]
    i, o, u = g[:, :H], g[:, H:2 * H], g[:, 2 * H:]
    cc = sigmoid(i) * np.tanh(u) + to_np(c)[:, 0]
    ctx.close("tree cell c", a["c"], cc, tol * 10)
    ctx.close("tree cell h", a["h"], sigmoid(o) * np.tanh(cc), tol * 10)
    ctx.close("tree cell input", net.W_iou(x), to_np(x) @ p["W_iou.weight"].T, tol * 10 * (1 + X))
    ctx.expect("tree cell has no input bias", net.W_iou.bias is None)


def graph(ctx):
    rng = ctx.rng
    c = gen_case(rng, "tree", rng.choice(["tiny", "small"]), budget=1500)
    ev, _ = events(rng, c, (1,), True)
    ctx.desc = "graph of trees of %r" % c
    ctx.seen(ev.tobytes())
    ctx.cover("batch:1" if c.batch == 1 else "batch:4+" if c.batch > 3 else "batch:2-3")
    trees = torch.tensor(ev[0]).long()
    with stand_ins():
        g, label, indices, topo = ctx.call("spans_to_dgl", module("networks/TreeLSTM").TreeLSTM.spans_to_dgl, trees)
    (n, a, b, lab), ind, tp = ctx.call("to_networkx", ts.CKY.to_networkx, trees)
    ctx.expect("spans_to_dgl nodes", g.n == int(trees.sum()), lambda: "%d nodes" % g.n)
    ctx.expect("spans_to_dgl edges", g.edges == list(zip(a, b)), lambda: str(g.edges))
    ctx.expect("spans_to_dgl rest", bool((label == lab).all()) and indices == ind and topo == tp)


def case(ctx, i):
    k = KINDS[i % len(KINDS)]
    ctx.cover("kind:" + k)
    {"word pieces": pieces, "word piece batch": piece_batch, "conll": conll, "list operations": list_ops, "bucket": bucket, "tree cell": cell, "tree graph": graph}[k](ctx)
