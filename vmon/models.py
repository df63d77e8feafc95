"""Structure families: reference graphs, legality checkers, codecs.

All conventions come from the documented event shapes:
  chain  (N-1, C, C)        [n, z_{n+1}, z_n]
  semi   (N-1, K, C, C)     [n, width, new label, old label], width 1..K-1
  dep    (N, N[, L])        [head, child], root arcs on the diagonal
  tree   (N, N, NT)         [i, j, label], inclusive spans, one label per span
  cfg    terms (N, T), rules (NT, S, S), roots (NT), spans (N, N, NT)
"""
import functools
import itertools

from .ref import Graph


class Fam:
    """name + hyper-parameters that fix the event shape and the legal set."""

    def __init__(self, name, **kw):
        self.name = name
        self.kw = dict(kw)
        self.__dict__.update(kw)
        self.key = (name,) + tuple(sorted(kw.items()))

    def __repr__(self):
        return "%s(%s)" % (self.name, ",".join("%s=%s" % x for x in sorted(self.kw.items())))

    # ---- shapes
    @property
    def shape(self):
        k = self.kw
        if self.name == "chain":
            return (k["N"] - 1, k["C"], k["C"])
        if self.name == "semi":
            return (k["N"] - 1, k["K"], k["C"], k["C"])
        if self.name == "dep":
            return (k["N"], k["N"]) + ((k["L"],) if k["L"] else ())
        if self.name == "tree":
            return (k["N"], k["N"], k["NT"])
        raise KeyError(self.name)

    @property
    def n_parts(self):
        if self.name == "cfg":
            return sum(self.cfg_sizes)
        n = 1
        for s in self.shape:
            n *= s
        return n

    @property
    def cfg_shapes(self):
        k = self.kw
        N, NT, T = k["N"], k["NT"], k["T"]
        S = NT + T
        return ((N, T), (NT, S, S), (NT,), (N, N, NT))

    @property
    def cfg_sizes(self):
        out = []
        for s in self.cfg_shapes:
            n = 1
            for x in s:
                n *= x
            out.append(n)
        return out

    @property
    def min_len(self):
        return 2 if self.name == "cfg" else 1

    def graph(self, length):
        return _graph(self.name, tuple(sorted(self.kw.items())), length)

    def flat(self, idx):
        f = 0
        for i, s in zip(idx, self.shape):
            f = f * s + i
        return f

    def unflat(self, f):
        out = []
        for s in reversed(self.shape):
            out.append(f % s)
            f //= s
        return tuple(reversed(out))

    # ---- legality: parts is a set/list of index tuples that are "on"
    def legal(self, on, length):
        """None if the parts are one legal structure for this length, else a reason."""
        return _LEGAL[self.name](self, on, length)

    def all_structures(self, length):
        """Definitional enumeration, independent of the graphs."""
        return _ENUM[self.name](self, length)


@functools.lru_cache(maxsize=256)
def _graph(name, kw, length):
    f = Fam(name, **dict(kw))
    return _BUILD[name](f, length)


# ---------------------------------------------------------------- graphs
def _build_chain(f, L):
    g = Graph(f.n_parts)
    C = f.C
    prev = [g.node([((), ())]) for _ in range(C)]
    for n in range(L - 1):
        prev = [
            g.node([((prev[o],), (f.flat((n, c, o)),)) for o in range(C)])
            for c in range(C)
        ]
    g.node([((p,), ()) for p in prev])
    return g


def _build_semi(f, L):
    g = Graph(f.n_parts)
    C, K = f.C, f.K
    at = [[g.node([((), ())]) for _ in range(C)]]
    for n in range(1, L):
        row = []
        for c in range(C):
            es = []
            for k in range(1, min(K - 1, n) + 1):
                for o in range(C):
                    es.append(((at[n - k][o],), (f.flat((n - k, k, c, o)),)))
            row.append(g.node(es))
        at.append(row)
    g.node([((p,), ()) for p in at[L - 1]])
    return g


def _build_dep(f, L):
    g = Graph(f.n_parts)
    lab = f.L

    def arc(h, c):  # 1-based, 0 = root; returns (tails, parts)
        if h == 0:
            idx = (c - 1, c - 1)
        else:
            idx = (h - 1, c - 1)
        if not lab:
            return (), (f.flat(idx),)
        key = (h, c)
        if key not in arcs:
            arcs[key] = g.node([((), (f.flat(idx + (l,)),)) for l in range(lab)])
        return (arcs[key],), ()

    arcs = {}
    first = 0 if f.multiroot else 1
    unit = g.node([((), ())])
    CL, CR, IL, IR = {}, {}, {}, {}
    for i in range(first, L + 1):
        CL[i, i] = CR[i, i] = unit
    for w in range(1, L + 1 - first):
        for i in range(first, L + 1 - w):
            j = i + w
            arr = arc(i, j)
            pairs = [(CR[i, k], CL[k + 1, j]) for k in range(i, j)]
            IR[i, j] = g.node([(p + arr[0], arr[1]) for p in pairs])
            if i >= 1:
                arl = arc(j, i)
                IL[i, j] = g.node([(p + arl[0], arl[1]) for p in pairs])
                CL[i, j] = g.node([((CL[i, k], IL[k, j]), ()) for k in range(i, j)])
            else:
                CL[i, j] = g.node([])
            CR[i, j] = g.node([((IR[i, k], CR[k, j]), ()) for k in range(i + 1, j + 1)])
    if f.multiroot:
        g.node([((CR[0, L],), ())])
    else:
        es = []
        for r in range(1, L + 1):
            a = arc(0, r)
            es.append(((CL[1, r], CR[r, L]) + a[0], a[1]))
        g.node(es)
    return g


def _build_tree(f, L):
    g = Graph(f.n_parts)
    sp = {}
    for w in range(L):
        for i in range(L - w):
            j = i + w
            lab = g.node([((), (f.flat((i, j, a)),)) for a in range(f.NT)])
            if w == 0:
                sp[i, j] = lab
            else:
                sp[i, j] = g.node(
                    [((lab, sp[i, k], sp[k + 1, j]), ()) for k in range(i, j)]
                )
    g.node([((sp[0, L - 1],), ())])
    return g


def cfg_offsets(f):
    s = f.cfg_sizes
    return (0, s[0], s[0] + s[1], s[0] + s[1] + s[2])


def _build_cfg(f, L):
    g = Graph(f.n_parts)
    N, NT, T = f.N, f.NT, f.T
    S = NT + T
    o_t, o_r, o_o, o_s = cfg_offsets(f)
    node = {}
    for i in range(L):
        for t in range(T):
            node[i, i, NT + t] = g.node([((), (o_t + i * T + t,))])
    for w in range(1, L):
        for i in range(L - w):
            j = i + w
            pair = {}
            for b in range(S):
                for c in range(S):
                    es = []
                    for k in range(i, j):
                        x, y = node.get((i, k, b)), node.get((k + 1, j, c))
                        if x is not None and y is not None:
                            es.append(((x, y), ()))
                    if es:
                        pair[b, c] = g.node(es)
            for a in range(NT):
                es = [
                    ((q,), (o_r + (a * S + b) * S + c, o_s + (i * N + j) * NT + a))
                    for (b, c), q in pair.items()
                ]
                node[i, j, a] = g.node(es)
    g.node([((node[0, L - 1, a],), (o_o + a,)) for a in range(NT)])
    return g


_BUILD = dict(chain=_build_chain, semi=_build_semi, dep=_build_dep, tree=_build_tree, cfg=_build_cfg)


# -------------------------------------------------------------- legality
def _legal_chain(f, on, L):
    if len(on) != L - 1:
        return "%d transitions on, want %d" % (len(on), L - 1)
    on = sorted(on)
    for n, (m, c, o) in enumerate(on):
        if m != n:
            return "step %d has no unique transition" % n
        if n and on[n - 1][1] != o:
            return "state changes between step %d and %d" % (n - 1, n)
    return None


def _legal_semi(f, on, L):
    on = sorted(on)
    pos, lab = 0, None
    for n, k, c, o in on:
        if n != pos:
            return "segment starts at %d, want %d" % (n, pos)
        if not 1 <= k <= f.K - 1:
            return "segment width %d" % k
        if lab is not None and o != lab:
            return "label changes at %d" % n
        pos, lab = n + k, c
    if pos != L - 1:
        return "segments end at %d, want %d" % (pos, L - 1)
    return None


def _legal_dep(f, on, L):
    if len(on) != L:
        return "%d arcs on, want %d" % (len(on), L)
    head = {}
    for idx in on:
        h, c = idx[0], idx[1]
        if h >= L or c >= L:
            return "arc beyond the length"
        if c in head:
            return "two heads for word %d" % c
        head[c] = -1 if h == c else h
    roots = [c for c in head if head[c] == -1]
    if not roots:
        return "no root"
    if not f.multiroot and len(roots) != 1:
        return "%d roots" % len(roots)
    for c in range(L):
        seen, x = set(), c
        while x != -1:
            if x in seen:
                return "cycle"
            seen.add(x)
            x = head[x]
    # projective: arcs (root at position -1) do not cross
    arcs = [(min(h, c), max(h, c)) for c, h in head.items()]
    for a, b in arcs:
        for x, y in arcs:
            if a < x < b < y:
                return "crossing arcs"
    return None


def _legal_tree(f, on, L):
    spans = {}
    for i, j, a in on:
        if (i, j) in spans:
            return "two labels on span (%d,%d)" % (i, j)
        spans[i, j] = a
    if len(spans) != 2 * L - 1:
        return "%d spans on, want %d" % (len(spans), 2 * L - 1)

    left = set(spans)
    stack = [(0, L - 1)]
    while stack:
        i, j = stack.pop()
        if (i, j) not in left:
            return "span (%d,%d) missing" % (i, j)
        left.discard((i, j))
        if i == j:
            continue
        ks = [k for k in range(i, j) if (i, k) in spans and (k + 1, j) in spans]
        if len(ks) != 1:
            return "span (%d,%d) has %d splits" % (i, j, len(ks))
        stack += [(i, ks[0]), (ks[0] + 1, j)]
    if left:
        return "stray spans %s" % sorted(left)
    return None


_LEGAL = dict(chain=_legal_chain, semi=_legal_semi, dep=_legal_dep, tree=_legal_tree)


def cfg_legal(f, terms, rules, roots, spans, L):
    """Check that four count dictionaries describe one derivation.

    terms {(n,t):c} rules {(a,b,c):n} roots {(a,):n} spans {(i,j,a):n} with
    inclusive span ends.
    """
    NT = f.NT
    lab = {}
    for (n, t), c in terms.items():
        if c != 1 or (n, n) in lab or n >= L:
            return "terminal at %d not unique or beyond the length" % n
        lab[n, n] = NT + t
    if len(lab) != L:
        return "%d terminals, want %d" % (len(lab), L)
    for (i, j, a), c in spans.items():
        if c != 1 or (i, j) in lab or i >= j:
            return "span (%d,%d) not unique" % (i, j)
        lab[i, j] = a
    if len(lab) != 2 * L - 1:
        return "%d spans, want %d" % (len(lab) - L, L - 1)
    if (0, L - 1) not in lab:
        return "no span over the sentence"
    if roots != {(lab[0, L - 1],): 1}:
        return "root %s does not label the sentence" % (roots,)
    want = {}
    left = set(lab)
    stack = [(0, L - 1)]
    while stack:
        i, j = stack.pop()
        if (i, j) not in left:
            return "span (%d,%d) missing" % (i, j)
        left.discard((i, j))
        if i == j:
            continue
        ks = [k for k in range(i, j) if (i, k) in lab and (k + 1, j) in lab]
        if len(ks) != 1:
            return "span (%d,%d) has %d splits" % (i, j, len(ks))
        k = ks[0]
        r = (lab[i, j], lab[i, k], lab[k + 1, j])
        want[r] = want.get(r, 0) + 1
        stack += [(i, k), (k + 1, j)]
    if left:
        return "stray spans"
    if want != rules:
        return "rules do not match the spans"
    return None


# -------------------------------------------- definitional enumeration
def _enum_chain(f, L):
    for z in itertools.product(range(f.C), repeat=L):
        yield tuple((n, z[n + 1], z[n]) for n in range(L - 1))


def _enum_semi(f, L):
    def comp(rest):
        if rest == 0:
            yield ()
        for k in range(1, min(f.K - 1, rest) + 1):
            for c in comp(rest - k):
                yield (k,) + c

    for widths in comp(L - 1):
        for z in itertools.product(range(f.C), repeat=len(widths) + 1):
            out, pos = [], 0
            for m, k in enumerate(widths):
                out.append((pos, k, z[m + 1], z[m]))
                pos += k
            yield tuple(out)


def _enum_dep(f, L):
    for heads in itertools.product(range(L), repeat=L):
        on = [(h, c) for c, h in enumerate(heads)]
        if _legal_dep(f, on, L) is None:
            if f.L:
                for labs in itertools.product(range(f.L), repeat=L):
                    yield tuple(sorted(a + (l,) for a, l in zip(on, labs)))
            else:
                yield tuple(sorted(on))


def _enum_tree(f, L):
    def rec(i, j):
        if i == j:
            yield ((i, j),)
            return
        for k in range(i, j):
            for a in rec(i, k):
                for b in rec(k + 1, j):
                    yield ((i, j),) + a + b

    for spans in rec(0, L - 1):
        for labs in itertools.product(range(f.NT), repeat=len(spans)):
            yield tuple(sorted(s + (a,) for s, a in zip(spans, labs)))


def cfg_enum(f, L):
    """All derivations as (terms, rules, roots, spans) index lists."""
    NT, T = f.NT, f.T

    def rec(i, j, a):
        if i == j:
            if a >= NT:
                yield ((i, a - NT),), (), ()
            return
        if a >= NT:
            return
        for k in range(i, j):
            for b in range(NT + T):
                for c in range(NT + T):
                    for x in rec(i, k, b):
                        for y in rec(k + 1, j, c):
                            yield (
                                x[0] + y[0],
                                ((a, b, c),) + x[1] + y[1],
                                ((i, j, a),) + x[2] + y[2],
                            )

    for a in range(NT):
        for t, r, s in rec(0, L - 1, a):
            yield t, r, (a,), s


_ENUM = dict(chain=_enum_chain, semi=_enum_semi, dep=_enum_dep, tree=_enum_tree)


def cfg_flat(f, t, r, o, s):
    """Flat part indices (with multiplicity) of one derivation."""
    NT, T, N = f.NT, f.T, f.N
    S = NT + T
    o_t, o_r, o_o, o_s = cfg_offsets(f)
    out = [o_t + n * T + x for n, x in t]
    out += [o_r + (a * S + b) * S + c for a, b, c in r]
    out += [o_o + a for a in o]
    out += [o_s + (i * N + j) * NT + a for i, j, a in s]
    return tuple(sorted(out))
