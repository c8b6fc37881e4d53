"""Boring reference automata.

A RefFsa is (n, arcs): n states, state 0 is the start state and n-1 the final
one; arcs is a list of (src, dst, label, score) sorted by src (stable).  n == 0
is the automaton with no states.  Labels: -1 final, 0 epsilon, >0 symbols.
"""
import itertools
import math
import struct

import torch
import k2
import _k2

NEG = float('-inf')


class Ref:
    __slots__ = ('n', 'arcs')

    def __init__(self, n, arcs):
        self.n = n
        self.arcs = sorted(arcs, key=lambda a: a[0])

    def __repr__(self):
        return f'Ref({self.n}, {self.arcs})'

    def key(self):
        return (self.n, tuple(self.arcs))


def f2i(x):
    return struct.unpack('<i', struct.pack('<f', x))[0]


def vec_tensor(refs):
    rs1, rs12 = [0], [0]
    flat = []
    for r in refs:
        rs1.append(rs1[-1] + r.n)
        rs12.append(rs12[-1] + len(r.arcs))
        for (s, d, l, w) in r.arcs:
            flat += [s, d, l, f2i(w)]
    hdr = [len(refs), 0] + rs1 + rs12
    return torch.tensor(hdr + flat, dtype=torch.int32)


def build_vec(refs):
    return k2.Fsa(vec_tensor(refs))


def ragged_arc(refs, single=False):
    """An arcs object with exactly these states, bypassing all inference."""
    rs1, rs2 = [0], [0]
    flat = []
    for r in refs:
        rs1.append(rs1[-1] + r.n)
        per = [0] * r.n
        for (s, d, l, w) in r.arcs:
            flat.append([s, d, l, f2i(w)])
            per[s] += 1
        for c in per:
            rs2.append(rs2[-1] + c)
    s2 = k2.ragged.create_ragged_shape2(
        row_splits=torch.tensor(rs2, dtype=torch.int32))
    if not single:
        s1 = k2.ragged.create_ragged_shape2(
            row_splits=torch.tensor(rs1, dtype=torch.int32))
        s2 = s1.compose(s2)
    vals = torch.tensor(flat, dtype=torch.int32).reshape(-1, 4)
    return _k2.RaggedArc(s2, vals)


def build(ref):
    return k2.Fsa(ragged_arc([ref], single=True))


def read(fsa):
    """list of Ref for an FsaVec, or [Ref] for a single Fsa (scores from the
    differentiable score tensor, i.e. what the user sees)."""
    arcs = fsa.arcs.values()[:, :3].tolist()
    scores = fsa.scores.tolist()
    if fsa.arcs.num_axes() == 2:
        n = fsa.arcs.dim0()
        rs = fsa.arcs.row_splits(1).tolist()
        assert len(rs) == n + 1
        assert_src(arcs, rs)
        return [Ref(n, [(a[0], a[1], a[2], s) for a, s in zip(arcs, scores)])]
    rs1 = fsa.arcs.row_splits(1).tolist()
    rs2 = fsa.arcs.row_splits(2).tolist()
    out = []
    for i in range(len(rs1) - 1):
        b, e = rs1[i], rs1[i + 1]
        ab, ae = rs2[b], rs2[e]
        assert_src(arcs[ab:ae], [x - ab for x in rs2[b:e + 1]])
        out.append(Ref(e - b, [(a[0], a[1], a[2], s)
                               for a, s in zip(arcs[ab:ae], scores[ab:ae])]))
    return out


def assert_src(arcs, rs):
    """the source state written in every arc is the row the arc is in."""
    for st in range(len(rs) - 1):
        for j in range(rs[st], rs[st + 1]):
            if arcs[j][0] != st:
                raise AssertionError(
                    f'arc {j} is listed under state {st} but has source '
                    f'{arcs[j][0]}')


def read1(fsa):
    return read(fsa)[0]


# ---------------------------------------------------------------- graph facts
def accessible(ref):
    if ref.n == 0:
        return set()
    nxt = {}
    for (s, d, l, w) in ref.arcs:
        nxt.setdefault(s, []).append(d)
    seen, st = {0}, [0]
    while st:
        for d in nxt.get(st.pop(), ()):
            if d not in seen:
                seen.add(d)
                st.append(d)
    return seen


def coaccessible(ref):
    if ref.n == 0:
        return set()
    prv = {}
    for (s, d, l, w) in ref.arcs:
        prv.setdefault(d, []).append(s)
    f = ref.n - 1
    seen, st = {f}, [f]
    while st:
        for d in prv.get(st.pop(), ()):
            if d not in seen:
                seen.add(d)
                st.append(d)
    return seen


def useful(ref):
    return accessible(ref) & coaccessible(ref)


def has_cycle(ref, states=None, ignore_self=False, arcs_filter=None):
    nxt = {}
    for a in ref.arcs:
        (s, d, l, w) = a
        if arcs_filter and not arcs_filter(a):
            continue
        if ignore_self and s == d:
            continue
        if states is not None and (s not in states or d not in states):
            continue
        nxt.setdefault(s, []).append(d)
    color = {}
    for root in list(nxt):
        if color.get(root):
            continue
        stack = [(root, iter(nxt.get(root, ())))]
        color[root] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                c = color.get(v, 0)
                if c == 1:
                    return True
                if c == 0:
                    color[v] = 1
                    stack.append((v, iter(nxt.get(v, ()))))
                    break
            else:
                color[u] = 2
                stack.pop()
    return False


def eps_cyclic(ref):
    return has_cycle(ref, arcs_filter=lambda a: a[2] == 0)


# -------------------------------------------------------------------- weights
def logadd(a, b):
    if a == NEG:
        return b
    if b == NEG:
        return a
    if a < b:
        a, b = b, a
    return a + math.log1p(math.exp(b - a))


def tmax(a, b):
    return a if a >= b else b


def all_paths(ref, limit=200000, max_arcs=None):
    """every path start -> final as a tuple of arc indexes; cycles are cut at
    max_arcs arcs."""
    if ref.n == 0:
        return []
    out = []
    by = {}
    for i, a in enumerate(ref.arcs):
        by.setdefault(a[0], []).append(i)
    f = ref.n - 1
    ok = coaccessible(ref)
    stack = [(0, ())]
    while stack:
        s, p = stack.pop()
        if s == f and (p or ref.n == 1):
            if ref.n > 1 or True:
                out.append(p)
            if len(out) > limit:
                raise RuntimeError('too many paths')
            continue
        if max_arcs is not None and len(p) >= max_arcs:
            continue
        for i in by.get(s, ()):
            d = ref.arcs[i][1]
            if d in ok:
                stack.append((d, p + (i,)))
    out.sort()
    return out


def path_labels(ref, p):
    return tuple(ref.arcs[i][2] for i in p if ref.arcs[i][2] not in (0, -1))


def path_score(ref, p):
    return sum(ref.arcs[i][3] for i in p)


def weights(ref, L, semiring='tropical', eps=0, iters=None):
    """dict string -> weight for every string of length <= L accepted by ref.

    Handles cycles; epsilon arcs (label == eps; pass eps=None to treat 0 as an
    ordinary symbol) are closed by relaxation: exact in the tropical semiring
    when epsilon cycles have no positive weight, in the log semiring when there
    are no epsilon cycles."""
    plus = tmax if semiring == 'tropical' else logadd
    if ref.n == 0:
        return {}
    f = ref.n - 1
    eps_arcs, sym, fin = {}, {}, []
    for (s, d, l, w) in ref.arcs:
        if l == -1:
            fin.append((s, d, w))
        elif eps is not None and l == eps:
            eps_arcs.setdefault(s, []).append((d, w))
        else:
            sym.setdefault(l, []).append((s, d, w))

    def close(v):
        # v: dict state -> weight
        if not eps_arcs:
            return v
        if semiring == 'tropical':
            res = dict(v)
            for _ in range(ref.n + 1):
                ch = False
                for s in list(res):
                    for (d, w) in eps_arcs.get(s, ()):
                        x = res[s] + w
                        if x > res.get(d, NEG):
                            res[d] = x
                            ch = True
                if not ch:
                    break
            return res
        res = dict(v)
        cur = dict(v)
        for _ in range(ref.n + 1):
            nx = {}
            for s, x in cur.items():
                for (d, w) in eps_arcs.get(s, ()):
                    nx[d] = logadd(nx.get(d, NEG), x + w)
            if not nx:
                break
            for d, x in nx.items():
                res[d] = logadd(res.get(d, NEG), x)
            cur = nx
        return res

    out = {}

    def rec(string, v):
        tot = NEG
        for (s, d, w) in fin:
            if s in v and d == f:
                tot = plus(tot, v[s] + w)
        if tot != NEG:
            out[string] = tot
        if len(string) == L:
            return
        for l, al in sym.items():
            nv = {}
            for (s, d, w) in al:
                if s in v:
                    nv[d] = plus(nv.get(d, NEG), v[s] + w)
            if nv:
                rec(string + (l,), close(nv))

    rec((), close({0: 0.0}))
    return out


def close_to(a, b, tol=1e-4):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_weights(w1, w2, tol=1e-4):
    if set(w1) != set(w2):
        return False
    return all(close_to(w1[k], w2[k], tol) for k in w1)


def diff_weights(w1, w2, tol=1e-4):
    out = []
    for k in sorted(set(w1) | set(w2)):
        a, b = w1.get(k), w2.get(k)
        if a is None or b is None or not close_to(a, b, tol):
            out.append((k, a, b))
    return out[:6]


# ----------------------------------------------------------------- properties
def validate(ref):
    """None when ref is a well-formed automaton, else a reason."""
    if ref.n == 0:
        return None if not ref.arcs else 'arcs without states'
    if ref.n == 1:
        return 'only one state'
    f = ref.n - 1
    for (s, d, l, w) in ref.arcs:
        if not (0 <= s < ref.n and 0 <= d < ref.n):
            return f'arc to state {d} of {ref.n}'
        if s == f:
            return 'arc leaving the final state'
        if (l == -1) != (d == f):
            return f'label {l} on an arc to state {d} (final {f})'
        if l < -1:
            return f'label {l}'
    return None


# ------------------------------------------------------------------ universes
SCORES = [0.5, -1.0, 2.0, -0.25, 1.5, -3.0, 0.75, -2.5, 1.25, -0.5, 3.0, -1.75,
          0.25, -4.0, 2.25, -0.75, 1.0, -2.0, 3.5, -1.25]


def slots(n, labels, final=True, acyclic=False, selfloops=True):
    """arc slots of the n-state universe: every (src,dst,label) that is legal"""
    out = []
    for s in range(n - 1):
        for d in range(n - 1):
            if acyclic and d < s:
                continue
            if (acyclic or not selfloops) and d == s:
                continue
            for l in labels:
                out.append((s, d, l))
        if final:
            out.append((s, n - 1, -1))
    return out


def from_bits(n, sl, bits, score_fn=None, rev=False):
    arcs = []
    for i, (s, d, l) in enumerate(sl):
        if bits >> i & 1:
            w = SCORES[i % len(SCORES)] if score_fn is None else score_fn(
                i, s, d, l)
            arcs.append((s, d, l, w))
    if rev:
        arcs.reverse()
    return Ref(n, arcs)


def compositions(total, parts):
    for c in itertools.combinations_with_replacement(range(parts), total):
        yield c
