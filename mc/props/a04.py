"""A04: arc attributes follow their arcs through every operation.

Provenance is not taken from k2's arc maps: before every operation the scores
of the inputs are replaced by distinct powers of two, so the score of each
resulting arc spells out exactly which input arcs it was derived from.
"""
import itertools

from mc.core import Family, expect, step, Violation
from mc.lang import *  # noqa
import k2

MAXBITS = 23
FILL = {'ib': -7, 'fb': 0.5, 'bi': -3}


# ------------------------------------------------------------------- reading
def attr_list(v):
    return v.tolist()


def snapshot(f):
    t, n = {}, {}
    for name, v in f.named_tensor_attr(include_scores=False):
        kind = 'ragged' if isinstance(v, k2.RaggedTensor) else str(v.dtype)
        if isinstance(v, torch.Tensor) and v.dim() > 1:
            kind += f'x{v.dim()}'
        t[name] = (kind, attr_list(v))
    for name, v in f.named_non_tensor_attr():
        if name not in ('labels_version',):
            n[name] = v
    return t, n


def filler(n, name):
    return n.get(name + '_filler', 0)


def mark(f, first=0, scale=1.0):
    m = f.num_arcs
    f.scores = torch.tensor([-float(1 << (first + i)) * scale
                             for i in range(m)], dtype=torch.float32)


def decode(score, scale=1.0):
    x = -score / scale
    k = int(round(x))
    expect(abs(x - k) < 1e-3 and k >= 0, 'score', score,
           'is not a sum of input scores')
    return [i for i in range(MAXBITS + 1) if k >> i & 1]


def order(bits, arcs):
    """arcs of an acyclic automaton in path order"""
    todo = list(bits)
    if len(todo) < 2:
        return todo
    out = []
    while todo:
        dests = {arcs[i][1] for i in todo}
        nxt = [i for i in todo if arcs[i][0] not in dests]
        if len(nxt) != 1:
            return None
        out.append(nxt[0])
        todo.remove(nxt[0])
    return out


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and \
            len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or abs(a - b) < 1e-5 * max(1, abs(a))


def norm_aux(name, v, label):
    """output labels: -1 stands on final arcs (0 elsewhere)"""
    if name == 'aux_labels' and isinstance(v, int):
        if label == -1 and v == 0:
            return -1
        if label != -1 and v == -1:
            return 0
    return v


def blank(kind, fill, sample=None):
    if kind == 'ragged':
        return []
    if 'x' in kind:
        return 'blank2'
    return float(fill) if 'float' in kind else fill


def check_names(what, t, n, wt, wn):
    expect(set(t) == set(wt), what, ': tensor attributes', sorted(t),
           'expected', sorted(wt))
    expect(n == wn, what, ': other attributes', n, 'expected', wn)


def check_tensor(what, out, t0, n0, srcs, kinds=True):
    """srcs: per output arc the list of source arcs (0 or 1)."""
    t, n = snapshot(out)
    check_names(what, t, n, t0, n0)
    labels = out.labels.tolist()
    for name, (kind, vals) in t0.items():
        expect(t[name][0] == kind, what, ': attribute', name, 'became',
               t[name][0], 'was', kind)
        got = t[name][1]
        expect(len(got) == len(srcs), what, name, 'has', len(got), 'entries',
               len(srcs))
        for j, s in enumerate(srcs):
            expect(len(s) <= 1, what, ': arc from several arcs', s)
            if s:
                w = vals[s[0]]
            elif 'x' in kind:
                w = [0] * len(vals[0]) if vals else got[j]
            else:
                w = blank(kind, filler(n0, name))
            expect(same(norm_aux(name, got[j], labels[j]),
                        norm_aux(name, w, labels[j])), what, ': attribute',
                   name, 'of arc', j, 'is', got[j], 'expected', w, 'from',
                   'arc' if s else 'nothing', s, 'all:', got, vals)


def check_ragged(what, out, t0, n0, srcs, in_labels, in_arcs):
    t, n = snapshot(out)
    check_names(what, t, n, t0, n0)
    for name, (kind, vals) in t0.items():
        got = t[name][1]
        fill = filler(n0, name)
        wkind = 'ragged' if 'int' in kind else kind
        expect(t[name][0] == wkind, what, ': attribute', name, 'became',
               t[name][0], 'expected', wkind)
        expect(len(got) == len(srcs), what, name, 'entries')
        for j, s in enumerate(srcs):
            if 'float' in kind:
                w = sum(vals[i] for i in s)
                if not s and got[j] == fill:
                    w = got[j]
            elif kind == 'ragged':
                w = [x for i in s for x in vals[i]
                     if not (name == 'aux_labels' and x == 0)]
            else:
                w = [vals[i] for i in s if vals[i] != fill and
                     not (fill != -1 and vals[i] == -1 and
                          in_labels[i] == -1)]
            expect(same(got[j], w), what, ': attribute', name, 'of arc', j,
                   'is', got[j], 'expected', w, 'from arcs', s, vals)


# -------------------------------------------------------------------- leaves
LEAF = {
    'chain': Ref(4, [(0, 1, 1, 0), (1, 2, 0, 0), (2, 3, -1, 0)]),
    'diamond': Ref(4, [(0, 1, 1, 0), (0, 2, 0, 0), (1, 2, 0, 0), (1, 2, 2, 0),
                       (2, 3, -1, 0), (0, 3, -1, 0)]),
    'messy': Ref(6, [(0, 2, 2, 0), (0, 1, 1, 0), (1, 2, 0, 0), (1, 4, 1, 0),
                     (2, 5, -1, 0), (3, 2, 1, 0)]),
    'two': Ref(2, [(0, 1, -1, 0)]),
    'none': Ref(0, []),
    'arcless': Ref(3, []),
    'nondet': Ref(5, [(0, 1, 1, 0), (0, 2, 1, 0), (1, 3, 2, 0), (2, 3, 2, 0),
                      (2, 3, 0, 0), (3, 4, -1, 0), (1, 4, -1, 0)]),
}
VECS = [['chain'], ['two', 'none', 'diamond'], ['none', 'chain', 'two'],
        ['diamond', 'nondet'], ['arcless', 'messy', 'two'],
        ['none', 'arcless', 'none'], ['nondet', 'none', 'chain', 'none']]
SINGLES = ['chain', 'diamond', 'messy', 'two', 'none', 'arcless', 'nondet']
RLISTS = [[5], [], [6, 7], [0], [8, -1, 9], [], [4, 4]]


def attach(f, which, off=0):
    """which: letters of the attribute set"""
    m = f.num_arcs
    lab = f.labels.tolist()
    ids = [i + off for i in range(m)]
    if 'i' in which:
        f.ia = torch.tensor([-1 if lab[k] == -1 and i % 2 else (i * 3) % 7
                             for k, i in enumerate(ids)], dtype=torch.int32)
    if 'j' in which:
        f.ib = torch.tensor([-7 if i % 3 == 1 else
                             (-1 if lab[k] == -1 else i % 4)
                             for k, i in enumerate(ids)], dtype=torch.int32)
        f.ib_filler = -7
    if 'f' in which:
        f.fa = torch.tensor([0.25 * i + 0.125 for i in ids])
    if 'g' in which:
        f.fb = torch.tensor([0.5 * i - 1.0 for i in ids])
        f.fb_filler = 0.5
    if 'r' in which:
        rows = [RLISTS[i % len(RLISTS)] for i in ids]
        f.rg = k2.RaggedTensor(rows, dtype=torch.int32) if rows else \
            k2.RaggedTensor(k2.ragged.create_ragged_shape2(
                row_splits=torch.zeros(1, dtype=torch.int32)),
                torch.zeros(0, dtype=torch.int32))
    if 'd' in which:
        f.da = torch.tensor([1.0 / 3 + i for i in ids], dtype=torch.float64)
        f.da_filler = 2
    if 'm' in which:
        f.ma = torch.tensor([[i, i + 0.5] for i in ids],
                            dtype=torch.float32).reshape(m, 2)
        f.mi = torch.tensor([[i, -i, 7] for i in ids],
                            dtype=torch.int32).reshape(m, 3)
    if 'l' in which:
        f.la = torch.tensor([i * 5 - 3 for i in ids], dtype=torch.int64)
    if 'x' in which:
        f.aux_labels = torch.tensor(
            [-1 if lab[k] == -1 else (i * 5) % 4 for k, i in enumerate(ids)],
            dtype=torch.int32)
    if 'n' in which:
        f.nt = 'hello'
        f.obj = (1, 2)
    return f


def leaf(spec, which):
    if isinstance(spec, str):
        return attach(build(LEAF[spec]), which)
    return attach(build_vec([LEAF[x] for x in spec]), which)


# ------------------------------------------------------------------ programs
def is_vec(f):
    return len(f.shape) == 3


def acyclic(f):
    return not any(has_cycle(r) for r in read(f))


def flat_arcs(f):
    """all arcs with batch-global state ids"""
    out, base = [], 0
    for r in read(f):
        out += [(s + base, d + base, l, w) for (s, d, l, w) in r.arcs]
        base += r.n
    return out


def op_getitem(f):
    return [(f[i], None) for i in range(f.shape[0])]


def refs_of(f):
    return read(f)


def connected(f):
    return all(len(useful(r)) == r.n for r in read(f))


def epsfree(f):
    return 0 not in f.labels.tolist()


def topsorted(f):
    return all(s < d for (s, d, l, w) in flat_arcs(f))


def allfsa(f, k):
    return all(r.n >= k for r in read(f))


T, R = 'tensor', 'ragged'
#  name -> (rule, precondition, function)
UNARY = {
    # (documented by its check: the start state has no entering arc)
    'top_sort': (T, lambda f: acyclic(f) and all(
        a[1] != 0 for r in read(f) for a in r.arcs), k2.top_sort),
    'connect': (T, None, k2.connect),
    'arc_sort': (T, None, k2.arc_sort),
    'add_loops': (T, None, k2.add_epsilon_self_loops),
    'rm_loops': (T, None, k2.remove_epsilon_self_loops),
    'reverse': (T, None, k2.reverse),
    'best': (T, lambda f: is_vec(f) and acyclic(f) and topsorted(f),
             lambda f: k2.shortest_path(f, True)),
    'clone': (T, None, lambda f: f.clone()),
    'detach': (T, None, lambda f: f.detach()),
    'to': (T, None, lambda f: f.to('cpu')),
    # (the tensor form of a single automaton needs an arc to its final state)
    'dict': (T, lambda f: is_vec(f) or -1 in f.labels.tolist(), lambda f: k2.Fsa.from_dict(f.as_dict())),
    'getitem': (T, is_vec, lambda f: [f[i] for i in range(f.shape[0])]),
    'index': (T, is_vec, lambda f: k2.index_fsa(f, torch.tensor(
        [f.shape[0] - 1, 0], dtype=torch.int32))),
    'cat': (T, is_vec, lambda f: k2.cat([f, f])),
    'stack': (T, lambda f: not is_vec(f),
              lambda f: k2.create_fsa_vec([f, f])),
    'stack3': (T, lambda f: not is_vec(f),
               lambda f: k2.Fsa.from_fsas([f])),
    'union': (T, lambda f: is_vec(f) and allfsa(f, 2), k2.union),
    'closure': (T, lambda f: not is_vec(f), k2.closure),
    'prune': (T, lambda f: is_vec(f) and acyclic(f) and topsorted(f),
              lambda f: k2.prune_on_arc_post(f, 1e-6, True)),
    'rm_eps': (R, acyclic, k2.remove_epsilon),
    'rm_eps_loops': (R, acyclic, k2.remove_epsilon_and_add_self_loops),
    'rm_eps_iter': (R, acyclic, k2.fsa_algo.remove_epsilon_iterative_tropical),
    'det': (R, lambda f: acyclic(f) and connected(f) and
            not f.requires_grad, k2.determinize),
}


def pieces(name, f, o):
    """[(out, offset of the corresponding source arcs)]"""
    if isinstance(o, list):
        out, off = [], 0
        for x in o:
            out.append(x)
        return out
    return [o]


def no_change(name, labels, arcs):
    """inputs which the operation may return as they are"""
    if name == 'det':
        keys = [(s, l) for (s, d, l, w) in arcs]
        return len(set(keys)) == len(keys)
    return 0 not in labels


def turned_ragged(f):
    for name, v in f.named_tensor_attr(include_scores=False):
        if isinstance(v, torch.Tensor) and v.dtype == torch.int32:
            return False
    return True


def run_unary(name, f, what):
    """apply one unary operation to f (marked afresh) and check it; returns
    the resulting automata"""
    rule, pre, fn = UNARY[name]
    if f.num_arcs > MAXBITS or (pre is not None and not pre(f)):
        return None
    scale = 2.0**-22 if name == 'prune' else 1.0
    mark(f, 0, scale)
    t0, n0 = snapshot(f)
    arcs = flat_arcs(f)
    labels = f.labels.tolist()
    sc = f.scores.tolist()
    o = fn(f)
    step()
    t1, n1 = snapshot(f)
    expect(t1 == t0 and n1 == n0 and f.scores.tolist() == sc, what,
           'changed its input')
    outs = pieces(name, f, o)
    pos = 0
    for x in outs:
        srcs = []
        for s in x.scores.tolist():
            b = order(decode(s, scale), arcs)
            if b is None:
                return []        # not a path: covered by A02
            srcs.append(b)
        if rule == T or (no_change(name, labels, arcs) and
                         not turned_ragged(x)):
            check_tensor(what, x, t0, n0, srcs)
        else:
            check_ragged(what, x, t0, n0, srcs, labels, arcs)
        if name == 'getitem':
            expect(srcs == [[pos + j] for j in range(len(srcs))], what,
                   'arcs of entry', srcs)
            pos += len(srcs)
    return outs


def run_expand(f, what):
    if f.num_arcs > MAXBITS or not acyclic(f):
        return None
    rag = [name for name, v in f.named_tensor_attr(include_scores=False)
           if isinstance(v, k2.RaggedTensor)]
    if not rag:
        return None
    mark(f)
    t0, n0 = snapshot(f)
    arcs = flat_arcs(f)
    for name in rag:      # -1 may only end the list of a final arc
        for v, a in zip(t0[name][1], arcs):
            if -1 in (v[:-1] if a[2] == -1 else v):
                return None
    o = k2.expand_ragged_attributes(f)
    step()
    t, n = snapshot(o)
    check_names(what, t, n, t0, n0)
    srcs = [decode(s) for s in o.scores.tolist()]
    olab = o.labels.tolist()
    for name, (kind, vals) in t0.items():
        got = t[name][1]
        if kind != 'ragged':
            expect(t[name][0] == kind, what, name, 'kind')
            fill = filler(n0, name)
            for j, s in enumerate(srcs):
                expect(len(s) <= 1, what, s)
                w = vals[s[0]] if s else (
                    [0] * len(vals[0]) if 'x' in kind else fill)
                if name == 'aux_labels' and isinstance(w, int):
                    expect(norm_aux(name, got[j], olab[j]) ==
                           norm_aux(name, w, olab[j]), what, name, got, vals)
                else:
                    expect(same(got[j], w), what, name, 'of arc', j, got[j],
                           'expected', w)
        else:
            expect(t[name][0] == 'torch.int32', what, name, 'stays ragged')
    # ragged ones: every maximal chain spells the list of its source arc
    oarcs = flat_arcs(o)
    by = {}
    for j, a in enumerate(oarcs):
        by.setdefault(a[0], []).append(j)
    seen = set()
    for j, s in enumerate(srcs):
        if not s:
            continue
        seen.add(s[0])
        chain = [j]
        target = None
        while True:
            d = oarcs[chain[-1]][1]
            nx = by.get(d, [])
            if len(nx) == 1 and not srcs[nx[0]]:
                chain.append(nx[0])
            else:
                break
        for name in rag:
            w = [x for x in t0[name][1][s[0]] if x not in (0, -1)]
            g = [t[name][1][c] for c in chain]
            expect([x for x in g if x not in (0, -1)] == w, what,
                   ': list of arc', s[0], 'is', w, 'expanded to', g)
            for c in chain:
                expect((t[name][1][c] == -1) == (olab[c] == -1), what, name,
                       ': -1 must stand on final arcs only', g)
    expect(len(seen) == len(arcs), what, 'lost arcs')
    return [o]


# binary operations ---------------------------------------------------------
BREF = Ref(4, [(0, 0, 0, 0), (0, 1, 1, 0), (0, 1, 2, 0), (1, 1, 0, 0),
               (1, 2, 2, 0), (1, 3, -1, 0), (2, 3, -1, 0)])
RREF = Ref(4, [(0, 1, 1, 0), (0, 1, 2, 0), (1, 2, 3, 0), (2, 3, -1, 0),
               (1, 3, -1, 0)])


def other(ref, vec, taken, common):
    f = build_vec([ref]) if vec else build(ref)
    m = f.num_arcs
    bi = 'bi'
    while hasattr(taken, bi):
        bi += 'i'
    setattr(f, bi, torch.tensor([i * 2 - 3 for i in range(m)],
                                dtype=torch.int32))
    setattr(f, bi + '_filler', -3)
    f.bf = torch.tensor([1.5 * i for i in range(m)])
    if not hasattr(taken, 'brg'):
        f.brg = k2.RaggedTensor([RLISTS[(i + 2) % 7] for i in range(m)],
                                dtype=torch.int32)
    f.nt = 'other'
    f.bn = 'only b'
    if common:
        f.fa = torch.tensor([0.0625 * i - 4 for i in range(m)])
        f.fb = torch.tensor([0.75 * i + 3 for i in range(m)])
        f.fb_filler = 0.5
    return f


def check_binary(what, out, a, b, sa, sb, ta, na, tb, nb):
    t, n = snapshot(out)
    wn = dict(nb)
    wn.update(na)
    expect(n == wn, what, ': other attributes', n, 'expected', wn)
    expect(set(t) == set(ta) | set(tb), what, ': tensor attributes',
           sorted(t), sorted(ta), sorted(tb))
    lab = out.labels.tolist()
    for name in t:
        got = t[name][1]
        for j in range(len(sa)):
            val = []
            for tt, nn, s in ((ta, na, sa[j]), (tb, nb, sb[j])):
                if name not in tt:
                    continue
                kind, vals = tt[name]
                expect(t[name][0] == kind, what, name, 'became', t[name][0])
                expect(len(s) <= 1, what, 'several sources', s)
                val.append(vals[s[0]] if s else
                           ([0] * len(got[j]) if 'x' in kind else
                            blank(kind, filler(nn, name))))
            w = val[0] if len(val) == 1 else val[0] + val[1]
            expect(same(norm_aux(name, got[j], lab[j]),
                        norm_aux(name, w, lab[j])), what, ': attribute', name,
                   'of arc', j, 'is', got[j], 'expected', w, 'from', sa[j],
                   sb[j])


def run_binary(name, f, common, what):
    kind, _, bs = name.partition(':')
    vec = bs == 'v'
    if kind == 'replace':
        ref = RREF
    else:
        ref = BREF
    nb_ = len(ref.arcs)
    if f.num_arcs + nb_ > MAXBITS:
        return None
    if kind == 'intersect_device':
        if not is_vec(f):
            return None
        a = f
        b = other(ref, True, f, common)
        call = lambda: k2.intersect_device(  # noqa
            a, b, torch.zeros(f.shape[0], dtype=torch.int32))
    elif kind in ('intersect', 'intersect_eps'):
        if vec and not is_vec(f):
            return None
        if is_vec(f) and f.shape[0] != 1 and vec:
            pass
        a = k2.arc_sort(f)
        b = k2.arc_sort(other(ref, vec, f, common))
        call = lambda: k2.intersect(  # noqa
            a, b, treat_epsilons_specially=kind == 'intersect_eps')
    elif kind == 'replace_into':   # f is the index automaton
        if any(n in ('rg', 'ia', 'ib', 'aux_labels') and False for n in ()):
            return None
        a = other(RREF, True, f, common)
        b = f
        call = lambda: k2.replace_fsa(a, b, 1)  # noqa
    elif kind == 'replace':        # f is what is inserted
        if not is_vec(f) or not allfsa(f, 1):
            return None
        a = f
        b = other(RREF, vec, f, common)
        call = lambda: k2.replace_fsa(a, b, 2)  # noqa
    else:
        raise ValueError(name)
    if kind == 'intersect_device':
        # b_to_a_map maps each entry of b to an entry of a: swap roles
        a, b = other(ref, True, f, common), f
        call = lambda: k2.intersect_device(  # noqa
            a, b, torch.zeros(b.shape[0], dtype=torch.int32))
    mark(a, 0)
    mark(b, a.num_arcs)
    ta, na = snapshot(a)
    tb, nb = snapshot(b)
    na_ = a.num_arcs
    o = call()
    step()
    sa, sb = [], []
    for s in o.scores.tolist():
        d = decode(s)
        sa.append([i for i in d if i < na_])
        sb.append([i - na_ for i in d if i >= na_])
    check_binary(what, o, a, b, sa, sb, ta, na, tb, nb)
    return [o]


BINARY = ['intersect:s', 'intersect_eps:s', 'intersect:v', 'intersect_eps:v',
          'intersect_device', 'replace_into', 'replace:s', 'replace:v']
DENSE = ['dense', 'pruned', 'partial', 'pruned_shared']


def run_dense(name, f, what):
    if f.num_arcs > MAXBITS or not is_vec(f):
        return None
    if not epsfree(f) or not allfsa(f, 1):
        return None
    n = f.shape[0]
    if name == 'pruned_shared':
        if n != 1:
            return None
        segs = [[0, 0, 3], [1, 0, 2], [0, 1, 1]]
    else:
        segs = [[i % 2, 0, 3 - min(i, 2)] for i in range(n)]
    dense = k2.DenseFsaVec(torch.zeros(2, 3, 10),
                           torch.tensor(segs, dtype=torch.int32))
    mark(f)
    t0, n0 = snapshot(f)
    if name == 'dense':
        o = k2.intersect_dense(f, dense, 1e9, seqframe_idx_name='sf',
                               frame_idx_name='fr')
    else:
        o = k2.intersect_dense_pruned(f, dense, 1e9, 1e9, 1, 100000,
                                      allow_partial=name == 'partial',
                                      seqframe_idx_name='sf',
                                      frame_idx_name='fr')
    step()
    t0['sf'] = t0['fr'] = None
    srcs = [decode(s) for s in o.scores.tolist()]
    t, n = snapshot(o)
    # frame attributes: number of frames already consumed by the sequence
    sf, fr = t.pop('sf')[1], t.pop('fr')[1]
    del o.sf, o.fr, t0['sf'], t0['fr']
    base, pos = 0, 0
    for r, seg in zip(read(o), segs):
        depth = {0: 0}
        for (s, d, l, w) in sorted(r.arcs):
            depth[d] = depth[s] + 1
        for (s, d, l, w) in r.arcs:
            expect(fr[pos] == depth[s], what, ': frame index', fr[pos],
                   'of an arc at depth', depth[s], r)
            expect(sf[pos] == base + depth[s], what, ': seqframe', sf[pos],
                   'expected', base + depth[s])
            pos += 1
        base += seg[2] + 1
    check_tensor(what, o, t0, n0, srcs)
    return [o]


ALL_OPS = list(UNARY) + ['expand'] + BINARY + DENSE


def apply_op(op, f, which, what):
    common = 'f' in which and 'g' in which
    if op in UNARY:
        if ('d' in which or 'm' in which or 'l' in which) and \
                UNARY[op][0] == R:
            return None
        return run_unary(op, f, what)
    if op == 'expand':
        return run_expand(f, what)
    if op in BINARY:
        return run_binary(op, f, common, what)
    return run_dense(op, f, what)


def prog_cases(depth, which_sets, every=1):
    def gen(tier):
        k = 0
        for which in which_sets:
            for lf in SINGLES + VECS:
                for ops in itertools.product(ALL_OPS, repeat=depth - 1):
                    k += 1
                    if tier == 'quick' and k % every:
                        continue
                    yield [which, lf, list(ops)]
    return gen


def check_prog(case):
    """the last operation ranges over all operations"""
    which, lf, ops = case
    n = 0

    def rec(f, done, rest):
        nonlocal n
        if not rest:
            for op in ALL_OPS:
                g = f.clone()
                what = ' . '.join(done + [op])
                r = apply_op(op, g, which, what)
                n += r is not None
            return
        r = apply_op(rest[0], f.clone(), which, ' . '.join(done + [rest[0]]))
        if not r:
            return
        for x in r:
            rec(x, done + [rest[0]], rest[1:])
    rec(leaf(lf, which), [], ops)
    return n


# ------------------------------------------------- names that cannot be merged
def clash_cases(tier):
    for kind in ('int', 'ragged', 'int64'):
        for op in ('intersect', 'intersect_device', 'replace'):
            yield [kind, op]


def check_clash(case):
    kind, op = case
    a = build_vec([RREF])
    b = build_vec([BREF])
    for f in (a, b):
        m = f.num_arcs
        if kind == 'ragged':
            f.zz = k2.RaggedTensor([[i] for i in range(m)], dtype=torch.int32)
        else:
            f.zz = torch.arange(m, dtype=torch.int32 if kind == 'int'
                                else torch.int64)
    try:
        if op == 'intersect':
            k2.intersect(k2.arc_sort(a), k2.arc_sort(b))
        elif op == 'intersect_device':
            k2.intersect_device(a, b, torch.zeros(1, dtype=torch.int32))
        else:
            k2.replace_fsa(a, b, 1)
    except AttributeError:
        return 'refused'
    expect(False, 'same-named non-real attributes were merged silently', case)


# ------------------------------------------------------ histories on one object
def hist_cases(tier):
    acts = range(9)
    for n in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        for h in itertools.product(acts, repeat=n):
            yield list(h)


def check_hist(case):
    """set / rename / delete / convert attributes in any order"""
    f = build_vec([LEAF['chain'], LEAF['none'], LEAF['two']])
    m = f.num_arcs
    model = {}
    non = {}
    for k, act in enumerate(case):
        if act == 0:
            f.p = torch.tensor([k * 10 + i for i in range(m)],
                               dtype=torch.int32)
            model['p'] = [k * 10 + i for i in range(m)]
            non.pop('p', None)
        elif act == 1:
            f.q = torch.tensor([k + 0.5 * i for i in range(m)])
            model['q'] = [k + 0.5 * i for i in range(m)]
        elif act == 2 and 'p' in model:
            f.rename_tensor_attribute_('p', 'q')
            model['q'] = model.pop('p')
            for nm in list(non):
                if nm.startswith('q'):
                    del non[nm]
            for nm in list(non):
                if nm.startswith('p'):
                    non['q' + nm[1:]] = non.pop(nm)
        elif act == 3 and 'q' in model:
            del f.q
            del model['q']
        elif act == 4 and 'p' in model and not isinstance(
                model['p'][0] if model['p'] else 0, list):
            f.convert_attr_to_ragged_('p')
            model['p'] = [[] if x == 0 else [x] for x in model['p']]
        elif act == 5:
            f.p_filler = k + 1
            non['p_filler'] = k + 1
        elif act == 6:
            f.scores = f.scores - 1
        elif act == 7:
            f = f.clone()
        elif act == 8:
            f = k2.cat([k2.create_fsa_vec([f[i]]) for i in range(f.shape[0])])
        step()
        t, n = snapshot(f)
        n = {a: b for a, b in n.items()}
        expect({a: b[1] for a, b in t.items()} == model, 'after history',
               case[:k + 1], ': attributes are', t, 'expected', model)
        expect(n == non, 'after history', case[:k + 1], ': others', n, non)
    return sorted(model)


FAMILIES = [
    Family('ops1', prog_cases(1, ['ijfgrn', 'n', 'ijfg', 'r', 'dmln', 'xijn',
                                  'xr']), check_prog,
           'every operation on every leaf automaton (14 single/batched shapes '
           'with empty members) with 7 attribute sets'),
    Family('ops2', prog_cases(2, ['ijfgrn', 'xijn', 'dmln']), check_prog,
           'every sequence of two operations on every leaf, 3 attribute sets'),
    Family('ops3', prog_cases(3, ['ijfgrn'], every=2), check_prog,
           'every sequence of three operations (every 2nd prefix in quick)'),
    Family('clash', clash_cases, check_clash,
           'same-named attributes that cannot be merged are refused'),
    Family('histories', hist_cases, check_hist,
           'every history of up to 3 (4) attribute assignments, renames, '
           'deletions, conversions, clones and splits on one object'),
]
ASSUMPTIONS = [
    'attribute order along several source arcs is checked for acyclic inputs',
    'automata small enough for every arc to get its own score bit (23 arcs)',
    'same-named real attributes of two inputs have the same filler',
]
