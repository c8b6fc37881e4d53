"""A09: CTC graphs and CTC loss equal the alignment definition."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2


# ------------------------------------------------------------------ reference
def alignments(T, y, modified):
    """all (frame labels, frames on which the tokens start): every token
    covers one block of frames, blanks may stand between blocks; a standard
    topology needs a blank between two blocks of the same token"""
    out = []

    def rec(t, k, prev, x, e):
        # prev: token of the block that ended at t, None after a blank
        if t == T:
            if k == len(y):
                out.append((x, e))
            return
        rec(t + 1, k, None, x + (0,), e)
        if k < len(y) and (modified or prev != y[k]):
            for n in range(1, T - t + 1):
                rec(t + n, k + 1, y[k], x + (y[k],) * n, e + (t,))
    rec(0, 0, None, (), ())
    return out


def seqs_upto(L, V):
    for n in range(L + 1):
        yield from (list(s) for s in
                    itertools.product(range(1, V + 1), repeat=n))


def counts(ref, aux, T):
    """{(frame labels, outputs): number of paths} of the paths that consume T
    frames (0 is the blank here, not an epsilon)"""
    by = {}
    for i, a in enumerate(ref.arcs):
        by.setdefault(a[0], []).append(i)
    cur = {(0, (), ()): 1}
    for t in range(T):
        nx = {}
        for (s, x, o), c in cur.items():
            for i in by.get(s, ()):
                _, d, l, w = ref.arcs[i]
                if l == -1:
                    continue
                k = (d, x + (l,), o + ((aux[i],) if aux[i] else ()))
                nx[k] = nx.get(k, 0) + c
        cur = nx
    out = {}
    for (s, x, o), c in cur.items():
        for i in by.get(s, ()):
            if ref.arcs[i][2] == -1:
                expect(aux[i] == -1, 'output label', aux[i], 'on a final arc')
                out[x, o] = out.get((x, o), 0) + c
    return out


def want_counts(T, ys, modified):
    w = {}
    for y in ys:
        for x, e in alignments(T, y, modified):
            w[x, tuple(y)] = w.get((x, tuple(y)), 0) + 1
    return w


def same_counts(got, want, *ctx):
    if got != want:
        d = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want))
             if got.get(k) != want.get(k)]
        expect(False, 'wrong alignments (labels, outputs), paths, expected:',
               d[:4], *ctx)


def no_scores(r, *ctx):
    expect(all(a[3] == 0 for a in r.arcs), 'arc scores are not zero', *ctx)


# --------------------------------------------------------------------- graphs
def topo_cases(tier):
    for mod in (0, 1):
        for m, T in ((0, 4), (1, 6), (2, 5), (3, 4)):
            if tier != 'quick':
                T += 1
            for t in range(T + 1):
                yield [m, mod, t]
        for m in range(4, 12 if tier == 'quick' else 34):
            yield [m, mod, 2]
            if m <= (6 if tier == 'quick' else 9):
                yield [m, mod, 3]


def check_topo(case):
    m, mod, T = case
    f = k2.ctc_topo(m, bool(mod))
    step()
    check_validity(f, 'ctc_topo')
    r, aux = read1(f), f.aux_labels.tolist()
    no_scores(r, case)
    same_counts(counts(r, aux, T), want_counts(T, seqs_upto(T, m), mod), case)
    g = k2.ctc_topo(m, bool(mod), device='cpu')
    expect(read1(g).key() == r.key(), 'device changes the topology')
    return [r.n, len(r.arcs), T]


def graph_cases(tier):
    T = 6 if tier == 'quick' else 8
    for y in seqs_upto(3 if tier == 'quick' else 4, 3):
        for mod in (0, 1):
            for t in range(T + 1):
                yield [y, mod, t]


def check_graph(case):
    y, mod, T = case
    f = k2.ctc_graph([y], bool(mod))
    step()
    check_validity(f, 'ctc_graph')
    r, aux = read1(f), f.aux_labels.tolist()
    no_scores(r, case)
    same_counts(counts(r, aux, T), want_counts(T, [y], mod), case)
    if T == 3 and y:
        # the documented construction by composition
        t = k2.ctc_topo(max(y), bool(mod))
        c1 = k2.compose(t, k2.linear_fsa(y))
        c2 = k2.compose(t, k2.add_epsilon_self_loops(k2.linear_fsa(y)),
                        treat_epsilons_specially=False)
        for c in (c1, c2):
            same_counts(counts(read1(c), c.aux_labels.tolist(), T),
                        want_counts(T, [y], mod), 'composition', case)
    return [r.n, len(r.arcs), T]


SHAPES = [[], [1], [2, 2], [1, 2, 1], [3, 3, 3]]


def batch_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for c in itertools.product(range(len(SHAPES)), repeat=n):
            yield list(c)
    yield [1, 2, 3, 4, 0] * 13
    yield [0] * 33


def check_batch(case):
    ys = [SHAPES[i] for i in case]
    sig = []
    for mod in (False, True):
        ref = [k2.ctc_graph([y], mod) for y in ys]
        for src in (ys, k2.RaggedTensor(ys, dtype=torch.int32)):
            f = k2.ctc_graph(src, mod)
            step()
            expect(f.shape[0] == len(ys), 'number of graphs')
            rs = read(f)
            ax = split_attr(f, f.aux_labels.tolist())
            for i, g in enumerate(ref):
                expect(rs[i].key() == read1(g).key() and
                       ax[i] == g.aux_labels.tolist(),
                       'graph', i, 'depends on the batch', ys, rs[i], g)
            sig.append([r.n for r in rs])
    return sig


def triv_cases(tier):
    for m in range(0, 40):
        yield m


def check_triv(m):
    f = k2.trivial_graph(m)
    step()
    check_validity(f, 'trivial_graph')
    r = read1(f)
    no_scores(r)
    expect(r.n == 2, 'number of states', r)
    expect(sorted(a[:3] for a in r.arcs) ==
           [(0, 0, l) for l in range(1, m + 1)] + [(0, 1, -1)],
           'arcs of the trivial graph', r)
    expect(f.aux_labels.tolist() == [a[2] for a in r.arcs], 'output labels')
    return len(r.arcs)


# ----------------------------------------------------------------------- loss
C = 3


def lp(pat, i, t, c):
    if pat == 0:
        return -0.25 * ((3 * t + 5 * c + 2 * i + t * c) % 7) - 0.125
    if pat == 1:    # impossible symbols
        return NEG if (t + i + 2 * c) % 4 == 0 else -0.5 * ((t * c + i) % 3)
    if pat == 2:    # flat
        return -1.0
    return 4.0 - 1.5 * ((t + 2 * c + i) % 5)


def matrix(pat, n, T):
    return [[[lp(pat, i, t, c) for c in range(C)] for t in range(T)]
            for i in range(n)]


def lse(v):
    m = max(v, default=NEG)
    if m == NEG:
        return NEG
    return m + math.log(sum(math.exp(x - m) for x in v))


def loss_ref(rows, y, mod, pen, gscore=None):
    """-> (loss, {(t, c): expected count})"""
    T = len(rows)
    return loss_of([(sum(rows[t][c] for t, c in enumerate(x))
                     - pen * sum(t - (T >> 1) for t in e), x)
                    for x, e in alignments(T, y, mod)])


def loss_of(sc):
    tot = lse([s for s, x in sc])
    occ = {}
    if tot != NEG:
        for s, x in sc:
            if s != NEG:
                p = math.exp(s - tot)
                for t, c in enumerate(x):
                    occ[t, c] = occ.get((t, c), 0.) + p
    return -tot, occ


def compare(loss, m, want, segs, red, tl, ctx, grad=True):
    """loss: result; want: [(loss, occ)] per segment"""
    ls = [w[0] for w in want]
    if red == 'none':
        for a, b in zip(loss.tolist(), ls):
            expect(close_to(a, b), 'loss', a, 'expected', b, *ctx)
        expect(len(loss) == len(ls), 'number of losses', *ctx)
        fin = [i for i, b in enumerate(ls) if not math.isinf(b)]
        tot = sum(loss[i] * (1.0 + i) for i in fin) if fin else None
        co = [1.0 + i for i in range(len(ls))]
    else:
        co = [1.0] * len(ls)
        if red == 'mean':
            co = [1.0 / (t * len(ls)) for t in tl]
        w = sum(c * l for c, l in zip(co, ls))
        expect(loss.dim() == 0, 'a reduced loss is a scalar', *ctx)
        expect(close_to(loss.item(), w), red, 'loss', loss.item(), 'expected',
               w, *ctx)
        tot = loss
        fin = range(len(ls))
        if any(math.isinf(b) for b in ls):
            return
    if tot is None or not grad:
        return
    tot.backward()
    g = [[[0.0] * C for _ in r] for r in m.tolist()]
    for k in fin:
        i, b, d = segs[k]
        for (t, c), p in want[k][1].items():
            g[i][b + t][c] -= co[k] * p
    got = m.grad.tolist()
    for i, gi in enumerate(g):
        for t, gt in enumerate(gi):
            for c, x in enumerate(gt):
                expect(close_to(got[i][t][c], x), 'gradient at', (i, t, c),
                       got[i][t][c], 'expected', x, *ctx)


def loss_cases(tier):
    L = 3 if tier == 'quick' else 4
    for T in range(1, 5 if tier == 'quick' else 7):
        for mod in (0, 1):
            for y in seqs_upto(L, 2):
                yield [T, mod, y]


def check_loss(case):
    T, mod, y = case
    sig = []
    for pat in range(4):
        rows = matrix(pat, 1, T)
        for pen in (0.0, 0.5, 2.0):
            want = [loss_ref(rows[0], y, mod, pen)]
            for dbl in (True, False):
                for red in ('none', 'sum', 'mean'):
                    m = torch.tensor(rows, requires_grad=True)
                    f = k2.ctc_graph([y], bool(mod))
                    tl = [max(1, len(y))]
                    a = (f, k2.DenseFsaVec(m, torch.tensor(
                        [[0, 0, T]], dtype=torch.int32)), 1e5, pen, red, dbl)
                    b = k2.ctc_loss(*a, target_lengths=torch.tensor(tl))
                    step()
                    compare(b, m, want, [[0, 0, T]], red, tl,
                            (case, pat, pen, red, dbl))
                    o = k2.CtcLoss(1e5, red, dbl)(
                        f, a[1], delay_penalty=pen,
                        target_lengths=torch.tensor(tl))
                    expect(torch.equal(o, b), 'CtcLoss and ctc_loss differ')
            sig.append(round(want[0][0], 3))
    return sig


YS = [[], [1], [2], [1, 1], [1, 2], [2, 2, 1]]


def layouts(tier):
    """supervision layouts of a (2, 4) batch of frames"""
    segs = [[i, b, d] for i in range(2) for b in range(4)
            for d in range(1, 5 - b)]
    for k in (2, 3):
        for c in itertools.permutations(range(len(segs)), k):
            if k == 3 and (tier == 'quick' and sum(c) % 5):
                continue
            c = [segs[x] for x in c]
            # required by intersect_dense
            if all(a[2] >= b[2] for a, b in zip(c, c[1:])):
                yield c


def lbatch_cases(tier):
    for i, segs in enumerate(layouts(tier)):
        yield [segs, i]


def check_lbatch(case):
    segs, i = case
    n = len(segs)
    sig = []
    for j in range(2):
        mod = (i + j) % 2
        ys = [YS[(i * 7 + j * 3 + 5 * k * (1 + i % 3)) % len(YS)]
              for k in range(n)]
        pat = (i // 2 + j) % 4
        pen = [0.0, 0.75][(i // 3 + j) % 2]
        red = ['none', 'sum', 'mean'][(i + 2 * j) % 3]
        rows = matrix(pat, 2, 4)
        m = torch.tensor(rows, requires_grad=True)
        want = [loss_ref(rows[s][b:b + d], y, mod, pen)
                for (s, b, d), y in zip(segs, ys)]
        tl = [1 + (k + i) % 3 for k in range(n)]
        l = k2.ctc_loss(k2.ctc_graph(ys, bool(mod)),
                        k2.DenseFsaVec(m, torch.tensor(segs,
                                                       dtype=torch.int32)),
                        1e5, pen, red, (i + j) % 4 < 2, torch.tensor(tl))
        step()
        compare(l, m, want, segs, red, tl, (segs, ys, mod, pat, pen, red))
        sig.append([round(w[0], 3) for w in want])
    return sig


# --------------------------------------------------- general decoding graphs
GSL = [(s, d, l) for s in range(2) for d in range(s + 1, 3) for l in (1, 2)] + \
    [(2, 3, -1), (1, 3, -1)]


def gen_cases(tier):
    n = 1 << len(GSL)
    for b, e in chunks(n, 8 if tier == 'quick' else 4):
        yield [b, e]


def check_gen(case):
    """multi-pronunciation acceptors composed with a topology: one alignment
    per pair of a path and an alignment of its labels"""
    sig = []
    for bits in range(*case):
        r = from_bits(4, GSL, bits, neg_score)
        paths = [(path_labels(r, p), path_score(r, p)) for p in all_paths(r)]
        mods = (0, 1)
        for mod in mods:
            topo = k2.ctc_topo(2, bool(mod))
            rep = bits % 3
            if rep == 1:
                topo._is_repeat_token_ = topo.labels != topo.aux_labels
            if bits % 2:
                g = k2.compose(topo, k2.add_epsilon_self_loops(k2.arc_sort(
                    build(r))), treat_epsilons_specially=False)
            else:
                g = k2.compose(topo, k2.arc_sort(build(r)))
            if g.num_arcs == 0:
                expect(not paths, 'empty graph')
                continue
            gv = k2.create_fsa_vec([g])
            for pen, pat, T in ((0.0, bits % 4, 3), (0.5, (bits + 1) % 4, 4)):
                rows = matrix(pat, 1, T)
                sc = []
                for y, w in paths:
                    for x, e in alignments(T, y, mod):
                        sc.append((w + sum(rows[0][t][c]
                                           for t, c in enumerate(x))
                                   - pen * sum(t - (T >> 1) for t in e), x))
                want = [loss_of(sc)]
                m = torch.tensor(rows, requires_grad=True)
                l = k2.ctc_loss(gv, k2.DenseFsaVec(m, torch.tensor(
                    [[0, 0, T]], dtype=torch.int32)), 1e5, pen, 'none')
                step()
                compare(l, m, want, [[0, 0, T]], 'none', None,
                        (bits, mod, pen, pat, T, r))
                sig.append(round(want[0][0], 3))
    return sig


# -------------------------------------------------------------- output beam
def beam_cases(tier):
    for T in range(1, 5):
        for y in ([1], [1, 2], [1, 1], []):
            for mod in (0, 1):
                yield [T, mod, y]


def check_beam(case):
    """with an output beam the loss lies between the sum over the alignments
    within the beam of the best one and the sum over all alignments"""
    T, mod, y = case
    sig = []
    for pat in range(4):
        rows = matrix(pat, 1, T)[0]
        al = [sum(rows[t][c] for t, c in enumerate(x))
              for x, e in alignments(T, y, mod)]
        best = max(al, default=NEG)
        if best == NEG:
            continue
        for beam in (0.1, 0.6, 1.1, 3.1, 7.3):
            hi = -lse([s for s in al if s >= best - beam])
            lo = -lse(al)
            l = k2.ctc_loss(k2.ctc_graph([y], bool(mod)), k2.DenseFsaVec(
                torch.tensor([rows]), torch.tensor([[0, 0, T]],
                                                   dtype=torch.int32)),
                beam, reduction='none').item()
            step()
            expect(lo - 1e-4 <= l <= hi + 1e-4, 'loss', l, 'not in', (lo, hi),
                   case, beam)
            sig.append(round(l, 3))
    return sig


FAMILIES = [
    Family('topologies', topo_cases, check_topo,
           'ctc_topo for every vocabulary size up to the bound, standard and '
           'modified: the multiset of (frame labels, outputs) of all paths '
           'with exactly T labels, for every T up to the bound, is the set of '
           'alignments of all label sequences'),
    Family('graphs', graph_cases, check_graph,
           'ctc_graph of every label sequence up to the length bound, every '
           'number of frames up to the bound; also the documented '
           'construction by composition'),
    Family('graph_batches', batch_cases, check_batch,
           'every batch of 1..3(4) of 5 sequences (empty, repeated symbols), '
           'as lists and as ragged tensors'),
    Family('trivial', triv_cases, check_triv,
           'trivial_graph for 0..39 symbols'),
    Family('losses', loss_cases, check_loss,
           'every label sequence over 2 symbols up to the length bound x '
           'number of frames x 4 score patterns (with impossible symbols) x '
           '3 delay penalties x precisions x reductions, values and gradients '
           'of every score'),
    Family('loss_batches', lbatch_cases, check_lbatch,
           'all ordered pairs (and a fixed part of all triples) of segments '
           'of a (2,4) frame matrix in order of decreasing duration, overlapping '
           'or not; '
           'targets, penalties and reductions rotate'),
    Family('general_graphs', gen_cases, check_gen,
           'every acyclic acceptor with 4 states over 2 labels composed with '
           'a topology, with and without the repeat-token attribute'),
    Family('output_beam', beam_cases, check_beam,
           'grid of beams: the loss lies between the sum within the beam and '
           'the complete sum'),
]
ASSUMPTIONS = [
    'CPU only',
    'gradients are compared for utterances that have an alignment; in a '
    'reduced loss only when all have one',
    'delay penalties are positive (others are ignored by the code)',
]
