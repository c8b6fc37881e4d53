"""A16: edit distance, n-best lists, minimum-error loss, posterior pruning."""
import itertools
import math

import k2
from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.props.a05 import UNI, member, Truth

I32 = torch.int32


def seqs(alpha, maxlen):
    out = []
    for k in range(maxlen + 1):
        out += [list(x) for x in itertools.product(alpha, repeat=k)]
    return out


# ------------------------------------------------------- Levenshtein graphs
COSTS = [-0.501, -0.5, -0.75, -1.0, -2.5, -0.25, -10.0]
OFFSET = '__ins_del_score_offset_internal_attr_'


def graph_cases(tier):
    S = seqs([1, 2, 7], 3 if tier == 'quick' else 4)
    for c in COSTS:
        for b, e in chunks(len(S), 16):
            yield [c, b, e]


def f32(x):
    return struct_f32(x)


def struct_f32(x):
    return float(torch.tensor(x, dtype=torch.float32))


def check_graph(case):
    """the graph of a sequence, as a set of arcs per state: states are the
    positions of the sequence"""
    c, b, e = case
    S = seqs([1, 2, 7], 4)[b:e]
    cost = struct_f32(c)
    for srcs in ([s] for s in S), [S], [S[::-1]], ([s, [], s] for s in S[:4]):
        for batch in srcs:
            for form in (batch, k2.RaggedTensor(batch, dtype=I32)):
                step()
                g = k2.levenshtein_graph(form, c)
                refs = read(g)
                expect(len(refs) == len(batch), 'batch size')
                aux = split_attr(g, g.aux_labels.tolist())
                off = split_attr(g, getattr(g, OFFSET).tolist())
                for r, s, a, o in zip(refs, batch, aux, off):
                    n = len(s)
                    want = []
                    for i in range(n + 1):
                        want.append((i, i, 0, 0, cost, cost + 0.5))
                        if i < n:
                            want.append((i, i + 1, 0, s[i], -0.5, 0.0))
                            want.append((i, i + 1, s[i], s[i], 0.0, 0.0))
                    want.append((n, n + 1, -1, -1, 0.0, 0.0))
                    got = [(x[0], x[1], x[2], y, x[3], z)
                           for x, y, z in zip(r.arcs, a, o)]
                    expect(r.n == n + 2 and len(got) == len(want) and all(
                        x[:4] == y[:4] and abs(x[4] - y[4]) < 1e-6 and
                        abs(x[5] - y[5]) < 1e-6
                        for x, y in zip(sorted(got), sorted(want))),
                        'levenshtein graph of', s, 'with', c, 'is', got)
    return len(S)


def align_cases(tier):
    R = seqs([1, 2], 3)
    H = seqs([1, 2], 3) if tier == 'quick' else seqs([1, 2, 3], 3)
    for c in (COSTS[:5] if tier == 'quick' else COSTS):
        for i in range(len(R)):
            for b, e in chunks(len(H), 20):
                yield ['one', c, i, b, e]
    # batches with every map of three hypotheses to two references
    small = seqs([1, 2], 2)
    for c in (COSTS[0], COSTS[3]):
        for a in range(len(small)):
            for b in range(len(small)):
                yield ['map', c, a, b, 0]
    L = seqs([1, 2], 4 if tier == 'quick' else 6)
    top = max(map(len, L))
    L = [x for x in L if len(x) == top]
    for i in range(len(L)):
        yield ['long', COSTS[0], i, top, 0]


def edit(r, h, indel):
    """(least cost, set of edit counts of the cheapest alignments)"""
    d = {}
    for i in range(len(r) + 1):
        for j in range(len(h) + 1):
            if i == j == 0:
                d[i, j] = (0.0, {0})
                continue
            opts = []
            if i:
                c, n = d[i - 1, j]
                opts.append((c + indel, {x + 1 for x in n}))
            if j:
                c, n = d[i, j - 1]
                opts.append((c + indel, {x + 1 for x in n}))
            if i and j:
                c, n = d[i - 1, j - 1]
                k = int(r[i - 1] != h[j - 1])
                opts.append((c + k, {x + k for x in n}))
            m = min(o[0] for o in opts)
            d[i, j] = (m, set().union(*[o[1] for o in opts
                                        if o[0] < m + 1e-9]))
    return d[len(r), len(h)]


def check_alignments(refs, hyps, mp, c, sorted_match, pre=None):
    rg, hg = pre or (k2.levenshtein_graph(refs, c), k2.levenshtein_graph(
        hyps, c))
    step()
    al = k2.levenshtein_alignment(rg, hg, torch.tensor(mp, dtype=I32),
                                  sorted_match_ref=sorted_match)
    out = read(al)
    expect(len(out) == len(hyps), 'number of alignments', len(out))
    lab = split_attr(al, al.labels.tolist())
    rl = split_attr(al, al.ref_labels.tolist())
    hl = split_attr(al, al.hyp_labels.tolist())
    tots = al.get_tot_scores(use_double_scores=False,
                             log_semiring=False).tolist()
    sig = []
    for k, (o, r_, h_, l_, t) in enumerate(zip(out, rl, hl, lab, tots)):
        r, h = refs[mp[k]], hyps[k]
        ctx = (r, h, 'indel', c, 'alignment', r_, h_, l_, o)
        n = len(o.arcs)
        expect(o.n == n + 1 and [(a[0], a[1]) for a in o.arcs] ==
               [(i, i + 1) for i in range(n)], 'not a linear path', *ctx)
        expect(r_[-1:] == h_[-1:] == l_[-1:] == [-1], 'final labels', *ctx)
        expect([x for x in r_[:-1] if x] == r, 'reference labels', *ctx)
        expect([x for x in h_[:-1] if x] == h, 'hypothesis labels', *ctx)
        edits, cost = 0, 0.0
        indel = 0.5 - c
        for x, y, z in zip(r_[:-1], h_[:-1], l_[:-1]):
            expect(x or y, 'an empty step', *ctx)
            if x == y and z == x:
                continue
            expect(z == 0, 'label of an edit', *ctx)
            edits += 1
            cost += 1.0 if x and y else indel
        expect(abs(t + edits) < 1e-3, 'score', t, 'is not minus the number '
               'of edits', edits, *ctx)
        best, counts = edit(r, h, indel)
        expect(abs(best - cost) < 1e-4, 'alignment of cost', cost,
               'while the cheapest costs', best, *ctx)
        if c in (-0.501, -0.5):
            d = edit(r, h, 1.0)[0]
            expect(edits == d, 'edit distance', edits, 'expected', d, *ctx)
        sig.append(edits)
    return sig


def check_align(case):
    kind, c, a, b, e = case
    sig = []
    if kind == 'one':
        r = seqs([1, 2], 3)[a]
        H = seqs([1, 2, 3], 3) if e > 15 else seqs([1, 2], 3)
        H = H[b:e]
        for sm in (False, True):
            sig += check_alignments([r], H, [0] * len(H), c, sm)
            # roles exchanged
            sig += check_alignments(H, [r] * len(H), list(range(len(H))), c,
                                    sm)
    elif kind == 'map':
        small = seqs([1, 2], 2)
        refs = [small[a], small[b]]
        for hyps in ([[], [1], [2, 1]], [[1, 1], [], [2]], [[2, 2], [1, 2],
                                                            [1, 2]]):
            pre = k2.levenshtein_graph(refs, c), k2.levenshtein_graph(hyps, c)
            for mp in itertools.product((0, 1), repeat=3):
                sig += check_alignments(refs, hyps, list(mp), c, True, pre)
    else:
        L = [list(x) for x in itertools.product([1, 2], repeat=b)]
        for lo, hi in chunks(len(L), 64):
            sig += check_alignments([L[a]], L[lo:hi], [0] * (hi - lo), c,
                                    True)
    return sum(sig)


# --------------------------------------------------- pruning by posterior
def prune_cases(tier):
    for u in ('e4', 'e5') if tier == 'quick' else ('e4', 'e5', 'e6'):
        n = 1 << len(UNI[u][1])
        for sch in ('mixed', 'ties', 'neginf', 'large'):
            for b, e in chunks(n, 64):
                if tier == 'quick' and sch != 'mixed' and (b // 64) % 4:
                    continue
                yield [u, sch, b, e]


def check_prune(case):
    u, sch, b, e = case
    refs = [member(u, x, sch) for x in range(b, e)]
    fsa = attach_idx(build_vec(refs))
    sc = fsa.scores.clone().requires_grad_(True)
    fsa.scores = sc
    T = [Truth(r, True) for r in refs]
    kept = 0
    for dbl in (True, False):
        for th in (1e-5, 0.01, 0.1, 0.3, 0.49, 0.7, 0.999):
            step()
            out = k2.prune_on_arc_post(fsa, th, dbl)
            got = read(out)
            expect(len(got) == len(refs), 'batch size')
            ids = split_attr(out, get_idx(out))
            off = arc_offsets(refs)
            for r, t, o, g, ii in zip(refs, T, off, got, ids):
                if t.tot == NEG or not math.isfinite(t.tot):
                    continue
                expect(g.n == r.n, 'states', g.n, r.n)
                loc = [i - o for i in ii]
                expect(loc == sorted(set(loc)), 'order of arcs', loc)
                expect([g.arcs[k] for k in range(len(loc))] ==
                       [r.arcs[i] for i in loc], 'arcs', g, r)
                tol = 1e-3 * (1 if abs(t.tot) < 100 else 100)
                for i, p in enumerate(t.post):
                    d = p - t.tot - math.log(th)
                    if abs(d) < tol:
                        continue
                    expect((i in loc) == (d > 0), 'threshold', th, 'arc', i,
                           'posterior', math.exp(min(0, p - t.tot)),
                           'kept' if i in loc else 'removed', r)
                kept += len(loc)
            if dbl and out.num_arcs:
                w = torch.arange(1.0, 1 + out.num_arcs)
                sc.grad = None
                (out.scores * w)[out.scores > NEG].sum().backward()
                want = [0.0] * len(sc)
                for i, x, y in zip(get_idx(out), w.tolist(),
                                   out.scores.tolist()):
                    want[i] += x if y > NEG else 0
                expect(sc.grad.tolist() == want, 'gradient of pruning')
    return kept


# -------------------------------------------------------------------- n-best
LATS = {
    'l3': (3, [(0, 1, 1), (0, 1, 2), (0, 1, 0), (1, 2, -1), (0, 2, -1),
               (0, 1, 1)]),
    'l4': (4, [(0, 1, 1), (0, 1, 2), (0, 2, 3), (1, 2, 1), (1, 2, 0),
               (1, 3, -1), (2, 3, -1), (0, 2, 1)]),
}
AUX = [5, 6, 0, 6, 7, 5, 0, 8]
RAUX = [[5], [6, 7], [], [7], [5, 6], [0], [8], [6]]


def lat_member(u, bits, scheme):
    n, sl = LATS[u]
    fn = {'mixed': lambda i, s, d, l: SCORES[i % 20],
          'ties': lambda i, s, d, l: -0.5 * (i % 2),
          'flat': lambda i, s, d, l: 0.0}[scheme]
    arcs, aux, raux = [], [], []
    for i, (s, d, l) in enumerate(sl):
        if bits >> i & 1:
            arcs.append((s, d, l, fn(i, s, d, l)))
            aux.append((-1 if l == -1 else AUX[i]))
            raux.append([-1] if l == -1 else RAUX[i])
    order = sorted(range(len(arcs)), key=lambda i: arcs[i][0])
    return (Ref(n, [arcs[i] for i in order]), [aux[i] for i in order],
            [raux[i] for i in order])


def lattice(members, ragged, grad=False):
    """connected, as lattices are"""
    refs = [m[0] for m in members]
    fsa = build_vec(refs)
    if ragged:
        fsa.aux_labels = k2.RaggedTensor([x for m in members for x in m[2]] or
                                         [[]], dtype=I32)
    else:
        fsa.aux_labels = torch.tensor([x for m in members for x in m[1]],
                                      dtype=I32)
    if grad:
        fsa.scores = fsa.scores.detach().clone().requires_grad_(True)
    return fsa


def ok_members(u, scheme):
    """lattices: every state on a path (others are what connect removes)"""
    out = []
    for b in range(1, 1 << len(LATS[u][1])):
        m = lat_member(u, b, scheme)
        if len(useful(m[0])) == m[0].n:
            out.append(m)
    return out


EMPTY = (Ref(0, []), [], [])


def nbest_cases(tier):
    for u in LATS:
        for sch in ('mixed', 'ties'):
            n = len(ok_members(u, sch))
            for ragged in (0, 1):
                for b, e in chunks(n, 6):
                    if tier == 'quick' and u == 'l4' and (b // 6) % 4:
                        continue
                    yield [u, sch, ragged, b, e]


def seq_of(path, r, aux, raux, ragged):
    out = []
    for i in path:
        out += [x for x in (raux[i] if ragged else [aux[i]]) if x > 0]
    return tuple(out)


def check_nbest_obj(nb, members, lat, ragged, num, scale, what):
    """nb against the sampled paths: same distinct word sequences; every entry
    is one of the paths"""
    step()
    scaled = lat.detach()
    scaled.scores = scaled.scores * scale
    paths = k2.random_paths(scaled, num_paths=num,
                            use_double_scores=True).tolist()
    offs = arc_offsets([m[0] for m in members])
    expect(nb.shape.dim0 == len(members), what, 'utterances', nb.shape.dim0)
    rs = nb.shape.row_splits(1).tolist()
    fs = read(nb.fsa)
    labels = split_attr(nb.fsa, nb.fsa.labels.tolist())
    scores = split_attr(nb.fsa, nb.fsa.scores.tolist())
    aux = nb.fsa.aux_labels
    aux = split_attr(nb.fsa, aux.tolist())
    kept = nb.kept_path.tolist() if nb.kept_path is not None else None
    texts = k2.nbest._get_texts(nb.fsa)
    tot = nb.total_scores().tolist()
    expect([len(x) for x in tot] == [rs[i + 1] - rs[i]
                                     for i in range(len(members))],
           what, 'total scores', tot)
    for u, m in enumerate(members):
        r = m[0]
        want = {}
        for p in paths[u]:
            p = [i - offs[u] for i in p]
            want.setdefault(seq_of(p, *m, ragged), []).append(tuple(p))
        got = []
        for k in range(rs[u], rs[u + 1]):
            p = tuple(i - offs[u] for i in kept[k])
            w = seq_of(p, *m, ragged)
            expect(w in want and p in want[w], what, 'path', p,
                   'was not sampled', want)
            got.append(w)
            pl = [r.arcs[i][2] for i in p]
            expect(labels[k] == pl, what, 'labels', labels[k], pl)
            expect(scores[k] == [r.arcs[i][3] for i in p], what, 'scores',
                   scores[k], p, r)
            pa = [m[2][i] if ragged else m[1][i] for i in p]
            expect(aux[k] == pa, what, 'aux labels', aux[k], pa)
            expect(fs[k].n == len(p) + 1 and [a[:2] for a in fs[k].arcs] ==
                   [(i, i + 1) for i in range(len(p))], what, 'not linear',
                   fs[k])
            expect(tuple(texts[k]) == w, what, 'text', texts[k], w)
            expect(abs(tot[u][k - rs[u]] - sum(scores[k])) < 1e-4, what,
                   'total score', tot[u], scores[k])
        expect(sorted(got) == sorted(want), what, 'word sequences', got,
               'sampled', sorted(want))
    return rs


def check_nbest(case):
    u, sch, ragged, b, e = case
    ms = ok_members(u, sch)[b:e]
    sig = []
    for members in [ms, ms[::-1] + ms[:1], [ms[0], EMPTY] + ms[1:], [EMPTY]]:
        for num in (1, 2, 7, 40):
            for scale in (0.5, 1.0):
                if members == [EMPTY]:
                    if ragged or num > 1:
                        continue
                lat = lattice(members, ragged, grad=True)
                nb = k2.Nbest.from_lattice(lat, num_paths=num,
                                           nbest_scale=scale)
                rs = check_nbest_obj(nb, members, lat, ragged, num, scale,
                                     f'from_lattice({num}, {scale})')
                sig.append(rs[-1])
                if nb.fsa.num_arcs == 0:
                    continue
                # gradients reach the lattice
                w = torch.arange(1.0, 1 + nb.fsa.num_arcs)
                (nb.fsa.scores * w).sum().backward()
                want = [0.0] * lat.num_arcs
                for i, x in zip(nb.kept_path.values.tolist(), w.tolist()):
                    want[i] += x
                expect(lat.scores.grad.tolist() == want,
                       'gradient of the n-best scores')
                # Levenshtein graphs of the texts
                lg = nb.build_levenshtein_graphs()
                hs = k2.nbest._get_texts(nb.fsa)
                l2 = k2.levenshtein_graph(hs)
                expect(str(read(lg)) == str(read(l2)), 'levenshtein graphs')
                check_topk(nb, sig)
    return tuple(sig)


def check_topk(nb, sig, maxk=6):
    rs = nb.shape.row_splits(1).tolist()
    tot = nb.total_scores().tolist()
    if any(rs[i] == rs[i + 1] for i in range(len(rs) - 1)):
        return
    arcs = read(nb.fsa)
    for k in range(1, maxk):
        step()
        top = nb.top_k(k)
        trs = top.shape.row_splits(1).tolist()
        expect(trs == [k * i for i in range(len(rs))], 'top_k', k, 'shape',
               trs)
        ta = read(top.fsa)
        expect(len(ta) == k * (len(rs) - 1), 'top_k size')
        tt = top.total_scores().tolist()
        for u in range(len(rs) - 1):
            srt = sorted(tot[u], reverse=True)
            want = (srt + [srt[-1]] * k)[:k]
            expect(tt[u] == want, 'top_k', k, 'scores', tt[u], 'expected',
                   want, 'of', tot[u])
            # every entry is one of the utterance's paths; while there are
            # enough of them none is repeated
            src = [repr(arcs[i]) for i in range(rs[u], rs[u + 1])]
            got = [repr(ta[i]) for i in range(u * k, (u + 1) * k)]
            rest = list(src)
            for j, g in enumerate(got):
                if j < len(src):
                    expect(g in rest, 'top_k', k, 'entry', g, 'of', src)
                    rest.remove(g)
                else:
                    expect(g == got[len(src) - 1], 'top_k padding', got)
    sig.append(1)


def topk_cases(tier):
    n = 3 if tier == 'quick' else 4
    sizes = [s for k in range(1, 4)
             for s in itertools.product(range(1, n + 1), repeat=k)
             if sum(s) <= 7]
    for s in sizes:
        yield [list(s)]


def check_topk_sizes(case):
    """every assignment of scores from a small set to the paths of utterances
    of every size"""
    sizes, = case
    n = sum(sizes)
    sig = []
    vals = (0.0, -1.5, 2.0)
    allv = list(itertools.product(vals, repeat=min(n, 4)))
    for v in allv:
        v = (v * 3)[:n]
        fsa = k2.linear_fsa([[i + 1] for i in range(n)])
        fsa.scores = torch.tensor([x for s in v for x in (s, 0.0)])
        fsa.tag = torch.arange(2 * n, dtype=I32)
        rs = [0]
        for s in sizes:
            rs.append(rs[-1] + s)
        shape = k2.ragged.create_ragged_shape2(
            row_splits=torch.tensor(rs, dtype=I32))
        nb = k2.Nbest(fsa, shape)
        check_topk(nb, sig)
        t = nb.top_k(2)
        for a, b in zip(t.fsa.labels.tolist()[::2], t.fsa.tag.tolist()[::2]):
            expect(b == 2 * (a - 1), 'top_k attributes', a, b)
    return len(sig)


def inter_cases(tier):
    for u in LATS:
        n = len(ok_members(u, 'mixed'))
        for b, e in chunks(n, 8):
            if tier == 'quick' and u == 'l4' and (b // 8) % 4:
                continue
            yield [u, b, e]


def check_inter(case):
    """Nbest.intersect: the best score of each path in the lattice"""
    u, b, e = case
    ms = ok_members(u, 'mixed')
    members = ms[b:e]
    lats = lattice(members, 0)
    words = [[1], [2], [1, 1], [2, 1], [], [3], [1, 2]]
    n = len(members)
    fsa = k2.linear_fsa([w for _ in members for w in words])
    shape = k2.ragged.regular_ragged_shape(n, len(words))
    nb = k2.Nbest(fsa, shape)
    step()
    ans = nb.intersect(lats)
    expect(ans.shape.row_splits(1).tolist() == shape.row_splits(1).tolist(),
           'shape')
    tot = ans.total_scores().tolist()
    got = read(ans.fsa)
    for i, m in enumerate(members):
        best = {}
        for p in all_paths(m[0]):
            k = tuple(x for x in path_labels(m[0], p) if x > 0)
            best[k] = max(best.get(k, NEG), path_score(m[0], p))
        for j, w in enumerate(words):
            want = best.get(tuple(w), NEG)
            expect(close_to(tot[i][j], want), 'n-best', w, 'in lattice', m[0],
                   'scores', tot[i][j], 'expected', want)
            r = got[i * len(words) + j]
            if want > NEG:
                ps = list(all_paths(r))
                expect(len(ps) == 1 and [x for x in path_labels(r, ps[0])
                                         if x > 0] == w, 'path', r)
    return n


def list_cases(tier):
    for u in LATS:
        n = len(ok_members(u, 'mixed'))
        for b, e in chunks(n, 8):
            yield [u, b, e]


def check_list(case):
    """generate_nbest_list: distinct phone sequences of the sampled paths"""
    u, b, e = case
    members = ok_members(u, 'mixed')[b:e] + [EMPTY]
    sig = []
    for num in (1, 3, 20):
        lats = lattice(members, 0)
        lats.phones = lats.labels.clone()
        step()
        paths = k2.random_paths(lats, num_paths=num,
                                use_double_scores=True).tolist()
        nb = k2.nbest.generate_nbest_list(lats, num)
        rs = nb.shape.row_splits(1).tolist()
        labels = split_attr(nb.fsa, nb.fsa.labels.tolist())
        offs = arc_offsets([m[0] for m in members])
        expect(len(rs) == len(members) + 1, 'utterances', rs)
        for i, m in enumerate(members):
            want = {tuple(x for x in (m[0].arcs[a - offs[i]][2] for a in p)
                          if x > 0) for p in paths[i]}
            got = [tuple(labels[k][:-1]) for k in range(rs[i], rs[i + 1])]
            expect(sorted(got) == sorted(want), 'generate_nbest_list', num,
                   got, want)
            sig.append(len(got))
    return tuple(sig)


# ----------------------------------------------------------------- rescoring
def rescore_cases(tier):
    for u in LATS:
        n = len(ok_members(u, 'mixed'))
        for b, e in chunks(n, 8):
            for ragged in (0, 1):
                if tier == 'quick' and u == 'l4' and (b // 8) % 4:
                    continue
                yield [u, b, e, ragged]


def make_g(kind):
    """a language model over the words 5..8 with epsilon self-loops"""
    arcs = {
        'uni': [(0, 0, 5, -1.0), (0, 0, 6, -2.0), (0, 0, 7, -0.5),
                (0, 0, 8, -3.0), (0, 1, -1, -0.25)],
        'bi': [(0, 1, 5, -1.0), (0, 1, 6, -2.0), (1, 0, 6, -0.5),
               (1, 1, 7, -3.0), (0, 2, -1, -0.25), (1, 2, -1, -4.0)],
        'few': [(0, 1, 5, -1.0), (1, 2, -1, -4.0)],
    }[kind]
    n = 1 + max(a[1] for a in arcs)
    g = build_vec([Ref(n, sorted(arcs))])
    g.lm_scores = g.scores.clone()
    return k2.arc_sort(k2.add_epsilon_self_loops(g)), Ref(n, arcs)


def check_rescore(case):
    u, b, e, ragged = case
    members = ok_members(u, 'mixed')[b:e]
    sig = 0
    for kind in ('uni', 'bi', 'few'):
        G, gref = make_g(kind)
        lats = lattice(members, ragged)
        lats.lm_scores = torch.arange(lats.num_arcs) * 0.25
        offs = arc_offsets([m[0] for m in members])
        before = (str(read(lats)), lats.lm_scores.tolist())
        step()
        out = k2.nbest.whole_lattice_rescoring(lats, G)
        expect(before == (str(read(lats)), lats.lm_scores.tolist()),
               'the lattice has changed')
        expect(out.shape[0] == len(members), 'batch size')
        got = read(out)
        al = out.aux_labels
        al = split_attr(out, al.tolist())
        glm = split_attr(out, out.lm_scores.tolist())
        for i, m in enumerate(members):
            want = {}
            for p in all_paths(m[0]):
                w = seq_of(p, *m, ragged)
                am = sum(m[0].arcs[x][3] - 0.25 * (offs[i] + x) for x in p)
                for lm in word_scores(gref, w):
                    key = (tuple(x for x in path_labels(m[0], p) if x > 0), w)
                    want.setdefault(key, []).append(am + lm)
            rel = {}
            for (l, o), v in io_relation(got[i], al[i]).items():
                rel.setdefault((tuple(x for x in l if x > 0), o), []).extend(v)
            # the best score of every pair (epsilons may be taken in several
            # orders)
            mx = {k: max(v) for k, v in rel.items()}
            mw = {k: max(v) for k, v in want.items()}
            expect(set(mx) == set(mw) and all(
                abs(mx[k] - mw[k]) < 1e-3 for k in mw), 'rescored lattice',
                mx, 'expected', mw, m[0], kind)
            for p in all_paths(got[i]):
                w = tuple(x for j in p for x in (
                    al[i][j] if isinstance(al[i][j], list) else [al[i][j]])
                    if x > 0)
                lm = sum(glm[i][j] for j in p)
                expect(any(abs(lm - s) < 1e-3 for s in word_scores(gref, w)),
                       'lm_scores of', w, lm)
            sig += len(mx)
    return sig


def word_scores(g, w):
    out = []

    def go(s, k, sc):
        for a in g.arcs:
            if a[0] != s:
                continue
            if a[2] == -1:
                if k == len(w):
                    out.append(sc + a[3])
            elif k < len(w) and a[2] == w[k]:
                go(a[1], k + 1, sc + a[3])
    go(0, 0, 0.0)
    return out


# ---------------------------------------------------------------------- MWER
def mwer_cases(tier):
    for u in LATS:
        n = len(ok_members(u, 'mixed'))
        for ragged in (0, 1):
            for b, e in chunks(n, 4):
                if tier == 'quick' and u == 'l4' and (b // 4) % 6:
                    continue
                yield [u, ragged, b, e]


def check_mwer(case):
    u, ragged, b, e = case
    members = ok_members(u, 'mixed')[b:e]
    texts = [[], [5], [6, 7], [5, 6], [8, 8, 8]]
    sig = []
    for rot in range(len(texts)):
        ref = [texts[(rot + i) % len(texts)] for i in range(len(members))]
        for temp, num, scale in ((1.0, 60, 0.5), (2.5, 60, 1.0),
                                 (1.0, 2, 1.0)):
            lat = lattice(members, ragged, grad=True)
            nb = k2.Nbest.from_lattice(lat, num_paths=num, nbest_scale=scale)
            offs = arc_offsets([m[0] for m in members])
            rs = nb.shape.row_splits(1).tolist()
            kept = nb.kept_path.tolist()
            want, grads = [], [0.0] * lat.num_arcs
            for i, m in enumerate(members):
                rows = []
                for k in range(rs[i], rs[i + 1]):
                    p = [a - offs[i] for a in kept[k]]
                    w = list(seq_of(p, *m, ragged))
                    rows.append((sum(m[0].arcs[a][3] for a in p) / temp,
                                 edit(ref[i], w, 1.0)[0], kept[k]))
                z = max(x[0] for x in rows)
                Z = sum(math.exp(x[0] - z) for x in rows)
                pr = [math.exp(x[0] - z) / Z for x in rows]
                want.append([q * x[1] for q, x in zip(pr, rows)])
                mean = sum(want[-1])
                for q, x in zip(pr, rows):
                    for a in x[2]:
                        grads[a] += q * (x[1] - mean) / temp
            flatw = sum(want, [])
            for red in ('none', 'sum', 'mean'):
                for form in (ref, k2.RaggedTensor(ref, dtype=I32)):
                    for dbl in (True, False):
                        lat = lattice(members, ragged, grad=True)
                        step()
                        loss = k2.mwer_loss(lat, form, scale, num, temp, dbl,
                                            red)
                        if red == 'none':
                            got = loss.tolist()
                            expect([len(x) for x in got] == [
                                len(x) for x in want], 'loss shape', got)
                            expect(all(abs(x - y) < 1e-4 for r, w in zip(
                                got, want) for x, y in zip(r, w)), 'loss',
                                got, 'expected', want)
                            loss = loss.values.sum()
                        else:
                            t = sum(flatw)
                            t = t / len(flatw) if red == 'mean' else t
                            expect(abs(float(loss) - t) < 1e-4 * (1 + t),
                                   'loss', float(loss), red, 'expected', t)
                        loss.backward()
                        k = len(flatw) if red == 'mean' else 1
                        expect(all(abs(x * k - y) < 1e-3 for x, y in zip(
                            lat.scores.grad.tolist(), grads)), 'gradient',
                            lat.scores.grad.tolist(), grads)
            sig.append(round(sum(flatw), 3))
    return tuple(sig)


# ------------------------------------------------------------ best matches
def stat_cases(tier):
    """every division of every text into sentences and into collections"""
    top = 5 if tier == 'quick' else 7
    for n in range(0, top + 1):
        for cuts in itertools.product((0, 1), repeat=max(0, n - 1)):
            yield ['all', n, list(cuts)]
    for n in (9, 11) if tier == 'quick' else (9, 11, 13):
        for b in range(0, 1 << n, 128):
            if tier == 'quick' and (b // 128) % 2:
                continue
            yield ['long', n, b]
    yield ['wide', 0, 0]


def matching(text, scores, counts, eos, max_order):
    t = [eos] + text
    n = len(text)
    res = []
    for i in range(n):
        for L in range(i + 2, 0, -1):
            suf = t[i + 2 - L:i + 2]
            js = [j for j in range(n) if j + 2 - L >= 0 and
                  t[j + 2 - L:j + 2] == suf and counts[j]]
            if js:
                break
        else:
            L = 0
            js = [j for j in range(n) if counts[j]]
        res.append((L, js))
    return res


def check_one(colls, scores, counts, eos, lo, hi, mo, three):
    tokens = k2.RaggedTensor(colls if three else colls[0], dtype=I32)
    step()
    mean, var, cnt, order = k2.get_best_matching_stats(
        tokens, torch.tensor(scores, dtype=torch.float32),
        torch.tensor(counts, dtype=I32), eos, lo, hi, mo)
    o = 0
    for c in colls:
        text = [x for s in c for x in s]
        dist = [i + 1 for s in c for i in range(len(s))]
        n = len(text)
        sc, ct = scores[o:o + n], counts[o:o + n]
        res = matching(text, sc, ct, eos, mo)
        for i, (L, js) in enumerate(res):
            if ct[i]:
                continue            # undefined for keys
            ctx = ('position', i, 'of', c, 'scores', sc, 'counts', ct)
            if not js:
                expect(float(mean[o + i]) == 0 and float(var[o + i]) == 0 and
                       int(cnt[o + i]) == 0, 'without keys', *ctx)
                continue
            xs = [sc[j] for j in js]
            m = sum(xs) / len(xs)
            v = sum((x - m) ** 2 for x in xs) / len(xs)
            expect(abs(float(mean[o + i]) - m) < 1e-4, 'mean',
                   float(mean[o + i]), 'expected', m, *ctx)
            expect(abs(float(var[o + i]) - v) < 1e-3, 'variance',
                   float(var[o + i]), 'expected', v, *ctx)
            expect(int(cnt[o + i]) == (len(js) if L else 0), 'count',
                   int(cnt[o + i]), 'expected', len(js), 'order', L, *ctx)
            g = int(order[o + i])
            if L < dist[i]:
                expect(g == min(L, mo), 'order', g, 'expected', L, *ctx)
            elif L > dist[i]:
                expect(g == mo, 'order', g, 'at sentence begin', *ctx)
            else:
                expect(g in (mo, min(L, mo)), 'order', g, *ctx)
        o += n


def check_stats(case):
    kind, n, x = case
    eos = 3
    cnt = 0
    if kind == 'all':
        cuts = x
        for body in itertools.product((1, 2), repeat=n):
            sents, cur = [], []
            for i, t in enumerate(body):
                cur.append(t)
                if i == n - 1 or cuts[i]:
                    sents.append(cur + [eos])
                    cur = []
            if not sents:
                sents = [[eos]]
            m = sum(map(len, sents))
            k = len(sents)
            # whole sentences are keys or queries
            for keys in itertools.product((0, 1), repeat=k):
                counts = [c for s, c in zip(sents, keys) for _ in s]
                scores = [0.5 * i * i - i for i in range(m)]
                check_one([sents], scores, counts, eos, 1, 3, 2, False)
                cnt += 1
                if k > 1:
                    check_one([sents[:1], sents[1:]], scores, counts, eos, 0,
                              5, 3, True)
                    check_one([sents[:1], [], sents[1:]], scores, counts, eos,
                              1, 3, 3, True)
        return cnt
    if kind == 'long':
        for bits in range(x, x + 128):
            text = [1 + (bits >> i & 1) for i in range(n)]
            h = n // 2
            sents = [text[:h] + [eos], text[h:] + [eos]]
            counts = [1] * (h + 1) + [0] * (n - h + 1)
            scores = [0.25 * ((7 * i) % 11) for i in range(n + 2)]
            check_one([sents], scores, counts, eos, 1, 3, 4, False)
        return 1
    # token ranges that need the wide index type
    for lo, hi in ((-5, 3), (-5, 40000), (30000, 30010), (40000, 40010)):
        base = max(lo, 1) if lo < 100 else lo
        sents = [[base, base + 1, base + 2], [base + 1, base + 1, base + 2]]
        check_one([sents], [1., 2., 3., 0., 0., 0.], [1] * 3 + [0] * 3,
                  base + 2, lo, hi, 2, False)
    return 1


ASSUMPTIONS = [
    'with an insertion/deletion score other than the default the alignment '
    'is the cheapest under that score and its total counts its edits',
    'symbols 0 and -1 are refused by Levenshtein graphs',
    'arcs within rounding of the pruning threshold may go either way; '
    'posteriors of automata without a path are undefined',
    'which of several sampled paths with the same words is kept is free',
    'get_best_matching_stats: results at key positions are undefined; the '
    'text of a collection is one history across sentences (as tested)',
]
FAMILIES = [
    Family('graph', graph_cases, check_graph,
           'Levenshtein graph of every sequence, score, batch'),
    Family('align', align_cases, check_align,
           'every pair of sequences, score, map, matching method'),
    Family('prune', prune_cases, check_prune,
           'every automaton of a universe x thresholds'),
    Family('nbest', nbest_cases, check_nbest,
           'every small lattice x numbers of paths x scales'),
    Family('topk', topk_cases, check_topk_sizes,
           'every size pattern x score pattern x k'),
    Family('intersect', inter_cases, check_inter,
           'every small lattice x fixed n-best lists'),
    Family('lists', list_cases, check_list, 'every small lattice'),
    Family('rescore', rescore_cases, check_rescore,
           'every small lattice x language models'),
    Family('mwer', mwer_cases, check_mwer,
           'every small lattice x references x settings'),
    Family('stats', stat_cases, check_stats,
           'every text over two words, division into sentences and keys'),
]
