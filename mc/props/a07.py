"""A07: dense intersection is exact; beam pruning only removes paths."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2

CELL = [0.25, -0.875, 0.5, -1.25, -0.375, 1.125, -0.125, -2.0, 0.75, -0.625,
        -1.5, 0.375, -1.0, 1.375, -0.75, -2.25, 0.625, -0.25, 1.0, -1.75]


def cell(pat, i, t, l):
    """log-prob of utterance i, frame t, label l: dyadic, so every sum is exact"""
    if pat == 'inf' and (i * 5 + t * 3 + l * 2) % 4 == 3:
        return NEG
    if pat == 'flat':
        return 0.0
    k = i * 7 + t * 3 + l * 11 + (5 if pat == 'b' else 0)
    return CELL[k % len(CELL)]


def dense(n, T, C, pat, segs=None, trunc=0):
    m = torch.tensor([[[cell(pat, i, t, l) for l in range(C)]
                       for t in range(T)] for i in range(n)],
                     dtype=torch.float32).reshape(n, T, C)
    if segs is None:
        segs = [[i, 0, T] for i in range(n)]
    return k2.DenseFsaVec(m, torch.tensor(segs, dtype=torch.int32).reshape(-1, 3),
                          allow_truncate=trunc)


def rows_of(pat, C, T, seg):
    i, b, d = seg
    return [[cell(pat, i, t, l) for l in range(C)]
            for t in range(b, min(b + d, T))]


class Lattice:
    """the product of a graph with the rows of one segment"""

    def __init__(self, r, rows):
        self.r, self.rows, self.T = r, rows, len(rows)
        self.by = {}
        for i, a in enumerate(r.arcs):
            self.by.setdefault(a[0], []).append(i)

    def sc(self, t, i):
        l = self.r.arcs[i][2]
        if t == self.T:
            return 0.0 if l == -1 else NEG
        return NEG if l == -1 else self.rows[t][l]

    def full(self):
        """[(t, arc, end score)] and forward scores without any limit"""
        if self.r.n == 0:
            return None
        fwd = [{0: 0.0}]
        arcs = []
        for t in range(self.T + 1):
            nx, al = {}, []
            for s, x in fwd[-1].items():
                for i in self.by.get(s, ()):
                    w = self.sc(t, i)
                    if w == NEG:
                        continue
                    e = x + w + self.r.arcs[i][3]
                    if e == NEG:
                        continue
                    al.append((s, i, w + self.r.arcs[i][3]))
                    d = self.r.arcs[i][1]
                    nx[d] = max(nx.get(d, NEG), e)
            arcs.append(al)
            fwd.append(nx)
        return fwd, arcs

    def limited(self, sb, mn, mx):
        """the documented frame-synchronous beam search"""
        if self.r.n == 0:
            return None
        fwd = [{0: 0.0}]
        arcs, dyn = [], f32(sb)
        for t in range(self.T + 1):
            al = []
            for s, x in fwd[-1].items():
                for i in self.by.get(s, ()):
                    w = self.sc(t, i) + self.r.arcs[i][3]
                    al.append((s, i, w, x + w))
            best = max([a[3] for a in al], default=NEG)
            act = len(fwd[-1])
            late = t + 5 >= self.T + 1
            cur = max(float(mn), mx / 2) if late else mn
            if act <= mx:
                if act >= cur or act == 0:
                    dyn = f32(0.8 * dyn + 0.2 * f32(sb))
                else:
                    dyn = f32(1.25 * max(dyn, f32(sb)))
            elif not late:
                dyn = f32(0.8 * min(dyn, f32(sb)))
            if t == self.T:
                dyn = 1e10
            cut = best - dyn
            nx = {}
            for s, i, w, e in al:
                if e != NEG and abs(e - cut) < 1e-4:
                    raise Ambiguous()
                if e > cut:
                    nx[self.r.arcs[i][1]] = NEG
            out = []
            for s, i, w, e in al:
                d = self.r.arcs[i][1]
                if d in nx and e != NEG:
                    nx[d] = max(nx[d], e)
                    out.append((s, i, w))
            arcs.append(out)
            fwd.append(nx)
        return fwd, arcs

    def slacks(self, fa):
        """dict (t, arc) -> best path score minus best score through it, of
        all arcs on complete paths"""
        if fa is None:
            return {}
        fwd, arcs = fa
        f = self.r.n - 1
        best = fwd[-1].get(f, NEG)
        out = {}
        if best == NEG:
            return out
        bwd = {f: 0.0}
        for t in range(self.T, -1, -1):
            nb = {}
            for s, i, w in arcs[t]:
                d = self.r.arcs[i][1]
                if d in bwd:
                    x = w + bwd[d]
                    nb[s] = max(nb.get(s, NEG), x)
                    out[(t, i)] = best - (fwd[t][s] + x)
            bwd = nb
        return out


class Ambiguous(Exception):
    pass


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def run(a, b, pruned=None, **kw):
    a.idx = torch.arange(1, 1 + a.num_arcs, dtype=torch.int32)
    step()
    if pruned:
        sb, ob, mn, mx = pruned
        o = k2.intersect_dense_pruned(a, b, sb, ob, mn, mx,
                                      seqframe_idx_name='sf',
                                      frame_idx_name='fr', **kw)
    else:
        o = k2.intersect_dense(a, b, seqframe_idx_name='sf',
                               frame_idx_name='fr', **kw)
    return o


def kept(out, refs_of, lats, offs, starts, C, pruned, what, partial=False,
         dead=False):
    """Checks the structure of the result; returns per entry {(t, arc)}."""
    rs = read(out)
    expect(len(rs) == len(lats), what, 'number of entries', len(rs))
    idx = split_attr(out, out.idx.tolist())
    fr = split_attr(out, out.fr.tolist())
    sf = split_attr(out, out.sf.tolist())
    res = []
    for e, (o, L) in enumerate(zip(rs, lats)):
        r = refs_of[e]
        m = validate(o)
        expect(m is None, what, 'malformed result', m, o)
        if o.n == 0:
            expect(not pruned or r.n == 0, what, 'entry lost its start state')
            res.append(set())
            continue
        got = set()
        st = {0: (0, 0)}            # output state -> (frame, graph state)
        order = sorted(range(len(o.arcs)), key=lambda j: fr[e][j])
        for j in order:
            (s, d, l, w) = o.arcs[j]
            i, t = idx[e][j] - 1 - offs[e], fr[e][j]
            expect(sf[e][j] == starts[e] + t, what, 'seqframe', sf[e][j],
                   'frame', t, 'of entry', e)
            if partial and idx[e][j] == 0:
                expect(l == -1 and t == L.T and d == o.n - 1, what,
                       'arc without origin is not a final arc', o.arcs[j], t)
                expect(s in st and st[s][0] == t, what, 'partial final arc')
                got.add((t, ('end', st[s][1])))
                continue
            expect(0 <= i < len(r.arcs), what, 'arc of another entry', i)
            (gs, gd, gl, gw) = r.arcs[i]
            expect(gl == l, what, 'label', l, 'of graph arc', r.arcs[i])
            expect(w == gw + L.sc(t, i) or (w == NEG and L.sc(t, i) == NEG),
                   what, 'score', w, 'expected', gw + L.sc(t, i), 'frame', t,
                   'arc', r.arcs[i])
            expect(st.get(s) == (t, gs), what, 'source state', s, 'is',
                   st.get(s), 'the arc leaves', (t, gs), o)
            expect(st.setdefault(d, (t + 1, gd)) == (t + 1, gd), what,
                   'destination state', d, 'is', st.get(d), 'not',
                   (t + 1, gd), o)
            expect((t, i) not in got, what, 'arc occurs twice')
            got.add((t, i))
        expect(len(set(st.values())) == len(st), what, 'split states', st, o)
        u = useful(o)
        spare = set(range(o.n)) - set(st)
        expect(spare <= {o.n - 1}, what, 'unreachable states', spare, o)
        if dead:
            # leftovers of intermediate pruning windows: dead ends
            for j, (s, d, l, w) in enumerate(o.arcs):
                if s not in u or d not in u:
                    got.discard((fr[e][j], idx[e][j] - 1 - offs[e]))
        else:
            for (s, d, l, w) in o.arcs:
                expect(s in u and d in u, what, 'arc not on a complete path',
                       (s, d, l, w), o)
        res.append(got)
    return res


def seg_starts(durs):
    out, o = [], 0
    for d in durs:
        out.append(o)
        o += d + 1
    return out


def compare(got, want, what, ctx):
    if got != want:
        expect(False, what, 'missing (frame, arc):', sorted(want - got)[:5],
               'excess:', sorted(got - want)[:5], *ctx)


# ------------------------------------------------- every graph, both variants
def gscore(i, s, d, l):
    return [0.0, -0.5, 0.25, -0.75, 0.5, -1.0, -0.25][(i * 3 + s) % 7]


UNI = {'3x2': (3, [0, 1]), '3x3': (3, [0, 1, 2]), '4a': (4, [1, 2]),
       '4x1': (4, [1])}


def uslots(u):
    n, labels = UNI[u]
    return slots(n, labels, acyclic=(u == '4a'))


def graph_cases(tier):
    plan = [('3x2', 32, ['a', 'inf']), ('4x1', 64, ['a']), ('4a', 32, ['b']),
            ('3x3', 64, ['a', 'inf'] if tier == 'quick' else ['a', 'b', 'inf', 'flat'])]
    for u, sz, pats in plan:
        n = 1 << len(uslots(u))
        for pat in pats:
            for b, e in chunks(n, sz):
                yield [u, pat, b, e]


def graphs(case):
    u, pat, b, e = case
    sl = uslots(u)
    n, labels = UNI[u]
    return [from_bits(n, sl, x, gscore) for x in range(b, e)], pat, \
        max(labels) + 1


TT = [3, 2, 1, 0]


def check_unpruned(case):
    refs, pat, C = graphs(case)
    allr = refs * len(TT)
    lens = [T for T in TT for _ in refs]
    segs = [[0, 3 - T if T else 0, T] for T in TT]
    b = dense(1, 3, C, pat, segs)
    amap = torch.tensor([j for j in range(len(TT)) for _ in refs],
                        dtype=torch.int32)
    lats = [Lattice(r, rows_of(pat, C, 3, segs[j]))
            for r, j in zip(allr, amap.tolist())]
    sl = [L.slacks(L.full()) for L in lats]
    st = seg_starts(TT)
    starts = [st[j] for j in amap.tolist()]
    a = build_vec(allr)
    offs = arc_offsets(allr)
    sig = []
    for beam in (1000.0, 2.3, 0.7):
        o = run(a, b, output_beam=beam, a_to_b_map=amap)
        ks = kept(o, allr, lats, offs, starts, C, False, 'intersect_dense')
        for e, k in enumerate(ks):
            compare(k, {x for x, y in sl[e].items() if y < beam},
                    'intersect_dense', ['beam', beam, 'entry', e, allr[e],
                                        'frames', lats[e].rows])
        sig.append([len(k) for k in ks])
    return sig


def check_pruned(case):
    refs, pat, C = graphs(case)
    # lengths interleaved: the pruned variant takes any order
    allr = [r for r in refs for _ in TT]
    lens = [TT[(i * 3 + j) % 4] for i in range(len(refs)) for j in range(4)]
    segs = [[0, 3 - T if T else 0, T] for T in lens]
    b = dense(1, 3, C, pat, segs)
    lats = [Lattice(r, rows_of(pat, C, 3, s)) for r, s in zip(allr, segs)]
    sl = [L.slacks(L.full()) for L in lats]
    starts = seg_starts(lens)
    a = build_vec(allr)
    offs = arc_offsets(allr)
    sig = []
    for beam in (1000.0, 2.3):
        o = run(a, b, pruned=(500.0, beam, 0, 1000))
        ks = kept(o, allr, lats, offs, starts, C, True, 'pruned')
        for e, k in enumerate(ks):
            compare(k, {x for x, y in sl[e].items() if y <= beam},
                    'intersect_dense_pruned',
                    ['output beam', beam, 'entry', e, allr[e],
                     'frames', lats[e].rows])
        sig.append([len(k) for k in ks])
    return sig


# ------------------------------------------------------------ limits and beams
def G(n, *arcs):
    return Ref(n, list(arcs))


POOL = [
    # fully connected over two emitting states
    G(3, (0, 0, 1, -0.25), (0, 1, 2, 0.0), (1, 1, 2, -0.5), (1, 0, 1, 0.25),
      (0, 2, -1, 0.0), (1, 2, -1, -0.25)),
    # four states, several labels, epsilon (consumes a frame)
    G(5, (0, 1, 1, 0.0), (0, 2, 2, 0.25), (0, 3, 0, -0.5), (1, 1, 0, 0.0),
      (1, 2, 2, -0.25), (1, 4, -1, 0.0), (2, 3, 1, 0.5), (2, 2, 0, 0.0),
      (2, 4, -1, -1.0), (3, 0, 2, 0.25), (3, 3, 1, -0.75), (3, 4, -1, 0.5)),
    # linear with self-loops: only long enough segments complete
    G(4, (0, 0, 0, 0.0), (0, 1, 1, 0.0), (1, 1, 1, -0.25), (1, 2, 2, 0.25),
      (2, 2, 0, 0.0), (2, 3, -1, 0.0)),
    # parallel arcs with the same label
    G(3, (0, 1, 1, 0.0), (0, 1, 1, -0.5), (0, 0, 2, 0.0), (1, 0, 0, 0.25),
      (1, 1, 2, -0.25), (0, 2, -1, 0.0), (1, 2, -1, 0.0), (1, 2, -1, -0.5)),
    # branching out: many active states
    G(8, *([(0, j, 1 + (j % 2), -0.25 * j) for j in range(1, 7)]
           + [(j, 1 + (j * 2) % 6, j % 3, 0.125 * j) for j in range(1, 7)]
           + [(j, 1 + (j * 5) % 6, 1 + j % 2, -0.125 * j)
              for j in range(1, 7)]
           + [(j, 7, -1, -0.25 * (j % 3)) for j in range(1, 7)])),
    # no complete path at all
    G(3, (0, 1, 1, 0.0), (1, 0, 2, 0.0)),
    Ref(0, []),
    G(2, (0, 1, -1, 0.0), (0, 0, 1, 0.0)),
]
LIMITS = [(sb, ob, mn, mx)
          for sb in (0.55, 1.3, 2.6, 6.1)
          for ob in (0.8, 2.2, 50.0)
          for mn, mx in ((0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 100),
                         (0, 100), (0, 10000))]


def limit_cases(tier):
    Ts = [1, 2, 3, 4, 7, 12, 19] if tier == 'quick' else list(range(0, 24))
    for T in Ts:
        for pat in ('a', 'b', 'inf', 'flat'):
            for lim in LIMITS:
                yield [T, pat, list(lim)]


def check_limits(case):
    T, pat, lim = case
    sb, ob, mn, mx = lim
    lens = [max(0, T - (j % 3)) for j in range(len(POOL))]
    segs = [[j, 0, d] for j, d in enumerate(lens)]
    C = 3
    b = dense(len(POOL), max(T, 1), C, pat, segs)
    lats = [Lattice(r, rows_of(pat, C, max(T, 1), s))
            for r, s in zip(POOL, segs)]
    o = run(build_vec(POOL), b, pruned=tuple(lim))
    ks = kept(o, POOL, lats, arc_offsets(POOL), seg_starts(lens), C, True,
              'pruned', dead=T > 19)
    sig = []
    for e, (k, L) in enumerate(zip(ks, lats)):
        # only complete paths of the graph, ever
        full = L.slacks(L.full())
        expect(k <= set(full), 'a path that is not in the graph', k, full)
        try:
            s = L.slacks(L.limited(sb, mn, mx))
        except Ambiguous:
            sig.append(None)
            continue
        compare_windows(k, s, ob, T > 19, 'limits', [lim, 'entry', e, POOL[e],
                                                     T, pat])
        sig.append(len(k))
    return sig


def compare_windows(k, s, ob, long, what, ctx):
    """the result holds every arc within the output beam; the arcs outside can
    only be left over from an intermediate pruning window"""
    want = {x for x, y in s.items() if y <= ob}
    expect(want <= k, what, 'lost arcs', sorted(want - k)[:5], *ctx)
    if not long:
        compare(k, want, what, ctx)
    else:
        expect(k <= set(s), what, 'arcs outside the search beam',
               sorted(k - set(s))[:5], *ctx)


def window_cases(tier):
    base = [18, 19, 20, 21, 29, 30, 31, 38, 39, 40, 41, 49, 50, 51, 59, 60, 61]
    Ts = base if tier == 'quick' else list(range(16, 84))
    for T in Ts:
        for g in ((0, 1, 4) if tier == 'quick' else (0, 1, 2, 3, 4)):
            for lim in ([1000.0, 1000.0, 0, 10000], [2.6, 1.7, 0, 100],
                        [6.1, 0.8, 1, 4], [1.3, 6.0, 2, 3]):
                for d2 in (0, 1, 10, 11, 21):
                    yield [T, g, lim, d2]


def check_window(case):
    T, g, lim, d2 = case
    refs = [POOL[g], POOL[1], POOL[g]]
    lens = [max(0, T - d2), T, min(T, d2)]
    segs = [[0, 0, lens[0]], [1, 0, lens[1]], [2, 0, lens[2]]]
    b = dense(3, T, 3, 'a', segs)
    lats = [Lattice(r, rows_of('a', 3, T, s)) for r, s in zip(refs, segs)]
    o = run(build_vec(refs), b, pruned=tuple(lim))
    ks = kept(o, refs, lats, arc_offsets(refs), seg_starts(lens), 3, True,
              'windows', dead=T > 19)
    sig = []
    for e, (k, L) in enumerate(zip(ks, lats)):
        try:
            s = L.slacks(L.limited(lim[0], lim[2], lim[3]))
        except Ambiguous:
            sig.append(None)
            continue
        compare_windows(k, s, lim[1], T > 19, 'windows', [case, 'entry', e])
        sig.append(len(k))
    return sig


def dead_cases(tier):
    yield [20, 1, [6.1, 0.8, 1, 4], 0]


def check_dead(case):
    T, g, lim, d2 = case
    r = POOL[g]
    b = dense(1, T, 3, 'a')
    L = Lattice(r, rows_of('a', 3, T, [0, 0, T]))
    o = run(build_vec([r]), b, pruned=tuple(lim))
    k, = kept(o, [r], [L], [0], [0], 3, True, 'long')
    return sorted(k)


# ------------------------------------------------------------ segment layouts
def seg_cases(tier):
    one = [[i, b, d] for i in range(2) for b in range(3) for d in range(0, 5)
           if b + d <= 4]
    for trunc in (0, 1):
        ok = [s for s in one if s[1] + s[2] <= 3 + trunc]
        for s in ok:
            yield [trunc, [s]]
        for s in itertools.product(ok, repeat=2):
            yield [trunc, list(s)]
    small = [[0, 0, 3], [1, 1, 2], [0, 2, 1], [1, 0, 0], [1, 0, 3]] \
        if tier == 'quick' else ok
    for s in itertools.product(small, repeat=3):
        yield [1, list(s)]


def check_seg(case):
    trunc, segs = case
    C = 3
    b = dense(2, 3, C, 'b', segs, trunc)
    rows = [rows_of('b', C, 3, s) for s in segs]
    lens = [len(r) for r in rows]
    expect(b.dim0() == len(segs), 'dim0')
    expect(b.duration.tolist() == lens, 'duration', b.duration.tolist(), lens)
    want = []
    for rr in rows:
        want += [[NEG] + r for r in rr] + [[0.0] + [NEG] * C]
    expect(b.scores.tolist() == want, 'scores', b.scores.tolist(), want)
    # the FSA view
    for r, rr in zip(read(k2.convert_dense_to_fsa_vec(b)), rows):
        w = weights(r, len(rr), eps=None)
        x = {()  : 0.0}
        for row in rr:
            x = {k + (l,): y + v for k, y in x.items()
                 for l, v in enumerate(row)}
        expect_weights(w, x, 'convert_dense_to_fsa_vec')
    refs = [POOL[(e * 3) % 5] for e in range(len(segs))]
    lats = [Lattice(r, x) for r, x in zip(refs, rows)]
    sl = [L.slacks(L.full()) for L in lats]
    st = seg_starts(lens)
    offs = arc_offsets(refs)
    sig = []
    for beam in (100.0, 1.7):
        o = run(build_vec(refs), b, pruned=(100.0, beam, 0, 1000))
        ks = kept(o, refs, lats, offs, st, C, True, 'pruned')
        for e, k in enumerate(ks):
            compare(k, {x for x, y in sl[e].items() if y <= beam}, 'pruned',
                    [e, refs[e]])
        sig.append([len(k) for k in ks])
        if lens == sorted(lens, reverse=True):
            o = run(build_vec(refs), b, output_beam=beam)
            ks = kept(o, refs, lats, offs, st, C, False, 'dense')
            for e, k in enumerate(ks):
                compare(k, {x for x, y in sl[e].items() if y < beam}, 'dense',
                        [e, refs[e]])
    # shared graph
    for g in (1, 4):
        r = POOL[g]
        ls = [Lattice(r, x) for x in rows]
        o = run(build_vec([r]), b, pruned=(100.0, 1.7, 0, 1000))
        ks = kept(o, [r] * len(rows), ls, [0] * len(rows), st, C, True,
                  'shared graph')
        for e, (k, L) in enumerate(zip(ks, ls)):
            compare(k, {x for x, y in L.slacks(L.full()).items()
                        if y <= 1.7}, 'shared graph', [e, r])
        sig.append([len(k) for k in ks])
    return sig


# ----------------------------------------------------------------- a_to_b_map
def map_cases(tier):
    k = 4 if tier == 'quick' else 5
    for nb in range(1, 4):
        for na in range(1, k):
            for m in itertools.combinations_with_replacement(range(nb), na):
                for lens in itertools.combinations_with_replacement(
                        (3, 2, 1, 0), nb):
                    yield [list(m), list(lens)]


def check_map(case):
    m, lens = case
    C, pat = 3, 'a'
    segs = [[j, 0, d] for j, d in enumerate(lens)]
    b = dense(len(lens), 3, C, pat, segs)
    st = seg_starts(lens)
    sig = []
    for shift in range(len(POOL)):
        refs = [POOL[(shift + 2 * e) % len(POOL)] for e in range(len(m))]
        lats = [Lattice(r, rows_of(pat, C, 3, segs[j]))
                for r, j in zip(refs, m)]
        a = build_vec(refs)
        o = run(a, b, output_beam=1.9,
                a_to_b_map=torch.tensor(m, dtype=torch.int32))
        ks = kept(o, refs, lats, arc_offsets(refs), [st[j] for j in m], C,
                  False, 'a_to_b_map')
        for e, (k, L) in enumerate(zip(ks, lats)):
            compare(k, {x for x, y in L.slacks(L.full()).items() if y < 1.9},
                    'a_to_b_map', [m, lens, e, refs[e]])
        sig.append([len(k) for k in ks])
    return sig


# ------------------------------------------------------ max_states / max_arcs
def max_cases(tier):
    for T in (2, 3, 5):
        for beam in (0.9, 3.3, 20.0):
            for ms in list(range(30, 130, 7 if tier == 'quick' else 1)):
                yield [T, beam, ms, 10000]
                yield [T, beam, 10000, 2 * ms]


def check_max(case):
    T, beam, ms, ma = case
    refs = [POOL[1], POOL[4], POOL[0], POOL[3]]
    lens = [T, T, T - 1, T - 1]
    segs = [[j, 0, d] for j, d in enumerate(lens)]
    b = dense(4, T, 3, 'a', segs)
    lats = [Lattice(r, rows_of('a', 3, T, s)) for r, s in zip(refs, segs)]
    sl = [L.slacks(L.full()) for L in lats]
    best = [{(t, r.arcs[i][0]) for (t, i), y in s.items() if y < 1e-3}
            for r, s in zip(refs, sl)]
    need = sum(len(x) + 1 for x in best if x)
    need_arcs = sum(sum(a[0] == st for a in r.arcs)
                    for r, x in zip(refs, best) for t, st in x)
    o = run(build_vec(refs), b, output_beam=beam, max_states=ms, max_arcs=ma)
    ks = kept(o, refs, lats, arc_offsets(refs), seg_starts(lens), 3, False,
              'max_states')
    # one common beam, not above the requested one
    hi = max([sl[e][x] for e in range(4) for x in ks[e]], default=0.0)
    lo = min([y for e in range(4) for x, y in sl[e].items()
              if x not in ks[e]], default=1e9)
    for e in range(4):
        expect(ks[e] <= set(sl[e]), 'not a path', e)
    expect(hi < lo or hi < lo + 1e-4, 'not a beam: kept slack', hi,
           'dropped slack', lo)
    expect(hi < beam, 'beam')
    ns = o.arcs.tot_size(1)
    na = o.num_arcs
    if need <= ms and need_arcs <= ma:
        expect(ns <= ms and na <= ma, 'limits not kept', ns, ms, na, ma)
        for e in range(4):
            expect(not sl[e] or ks[e], 'the best path was lost', e)
    states = sum(len({(t, refs[e].arcs[i][0]) for (t, i), y in sl[e].items()
                      if y < beam}) + 1 for e in range(4) if sl[e])
    # every arc leaving a kept state counts against max_arcs
    arcs = 0
    for e in range(4):
        for (t, s) in {(t, refs[e].arcs[i][0]) for (t, i), y in sl[e].items()
                       if y < beam}:
            arcs += sum(a[0] == s for a in refs[e].arcs)
    if states <= ms and arcs <= ma:
        expect(lo > beam, 'pruned more than the beam without need', lo, beam)
    return [ns, na, [len(k) for k in ks]]


# --------------------------------------------------------------- allow_partial
def partial_cases(tier):
    for u, sz in (('3x2', 16), ('4x1', 64)):
        for b, e in chunks(1 << len(uslots(u)), sz):
            yield [u, 'a', b, e]


def check_partial(case):
    refs, pat, C = graphs(case)
    allr = [r for r in refs for _ in TT]
    lens = [TT[(i * 3 + j) % 4] for i in range(len(refs)) for j in range(4)]
    segs = [[0, 3 - T if T else 0, T] for T in lens]
    b = dense(1, 3, C, pat, segs)
    lats = [Lattice(r, rows_of(pat, C, 3, s)) for r, s in zip(allr, segs)]
    o = run(build_vec(allr), b, pruned=(500.0, 1000.0, 0, 1000),
            allow_partial=True)
    ks = kept(o, allr, lats, arc_offsets(allr), seg_starts(lens), C, True,
              'allow_partial', partial=True)
    sig = []
    for e, (k, L) in enumerate(zip(ks, lats)):
        fwd, arcs = L.full()
        r = allr[e]
        # active states at the last frame without any outgoing arc cannot be
        # closed; ignore entries that have one
        act = set(fwd[L.T])
        final = {(L.T, i) for s, i, w in arcs[L.T]}
        if final:
            compare(k, set(L.slacks(L.full())), 'allow_partial with a final '
                    'state', [e, r, lens[e]])
        elif all(L.by.get(s) for s in act):
            # all last-frame states are final
            ok = set(act)
            want = {(L.T, ('end', s)) for s in act}
            for t in range(L.T - 1, -1, -1):
                nk = set()
                for s, i, w in arcs[t]:
                    if r.arcs[i][1] in ok:
                        want.add((t, i))
                        nk.add(s)
                ok = nk
            compare(k, want, 'allow_partial', [e, r, lens[e]])
        sig.append(len(k))
    return sig


# ------------------------------------------------------------------ gradients
def grad_cases(tier):
    for T in (1, 2, 3, 4):
        for pr in (0, 1):
            for beam in (50.0, 1.9):
                for rot in range(len(POOL)):
                    yield [T, pr, beam, rot]


def check_grad(case):
    T, pr, beam, rot = case
    refs = POOL[rot:] + POOL[:rot]
    refs = refs[:5]
    lens = [T, T, max(T - 1, 0), max(T - 1, 0), 0]
    C = 3
    lp = torch.tensor([[[cell('a', i, t, l) for l in range(C)]
                        for t in range(T)] for i in range(5)])
    lp.requires_grad_(True)
    b = k2.DenseFsaVec(lp, torch.tensor(
        [[i, 0, d] for i, d in enumerate(lens)], dtype=torch.int32))
    a = build_vec(refs)
    a.requires_grad_(True)
    if pr:
        o = run(a, b, pruned=(100.0, beam, 0, 1000))
    else:
        o = run(a, b, output_beam=beam)
    co = torch.arange(1, 1 + o.num_arcs, dtype=torch.float32)
    (o.scores * co)[o.scores > NEG].sum().backward()
    ga = [0.0] * a.num_arcs
    gb = torch.zeros(5, max(T, 1), C)
    ids, frs = o.idx.tolist(), o.fr.tolist()
    e_of = [e for e, v in enumerate(split_attr(o, ids)) for _ in v]
    for j, (i, t) in enumerate(zip(ids, frs)):
        ga[i - 1] += co[j].item()
        l = int(o.labels[j])
        if l >= 0:
            gb[e_of[j], t, l] += co[j].item()
    got = (a.scores.grad if a.scores.grad is not None
           else torch.zeros(a.num_arcs)).tolist()
    expect(got == ga, 'graph score gradient', got, ga)
    expect(lp.grad is not None and torch.equal(lp.grad, gb),
           'log-prob gradient', lp.grad, gb)
    return [ga, gb.sum().item()]


FAMILIES = [
    Family('unpruned_graphs', graph_cases, check_unpruned,
           'every graph of the 3-state universes over {eps,1} and {eps,1,2}, the 4-state universe over {1} and the '
           'acyclic one over {1,2}, with segments of 0..3 frames and three beams, many per batch through a_to_b_map: '
           'the exact set of (frame, arc) pairs'),
    Family('pruned_graphs', graph_cases, check_pruned,
           'the same graphs through the pruned variant with limits that exclude nothing, lengths in mixed order'),
    Family('limits', limit_cases, check_limits,
           'graph pool x frame patterns x lengths x the complete grid of search beam, output beam, min/max active: '
           'equality with the documented frame-synchronous search'),
    Family('windows', window_cases, check_window,
           'lengths around the intermediate pruning windows x limits x batch length differences'),
    Family('coaccessible_long', dead_cases, check_dead,
           'one lattice of more than 20 frames: every arc must be on a complete path'),
    Family('segments', seg_cases, check_seg,
           'all lists of 1..3 supervision segments (start, duration, overlap, truncation) over two utterances'),
    Family('a_to_b_map', map_cases, check_map,
           'all monotonic maps of up to 3 graphs to up to 3 segments of every non-increasing length list'),
    Family('max_states_arcs', max_cases, check_max,
           'all max_states / max_arcs in a range: one common smaller beam, best paths kept'),
    Family('allow_partial', partial_cases, check_partial,
           'all 3/4-state graphs with and without reachable final states'),
    Family('gradients', grad_cases, check_grad,
           'gradient of every result score w.r.t. graph scores and log-probs'),
]
ASSUMPTIONS = [
    'scores are dyadic so that float sums are exact; cases in which a score is within 1e-4 of a pruning cutoff are not compared',
    'labels of the graph are below the number of log-prob columns (documented; only checked in debug builds)',
    'with more than 20 frames the pruned result may keep arcs outside the output beam that an intermediate pruning window kept',
    'scores of the artificial final arcs made by allow_partial are not constrained',
]
