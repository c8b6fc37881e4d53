"""A11: streaming transducer beam search equals separate searches."""
import k2
from mc.core import Family, expect, step
from mc.lang import *  # noqa


class Ambiguous(Exception):
    """the limits cut between equally good hypotheses"""


# (history length, vocabulary, beam, max_states, max_contexts)
CFGS = [(1, 3, 100.0, 1000, 1000), (2, 3, 1.5003, 100, 100),
        (2, 4, 4.0003, 3, 100), (1, 3, 6.0003, 100, 1),
        (3, 3, 2.5003, 5, 2), (2, 3, 0.3003, 1, 1), (2, 5, 8.0003, 4, 3)]


def noise(*key):
    h = 2166136261
    for k in key:
        h = ((h ^ (k + 77)) * 16777619) & 0xffffffff
        h ^= h >> 13
    return (h * 2654435761 >> 7 & 1023) / 1024.0


def hashed(stream, t, ctx, l):
    return -3.0 * noise(stream, t, ctx, l) - noise(l, ctx, t, stream)


class Search:
    """one stream, a frame at a time"""

    def __init__(self, r, cfg, lp):
        self.r, self.cfg, self.lp = r, cfg, lp
        self.by = {}
        for i, a in enumerate(r.arcs):
            self.by.setdefault(a[0], []).append(i)
        self.states = {(0, 0): 0.0}
        self.frames = []

    def contexts(self):
        return sorted({c for c, g in self.states})

    def row(self, c, t=None):
        t = len(self.frames) if t is None else t
        return [self.lp(t, c, l) for l in range(self.cfg[1])]

    def advance(self):
        H, V, beam, ms, mc = self.cfg
        best = max(self.states.values(), default=NEG)
        arcs = []
        for (c, g), x in sorted(self.states.items()):
            if g == self.r.n - 1:
                continue
            row = self.row(c)
            arcs.append(((c, g), -1, (c, g), row[0], 0, x + row[0]))
            for i in self.by.get(g, ()):
                s, d, l, w = self.r.arcs[i]
                keep = x + w + (row[l] if l != -1 else 0.0)
                if l != 0 and keep < best - beam:
                    continue
                nc = c if l in (0, -1) else c % V ** (H - 1) * V + l
                lw = w + row[0 if l == -1 else l]
                arcs.append(((c, g), i, (nc, d), lw, l, x + lw))
        dst = {}
        for a in arcs:
            dst[a[2]] = max(dst.get(a[2], NEG), a[5])
        dst = self.top(dst, beam, ms)
        cx = {}
        for (c, g), x in dst.items():
            cx[c] = max(cx.get(c, NEG), x)
        cx = self.top(cx, beam, mc)
        self.states = {k: x for k, x in dst.items() if k[0] in cx}
        self.frames.append([a for a in arcs if a[2] in self.states])

    @staticmethod
    def top(d, beam, limit):
        best = max(d.values(), default=NEG)
        o = sorted(d.values(), reverse=True)
        if 0 < limit < len(o) and o[limit - 1] == o[limit]:
            raise Ambiguous()
        cut = o[limit - 1] if 0 < limit < len(o) else NEG
        return {k: x for k, x in d.items() if x >= best - beam and x >= cut}

    def lattice(self, T, partial):
        """useful part: {(t, state): {arc key: (dst, score, label)}},
        {last state: number of final arcs or None}"""
        last = [a for a in self.frames[T - 1] if a[4] == -1]
        fin = {}
        if last:
            for a in last:
                fin[a[0]] = fin.get(a[0], 0) + 1
        elif partial:
            fin = {a[0]: None for a in self.frames[T - 1]}
        live = {(T - 1, s) for s in fin}
        out = {}
        for t in range(T - 2, -1, -1):
            for s, i, d, w, l, _ in self.frames[t]:
                if (t + 1, d) in live:
                    live.add((t, s))
                    out.setdefault((t, s), {})[i] = ((t + 1, d), w, max(l, 0))
        # everything reachable from the start by construction
        return out, fin


def compare(o, refs, searches, Ts, partial, cols, ctx):
    """o: lattice FsaVec with attribute idx"""
    lat = read(o)
    expect(len(lat) == len(searches), 'number of lattices', ctx)
    idx = split_attr(o, get_idx(o))
    cols = {n: split_attr(o, v) for n, v in cols.items()}
    sig = []
    for k, (r, se, T) in enumerate(zip(lat, searches, Ts)):
        want, fin = se.lattice(T, partial)
        if r.n > 1:
            m = validate(r)
            expect(m is None, 'malformed lattice:', m, r, ctx)
        for (s, d, l, w) in r.arcs:
            expect(s < d, 'lattice is not in topological order', r, ctx)
        use = useful(r)
        start = (0, (0, 0))
        if start not in want and not (T == 1 and fin):
            expect(not all_paths(r), 'stream', k, 'must have no path', r, ctx)
            sig.append(0)
            continue
        pair = {0: start}
        todo = [0]
        while todo:
            s = todo.pop()
            t, q = pair[s]
            got, nf = {}, 0
            for j, a in enumerate(r.arcs):
                if a[0] != s or a[1] not in use:
                    continue
                if a[2] == -1:
                    nf += 1
                    expect(a[3] == 0 and idx[k][j] == -1, 'final arc', a, ctx)
                    continue
                expect(idx[k][j] not in got, 'duplicate arc', a, ctx)
                got[idx[k][j]] = (j, a)
            wf = fin.get(q, 0) if t == T - 1 else 0
            expect(nf == wf or (wf is None and nf > 0), 'stream', k, 'state',
                   t, q, 'has', nf, 'final arcs, expected', wf, ctx, refs[k])
            wa = want.get((t, q), {}) if t < T - 1 else {}
            expect(set(got) == set(wa), 'stream', k, 'frame', t, 'state', q,
                   'has arcs', sorted(got), 'expected', sorted(wa), ctx,
                   refs[k])
            for i, (j, a) in got.items():
                d, w, l = wa[i]
                expect(close_to(a[3], w, 1e-5) and a[2] == l, 'stream', k,
                       'frame', t, 'arc', i, 'is', a, 'expected', l, w, ctx)
                if a[1] in pair:
                    expect(pair[a[1]] == d, 'states merged', ctx)
                else:
                    pair[a[1]] = d
                    todo.append(a[1])
        expect(len(set(pair.values())) == len(pair), 'state split', ctx)
        for n, spec in SPEC.items():
            if n not in cols:
                continue
            src = se.attrs.get(n)
            for j, i in enumerate(idx[k]):
                if src is None:
                    w = spec[0] if spec[0] is not None else []
                elif i < 0:
                    w = spec[0] if spec[0] is not None else []
                else:
                    w = src[i]
                expect(cols[n][k][j] == w, 'stream', k, 'attribute', n,
                       'of arc', j, '(source', i, ') is', cols[n][k][j],
                       'expected', w, ctx)
        sig.append(len(pair))
    return sig


# attribute -> (filler, value of arc i); filler None means ragged
SPEC = {'fl': (-7.0, lambda i: 0.5 + i), 'iz': (3, lambda i: 10 + i),
        'rg': (None, lambda i: [i + 1] * (i % 3)),
        'zz': (0, lambda i: 20 + i)}
HAS = [('fl', 'rg', 'zz'), ('iz', 'zz'), ('rg', 'fl'), ()]


def graph_of(r, which):
    f = build(r)
    f.idx = torch.arange(1, 1 + f.num_arcs, dtype=torch.int32)
    at = {}
    for n in HAS[which % len(HAS)]:
        fil, fn = SPEC[n]
        v = [fn(i) for i in range(len(r.arcs))]
        if fil is None:
            if not v:
                continue
            setattr(f, n, k2.RaggedTensor(v, dtype=torch.int32))
        else:
            setattr(f, n, torch.tensor(
                v, dtype=torch.float32 if n == 'fl' else torch.int32))
            if fil:
                setattr(f, n + '_filler', fil)
        at[n] = v
    f.tag = f'graph{which % 2}'
    return f, at


class World:
    """streams on the real code next to their models"""

    def __init__(self, refs, cfg, lp=hashed, attrs=True):
        self.refs, self.cfg = refs, cfg
        self.conf = k2.RnntDecodingConfig(cfg[1], cfg[0], cfg[2], cfg[3],
                                          cfg[4])
        self.se, self.st = [], []
        for k, r in enumerate(refs):
            g, at = graph_of(r, k if attrs else 3)
            self.st.append(k2.RnntDecodingStream(g))
            s = Search(r, cfg, lambda t, c, l, k=k: lp(k, t, c, l))
            s.attrs = at
            self.se.append(s)
        self.rows, self.shapes = [], []

    def group(self, ids):
        return k2.RnntDecodingStreams([self.st[i] for i in ids], self.conf)

    def frame(self, obj, ids, ctx):
        H, V = self.cfg[:2]
        shape, cx = obj.get_contexts()
        want = [self.se[i].contexts() for i in ids]
        digits = [[c // V ** (H - 1 - j) % V for j in range(H)]
                  for w in want for c in w]
        rs = [0]
        for w in want:
            rs.append(rs[-1] + len(w))
        expect(shape.row_splits(1).tolist() == rs
               and cx.reshape(-1, H).tolist() == digits,
               'contexts', shape.row_splits(1).tolist(), cx.tolist(),
               'expected', rs, digits, ctx, [self.refs[i] for i in ids],
               self.cfg)
        expect(cx.dtype == torch.int32, 'dtype of contexts')
        m = [self.se[i].row(c) for i, w in zip(ids, want) for c in w]
        t = torch.tensor(m, dtype=torch.float32).reshape(len(m), V)
        self.rows.append(t)
        self.shapes.append(rs)
        step()
        obj.advance(t)
        for i in ids:
            self.se[i].advance()

    def output(self, obj, ids, Ts, partial, ctx, names=True, **kw):
        step()
        o = obj.format_output(list(Ts), allow_partial=partial, **kw)
        cols = {}
        if names:
            on = {n for i in ids for n in self.se[i].attrs}
            for n in SPEC:
                expect(hasattr(o, n) == (n in on), 'attribute', n, ctx)
                if n in on:
                    cols[n] = getattr(o, n).tolist()
            tag = [f'graph{i % 2}' for i in ids]
            expect(o.tag in tag, 'non-tensor attribute', o.tag, tag)
        return compare(o, [self.refs[i] for i in ids],
                       [self.se[i] for i in ids], Ts, partial, cols, ctx), o


def one(r, cfg, T, lp=hashed, ctx=None, partials=(False, True)):
    w = World([r], cfg, lp)
    g = w.group([0])
    try:
        for _ in range(T):
            w.frame(g, [0], ctx)
    except Ambiguous:
        return None
    g.terminate_and_flush_to_streams()
    return [w.output(g, [0], [t], p, ctx)[0]
            for t in (T, max(1, T - 1)) for p in partials]


# ------------------------------------------------------------ every graph
POOLG = [
    Ref(2, [(0, 0, 1, 0.), (0, 0, 2, 0.), (0, 1, -1, 0.)]),
    Ref(3, [(0, 1, 1, -.5), (1, 1, 2, .25), (0, 2, -1, 0.), (1, 2, -1, -1.)]),
    Ref(4, [(0, 1, 1, 0.), (0, 2, 2, -.25), (1, 2, 2, 0.), (2, 1, 1, .5),
            (0, 2, 0, -.125), (1, 3, -1, .25), (2, 3, -1, -.5)]),
    Ref(4, [(0, 1, 1, 0.), (1, 2, 1, 0.), (2, 3, -1, 0.)]),
    Ref(3, [(0, 1, 1, 0.), (0, 1, 1, -.25), (1, 0, 2, 0.), (1, 0, 0, 0.5),
            (1, 2, -1, 0.)]),
    Ref(3, [(0, 1, 2, 0.), (1, 1, 1, 0.)]),
    Ref(2, [(0, 1, -1, 3.0)]),
    Ref(2, [(0, 1, -1, 9.0), (0, 1, -1, -.5), (0, 0, 1, 0.)]),
]
UNI = {'3x2': (3, [1, 2]), '3x1e': (3, [0, 1]), '4x1': (4, [1]),
       '3x3': (3, [0, 1, 2])}


def score_of(i, s, d, l):
    return [0.0, -0.25, 0.5, -1.0, 0.125][(i * 2 + s + d) % 5]


def uslots(u):
    n, labs = UNI[u]
    return slots(n, labs)


def graph_cases(tier):
    for u, sz in ([('3x2', 16), ('3x1e', 16)] + (
            [] if tier == 'quick' else [('4x1', 32), ('3x3', 64)])):
        for b, e in chunks(1 << len(uslots(u)), sz):
            yield [u, b, e]


def check_graph(case):
    u, b, e = case
    sig = []
    for x in range(b, e):
        r = from_bits(UNI[u][0], uslots(u), x, score_of)
        for k in (x % len(CFGS), (x // 7) % len(CFGS)):
            sig.append(one(r, CFGS[k], 3 + x % 2, ctx=[u, x, k]))
    return sig


def cfg_cases(tier):
    H = (1, 2, 3)
    for g in range(len(POOLG)):
        for h in H:
            for V in (3, 4):
                for beam in (0.3003, 1.5003, 4.0003, 100.0):
                    yield [g, h, V, beam]


def check_cfg(case):
    g, h, V, beam = case
    sig = []
    for ms in (0, 1, 2, 3, 5, 100):
        for mc in (0, 1, 2, 3, 100):
            sig.append(one(POOLG[g], (h, V, beam, ms, mc), 4, ctx=case))
    return sig


# ------------------------------------------------------- every score pattern
def pat_cases(tier):
    T = 3
    n = 2 ** (T * 3) if tier == 'quick' else 3 ** (T * 3)
    for g in range(len(POOLG) - 3 if tier == 'quick' else len(POOLG)):
        for b, e in chunks(n, 64 if tier == 'quick' else 256):
            yield [g, b, e, 2 if tier == 'quick' else 3]


def check_pat(case):
    g, b, e, lev = case
    sig = []
    for x in range(b, e):
        d = [x // lev ** i % lev for i in range(9)]

        def lp(k, t, c, l):
            return [-0.25, -2.0, -5.0][d[t * 3 + l]] - noise(t, c, l) / 64 \
                if t < 3 and l < 3 else -1.0
        for k in ((x + g) % 3, 3 + (x // 3 + g) % 4):
            cfg = CFGS[k]
            sig.append(one(POOLG[g], (cfg[0], 3) + cfg[2:], 3, lp,
                           ctx=[g, x, k], partials=(x % 2 == 1,)))
    return sig


# ------------------------------------------------- batching histories
def groupings(n):
    """all ways to put a non-empty subset of n streams into groups"""
    def rec(i, groups):
        if i == n:
            if groups:
                yield [list(g) for g in groups]
            return
        yield from rec(i + 1, groups)
        for k in range(len(groups)):
            groups[k].append(i)
            yield from rec(i + 1, groups)
            groups[k].pop()
        groups.append([i])
        yield from rec(i + 1, groups)
        groups.pop()
    return list(rec(0, []))


def plans(n, T):
    return itertools.product(range(len(groupings(n))), repeat=T)


def hist_cases(tier):
    for n, T in ([(2, 3), (3, 2)] if tier == 'quick'
                 else [(2, 5), (3, 3), (4, 2)]):
        for i, p in enumerate(plans(n, T)):
            yield [n, list(p), i]
    if tier == 'quick':
        for i, p in enumerate(plans(3, 3)):
            if i % 5 == 0:
                yield [3, list(p), i]


def check_hist(case):
    n, plan, x = case
    gs = groupings(n)
    sig = []
    for rep in range(2):
        cfg = CFGS[(x + rep) % len(CFGS)]
        refs = [POOLG[(x // 3 + rep * 2 + 3 * k) % len(POOLG)]
                for k in range(n)]
        w = World(refs, cfg)
        objs, prev = {}, None
        try:
            for f, c in enumerate(plan):
                groups = [g if (x + f) % 2 else g[::-1] for g in gs[c]]
                key = [tuple(sorted(g)) for g in groups]
                # keep the objects of the previous frame when the grouping
                # allows it and rep says so
                nobj = {}
                for g, k in zip(groups, key):
                    if k in objs and rep:
                        nobj[k] = objs.pop(k)
                for k, (o, ids) in objs.items():
                    o.terminate_and_flush_to_streams()
                    sig.append(w.output(
                        o, ids, [len(w.se[i].frames) for i in ids],
                        bool((x + f) % 3), case)[0])
                for g, k in zip(groups, key):
                    if k not in nobj:
                        nobj[k] = (w.group(g), g)
                    o, ids = nobj[k]
                    w.frame(o, ids, case)
                objs = nobj
            for k, (o, ids) in objs.items():
                o.terminate_and_flush_to_streams()
                for p in (False, True):
                    sig.append(w.output(
                        o, ids, [len(w.se[i].frames) for i in ids], p,
                        case)[0])
        except Ambiguous:
            sig.append(None)
    return sig


# -------------------------------------------- lattices of every prefix length
def len_cases(tier):
    T = 3 if tier == 'quick' else 5
    for c in range(len(CFGS)):
        for n in (1, 2, 3):
            for Ts in itertools.product(range(1, T + 1), repeat=n):
                for p in (0, 1):
                    yield [c, list(Ts), T, p]


def check_len(case):
    c, Ts, T, p = case
    sig = []
    for off in range(0, len(POOLG), 2):
        refs = [POOLG[(off + 3 * k + c) % len(POOLG)] for k in range(len(Ts))]
        w = World(refs, CFGS[c])
        ids = list(range(len(Ts)))
        g = w.group(ids)
        try:
            for _ in range(T):
                w.frame(g, ids, case)
        except Ambiguous:
            continue
        g.terminate_and_flush_to_streams()
        sig.append(w.output(g, ids, Ts, bool(p), case)[0])
        # asking again gives the same
        sig.append(w.output(g, ids, Ts, bool(p), case)[0])
        sig.append(w.output(g, ids, [T] * len(Ts), not p, case)[0])
    return sig


# ---------------------------------------------------------- differentiability
def grad_cases(tier):
    T = 3 if tier == 'quick' else 4
    for c in range(len(CFGS)):
        for n in (1, 2, 3):
            for off in range(len(POOLG)):
                for Ts in itertools.product(range(1, T + 1), repeat=n):
                    if tier == 'quick' and (sum(Ts) + off) % 4:
                        continue
                    yield [c, off, list(Ts), T]


def check_grad(case):
    c, off, Ts, T = case
    refs = [POOLG[(off + 3 * k) % len(POOLG)] for k in range(len(Ts))]
    w = World(refs, CFGS[c])
    V = CFGS[c][1]
    ids = list(range(len(Ts)))
    g = w.group(ids)
    cxs = []
    try:
        for _ in range(T):
            cxs.append([se.contexts() for se in w.se])
            w.frame(g, ids, case)
    except Ambiguous:
        return None
    g.terminate_and_flush_to_streams()
    n = len(ids)
    t2s = torch.tensor([n * t for t in range(T + 1)], dtype=torch.int32)
    s2c, base = [0], 0
    for rs in w.shapes:
        s2c += [base + x for x in rs[1:]]
        base += rs[-1]
    shape = k2.ragged.create_ragged_shape2(row_splits=t2s).compose(
        k2.ragged.create_ragged_shape2(
            row_splits=torch.tensor(s2c, dtype=torch.int32)))
    lp = torch.cat(w.rows).requires_grad_()
    p = (off + c) % 2 == 1
    sig, o = w.output(g, ids, Ts, p, case, log_probs=lp, t2s2c_shape=shape)
    # every non-final arc on a path gets its own log-probability's gradient
    lat = read(o)
    idx = split_attr(o, get_idx(o))
    want = {}
    mask = []
    base = arc_offsets(lat)
    for k, r in enumerate(lat):
        lay, todo = {0: (0, (0, 0))}, [0]
        use = useful(r)
        lattice, fin = w.se[k].lattice(Ts[k], p)
        by = {}
        for j, a in enumerate(r.arcs):
            by.setdefault(a[0], []).append(j)
        while todo and 0 in use:
            s = todo.pop()
            t, q = lay[s]
            for j in by.get(s, ()):
                a = r.arcs[j]
                if a[1] not in use or a[2] == -1:
                    continue
                row = sum(len(x) for f in range(t) for x in cxs[f]) \
                    + sum(len(x) for x in cxs[t][:k]) \
                    + cxs[t][k].index(q[0])
                wt = 1.0 + (base[k] + j) % 5
                mask.append((base[k] + j, wt))
                want[(row, a[2])] = want.get((row, a[2]), 0.0) + wt
                if a[1] not in lay:
                    lay[a[1]] = lattice[(t, q)][idx[k][j]][0]
                    todo.append(a[1])
    if not mask:
        return sig
    expect(o.scores.requires_grad, 'lattice scores carry no gradient', case)
    wv = torch.zeros(o.num_arcs)
    for j, x in mask:
        wv[j] = x
    step()
    (o.scores * wv).sum().backward()
    for i, row in enumerate(lp.grad.tolist()):
        for l, x in enumerate(row):
            expect(close_to(x, want.get((i, l), 0.0)), 'gradient of row', i,
                   'label', l, 'is', x, 'expected', want.get((i, l), 0.0),
                   case)
    return sig


FAMILIES = [
    Family('graphs', graph_cases, check_graph,
           'every automaton of the stated universes, two configurations each'),
    Family('limits', cfg_cases, check_cfg,
           'pool of graphs x history lengths x vocabularies x beams x '
           'max_states x max_contexts'),
    Family('patterns', pat_cases, check_pat,
           'every assignment of score levels to (frame, label) for 3 frames'),
    Family('histories', hist_cases, check_hist,
           'every way to batch 2-4 streams frame by frame (streams join, '
           'pause, leave, change company), output checked at every flush'),
    Family('lengths', len_cases, check_len,
           'every vector of requested prefix lengths for up to 3 streams'),
    Family('gradients', grad_cases, check_grad,
           'gradients of every lattice arc score w.r.t. the log-probabilities'
           ' for every prefix length vector'),
]
ASSUMPTIONS = [
    'the final arcs of a lattice carry score 0; under allow_partial their '
    'multiplicity is not constrained',
    'limits that would cut between two hypotheses of exactly equal score are '
    'skipped', 'graph labels are smaller than the vocabulary size',
]
