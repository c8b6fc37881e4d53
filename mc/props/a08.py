"""A08: streaming decoding in chunks equals decoding in one go."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.props.a07 import Lattice, POOL, rows_of, Ambiguous, f32, kept
import k2

C = 3
LIMS = [(1000.0, 1000.0, 0, 1000), (2.6, 60.0, 0, 100), (1.3, 60.0, 1, 3),
        (0.55, 60.0, 0, 2), (2.6, 1.7, 0, 100), (6.1, 0.8, 1, 4)]
DEAD = [
    Ref(4, [(0, 1, 1, 0.), (1, 2, 2, 0.), (2, 3, -1, 0.)]),
    Ref(5, [(0, 1, 1, 0.), (0, 2, 2, -.25), (1, 2, 0, .5), (2, 3, 1, 0.),
            (3, 4, -1, -.5), (1, 4, -1, 0.)]),
]
GRAPHS = [g for g in POOL if g.n > 0] + DEAD


def rows(stream, T):
    return rows_of(['a', 'b', 'a', 'inf', 'flat'][stream], C, T,
                   [stream % 2, 0, T])


class Sim(Lattice):
    """frame-synchronous search without any knowledge of the end"""

    def prefix(self, sb, mn, mx):
        fwd, arcs, dyn = [{0: 0.0}], [], f32(sb)
        for t in range(self.T):
            al = []
            for s, x in fwd[-1].items():
                for i in self.by.get(s, ()):
                    w = self.sc(t, i) + self.r.arcs[i][3]
                    al.append((s, i, w, x + w))
            best = max([a[3] for a in al], default=NEG)
            act = len(fwd[-1])
            if act <= mx:
                if act >= mn or act == 0:
                    dyn = f32(0.8 * dyn + 0.2 * f32(sb))
                else:
                    dyn = f32(1.25 * max(dyn, f32(sb)))
            else:
                dyn = f32(0.8 * min(dyn, f32(sb)))
            cut = best - dyn
            nx = {}
            for s, i, w, e in al:
                if e != NEG and abs(e - cut) < 1e-4:
                    raise Ambiguous()
                if e > cut:
                    nx[self.r.arcs[i][1]] = NEG
            out = []
            for s, i, w, e in al:
                d = self.r.arcs[i][1]
                if d in nx and e != NEG:
                    nx[d] = max(nx[d], e)
                    out.append((s, i, w))
            arcs.append(out)
            fwd.append(nx)
        return fwd, arcs

    def expected(self, lim, partial):
        """(must, may): sets of (frame, arc) of complete paths"""
        sb, ob, mn, mx = lim
        fwd, arcs = self.prefix(sb, mn, mx)
        f = self.r.n - 1
        last = fwd[self.T]
        fin = [(s, i, self.r.arcs[i][3]) for s in last
               for i in self.by.get(s, ()) if self.r.arcs[i][2] == -1]
        if fin or not partial:
            x = fwd + [{}]
            for s, i, w in fin:
                x[-1][f] = max(x[-1].get(f, NEG), last[s] + w)
            sl = self.slacks((x, arcs + [fin]))
            return {k for k, y in sl.items() if y <= ob}, set(sl)
        must, may = set(), set()
        for s in last:
            if not self.by.get(s):
                continue
            may.add((self.T, ('end', s)))
            must.add((self.T, ('end', s)))
            bwd = {s: 0.0}
            for t in range(self.T - 1, -1, -1):
                nb = {}
                for q, i, w in arcs[t]:
                    d = self.r.arcs[i][1]
                    if d in bwd:
                        x = w + bwd[d]
                        nb[q] = max(nb.get(q, NEG), x)
                        may.add((t, i))
                        if last[s] - (fwd[t][q] + x) <= ob:
                            must.add((t, i))
                bwd = nb
        return must, may


class Decoder:
    """streams of one graph, decoded by intersecters of every batch size"""

    def __init__(self, r, lim, partial):
        self.r, self.lim, self.partial = r, lim, partial
        self.a = build_vec([r])
        self.a.idx = torch.arange(1, 1 + self.a.num_arcs, dtype=torch.int32)
        self.oi = {}

    def call(self, entries):
        """entries: list of (rows of the chunk, state or None)"""
        n = len(entries)
        if n not in self.oi:
            sb, ob, mn, mx = self.lim
            self.oi[n] = k2.OnlineDenseIntersecter(
                self.a, n, sb, ob, mn, mx, allow_partial=self.partial)
        mxl = max(len(e[0]) for e in entries)
        m = torch.tensor([[list(x) for x in e[0]]
                          + [[0.0] * C] * (mxl - len(e[0]))
                          for e in entries], dtype=torch.float32)
        b = k2.DenseFsaVec(m, torch.tensor(
            [[k, 0, len(e[0])] for k, e in enumerate(entries)],
            dtype=torch.int32))
        step()
        o, ns = self.oi[n].decode(b, [e[1] for e in entries])
        expect(o.shape[0] == n and len(ns) == n, 'number of entries')
        o = annotate(o)
        return o, ns


def annotate(o):
    """adds the frame attribute that kept() expects (one frame per arc)"""
    fr = []
    for r in read(o):
        dep = {0: 0}
        for (s, d, l, w) in r.arcs:
            fr.append(dep.get(s, -1))
            dep.setdefault(d, dep.get(s, -1) + 1)
    o.fr = torch.tensor(fr, dtype=torch.int32)
    o.sf = torch.tensor(fr, dtype=torch.int32)
    return o


def verify(o, entries, dec, ctx):
    """entries: list of rows decoded so far, in batch order"""
    lats = [Sim(dec.r, x) for x in entries]
    n = len(lats)
    ks = kept(o, [dec.r] * n, lats, [0] * n, [0] * n, C, True, 'online',
              partial=dec.partial, dead=True)
    sig = []
    for e, (k, L) in enumerate(zip(ks, lats)):
        try:
            must, may = L.expected(dec.lim, dec.partial)
        except Ambiguous:
            sig.append(None)
            continue
        expect(must <= k, 'lost arcs', sorted(must - k, key=str)[:5],
               'entry', e, 'frames', L.T, ctx, dec.r, dec.lim)
        expect(k <= may, 'excess arcs', sorted(k - may, key=str)[:5],
               'entry', e, 'frames', L.T, ctx, dec.r, dec.lim)
        sig.append(sorted(k, key=str))
    return sig


def run_plan(dec, seqs, plan, ctx, check_all=True):
    st, pos = [None] * len(seqs), [0] * len(seqs)
    sig = []
    for c, call in enumerate(plan):
        o, ns = dec.call([(seqs[s][pos[s]:pos[s] + n], st[s])
                          for s, n in call])
        for k, (s, n) in enumerate(call):
            st[s] = ns[k]
            pos[s] += n
        if check_all or c + 1 == len(plan):
            sig.append(verify(o, [seqs[s][:pos[s]] for s, n in call], dec,
                              ctx))
    return sig


# -------------------------------------------------------------- one stream
def compositions_of(T):
    for bits in range(1 << (T - 1)):
        out, cur = [], 1
        for i in range(T - 1):
            if bits >> i & 1:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def chunk_cases(tier):
    for T in range(1, 7 if tier == 'quick' else 10):
        for comp in compositions_of(T):
            for g in range(len(GRAPHS)):
                yield [g, comp]


def check_chunk(case):
    g, comp = case
    sig = []
    for lim in LIMS:
        for partial in (False, True):
            dec = Decoder(GRAPHS[g], lim, partial)
            for s in (0, 1, 3):
                seq = rows(s, sum(comp))
                sig.append(run_plan(dec, [seq], [[(0, n)] for n in comp],
                                    case))
    return sig


def graph_cases(tier):
    from mc.props.a07 import uslots
    for u, sz in (('3x2', 16), ('4x1', 32)):
        n = 1 << len(uslots(u))
        for b, e in chunks(n, sz):
            yield [u, b, e]


def check_graph(case):
    from mc.props.a07 import uslots, UNI, gscore
    u, b, e = case
    sig = []
    for x in range(b, e):
        r = from_bits(UNI[u][0], uslots(u), x, gscore)
        for partial in (False, True):
            dec = Decoder(r, LIMS[x % len(LIMS)], partial)
            for comp in compositions_of(3):
                sig.append(run_plan(dec, [rows(x % 2, 3)],
                                    [[(0, n)] for n in comp], case))
    return sig


# ------------------------------------------------------------- interleavings
def schedules(lens, sizes, maxcalls):
    """all sequences of calls; a call is an ordered list of (stream, frames)
    with one common chunk size"""
    n = len(lens)

    def rec(pos, plan):
        if all(p == l for p, l in zip(pos, lens)):
            yield list(plan)
            return
        if len(plan) == maxcalls:
            return
        for c in sizes:
            ok = [s for s in range(n) if pos[s] + c <= lens[s]]
            for k in range(1, len(ok) + 1):
                for sub in itertools.combinations(ok, k):
                    # order within the call alternates with the depth
                    sub = sub if len(plan) % 2 == 0 else sub[::-1]
                    np_ = list(pos)
                    for s in sub:
                        np_[s] += c
                    yield from rec(np_, plan + [[[s, c] for s in sub]])
    yield from rec([0] * n, [])


def inter_cases(tier):
    plans = [((3, 3), (1, 2), 6), ((2, 2, 2), (1, 2), 4 if tier == 'quick'
                                   else 6), ((2, 4), (1, 2, 3), 5)]
    if tier != 'quick':
        plans.append(((4, 4), (1, 2), 8))
        plans.append(((3, 3, 2), (1, 2), 5))
    for lens, sizes, mc in plans:
        for i, p in enumerate(schedules(lens, sizes, mc)):
            yield [list(lens), p, i]


def check_inter(case):
    lens, plan, i = case
    seqs = [rows(s, l) for s, l in enumerate(lens)]
    sig = []
    for d in range(2):
        g = (i * 2 + d) % len(GRAPHS)
        lim = LIMS[(i + 3 * d) % len(LIMS)]
        dec = Decoder(GRAPHS[g], lim, (i + d) % 2 == 1)
        sig.append(run_plan(dec, seqs, plan, case))
    return sig


# -------------------------------------------- a stream ends in a short chunk
def short_cases(tier):
    for c1 in (1, 2, 3):
        for last in itertools.product(range(1, 4), repeat=2):
            for g in range(len(GRAPHS)):
                yield [c1, list(last), g]


def check_short(case):
    c1, last, g = case
    sig = []
    for lim in LIMS:
        for partial in (False, True):
            dec = Decoder(GRAPHS[g], lim, partial)
            seqs = [rows(0, c1 + last[0]), rows(1, c1 + last[1])]
            sig.append(run_plan(dec, seqs, [
                [(0, c1), (1, c1)], [(0, last[0]), (1, last[1])]], case))
            # an entirely new stream next to an old one
            sig.append(run_plan(dec, [rows(0, c1 + last[0]),
                                      rows(1, last[1])], [
                [(0, c1)], [(1, last[1]), (0, last[0])]], case))
    return sig


# ----------------------------------------------------- resuming a saved state
def fork_cases(tier):
    for c1 in (1, 2, 3):
        for c2 in (1, 2):
            for g in range(len(GRAPHS)):
                yield [c1, c2, g]


def check_fork(case):
    """a state may be used again: going on from it with other frames gives
    what the first use gave / would have given"""
    c1, c2, g = case
    sig = []
    for lim in LIMS:
        dec = Decoder(GRAPHS[g], lim, False)
        A, B = rows(0, c1 + 2 * c2), rows(1, c1 + c2)
        _, (st,) = dec.call([(A[:c1], None)])
        for cont in (A[c1:c1 + c2], B[c1:], A[c1:c1 + c2]):
            o, (n2,) = dec.call([(cont, st)])
            sig.append(verify(o, [A[:c1] + cont], dec, case))
        o, _ = dec.call([(A[c1 + c2:], n2)])
        sig.append(verify(o, [A], dec, case))
    return sig


# ------------------------------------------------------------------ long runs
def long_cases(tier):
    for T in ((45, 64) if tier == 'quick' else range(30, 90, 3)):
        for c in (1, 4, 7, 16, 20, 31):
            for g in range(len(GRAPHS)):
                yield [T, c, g]


def check_long(case):
    T, c, g = case
    sig = []
    for lim in LIMS:
        dec = Decoder(GRAPHS[g], lim, False)
        seqs = [rows(0, T), rows(1, T)]
        plan = []
        for b, e in chunks(T, c):
            plan.append([(0, e - b), (1, e - b)])
        sig.append([len(x) if x else x for y in
                    run_plan(dec, seqs, plan, case, check_all=False)
                    for x in y])
    return sig


FAMILIES = [
    Family('chunkings', chunk_cases, check_chunk,
           'all compositions of 1..6 frames into chunks x graph pool x limits x allow_partial: the lattice after every '
           'chunk equals the frame-synchronous search of the frames so far'),
    Family('graphs', graph_cases, check_graph,
           'every graph of the 3-state universe over {eps,1} and the 4-state one over {1}, all chunkings of 3 frames'),
    Family('interleavings', inter_cases, check_inter,
           'all schedules of calls over 2 and 3 streams with every subset of streams present'),
    Family('short_last_chunk', short_cases, check_short,
           'streams that end inside a longer chunk and streams that start next to older ones'),
    Family('resume', fork_cases, check_fork,
           'every saved state is continued several times with different frames'),
    Family('long', long_cases, check_long,
           'two streams of 45 and 64 frames in chunks of 1..31 frames'),
]
ASSUMPTIONS = [
    'a stream that gets fewer frames in a call than the longest one of that call has ended (its state is not used again)',
    'lattices may contain dead-end arcs (the online lattice is not trimmed); only complete paths are compared',
    'scores of the artificial final arcs made by allow_partial are not constrained',
]
