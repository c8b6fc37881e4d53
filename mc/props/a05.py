"""A05: total/forward/backward scores, posteriors, best and sampled paths."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2

INF = float('inf')
SCHEMES = {
    'mixed': lambda i, s, d, l: SCORES[i % 20],
    'ties': lambda i, s, d, l: [0.0, -1.0][i % 2 if d > s + 1 else 0],
    'zero': lambda i, s, d, l: 0.0,
    'neginf': lambda i, s, d, l: NEG if i % 3 == 1 else SCORES[i % 20],
    'neginf2': lambda i, s, d, l: NEG if i % 4 in (0, 3) else SCORES[i % 20],
    'large': lambda i, s, d, l: [3e4, -3e4, 1e4, -200.0, 2e4, 90.0, -90.0][
        i % 7],
}
EDGES4 = [(0, 1, 1), (0, 1, 2), (0, 2, 1), (0, 2, 2), (1, 2, 1), (1, 2, 2),
          (0, 3, -1), (0, 3, -1), (1, 3, -1), (2, 3, -1), (2, 3, -1)]
EDGES5 = [(0, 1, 1), (0, 2, 1), (0, 3, 1), (1, 2, 1), (1, 3, 1), (2, 3, 1),
          (0, 4, -1), (1, 4, -1), (2, 4, -1), (3, 4, -1), (0, 1, 2),
          (2, 3, 2)]
EDGES6 = [(0, 1, 1), (0, 2, 1), (0, 3, 1), (1, 2, 1), (1, 4, 1), (2, 3, 1),
          (2, 4, 1), (3, 4, 1), (1, 5, -1), (3, 5, -1), (4, 5, -1),
          (0, 4, 2), (0, 5, -1), (3, 4, 2)]
EDGES7 = [(0, 1, 1), (0, 2, 1), (1, 2, 1), (1, 3, 1), (2, 3, 1), (2, 4, 1),
          (3, 4, 1), (3, 5, 1), (4, 5, 1), (4, 6, -1), (5, 6, -1), (0, 5, 1),
          (1, 5, 2), (1, 4, 1), (3, 6, -1), (0, 6, -1), (0, 3, 2)]
UNI = {'e7': (7, EDGES7), 'e4': (4, EDGES4), 'e5': (5, EDGES5), 'e6': (6, EDGES6)}


def member(u, bits, scheme):
    n, e = UNI[u]
    return from_bits(n, e, bits, SCHEMES[scheme])


class Truth:
    """Everything by enumerating paths."""

    def __init__(self, r, log):
        self.r, self.log = r, log
        self.plus = logadd if log else tmax
        n = r.n
        self.fwd = [NEG] * n
        self.bwd = [NEG] * n
        self.post = [NEG] * len(r.arcs)
        if n == 0:
            self.tot = NEG
            self.paths = []
            return
        by = {}
        for i, a in enumerate(r.arcs):
            by.setdefault(a[0], []).append(i)
        # every path from 0
        tot = NEG
        self.paths = []
        st = [(0, 0.0, ())]
        while st:
            s, w, p = st.pop()
            self.fwd[s] = self.plus(self.fwd[s], w)
            if s == n - 1:
                self.paths.append((p, w))
                tot = self.plus(tot, w)
                for i in p:
                    self.post[i] = self.plus(self.post[i], w)
            for i in by.get(s, ()):
                st.append((r.arcs[i][1], w + r.arcs[i][3], p + (i,)))
        ent = {}
        for i, a in enumerate(r.arcs):
            ent.setdefault(a[1], []).append(i)
        st = [(n - 1, 0.0)]
        while st:
            s, w = st.pop()
            self.bwd[s] = self.plus(self.bwd[s], w)
            for i in ent.get(s, ()):
                st.append((r.arcs[i][0], w + r.arcs[i][3]))
        self.tot = tot
        self.paths.sort()


def vec_eq(got, want, tol, what, *ctx):
    expect(len(got) == len(want), what, 'length', len(got), len(want), *ctx)
    for i, (g, w) in enumerate(zip(got, want)):
        if not close_to(g, w, tol):
            expect(False, what, ': element', i, 'is', g, 'expected', w, got,
                   want, *ctx)


def check_block(refs):
    fsa = build_vec(refs)
    truths = {log: [Truth(r, log) for r in refs] for log in (True, False)}
    sig = []
    for dbl in (True, False):
        tol = 1e-6 if dbl else 2e-4
        for log in (True, False):
            T = truths[log]
            t = fsa.get_tot_scores(dbl, log)
            step(4)
            expect(t.dtype == (torch.float64 if dbl else torch.float32),
                   'dtype', t.dtype)
            what = f'(double={dbl}, log={log})'
            vec_eq(t.tolist(), [x.tot for x in T], tol, 'tot_scores' + what,
                   refs)
            f = fsa.get_forward_scores(dbl, log).tolist()
            vec_eq(f, sum([x.fwd for x in T], []), tol,
                   'forward_scores' + what, refs)
            b = fsa.get_backward_scores(dbl, log).tolist()
            vec_eq(b, sum([x.bwd for x in T], []), tol,
                   'backward_scores' + what, refs)
            a = split_attr(fsa, fsa.get_arc_post(dbl, log).tolist())
            for x, pa, r in zip(T, a, refs):
                if x.tot == NEG:
                    continue   # no path: posteriors are undefined
                vec_eq(pa, [p - x.tot for p in x.post], tol,
                       'arc_post' + what, r)
                expect(all(v <= 1e-3 * max(1, abs(x.tot)) for v in pa),
                       'arc_post positive', pa)
            sig.append([round(v, 3) if v != NEG else v for v in f])
        # best path
        g = build_vec(refs)
        best = k2.shortest_path(attach_idx(g), dbl)
        step()
        br = read(best)
        expect(len(br) == len(refs), 'shortest_path: batch size')
        for off, r, x, o, m in zip(arc_offsets(refs), refs, truths[False], br,
                                  split_attr(best, get_idx(best))):
            m = [i - off for i in m]
            if x.tot == NEG:
                # no path with a finite score: empty answer
                if not x.paths:
                    expect(not o.arcs, 'shortest_path of', r, 'is', o)
                    continue
                if not o.arcs:
                    continue
            expect([a[0] for a in o.arcs] == list(range(len(o.arcs))) and
                   [a[1] for a in o.arcs] == list(range(1, len(o.arcs) + 1))
                   and o.n == len(o.arcs) + 1,
                   'shortest_path is not linear', o, r)
            w = dict(x.paths)
            expect(tuple(m) in w, 'shortest_path', m, 'is not a path of', r)
            expect(close_to(w[tuple(m)], x.tot, 1e-4), 'shortest_path', m,
                   'has score', w[tuple(m)], 'best is', x.tot, r)
            for i, a in zip(m, o.arcs):
                expect(r.arcs[i][2] == a[2] and r.arcs[i][3] == a[3],
                       'shortest_path arc', i, a, r)
            # earlier arcs win ties is not promised; only optimality is
    return sig


def block_cases(u, scheme, every, block=32):
    def gen(tier):
        ev = every if tier == 'quick' else max(1, every // 4)
        tot = 1 << len(UNI[u][1])
        for k, b in enumerate(range(0, tot, block)):
            if k % ev == ev - 1 or ev == 1:
                yield [u, scheme, b, block]
    return gen


EMPTY = Ref(0, [])
BARE = Ref(2, [])


def check_universe(case):
    u, scheme, b0, block = case
    refs = [member(u, b, scheme) for b in range(b0, b0 + block)]
    refs = [EMPTY] + refs[:block // 2] + [BARE, EMPTY] + refs[block // 2:]
    return check_block(refs)


# ------------------------------------------------------- sampled paths and cdf
def verify_samples(r, x, paths, num, dbl):
    if x.tot == NEG:
        expect(not paths, 'random_paths: paths through an FSA without any', r)
        return
    expect(len(paths) == num, 'random_paths: number of paths', len(paths),
           num, r)
    # lexicographic (arc order) cumulative distribution over complete paths
    order = [(p, math.exp(w - x.tot)) for p, w in x.paths]
    cum, acc = {}, 0.0
    for p, pr in order:
        cum[p] = (acc, acc + pr)
        acc += pr
    tol = 1e-6 if dbl else 2e-3
    for i, p in enumerate(paths):
        p = tuple(p)
        expect(p in cum, 'random_paths: not a complete path', p, r)
        v = (0.5 + i) / num
        lo, hi = cum[p]
        expect(lo - tol <= v <= hi + tol, 'random_paths: path', i, 'of', num,
               'covers', (lo, hi), 'but should contain', v, p, r)
        expect(hi > lo, 'random_paths: zero-probability path', p, r)


def sample_cases(u, scheme, every, block=32):
    def gen(tier):
        for c in block_cases(u, scheme, every, block)(tier):
            yield c
    return gen


def check_samples(case):
    u, scheme, b0, block = case
    refs = [member(u, b, scheme) for b in range(b0, b0 + block)]
    refs = [EMPTY] + refs[:block // 2] + [BARE] + refs[block // 2:] + [EMPTY]
    truths = [Truth(r, True) for r in refs]
    offs = arc_offsets(refs)
    sig = []
    for dbl in (True, False):
        for num in (1, 2, 3, 7):
            fsa = build_vec(refs)
            ans = k2.random_paths(fsa, dbl, num).tolist()
            step()
            expect(len(ans) == len(refs), 'random_paths: batch size')
            for r, x, o, ps in zip(refs, truths, offs, ans):
                verify_samples(r, x, [[i - o for i in p] for p in ps], num,
                               dbl)
            sig.append(ans)
        # cdf: per state, cumulative sums of conditional probabilities
        fsa = build_vec(refs)
        cdf = split_attr(fsa, fsa._get_arc_cdf(dbl, True).tolist())
        for r, x, c in zip(refs, truths, cdf):
            if x.tot == NEG:
                continue
            acc = {}
            for i, a in enumerate(r.arcs):
                tot = NEG
                for j, b in enumerate(r.arcs):
                    if b[0] == a[0]:
                        tot = logadd(tot, x.post[j])
                if tot == NEG:
                    continue
                e = acc.get(a[0], 0.0)
                expect(abs(c[i] - e) < 1e-3, 'arc_cdf', i, c[i], e, r)
                acc[a[0]] = e + math.exp(x.post[i] - tot)
    return sig


# ------------------------------------------------ all batches / all orders
POOL = [EMPTY, BARE, member('e4', 0b00001000000, 'mixed'),
        member('e4', 0b11111111111, 'mixed'),
        member('e5', 0b111111111111, 'mixed'),
        Ref(7, [(i, i + 1, 1, 0.5 * i) for i in range(5)] +
            [(5, 6, -1, -0.5)]),
        Ref(4, [(0, 1, 1, -0.5), (1, 2, 1, -0.5)]),      # no final arc
        Ref(4, [(1, 2, 1, -0.5), (2, 3, -1, -0.5)])]     # start is stuck


def batch_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for b in itertools.product(range(len(POOL)), repeat=n):
            yield list(b)


def check_batch(case):
    return check_block([POOL[i] for i in case])


# --------------------------------------------- depth: many batches, many arcs
def shape_cases(tier):
    hi = 40 if tier == 'quick' else 200
    for n in range(1, hi):
        for kind in (0, 1, 2):
            yield [n, kind]


def check_shape(case):
    n, kind = case
    if kind == 0:     # chain of n arcs with a parallel arc in the middle
        arcs = [(i, i + 1, 1, -0.25 * (i % 5)) for i in range(n)]
        arcs.append((n // 2, n // 2 + 1, 2, -0.125))
        r = Ref(n + 2, arcs + [(n, n + 1, -1, -0.5)])
    elif kind == 1:   # fan: n parallel arcs
        r = Ref(3, [(0, 1, 1 + i, SCORES[i % 20] * (1 + i // 20))
                    for i in range(n)] + [(1, 2, -1, 0.25)])
    else:             # n middle states
        r = Ref(n + 2, [(0, i + 1, 1, SCORES[i % 20]) for i in range(n)] +
                [(i + 1, n + 1, -1, SCORES[(i + 7) % 20] - i % 3)
                 for i in range(n)])
    sig = check_block([POOL[3], r, EMPTY, r])
    x = Truth(r, True)
    for dbl in (True, False):
        for num in (1, n):
            ans = k2.random_paths(build_vec([r]), dbl, num).tolist()[0]
            step()
            verify_samples(r, x, ans, num, dbl)
    return sig


FAMILIES = [
    Family('uni4_' + s, block_cases('e4', s, e), check_universe,
           'every top-sorted 4-state automaton over 11 arc slots (parallel '
           f'arcs included), score scheme {s}, ' +
           ('all' if e == 1 else f'every {e}th block in quick'))
    for s, e in (('mixed', 1), ('ties', 1), ('zero', 1), ('neginf', 1),
                 ('neginf2', 1), ('large', 1))
] + [
    Family('uni5_mixed', block_cases('e5', 'mixed', 1), check_universe,
           'every top-sorted 5-state automaton over 12 arc slots'),
    Family('uni5_ties', block_cases('e5', 'ties', 1), check_universe,
           'every top-sorted 5-state automaton over 12 arc slots, tied '
           'scores'),
    Family('uni6_mixed', block_cases('e6', 'mixed', 1), check_universe,
           'every top-sorted 6-state automaton over 14 arc slots'),
    Family('uni6_neginf', block_cases('e6', 'neginf', 2), check_universe,
           'every top-sorted 6-state automaton over 14 arc slots, -inf scores '
           '(every 2nd block in quick)'),
    Family('uni6_large', block_cases('e6', 'large', 2), check_universe,
           'every top-sorted 6-state automaton over 14 arc slots, scores of '
           'widely different magnitude (every 2nd block in quick)'),
    Family('uni7', block_cases('e7', 'mixed', 16), check_universe,
           'every top-sorted 7-state automaton over 17 arc slots (every 16th '
           'block in quick, every 4th in thorough)'),
    Family('samples6', sample_cases('e6', 'mixed', 4), check_samples,
           'path sampling on 6-state automata (every 4th block in quick)'),
    Family('samples4', sample_cases('e4', 'mixed', 1), check_samples,
           'path sampling on every 4-state automaton, 1/2/3/7 paths'),
    Family('samples4_neginf', sample_cases('e4', 'neginf', 1), check_samples,
           'path sampling with arcs of score -inf'),
    Family('samples5', sample_cases('e5', 'ties', 1), check_samples,
           'path sampling on 5-state automata with ties'),
    Family('batches', batch_cases, check_batch,
           'every batch of up to 3 (thorough 4) of 8 shapes in every order'),
    Family('shapes', shape_cases, check_shape,
           'chains, fans and diamonds of every size'),
]
ASSUMPTIONS = [
    'inputs are top-sorted (documented requirement of the score functions)',
    'posteriors of FSAs without any complete path are not constrained',
]
