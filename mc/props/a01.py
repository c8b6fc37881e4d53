"""A01: structural rewrites preserve the weighted language."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2

L = 4


# --------------------------------------------------------------- enumerations
def uni_cases(n, labels, size, every=1, acyclic=False, selfloops=True):
    sl = slots(n, labels, acyclic=acyclic, selfloops=selfloops)
    total = 1 << len(sl)

    def gen(tier):
        ev = every if tier == 'quick' else 1
        for b, e in chunks(total, size):
            if (b // size) % ev:
                continue
            for rev in (0, 1):
                yield [n, list(labels), int(acyclic), int(selfloops), b, e, rev]
    return gen


def universe(case):
    n, labels, acyclic, selfloops, b, e, rev = case
    sl = slots(n, labels, acyclic=bool(acyclic), selfloops=bool(selfloops))
    refs = [from_bits(n, sl, bits, neg_score, rev=bool(rev))
            for bits in range(b, e)]
    # empty automata in front, in the middle and at the end of the batch
    mid = len(refs) // 2
    return [Ref(0, [])] + refs[:mid] + [Ref(0, []), Ref(0, [])] + \
        refs[mid:] + [Ref(0, [])]


def sort_key(a):
    return (a[2] & 0xffffffff, a[1])


# -------------------------------------------------------------------- oracles
def verify_arc_sort(src, dst, amap):
    expect(dst.n == src.n, 'arc_sort changed the number of states')
    expect(sorted(amap) == list(range(len(src.arcs))),
           'arc_sort lost or duplicated arcs', src, dst, amap)
    for j, i in enumerate(amap):
        expect(dst.arcs[j] == src.arcs[i], 'arc_sort altered an arc',
               src.arcs[i], dst.arcs[j])
    for x, y in zip(dst.arcs, dst.arcs[1:]):
        if x[0] == y[0]:
            expect(sort_key(x) <= sort_key(y), 'arc_sort: arcs out of order',
                   dst)


def verify_connect(src, dst, amap):
    keep = useful(src)
    want = [i for i, (s, d, l, w) in enumerate(src.arcs)
            if s in keep and d in keep]
    expect(sorted(amap) == want, 'connect keeps arcs', sorted(amap),
           'expected', want, src, dst)
    f = state_map_from(src, dst, amap, 'connect')
    if want:
        expect(f.get(0, 0) == 0 and f.get(src.n - 1) == dst.n - 1,
               'connect moved the start or final state', src, dst)
        expect(dst.n == len(keep), 'connect: number of states', dst.n,
               'expected', len(keep), src, dst)
    m = validate(dst)
    expect(m is None, 'connect: malformed result', m, dst)


def verify_top_sort(src, dst, amap):
    expect(len(set(amap)) == len(amap) and -1 not in amap,
           'top_sort duplicated arcs', amap)
    keep = useful(src)
    need = {i for i, (s, d, l, w) in enumerate(src.arcs)
            if s in keep and d in keep}
    expect(need <= set(amap), 'top_sort lost arcs', need - set(amap), src, dst)
    f = state_map_from(src, dst, amap, 'top_sort')
    if amap:
        expect(f.get(0, 0) == 0 and f.get(src.n - 1, dst.n - 1) == dst.n - 1,
               'top_sort moved the start or final state', src, dst)
    expect(all(s <= d for (s, d, l, w) in dst.arcs),
           'top_sort result is not in topological order', dst)
    m = validate(dst)
    expect(m is None, 'top_sort: malformed result', m, dst)


def verify_add_loops(src, dst, amap):
    want = []
    by = {}
    for i, a in enumerate(src.arcs):
        by.setdefault(a[0], []).append((a, i))
    wmap = []
    for s in range(src.n - 1):
        want.append((s, s, 0, 0.0))
        wmap.append(-1)
        for a, i in by.get(s, ()):
            want.append(a)
            wmap.append(i)
    expect(dst.n == src.n and dst.arcs == want and amap == wmap,
           'add_epsilon_self_loops: got', dst, amap, 'expected', want, wmap)


def verify_remove_loops(src, dst, amap):
    want = [i for i, (s, d, l, w) in enumerate(src.arcs)
            if not (s == d and l == 0)]
    expect(dst.n == src.n and amap == want and
           dst.arcs == [src.arcs[i] for i in want],
           'remove_epsilon_self_loops: got', dst, amap, 'expected', want, src)


def verify_reverse(src, dst, amap):
    m = validate(dst)
    expect(m is None, 'reverse: malformed result', m, dst)
    w1 = {tuple(reversed(k)): v for k, v in weights(src, L).items()}
    expect_weights(weights(dst, L), w1, 'reverse', src, dst)
    if not has_cycle(src, useful(src)):
        a = sorted((tuple(reversed(path_labels(src, p))), path_score(src, p))
                   for p in all_paths(src))
        b = sorted((path_labels(dst, p), path_score(dst, p))
                   for p in all_paths(dst))
        expect(a == b, 'reverse: paths differ', a, b, src, dst)


def local_maps(fsa, refs):
    offs = arc_offsets(refs)
    return [[x - o if x >= 0 else -1 for x in part]
            for part, o in zip(split_attr(fsa, get_idx(fsa)), offs)]


def top_sortable(src):
    return not has_cycle(src, ignore_self=True) and not any(
        d == 0 and s != 0 for (s, d, l, w) in src.arcs)


UNARY = {
    'arc_sort': (lambda f: k2.arc_sort(f), verify_arc_sort, None),
    'connect': (lambda f: k2.connect(f), verify_connect, None),
    'top_sort': (lambda f: k2.top_sort(f), verify_top_sort, top_sortable),
    'add_epsilon_self_loops': (lambda f: k2.add_epsilon_self_loops(f),
                               verify_add_loops, None),
    'remove_epsilon_self_loops': (lambda f: k2.remove_epsilon_self_loops(f),
                                  verify_remove_loops, None),
    'reverse': (lambda f: k2.reverse(f), verify_reverse, None),
}


def apply_all(refs, single=True):
    sig = []
    before = [r.key() for r in refs]
    for name, (op, verify, pre) in UNARY.items():
        use = [r for r in refs if pre is None or pre(r)]
        vec = attach_idx(build_vec(use))
        out = op(vec)
        step()
        got = read(out)
        expect(len(got) == len(use), name, 'changed the number of automata')
        maps = local_maps(out, use)
        for s, d, m in zip(use, got, maps):
            verify(s, d, m)
        expect([r.key() for r in read(vec)] == [r.key() for r in use],
               name, 'modified its input')
        sig.append((name, [r.key() for r in got]))
        if single:
            for s in use:
                f = attach_idx(build(s))
                o = op(f)
                step()
                r = read1(o)
                if s.n:
                    verify(s, r, get_idx(o))
                else:
                    expect(r.n == 0 and not r.arcs, name,
                           'of an empty automaton is not empty', r)
    return sig


def check_universe(case):
    return apply_all(universe(case))


# ------------------------------------------------ cyclic input of a top-sort
def check_cyclic_topsort(case):
    refs = [r for r in universe(case)
            if r.n and has_cycle(r, ignore_self=True)]
    n = 0
    for r in refs:
        try:
            o = k2.top_sort(build(r))
        except RuntimeError:
            n += 1
            continue
        expect(False, 'top_sort accepted a cyclic automaton', r, read1(o))
    return n


# ------------------------------------------------------------ union / closure
def check_union(case):
    refs = [r for r in universe(case) if r.n]
    sig = []
    for k in (1, 2, 3):
        for i in range(0, len(refs) - k + 1, k):
            grp = refs[i:i + k]
            vec = attach_idx(build_vec(grp))
            o = k2.union(vec)
            step()
            r = read1(o)
            m = validate(r)
            expect(m is None, 'union: malformed', m, r, grp)
            want = {}
            for g in grp:
                for s, w in weights(g, L).items():
                    want[s] = max(w, want.get(s, NEG))
            expect_weights(weights(r, L), want, 'union', grp, r)
            tot = sum(len(g.arcs) for g in grp)
            idx = [x for x in get_idx(o) if x >= 0]
            expect(sorted(idx) == list(range(tot)), 'union: lost arcs', idx,
                   grp, r)
            flat = [a for g in grp for a in g.arcs]
            for a, x in zip(r.arcs, get_idx(o)):
                if x >= 0:
                    expect(a[2] == flat[x][2] and a[3] == flat[x][3],
                           'union: arc differs from its source', a, flat[x])
            sig.append(r.key())
    return sig


def star(w, Lmax, syms):
    """weights of the Kleene closure from the weights of the language
    (all weights <= 0, so repeating the empty string never helps)."""
    memo = {(): 0.0}

    def get(s):
        if s in memo:
            return memo[s]
        b = NEG
        for k in range(1, len(s) + 1):
            x = w.get(s[:k])
            if x is not None:
                y = get(s[k:])
                if y > NEG:
                    b = max(b, x + y)
        memo[s] = b
        return b
    out = {}
    for ln in range(Lmax + 1):
        for s in itertools.product(syms, repeat=ln):
            v = get(s)
            if v > NEG:
                out[s] = v
    return out


AUX = [3, 0, 4, 5, 0, 3, 3, 5, 0, 4, 6, 0, 3, 6]


def closure_of(refs, strict=False):
    sig = []
    for r in refs:
        f = attach_idx(build(r))
        aux = [-1 if a[2] == -1 else AUX[i % len(AUX)]
               for i, a in enumerate(r.arcs)]
        f.aux_labels = torch.tensor(aux, dtype=torch.int32)
        o = k2.closure(f)
        step()
        c = read1(o)
        if r.n == 0:
            expect(c.n == 0, 'closure of an empty automaton', c)
            continue
        m = validate(c)
        expect(m is None, 'closure: malformed', m, c, r)
        relc = relation(c, o.aux_labels.tolist(), 3)
        expect(isinstance(relc, dict), 'closure: output labels', relc, r, c,
               o.aux_labels.tolist())
        sig.append(c.key())
        # documented construction: former final arcs re-enter the start state
        # with an epsilon, plus one new final arc
        f = r.n - 1
        want = sorted((s, 0, 0, w, i) if d == f else (s, d, l, w, i)
                      for i, (s, d, l, w) in enumerate(r.arcs))
        want = sorted(want + [(0, f, -1, 0.0, -1)])
        have = sorted(a + (i,) for a, i in zip(c.arcs, get_idx(o)))
        expect(have == want, 'closure: arcs', have, 'expected', want)
        if not strict and any(d == 0 for (s, d, l, w) in r.arcs):
            continue   # see the family closure_start_loop
        syms = sorted({a[2] for a in r.arcs if a[2] > 0})
        expect_weights(weights(c, L), star(weights(r, L), L, syms), 'closure',
                       r, c)
        # the transduction
        rel = relation(r, aux, 3)
        syms = sorted({s for k in rel for s in k})
        # pairs that only occur on useless paths never appear in rel
        expect_weights(relc, star(rel, 3, syms), 'closure (transduction)', r,
                       aux, c, o.aux_labels.tolist())
    return sig


def check_closure(case):
    return closure_of(universe(case))


def closure_loop_cases(tier):
    yield 'start state with a self-loop'


def check_closure_loop(case):
    return closure_of([Ref(3, [(0, 0, 1, -0.5), (0, 1, 2, -0.25),
                               (1, 2, -1, -1.0)])], strict=True)


# ----------------------------------------------------- inversion, ragged aux
def ragged_aux(r, pat):
    """aux label lists: length 0..2 per arc by pattern digits (base 3)."""
    out = []
    nxt = 10
    for i, a in enumerate(r.arcs):
        k = (pat // 3 ** i) % 3
        if a[2] == -1:
            k = min(k, 1)
            out.append(list(range(nxt, nxt + k)) + [-1])
        else:
            out.append(list(range(nxt, nxt + k)))
        nxt += k
    return out


SHAPES = [
    Ref(2, [(0, 1, -1, 0.5)]),
    Ref(3, [(0, 1, 1, 0.5), (1, 2, -1, 1.0)]),
    Ref(3, [(0, 1, 1, 0.5), (0, 1, 0, 2.0), (1, 2, -1, 1.0)]),
    Ref(3, [(0, 1, 1, 0.5), (0, 2, -1, 0.25), (1, 2, -1, 1.0)]),
    Ref(4, [(0, 1, 1, 0.5), (0, 2, 2, 0.25), (1, 2, 3, 1.0), (2, 3, -1, 0.0)]),
    Ref(3, [(0, 0, 1, -0.5), (0, 1, 2, -0.25), (1, 0, 3, -1.0),
            (1, 2, -1, -2.0)]),
    Ref(4, [(0, 1, 0, 0.5), (1, 2, 2, 0.25), (2, 3, -1, 1.0),
            (1, 3, -1, 0.75)]),
    Ref(0, []),
    Ref(2, []),
]


def ragged_cases(tier):
    for si, r in enumerate(SHAPES):
        for pat in range(3 ** len(r.arcs)):
            yield [si, pat]


def check_ragged(case):
    si, pat = case
    r = SHAPES[si]
    aux = ragged_aux(r, pat)
    cyc = 5 if has_cycle(r) else None
    sig = []
    for mode in ('single', 'vec'):
        group = [r] if mode == 'single' else [Ref(0, []), r, SHAPES[3], r]
        auxs = [aux] if mode == 'single' else [
            [], aux, ragged_aux(SHAPES[3], 21), aux]
        flat = [x for a in auxs for x in a]
        f = build(r) if mode == 'single' else build_vec(group)
        attach_idx(f)
        f.aux_labels = k2.RaggedTensor(flat, dtype=torch.int32) if flat else \
            k2.RaggedTensor(k2.ragged.create_ragged_shape2(
                row_splits=torch.tensor([0], dtype=torch.int32)),
                torch.empty(0, dtype=torch.int32))
        o, amap = k2.expand_ragged_attributes(f, ret_arc_map=True)
        step()
        expect(isinstance(o.aux_labels, torch.Tensor),
               'expand_ragged_attributes left a ragged attribute')
        expect(get_idx(o) == amap.tolist(), 'expand: arc map', amap, o.idx)
        for g, a, rr, oo in zip(group, auxs, read(o),
                                split_attr(o, o.aux_labels.tolist())):
            m = validate(rr)
            expect(m is None, 'expand: malformed', m, rr)
            mult = 4
            want = io_relation(g, a, cyc)
            got = io_relation(rr, oo, cyc * mult if cyc else None)
            if cyc:
                # paths of the expansion are longer; compare those inputs
                # that both bounds cover
                want = {k: v for k, v in want.items() if len(k[0]) <= 2}
                got = {k: v for k, v in got.items() if len(k[0]) <= 2}
            expect(same_paths(want, got), 'expand_ragged_attributes: relation',
                   want, got, g, a, rr, oo)
            for x, y in zip(rr.arcs, oo):
                expect((x[2] == -1) == (y == -1),
                       'expand: final aux label', x, y)
        inv, amap2 = k2.invert(f, ret_arc_map=True)
        step()
        for g, a, rr, oo in zip(group, auxs, read(inv),
                                split_attr(inv, inv.aux_labels.tolist())):
            m = validate(rr)
            expect(m is None, 'invert: malformed', m, rr)
            want = {(k[1], k[0]): v for k, v in io_relation(g, a, cyc).items()}
            got = io_relation(rr, oo, cyc * 4 if cyc else None)
            if cyc:
                want = {k: v for k, v in want.items() if len(k[1]) <= 2}
                got = {k: v for k, v in got.items() if len(k[1]) <= 2}
            expect(same_paths(want, got), 'invert: relation', want, got, g, a,
                   rr, oo)
        sig.append([x.key() for x in read(inv)])
        # inversion twice is the identity relation for tensor labels
        back = k2.invert(inv)
        for g, a, rr, oo in zip(group, auxs, read(back),
                                split_attr(back, back.aux_labels.tolist())):
            want = io_relation(g, a, cyc)
            got = io_relation(rr, oo, cyc * 4 if cyc else None)
            if cyc:
                want = {k: v for k, v in want.items() if len(k[0]) <= 2}
                got = {k: v for k, v in got.items() if len(k[0]) <= 2}
            expect(same_paths(want, got), 'invert twice', want, got)
    return sig


# ------------------------------------------------------------ linear automata
def seqs(maxlen, syms):
    for ln in range(maxlen + 1):
        for s in itertools.product(syms, repeat=ln):
            yield list(s)


def linear_cases(tier):
    allseq = list(seqs(3, (1, 2)))
    for s in allseq:
        yield [s]
    for a in allseq:
        for b in allseq:
            yield [a, b]
    for a in ([], [1], [2, 1]):
        for b in ([], [3]):
            for c in ([], [1, 1, 2]):
                for d in ([], [5]):
                    yield [a, b, c, d]
    for n in (31, 64, 127, 300, 1000):
        yield [[1 + i % 7 for i in range(n)], [], [2]]


def check_linear(case):
    sig = []
    forms = [case, k2.RaggedTensor(case, dtype=torch.int32)]
    if len(case) == 1:
        forms.append(case[0])
    aux = [[10 * x + i for i, x in enumerate(s)] for s in case]

    def lin(s, a=None, loops=False):
        arcs = []
        for i in range(len(s) + 1):
            if loops:
                arcs.append((i, i, 0, 0.0, 0))
            l = s[i] if i < len(s) else -1
            x = -1 if i == len(s) else (a[i] if a is not None else None)
            arcs.append((i, i + 1, l, 0.0, x))
        return arcs

    for fi, form in enumerate(forms):
        single = fi == 2
        for loops in (False, True):
            f = (k2.linear_fsa_with_self_loops if loops else None)
            base = k2.linear_fsa(form)
            outs = [k2.linear_fsa_with_self_loops(base)] if loops else [base]
            step()
            for o in outs:
                got = read(o)
                expect(len(got) == len(case), 'linear_fsa: number of automata')
                expect((o.arcs.num_axes() == 2) == single,
                       'linear_fsa: axes of the result')
                for g, s in zip(got, case):
                    want = [a[:4] for a in lin(s, loops=loops)]
                    expect(g.arcs == want and g.n == len(s) + 2,
                           'linear_fsa', s, 'gave', g)
                sig.append(len(got))
        # transducers
        if fi == 1 or form == []:  # [] is ambiguous: one or many sequences
            continue
        o = k2.linear_fst(form, aux[0] if single else aux)
        step()
        for g, x, s, a in zip(read(o), split_attr(o, o.aux_labels.tolist()),
                              case, aux):
            want = lin(s, a)
            expect(g.arcs == [w[:4] for w in want] and
                   x == [w[4] for w in want], 'linear_fst', s, a, g, x)
    return sig


def linear_loop_cases(tier):
    k = 4 if tier == 'quick' else 5
    for s in seqs(k, (0, 1, 2)):
        for pat in (0, 1, 2):
            yield [s, pat]


def check_linear_loops(case):
    s, pat = case
    others = [[], [1], [0, 2]]
    sig = []

    def aux_of(t):
        if pat == 0:
            return [10 + i for i in range(len(t))]
        if pat == 1:
            return [0 if i % 2 else 10 + i for i in range(len(t))]
        return [0] * len(t)

    for group, single in (([s], True), ([s], False),
                          (others[:2] + [s, others[2]], False)):
        if single and not s:
            continue
        aux = [aux_of(t) for t in group]
        f = k2.linear_fst(group[0] if single else group,
                          aux[0] if single else aux)
        f.scores = torch.tensor(SCORES[:f.num_arcs] if f.num_arcs <= 20 else
                                [0.5] * f.num_arcs)
        sc = split_attr(f, f.scores.tolist())
        o = k2.linear_fst_with_self_loops(f)
        step()
        expect((o.arcs.num_axes() == 2) == single, 'axes')
        oa = o.aux_labels.tolist()
        for g, x, t, a, w in zip(read(o), split_attr(o, oa), group, aux, sc):
            want, wa, acc, aa, st = [], [], 0.0, [], 0
            for l, b, v in zip(t + [-1], a + [-1], w):
                acc += v
                if b > 0:
                    aa.append(b)
                if l != 0:
                    want += [(st, st, 0, 0.0), (st, st + 1, l, acc)]
                    wa += [[], aa]
                    acc, aa, st = 0.0, [], st + 1
            expect(g.arcs == want and x == wa,
                   'linear_fst_with_self_loops', t, a, w, 'gave', g, x,
                   'expected', want, wa)
            sig.append(g.key())
    return sig


# ----------------------------------------------------------------- replace
REPL = [
    Ref(2, [(0, 1, -1, -0.5)]),
    Ref(3, [(0, 1, 1, -0.5), (1, 2, -1, -0.25)]),
    Ref(3, [(0, 1, 1, -0.5), (0, 1, 2, -1.0), (1, 2, -1, -0.25)]),
    Ref(4, [(0, 1, 2, -0.5), (1, 2, 1, -1.0), (0, 3, -1, -0.125),
            (2, 3, -1, -0.25)]),
    Ref(3, [(0, 0, 1, -0.5), (0, 1, 2, -2.0), (1, 2, -1, -0.25)]),
    Ref(2, []),
    Ref(0, []),
]
INDEX = [
    [Ref(3, [(0, 1, 11, -1.0), (1, 2, -1, -0.5)])],
    [Ref(3, [(0, 1, 10, -1.0), (1, 2, -1, -0.5)])],
    [Ref(3, [(0, 1, 11, -1.0), (0, 1, 12, -2.0), (1, 2, -1, -0.5)])],
    [Ref(4, [(0, 1, 11, -1.0), (1, 2, 12, -2.0), (2, 3, -1, -0.5)])],
    [Ref(4, [(0, 1, 5, -1.0), (0, 2, 12, -2.0), (1, 2, 11, -0.75),
             (2, 3, -1, -0.5)])],
    [Ref(3, [(0, 0, 11, -1.0), (0, 1, 12, -0.75), (1, 2, -1, -0.5)])],
    [Ref(3, [(0, 1, 13, -1.0), (0, 2, -1, -0.5)]), Ref(0, []),
     Ref(3, [(0, 1, 12, -1.0), (1, 2, -1, -0.5)])],
    [Ref(2, []), Ref(2, [(0, 1, -1, -1.5)])],
]


def replace_cases(tier):
    for ii in range(len(INDEX)):
        for k in range(1, 4):
            for src in itertools.product(range(len(REPL)), repeat=k):
                if tier == 'quick' and k == 3 and sum(src) % 3:
                    continue
                yield [ii, list(src)]


def substitute(idx, srcs, begin):
    """reference automaton of the replacement (states are fresh ints)."""
    arcs = []
    n = [idx.n]
    for (s, d, l, w) in idx.arcs:
        k = l - begin
        if l > 0 and 0 <= k < len(srcs):
            g = srcs[k]
            if g.n == 0:
                continue
            base = n[0]
            n[0] += g.n
            arcs.append((s, base, 0, w))
            for (a, b, gl, gw) in g.arcs:
                if gl == -1:
                    arcs.append((base + a, d, 0, gw))
                else:
                    arcs.append((base + a, base + b, gl, gw))
        else:
            arcs.append((s, d, l, w))
    # move the final state to the end
    tot = n[0]
    f = idx.n - 1
    mp = {i: i for i in range(tot)}
    if idx.n and tot > idx.n:
        mp[f] = tot - 1
        for i in range(f + 1, tot):
            mp[i] = i - 1
    return Ref(tot if idx.n else 0,
               [(mp[s], mp[d], l, w) for (s, d, l, w) in arcs])


def check_replace(case):
    ii, src = case
    idx = INDEX[ii]
    srcs = [REPL[i] for i in src]
    begin = 11
    sv = build_vec(srcs)
    sig = []
    forms = [build_vec(idx)] + ([build(idx[0])] if len(idx) == 1 else [])
    for f in forms:
        o, amap_i, amap_s = k2.replace_fsa(sv, f, begin, ret_arc_map=True)
        step()
        got = read(o)
        expect(len(got) == len(idx), 'replace_fsa: number of automata')
        ioff, soff = arc_offsets(idx), arc_offsets(srcs)
        iall = [a for r in idx for a in r.arcs]
        sall = [a for r in srcs for a in r.arcs]
        pos = 0
        for r, g in zip(idx, got):
            m = validate(g)
            expect(m is None, 'replace_fsa: malformed', m, g)
            want = substitute(r, srcs, begin)
            if not any(0 <= a[2] - begin < len(srcs) and
                       srcs[a[2] - begin].n == 0 for a in r.arcs):
                # (an automaton without states has no start state to enter)
                expect_weights(weights(g, L), weights(want, L),
                               'replace_fsa', r, srcs, g)
            for a in g.arcs:
                i, s = amap_i[pos].item(), amap_s[pos].item()
                expect((i >= 0) != (s >= 0), 'replace_fsa: arc maps', i, s)
                w = iall[i][3] if i >= 0 else sall[s][3]
                expect(a[3] == w, 'replace_fsa: arc score', a, w)
                pos += 1
            sig.append(g.key())
    return sig


# ------------------------------------------------- sizes and batch structure
def size_cases(tier):
    hi = 140 if tier == 'quick' else 400
    for n in list(range(2, hi)) + [255, 256, 257, 511, 512, 513, 1023, 1025,
                                   2048, 4097]:
        for kind in range(6):
            yield [kind, n]


def sized(kind, n):
    """n states: chain / reversed chain order / star / full-ish DAG / loops /
    many parallel arcs."""
    arcs = []
    sc = lambda i: -0.25 * (i % 16)
    if kind == 0:
        arcs = [(i, i + 1, 1 + i % 3, sc(i)) for i in range(n - 2)]
        arcs.append((n - 2, n - 1, -1, -1.0))
        return Ref(n, arcs)
    if kind == 1:   # chain visiting the states in scrambled order
        order = [0] + list(range(n - 2, 0, -1))
        arcs = [(order[i], order[i + 1], 1 + i % 3, sc(i))
                for i in range(len(order) - 1)]
        arcs.append((order[-1], n - 1, -1, -1.0))
        return Ref(n, arcs)
    if kind == 2:   # star: descending labels so sorting reverses everything
        arcs = [(0, i, n - i, sc(i)) for i in range(1, n - 1)]
        arcs += [(i, n - 1, -1, sc(i + 3)) for i in range(1, n - 1)]
        if n == 2:
            arcs = [(0, 1, -1, 0.0)]
        return Ref(n, arcs)
    if kind == 3:   # two interleaved chains, one of them dead
        for i in range(0, n - 3):
            arcs.append((i, i + 2, 1 + i % 2, sc(i)))
        arcs.append((max(0, n - 3 - (n - 3) % 2), n - 1, -1, -0.5))
        return Ref(n, [a for a in arcs if a[1] < n - 1 or a[2] == -1])
    if kind == 4:   # chain with an epsilon self-loop everywhere
        for i in range(n - 1):
            arcs.append((i, i, 0, -0.5))
            arcs.append((i, i + 1, 1 if i < n - 2 else -1, sc(i)))
        return Ref(n, arcs)
    # n parallel arcs with equal labels and different scores, then final
    arcs = [(0, 1, 1 + (i * 7) % 5, -0.125 * i) for i in range(n)]
    arcs.append((1, 2, -1, -0.5))
    return Ref(3, arcs)


def check_sizes(case):
    kind, n = case
    r = sized(kind, n)
    small = [Ref(3, [(0, 1, 1, -1.0), (1, 2, -1, -2.0)]), Ref(0, []),
             Ref(2, [])]
    sig = []
    for refs in ([r], [small[0], r, small[1], r, small[2]]):
        for name, (op, verify, pre) in UNARY.items():
            if name == 'reverse':
                continue
            use = [x for x in refs if pre is None or pre(x)]
            vec = attach_idx(build_vec(use))
            out = op(vec)
            step()
            got = read(out)
            maps = local_maps(out, use)
            expect(len(got) == len(use), name, 'number of automata')
            for s, d, m in zip(use, got, maps):
                verify(s, d, m)
            sig.append((name, len(got)))
        out = k2.reverse(attach_idx(build_vec(refs)))
        for s, d in zip(refs, read(out)):
            back = k2.reverse(build(d)) if d.n else None
            step()
            m = validate(d)
            expect(m is None, 'reverse malformed', m)
            f = s.n - 1
            # every arc reversed, exactly once, labels kept (final -> eps)
            cnt = {}
            for (a, b, l, w) in s.arcs:
                cnt[(b, a, 0 if l == -1 else l, w)] = cnt.get(
                    (b, a, 0 if l == -1 else l, w), 0) + 1
            # start of the reverse is the old final state: find the renaming
            # used by k2 through the (unique) state mapping below
            if s.n:
                expect(d.n == s.n + 1, 'reverse: number of states', s.n, d.n)
                ren = {}
                for cand in (lambda x: 0 if x == f else x + 1,):
                    c2 = {}
                    for (a, b, l, w) in d.arcs:
                        if l != -1:
                            c2[(a, b, l, w)] = c2.get((a, b, l, w), 0) + 1
                    c1 = {}
                    for (a, b, l, w), k in cnt.items():
                        c1[(cand(a), cand(b), l, w)] = k
                    ren = c1 == c2
                if not ren and not has_cycle(s, useful(s)) and len(
                        s.arcs) < 40:
                    p1 = sorted((tuple(reversed(path_labels(s, p))),
                                 path_score(s, p)) for p in all_paths(s))
                    p2 = sorted((path_labels(d, p), path_score(d, p))
                                for p in all_paths(d))
                    expect(p1 == p2, 'reverse: paths', s, d)
                sig.append(('reverse', d.n, bool(ren)))
    return sig


def multi_cases(tier):
    """all batches of length 1..k over a set of shapes incl. empty ones"""
    k = 4 if tier == 'quick' else 5
    for ln in range(1, k + 1):
        for t in itertools.product(range(6), repeat=ln):
            yield list(t)


MULTI = [
    Ref(0, []),
    Ref(2, []),
    Ref(2, [(0, 1, -1, -1.0)]),
    Ref(4, [(0, 2, 2, -0.5), (0, 1, 1, -1.0), (2, 1, 0, -2.0),
            (1, 3, -1, -0.25), (0, 0, 0, -3.0)]),
    Ref(4, [(1, 1, 1, -0.5), (0, 3, -1, -1.0), (0, 2, 3, -0.25)]),
    Ref(3, [(0, 1, 2, -1.5), (0, 1, 1, -1.25), (0, 1, 2, -0.75),
            (1, 2, -1, -0.5), (0, 2, -1, -0.125)]),
]


def check_multi(case):
    return apply_all([MULTI[i] for i in case], single=False)


# ------------------------------------------------------------- transductions
def trans_cases(tier):
    for b, e in chunks(1 << 10, 32):
        yield [b, e]


TSL = [x for x in slots(4, (1, 2), acyclic=True)][:10]


def aux_for(r, k=0):
    return [-1 if l == -1 else AUX[(i + k) % len(AUX)]
            for i, (s, d, l, w) in enumerate(r.arcs)]


def fst(refs):
    v = build_vec(refs)
    v.aux_labels = torch.tensor([x for i, r in enumerate(refs)
                                 for x in aux_for(r, i)], dtype=torch.int32)
    return v


def check_trans(case):
    """the transduction of acyclic transducers under every rewrite"""
    b, e = case
    refs = [from_bits(4, TSL, bits, neg_score) for bits in range(b, e)]
    refs.insert(len(refs) // 2, Ref(0, []))
    v = fst(refs)
    rel = [io_relation(r, aux_for(r, i)) for i, r in enumerate(refs)]
    sig = []

    def parts(o):
        return list(zip(read(o), split_attr(o, o.aux_labels.tolist())))

    def test(what, o, want):
        step()
        got = parts(o)
        expect(len(got) == len(want), what, ': number of automata')
        for (g, a), w in zip(got, want):
            for (s, d, l, x), y in zip(g.arcs, a):
                expect((l == -1) == (y == -1), what, ': output label', y,
                       'on an arc with label', l, g, a)
            expect(same_paths(io_relation(g, a), w), what, ': relation',
                   io_relation(g, a), 'expected', w, g, a)
        sig.append([sorted(w) for w in want])
    ts = k2.top_sort(k2.connect(v))
    test('connect', ts, rel)
    test('arc_sort', k2.arc_sort(v), rel)
    test('add_epsilon_self_loops+remove', k2.remove_epsilon_self_loops(
        k2.add_epsilon_self_loops(v)), rel)
    rr = [{(k[0][::-1], k[1][::-1]): x for k, x in w.items()} for w in rel]
    test('reverse', k2.reverse(v), rr)
    test('reverse twice', k2.reverse(k2.reverse(v)), rel)
    test('invert', k2.invert(v),
         [{(k[1], k[0]): x for k, x in w.items()} if r.n else {}
          for w, r in zip(inv_rel(refs), refs)])
    for m in (1, 2, 3):
        for i in range(0, len(refs) - m + 1, m):
            g = [j for j in range(i, i + m) if refs[j].n]
            if not g:
                continue
            o = k2.union(k2.index_fsa(v, torch.tensor(g, dtype=torch.int32)))
            tot = {}
            for j in g:
                for k, x in rel[j].items():
                    tot[k] = sorted(tot.get(k, []) + x)
            test('union', o, [tot])
    # replacement of label 1 by a transducer (index is an acceptor: its arcs
    # have output label 0)
    for j, (r, w) in enumerate(zip(refs, rel)):
        if not r.n:
            continue
        o = k2.replace_fsa(k2.index_fsa(v, torch.tensor([j, j],
                                                        dtype=torch.int32)),
                           build(RIDX), 5)
        tot = {}
        for k1, x1 in w.items():
            for k2_, x2 in w.items():
                for lab, sc in (((), RIDX.arcs[2][3]),
                                ((7,), RIDX.arcs[3][3])):
                    k = (k1[0] + k2_[0] + lab, k1[1] + k2_[1])
                    tot.setdefault(k, []).extend(
                        p + q + RIDX.arcs[0][3] + RIDX.arcs[1][3] + sc +
                        (RIDX.arcs[4][3] if lab else 0.0)
                        for p in x1 for q in x2)
        for x in tot.values():
            x.sort()
        test('replace_fsa', o, [tot])
    return sig


RIDX = Ref(5, [(0, 1, 5, -0.5), (1, 2, 6, -0.25), (2, 4, -1, -1.0),
               (2, 3, 7, -0.75), (3, 4, -1, -2.0)])


def inv_rel(refs):
    return [io_relation(r, aux_for(r, i)) for i, r in enumerate(refs)]


FAMILIES = [
    Family('universe3', uni_cases(3, (0, 1, 2), 64), check_universe,
           'every automaton with 3 states over labels {eps,1,2} (2^14 arc '
           'subsets, forward and reversed arc order), in batches with empty '
           'automata interleaved and one by one, through six rewrites'),
    Family('universe4', uni_cases(4, (1,), 64), check_universe,
           'every 4-state one-label digraph automaton (2^12), both arc orders'),
    Family('universe5acyclic', uni_cases(5, (0, 1), 128, every=8, acyclic=True),
           check_universe,
           'every acyclic top-ordered 5-state automaton over {eps,1} (2^16; '
           'every 8th batch in the quick tier)'),
    Family('cyclic_topsort', uni_cases(4, (1,), 64), check_cyclic_topsort,
           'every cyclic 4-state digraph must be refused by topological sort'),
    Family('union', uni_cases(3, (0, 1, 2), 32), check_union,
           'every 3-state automaton over {eps,1,2} in unions of 1, 2 and 3'),
    Family('closure', uni_cases(3, (0, 1, 2), 32), check_closure,
           'every 3-state transducer over {eps,1,2} under Kleene closure, strings '
           'up to length 4 and transductions up to 3'),
    Family('closure_start_loop', closure_loop_cases, check_closure_loop,
           'the closure of x*y: a start state with an entering arc'),
    Family('ragged_labels', ragged_cases, check_ragged,
           'every assignment of 0/1/2 output labels per arc on 9 shapes, '
           'expanded and inverted, single and batched'),
    Family('linear', linear_cases, check_linear,
           'all pairs of label sequences up to length 3 over 2 symbols, list '
           'and ragged inputs, plus long and empty ones'),
    Family('linear_loops', linear_loop_cases, check_linear_loops,
           'all label sequences up to length 4 over {eps,1,2} with 3 output '
           'patterns: epsilon-free linear transducer with self-loops'),
    Family('replace', replace_cases, check_replace,
           'every tuple of up to 3 replacement automata from 7 shapes into 8 '
           'index automata batches'),
    Family('sizes', size_cases, check_sizes,
           '6 structured families at every size from 2 to 139 and at power-'
           'of-two boundaries, alone and in a mixed batch'),
    Family('transductions', trans_cases, check_trans,
           'every 4-state acyclic transducer over 10 arc slots: exact path '
           'relation after each rewrite, -1 output labels on final arcs only'),
    Family('batches', multi_cases, check_multi,
           'every batch of length 1..4 over 6 shapes (empty ones included)'),
]
