"""A03: intersection and composition are the product construction."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2


def lab_key(l):
    return l & 0xffffffff


def srt(r):
    return Ref(r.n, sorted(r.arcs, key=lambda a: (a[0], lab_key(a[2]), a[1])))


def product(a, b, eps):
    """useful product arcs: dict (pair, ia, ib) -> (pair', label, score)."""
    if a.n == 0 or b.n == 0:
        return {}
    oa, ob = {}, {}
    for i, x in enumerate(a.arcs):
        oa.setdefault(x[0], []).append((i, x))
    for i, x in enumerate(b.arcs):
        ob.setdefault(x[0], []).append((i, x))
    out = {}
    st, seen = [(0, 0)], {(0, 0)}
    prev = {}
    while st:
        p = st.pop()
        nxt = []
        for i, x in oa.get(p[0], ()):
            if eps and x[2] == 0:
                nxt.append(((x[1], p[1]), i, -1, 0, x[3]))
                continue
            for j, y in ob.get(p[1], ()):
                if x[2] == y[2]:
                    nxt.append(((x[1], y[1]), i, j, x[2], x[3] + y[3]))
        if eps:
            for j, y in ob.get(p[1], ()):
                if y[2] == 0:
                    nxt.append(((p[0], y[1]), -1, j, 0, y[3]))
        for (q, i, j, l, w) in nxt:
            out[(p, i, j)] = (q, l, w)
            prev.setdefault(q, []).append(p)
            if q not in seen:
                seen.add(q)
                st.append(q)
    fin = (a.n - 1, b.n - 1)
    ok, st = {fin}, [fin]
    while st:
        for p in prev.get(st.pop(), ()):
            if p not in ok:
                ok.add(p)
                st.append(p)
    return {k: v for k, v in out.items() if k[0] in ok and v[0] in ok}


def verify(a, b, dst, ma, mb, eps, what):
    """dst unfolds to the useful part of the product: every state of dst that
    can be reached stands for one pair and has exactly that pair's arcs (the
    start pair may be represented twice when a cycle re-enters it)."""
    m = validate(dst)
    expect(m is None or dst.n == 1 and not dst.arcs, what, ': malformed', m,
           dst)
    prod = product(a, b, eps)
    outs = {}
    for (p, i, k), v in prod.items():
        outs.setdefault(p, {})[(i, k)] = v
    if dst.n == 0:
        expect(not prod, what, ': empty result for', a, b)
        return
    by = {}
    for j, x in enumerate(dst.arcs):
        by.setdefault(x[0], []).append(j)
    co = coaccessible(dst)
    pair = {0: (0, 0)}
    st = [0]
    while st:
        s = st.pop()
        p = pair[s]
        if s in co:
            expect((s == dst.n - 1) == (p == (a.n - 1, b.n - 1)), what,
                   ': final state', p, dst)
        have = {}
        for j in by.get(s, ()):
            x = dst.arcs[j]
            i, k = ma[j], mb[j]
            expect(i >= -1 and k >= -1 and (i >= 0 or k >= 0) and
                   i < len(a.arcs) and k < len(b.arcs),
                   what, ': arc map entries', i, k, dst)
            q = list(p)
            if i >= 0:
                expect(a.arcs[i][0] == p[0], what, ': arc', x,
                       'maps to an arc of another state', p, i, a, dst)
                q[0] = a.arcs[i][1]
            if k >= 0:
                expect(b.arcs[k][0] == p[1], what, ': arc', x,
                       'maps to an arc of another state', p, k, b, dst)
                q[1] = b.arcs[k][1]
            q = tuple(q)
            d = x[1]
            if d not in pair:
                pair[d] = q
                st.append(d)
            expect(pair[d] == q, what, ': state', d, 'stands for', pair[d],
                   'and', q, dst)
            if d in co:
                expect((i, k) not in have, what, ': duplicate arc', p, i, k,
                       dst)
                have[(i, k)] = (q, x[2], x[3])
        if have != outs.get(p, {}):
            expect(False, what, ': arcs of state', s, 'i.e.', p,
                   sorted(have.items()), 'expected',
                   sorted(outs.get(p, {}).items()), 'of', a, b, dst)


def loc(m, fsa, src, which):
    offs = arc_offsets(src)
    return [[x - offs[w] if x >= 0 else -1 for x in part]
            for part, w in zip(split_attr(fsa, m.tolist()), which)]


def run(av, bv, mode, bmap=None):
    step()
    if mode == 'device':
        return k2.intersect_device(av, bv, bmap, ret_arc_maps=True)
    if mode == 'sorted':
        return k2.intersect_device(av, bv, bmap, sorted_match_a=True,
                                   ret_arc_maps=True)
    return k2.intersect(av, bv, treat_epsilons_specially=mode == 'eps',
                        ret_arc_maps=True)


def compare(arefs, brefs, a_of, modes, out=None):
    """a_of[i]: the entry of arefs that brefs[i] meets."""
    av, bv = build_vec(arefs), build_vec(brefs)
    bm = torch.tensor(a_of, dtype=torch.int32)
    sig = []
    for mode in modes:
        if mode in ('plain', 'eps') and not (
                len(arefs) == 1 or a_of == list(range(len(arefs)))):
            continue
        o, ma, mb = run(av, bv, mode, bm)
        got = read(o)
        expect(len(got) == len(brefs), mode, ': batch size', len(got))
        la = loc(ma, o, arefs, a_of)
        lb = loc(mb, o, brefs, range(len(brefs)))
        for i, g in enumerate(got):
            verify(arefs[a_of[i]], brefs[i], g, la[i], lb[i], mode == 'eps',
                   'intersect ' + mode)
        sig.append([g.key() for g in got])
    return sig


# ---------------------------------------------------------------- universes
UNI = {
    'cyc3': (3, (0, 1), False),
    'acy4': (4, (0, 1), True),
    'lab3': (3, (1, 2), False),
}


def member(name, bits, seed=0):
    n, labels, acy = UNI[name]
    sl = slots(n, labels, acyclic=acy)
    return srt(from_bits(n, sl, bits, lambda i, s, d, l:
                         -0.25 * (i + 1 + seed)))


def size(name):
    n, labels, acy = UNI[name]
    return 1 << len(slots(n, labels, acyclic=acy))


def pair_cases(name, astep, bstep, block):
    def gen(tier):
        sa, sb = (astep, bstep) if tier == 'quick' else (
            max(1, astep // 4), max(1, bstep // 2))
        tot = size(name)
        for a in range(sa - 1, tot, sa):
            for b in range(0, tot, block * sb):
                yield [name, a, b, sb, block]
    return gen


def check_pairs(case):
    name, abits, b0, sb, block = case
    a = member(name, abits)
    brefs = [member(name, x, 20) for x in range(b0, min(
        size(name), b0 + block * sb), sb)]
    return compare([a], brefs, [0] * len(brefs),
                   ('device', 'sorted', 'plain', 'eps'))


SH = [
    Ref(0, []),
    Ref(2, []),
    Ref(2, [(0, 1, -1, -0.5)]),
    srt(Ref(4, [(0, 1, 1, -0.5), (0, 1, 1, -0.75), (0, 2, 2, -1.0),
                (1, 2, 1, -0.25), (1, 3, -1, -2.0), (2, 3, -1, -0.125)])),
    srt(Ref(3, [(0, 0, 1, -0.5), (0, 0, 2, -0.25), (0, 1, 0, -1.0),
                (0, 2, -1, -0.375), (1, 0, 1, -0.5)])),
    srt(Ref(5, [(0, 1, 0, -0.5), (1, 2, 1, -0.25), (2, 3, 0, -1.0),
                (3, 4, -1, -0.375), (0, 3, 2, -0.5), (0, 3, 1, -3.0)])),
]


def map_cases(tier):
    """every vector of a's, every vector of b's, every map between"""
    for na in (1, 2, 3):
        for a in itertools.product(range(len(SH)), repeat=na):
            if na == 3 and (tier == 'quick' and sum(a) % 4 or
                            len(set(a)) < 2):
                continue
            for nb in (1, 2):
                for b in itertools.product(range(1, len(SH)), repeat=nb):
                    yield [list(a), list(b)]


def check_maps(case):
    ai, bi = case
    sig = []
    arefs, brefs = [SH[i] for i in ai], [SH[i] for i in bi]
    for m in itertools.product(range(len(ai)), repeat=len(bi)):
        sig.append(compare(arefs, brefs, list(m),
                           ('device', 'sorted', 'plain', 'eps')))
    return sig


def rev(r):
    return Ref(r.n, list(reversed(r.arcs)))


def unsorted_cases(tier):
    for i in range(len(SH)):
        for j in range(len(SH)):
            yield [i, j]


def check_unsorted(case):
    i, j = case
    a, b = rev(SH[i]), rev(SH[j])
    sig = compare([a, SH[3]], [b, b, SH[4]], [0, 1, 0], ('device',))
    # inputs that are not arc-sorted are refused where sorting is required
    for x, y in ((a, SH[j]), (SH[i], b)):
        fx, fy = build(x), build(y)
        bad = not all(sorted_ok(z) for z in (x, y))
        try:
            k2.intersect(fx, fy)
            expect(not bad, 'intersect accepted unsorted input', x, y)
        except AssertionError:
            expect(bad, 'intersect refused sorted input', x, y)
    return sig


def sorted_ok(r):
    return all(p[0] != q[0] or (lab_key(p[2]), p[1]) <= (lab_key(q[2]), q[1])
               for p, q in zip(r.arcs, r.arcs[1:]))


# single/vector combinations: both single -> single; sharing when one is 1
def form_cases(tier):
    for i in range(1, len(SH)):
        for j in range(1, len(SH)):
            for fa in (0, 1, 2):
                for fb in (0, 1, 2):
                    yield [i, j, fa, fb]


def check_forms(case):
    i, j, fa, fb = case

    def mk(x, f):
        if f == 0:
            return build(SH[x]), [SH[x]]
        if f == 1:
            return build_vec([SH[x]]), [SH[x]]
        v = [SH[x], SH[3], SH[x]]
        return build_vec(v), v
    a, ar = mk(i, fa)
    b, br = mk(j, fb)
    n = max(len(ar), len(br))
    ai = [0] * n if len(ar) == 1 else list(range(n))
    bi = [0] * n if len(br) == 1 else list(range(n))
    sig = []
    for eps in (True, False):
        o, ma, mb = k2.intersect(a, b, treat_epsilons_specially=eps,
                                 ret_arc_maps=True)
        step()
        expect((len(o.shape) == 2) == (fa == 0 and fb == 0),
               'intersect: axes of the result', o.shape)
        got = read(o)
        expect(len(got) == n, 'intersect: batch size')
        la, lb = loc(ma, o, ar, ai), loc(mb, o, br, bi)
        for k, g in enumerate(got):
            verify(ar[ai[k]], br[bi[k]], g, la[k], lb[k], eps, 'intersect')
        sig.append([g.key() for g in got])
    return sig


# --------------------------------------------------------------- composition
def compose_cases(tier):
    tot = size('acy4')
    for a in range(1, tot, 3 if tier == 'quick' else 1):
        for pat in (0, 1, 2):
            for b in range(a % 16, tot, 256):
                yield [a, pat, b]


OUT = [[1, 1, 0, 1, 1, 0, 0], [0, 0, 1, 1, 1, 2, 0], [0, 1, 0, 1, 0, 0, 1]]


def check_compose(case):
    abits, pat, b0 = case
    a = member('acy4', abits)
    aux_a = [-1 if x[2] == -1 else OUT[pat][i % 7]
             for i, x in enumerate(a.arcs)]
    fa = build(a)
    fa.aux_labels = torch.tensor(aux_a, dtype=torch.int32)
    sig = []
    for bb in range(b0, min(size('acy4'), b0 + 256), 16):
        b = member('acy4', bb, 20)
        for with_aux in (False, True):
            fb = build(b)
            aux_b = [-1 if x[2] == -1 else 30 + i % 4 * (i % 3 > 0)
                     for i, x in enumerate(b.arcs)]
            if with_aux:
                fb.aux_labels = torch.tensor(aux_b, dtype=torch.int32)
            for eps in (True, False):
                o = k2.compose(fa, fb, treat_epsilons_specially=eps,
                               inner_labels='inner' if with_aux else None)
                step()
                r = read1(o)
                m = validate(r)
                expect(m is None or not r.arcs, 'compose: malformed', m, r)
                # reference: product of a (by output label) and b
                inv = Ref(a.n, [(s, d, x, w) for (s, d, l, w), x in
                                zip(a.arcs, aux_a)])
                prod = product(inv, b, eps)
                ids = {(0, 0): 0}
                arcs, ins, outs, inner = [], [], [], []
                for (p, i, j), (q, l, w) in prod.items():
                    for z in (p, q):
                        ids.setdefault(z, len(ids))
                fin = (a.n - 1, b.n - 1)
                order = [z for z in ids if z != fin]
                num = {z: k for k, z in enumerate(order)}
                num[fin] = len(order)
                full = []
                for (p, i, j), (q, l, w) in prod.items():
                    full.append((num[p], num[q],
                                 a.arcs[i][2] if i >= 0 else 0, w,
                                 (aux_b[j] if with_aux else b.arcs[j][2])
                                 if j >= 0 else 0, l))
                full.sort(key=lambda z: z[0])
                ref = Ref(len(order) + 1, [z[:4] for z in full])
                want = io_relation(ref, [z[4] for z in full])
                got = io_relation(r, o.aux_labels.tolist())
                expect(same_paths(want, got), 'compose: relation', got,
                       'expected', want, a, aux_a, b, aux_b, eps)
                if with_aux:
                    wi = io_relation(ref, [z[5] for z in full])
                    gi = io_relation(r, o.inner.tolist())
                    expect(same_paths(wi, gi), 'compose: inner labels', gi,
                           'expected', wi)
                sig.append(r.key())
    expect(fa.aux_labels.tolist() == aux_a, 'compose changed its input')
    return sig


# --------------------------------------- many states: hash growth, key widths
def big_cases(tier):
    hi = 60 if tier == 'quick' else 200
    for n in list(range(1, hi)) + [127, 128, 129, 255, 256, 257, 300]:
        for kind in (0, 1, 2):
            yield [kind, n]


def check_big(case):
    kind, n = case
    if kind == 0:    # two chains with parallel labels
        a = Ref(n + 2, [(i, i + 1, 1 + k, -0.25 * k) for i in range(n)
                        for k in (0, 1)] + [(n, n + 1, -1, -0.5)])
        b = Ref(n + 2, [(i, i + 1, 1 + (i + k) % 2, -0.5 * k)
                        for i in range(n) for k in (0, 1)] +
                [(n, n + 1, -1, -0.25)])
    elif kind == 1:  # counters: product of coprime cycles
        m = n + 1
        a = Ref(n + 1, [(i, (i + 1) % n, 1, -0.25) for i in range(n)] +
                [(0, n, -1, -0.5)])
        k = min(n + 1, 40)
        b = Ref(k + 1, [(i, (i + 1) % k, 1, -0.5) for i in range(k)] +
                [(0, k, -1, -0.5)])
        if n > 60:
            a = Ref(41, [(i, (i + 1) % 40, 1, -0.25) for i in range(40)] +
                    [(0, 40, -1, -0.5)])
    else:            # one state with n arcs against one with n//2 arcs
        a = Ref(3, [(0, 1, 1 + i % 7, -0.125 * (i % 5)) for i in range(n)] +
                [(1, 2, -1, -0.5)])
        b = Ref(3, [(0, 1, 1 + i % 5, -0.25 * (i % 3))
                    for i in range(n // 2 + 1)] + [(1, 2, -1, -0.5)])
    a, b = srt(a), srt(b)
    s1 = compare([a], [b, SH[3], b], [0, 0, 0],
                 ('device', 'sorted', 'plain', 'eps'))
    s2 = compare([SH[4], a, SH[3]], [b, a, SH[3], b], [1, 1, 2, 0],
                 ('device', 'sorted'))
    return s1, s2


FAMILIES = [
    Family('pairs_acyclic4', pair_cases('acy4', 1, 2, 64), check_pairs,
           'all pairs of acyclic 4-state automata over {eps,1} (512 x 512, '
           'every 2nd right side in quick), one left side shared by 64 right '
           'sides, four intersection variants'),
    Family('pairs_cyclic3', pair_cases('cyc3', 4, 4, 64), check_pairs,
           'pairs of 3-state automata over {eps,1}, cyclic included (1024 x '
           '1024; every 4th x every 4th in quick, every 1st x 2nd thorough)'),
    Family('pairs_labels3', pair_cases('lab3', 4, 4, 64), check_pairs,
           'pairs of 3-state automata over {1,2}'),
    Family('maps', map_cases, check_maps,
           'all vectors of 1..3 left and 1..2 right automata from 6 shapes, '
           'all maps from right to left entries'),
    Family('unsorted', unsorted_cases, check_unsorted,
           'unsorted inputs: accepted by the device variant, refused by the '
           'host one'),
    Family('forms', form_cases, check_forms,
           'single automata, one-entry vectors and 3-entry vectors on either '
           'side'),
    Family('compose', compose_cases, check_compose,
           'pairs of acyclic 4-state transducers over {eps,1} with 3 output '
           'patterns (a third of the left sides in quick), 32 right sides each'),
    Family('big', big_cases, check_big,
           'structured products of every size: chains, coprime cycles, '
           'many arcs per state'),
]
