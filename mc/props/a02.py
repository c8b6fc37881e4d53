"""A02: epsilon removal and determinization."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.props.a01 import uni_cases, universe
import k2
import _k2

L = 5
EMPTY = Ref(0, [])
SMALL = Ref(3, [(0, 1, 0, -1.0), (0, 1, 1, -0.5), (1, 2, -1, -2.0)])
ASSUMPTIONS = ['scores are non-positive multiples of 1/8 (float-exact sums); '
               'epsilon cycles have non-positive score, as documented']


def no_eps(r):
    return all(a[2] != 0 for a in r.arcs)


def seqs_of(fsa, refs):
    """per-FSA lists of source arc index sequences (local)."""
    offs = arc_offsets(refs)
    vals = fsa.idx.tolist()
    out = []
    for part, o in zip(split_attr(fsa, vals), offs):
        out.append([[x - 1 - o for x in s] for s in part])
    return out


def check_chain(src, seq, what, *ctx):
    """seq is a path in src; returns (from, to, score)."""
    for i, j in zip(seq, seq[1:]):
        expect(0 <= i < len(src.arcs) and 0 <= j < len(src.arcs) and
               src.arcs[i][1] == src.arcs[j][0],
               what, ': reported input arcs are not consecutive', seq, src,
               *ctx)
    return (src.arcs[seq[0]][0], src.arcs[seq[-1]][1],
            sum(src.arcs[i][3] for i in seq))


def bounded_paths(ref, n, limit=400):
    """up to limit complete paths with at most n arcs (shortest first)."""
    if ref.n == 0:
        return []
    ok = coaccessible(ref)
    by = {}
    for i, a in enumerate(ref.arcs):
        by.setdefault(a[0], []).append(i)
    out, cur = [], [(0, ())]
    for _ in range(n):
        nxt = []
        for s, p in cur:
            for i in by.get(s, ()):
                d = ref.arcs[i][1]
                if d == ref.n - 1:
                    out.append(p + (i,))
                elif d in ok:
                    nxt.append((d, p + (i,)))
        if len(out) > limit:
            break
        cur = nxt[:limit]
    return out


def verify_paths(src, dst, seqs, what, maxarcs=5):
    """every complete path of dst reports a complete path of src with the same
    labels and the same score."""
    for p in bounded_paths(dst, maxarcs):
        q = [i for j in p for i in seqs[j]]
        expect(q, what, ': path without sources', p, dst, seqs)
        s, d, w = check_chain(src, q, what, p, dst, seqs)
        expect(s == 0 and d == src.n - 1, what,
               ': reported input arcs are not a complete path', q, src, dst)
        expect(path_labels(src, q) == path_labels(dst, p) and
               close_to(w, path_score(dst, p), 1e-5), what,
               ': path', p, 'of', dst, 'reports', q, 'of', src)


def verify_rmeps(src, dst, seqs, what, loops=False):
    m = validate(dst) if dst.n != 1 else None
    expect(m is None, what, ': malformed', m, dst)
    core, cs = dst, seqs
    if loops:
        for s in range(dst.n - 1):
            own = [(a, q) for a, q in zip(dst.arcs, seqs)
                   if a[0] == s and a[2] == 0]
            expect(len(own) == 1 and own[0][0] == (s, s, 0, 0.0) and
                   own[0][1] == [], what,
                   ': epsilon arcs of state', s, 'are', own)
        keep = [i for i, a in enumerate(dst.arcs) if a[2] != 0]
        core = Ref(dst.n, [dst.arcs[i] for i in keep])
        cs = [seqs[i] for i in keep]
    expect(no_eps(core), what, ': epsilons left', dst)
    expect_weights(weights(core, L), weights(src, L), what, src, dst)
    for a, q in zip(core.arcs, cs):
        expect(q, what, ': arc without sources', a, dst)
        s, d, w = check_chain(src, q, what)
        expect(close_to(w, a[3], 1e-5), what, ': arc', a, 'reports', q, src)
        labs = [src.arcs[i][2] for i in q if src.arcs[i][2] != 0]
        expect(labs == [a[2]], what, ': arc', a, 'reports', q, 'labels', labs)
    verify_paths(src, core, cs, what)


# ----------------------------------------------------- entry points compared
def host_ok(r):
    return all(a[0] < a[1] for a in r.arcs)


def run_rmeps(refs, mode):
    vec = attach_idx(build_vec(refs)) if mode != 'single' else attach_idx(
        build(refs[0]))
    if mode == 'device':
        ra, am = _k2.remove_epsilon_device(vec.arcs)
        o = k2.utils.fsa_from_unary_function_ragged(vec, ra, am)
    elif mode == 'host':
        ra, am = _k2.remove_epsilon_host(vec.arcs)
        o = k2.utils.fsa_from_unary_function_ragged(vec, ra, am)
    elif mode == 'loops':
        o = k2.remove_epsilon_and_add_self_loops(vec)
    else:
        o = k2.remove_epsilon(vec)
    step()
    return o


def seqs_any(o, refs):
    """idx may be a tensor (no epsilons: returned via a linear map)."""
    if isinstance(o.idx, torch.Tensor):
        offs = arc_offsets(refs)
        return [[[x - 1 - off] if x > 0 else [] for x in part]
                for part, off in zip(split_attr(o, o.idx.tolist()), offs)]
    return seqs_of(o, refs)


def rmeps(refs, singles=True):
    sig = []
    groups = [('auto', refs), ('loops', refs), ('device', refs),
              ('host', [r for r in refs if host_ok(r)])]
    for mode, use in groups:
        if not use:
            continue
        o = run_rmeps(use, mode)
        got = read(o)
        expect(len(got) == len(use), 'remove_epsilon: batch size')
        for s, d, q in zip(use, got, seqs_any(o, use)):
            verify_rmeps(s, d, q, 'remove_epsilon ' + mode, mode == 'loops')
        sig.append([g.key() for g in got])
    if singles:
        for r in refs:
            o = run_rmeps([r], 'single')
            verify_rmeps(r, read1(o), seqs_any(o, [r])[0],
                         'remove_epsilon single')
    return sig


def check_rmeps(case):
    return rmeps(universe(case))


def check_rmeps_fst(case):
    """output labels: int attribute with filler 0, some arcs with output."""
    sig = []
    for r in universe(case):
        if not r.n:
            continue
        aux = [-1 if a[2] == -1 else (0 if i % 3 == 1 else 10 + i)
               for i, a in enumerate(r.arcs)]
        f = attach_idx(build(r))
        f.aux_labels = torch.tensor(aux, dtype=torch.int32)
        f.extra = torch.arange(f.num_arcs, dtype=torch.float32) + 0.5
        f.rag = k2.RaggedTensor([[100 + i] * (i % 3) for i in range(
            f.num_arcs)], dtype=torch.int32) if f.num_arcs else \
            k2.RaggedTensor(k2.ragged.create_ragged_shape2(
                row_splits=torch.tensor([0], dtype=torch.int32)),
                torch.empty(0, dtype=torch.int32))
        for name in ('auto', 'loops'):
            o = (k2.remove_epsilon if name == 'auto' else
                 k2.remove_epsilon_and_add_self_loops)(f)
            step()
            seqs = seqs_any(o, [r])[0]
            al = o.aux_labels.tolist()
            if isinstance(o.aux_labels, torch.Tensor):
                want = [aux[q[0]] if q else 0 for q in seqs]
            else:
                want = [[aux[i] for i in q if aux[i] not in (0, -1)]
                        for q in seqs]
            expect(al == want, name, ': output labels', al, 'expected', want,
                   r, read1(o), seqs)
            ex = o.extra.tolist()
            expect(ex == [sum(i + 0.5 for i in q) for q in seqs],
                   name, ': float attribute', ex, seqs)
            rg = o.rag.tolist()
            expect(rg == [[x for i in q for x in [100 + i] * (i % 3)]
                          for q in seqs], name, ': ragged attribute', rg, seqs)
            sig.append(al)
    return sig


# ----------------------------------------------------------- determinization
PUSH = [_k2.DeterminizeWeightPushingType.kNoWeightPushing,
        _k2.DeterminizeWeightPushingType.kTropicalWeightPushing,
        _k2.DeterminizeWeightPushingType.kLogWeightPushing]


def det_ok(r):
    return r.n >= 2 and len(useful(r)) == r.n and not has_cycle(r)


def verify_det(src, dst, seqs, push):
    what = f'determinize (push {push})'
    m = validate(dst)
    expect(m is None, what, ': malformed', m, dst)
    seen = set()
    for a in dst.arcs:
        expect((a[0], a[2]) not in seen, what, ': two arcs with label', a[2],
               'leave state', a[0], dst)
        seen.add((a[0], a[2]))
    expect_weights(weights(dst, L, eps=None), weights(src, L, eps=None), what,
                   src, dst)
    if push == 0:
        for a, q in zip(dst.arcs, seqs):
            w = sum(src.arcs[i][3] for i in q)
            expect(close_to(w, a[3], 1e-5), what, ': arc', a, 'reports', q,
                   'of score', w)
    for p in bounded_paths(dst, 6):
        q = [i for j in p for i in seqs[j]]
        s, d, w = check_chain(src, q, what, p, dst, seqs)
        expect(s == 0 and d == src.n - 1 and
               [src.arcs[i][2] for i in q] == [dst.arcs[j][2] for j in p] and
               close_to(w, path_score(dst, p), 1e-5), what, ': path', p,
               'of', dst, 'reports', q, 'of', src)


def determ(refs, pushes=(0, 1, 2), singles=False):
    sig = []
    for push in pushes:
        vec = attach_idx(build_vec(refs))
        o = k2.determinize(vec, PUSH[push])
        step()
        got = read(o)
        expect(len(got) == len(refs), 'determinize: batch size')
        if isinstance(o.idx, torch.Tensor):
            offs = arc_offsets(refs)
            sq = [[[x - off] for x in part] for part, off in
                  zip(split_attr(o, get_idx(o)), offs)]
        else:
            sq = seqs_of(o, refs)
        for s, d, q in zip(refs, got, sq):
            if s.n:
                verify_det(s, d, q, push)
            else:
                expect(not d.arcs, 'determinize of an empty automaton')
        sig.append([g.key() for g in got])
        if singles:
            for r in refs:
                if not r.n:
                    continue
                o = k2.determinize(attach_idx(build(r)), PUSH[push])
                step()
                q = [[x] for x in get_idx(o)] if isinstance(
                    o.idx, torch.Tensor) else seqs_of(o, [r])[0]
                verify_det(r, read1(o), q, push)
    return sig


def check_det(case):
    return determ([r for r in universe(case) if det_ok(r)])


def det_multi_slots():
    """4 states, two labels, two scores per arc slot: nondeterminism with
    different residual weights."""
    return [(0, 1, 1, -0.5), (0, 1, 1, -0.25), (0, 2, 1, -1.0), (0, 2, 2, 0.0),
            (0, 1, 2, -0.75), (1, 3, 1, -0.5), (2, 3, 1, -2.0),
            (1, 3, 2, -0.125), (2, 3, 2, -0.25), (1, 2, 1, -1.5),
            (1, 4, -1, -0.5), (2, 4, -1, -0.25), (3, 4, -1, -1.0),
            (3, 4, -1, -0.375)]


def det_cases(tier):
    sl = det_multi_slots()
    for b in range(0, 1 << len(sl), 64):
        yield [b]


def check_det_weighted(case):
    sl = det_multi_slots()
    refs = []
    for bits in range(case[0], case[0] + 64):
        r = Ref(5, [a for i, a in enumerate(sl) if bits >> i & 1])
        if det_ok(r):
            refs.append(r)
    if not refs:
        return None
    return determ(refs + [SMALL.__class__(3, [(0, 1, 1, -1.0),
                                               (1, 2, -1, -0.5)])],
                  singles=False), determ(refs[:2], singles=True)


# cyclic automata on which the algorithm terminates: it identifies a result
# state by an input state and the symbols read since, so two branches that stay
# apart for ever make it run for ever
CYC = [
    Ref(3, [(0, 0, 1, -0.5), (0, 1, 1, -0.5), (1, 2, -1, -1.0)]),
    Ref(3, [(0, 0, 1, -0.5), (0, 0, 2, -0.75), (0, 1, 1, -0.125),
            (0, 2, -1, -1.0), (1, 2, -1, -0.5)]),
    Ref(4, [(0, 1, 1, -0.5), (1, 2, 2, -0.5), (2, 1, 3, -0.5),
            (2, 1, 3, -1.0), (1, 3, -1, -0.5)]),
]


def cyc_cases(tier):
    for k in (1, 2, 3):
        for t in itertools.product(range(len(CYC)), repeat=k):
            yield list(t)


def check_cyc(case):
    refs = [CYC[i] for i in case]
    return determ(refs, singles=len(refs) == 1)


def batch_cases(tier):
    k = 4 if tier == 'quick' else 5
    for ln in range(1, k + 1):
        for t in itertools.product(range(6), repeat=ln):
            yield list(t)


BATCH = [
    EMPTY, Ref(2, []), SMALL,
    Ref(4, [(0, 1, 0, -0.5), (0, 2, 2, -1.0), (1, 2, 0, -0.25),
            (1, 3, -1, -2.0), (2, 3, -1, -0.125)]),
    Ref(4, [(0, 0, 0, -1.0), (0, 1, 0, -0.5), (1, 0, 0, -0.75),
            (1, 2, 1, -0.25), (2, 2, 0, 0.0), (2, 3, -1, -0.5)]),
    Ref(3, [(0, 1, 1, -0.5), (0, 1, 2, -0.75), (1, 2, -1, -1.0)]),
]


def check_batch(case):
    refs = [BATCH[i] for i in case]
    sig = rmeps(refs, singles=False)
    det = [r for r in refs if r.n == 0 or (det_ok(r))]
    if det:
        sig.append(determ(det))
    return sig


def chain_cases(tier):
    """chains of epsilons: closure by repeated squaring needs log steps"""
    hi = 40 if tier == 'quick' else 140
    for n in range(1, hi):
        for kind in range(4):
            yield [n, kind]


def check_chain_len(case):
    n, kind = case
    arcs = []
    if kind == 0:     # n epsilons then a symbol
        arcs = [(i, i + 1, 0, -0.125) for i in range(n)]
        arcs += [(n, n + 1, 1, -1.0), (n + 1, n + 2, -1, -0.5)]
        r = Ref(n + 3, arcs)
    elif kind == 1:   # symbol, n epsilons, final
        arcs = [(0, 1, 1, -1.0)]
        arcs += [(i + 1, i + 2, 0, -0.125) for i in range(n)]
        arcs += [(n + 1, n + 2, -1, -0.5)]
        r = Ref(n + 3, arcs)
    elif kind == 2:   # an epsilon cycle of n states with one exit
        arcs = [(i, (i + 1) % n, 0, -0.125) for i in range(n)]
        arcs += [(n - 1, n, 1, -1.0), (n, n + 1, -1, -0.25),
                 (n // 2, n, 2, -0.5)]
        r = Ref(n + 2, arcs)
    else:             # ladder: epsilon or symbol at each of n steps
        m = min(n, 10)
        for i in range(m):
            arcs += [(i, i + 1, 0, -0.25 * (i % 3)),
                     (i, i + 1, 1 + i % 2, -0.125)]
        arcs += [(m, m + 1, -1, -0.5)]
        r = Ref(m + 2, arcs)
    return rmeps([r, SMALL, EMPTY, r], singles=True)


FAMILIES = [
    Family('rmeps3', uni_cases(3, (0, 1), 32), check_rmeps,
           'every 3-state automaton over {eps,1} (2^10, cyclic included), '
           'batched and single, through automatic/device/host/self-loop '
           'epsilon removal'),
    Family('rmeps3b', uni_cases(3, (0, 1, 2), 64, every=2), check_rmeps,
           'every 3-state automaton over {eps,1,2} (every 2nd batch in '
           'quick)'),
    Family('rmeps4acyclic', uni_cases(4, (0, 1), 32, acyclic=True),
           check_rmeps, 'every acyclic 4-state automaton over {eps,1}'),
    Family('rmeps5acyclic', uni_cases(5, (0, 1), 64, every=2, acyclic=True),
           check_rmeps, 'every acyclic 5-state automaton over {eps,1} (every '
           '2nd batch in quick)'),
    Family('rmeps_fst', uni_cases(4, (0, 1), 32, acyclic=True),
           check_rmeps_fst, 'attributes through epsilon removal on every '
           'acyclic 4-state automaton'),
    Family('rmeps_fst_cyclic', uni_cases(3, (0, 1), 32),
           check_rmeps_fst, 'attributes through epsilon removal on every '
           '3-state automaton'),
    Family('det4', uni_cases(4, (1, 2), 64, acyclic=True), check_det,
           'every connected acyclic 4-state automaton over {1,2}, three '
           'pushing modes'),
    Family('det5', uni_cases(5, (0, 1), 128, every=1, acyclic=True), check_det,
           'every connected acyclic 5-state automaton over {eps,1} (as '
           'symbols)'),
    Family('det_weighted', det_cases, check_det_weighted,
           'all 2^14 subsets of a 5-state slot set with competing scores'),
    Family('det_cyclic', cyc_cases, check_cyc,
           'determinizable cyclic automata, all batches up to 3'),
    Family('batches', batch_cases, check_batch,
           'all batches up to length 4 over 6 shapes (empty included)'),
    Family('chains', chain_cases, check_chain_len,
           'epsilon chains/cycles of every length'),
]
