"""A06: gradients equal the true derivatives."""
from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.props.a05 import UNI, SCHEMES, member, EMPTY, BARE, POOL
import k2


# ---------------------------------------------------- score functions, per FSA
class Paths:
    def __init__(self, r):
        self.r = r
        n = r.n
        by, ent = {}, {}
        for i, a in enumerate(r.arcs):
            by.setdefault(a[0], []).append(i)
            ent.setdefault(a[1], []).append(i)
        self.to = [[] for _ in range(n)]      # (arcs, weight) 0 -> s
        self.frm = [[] for _ in range(n)]     # s -> final
        if n == 0:
            return
        st = [(0, 0.0, ())]
        while st:
            s, w, p = st.pop()
            self.to[s].append((p, w))
            for i in by.get(s, ()):
                st.append((r.arcs[i][1], w + r.arcs[i][3], p + (i,)))
        st = [(n - 1, 0.0, ())]
        while st:
            s, w, p = st.pop()
            self.frm[s].append((p, w))
            for i in ent.get(s, ()):
                st.append((r.arcs[i][0], w + r.arcs[i][3], (i,) + p))

    def log_grad(self, paths):
        """posterior of every arc among paths; None when the total is -inf"""
        tot = NEG
        for p, w in paths:
            tot = logadd(tot, w)
        if tot == NEG:
            return None
        g = [0.0] * len(self.r.arcs)
        for p, w in paths:
            if w == NEG:
                continue
            x = math.exp(w - tot)
            for i in p:
                g[i] += x
        return g

    def best(self, paths):
        """indicator vectors of all best paths; None when all are -inf"""
        m = max([w for p, w in paths], default=NEG)
        if m == NEG:
            return None
        out = []
        for p, w in paths:
            if w >= m - 1e-9:
                g = [0.0] * len(self.r.arcs)
                for i in p:
                    g[i] += 1
                out.append(g)
        return out


def lin(*terms):
    out = None
    for c, g in terms:
        if out is None:
            out = [c * x for x in g]
        else:
            out = [y + c * x for y, x in zip(out, g)]
    return out


def unit(n, i):
    g = [0.0] * n
    g[i] = 1.0
    return g


def expected(P, kind, k, log):
    """list of acceptable gradients (local), or None = not constrained"""
    r = P.r
    if r.n == 0:
        return None
    if kind == 'tot':
        ps = P.to[r.n - 1]
    elif kind == 'fwd':
        ps = P.to[k]
    elif kind == 'bwd':
        ps = P.frm[k]
    else:
        a = r.arcs[k]
        if a[3] == NEG:
            return None
        parts = [P.to[a[0]], P.frm[a[1]], P.to[r.n - 1], P.frm[0]]
        if log:
            gs = [P.log_grad(x) for x in parts]
            if any(g is None for g in gs):
                return None
            return [lin((1, unit(len(r.arcs), k)), (1, gs[0]), (1, gs[1]),
                        (-0.5, gs[2]), (-0.5, gs[3]))]
        bs = [P.best(x) for x in parts]
        if any(b is None for b in bs):
            return None
        return [lin((1, unit(len(r.arcs), k)), (1, x[0]), (1, x[1]),
                    (-0.5, x[2]), (-0.5, x[3]))
                for x in itertools.product(*bs)]
    if log:
        g = P.log_grad(ps)
        return None if g is None else [g]
    return P.best(ps)


def call(fsa, kind, dbl, log):
    return {'tot': fsa.get_tot_scores, 'fwd': fsa.get_forward_scores,
            'bwd': fsa.get_backward_scores,
            'post': fsa.get_arc_post}[kind](dbl, log)


def counts(r, kind):
    return {'tot': 1, 'fwd': r.n, 'bwd': r.n, 'post': len(r.arcs)}[kind]


def check_block(refs, kinds=('tot', 'fwd', 'bwd', 'post')):
    fsa = build_vec(refs)
    fsa.requires_grad_(True)
    Ps = [Paths(r) for r in refs]
    sig = []
    for kind in kinds:
        offs, o = [], 0
        for r in refs:
            offs.append(o)
            o += counts(r, kind)
        for dbl in (True, False):
            tol = 1e-5 if dbl else 2e-3
            for log in (True, False):
                out = call(fsa, kind, dbl, log)
                expect(out.numel() == o, kind, 'size')
                for k in range(max(counts(r, kind) for r in refs)):
                    want = []
                    g = torch.zeros_like(out)
                    for r, P, of in zip(refs, Ps, offs):
                        w = None
                        if k < counts(r, kind):
                            w = expected(P, kind, k, log)
                            if w is not None:
                                g[of + k] = 1.0
                        want.append(w)
                    step()
                    grad, = torch.autograd.grad(out, fsa.scores, g,
                                                retain_graph=True)
                    expect(grad.dtype == torch.float32, 'grad dtype')
                    got = split_attr(fsa, grad.tolist())
                    for r, w, v in zip(refs, want, got):
                        if w is None:
                            w = [[0.0] * len(r.arcs)]
                        if not any(all(abs(x - y) <= tol
                                       for x, y in zip(c, v)) for c in w):
                            expect(False, 'gradient of', kind, k,
                                   f'(double={dbl}, log={log}) is', v,
                                   'expected one of', w[:4], r)
                    sig.append(sum(sum(v) for v in got))
    return sig


def block_cases(u, scheme, every, block=16):
    def gen(tier):
        ev = every if tier == 'quick' else max(1, every // 4)
        tot = 1 << len(UNI[u][1])
        for k, b in enumerate(range(0, tot, block)):
            if k % ev == ev - 1 or ev == 1:
                yield [u, scheme, b, block]
    return gen


def check_universe(case):
    u, scheme, b0, block = case
    refs = [member(u, b, scheme) for b in range(b0, b0 + block)]
    refs = [EMPTY] + refs[:block // 2] + [BARE, EMPTY] + refs[block // 2:]
    return check_block(refs)


def batch_cases(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for b in itertools.product(range(len(POOL)), repeat=n):
            yield list(b)


def check_batch(case):
    return check_block([POOL[i] for i in case])


# ------------------------------------------------- gradients through programs
def q(i):
    return -((i * 37 + 11) % 101 + 5) / 64.0


def R(n, arcs):
    return Ref(n, [(s, d, l, q(i)) for i, (s, d, l) in enumerate(arcs)])


LEAVES = [
    [R(4, [(0, 1, 1), (0, 1, 2), (0, 2, 2), (1, 2, 1), (1, 3, -1),
           (2, 3, -1)])],
    [R(5, [(0, 1, 0), (0, 1, 1), (0, 2, 1), (1, 2, 2), (1, 3, 0), (2, 3, 1),
           (2, 4, -1), (3, 4, -1)]),
     R(3, [(0, 1, 1), (0, 1, 2), (0, 1, 1), (1, 2, -1), (0, 2, -1)])],
    [R(3, [(0, 1, 1), (1, 2, -1)]), EMPTY,
     R(5, [(0, 1, 1), (0, 2, 0), (1, 3, 2), (2, 3, 2), (3, 4, -1),
           (0, 3, 1)])],
]


def fixed_b(n):
    r = Ref(4, [(0, 1, 1, -0.5), (0, 1, 2, -0.25), (1, 1, 1, -1.5),
                (1, 1, 2, -0.125), (1, 2, 2, -0.75), (1, 3, -1, -1.0),
                (2, 3, -1, -0.375), (0, 3, -1, -2.0)])
    return k2.arc_sort(build_vec([r] * n))


def op_rescale(x):
    y = x.clone()
    y.scores = x.scores * 2.0
    return y


def op_shared(x):
    y = x.clone()
    y.scores = x.scores + x.scores * 0.5
    return y


def bare(x):
    y = k2.Fsa(x.arcs)      # the same arcs and scores, no attributes
    y.scores = x.scores
    return y


def batch(x):
    return x.shape[0]


def ragged_then_expand(x):
    y = x.clone()
    n = y.num_arcs
    rows = [[3, 4], [], [5], [6, 7, 8]]
    lab = y.labels.tolist()
    y.multi = k2.RaggedTensor([[-1] if lab[i] == -1 else rows[i % 4]
                               for i in range(n)], dtype=torch.int32) \
        if n else k2.RaggedTensor(torch.zeros(0, 1, dtype=torch.int32))
    return k2.expand_ragged_attributes(y)


OPS = {
    'top_sort': lambda x: k2.top_sort(x),
    'connect': lambda x: k2.connect(x),
    'arc_sort': lambda x: k2.arc_sort(x),
    'rmeps': lambda x: k2.remove_epsilon(x),
    'rmeps_sl': lambda x: k2.remove_epsilon_and_add_self_loops(x),
    'rm_self': lambda x: k2.remove_epsilon_self_loops(x),
    'add_self': lambda x: k2.add_epsilon_self_loops(x),
    'intersect': lambda x: k2.intersect(k2.arc_sort(x), fixed_b(batch(x))),
    'intersect_noeps': lambda x: k2.intersect(
        k2.arc_sort(x), fixed_b(batch(x)), treat_epsilons_specially=False),
    'intersect_self': lambda x: k2.intersect(
        k2.arc_sort(x), k2.arc_sort(bare(x)), treat_epsilons_specially=False),
    'device': lambda x: k2.intersect_device(
        x, fixed_b(batch(x) + 1), torch.tensor(
            list(range(batch(x))) + [0], dtype=torch.int32)),
    'device_b': lambda x: k2.intersect_device(
        fixed_b(1), x, torch.zeros(batch(x), dtype=torch.int32)),
    'closure': lambda x: k2.create_fsa_vec(
        [k2.closure(x[i]) for i in range(batch(x)) if x[i].shape[0] > 0]),
    'union': lambda x: k2.create_fsa_vec([k2.union(k2.index_fsa(
        x, torch.tensor([i for i in range(batch(x)) if x[i].shape[0] > 0] +
                        [0], dtype=torch.int32)))]),
    'shortest': lambda x: k2.shortest_path(x, True),
    'invert': lambda x: k2.invert(with_aux(x)),
    'reverse': lambda x: k2.reverse(x),
    'index': lambda x: k2.index_fsa(x, torch.tensor(
        [0] + list(range(batch(x))) + [batch(x) - 1], dtype=torch.int32)),
    'cat': lambda x: k2.cat([x, x]),
    'vec': lambda x: k2.create_fsa_vec(
        [x[i] for i in list(range(batch(x)))[::-1] + [0]]),
    'from_fsas': lambda x: k2.Fsa.from_fsas(
        [x[i] for i in list(range(batch(x)))[::-1]]),
    'clone': lambda x: x.clone(),
    'rescale': op_rescale,
    'shared': op_shared,
    'expand': ragged_then_expand,
    'prune': lambda x: k2.prune_on_arc_post(x, 0.02, True),
    'to': lambda x: x.to('cpu'),
}
CYCLIC_MAKERS = {'closure', 'rmeps_sl', 'add_self'}
NEEDS_ACYCLIC = {'top_sort', 'shortest', 'prune', 'rmeps'}
NEEDS_TOPSORT = {'shortest', 'prune'}


def with_aux(x):
    y = x.clone()
    y.aux_labels = torch.where(y.labels == -1, -1,
                               y.labels + 1).to(torch.int32)
    return y


READOUT = {
    'scores': None,
    'tot': lambda y: y.get_tot_scores(True, True),
    'best': lambda y: y.get_tot_scores(True, False),
}


def apply(prog, x):
    for name in prog:
        x = OPS[name](x)
    return x


def readout(y, kind):
    if kind == 'scores':
        v = y.scores.to(torch.float64)
    else:
        v = READOUT[kind](k2.top_sort(y))
        v = torch.where(torch.isinf(v), torch.zeros_like(v), v)
    w = torch.tensor([1 + (j * 5 + 2) % 7 for j in range(v.numel())],
                     dtype=torch.float64)
    return (v * w).sum(), v.numel()


def prog_ok(prog):
    cyc = False
    for name in prog:
        if cyc and name in NEEDS_ACYCLIC:
            return False
        if name in CYCLIC_MAKERS:
            cyc = True
        if name in ('rm_self',):
            cyc = cyc and 'closure' in prog[:prog.index(name)]
    return True


def run_prog(leaf, prog, kind, scores):
    x = build_vec(leaf)
    x.scores = scores
    y = x
    for name in prog:
        if name in NEEDS_TOPSORT:
            y = k2.top_sort(y)
        y = OPS[name](y)
        step()
    return readout(y, kind)


def prog_cases(depth):
    def gen(tier):
        for leaf in range(len(LEAVES)):
            for prog in itertools.product(OPS, repeat=depth):
                if not prog_ok(prog):
                    continue
                for kind in READOUT:
                    if kind != 'scores' and any(p in CYCLIC_MAKERS
                                                for p in prog):
                        continue
                    if depth == 2 and tier == 'quick' and kind == 'best':
                        continue
                    yield [leaf, list(prog), kind]
    return gen


def check_prog(case):
    leaf, prog, kind = case
    refs = LEAVES[leaf]
    base = torch.tensor([a[3] for r in refs for a in r.arcs],
                        dtype=torch.float32)
    s0 = base.clone().requires_grad_(True)
    L0, n0 = run_prog(refs, prog, kind, s0)
    if n0 == 0 or not L0.requires_grad:
        # no graph: legitimate only when nothing depends on the scores
        grad = [0.0] * len(base)
    else:
        g, = torch.autograd.grad(L0, s0, allow_unused=True)
        grad = [0.0] * len(base) if g is None else g.tolist()
    delta = 1.0 / 4096 if kind != 'tot' else 1 / 512
    tol = 2e-2 if kind != 'tot' else 3e-2
    for i in range(len(base)):
        vals = []
        for sgn in (1, -1):
            s = base.clone()
            s[i] += sgn * delta
            L, n = run_prog(refs, prog, kind, s)
            vals.append((L.item(), n))
        expect(vals[0][1] == vals[1][1] == n0, 'structure changed')
        right = (vals[0][0] - L0.item()) / delta
        left = (L0.item() - vals[1][0]) / delta
        lo, hi = min(left, right), max(left, right)
        expect(lo - tol <= grad[i] <= hi + tol, 'd', kind, 'of', prog,
               'w.r.t. score', i, 'is', grad[i], 'but the slope is', left,
               right, refs)
    return grad


# ------------------------------------------------------- dense intersections
GRAPHS = [
    Ref(3, [(0, 0, 1, -0.5), (0, 1, 2, -0.25), (1, 1, 1, -1.0),
            (1, 0, 2, -0.75), (1, 2, -1, -0.125), (0, 2, -1, -2.0)]),
    Ref(4, [(0, 1, 1, -0.5), (0, 1, 2, -0.25), (1, 1, 1, -1.0),
            (1, 2, 2, -0.75), (2, 0, 1, -0.375), (1, 3, -1, -0.625),
            (2, 3, -1, -0.5)]),
]


def dense_cases(tier):
    for g in range(len(GRAPHS)):
        for segs in ([[0, 0, 2]], [[0, 0, 3]], [[0, 0, 1], [0, 1, 2]],
                     [[0, 0, 3], [0, 1, 2]], [[1, 0, 2], [0, 0, 3]],
                     [[0, 0, 2], [0, 0, 2], [1, 1, 2]],
                     [[1, 0, 3], [0, 2, 1], [0, 0, 1]]):
            for kind in ('unpruned', 'pruned', 'mapped'):
                for ro in ('scores', 'tot', 'best'):
                    yield [g, segs, kind, ro]


def dense_run(case, gs, lp):
    g, segs, kind, ro = case
    n = len(segs)
    segs = sorted(segs, key=lambda s: -s[2]) if kind != 'pruned' else segs
    dense = k2.DenseFsaVec(lp, torch.tensor(segs, dtype=torch.int32))
    step()
    if kind == 'pruned':
        a = build_vec([GRAPHS[g]])
        a.scores = gs
        y = k2.intersect_dense_pruned(a, dense, 1e9, 1e9, 1, 1000000)
    elif kind == 'mapped':     # every segment is used by one or two graphs
        amap = [i // 2 for i in range(2 * n)]
        a = build_vec([GRAPHS[g if i % 2 else 0] for i in range(len(amap))])
        other = torch.tensor([x[3] for x in GRAPHS[0].arcs])
        a.scores = torch.cat([gs if i % 2 else other
                              for i in range(len(amap))])
        y = k2.intersect_dense(a, dense, 1e9, a_to_b_map=torch.tensor(
            amap, dtype=torch.int32))
    else:
        a = build_vec([GRAPHS[g]] * n)
        a.scores = torch.cat([gs] * n)
        y = k2.intersect_dense(a, dense, 1e9)
    if ro == 'scores':
        v = y.scores.to(torch.float64)
    else:
        v = y.get_tot_scores(True, ro == 'tot')
        v = torch.where(torch.isinf(v), torch.zeros_like(v), v)
    w = torch.tensor([1 + (j * 5 + 2) % 7 for j in range(v.numel())],
                     dtype=torch.float64)
    return (v * w).sum(), v.numel()


def check_dense(case):
    g, segs, kind, ro = case
    gs = torch.tensor([a[3] for a in GRAPHS[g].arcs])
    lp = torch.tensor([[[q(b * 17 + t * 5 + c * 3) for c in range(3)]
                        for t in range(3)] for b in range(2)])
    if max(b + t for _, b, t in segs) > 3:
        raise RuntimeError('bad case')
    g0 = gs.clone().requires_grad_(True)
    l0 = lp.clone().requires_grad_(True)
    L0, n0 = dense_run(case, g0, l0)
    if not L0.requires_grad:
        expect(n0 == 0, 'dense: no gradient', case)
        return 0
    gg, gl = torch.autograd.grad(L0, (g0, l0))
    delta = 1.0 / 4096 if ro != 'tot' else 1 / 512
    tol = 2e-2 if ro != 'tot' else 3e-2
    for which, base, grad in ((0, gs, gg), (1, lp, gl)):
        flat = base.reshape(-1)
        gf = grad.reshape(-1).tolist()
        for i in range(flat.numel()):
            vals = []
            for sgn in (1, -1):
                s = flat.clone()
                s[i] += sgn * delta
                s = s.reshape(base.shape)
                L, n = dense_run(case, s if which == 0 else gs,
                                 s if which == 1 else lp)
                expect(n == n0, 'structure changed')
                vals.append(L.item())
            right = (vals[0] - L0.item()) / delta
            left = (L0.item() - vals[1]) / delta
            lo, hi = min(left, right), max(left, right)
            expect(lo - tol <= gf[i] <= hi + tol, 'dense gradient',
                   'graph' if which == 0 else 'frames', i, 'is', gf[i],
                   'slope', left, right, case)
    return gl.tolist()


FAMILIES = [
    Family('uni4_' + s, block_cases('e4', s, e), check_universe,
           'every element of tot/forward/backward scores and arc posteriors '
           'differentiated, both semirings and precisions, every 4-state '
           f'automaton over 11 arc slots, scheme {s}' +
           ('' if e == 1 else f' (every {e}th block in quick)'))
    for s, e in (('mixed', 1), ('ties', 1), ('neginf', 1), ('neginf2', 1),
                 ('zero', 2))
] + [
    Family('uni5_mixed', block_cases('e5', 'mixed', 1), check_universe,
           'the same over 5-state automata'),
    Family('uni6_mixed', block_cases('e6', 'mixed', 8), check_universe,
           'the same over 6-state automata (every 8th block in quick)'),
    Family('batches', batch_cases, check_batch,
           'all batches of 8 shapes'),
    Family('prog1', prog_cases(1), check_prog,
           'every single operation on every leaf, gradient against exact '
           'one-sided slopes of every input score'),
    Family('prog2', prog_cases(2), check_prog,
           'every program of two operations on every leaf'),
    Family('dense', dense_cases, check_dense,
           'dense intersections: graph and frame gradients, all segment '
           'layouts of a list'),
]
ASSUMPTIONS = [
    'inputs of score functions are top-sorted; elements whose value is -inf '
    'are not differentiated',
    'at points where the function is not differentiable (ties) any value '
    'between the one-sided slopes is accepted',
]
