"""A14: an entry's result does not depend on the rest of the batch."""
import itertools

import k2
from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.props.a07 import cell

I32 = torch.int32

# ------------------------------------------------------------------- entries
# every kind has a different number of states and arcs
KINDS = {
    'empty': (0, []),
    'noarcs': (2, []),
    'one': (2, [(0, 1, -1)]),
    'chain': (4, [(0, 1, 1), (1, 2, 2), (2, 3, -1)]),
    'dead': (5, [(0, 1, 2), (0, 2, 1), (2, 3, 1), (2, 4, -1)]),
    'nondet': (4, [(0, 1, 1), (0, 1, 1), (0, 2, 1), (0, 2, 2), (1, 3, -1),
                   (2, 3, -1), (1, 2, 2)]),
    'eps': (4, [(0, 1, 0), (0, 1, 2), (1, 2, 0), (0, 2, 1), (1, 3, -1),
                (2, 3, -1)]),
    'cycle': (3, [(0, 0, 1), (0, 1, 2), (1, 0, 1), (1, 1, 2), (1, 2, -1)]),
    'unsorted': (5, [(0, 3, 2), (0, 1, 1), (3, 2, 1), (2, 4, -1), (1, 4, -1),
                     (3, 4, -1)]),
    'eloop': (3, [(0, 0, 0), (0, 1, 1), (1, 1, 0), (1, 2, -1), (0, 2, -1)]),
    'nopath': (3, [(0, 1, 1), (0, 0, 2)]),
}
KINDS = {k: (n, sorted(arcs, key=lambda a: a[0]))
         for k, (n, arcs) in KINDS.items()}
ALL = list(KINDS)
ACYC = ['empty', 'noarcs', 'one', 'chain', 'nondet', 'eps', 'dead',
        'unsorted']
TOP = ['empty', 'noarcs', 'one', 'chain', 'nondet', 'eps', 'dead']
PATHS = ['one', 'chain', 'nondet', 'eps', 'dead']


def ref(kind, salt=0):
    n, arcs = KINDS[kind]
    k = ALL.index(kind)
    return Ref(n, [(s, d, l, SCORES[(i * 3 + k * 5 + salt) % 20])
                   for i, (s, d, l) in enumerate(arcs)])


def attrs(kind, what):
    n = len(KINDS[kind][1])
    k = ALL.index(kind)
    labels = [a[2] for a in KINDS[kind][1]]
    if what == 'aux':
        return [-1 if l == -1 else (i * 2 + k) % 4
                for i, l in enumerate(labels)]
    if what == 'raux':
        return [[] if l == -1 else [[], [3], [4, 5], [0], [7, 8, 9]][
            (i + k) % 5] for i, l in enumerate(labels)]
    if what == 'w':
        return [0.25 * i - k for i in range(n)]
    return [100 * (k + 1) + i for i in range(n)]


def make(kinds, ragged=False, single=False, grad=False):
    rs = [ref(k) for k in kinds]
    f = build(rs[0]) if single else build_vec(rs)
    ks = kinds
    f.tag = torch.tensor([x for k in ks for x in attrs(k, 'tag')], dtype=I32)
    f.w = torch.tensor([x for k in ks for x in attrs(k, 'w')])
    if ragged:
        x = [x for k in ks for x in attrs(k, 'raux')]
        f.aux_labels = k2.RaggedTensor(x, dtype=I32) if x else empty_ragged()
    else:
        f.aux_labels = torch.tensor([x for k in ks for x in attrs(k, 'aux')],
                                    dtype=I32)
    if grad:
        f.scores = f.scores.detach().clone().requires_grad_(True)
    return f


def empty_ragged():
    return k2.RaggedTensor(k2.ragged.create_ragged_shape2(
        row_splits=torch.zeros(1, dtype=I32)), torch.zeros(0, dtype=I32))


def bounds(f):
    """arc ranges and state ranges of the entries"""
    if f.arcs.num_axes() == 2:
        return [(0, f.num_arcs)], [(0, f.arcs.dim0())]
    r1, r2 = f.arcs.row_splits(1).tolist(), f.arcs.row_splits(2).tolist()
    st = [(r1[i], r1[i + 1]) for i in range(len(r1) - 1)]
    return [(r2[a], r2[b]) for a, b in st], st


def entries(f):
    """what the user sees of every entry"""
    refs = read(f)
    ab, _ = bounds(f)
    out = []
    named = sorted(f.named_tensor_attr(include_scores=False))
    full = {}
    for n, v in named:
        full[n] = v.tolist()
    for r, (a, b) in zip(refs, ab):
        out.append(('fsa', r.n, [tuple(x) for x in r.arcs],
                    [(n, full[n][a:b]) for n, _ in named]))
    return out


def same(a, b, tol=1e-5):
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(same(x, y, tol) for x, y in zip(a, b)))
    return a == b


def per_arc(f, t, maps=False):
    ab, _ = bounds(f)
    t = t.tolist()
    return [('arcs', t[a:b]) for a, b in ab]


def per_state(f, t):
    _, st = bounds(f)
    t = t.tolist()
    return [('states', t[a:b]) for a, b in st]


def arc_map(src, out, m):
    """a map of output arcs to input arcs, relative to the entries"""
    sa, _ = bounds(src)
    oa, _ = bounds(out)
    m = m.tolist()
    res = []
    for (a, b), (c, d) in zip(sa, oa):
        res.append(('map', [x if x == -1 else (
            x - a if a <= x < b else ('foreign', x)) for x in m[c:d]]))
    return res


def merge(*ls):
    return [tuple(x) for x in zip(*ls)]


def grads(f, scores):
    """gradient of a weighted sum; the weight of an output arc is its position
    within its entry"""
    return scores


def diff(op):
    """the operation and the gradient of its output scores"""
    def run(f):
        o = op(f)
        res = entries(o)
        if f.scores.requires_grad and o.scores.requires_grad:
            oa, _ = bounds(o)
            w = torch.zeros(o.num_arcs)
            for a, b in oa:
                w[a:b] = torch.arange(1., 1 + b - a)
            fin = torch.isfinite(o.scores.detach())
            g, = torch.autograd.grad((o.scores * w)[fin].sum(), [f.scores],
                                     allow_unused=True)
            if g is not None:
                res = merge(res, per_arc(f, g))
        return res
    return run


def beside(op, kind):
    """beside an entry that makes the operation take another path"""
    def run(f):
        g = k2.cat([f, make([kind], isinstance(f.aux_labels,
                                               k2.RaggedTensor))])
        return dev(f, op(g))
    return run


def det_beside(f):
    g = k2.cat([f.detach(), make(['nondet'])])
    return entries(k2.determinize(g))[:-1]


def dev(f, o):
    res = entries(o)
    oa, _ = bounds(o)
    w = torch.zeros(o.num_arcs)
    for a, b in oa[:-1]:
        w[a:b] = torch.arange(1., 1 + b - a)
    gr, = torch.autograd.grad((o.scores * w).sum(), [f.scores],
                              allow_unused=True)
    if gr is None:
        gr = torch.zeros(f.num_arcs)
    return merge(res[:-1], per_arc(f, gr))


def maps(op):
    def run(f):
        o, m = op(f)
        return merge(entries(o), arc_map(f, o, m))
    return run


def scores_op(double, log):
    def run(f):
        t = f.get_tot_scores(double, log)
        fw = f.get_forward_scores(double, log)
        bw = f.get_backward_scores(double, log)
        res = [('tot', x) for x in t.tolist()]
        res = merge(res, per_state(f, fw), per_state(f, bw))
        if f.scores.requires_grad:
            w = torch.arange(1., 1 + len(t), dtype=t.dtype)
            fin = torch.isfinite(t.detach())
            if bool(fin.any()):
                g, = torch.autograd.grad(t[fin].sum(), [f.scores])
                res = merge(res, per_arc(f, g))
            else:
                res = merge(res, per_arc(f, torch.zeros(f.num_arcs)))
            del w
        return res
    return run


def post_op(double, log):
    def run(f):
        return per_arc(f, f.get_arc_post(double, log))
    return run


def props_op(f):
    # of the whole batch: the entries' common properties; nothing per entry
    f.properties
    return entries(f)


def paths_op(num):
    def run(f):
        ab, _ = bounds(f)
        p = k2.random_paths(f, True, num).tolist()
        return [('paths', [[x - a for x in q] for q in ps])
                for (a, _), ps in zip(ab, p)]
    return run


def batches_op(f):
    """topological levels of each entry"""
    _, st = bounds(f)
    lev = f._get_state_batches().tolist()
    out = [[] for _ in st]
    for level in lev:
        for i, ss in enumerate(level):
            if ss:
                out[i].append([s - st[i][0] for s in ss])
    return [('levels', x) for x in out]


def invert_op(f):
    return entries(k2.invert(f))


def plain(op):
    return lambda f: entries(op(f))


UNARY = {
    # name: (operation, kinds it is defined for, attribute forms, also on a
    # single automaton)
    'arc_sort': (diff(k2.arc_sort), ALL, 'tr', True),
    'arc_sort map': (maps(lambda f: k2.arc_sort(f, ret_arc_map=True)), ALL,
                     't', True),
    'connect': (diff(k2.connect), ALL, 'tr', True),
    'top_sort': (diff(k2.top_sort), ACYC, 'tr', True),
    # (a batch whose entries are all top-sorted is done by another algorithm,
    # which orders the arcs differently)
    'remove_epsilon': (diff(lambda f: k2.remove_epsilon(f)), TOP, 'tr',
                       True),
    'remove_epsilon device': (beside(k2.remove_epsilon, 'unsorted'), ACYC, 'tr', False),
    'remove_epsilon_self_loops': (diff(k2.remove_epsilon_self_loops),
                                  [k for k in ALL], 'tr', True),
    'add_epsilon_self_loops': (diff(k2.add_epsilon_self_loops), ALL, 'tr',
                               True),
    'remove_epsilon_and_add_self_loops': (
        diff(k2.remove_epsilon_and_add_self_loops),
        [k for k in ACYC if k != 'eps'], 't', True),
    'remove_epsilon_and_add_self_loops eps': (
        beside(k2.remove_epsilon_and_add_self_loops, 'eps'), TOP, 't', False),
    # (a batch that is deterministic already comes back as it is)
    'determinize': (plain(lambda f: k2.determinize(f.detach())),
                    ['empty', 'one', 'chain'], 't', True),
    'determinize others': (det_beside, ['empty', 'one', 'chain', 'nondet'],
                           't', False),
    'invert': (plain(k2.invert), ALL, 't', True),
    'reverse': (diff(k2.reverse), [k for k in ALL if k != 'noarcs'], 'tr',
                False),
    'shortest_path': (diff(lambda f: k2.shortest_path(f, True)), TOP, 'tr',
                      False),
    'shortest_path float': (diff(lambda f: k2.shortest_path(f, False)), TOP,
                            't', False),
    'prune': (diff(lambda f: k2.prune_on_arc_post(f, 0.1, True)), PATHS, 'tr',
              False),
    'expand': (diff(k2.expand_ragged_attributes), ALL, 'tr', True),
    'expand map': (maps(lambda f: k2.expand_ragged_attributes(
        f, ret_arc_map=True)), ALL, 'r', True),
    'scores': (scores_op(True, True), TOP, 't', False),
    'scores max': (scores_op(True, False), TOP, 't', False),
    'scores float': (scores_op(False, True), TOP, 't', False),
    'scores float max': (scores_op(False, False), TOP, 't', False),
    'post': (post_op(True, True), PATHS, 't', False),
    'post max': (post_op(False, False), PATHS, 't', False),
    'paths': (paths_op(3), TOP, 't', False),
    'levels': (batches_op, TOP, 't', False),
    'closure-free copy': (plain(lambda f: f.clone().detach()), ALL, 'tr',
                          True),
    'properties': (props_op, ALL, 't', True),
}
ALONE = {}


def fresh(name, kinds, form, single=False):
    op = UNARY[name][0]
    f = make(kinds, ragged=(form == 'r'), single=single, grad=True)
    step()
    return op(f)


def alone(name, kind, form):
    key = (name, kind, form)
    if key not in ALONE:
        ALONE[key] = fresh(name, [kind], form)[0]
    return ALONE[key]


def batches_of(kinds, upto):
    for n in range(0, upto + 1):
        for b in itertools.product(kinds, repeat=n):
            yield list(b)


def unary_cases(tier):
    top = 2 if tier == 'quick' else 3
    for name, (op, kinds, forms, single) in UNARY.items():
        for form in forms:
            yield [name, form, 'single']
            yield [name, form, 'small']
            for a in kinds:
                for b in kinds:
                    yield [name, form, 'from', a, b, top]


def compare(got, name, kinds, want, what):
    expect(len(got) == len(kinds), what, name, 'on a batch of', len(kinds),
           'has', len(got), 'results')
    for i, k in enumerate(kinds):
        w = want(k)
        expect(same(got[i], w), what, name, 'entry', i, k, 'of the batch',
               kinds, 'is', got[i], 'alone it is', w)


def check_unary(case):
    name, form, what = case[:3]
    op, kinds, forms, single = UNARY[name]
    cnt = 0
    if what == 'single':
        if not single:
            return 0
        for k in kinds:
            if k in ('empty', 'noarcs', 'nopath'):
                continue
            got = fresh(name, [k], form, single=True)
            w = alone(name, k, form)
            expect(same(got[0], w), name, 'of the single automaton', k, 'is',
                   got[0], 'as a batch of one', w)
            cnt += 1
        return cnt
    if what == 'small':
        for b in batches_of(kinds, 1):
            compare(fresh(name, b, form), name, b,
                    lambda k: alone(name, k, form), '')
            cnt += 1
        return cnt
    a, b, top = case[3:]
    # every batch of two; of three with every third entry
    for tail in [[]] + [[k] for k in kinds] + (
            [[x, y] for x in kinds for y in kinds] if top == 3 else []):
        bt = [a, b] + tail
        compare(fresh(name, bt, form), name, bt,
                lambda k: alone(name, k, form), '')
        cnt += 1
    # long batches of the two
    bt = [a, b, b, a, a, a, b] * 5
    compare(fresh(name, bt, form), name, bt, lambda k: alone(name, k, form),
            '')
    return cnt + 1


# ---------------------------------------------------- two automata at a time
AS = ['empty', 'one', 'chain', 'nondet', 'cycle', 'eps']
BS = ['one', 'cycle', 'nondet', 'dead']


def bmake(kinds, salt, grad=True):
    f = build_vec([ref(k, salt) for k in kinds])
    nm = 'u' if salt else 'v'
    setattr(f, nm + 'tag', torch.tensor([x for k in kinds for x in attrs(
        k, 'tag')], dtype=I32))
    setattr(f, nm + 'w', torch.tensor([x for k in kinds for x in attrs(
        k, 'w')]))
    f = k2.arc_sort(f)
    if grad:
        f.scores = f.scores.detach().clone().requires_grad_(True)
    return f


def two_out(a, b, o, am=None, bm=None):
    res = entries(o)
    oa, _ = bounds(o)
    w = torch.zeros(o.num_arcs)
    for x, y in oa:
        w[x:y] = torch.arange(1., 1 + y - x)
    ga, gb = torch.autograd.grad((o.scores * w).sum(), [a.scores, b.scores],
                                 allow_unused=True)
    return res, ga, gb


BIN = {
    'intersect': (lambda a, b: k2.intersect(a, b), AS, BS),
    'intersect plain': (lambda a, b: k2.intersect(
        a, b, treat_epsilons_specially=False), AS, BS),
    'device': (lambda a, b: k2.intersect_device(
        a, b, torch.arange(b.shape[0], dtype=I32)), AS, BS),
    'device sorted': (lambda a, b: k2.intersect_device(
        a, b, torch.arange(b.shape[0], dtype=I32), sorted_match_a=True), AS,
        BS),
}


def bin_cases(tier):
    for name in BIN:
        for a in AS:
            for b in BS:
                yield [name, a, b, 2 if tier == 'quick' else 3]


def bin_run(name, pairs):
    op = BIN[name][0]
    a = bmake([p[0] for p in pairs], 0)
    b = bmake([p[1] for p in pairs], 7)
    step()
    o = op(a, b)
    res, ga, gb = two_out(a, b, o)
    if ga is not None and gb is not None:
        res = merge(res, per_arc(a, ga), per_arc(b, gb))
    return res


def bin_alone(name, p):
    key = ('bin', name, p)
    if key not in ALONE:
        ALONE[key] = bin_run(name, [p])[0]
    return ALONE[key]


def check_bin(case):
    name, a, b, top = case
    cnt = 0
    pairs = list(itertools.product(BIN[name][1], BIN[name][2]))
    for n in range(0, top):
        for tail in itertools.product(pairs, repeat=n):
            bt = [(a, b)] + list(tail)
            compare(bin_run(name, bt), name, bt,
                    lambda p: bin_alone(name, p), '')
            cnt += 1
    return cnt


def map_cases(tier):
    for n in (1, 2, 3):
        for ks in itertools.product(AS, repeat=n) if n < 3 else [
                ('chain', 'empty', 'nondet'), ('nondet', 'cycle', 'one')]:
            yield [list(ks)]


def check_map(case):
    """intersect_device: every map of up to three automata to the first
    operands; broadcasting of intersect"""
    ks, = case
    cnt = 0
    n = len(ks)
    for m in (1, 2, 3):
        for mp in itertools.product(range(n), repeat=m):
            bs = [BS[(i + sum(mp)) % len(BS)] for i in range(m)]
            a, b = bmake(ks, 0), bmake(bs, 7)
            for sm in (False, True):
                step()
                o = k2.intersect_device(a, b, torch.tensor(mp, dtype=I32),
                                        sorted_match_a=sm)
                name = 'device sorted' if sm else 'device'
                pairs = [(ks[i], x) for i, x in zip(mp, bs)]
                got = entries(o)
                compare(got, name, pairs, lambda p: bin_alone(name, p)[0]
                        if len(bin_alone(name, p)) and isinstance(
                            bin_alone(name, p)[0], tuple)
                        else bin_alone(name, p), 'mapped')
                cnt += 1
    if n == 1:
        for m in (1, 2, 3):
            for bs in itertools.product(BS, repeat=m):
                a, b = bmake(ks, 0), bmake(bs, 7)
                for t in (True, False):
                    name = 'intersect' if t else 'intersect plain'
                    step()
                    got = entries(k2.intersect(
                        a, b, treat_epsilons_specially=t))
                    pairs = [(ks[0], x) for x in bs]
                    compare(got, name, pairs, lambda p: first(bin_alone(
                        name, p)), 'broadcast')
                    # the other way round
                    got = entries(k2.intersect(
                        b, a, treat_epsilons_specially=t))
                    for i, x in enumerate(bs):
                        w = entries(k2.intersect(
                            bmake([x], 7), a, treat_epsilons_specially=t))[0]
                        expect(same(got[i], w), 'broadcast second operand',
                               ks, bs, got[i], w)
                    cnt += 2
    return cnt


def first(x):
    return x[0] if isinstance(x[0], tuple) else x


# ----------------------------------------------------------- with a network
GR = {'topo': None, 'chain': ref('chain'), 'cycle': ref('cycle'),
      'nondet': ref('nondet'), 'empty': ref('empty')}


def graph(kind):
    if kind == 'topo':
        return read(k2.ctc_topo(2, modified=False))[0]
    if kind == 'lin':
        return read(k2.ctc_graph([[1, 2]]))[0]
    return ref(kind)


DENSE = {
    'exact': lambda g, d, n: k2.intersect_dense(g, d, 10.0),
    'exact narrow': lambda g, d, n: k2.intersect_dense(g, d, 1.5),
    'pruned': lambda g, d, n: k2.intersect_dense_pruned(
        g, d, 20.0, 8.0, 0, 10000),
    'pruned narrow': lambda g, d, n: k2.intersect_dense_pruned(
        g, d, 2.0, 1.0, 1, 3),
    'pruned crowded': lambda g, d, n: k2.intersect_dense_pruned(
        g, d, 3.0, 2.0, 1, 2),
}
GRAPHS = ['topo', 'lin', 'cycle', 'nondet', 'chain']
UTT = [(0, 4), (1, 2), (2, 4), (1, 0), (0, 25), (3, 1), (2, 23)]


def dense_of(utts, pad):
    """log-probs of utterances (seed, frames), padded to a common length"""
    T = max([u[1] for u in utts] + [1]) + pad
    x = torch.full((len(utts), T, 3), 99.0)
    for i, (s, n) in enumerate(utts):
        for t in range(n):
            for c in range(3):
                x[i, t, c] = cell('a', s, t, c)
    x.requires_grad_(True)
    segs = torch.tensor([[i, 0, u[1]] for i, u in enumerate(utts)],
                        dtype=I32).reshape(-1, 3)
    return k2.DenseFsaVec(x, segs), x


def dense_run(name, pairs, pad=0, shared=False):
    g = build_vec([graph(k) for k, _ in (pairs[:1] if shared else pairs)])
    g.tag = torch.arange(g.num_arcs, dtype=I32) - torch.tensor(
        [a for (a, b) in bounds(g)[0] for _ in range(b - a)], dtype=I32)
    g.scores = g.scores.detach().clone().requires_grad_(True)
    d, x = dense_of([u for _, u in pairs], pad)
    step()
    o = DENSE[name](g, d, len(pairs))
    res = entries(o)
    tot = o.get_tot_scores(True, True)
    fin = torch.isfinite(tot.detach())
    gx = None
    if bool(fin.any()):
        gx, gs = torch.autograd.grad(tot[fin].sum(), [x, g.scores])
    out = []
    gb = bounds(g)[0]
    for i, (k, u) in enumerate(pairs):
        n = u[1]
        frames = gx[i, :n].tolist() if gx is not None else [[0.0] * 3] * n
        if gx is not None:
            expect(bool((gx[i, n:] == 0).all()), 'gradient beyond the end of '
                   'utterance', i, pairs)
        extra = []
        if not shared:
            a, b = gb[i]
            extra = gs[a:b].tolist() if gx is not None else [0.0] * (b - a)
        out.append((res[i], ('total', float(tot[i])), frames, extra))
    return out


def dense_alone(name, p, shared):
    key = ('dense', name, p, shared)
    if key not in ALONE:
        ALONE[key] = dense_run(name, [p], 0, shared)[0]
    return ALONE[key]


def dense_cases(tier):
    for name in DENSE:
        for i, g in enumerate(GRAPHS):
            for u in UTT:
                yield [name, g, list(u), 2 if tier == 'quick' else 3]


def check_dense(case):
    name, g, u, top = case
    u = tuple(u)
    cnt = 0
    pairs = [(a, b) for a in GRAPHS for b in UTT]
    if top == 3:
        pairs3 = [(a, b) for a in GRAPHS[:3] for b in UTT[:4]]
    for n in range(0, top):
        ps = pairs if n < 2 else pairs3
        for tail in itertools.product(ps, repeat=n):
            bt = [(g, u)] + list(tail)
            if any(bt[i][1][1] < bt[i + 1][1][1] for i in range(n)):
                if name.startswith('exact'):
                    continue   # documented: by decreasing duration
            got = dense_run(name, bt, n % 2)
            for i, p in enumerate(bt):
                w = dense_alone(name, p, False)
                expect(same(got[i], w, 2e-4), name, 'entry', i, p, 'of', bt,
                       'is', got[i], 'alone', w)
            cnt += 1
            # all with the first graph
            if len(set(k for k, _ in bt)) == 1 and n and 'pruned' in name:
                got = dense_run(name, bt, 0, True)
                for i, p in enumerate(bt):
                    w = dense_alone(name, p, True)
                    expect(same(got[i][:3], w[:3], 2e-4), name, 'entry', i, p,
                           'of', bt, 'with one graph is', got[i], 'alone', w)
                cnt += 1
    return cnt


# ------------------------------------------------------------- graph makers
SEQS = [[], [1], [2], [1, 1], [1, 2], [2, 1, 1], [3, 3, 1, 2]]
MAKE = {
    'linear_fsa': k2.linear_fsa,
    'linear_fsa_with_self_loops': lambda s: k2.linear_fsa_with_self_loops(
        k2.linear_fsa(s)),
    'linear_fst': lambda s: k2.linear_fst(s, [list(reversed(x)) for x in s]),
    'ctc_graph': lambda s: k2.ctc_graph(s),
    'ctc_graph modified': lambda s: k2.ctc_graph(s, modified=True),
    'levenshtein_graph': lambda s: k2.levenshtein_graph(s),
}


def make_cases(tier):
    for name in MAKE:
        for i in range(len(SEQS)):
            yield [name, i, 3 if tier == 'quick' else 4]


def check_make(case):
    name, i, top = case
    cnt = 0
    for n in range(0, top):
        for tail in itertools.product(range(len(SEQS)), repeat=n):
            bt = [SEQS[i]] + [SEQS[j] for j in tail]
            for ragged in (False, True):
                step()
                if ragged and name == 'linear_fst':
                    continue
                got = entries(MAKE[name](k2.RaggedTensor(bt, dtype=I32)
                                         if ragged else bt))
                expect(len(got) == len(bt), name, 'size')
                for g, s in zip(got, bt):
                    key = (name, tuple(s))
                    if key not in ALONE:
                        if s:
                            ALONE[key] = entries(MAKE[name]([s]))[0]
                        else:
                            ALONE[key] = entries(MAKE[name]([s, [1]]))[0]
                    expect(same(g, ALONE[key]), name, 'of', s, 'in', bt, 'is',
                           g, 'alone', ALONE[key])
                cnt += 1
    return cnt


# ------------------------------------------------------- cutting and stacking
def cut_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for b in itertools.product(range(len(ALL)), repeat=min(n, 3)):
            if n == 4:
                yield [list(b) + [b[0]]]
            else:
                yield [list(b)]


def check_cut(case):
    kinds = [ALL[i] for i in case[0]]
    n = len(kinds)
    cnt = 0
    for ragged in (False, True):
        f = make(kinds, ragged)
        want = entries(f)
        # single entries: an entry without arcs at all has lost its states
        for i in range(n):
            step()
            e = f[i]
            got = entries(e)
            expect(len(got) == 1 and e.arcs.num_axes() == 2 and
                   same(got[0], want[i]), 'fsa[%d]' % i, 'of', kinds, 'is',
                   got, 'expected', want[i])
            g = k2.create_fsa_vec([e])
            expect(same(entries(g), [want[i]]), 'create_fsa_vec of one')
        # every index vector up to the length of the batch
        for m in range(0, n + 1):
            for idx in itertools.product(range(n), repeat=m):
                step()
                if m == 0:
                    continue
                g = k2.index_fsa(f, torch.tensor(idx, dtype=I32))
                expect(same(entries(g), [want[i] for i in idx]), 'index_fsa',
                       idx, 'of', kinds, 'is', entries(g))
                cnt += 1
        # every cut into consecutive pieces, put together again
        for cuts in itertools.product((0, 1), repeat=n - 1):
            pieces, cur = [], []
            for i in range(n):
                cur.append(i)
                if i == n - 1 or cuts[i]:
                    pieces.append(cur)
                    cur = []
            parts = [k2.index_fsa(f, torch.tensor(p, dtype=I32))
                     for p in pieces]
            step()
            g = k2.cat(parts)
            expect(same(entries(g), want), 'cat of', [
                [kinds[i] for i in p] for p in pieces], 'is', entries(g),
                'expected', want)
            cnt += 1
        step()
        g = k2.create_fsa_vec([f[i] for i in range(n)])
        expect(same(entries(g), want), 'create_fsa_vec of the pieces of',
               kinds, 'is', entries(g), 'expected', want)
        # and their gradients
        f = make(kinds, ragged, grad=True)
        parts = [f[i] for i in range(n)]
        g = k2.create_fsa_vec(parts)
        w = torch.arange(1., 1 + f.num_arcs)
        if f.num_arcs:
            gr, = torch.autograd.grad((g.scores * w).sum(), [f.scores])
            expect(torch.equal(gr, w), 'gradient of cutting and stacking')
    return cnt


# ------------------------------------------------------------------ RNN-T
SH = [(3, 2), (1, 0), (4, 1), (2, 2), (3, 0)]     # frames, symbols


def rn_cases(tier):
    for n in range(1, 4):
        for b in itertools.product(range(len(SH)), repeat=n):
            yield [list(b)]


def rn_inputs(ids, pad):
    T = max(SH[i][0] for i in ids) + pad
    U = max(SH[i][1] for i in ids) + pad
    B, V = len(ids), 4
    lm = torch.full((B, U + 1, V), 7.0)
    am = torch.full((B, T, V), -3.0)
    lg = torch.full((B, T, U + 1, V), 5.0)
    sy = torch.zeros((B, U), dtype=torch.int64)
    bd = torch.zeros((B, 4), dtype=torch.int64)
    for j, i in enumerate(ids):
        t, u = SH[i]
        for a in range(t):
            for v in range(V):
                am[j, a, v] = cell('a', i, a, v)
                for b in range(u + 1):
                    lg[j, a, b, v] = cell('b', i + b, a, v)
        for b in range(u + 1):
            for v in range(V):
                lm[j, b, v] = cell('b', i + 3, b, v)
        for b in range(u):
            sy[j, b] = 1 + (i + b) % (V - 1)
        bd[j, 2], bd[j, 3] = u, t
    return [x.requires_grad_(True) for x in (lm, am, lg)] + [sy, bd]


def rn_run(ids, pad):
    out = {}
    lm, am, lg, sy, bd = rn_inputs(ids, pad)
    for typ in ('regular', 'modified', 'constrained'):
        if typ != 'regular' and any(SH[i][0] < SH[i][1] for i in ids):
            continue
        step(4)
        a = k2.rnnt_loss_simple(lm, am, sy, 0, bd, rnnt_type=typ,
                                reduction='none')
        b = k2.rnnt_loss(lg, sy, 0, bd, rnnt_type=typ, reduction='none')
        # (the smoothed loss averages over the batch by definition)
        g = torch.autograd.grad((a + b).sum(), [lm, am, lg])
        for j, i in enumerate(ids):
            t, u = SH[i]
            out.setdefault(j, []).append(
                (typ, float(a[j]), float(b[j]),
                 g[0][j, :u + 1].tolist(), g[1][j, :t].tolist(),
                 g[2][j, :t, :u + 1].tolist()))
            expect(float(g[0][j, u + 1:].abs().sum()) == 0 and
                   float(g[1][j, t:].abs().sum()) == 0 and
                   float(g[2][j, t:].abs().sum()) == 0,
                   'gradient in the padding')
    return [out[j] for j in range(len(ids))]


def check_rn(case):
    ids, = case
    for pad in (0, 1):
        got = rn_run(ids, pad)
        for j, i in enumerate(ids):
            if ('rn', i) not in ALONE:
                ALONE['rn', i] = rn_run([i], 0)[0]
            w = {x[0]: x for x in ALONE['rn', i]}
            for x in got[j]:
                expect(same(x, w[x[0]], 2e-4), 'transducer loss of entry', j,
                       'of', ids, 'padding', pad, 'is', x, 'alone', w[x[0]])
    return len(ids)


ASSUMPTIONS = [
    'an operation is called on batches of the entries it is defined for '
    '(acyclic ones for epsilon removal, top-sorted ones for scores, ...)',
    'exact dense intersection needs segments by decreasing duration',
    'an entry alone is a batch of one; where a single automaton is accepted '
    'it gives the same as well',
]
FAMILIES = [
    Family('unary', unary_cases, check_unary,
           'every batch of up to 3 (thorough 4) entries of every kind, every '
           'operation'),
    Family('binary', bin_cases, check_bin,
           'every batch of up to 2 (thorough 3) pairs'),
    Family('maps', map_cases, check_map, 'every map and broadcast'),
    Family('dense', dense_cases, check_dense,
           'every batch of up to 2 (thorough 3) graphs and utterances'),
    Family('makers', make_cases, check_make,
           'every batch of up to 3 (thorough 4) sequences'),
    Family('cuts', cut_cases, check_cut,
           'every batch of up to 3 entries, every index vector and cut'),
    Family('transducer', rn_cases, check_rn, 'every batch of up to 3 shapes'),
]
