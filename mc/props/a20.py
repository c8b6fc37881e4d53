"""A20: the C++ decoding API agrees with the Python implementation."""
import itertools
import os
import shutil
import tempfile

import k2
import torch
from mc import native
from mc.core import Family, expect, step
from mc.lang import *  # noqa

X = None
DIR = None
MAX_JOBS = 8
ASSUMPTIONS = [
    'attributes of integer type are int32 and of floating type float32 or float64, ragged attributes have two axes (other types are refused)',
    'arcs without a source get the filler 0 in C++ (it has no custom fillers)',
    'the models given to the transducer searches are stateless scripted modules (decoder, joiner, projections) with distinct scores',
]


def setup(tier):
    global X, DIR
    X = native.module('torchapi.cc', 'k2cpp')
    DIR = tempfile.mkdtemp(prefix='k2mc-a20-', dir='/tmp')


def teardown():
    if DIR:
        shutil.rmtree(DIR, ignore_errors=True)


def tmpfile(suffix):
    fd, p = tempfile.mkstemp(dir=DIR, suffix=suffix)
    os.close(fd)
    return p


# ---------------------------------------------------------------- conversion
def attrs_of(f):
    t, r = {}, {}
    for n, v in f.named_tensor_attr(include_scores=False):
        if isinstance(v, k2.RaggedTensor):
            r[n] = (v.shape.row_splits(1), v.values)
        else:
            t[n] = v
    return t, r


def cpp(f):
    t, r = attrs_of(f)
    return X.make(f.as_dict()['arcs'], t, r)


def same(f, c, ctx, tol=0):
    """f (Python) and c (C++) are the same automaton with the same attributes"""
    sp, arcs, ct, cr = c.dump()
    n = f.arcs.num_axes()
    expect(len(sp) + 1 == n, 'number of axes', len(sp) + 1, n, ctx)
    for i in range(1, n):
        expect(sp[i - 1].tolist() == f.arcs.row_splits(i).tolist(),
               'row splits', i, sp[i - 1].tolist(),
               f.arcs.row_splits(i).tolist(), ctx)
    a = f.arcs.values()[:, :3].tolist()
    expect(a == arcs[:, :3].tolist(), 'arcs', arcs[:, :3].tolist(),
           'expected', a, ctx)
    s = f.scores.tolist()
    cs = arcs[:, 3].contiguous().view(torch.float32).tolist()
    for x, y in zip(s, cs):
        expect(close_to(x, y, tol or 1e-6), 'scores', cs, 'expected', s, ctx)
    t, r = attrs_of(f)
    if not a:   # (empty attributes can have either form)
        expect(set(t) | set(r) <= set(ct) | set(cr), 'attributes',
               set(ct) | set(cr), 'expected', set(t) | set(r), ctx)
        return
    expect(set(t) == set(ct) and set(r) == set(cr), 'attributes', set(ct),
           set(cr), 'expected', set(t), set(r), ctx)
    for k, v in t.items():
        expect(v.dtype == ct[k].dtype, 'dtype of', k, ct[k].dtype, v.dtype, ctx)
        expect(v.tolist() == ct[k].tolist(), 'attribute', k, ct[k].tolist(),
               'expected', v.tolist(), ctx)
    for k, v in r.items():
        expect(v[0].tolist() == cr[k][0].tolist()
               and v[1].tolist() == cr[k][1].tolist(), 'attribute', k,
               [x.tolist() for x in cr[k]], 'expected',
               [x.tolist() for x in v], ctx)


def as_ragged(f):
    """inverting ragged aux_labels gives a tensor in Python, lists in C++"""
    w = [[] if a == 0 else [a] for a in f.aux_labels.tolist()]
    f = f.detach()
    del f.aux_labels
    if w:
        f.aux_labels = k2.RaggedTensor(w, dtype=torch.int32)
    return f


def snap(c):
    sp, arcs, t, r = c.dump()
    return repr(([x.tolist() for x in sp], arcs.tolist(),
                 {k: t[k].tolist() for k in sorted(t)},
                 {k: [y.tolist() for y in r[k]] for k in sorted(r)}))


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa
        return None, e


KINDS = ['tensor', 'ragged']
EXTRA = [(), ('lm',), ('ph', 'dd'), ('lm', 'rr', 'ph'), ('rr', 'r2')]


def dress(f, kind, extra, seed=0):
    n = f.num_arcs
    lab = f.labels.tolist()
    if kind == 'tensor':
        f.aux_labels = torch.tensor(
            [-1 if l == -1 else (0, 3, 4, 5)[(i * 3 + seed) % 4]
             for i, l in enumerate(lab)], dtype=torch.int32)
    elif kind == 'ragged':
        f.aux_labels = k2.RaggedTensor(
            [([-1] if l == -1 else [])if (i + seed) % 4 == 0 else
             ([3, 4][:(i + seed) % 3] + ([-1] if l == -1 else []))
             for i, l in enumerate(lab)] or [[]], dtype=torch.int32) \
            if n else None
        if f.aux_labels is None:
            del f.aux_labels
    for e in extra:
        if e == 'lm':
            f.lm_scores = torch.tensor([-.25 * ((i + seed) % 5)
                                        for i in range(n)])
        elif e == 'ph':
            f.ph = torch.arange(7, 7 + n, dtype=torch.int32)
        elif e == 'dd':
            f.dd = torch.arange(n, dtype=torch.float64) / 8
        elif n:
            k = 1 + (e == 'r2')
            f.__setattr__(e, k2.RaggedTensor(
                [[i, i + k][:i % 3] for i in range(n)], dtype=torch.int32))
    return f


# -------------------------------------------------------------------- graphs
def graph_cases(tier):
    for n in range(1, 8 if tier == 'quick' else 14):
        yield n


def check_graphs(n):
    for mod in (False, True):
        f = k2.ctc_topo(n, mod)
        same(f, X.ctc_topo(n, mod), (n, mod))
    same(k2.trivial_graph(n), X.trivial_graph(n), n)
    step(3)
    return n


# ---------------------------------------------------------------------- load
UNI = {'3x1e': (3, [0, 1]), '3x2': (3, [1, 2]), '4x1': (4, [1]),
       '3x3': (3, [0, 1, 2])}


def uslots(u, acyclic=False):
    n, labs = UNI[u]
    return slots(n, labs, acyclic=acyclic)


def uni_cases(us, size, acyclic=False):
    def cases(tier):
        for u in us[tier]:
            for b, e in chunks(1 << len(uslots(u, acyclic)), size):
                yield [u, b, e]
    return cases


def check_load(case):
    u, b, e = case
    path = tmpfile('.pt')
    sig = []
    for x in range(b, e):
        r = from_bits(UNI[u][0], uslots(u), x)
        if not any(a[2] == -1 for a in r.arcs):
            continue   # (a single automaton needs an arc to its final state)
        kind = (KINDS + ['none'])[x % 3]
        extra = EXTRA[x // 3 % len(EXTRA)]
        for f in (build(r), build_vec([r]), build_vec([r, POOL[x % 4], r])):
            f = dress(f, kind, extra, x)
            f.note = 'text'
            torch.save(f.as_dict(), path)
            step()
            c = X.load(path)
            same(f, c, ctx=[r, kind, extra])
            expect(c.properties() & 1, 'valid')
            sig.append(f.num_arcs)
    os.unlink(path)
    return sig


POOL = [Ref(2, [(0, 1, -1, .5)]), Ref(0, []),
        Ref(3, [(0, 1, 1, .25), (0, 0, 2, 1.), (1, 2, -1, 0.)]),
        Ref(3, [(0, 1, 2, .25), (1, 1, 2, 1.), (0, 2, -1, 0.)])]


# --------------------------------------------------------------------- dense
CELL = [0.25, -0.875, 0.5, -1.25, -0.375, 1.125, -0.125, -2.0, 0.75, -0.625,
        -1.5, 0.375, -1.0, 1.375, -0.75, -2.25, 0.625, -0.25, 1.0, -1.75]


def nnet(n, t, c, pat=0):
    return torch.tensor([[[CELL[(i * 7 + j * 3 + k * 11 + pat * 5) % 20]
                           for k in range(c)] for j in range(t)]
                         for i in range(n)],
                        dtype=torch.float32).reshape(n, t, c)


def dense_cases(tier):
    for N in (1, 2):
        for T in (1, 2, 3):
            for S in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                one = list(itertools.product(range(-1, N + 1),
                                             range(-1, T + 1),
                                             range(-1, T + 3)))
                if S == 3:
                    one = [x for x in one if x[0] >= 0 and x[1] < T
                           and x[0] < N and x[2] >= 0]
                if S == 3 and N == 2 and T == 3:
                    continue
                for a in (one if S else [None]):
                    yield [N, T, S, a]


def check_dense(case):
    N, T, S, a = case
    x = nnet(N, T, 3)
    one = list(itertools.product(range(-1, N + 1), range(-1, T + 1),
                                 range(-1, T + 3)))
    if S == 3:
        one = [x for x in one if x[0] >= 0 and x[1] < T and x[0] < N
               and x[2] >= 0]
    sig = []
    for rest in itertools.product(one, repeat=max(0, S - 1)):
        segs = ([a] if S else []) + list(rest)
        t = torch.tensor(segs, dtype=torch.int32).reshape(-1, 3)
        for allow in (0, 1):
            step()
            good = all(0 <= s[0] < N and 0 <= s[1] < T and s[2] >= 0
                       and s[1] + s[2] <= T + allow for s in segs)
            c, ce = outcome(lambda: X.dense(x, t, allow))
            if S == 0:
                sig.append(ce is None)
                continue
            expect((ce is None) == good, 'segments', segs, 'of', N, 'x', T,
                   'allow', allow, 'refused' if ce else 'accepted')
            if not good:
                continue
            d = k2.DenseFsaVec(x, t, allow)
            rs = d.dense_fsa_vec.shape().row_splits(1).tolist()
            expect(c[0].tolist() == rs, 'row splits', c[0], rs, segs)
            expect(torch.equal(c[1], d.scores), 'scores', c[1], d.scores, segs)
            for y, s in ((x, t.t().contiguous().t()),
                         (x.transpose(0, 2).contiguous().transpose(0, 2), t)):
                c2, ce = outcome(lambda: X.dense(y, s, allow))
                expect(ce is None and c2[0].tolist() == rs
                       and torch.equal(c2[1], d.scores), 'strided arguments',
                       segs, str(ce)[:200])
            sig.append(rs)
    return [len(sig), sig[-1:]]


def seg_cases(tier):
    for sub in (1, 2, 3, 4):
        yield sub


def check_segments(sub):
    idx, st, num = [], [], []
    for i, (a, b) in enumerate(itertools.product(range(9), range(9))):
        idx.append(i)
        st.append(a)
        num.append(b)
    for dt in (torch.int32, torch.int64):
        g = X.segments(*[torch.tensor(v, dtype=dt) for v in (idx, st, num)],
                       sub)
        want = [[i, a // sub, b // sub] for i, a, b in zip(idx, st, num)]
        expect(g.tolist() == want, 'supervision segments', g.tolist(), want)
        step()
    return sub


# ------------------------------------------------------------------- lattice
def hlg(which, kind, extra):
    if which == 'ctc':
        f = k2.ctc_topo(2)
    elif which == 'mod':
        f = k2.ctc_topo(2, modified=True)
    elif which == 'triv':
        f = k2.trivial_graph(2)
    else:
        # (a single automaton needs an arc to its final state)
        f = (build_vec([GRAPHS[which]]) if which in ('dead', 'b') else
             build(GRAPHS[which]))
    aux = getattr(f, 'aux_labels', None)
    f = dress(f, kind, extra)
    if aux is not None and kind == 'own':
        f.aux_labels = aux
    return f


GRAPHS = {
    'a': Ref(3, [(0, 0, 0, 0.), (0, 1, 1, -.5), (1, 1, 2, .25), (1, 0, 0, .5),
                 (0, 2, -1, 0.), (1, 2, -1, -1.)]),
    'b': Ref(4, [(0, 1, 1, 0.), (0, 2, 2, -.25), (1, 2, 2, 0.), (2, 1, 1, .5),
                 (0, 2, 0, -.125), (1, 3, -1, .25), (2, 3, -1, -.5),
                 (1, 1, 0, 0.)]),
    'c': Ref(3, [(0, 1, 1, 0.), (0, 1, 1, -.25), (1, 0, 2, 0.), (1, 0, 0, 0.5),
                 (1, 2, -1, 0.)]),
    'dead': Ref(3, [(0, 1, 2, 0.), (1, 1, 1, 0.)]),
    'fin': Ref(2, [(0, 1, -1, 3.0)]),
}
WHICH = [('ctc', 'own', ()), ('mod', 'own', ('lm',)), ('triv', 'own', ('ph',)),
         ('ctc', 'ragged', ('rr',))]
WHICH += [(g, k, e) for g, k, e in
          zip(['a', 'b', 'c', 'dead', 'fin'] * 2,
              ['tensor'] * 5 + ['ragged'] * 5,
              [EXTRA[i % 5] for i in range(10)])]


def lattice_cases(tier):
    for w in range(len(WHICH)):
        for N, T in ((1, 1), (1, 4), (2, 2), (2, 3), (3, 2)) + (
                () if tier == 'quick' else ((1, 7), (2, 5), (3, 3), (4, 2))):
            for sub in (1, 3):
                yield [w, N, T, sub]


BEAMS = [(20., 8., 30, 10000), (1.5, .75, 0, 10000), (3., 2., 0, 2),
         (.5, 8., 1, 10000)]


def check_lattice(case):
    w, N, T, sub = case
    f = hlg(*WHICH[w])
    sig = []
    for lens in itertools.product(range(0, T + sub), repeat=N):
        if N > 2 and any(x > T + 1 for x in lens):
            continue
        for pat in (0, 1):
            for bm in BEAMS if pat == 0 else BEAMS[:1]:
                x = nnet(N, T, 3, pat)
                ctx = [case, lens, pat, bm]
                ln = torch.tensor(lens, dtype=torch.int32)
                want, we = outcome(lambda: k2.get_lattice(
                    x, ln, f, bm[0], bm[1], bm[2], bm[3], sub))
                g = cpp(f)
                before = snap(g)
                step(2)
                for l2 in (ln, ln.to(torch.int64)):
                    c, ce = outcome(lambda: X.get_lattice(
                        x, l2, g, bm[0], bm[1], bm[2], bm[3], sub))
                    expect((we is None) == (ce is None), 'lattice: Python',
                           str(we)[:100], 'C++', str(ce)[:100], ctx)
                    if we is None:
                        same(want, c, ctx)
                expect(snap(g) == before, 'graph changed', ctx)
                if we is not None:
                    sig.append('x')
                    continue
                seg = torch.stack([torch.arange(N, dtype=torch.int32),
                                   torch.zeros(N, dtype=torch.int32), ln], 1)
                c2 = X.get_lattice_segments(x, seg, g, bm[0], bm[1], bm[2],
                                            bm[3], sub)
                expect(snap(c2) == snap(c), 'lattice by segments', ctx)
                before = snap(c)
                for log in (False, True):
                    a = X.tot_scores(c, log).tolist()
                    b = want.get_tot_scores(use_double_scores=True,
                                            log_semiring=log).tolist()
                    expect(all(close_to(p, q, 1e-6) for p, q in zip(a, b)),
                           'total scores', a, b, ctx)
                p = k2.one_best_decoding(want, use_double_scores=False)
                cp = X.shortest_path(c)
                same(p, cp, ctx)
                same(k2.one_best_decoding(want), cp, ctx)
                best = k2.get_aux_labels(p)
                expect(X.best_path(c) == best, 'best path', X.best_path(c),
                       'expected', best, ctx)
                expect(X.get_texts(cp) == best, 'texts', ctx)
                bp = X.best_paths(c, True, 0, 1.0)
                expect(snap(bp) == snap(cp), 'best paths', ctx)
                expect(snap(c) == before, 'lattice changed', ctx)
                sig.append(best)
    return sig



# ---------------------------------------------------------------- attributes
def attr_cases(tier):
    return uni_cases({'quick': ['3x1e'], 'thorough': ['3x1e', '4x1']}, 64)(tier)


def check_attrs(case):
    u, b, e = case
    sig = []
    for x in range(b, e):
        r = from_bits(UNI[u][0], uslots(u), x)
        f = dress(build_vec([r]), KINDS[x % 2], EXTRA[x // 2 % 5], x)
        n = f.num_arcs
        c = cpp(f)
        t, rr = attrs_of(f)
        expect(c.num_attrs() == len(t) + len(rr), 'number of attributes')
        step(5)
        for k in list(t) + ['scores', 'labels']:
            v = t[k] if k in t else (f.scores if k == 'scores' else f.labels)
            expect(X.get_attr(c, k).tolist() == v.tolist(), 'get', k)
            before = snap(c)
            if v.dtype.is_floating_point:
                for scale in (2.0, -0.5, 0.0):
                    d = c.clone()
                    X.scale(d, scale, k)
                    if k == 'scores':
                        g = f.clone()
                        g.scores = f.scores * scale
                    else:
                        g = f.clone()
                        setattr(g, k, v * scale)
                    same(g, d, ['scale', k, scale, r])
            else:
                err = outcome(lambda: X.scale(c, 2.0, k))[1]
                expect(err is not None, 'scaling', k, 'was not refused')
            expect(snap(c) == before, 'changed', k, r)
            d = c.clone()
            w = v + 1 if k != 'labels' else torch.where(v == -1, v, v + 1)
            X.set_attr(d, k, w)
            g = f.clone()
            setattr(g, k, w)
            if k == 'labels':
                # the C++ class has no hook that repairs aux_labels
                for m in attrs_of(f)[0]:
                    setattr(g, m, t[m])
            same(g, d, ['set', k, r])
            d = c.clone()
            bad = torch.zeros(n + 1, dtype=v.dtype)
            expect(outcome(lambda: X.set_attr(d, k, bad))[1] is not None,
                   'wrong size accepted', k)
            if k in ('scores', 'labels'):
                bad = torch.zeros(n, dtype=torch.float64)
                expect(outcome(lambda: X.set_attr(d, k, bad))[1] is not None,
                       'wrong type accepted', k)
                w2 = torch.stack([w, w], 1)[:, 0]   # strided
                X.set_attr(d, k, w2)
                same(g, d, ['set strided', k, r])
            else:
                expect(snap(d) == before, 'changed by a refused call', k)
                d.delete(k)
                expect(k not in d.dump()[2], 'delete', k)
        for k in rr:
            d = c.clone()
            d.delete_ragged(k)
            expect(k not in d.dump()[3], 'delete', k)
            expect(outcome(lambda: d.delete_ragged(k))[1] is not None,
                   'deleted twice', k)
        for k in ('nosuch', 'rr'):
            for fn in (lambda: X.get_attr(c, k), lambda: X.scale(c, 2., k),
                       lambda: c.delete(k)):
                expect(outcome(fn)[1] is not None, 'no such attribute', k)
        sig.append(n)
    return sig


# ---------------------------------------------------------------- operations
def check_unary(case):
    u, b, e = case
    sig = []
    for x in range(b, e):
        r = from_bits(UNI[u][0], uslots(u), x)
        cyc = has_cycle(r, ignore_self=True)
        for vec in (False, True, 'two'):
            if not vec and not any(a[2] == -1 for a in r.arcs):
                continue
            refs = [r] if vec != 'two' else [r, POOL[(x + 2) % 4]]
            f = build_vec(refs) if vec else build(r)
            f = dress(f, KINDS[x % 2], EXTRA[x // 2 % 5], x)
            ctx = [refs, vec, x % 2, x // 2 % 5]
            ops = [('arc_sort', k2.arc_sort), ('connect', k2.connect)]
            if hasattr(f, 'aux_labels'):
                ops.append(('invert', k2.invert))
            if not has_cycle(r) and useful(r) >= set(range(1, r.n)):
                ops.append(('top_sort', k2.top_sort))
            for name, op in ops:
                if vec is False and name in ('arc_sort', 'connect'):
                    # several source automata: not affected by attributes
                    pass
                c = cpp(f)
                step()
                want, we = outcome(lambda: op(f))
                got, ge = outcome(lambda: getattr(X, name)(c))
                expect((we is None) == (ge is None), name, 'Python',
                       str(we)[:100], 'C++', str(ge)[:100], ctx)
                if we is None:
                    if name == 'invert' and x % 2:
                        want = as_ragged(want)
                    same(want, c, [name] + ctx)
                    expect(c.properties() == want.properties, name,
                           'properties', c.properties(), want.properties, ctx)
            sig.append(len(ops))
        sig.append(cyc)
    return sig


# ------------------------------------------------- lattices and n-best lists
LATS = [
    (['a'], 2, (2,)), (['a'], 2, (2, 1)), (['b'], 2, (2, 2)), (['c'], 3, (3,)),
    (['b'], 3, (3, 1)), (['ctc'], 2, (2, 1)), (['fin'], 1, (1,)),
    (['dead'], 2, (2,)), (['a'], 3, (3, 3, 2)), (['triv'], 2, (2, 2)),
]
LMS = [
    Ref(2, [(0, 0, 3, -.5), (0, 0, 4, -.25), (0, 0, 5, -1.), (0, 0, 1, -.125),
            (0, 0, 2, -.75), (0, 1, -1, -.125)]),
    Ref(3, [(0, 0, 3, -.5), (0, 1, 4, -.25), (1, 0, 3, -1.), (0, 1, 1, -.5),
            (1, 1, 5, .25), (1, 0, 2, 0.), (0, 2, -1, -.125),
            (1, 2, -1, -.375)]),
    Ref(4, [(0, 1, 3, -.5), (0, 1, 4, -.125), (1, 2, 4, -.25), (0, 2, 0, -2.),
            (2, 2, 3, -.5), (2, 2, 5, 0.), (1, 3, -1, 0.), (2, 3, -1, -.5)]),
    Ref(2, [(0, 1, -1, 0.)]),
    Ref(3, [(0, 1, 9, 0.), (1, 2, -1, 0.)]),
]


def lm_graph(i):
    # as in recipes: the self-loops have score 0
    g = k2.arc_sort(k2.add_epsilon_self_loops(build_vec([LMS[i]])))
    g.lm_scores = g.scores.clone()
    return g


def the_lattice(i, kind, extra, pat):
    (w,), T, lens = LATS[i]
    f = hlg(w, kind, extra)
    return k2.get_lattice(nnet(len(lens), T, 3, pat), torch.tensor(lens), f,
                          20., 20., 0, 10000)


def rescore_cases(tier):
    for i in range(len(LATS)):
        for k in KINDS:
            for pat in (0, 1) if tier == 'quick' else (0, 1, 2, 3):
                yield [i, k, pat]


def check_rescore(case):
    i, kind, pat = case
    sig = []
    for extra in (('lm',), ('lm', 'ph'), ('lm', 'rr', 'dd')):
        lat = the_lattice(i, kind, extra, pat)
        for g in range(len(LMS)):
            G = lm_graph(g)
            cG = cpp(G)
            want, we = outcome(lambda: k2.nbest.whole_lattice_rescoring(
                lat, G))
            for scale in (1.0, 0.5, 2.0):
                c = cpp(lat)
                before = snap(cG)
                ctx = [case, extra, g, scale]
                step()
                _, ce = outcome(lambda: X.whole_lattice_rescoring(cG, scale, c))
                expect((we is None) == (ce is None), 'Python', str(we)[:200],
                       'C++', str(ce)[:200], ctx)
                expect(snap(cG) == before, 'G changed', ctx)
                if we is not None:
                    continue
                ref = want
                if scale != 1:
                    ref = want.detach()
                    am = want.scores - want.lm_scores
                    ref.scores = am / scale + want.lm_scores
                if kind == 'ragged':
                    ref = as_ragged(ref)
                same(ref, c, ctx, tol=1e-5)
                cp = X.shortest_path(c)
                same(k2.shortest_path(ref, False), cp, ctx, tol=1e-5)
                sig.append(ref.num_arcs)
        bad = G.detach()
        bad.other = torch.zeros(G.num_arcs)
        expect(outcome(lambda: X.whole_lattice_rescoring(
            cpp(bad), 1., cpp(lat)))[1] is not None,
            'G with two attributes was accepted')
    return sig


def word_weights(lat, nb, hyp):
    """log weight of every hypothesis (list of words) in its lattice"""
    rs = nb.shape.row_splits(1).tolist()
    inv = k2.arc_sort(k2.invert(lat))
    out = []
    for k in range(len(rs) - 1):
        for j in range(rs[k], rs[k + 1]):
            w = k2.add_epsilon_self_loops(k2.linear_fsa([hyp[j]]))
            p = k2.intersect_device(k2.create_fsa_vec([inv[k]]), w,
                                    torch.zeros(1, dtype=torch.int32))
            p = k2.top_sort(k2.connect(p))
            out.append(p.get_tot_scores(True, True).tolist()[0])
    return rs, out


def words_of(f):
    a = f.aux_labels
    if isinstance(a, k2.RaggedTensor):
        v = [[w for w in x if w > 0] for x in a.tolist()]
    else:
        v = [[w] if w > 0 else [] for w in a.tolist()]
    return [[w for x in y for w in x] for y in split_attr(f, v)]


def check_nbest(case):
    i, kind, pat = case
    sig = []
    for extra in ((), ('lm',), ('lm', 'rr')):
        lat = the_lattice(i, kind, extra, pat)
        if lat.get_tot_scores(True, True).min().item() == float('-inf'):
            # every lattice needs a path to sample from
            continue
        for num in (2, 5, 40):
            for scale in (0.5, 1.0):
                ctx = [case, extra, num, scale]
                c = cpp(lat)
                before = snap(c)
                step(2)
                cn = X.Nbest.from_lattice(c, num, scale)
                expect(snap(c) == before, 'lattice changed', ctx)
                n = k2.Nbest.from_lattice(lat, num, use_double_scores=False,
                                          nbest_scale=scale)
                expect(cn.splits().tolist() == n.shape.row_splits(1).tolist(),
                       'number of paths', cn.splits(), n.shape, ctx)
                # (the C++ class leaves the scores zero, as documented)
                z = n.fsa.detach()
                z.scores = torch.zeros(z.num_arcs)
                same(z, cn.fsa(), ctx)
                expect(cn.str() == f'Nbest(num_utterances={n.shape.dim0},'
                       f' num_paths={n.shape.tot_size(1)})'
                       or 'num_paths=%d' % n.shape.tot_size(1) in cn.str(),
                       'text', cn.str())
                hyp = words_of(n.fsa)
                # the best word sequence by total weight
                rs, wt = word_weights(lat, n, hyp)
                step()
                best = X.best_paths(c, False, num, scale)
                expect(snap(c) == before, 'lattice changed by best_paths', ctx)
                f = n.fsa
                sp, arcs, at, ra = best.dump()
                lab = arcs[:, 2].tolist()
                s1, s2 = sp[0].tolist(), sp[1].tolist()
                lf = split_attr(f, f.labels.tolist())
                texts = X.get_texts(best)
                for k in range(len(rs) - 1):
                    own = lab[s2[s1[k]]:s2[s1[k + 1]]]
                    top = max(wt[rs[k]:rs[k + 1]])
                    ok = [j for j in range(rs[k], rs[k + 1])
                          if close_to(wt[j], top, 1e-4)]
                    cand = [(lf[j], hyp[j]) for j in ok]
                    expect((own, texts[k]) in cand, 'best path', own,
                           texts[k], 'expected one of', cand, ctx)
                sig.append(rs)
                # rescoring the list with the lattice
                if 'lm' in extra and num == 40:
                    d = cpp(lat)
                    cn.intersect(d)
                    got = cn.fsa()
                    sp, arcs, at, ra = got.dump()
                    s1, s2 = sp[0].tolist(), sp[1].tolist()
                    am = cn.am().tolist()
                    lm = cn.lm().tolist()
                    txt = X.get_texts(got)
                    sc = arcs[:, 3].contiguous().view(torch.float32).tolist()
                    for k in range(len(rs) - 1):
                        paths = lattice_words(lat, k)
                        for j in range(rs[k], rs[k + 1]):
                            key = tuple(hyp[j])
                            expect(txt[j] == hyp[j], 'words of path', j,
                                   txt[j], hyp[j], ctx)
                            v = paths[key]
                            top = max(p[0] for p in v)
                            tot = sum(sc[s2[s1[j]]:s2[s1[j + 1]]])
                            expect(close_to(tot, top, 1e-4), 'score of path',
                                   tot, 'expected', top, ctx)
                            expect(any(close_to(p[0], top, 1e-4)
                                       and close_to(p[1], lm[j], 1e-4)
                                       and close_to(p[0] - p[1], am[j], 1e-4)
                                       for p in v), 'am/lm scores', am[j],
                                   lm[j], 'of', v, ctx)
    return sig


def lattice_words(lat, k):
    """{word sequence: [(score, lm score)]} of lattice k"""
    r = read(lat)[k]
    lm = split_attr(lat, lat.lm_scores.tolist())[k]
    a = lat.aux_labels
    a = a.tolist() if isinstance(a, k2.RaggedTensor) else [
        [x] for x in a.tolist()]
    a = split_attr(lat, a)[k]
    out = {}
    for p in all_paths(r):
        w = tuple(x for j in p for x in a[j] if x > 0)
        out.setdefault(w, []).append((sum(r.arcs[j][3] for j in p),
                                      sum(lm[j] for j in p)))
    return out



# ------------------------------------------------------------------- streams
RCFG = [(3, 1, 100.0, 1000, 1000), (3, 2, 1.5, 100, 100), (3, 2, 4.0, 3, 8),
        (4, 1, 6.0, 100, 1), (3, 3, 2.5, 5, 2), (3, 2, .3, 1, 1)]
RGRAPHS = [
    Ref(2, [(0, 0, 1, 0.), (0, 0, 2, 0.), (0, 1, -1, 0.)]),
    Ref(3, [(0, 1, 1, -.5), (1, 1, 2, .25), (0, 2, -1, 0.), (1, 2, -1, -1.)]),
    Ref(4, [(0, 1, 1, 0.), (0, 2, 2, -.25), (1, 2, 2, 0.), (2, 1, 1, .5),
            (0, 2, 0, -.125), (1, 3, -1, .25), (2, 3, -1, -.5)]),
    Ref(3, [(0, 1, 2, 0.), (1, 1, 1, 0.), (1, 2, -1, 0.)]),
    Ref(2, [(0, 1, -1, 3.0)]),
]


def noise(*key):
    h = 2166136261
    for k in key:
        h = ((h ^ (k + 77)) * 16777619) & 0xffffffff
        h ^= h >> 13
    return -3.0 * (h * 2654435761 >> 7 & 1023) / 1024.0


def stream_cases(tier):
    n = len(RGRAPHS)
    sets = [[i] for i in range(n)] + [list(x) for x in
                                      itertools.product(range(n), repeat=2)]
    if tier == 'thorough':
        sets += [list(x) for x in itertools.product(range(n), repeat=3)]
    else:
        sets += [[0, 2, 3], [4, 1, 1], [2, 2, 0]]
    for gs in sets:
        for c in range(len(RCFG)):
            yield [gs, c]


def check_streams(case):
    gs, c = case
    V, H, beam, ms, mc = RCFG[c]
    sig = []
    for dressing in range(5):
        py, cc = [], []
        for k, g in enumerate(gs):
            kind = ['tensor', 'none', 'ragged', 'tensor', 'none'][
                (k + dressing) % 5]
            if dressing == 0:
                kind = 'tensor'
            ex = EXTRA[(k * 2 + dressing) % 5] if dressing else ()
            f = dress(build(RGRAPHS[g]), kind, ex, k)
            py.append(f)
            cc.append(cpp(f))
        # a kind of attribute must be the same in all graphs
        kinds = {('aux_labels' in attrs_of(f)[1]) for f in py
                 if hasattr(f, 'aux_labels')}
        if len(kinds) > 1:
            continue
        conf = k2.RnntDecodingConfig(V, H, beam, ms, mc)
        ps = [k2.RnntDecodingStream(f) for f in py]
        cs = [X.stream(f) for f in cc]
        snaps = [snap(f) for f in cc]
        t = 0
        for frames in (1, 2, 1):
            P = k2.RnntDecodingStreams(ps, conf)
            C = X.streams(cs, V, H, beam, mc, ms)
            for _ in range(frames):
                sh, cx = P.get_contexts()
                rs, ids, cy = C.contexts()
                ctx = [case, dressing, t]
                expect(sh.row_splits(1).tolist() == rs.tolist()
                       and sh.row_ids(1).tolist() == ids.tolist(),
                       'shape of contexts', rs, sh, ctx)
                expect(cx.tolist() == cy.tolist() and cx.dtype == cy.dtype,
                       'contexts', cy, 'expected', cx, ctx)
                lp = torch.tensor(
                    [[noise(t, s, l, *row) for l in range(V)]
                     for s, row in zip(ids.tolist(), cy.tolist())],
                    dtype=torch.float64).reshape(-1, V)
                step(2)
                P.advance(lp.to(torch.float32))
                # the C++ interface converts the type
                C.advance(lp if t % 2 else lp.to(torch.float32))
                t += 1
            P.terminate_and_flush_to_streams()
            C.flush()
            for partial in (False, True):
                for nf in itertools.product(sorted({1, t}), repeat=len(gs)):
                    o = P.format_output(list(nf), allow_partial=partial)
                    l = C.format(list(nf), partial)
                    same(o, l, [case, dressing, t, partial, nf], tol=1e-5)
                    sig.append(o.num_arcs)
        expect([snap(f) for f in cc] == snaps, 'graphs changed', case)
    return sig


# -------------------------------------------------------- transducer searches
MODEL = '''
import torch
class Decoder(torch.nn.Module):
    blank_id: int
    context_size: int
    unk_id: int
    def __init__(self, table, context_size, unk):
        super().__init__()
        self.register_buffer("table", table)   # (V**H, D)
        self.blank_id = 0
        self.context_size = context_size
        self.unk_id = unk
        self.V = 0
    def forward(self, y, need_pad: bool = True):
        idx = torch.zeros(y.size(0), dtype=torch.int64)
        for i in range(self.context_size):
            idx = idx * self.V + y[:, i]
        return self.table[idx].unsqueeze(1)
class Joiner(torch.nn.Module):
    def __init__(self, V):
        super().__init__()
        self.encoder_proj = torch.nn.Identity()
        self.decoder_proj = torch.nn.Identity()
        self.V = V
    def forward(self, e, d, project_input: bool = True):
        # e holds the frame's bias, d the context's
        return e + d + torch.frac(e * d * 3.0) * 0.5
class Model(torch.nn.Module):
    def __init__(self, d, j):
        super().__init__()
        self.decoder = d
        self.joiner = j
    def forward(self, x):
        return x
'''
MODELS = {}


def model(V, H, unk, pat):
    key = (V, H, unk, pat)
    if key not in MODELS:
        import importlib.util
        src = os.path.join(DIR, f'model_{os.getpid()}.py')
        if not os.path.exists(src):
            open(src, 'w').write(MODEL)
        spec = importlib.util.spec_from_file_location('k2mc_model', src)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        tab = torch.tensor([[-noise(c, l, pat) for l in range(V)]
                            for c in range(V ** H)])
        d = m.Decoder(tab, H, unk)
        d.V = V
        j = torch.jit.script(m.Model(d, m.Joiner(V)))
        path = tmpfile('.jit')
        j.save(path)
        MODELS[key] = (path, tab)
    return MODELS[key]


def joint(e, d):
    x = (e + d + torch.frac(e * d * 3.0) * 0.5)
    return x


def row_of(tab, V, H, x, hist):
    c = 0
    for h in hist[-H:]:
        c = c * V + h
    return joint(x, tab[c])


def ref_greedy(tab, V, H, unk, x):
    ys = [0] * H
    for t in range(x.size(0)):
        k = int(row_of(tab, V, H, x[t], ys).argmax())
        if k not in (0, unk):
            ys.append(k)
    return ys[H:]


class Tie(Exception):
    pass


def ref_beam(tab, V, H, unk, x, n):
    """modified beam search: at most one symbol per frame"""
    cur = {tuple([0] * H): 0.0}
    for t in range(x.size(0)):
        ext = []
        for ys, p in cur.items():
            lp = torch.log_softmax(row_of(tab, V, H, x[t], ys), -1).tolist()
            for l in range(V):
                ext.append((p + lp[l], ys if l in (0, unk) else ys + (l,)))
        ext.sort(reverse=True)
        if len(ext) > n and ext[n - 1][0] - ext[n][0] < 1e-4:
            raise Tie()
        cur = {}
        for p, ys in ext[:n]:
            cur[ys] = logadd(cur[ys], p) if ys in cur else p
    o = sorted(((p / len(ys), ys) for ys, p in cur.items()), reverse=True)
    if len(o) > 1 and o[0][0] - o[1][0] < 1e-4:
        raise Tie()
    return list(o[0][1][H:])


def search_cases(tier):
    for V in (2, 3, 4):
        for H in (1, 2, 3):
            for N, T in ((1, 4), (2, 3), (3, 3)) + (
                    () if tier == 'quick' else ((2, 6), (4, 3))):
                for pat in range(2 if tier == 'quick' else 6):
                    yield [V, H, N, T, pat]


def check_search(case):
    V, H, N, T, pat = case
    sig = []
    x = torch.tensor([[[-noise(i, t, l, pat, 5) for l in range(V)]
                       for t in range(T)] for i in range(N)])
    for unk in (0, V - 1, 1):
        path, tab = model(V, H, unk, pat)
        for lens in itertools.product(range(1, T + 1), repeat=N):
            if max(lens) != T:
                continue
            ln = torch.tensor(lens, dtype=torch.int64)
            ctx = [case, unk, lens]
            step(2)
            got = X.greedy(path, x, ln)
            want = [ref_greedy(tab, V, H, unk, x[i, :lens[i]])
                    for i in range(N)]
            expect(got == want, 'greedy search', got, 'expected', want, ctx)
            for n in (1, 2, 4, 7):
                got, err = outcome(lambda: X.beam(path, x, ln, n))
                expect(err is None, 'beam search with', n, 'active paths',
                       'failed:', str(err)[:300], ctx)
                for i in range(N):
                    try:
                        want = ref_beam(tab, V, H, unk, x[i, :lens[i]], n)
                    except Tie:
                        continue
                    expect(got[i] == want, 'beam search', n, 'utterance', i,
                           got[i], 'expected', want, ctx)
                    sig.append(want)
    return [len(sig), sig[:3]]


def hyp_cases(tier):
    for i in range(4):
        for j in range(4):
            yield [i, j]


HYPS = [([1], -1.0), ([1, 2], -1.5), ([], -.5), ([1], -2.0)]


def check_hyps(case):
    sig = []
    for n in range(0, 4):
        for rest in itertools.product(range(4), repeat=n):
            adds = [HYPS[k] for k in (case + list(rest))]
            for rem in ([], [[1]], [[9]], [[1, 2], [1]]):
                want = {}
                for ys, p in adds:
                    k = tuple(ys)
                    want[k] = logadd(want[k], p) if k in want else p
                for ys in rem:
                    want.pop(tuple(ys), None)
                for norm in (False, True):
                    if norm and () in want:
                        continue
                    step()
                    size, al, ys, p = X.hypotheses(adds, rem, norm)
                    expect(size == len(want) and
                           {tuple(a): None for a, _ in al} ==
                           {a: None for a in want} or
                           sorted(tuple(a) for a, _ in al) == sorted(want),
                           'hypotheses', al, want)
                    expect(all(close_to(q, want[tuple(a)], 1e-9)
                               for a, q in al), 'log probs', al, want)
                    if want:
                        top = max(q / (len(a) if norm else 1)
                                  for a, q in want.items())
                        expect(close_to(p / (len(ys) if norm else 1), top,
                                        1e-9), 'best', ys, p, want, norm)
                        sig.append(ys)
    return sig[-3:]


# --------------------------------------------------------------------- files
SYM = ['<eps> 0', 'a 1', 'b 2', '\u2581c 3', '\u2581 4', 'a\t5', 'a 2', 'c 1',
       'x', '7', 'x y', 'x 1 2', '', '  d   6  ', '\u00fcber 9', 'n -3']


def symbol_cases(tier):
    for i in range(len(SYM)):
        for j in range(len(SYM)):
            yield [i, j]


def ref_symbols(text):
    """None: malformed"""
    tok = text.split()
    if len(tok) % 2:
        return None
    a, b = {}, {}
    for s, i in zip(tok[::2], tok[1::2]):
        try:
            i = int(i)
        except ValueError:
            return None
        if s.startswith('\u2581'):
            s = ' ' + s[1:]
        if s in a or i in b:
            return None
        a[s] = i
        b[i] = s
    return a


def check_symbols(case):
    path = tmpfile('.txt')
    sig = []
    probe = ['a', 'b', 'c', ' c', ' ', 'd', 'x', '<eps>', '\u00fcber', 'n', '', '7',
             '2', '1', 'b', '3']
    for k in range(-1, len(SYM)):
        lines = [SYM[i] for i in case] + ([SYM[k]] if k >= 0 else [])
        for end in ('\n', ''):
            text = '\n'.join(lines) + end
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text)
            want = ref_symbols(text)
            step()
            got, err = outcome(lambda: X.symbols(
                path, list(range(-5, 12)), probe))
            expect((want is None) == (err is not None), 'symbol table', text,
                   'refused' if err else 'accepted')
            if want is None:
                sig.append(None)
                continue
            i2s, s2i, txt = got
            expect({i: s.decode() for i, s in i2s.items()} ==
                   {i: s for s, i in want.items()}, 'symbols', i2s, want)
            expect({s.decode(): i for s, i in s2i.items()} ==
                   {s: i for s, i in want.items()}, 'ids', s2i, want)
            expect(sorted(txt.decode().split('\n')[:-1]) == sorted(
                f'{s} {i}' for s, i in want.items()), 'text', txt, want)
            sig.append(len(want))
    os.unlink(path)
    return sig


def riff(fmt, chunks_):
    import struct
    body = b'WAVE'
    for tag, data in [(b'fmt ', fmt)] + chunks_:
        size = len(data) if not isinstance(data, tuple) else data[0]
        data = data if not isinstance(data, tuple) else data[1]
        body += tag + struct.pack('<i', size) + data
    return b'RIFF' + struct.pack('<i', len(body)) + body


def wave_cases(tier):
    for n in (0, 1, 2, 5):
        for extra in range(5):
            for field in range(-1, 11):
                yield [n, extra, field]


def check_wave(case):
    import struct
    n, extra, field = case
    path = tmpfile('.wav')
    smp = [(-32768, 32767, 0, 1, -1, 12345)[(i + extra) % 6] for i in range(n)]
    rate = 8000 + 100 * extra
    sig = []
    base = [1, 1, rate, rate * 2, 2, 16]
    for delta in (0,) if field < 0 else (-1, 1, 2):
        v = list(base)
        if 0 <= field < 6:
            v[field] += delta
        fmt = struct.pack('<hhiihh', *v)
        # (rate and byte rate must agree; anything else is refused)
        good = v == base
        data = struct.pack(f'<{n}h', *smp)
        pre = [(b'LIST', b'abcdef'), (b'junk', b''), (b'fact', b'data')][
            :extra % 4]
        raw = riff(fmt, pre + [(b'data', data)])
        if field == 6:      # truncated
            cut = {-1: len(raw) - 1, 1: 20, 2: 43}[delta]
            raw = raw[:cut]
            good = False
        if field == 7:      # wrong magic numbers
            at = {-1: 0, 1: 8, 2: 12}[delta]
            raw = raw[:at] + b'x' + raw[at + 1:]
            good = False
        if field == 8:      # half a sample at the end
            raw = riff(fmt, pre + [(b'data', data + b'z' * (2 + delta)
                                    if delta < 2 else data[:-1])])
            good = n == 0 and delta == 2
        if field == 9:      # negative sizes
            raw = riff(fmt, pre + [(b'data', ({-1: -2, 1: -1, 2: -8}[delta],
                                              data))])
            good = False
        if field == 10:
            raw = riff(fmt, pre + [(b'LIST', (-4 * (delta + 2), b'')),
                                   (b'data', data)])
            good = False
        raw += b'' if extra < 4 else b'trailing'
        if field == 6 and extra == 4:
            continue
        with open(path, 'wb') as f:
            f.write(raw)
        step()
        got, err = outcome(lambda: X.wave(path))
        expect(good == (err is None), 'wave file', case, delta,
               'refused' if err else 'accepted', str(err)[:200])
        if good:
            w = [x / 32768. for x in smp]
            expect(got[0].tolist() == w and got[1] == rate, 'samples', got, w)
            ws = X.waves([path, path], rate)
            expect([x.tolist() for x in ws] == [w, w], 'samples', ws)
            expect(outcome(lambda: X.waves([path], rate + 1))[1] is not None,
                   'wrong sample rate accepted')
            sig.append(n)
    os.unlink(path)
    return sig


# --------------------------------------------------------- combined automata
PAIR = [
    Ref(3, [(0, 1, 3, .5), (0, 0, 4, -.25), (1, 1, 3, 0.), (0, 2, -1, .125),
            (1, 2, -1, 1.)]),
    Ref(2, [(0, 0, 3, -.5), (0, 0, 4, .25), (0, 0, 5, 0.), (0, 1, -1, 2.)]),
    Ref(4, [(0, 1, 4, 0.), (1, 2, 3, -1.), (1, 2, 5, .5), (2, 3, -1, 0.)]),
    Ref(3, [(0, 1, 0, .5), (0, 1, 3, 0.), (1, 2, -1, 0.)]),
    Ref(2, [(0, 1, -1, .75)]),
    Ref(2, []),
]


def pair_cases(tier):
    n = len(PAIR)
    for a in [[i] for i in range(n)] + ([[0, 1], [2, 0]] if tier == 'quick'
                                        else chunks(range(n), 2)):
        for nb in (1, 2) if tier == 'quick' else (1, 2, 3):
            for b in itertools.product(range(n), repeat=nb):
                yield [list(a), list(b)]


def check_pair(case):
    a, b = case
    sig = []
    maps = list(itertools.product(range(len(a)), repeat=len(b)))
    for k in range(4):
        A = k2.arc_sort(dress(build_vec([PAIR[i] for i in a]), 'none',
                              EXTRA[k], 1))
        B = dress(build_vec([PAIR[i] for i in b]), KINDS[k % 2], (), 2)
        if k == 3:
            A = k2.arc_sort(dress(build_vec([PAIR[i] for i in a]), 'none',
                                  ('ph',), 1))
            B = dress(B, 'none', ('dd', 'r2'), 2)
        for m in maps:
            bm = torch.tensor(m, dtype=torch.int32)
            for srt in (False, True):
                ctx = [case, k, m, srt]
                ca, cb = cpp(A), cpp(B)
                before = snap(ca), snap(cb)
                step(2)
                want, we = outcome(lambda: k2.intersect_device(A, B, bm, srt))
                got, ge = outcome(lambda: X.intersect_device(ca, cb, bm, srt))
                expect((we is None) == (ge is None), 'Python', str(we)[:100],
                       'C++', str(ge)[:100], ctx)
                expect((snap(ca), snap(cb)) == before, 'arguments changed', ctx)
                if we is None:
                    same(want, got, ctx)
                    sig.append(want.num_arcs)
    # linear automata with self-loops of every path of the batch
    lin = [i for i in b if i in (2, 4)]
    if lin:
        P = k2.shortest_path(k2.top_sort(build_vec([PAIR[i] for i in lin])),
                             False)
        for f in (P, P[0]):
            words = split_labels(f)
            c = cpp(f)
            before = snap(c)
            got = X.linear_with_loops(c)
            expect(snap(c) == before, 'argument changed', case)
            want = k2.add_epsilon_self_loops(k2.linear_fsa(
                words if f is P else words[0]))
            same(want, got, [case, 'linear with self-loops'])
            step()
    return sig


def split_labels(f):
    """positive labels of each (linear) automaton"""
    g = f if len(f.shape) == 3 else k2.create_fsa_vec([f])
    return [[l for l in x if l > 0] for x in
            split_attr(g, g.labels.tolist())]


# --------------------------------------------------- attributes of many sources
GSRC = [2, 0, 1, 3]     # numbers of arcs of the sources


def gather_cases(tier):
    top = 2 if tier == 'quick' else 3
    for n in range(1, 4):
        for srcs in itertools.product(range(len(GSRC)), repeat=n):
            for lens in itertools.product(range(top + 1), repeat=n):
                yield [list(srcs), list(lens)]


def some_arcs(n):
    """a batch of one automaton of n arcs (tensor)"""
    r = Ref(2, [(0, 0, i + 1, 0.) for i in range(n - 1)] +
            ([(0, 1, -1, 0.)] if n else []))
    return build_vec([r]).as_dict()['arcs']


def check_gather(case):
    srcs, lens = case
    sig = []
    sets = [(), ('lm',), ('ph', 'dd'), ('lm', 'rr', 'ph'), ('rr', 'r2'),
            ('lm', 'ph', 'dd', 'l2')]
    for which in range(len(sets)):
        dicts = []
        cs = []
        for k, g in enumerate(srcs):
            n = GSRC[g]
            names = sets[(which + k * (1 + which % 2)) % len(sets)] \
                if which else sets[3]
            t, r = {}, {}
            for e in names:
                base = 10 * (k + 1)
                if e in ('lm', 'l2'):
                    t[e] = torch.tensor([base + i + (.5 if e == 'lm' else .25)
                                         for i in range(n)])
                elif e == 'ph':
                    t[e] = torch.arange(base, base + n, dtype=torch.int32)
                elif e == 'dd':
                    t[e] = torch.arange(base, base + n,
                                        dtype=torch.float64) / 8
                else:
                    v = [[base + i] * ((i + k + len(e)) % 3)
                         if e == 'rr' else [base] for i in range(n)]
                    sp = [0]
                    for w in v:
                        sp.append(sp[-1] + len(w))
                    r[e] = (torch.tensor(sp, dtype=torch.int32),
                            torch.tensor(sum(v, []), dtype=torch.int32), v)
            a = some_arcs(n)
            dicts.append((t, r, n))
            cs.append(X.make(a, t, {q: (w[0], w[1]) for q, w in r.items()}))
        # all index patterns that are legal (-1: no source)
        for pat in range(4):
            maps = []
            for (t, r, n), ln in zip(dicts, lens):
                maps.append([((i * (pat + 1) + pat) % (n + 1)) - 1
                             for i in range(ln)])
            flat = sum(maps, [])
            sp = [0]
            for w in maps:
                sp.append(sp[-1] + len(w))
            out = X.make(some_arcs(len(flat)), {}, {})
            before = [snap(c) for c in cs]
            ctx = [case, which, maps]
            step()
            f, err = outcome(lambda: X.gather(
                cs, out, torch.tensor(sp, dtype=torch.int32),
                torch.tensor(flat, dtype=torch.int32)))
            expect(err is None, 'refused', str(err)[:300], ctx)
            expect([snap(c) for c in cs] == before, 'sources changed', ctx)
            _, _, gt, gr = f.dump()
            nt = {q for t, r, n in dicts for q in t}
            nr = {q for t, r, n in dicts for q in r}
            expect(set(gt) == nt and set(gr) == nr, 'attributes', set(gt),
                   set(gr), 'expected', nt, nr, ctx)
            for q in nt:
                w = []
                for (t, r, n), m in zip(dicts, maps):
                    v = t[q].tolist() if q in t else [0] * n
                    w += [v[i] if i >= 0 else 0 for i in m]
                expect(gt[q].tolist() == w, 'attribute', q, gt[q].tolist(),
                       'expected', w, ctx)
            for q in nr:
                w = []
                for (t, r, n), m in zip(dicts, maps):
                    v = r[q][2] if q in r else [[]] * n
                    w += [v[i] if i >= 0 else [] for i in m]
                s0 = [0]
                for y in w:
                    s0.append(s0[-1] + len(y))
                expect(gr[q][0].tolist() == s0
                       and gr[q][1].tolist() == sum(w, []), 'attribute', q,
                       [y.tolist() for y in gr[q]], 'expected', w, ctx)
            sig.append(len(flat))
    return [len(sig), sum(sig)]


# ---------------------------------------------- streams driven by a real model
def chunk_cases(tier):
    for V, H in ((4, 1), (4, 2)) if tier == 'quick' else (
            (4, 1), (4, 2), (5, 2), (6, 3)):
        for pat in range(2 if tier == 'quick' else 4):
            for gs in itertools.product(range(len(RGRAPHS)), repeat=2):
                yield [V, H, pat, list(gs)]


def check_chunk(case):
    V, H, pat, gs = case
    sig = []
    path, tab = model(V, H, 0, pat)
    T = 4
    x = torch.tensor([[[-noise(i, t, l, pat, 9) for l in range(V)]
                       for t in range(T)] for i in range(len(gs))])
    gsrc = [build(RGRAPHS[g]) for g in gs]
    if any(max(f.labels.tolist() + [0]) >= V for f in gsrc):
        return sig
    for beam, ms, mc in ((20., 10, 10), (2., 3, 2)):
        for cut in range(T):
            # split the frames into one or two chunks
            parts = [x] if cut == 0 else [x[:, :cut], x[:, cut:]]
            for partial in (False, True):
                ctx = [case, beam, cut, partial]
                step(T)
                got = X.decode_one_chunk([cpp(f) for f in gsrc], V, H, beam,
                                         ms, mc, path, parts, partial)
                ps = [k2.RnntDecodingStream(f) for f in gsrc]
                conf = k2.RnntDecodingConfig(V, H, beam, ms, mc)
                t = 0
                for p in parts:
                    P = k2.RnntDecodingStreams(ps, conf)
                    for i in range(p.size(1)):
                        sh, cx = P.get_contexts()
                        e = x[sh.row_ids(1).long(), t]
                        idx = torch.zeros(cx.size(0), dtype=torch.int64)
                        for j in range(H):
                            idx = idx * V + cx[:, j]
                        P.advance(joint(e, tab[idx]).log_softmax(-1))
                        t += 1
                    P.terminate_and_flush_to_streams()
                want = P.format_output([T] * len(gs), allow_partial=partial)
                bare = k2.Fsa(want.arcs)
                same(bare, got, ctx, tol=1e-5)
                sig.append(bare.num_arcs)
    return sig


# ------------------------------------------------------------- small utilities
def shape_cases(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(0, top + 1):
        for lens in itertools.product(range(4), repeat=n):
            yield list(lens)


def check_shape(lens):
    sp = [0]
    for l in lens:
        sp.append(sp[-1] + l)
    ids = [i for i, l in enumerate(lens) for _ in range(l)]
    tot = sp[-1]
    S = torch.tensor(sp, dtype=torch.int32)
    I = torch.tensor(ids, dtype=torch.int32)
    sig = []
    step(5)
    for shared in (False, True):
        src = torch.tensor(lens + [7], dtype=torch.int32)
        d = X.exclusive_sum(src, shared)
        expect(d.tolist() == sp, 'exclusive sum', d, sp)
        if not shared:
            expect(src.tolist() == lens + [7], 'source changed')
    trimmed = list(lens)
    while trimmed and trimmed[-1] == 0:
        trimmed.pop()
    for a, b, t in ((S, None, tot), (S, None, -1), (None, I, tot),
                    (None, I, -1), (S, I, tot), (S, I, -1)):
        if a is None and trimmed != lens:
            continue    # row ids alone do not tell trailing empty rows
        d0, d1, rs, ri = X.shape2(a, b, t)
        expect((d0, d1, rs.tolist(), ri.tolist()) ==
               (len(lens), tot, sp, ids), 'shape', d0, d1, rs, ri, lens,
               a is None, b is None, t)
        sig.append(d1)
    expect(outcome(lambda: X.shape2(None, None, tot))[1] is not None,
           'a shape of nothing was accepted')
    return sig


# -------------------------------------------------------- command-line options
TOKENS = [
    '--bool-opt', '--bool-opt=false', '--bool-opt=T', '--bool-opt=',
    '--bool-opt=2', '--int-opt=7', '--int_opt=-8', '--INT-OPT= 9 ',
    '--int-opt=2147483648', '--int-opt=1x', '--int-opt', '--uint-opt=5',
    '--uint_opt=4294967295', '--uint-opt=-1', '--float-opt=1.5',
    '--float-opt=inf', '--float-opt=1.5x', '--double-opt=-2e3',
    '--double-opt=', '--pre.str-opt=a b', '--pre.str-opt=', '--pre.str-opt',
    '--str-opt=x', '--nosuch=1', '--', '-', 'pos', '--=3',
    '--config=CFG1', '--config=CFG2', '--config=MISSING', '--config=BAD',
]
CONFIGS = {
    'CFG1': '# comment\n--int-opt=11 # eleven\n\n  --float_opt=2.5\n',
    'CFG2': '--bool-opt\n--pre.str-opt=from file\n--int-opt=12\n',
    'BAD': 'int-opt=11\n',
}


def opt_cases(tier):
    n = len(TOKENS)
    for i in range(n):
        for j in range(n):
            yield [i, j]


class Bad(Exception):
    pass


def ref_options(args, files):
    v = {'bool-opt': False, 'int-opt': 3, 'uint-opt': 4, 'float-opt': .5,
         'double-opt': .25, 'pre.str-opt': 'dflt', 'config': ''}

    def put(arg):
        k, eq, x = arg[2:].partition('=')
        if eq and not k:
            raise Bad()
        k = k.replace('_', '-').lower()
        x = x.strip()
        if k not in v:
            raise Bad()
        if k == 'bool-opt':
            if eq and not x:
                raise Bad()
            if x.lower() in ('true', 't', '1', ''):
                v[k] = True
            elif x.lower() in ('false', 'f', '0'):
                v[k] = False
            else:
                raise Bad()
        elif k in ('int-opt', 'uint-opt'):
            try:
                x = int(x)
            except ValueError:
                raise Bad()
            lo, hi = (-2**31, 2**31 - 1) if k[0] == 'i' else (0, 2**32 - 1)
            if not lo <= x <= hi:
                raise Bad()
            v[k] = x
        elif k in ('float-opt', 'double-opt'):
            try:
                v[k] = float(x)
            except ValueError:
                raise Bad()
        elif not eq:
            raise Bad()
        else:
            v[k] = x

    # files first: the command line overrides them
    for a in args:
        if a == '--':
            break
        if a.startswith('--'):
            k, eq, x = a[2:].partition('=')
            if eq and not k:
                raise Bad()
            if k == 'config':
                if x not in files:
                    raise Bad()
                for line in files[x].split('\n'):
                    line = line.split('#')[0].strip()
                    if not line:
                        continue
                    if not line.startswith('--'):
                        raise Bad()
                    put(line)
    pos = None
    dd = False
    for k, a in enumerate(args):
        if pos is None and a == '--':
            pos, dd = [], True
        elif pos is None and a.startswith('--'):
            put(a)
        else:
            pos = [] if pos is None else pos
            if a == '--' and not dd:
                dd = True
            else:
                pos.append(a)
    return v, pos or []


def check_options(case):
    import struct
    names = {}
    for k, text in CONFIGS.items():
        names[k] = tmpfile('.cfg')
        open(names[k], 'w').write(text)
    names['MISSING'] = tmpfile('.none')
    os.unlink(names['MISSING'])
    sig = []
    for k in [-1] + list(range(len(TOKENS))):
        args = [TOKENS[i] for i in case] + ([TOKENS[k]] if k >= 0 else [])
        real = []
        for a in args:
            h, eq, x = a.partition('=')
            real.append(f'{h}={names[x]}' if h == '--config' else a)
        try:
            want = ref_options(args, CONFIGS)
        except Bad:
            want = None
        step()
        got, err = outcome(lambda: X.options(real))
        expect((want is None) == (err is not None), 'options', args,
               'refused' if err else 'accepted', str(err)[:300])
        if want is None:
            sig.append(0)
            continue
        v, pos = want
        b, i, u, f, d, s, n, p, cfg = got
        f32 = struct.unpack('f', struct.pack('f', v['float-opt']))[0]
        w = [v['bool-opt'], v['int-opt'], v['uint-opt'], f32, v['double-opt'],
             v['pre.str-opt']]
        expect([b, i, u, f, d, s.decode()] == w, 'options', args, 'give',
               [b, i, u, f, d, s], 'expected', w)
        pos = [f'--config={names[x[9:]]}' if x.startswith('--config=') else x
               for x in pos]
        expect([x.decode() for x in p] == pos, 'positional arguments of',
               args, p, 'expected', pos)
        lines = cfg.decode().split('\n')
        for line in ('bool-opt = ' + ('true' if w[0] else 'false'),
                     f'int-opt = {w[1]}', f'uint_opt = {w[2]}',
                     f"pre.str-opt = '{w[5]}'"):
            expect(line in lines, 'configuration', lines, 'lacks', line)
        sig.append(len(pos) + 1)
    for x in names.values():
        if os.path.exists(x):
            os.unlink(x)
    return sig


CHARS = ['a', ' ', "'", '"', '$', '`', '\\', '=', '/', '*', '\t', ';']


def escape_cases(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for p in itertools.product(range(len(CHARS)), repeat=max(n - 1, 0)):
            yield [n, list(p)]


def check_escape(case):
    import shlex
    n, p = case
    for c in (CHARS if n else ['']):
        s = ''.join(CHARS[i] for i in p) + c
        step()
        e = X.escape(s).decode()
        expect(shlex.split(e) == [s], 'escape', repr(s), repr(e))
    return n


FAMILIES = [
    Family('graphs', graph_cases, check_graphs,
           'standard, modified and trivial topologies of every size'),
    Family('load', uni_cases({'quick': ['3x1e', '4x1'],
                              'thorough': ['3x1e', '3x2', '4x1', '3x3']}, 64),
           check_load,
           'every automaton of 3 states over {0,1} and 4 states over {1}, alone and in batches, x attribute sets'),
    Family('dense', dense_cases, check_dense,
           'every list of up to 2 (3) segments with fields from one below to one above the legal range'),
    Family('segments', seg_cases, check_segments,
           'every start and number of frames up to 8 x subsampling factors 1-4'),
    Family('lattices', lattice_cases, check_lattice,
           '14 graphs x batch shapes x every vector of lengths (truncated ones too) x score patterns x beams'),
    Family('attributes', attr_cases, check_attrs,
           'every 3-state automaton over {0,1} x attribute sets: get, set, scale, delete of each attribute'),
    Family('operations', uni_cases({'quick': ['3x1e', '4x1'],
                                    'thorough': ['3x1e', '3x2', '4x1']}, 64),
           check_unary,
           'invert, arc_sort, connect, top_sort of every automaton of 3 states over {0,1} and 4 states over {1}, alone and in batches'),
    Family('rescoring', rescore_cases, check_rescore,
           'lattices x language models x scales x attribute sets'),
    Family('nbest', rescore_cases, check_nbest,
           'lattices x numbers of paths x scales: sampled lists, their rescoring and the best sequence by total weight'),
    Family('streams', stream_cases, check_streams,
           'every list of up to 2 (3) of 5 graphs with different attributes x search limits: contexts of every frame, lattices for every vector of frames'),
    Family('searches', search_cases, check_search,
           'vocabularies 2-4 x context sizes 1-3 x every vector of lengths x numbers of active paths, against a reference search'),
    Family('hypotheses', hyp_cases, check_hyps,
           'every sequence of 2-5 additions of 4 hypotheses and removals'),
    Family('symbols', symbol_cases, check_symbols,
           'every file of 2-3 out of 16 lines, with and without a final newline'),
    Family('waves', wave_cases, check_wave,
           'sample counts x extra chunks x every header field off by one, truncated files'),
    Family('pairs', pair_cases, check_pair,
           'intersect_device of every pair of batches from 6 automata x every map x attribute sets; linear automata with self-loops'),
    Family('gather', gather_cases, check_gather,
           'attributes collected from 1-3 sources of 0-3 arcs: every source list x numbers of arcs taken x index patterns x attribute sets'),
    Family('chunks', chunk_cases, check_chunk,
           'decode_one_chunk with scripted models x pairs of graphs x every split of the frames'),
    Family('shapes', shape_cases, check_shape,
           'every list of up to 3 (4) row lengths 0-3, from row splits, row ids or both'),
    Family('options', opt_cases, check_options,
           'every sequence of 2-3 out of 32 command-line arguments, with configuration files'),
    Family('escape', escape_cases, check_escape,
           'every string of up to 3 (4) of 12 characters'),
]
