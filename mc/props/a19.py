"""A19: reported properties are correct, malformed input is refused."""
import itertools
import struct

import k2
import _k2
from mc.core import Family, expect, step
from mc.lang import *  # noqa

I32 = torch.int32
VALID, NONEMPTY, TOP, ACYC, SORTED, DET, EPSF, ACC, COACC = (
    1, 2, 4, 8, 16, 32, 64, 128, 256)
NAMES = [(1, 'Valid'), (2, 'Nonempty'), (4, 'TopSorted'),
         (8, 'TopSortedAndAcyclic'), (16, 'ArcSorted'),
         (32, 'ArcSortedAndDeterministic'), (64, 'EpsilonFree'),
         (128, 'MaybeAccessible'), (256, 'MaybeCoaccessible')]


def u32(x):
    return x & 0xffffffff


def definition(n, arcs):
    """the documented meaning of every property; arcs: (src, dest, label) in
    order of source states"""
    p = 0
    fin = n - 1
    ok = n != 1
    for s, d, l in arcs:
        ok = ok and 0 <= s < fin and 0 <= d <= fin and l >= -1
        ok = ok and (l == -1) == (d == fin)
    p |= VALID if ok else 0
    p |= NONEMPTY if arcs else 0
    p |= TOP if all(d >= s for s, d, l in arcs) else 0
    p |= ACYC if all(d > s for s, d, l in arcs) else 0
    so = de = True
    for (s, d, l), (s2, d2, l2) in zip(arcs, arcs[1:]):
        if s == s2:
            so = so and (u32(l), d) <= (u32(l2), d2)
            de = de and u32(l) < u32(l2)
    p |= SORTED if so else 0
    p |= DET if de else 0
    p |= EPSF if all(l != 0 for s, d, l in arcs) else 0
    p |= ACC if all(i == 0 or any(d == i != s for s, d, l in arcs)
                    for i in range(n)) else 0
    p |= COACC if all(i == fin or any(s == i != d for s, d, l in arcs)
                      for i in range(n)) else 0
    return p


def as_str(p):
    return '"' + '|'.join(name for b, name in NAMES if p & b) + '"'


def tensor(arcs):
    a = torch.tensor([[s, d, l, 0] for s, d, l in arcs],
                     dtype=I32).reshape(-1, 4)
    for i in range(len(arcs)):
        a[i, 3] = bits(0.5 * i - 1)
    return a


def bits(x):
    return struct.unpack('<i', struct.pack('<f', x))[0]


def consequences(p, f, arcs):
    """what the accessors say"""
    expect(f.properties == p, 'properties', f.properties_str, 'expected',
           as_str(p), 'of', arcs)
    expect(f.properties_str == as_str(p), 'properties_str', f.properties_str,
           as_str(p))
    expect(k2.get_properties(f) == p if hasattr(k2, 'get_properties')
           else True, 'get_properties')
    expect(k2.is_arc_sorted(p) == bool(p & SORTED) if hasattr(
        k2, 'is_arc_sorted') else True, 'is_arc_sorted')


# ------------------------------------------------------- all small automata
def lists(alpha, upto):
    for n in range(upto + 1):
        for x in itertools.product(alpha, repeat=n):
            yield x


A3 = [(d, l) for d in (0, 1) for l in (0, 1, 2)] + [(2, -1)]
A4 = [(d, l) for d in (0, 1, 2) for l in (0, 1)] + [(3, -1)]


def small_cases(tier):
    # three states: every list of up to 2 (3) arcs leaving each state
    for a in lists(A3, 2 if tier == 'quick' else 3):
        yield [3, list(map(list, a)), 2 if tier == 'quick' else 3]
    # four states: up to 1 (2) arcs leaving each
    for a in lists(A4, 1 if tier == 'quick' else 2):
        for b in lists(A4, 1 if tier == 'quick' else 2):
            yield [4, [list(map(list, a)), list(map(list, b))],
                   1 if tier == 'quick' else 2]


def small_of(case):
    n, first, upto = case
    if n == 3:
        for b in lists(A3, upto):
            yield 3, [(0, d, l) for d, l in first] + [(1, d, l) for d, l in b]
    else:
        for c in lists(A4, upto):
            yield 4, ([(0, d, l) for d, l in first[0]] +
                      [(1, d, l) for d, l in first[1]] +
                      [(2, d, l) for d, l in c])


def vec_tensor(items):
    """FsaVec in its integer form"""
    r1, r2, flat = [0], [0], []
    for n, arcs in items:
        r1.append(r1[-1] + n)
        r2.append(r2[-1] + len(arcs))
        flat += [x for i, (s, d, l) in enumerate(arcs)
                 for x in (s, d, l, bits(0.5 * i - 1))]
    return torch.tensor([len(items), 0] + r1 + r2 + flat, dtype=I32)


def check_small(case):
    items = []
    sigs = set()
    for n, arcs in small_of(case):
        p = definition(n, arcs)
        expect(p & VALID, 'harness')
        sigs.add(p)
        step()
        # a batch of one
        f = k2.Fsa(vec_tensor([(n, arcs)]))
        consequences(p, f, arcs)
        expect(same(read1(f), (n, arcs)), 'structure', read1(f), arcs)
        items.append((n, arcs, p))
        # as a single one, whose final state must be seen on an arc
        if any(l == -1 for s, d, l in arcs):
            f = k2.Fsa(tensor(arcs))
            consequences(p, f, arcs)
            expect(same(read1(f), (n, arcs)), 'structure', read1(f), arcs)
            consequences(p, k2.Fsa.from_dict(f.as_dict()), arcs)
            consequences(p, k2.create_fsa_vec([f]), arcs)
    # all together
    for lo in range(0, len(items), 37):
        part = items[lo:lo + 37]
        f = k2.Fsa(vec_tensor([(n, a) for n, a, p in part]))
        p = 511
        for x in part:
            p &= x[2]
        consequences(p, f, 'the batch')
        for i, (n, a, q) in enumerate(part):
            g = f[i]
            consequences(q if a else g.properties, g, a)
    return sorted(sigs)


def read1(f):
    if f.arcs.num_axes() == 2:
        n = f.arcs.dim0()
    else:
        n = f.arcs.row_splits(1).tolist()[-1]
    a = f.arcs.values()
    return n, [tuple(x[:3]) for x in a.tolist()]


def same(a, b):
    return a[0] == b[0] and [tuple(x) for x in a[1]] == [tuple(x)
                                                         for x in b[1]]


# ------------------------------------------------------ batches, wide labels
LABELS = [-1, 0, 1, 2, 2 ** 31 - 2, 2 ** 31 - 1]
SHAPES = [
    (0, []), (2, []), (2, [(0, 1, -1)]), (3, [(0, 1, 1), (1, 2, -1)]),
    (3, [(0, 0, 0), (0, 1, 1), (1, 2, -1)]),
    (3, [(0, 1, 2), (0, 1, 1), (1, 2, -1)]),
    (3, [(0, 1, 1), (0, 1, 1), (1, 2, -1)]),
    (4, [(0, 2, 1), (1, 3, -1), (2, 1, 1)]),
    (4, [(0, 1, 1), (1, 3, -1)]),
    (3, [(0, 1, 0), (1, 0, 1), (1, 2, -1)]),
    (3, [(0, 2, -1), (1, 2, -1)]),
    (3, [(0, 1, 1), (1, 1, 1)]),
]


def batch_cases(tier):
    for a in range(len(SHAPES)):
        for b in range(len(SHAPES)):
            yield ['batch', a, b, 1 if tier == 'quick' else 2]
    for l1 in LABELS[1:]:
        for l2 in LABELS[1:]:
            yield ['wide', l1, l2]


def check_batch(case):
    if case[0] == 'wide':
        sig = set()
        for l3 in LABELS[1:]:
            for d in itertools.product((0, 1), repeat=3):
                ls = (case[1], case[2], l3)
                arcs = [(0, x, l) for x, l in zip(d, ls)] + [(1, 2, -1)]
                p = definition(3, arcs)
                consequences(p, k2.Fsa(tensor(arcs)), arcs)
                # the final arc at every place
                for i in range(3):
                    a2 = arcs[:i] + [(0, 2, -1)] + arcs[i:]
                    q = definition(3, a2)
                    consequences(q, k2.Fsa(tensor(a2)), a2)
                    sig.add(q)
                step(4)
                sig.add(p)
        return sorted(sig)
    _, a, b, n = case
    sig = set()
    for k in range(n + 1):
        for tail in itertools.product(range(len(SHAPES)), repeat=k):
            items = [SHAPES[i] for i in (a, b) + tail]
            p = 511
            for x in items:
                p &= definition(*x)
            step()
            f = k2.Fsa(vec_tensor(items))
            consequences(p, f, items)
            # from its parts
            g = k2.cat([k2.Fsa(vec_tensor([x])) for x in items])
            consequences(p, g, items)
            sig.add(p)
    return sorted(sig)


# ------------------------------------------------- results of operations
def derived_cases(tier):
    for a in lists(A3, 2):
        yield [list(map(list, a))]


OPS = {
    'arc_sort': k2.arc_sort, 'connect': k2.connect,
    'add_epsilon_self_loops': k2.add_epsilon_self_loops,
    'remove_epsilon_self_loops': k2.remove_epsilon_self_loops,
    'closure': None, 'invert': None, 'labels': None, 'clone': None,
}


def check_derived(case):
    """objects made by operations and assignments report the properties of
    what they are, not of what they were made from"""
    first, = case
    sig = set()
    for b in lists(A3, 1):
        arcs = [(0, d, l) for d, l in first] + [(1, d, l) for d, l in b]
        for name, op in OPS.items():
            f = k2.Fsa(vec_tensor([(3, arcs), SHAPES[3]]))
            f.properties
            step()
            if name == 'closure':
                if any(d == 0 for s, d, l in arcs):
                    continue
                f = k2.Fsa(vec_tensor([(3, arcs)]))
                if not arcs:
                    continue
                o = k2.closure(k2.Fsa(tensor(arcs))) if any(
                    l == -1 for s, d, l in arcs) else f
            elif name == 'invert':
                f.aux_labels = torch.tensor(
                    [-1 if l == -1 else (i * 2 + 1) % 3
                     for i, l in enumerate(f.labels.tolist())], dtype=I32)
                o = k2.invert(f)
            elif name == 'labels':
                f.labels = torch.tensor(
                    [-1 if l == -1 else (i * 2) % 3
                     for i, l in enumerate(f.labels.tolist())], dtype=I32)
                o = f
            elif name == 'clone':
                o = f.clone()
                o.labels = torch.tensor(
                    [-1 if l == -1 else 2 for l in f.labels.tolist()],
                    dtype=I32)
                p = definition(3, arcs) & definition(*SHAPES[3])
                expect(f.properties == p, 'the original has changed')
            else:
                o = op(f)
            r1 = o.arcs.row_splits(1).tolist() if o.arcs.num_axes() == 3 \
                else [0, o.arcs.dim0()]
            last = o.arcs.num_axes() - 1
            r2 = o.arcs.row_splits(last).tolist()
            al = [tuple(x[:3]) for x in o.arcs.values().tolist()]
            p = 511
            for i in range(len(r1) - 1):
                p &= definition(r1[i + 1] - r1[i],
                                al[r2[r1[i]]:r2[r1[i + 1]]])
            expect(o.properties == p, name, 'of', arcs, 'reports',
                   o.properties_str, 'it is', as_str(p), al)
            if name == 'arc_sort':
                expect(p & SORTED, 'arc_sort does not sort')
            sig.add((name, p))
    return sorted(sig)


# ----------------------------------------------------------- malformed arcs
def judge_single(arcs):
    """the automaton a tensor of arcs denotes, or None"""
    fin = {d for s, d, l in arcs if l == -1}
    if len(fin) != 1:
        return None
    fin, = fin
    if fin <= 0:
        return None
    if any(a[0] > b[0] for a, b in zip(arcs, arcs[1:])):
        return None
    if any(s < 0 or s >= fin or d < 0 or d > fin or l < -1 or
           (l == -1) != (d == fin) for s, d, l in arcs):
        return None
    return fin + 1, arcs


SRC, DST, LAB = (-1, 0, 1, 2, 3), (-1, 0, 1, 2, 3), (-2, -1, 0, 1)
BAD = [(s, d, l) for s in SRC for d in DST for l in LAB]
BAD2 = [(s, d, l) for s in (-1, 0, 1, 2) for d in (-1, 0, 1, 2, 9)
        for l in (-2, -1, 1)]
REFUSALS = (RuntimeError, ValueError, AssertionError, TypeError, IndexError)


def bad_cases(tier):
    yield ['none']
    for a in range(len(BAD)):
        yield ['two', a]
    for a in range(len(BAD2)):
        for b in range(len(BAD2)):
            if tier != 'quick' or b % 5 == a % 5:
                yield ['three', a, b]


def try_make(make):
    try:
        return make()
    except REFUSALS:
        return None


def accept(got, want, arcs, what):
    if want is None:
        expect(got is None, what, arcs, 'accepted as', got and read1(got))
    else:
        expect(got is not None, what, arcs, 'refused')
        expect(same(read1(got), want), what, arcs, 'became', read1(got))
        consequences(definition(*want), got, arcs)
    return want is not None


def check_bad(case):
    if case[0] == 'none':
        got = try_make(lambda: k2.Fsa(torch.zeros((0, 4), dtype=I32)))
        expect(got is None, 'no arcs accepted as', got)
        for t in odd_tensors():
            step()
            got = try_make(lambda: k2.Fsa(t))
            expect(got is None, 'tensor', tuple(t.shape), t.dtype,
                   'accepted as', got and read1(got))
        return 'odd'
    if case[0] == 'two':
        todo = [[BAD[case[1]]]] + [[BAD[case[1]], b] for b in BAD]
    else:
        todo = [[BAD2[case[1]], BAD2[case[2]], b] for b in BAD2]
    n = 0
    for arcs in todo:
        step()
        t = tensor(arcs)
        keep = t.clone()
        got = try_make(lambda: k2.Fsa(t))
        expect(torch.equal(t, keep), 'the tensor has changed')
        n += accept(got, judge_single(arcs), arcs, 'the arcs')
    return n


def odd_tensors():
    ok = tensor([(0, 1, 1), (1, 2, -1)])
    yield ok[:, :3]
    yield ok.to(torch.int64)
    yield ok.to(torch.float32)
    yield ok.reshape(2, 2, 2)
    yield torch.zeros((2, 5), dtype=I32)
    yield torch.tensor(3, dtype=I32)
    yield torch.zeros((0,), dtype=I32)
    yield ok.reshape(-1).to(torch.int64)


# ------------------------------------------------ malformed integer vectors
def judge_vec(x, one=False):
    """the batch a vector of integers denotes, or None"""
    if not x:
        return None
    n = x[0]
    start = 2 + 2 * (n + 1)
    if n < 0 or len(x) < start or (len(x) - start) % 4:
        return None
    r1 = x[2:2 + n + 1]
    r2 = x[2 + n + 1:start]
    flat = x[start:]
    arcs = [tuple(flat[i:i + 3]) for i in range(0, len(flat), 4)]
    for r in (r1, r2):
        if r[0] != 0 or any(b < a for a, b in zip(r, r[1:])):
            return None
    if r2[-1] != len(arcs):
        return None
    out = []
    for i in range(n):
        k = r1[i + 1] - r1[i]
        a = arcs[r2[i]:r2[i + 1]]
        if any(p[0] > q[0] for p, q in zip(a, a[1:])):
            return None
        if not definition(k, a) & VALID and not (one and k == 1 and not a):
            return None
        out.append((k, a))
    return out


BASES = [
    [], [(0, [])], [(2, [])], [(2, [(0, 1, -1)])],
    [(3, [(0, 1, 1), (1, 2, -1)])],
    [(2, [(0, 1, -1)]), (3, [(0, 1, 1), (1, 2, -1)])],
    [(0, []), (2, [(0, 1, -1)]), (2, [])],
    [(3, [(0, 1, 1), (1, 2, -1)]), (2, [(0, 1, -1)]), (0, [])],
    [(3, [(0, 0, 1), (0, 1, 1), (1, 2, -1)]), (3, [(0, 1, 1), (1, 2, -1)])],
]
PUT = [-2147483648, -7, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 100, 2147483647]
PUT2 = [-2, -1, 0, 1, 2, 3, 5, 100]


def vecint_cases(tier):
    for b in range(len(BASES)):
        yield [b, 'length', 0]
        n = vec_tensor(BASES[b]).numel()
        for i in range(n):
            yield [b, 'one', i]
        for i in range(n):
            for j in range(i + 1, n):
                if tier == 'quick' and b > 5:
                    continue
                yield [b, 'two', i, j]


def check_vecint(case):
    b, how = case[:2]
    base = vec_tensor(BASES[b]).tolist()
    todo = []
    if how == 'length':
        for n in range(len(base)):
            todo.append(base[:n])
            todo.append(base[n:])
            todo.append(base[:n] + base[n + 1:])
        for x in PUT2:
            todo.append(base + [x])
            todo.append(base + [x] * 4)
    elif how == 'one':
        todo = [base[:case[2]] + [x] + base[case[2] + 1:] for x in PUT]
    else:
        for x in PUT2:
            for y in PUT2:
                z = list(base)
                z[case[2]], z[case[3]] = x, y
                todo.append(z)
    n = 0
    for x in todo:
        step()
        if x and 0 < x[0] < len(x) - 2 and max(
                x[2:3 + x[0]]) > 10 ** 6:
            continue   # legal, but of billions of states
        t = torch.tensor(x, dtype=I32)
        got = try_make(lambda: k2.Fsa(t))
        want = judge_vec(x)
        if want is None and judge_vec(x, True) is not None:
            continue     # an automaton of one state: unspecified
        if want is None:
            expect(got is None, 'integers', x, 'accepted as',
                   got and got.arcs.values().tolist(),
                   got and got.arcs.num_axes() == 3 and
                   got.arcs.row_splits(1).tolist())
        else:
            expect(got is not None, 'integers', x, 'refused')
            flat = [(k, a) for k, a in want]
            r1 = got.arcs.row_splits(1).tolist()
            r2 = got.arcs.row_splits(2).tolist()
            al = [tuple(y[:3]) for y in got.arcs.values().tolist()]
            have = [(r1[i + 1] - r1[i], al[r2[r1[i]]:r2[r1[i + 1]]])
                    for i in range(len(r1) - 1)]
            expect(have == flat, 'integers', x, 'became', have, 'not', flat)
            n += 1
    return n


# ------------------------------------------------------------- assignments
def attr_cases(tier):
    for vec in (0, 1):
        for what in ('tag', 'aux_labels', 'scores', 'labels', 'aux_init',
                     'read-only'):
            yield [vec, what]


def state_of(f):
    return (f.arcs.values().tolist(), f.scores.tolist(), f.scores.dtype,
            f.labels.tolist(), f.properties,
            {n: (v.tolist(), str(v.dtype)) for n, v in f.named_tensor_attr()},
            sorted(n for n, v in f.named_non_tensor_attr()))


def target(vec):
    items = [(3, [(0, 1, 1), (0, 2, -1), (1, 2, -1)])]
    f = k2.Fsa(vec_tensor(items + [(2, [(0, 1, -1)])])) if vec else \
        k2.Fsa(tensor(items[0][1]))
    f.tag = torch.arange(f.num_arcs, dtype=I32)
    f.aux_labels = torch.tensor([-1 if l == -1 else 3 for l in
                                 f.labels.tolist()], dtype=I32)
    return f


def refuse(f, act, what):
    before = state_of(f)
    step()
    try:
        act(f)
    except REFUSALS:
        after = state_of(f)
        expect(after == before, 'after a refused', what, 'the automaton is',
               after, 'it was', before)
        return 1
    expect(False, what, 'is not refused; the automaton is', state_of(f))


def check_attr(case):
    vec, what = case
    n = target(vec).num_arcs
    cnt = 0
    if what in ('tag', 'aux_labels'):
        for m in range(0, n + 3):
            if m == n:
                continue
            for dt in (I32, torch.float32):
                for shape in ((m,), (m, 2)):
                    v = torch.zeros(shape, dtype=dt)
                    cnt += refuse(target(vec), lambda f: setattr(f, what, v),
                                  f'{what} of shape {shape}')
            r = k2.RaggedTensor([[1]] * m, dtype=I32) if m else \
                k2.RaggedTensor('[]', dtype=I32) if False else None
            if r is not None:
                cnt += refuse(target(vec), lambda f: setattr(f, what, r),
                              f'ragged {what} of {m} rows')
        cnt += refuse(target(vec), lambda f: setattr(
            f, what, torch.tensor(1, dtype=I32)), f'0-dim {what}')
    elif what == 'scores':
        for dt in (torch.float64, torch.float16, I32, torch.int64):
            cnt += refuse(target(vec), lambda f: setattr(
                f, 'scores', torch.ones(n, dtype=dt)), f'scores of {dt}')
        for shape in ((n - 1,), (n + 1,), (n, 2), (n, 1), (0,), (1, n)):
            v = torch.ones(shape)
            cnt += refuse(target(vec), lambda f: setattr(f, 'scores', v),
                          f'scores of shape {shape}')
    elif what == 'labels':
        for dt in (torch.float32, torch.int64, torch.int8):
            cnt += refuse(target(vec), lambda f: setattr(
                f, 'labels', torch.ones(n, dtype=dt)), f'labels of {dt}')
        for shape in ((n - 1,), (n + 1,), (n, 2), (n, 1), (0,), (1, n)):
            v = torch.ones(shape, dtype=I32)
            cnt += refuse(target(vec), lambda f: setattr(f, 'labels', v),
                          f'labels of shape {shape}')
        # every vector of labels: 0 stands for the final one and the other way
        # round, anything else in the wrong place is refused
        f0 = target(vec)
        fin = [l == -1 for l in f0.labels.tolist()]
        for v in itertools.product((-2, -1, 0, 1, 2), repeat=n):
            bad = any((x not in (0, -1)) if g else x < -1
                      for x, g in zip(v, fin))
            t = torch.tensor(v, dtype=I32)
            if bad:
                cnt += refuse(target(vec), lambda f: setattr(f, 'labels', t),
                              f'labels {v}')
            else:
                f = target(vec)
                f.labels = t
                want = [-1 if g else (0 if x == -1 else x)
                        for x, g in zip(v, fin)]
                expect(f.labels.tolist() == want, 'labels', v, 'became',
                       f.labels.tolist())
                expect(f.arcs.values()[:, 2].tolist() == want, 'arcs')
                al = [tuple(a[:3]) for a in f.arcs.values().tolist()]
                p = definition(3, al[:3])
                if vec:
                    p &= definition(2, al[3:])
                expect(f.properties == p, 'properties after labels', v)
            step()
    elif what == 'aux_init':
        t = tensor([(0, 1, 1), (0, 2, -1), (1, 2, -1)])
        for m in (0, 1, 2, 4):
            got = try_make(lambda: k2.Fsa(t, torch.zeros(m, dtype=I32)))
            expect(got is None, 'aux_labels of', m, 'for 3 arcs accepted')
            cnt += 1
    else:
        for name in ('properties', 'arcs', '_tensor_attr',
                     '_non_tensor_attr', '_cache', '_properties'):
            cnt += refuse(target(vec), lambda f: setattr(f, name, 1), name)
        for name in ('nosuch', 'grad_x', 'aux'):
            try:
                getattr(target(vec), name)
                expect(False, 'attribute', name, 'exists')
            except AttributeError:
                cnt += 1
    return cnt


ASSUMPTIONS = [
    'MaybeAccessible / MaybeCoaccessible are the documented local conditions',
    'a tensor of arcs must contain a final arc (it is what tells the number of'
    ' states)',
]
FAMILIES = [
    Family('small', small_cases, check_small,
           'every automaton of 3 states with up to 2 (3) ordered arcs per '
           'state, of 4 with up to 1 (2)'),
    Family('batches', batch_cases, check_batch,
           'every batch of up to 3 (4) shapes; every triple of wide labels'),
    Family('derived', derived_cases, check_derived,
           'results of operations on every automaton of 3 states'),
    Family('malformed', bad_cases, check_bad,
           'every list of up to 2 arcs over states -1..3, labels -2..1; of 3 '
           'over a smaller range'),
    Family('integers', vecint_cases, check_vecint,
           'every change of one or two integers of a batch, every length'),
    Family('assignments', attr_cases, check_attr,
           'every wrong shape, type and label vector'),
]
