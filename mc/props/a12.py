"""A12: ragged tensors behave like nested lists."""
import itertools
import math

import torch
import k2
from k2 import ragged as k2r
from mc.core import Family, expect, step

I32, F32, F64 = torch.int32, torch.float32, torch.float64
INF = float('inf')


# --------------------------------------------------------- nested references
def levels(x, axes):
    """row splits of every axis and the flat values"""
    out = []
    for _ in range(axes - 1):
        rs = [0]
        for y in x:
            rs.append(rs[-1] + len(y))
        out.append(rs)
        x = [z for y in x for z in y]
    return out, x


def flat(x, axes):
    return levels(x, axes)[1]


def nest(rs, vals):
    for r in reversed(rs):
        vals = [vals[r[i]:r[i + 1]] for i in range(len(r) - 1)]
    return vals


def fill(x, axes, fn):
    """same structure, element i becomes fn(i)"""
    rs, v = levels(x, axes)
    return nest(rs, [fn(i) for i in range(len(v))])


def ids_of(rs):
    return [i for i in range(len(rs) - 1) for _ in range(rs[i + 1] - rs[i])]


def check_shape(s, rs, what):
    n = len(rs) + 1
    expect(s.num_axes == n, what, 'has', s.num_axes, 'axes, expected', n)
    expect(s.dim0 == len(rs[0]) - 1, what, 'dim0', s.dim0)
    sizes = [len(rs[0]) - 1] + [r[-1] for r in rs]
    for a in range(n):
        expect(s.tot_size(a) == sizes[a], what, 'tot_size', a, s.tot_size(a),
               'expected', sizes[a])
    expect(list(s.tot_sizes()) == sizes, what, 'tot_sizes', s.tot_sizes())
    expect(s.numel() == sizes[-1], what, 'numel', s.numel())
    for a in range(1, n):
        expect(s.row_splits(a).tolist() == rs[a - 1], what, 'row_splits', a,
               s.row_splits(a).tolist(), 'expected', rs[a - 1])
        expect(s.row_ids(a).tolist() == ids_of(rs[a - 1]), what, 'row_ids', a,
               s.row_ids(a).tolist())
        mx = max([rs[a - 1][i + 1] - rs[a - 1][i]
                  for i in range(len(rs[a - 1]) - 1)], default=0)
        expect(s.max_size(a) == mx, what, 'max_size', a, s.max_size(a))


def check_ragged(r, x, axes, dtype, what):
    """r is the ragged tensor for the nested list x"""
    rs, v = levels(x, axes)
    check_shape(r.shape, rs, what)
    expect(r.num_axes == axes and r.dim0 == len(x)
           and r.numel() == len(v), what, 'axes/dim0/numel')
    expect(r.dtype == dtype, what, 'dtype', r.dtype)
    for a in range(axes):
        expect(r.tot_size(a) == r.shape.tot_size(a), what, 'tot_size', a)
    t = r.tolist()
    expect(t == x, what, 'is', t, 'expected', x)
    expect(r.values.tolist() == v, what, 'values', r.values.tolist())
    expect(r.values.dtype == dtype, what, 'dtype of values')


def make(x, axes, dtype=I32):
    rs, v = levels(x, axes)
    s = k2r.create_ragged_shape2(row_splits=torch.tensor(rs[0], dtype=I32))
    for r in rs[1:]:
        s = s.compose(k2r.create_ragged_shape2(
            row_splits=torch.tensor(r, dtype=I32)))
    return k2.RaggedTensor(s, torch.tensor(v, dtype=dtype))


# ------------------------------------------------------------------ universes
def lens2(maxrows, maxlen):
    for n in range(maxrows + 1):
        yield from itertools.product(range(maxlen + 1), repeat=n)


def struct2(maxrows, maxlen):
    for ls in lens2(maxrows, maxlen):
        yield [[0] * l for l in ls]


def struct_n(axes, dims, maxlen):
    """dims[k] = largest number of sublists at level k"""
    if axes == 2:
        yield from struct2(dims[0], maxlen)
        return
    inner = list(struct_n(axes - 1, dims[1:], maxlen))
    for n in range(dims[0] + 1):
        for c in itertools.product(inner, repeat=n):
            yield list(c)


UNI = {
    '2': (2, lambda: struct2(4, 3)),
    '2t': (2, lambda: struct2(5, 4)),
    '3': (3, lambda: struct_n(3, (2, 2), 2)),
    '3b': (3, lambda: struct_n(3, (3, 2), 1)),
    '3t': (3, lambda: struct_n(3, (3, 2), 2)),
    '4': (4, lambda: struct_n(4, (2, 1, 2), 1)),
    '4t': (4, lambda: struct_n(4, (2, 2, 2), 1)),
    '5': (5, lambda: struct_n(5, (2, 1, 1, 2), 1)),
}
_cache = {}


def universe(u):
    if u not in _cache:
        ax, f = UNI[u]
        _cache[u] = [fill(x, ax, lambda i: i) for x in f()]
    return UNI[u][0], _cache[u]


QUICK = ['2', '3', '3b', '4', '5']
THOROUGH = ['2t', '3t', '4t', '5']


def blocks(tier, sz=16, quick=None, thorough=None):
    for u in (quick or QUICK) if tier == 'quick' else (thorough or THOROUGH):
        n = len(universe(u)[1])
        for b in range(0, n, sz):
            yield [u, b, min(n, b + sz)]


VALUES = [lambda i: i, lambda i: -i, lambda i: i * 7 % 5 - 2,
          lambda i: (i * i + 1) % 2, lambda i: 1 + (i * 5) % 7]


def val(k, dtype):
    if dtype == I32:
        return VALUES[k % len(VALUES)]
    return lambda i: VALUES[k % len(VALUES)](i) / 4


# -------------------------------------------------------- structural results
def ref_remove_axis(x, axes, a):
    if a == 0:
        return [y for r in x for y in r]
    if a == 1:
        return [[z for y in r for z in y] for r in x]
    return [ref_remove_axis(r, axes - 1, a - 1) for r in x]


def ref_arange(x, axes, a, b, e):
    for _ in range(a):
        x = [y for r in x for y in r]
    return x[b:e]


def ref_index(x, axes, a, idx):
    """idx into axis a; monotonic row ids are the caller's business"""
    if a == 0:
        return [x[i] if i >= 0 else ([] if axes > 1 else None) for i in idx]
    rs, v = levels(x, axes)
    out, off = [], 0
    if a == 1:
        for r in x:
            out.append([r[i - off] for i in idx if off <= i < off + len(r)])
            off += len(r)
        return out
    for r in x:
        n = len(levels(r, axes - 1)[0][a - 2]) - 1 if a < axes - 1 \
            else len(flat(r, axes - 1))
        n = size_at(r, axes - 1, a - 1)
        out.append(ref_index(r, axes - 1, a - 1,
                             [i - off for i in idx if off <= i < off + n]))
        off += n
    return out


def size_at(x, axes, a):
    for _ in range(a):
        x = [y for r in x for y in r]
    return len(x)


def structural(x, axes):
    """(name, function on the real tensor, nested result, axes)"""
    for a in range(axes - 1 if axes > 2 else 0):
        yield (('remove_axis', a), lambda r, a=a: r.remove_axis(a),
               ref_remove_axis(x, axes, a), axes - 1)
    for a in range(axes - 1):
        n = size_at(x, axes, a)
        for b in range(n + 1):
            for e in range(b, n + 1):
                yield (('arange', a, b, e),
                       lambda r, a=a, b=b, e=e: r.arange(a, b, e),
                       ref_arange(x, axes, a, b, e), axes - a)
    n = len(x)
    if axes > 2:
        for i in range(n):
            yield (('item', i), lambda r, i=i: r[i], x[i], axes - 1)
    for b in range(-1, n + 2):
        for e in list(range(-1, n + 2)) + [None]:
            yield (('slice', b, e), lambda r, b=b, e=e: r[b:e], x[b:e], axes)
    for l in range(3):
        for idx in itertools.product(range(n), repeat=l):
            yield (('take', idx),
                   lambda r, idx=idx: r[torch.tensor(idx, dtype=I32)],
                   [x[i] for i in idx], axes)
    yield ('clone', lambda r: r.clone(), x, axes)
    yield ('to', lambda r: r.to('cpu'), x, axes)
    yield (('cat', 0), lambda r: k2r.cat([r, r, r], axis=0), x + x + x, axes)
    yield (('cat', 1), lambda r: k2r.cat([r, r], axis=1),
           [y + y for y in x], axes)
    yield ('rebuild', lambda r: k2.RaggedTensor(r.shape, r.values), x, axes)


def fill_cases(tier):
    yield from blocks(tier, 8)


def check_struct(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        x0 = U[k]
        dt = [I32, F32, F64][k % 3]
        x = fill(x0, axes, val(k, dt))
        r = make(x, axes, dt)
        check_ragged(r, x, axes, dt, 'make')
        for name, fn, want, ax in structural(x, axes):
            step()
            o = fn(r)
            check_ragged(o, want, ax, dt, ('op', name, 'of', x))
            expect(o == make(want, ax, dt) and not (o != make(want, ax, dt)),
                   'equality after', name, 'of', x)
        check_ragged(r, x, axes, dt, 'input afterwards')
        sig.append(len(flat(x, axes)))
    return sig


def check_pairs(case):
    """two structural operations in a row: the second one works on whatever
    internal form (shared memory, offsets, caches) the first one produced"""
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        x = U[k]
        r = make(x, axes)
        cnt = 0
        for j, (name, fn, want, ax) in enumerate(structural(x, axes)):
            if name[0] in ('slice', 'take') and (j + k) % 3:
                continue
            step()
            o = fn(r)
            for i, (n2, fn2, w2, ax2) in enumerate(structural(want, ax)):
                if n2[0] in ('slice', 'take', 'arange') and (i + j + k) % 5:
                    continue
                step()
                check_ragged(fn2(o), w2, ax2, I32, (name, n2, x))
                cnt += 1
            reductions(o, want, ax, (name, x))
        check_ragged(r, x, axes, I32, 'input afterwards')
        sig.append(cnt)
    return sig


def rows_at_end(x, axes):
    for _ in range(axes - 2):
        x = [y for r in x for y in r]
    return x


def tl(t):
    return t.tolist()


def reductions(r, x, axes, what):
    """integer reductions of an existing tensor"""
    rows = rows_at_end(x, axes)
    expect(tl(r.sum()) == [sum(y) for y in rows], 'sum', what)
    low = -2147483648
    expect(tl(r.max()) == [max(y, default=low) for y in rows], 'max', what)
    expect(tl(r.min()) == [min(y, default=2147483647) for y in rows], 'min',
           what)


# ----------------------------------------------------------------- index
def mono(ids):
    return all(a <= b for a, b in zip(ids, ids[1:]))


def check_index(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        x = U[k]
        rs, v = levels(x, axes)
        cnt = 0
        r = make(x, axes)
        s = r.shape
        for a in range(axes):
            n = size_at(x, axes, a)
            rng = range(-1 if a == 0 else 0, n)
            maxl = 3 if n <= 3 else 2
            for l in range(maxl + 1):
                for idx in itertools.product(rng, repeat=l):
                    if a > 0:
                        ri = ids_of(rs[a - 1])
                        if not mono([ri[i] for i in idx]):
                            continue
                    t = torch.tensor(idx, dtype=I32)
                    if a == axes - 1:
                        want = ref_index(x, axes, a, idx)
                    else:
                        want = ref_index(x, axes, a, list(idx))
                    step()
                    o, vi = r.index(t, axis=a, need_value_indexes=True)
                    check_ragged(o, want, axes, I32, ('index', a, idx, x))
                    expect(tl(r.values[vi.long()]) == flat(want, axes),
                           'value indexes', tl(vi), a, idx, x)
                    o, none = r.index(t, axis=a)
                    expect(none is None and o.tolist() == want,
                           'index without value indexes', a, idx, x)
                    so, si = s.index(a, t)
                    check_shape(so, levels(want, axes)[0],
                                ('shape index', a, idx, x))
                    expect(tl(si) == tl(vi), 'shape value indexes')
                    if a == 0 and -1 in idx:
                        check_ragged(r[t], want, axes, I32, ('take', idx, x))
                    cnt += 1
        # nested indexes
        if len(x) and k % 2 == 0:
            for q in struct2(2, 2):
                q = fill(q, 2, lambda i: (i * 3 + k) % len(x))
                step()
                o = r.index(make(q, 2))
                check_ragged(o, [[x[i] for i in y] for y in q], axes + 1, I32,
                             ('ragged index', q, x))
            q = fill([[[0, 0], []], [[0]]], 3, lambda i: (i + k) % len(x))
            check_ragged(r.index(make(q, 3)),
                         [[[x[i] for i in z] for z in y] for y in q],
                         axes + 2, I32, ('ragged index', q, x))
        sig.append(cnt)
    return sig


# -------------------------------------------------------------- values
def same(a, b, tol=1e-5):
    if a == b:
        return True
    if isinstance(a, float) and math.isnan(a):
        return False
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def close(a, b, *ctx):
    expect(len(a) == len(b) and all(same(p, q) for p, q in zip(a, b)), 'got',
           a, 'expected', b, *ctx)


def lse(y, init=-INF):
    m = max(list(y) + [init])
    if m == -INF:
        return -INF
    return m + math.log(sum(math.exp(z - m) for z in list(y) + [init]))


def value_checks(x, axes, dt, ctx):
    r = make(x, axes, dt)
    rows = rows_at_end(x, axes)
    v = flat(x, axes)
    lo = {I32: -2147483648, F32: torch.finfo(F32).min,
          F64: torch.finfo(F64).min}[dt]
    hi = {I32: 2147483647, F32: torch.finfo(F32).max,
          F64: torch.finfo(F64).max}[dt]
    base = [None, -1, 0, 1] + ([] if dt == I32 else [-INF, 0.25])
    for i in base:
        step(3)
        b = lo if i is None else i
        mx, am = r.max(i), r.argmax(i)
        expect(tl(mx) == [max(list(y) + [b]) for y in rows]
               and mx.dtype == dt, 'max', tl(mx), i, ctx, x)
        b2 = hi if i is None else i
        if i != -INF:
            mn = r.min(i)
            expect(tl(mn) == [min(list(y) + [b2]) for y in rows]
                   and mn.dtype == dt, 'min', tl(mn), i, ctx, x)
        off = 0
        expect(am.dtype == I32 and am.numel() == len(rows), 'argmax', ctx)
        for y, p in zip(rows, tl(am)):
            if not y or max(y) < b:
                expect(p == -1, 'argmax', p, 'of', y, i, ctx)
            else:
                expect(off <= p < off + len(y) and v[p] == max(y), 'argmax',
                       p, 'of', y, 'at', off, i, ctx)
            off += len(y)
    for i in (0, 2, -3):
        s = r.sum(initial_value=i)
        close(tl(s), [sum(y) + i for y in rows], 'sum', i, ctx, x)
        expect(s.dtype == dt, 'dtype of sum')
    close(tl(r.sum()), [sum(y) for y in rows], 'sum')
    if dt != I32:
        close(tl(r.logsumexp()), [lse(y) for y in rows], 'logsumexp', x)
        close(tl(r.logsumexp(initial_value=-0.5)),
              [lse(y, -.5) for y in rows], 'logsumexp(-0.5)', x)
        n = r.normalize(use_log=True)
        close(flat(n.tolist(), axes), [z - lse(y) for y in rows for z in y],
              'normalize log', x)
        check_shape(n.shape, levels(x, axes)[0], 'normalize')
        n = r.normalize(use_log=False)
        if all(abs(sum(y)) > 1e-3 for y in rows if y):
            close(flat(n.tolist(), axes),
                  [z / sum(y) for y in rows for z in y], 'normalize', x)
    for alpha in (1, -2) + (() if dt == I32 else (0.5,)):
        step()
        add = [3 * i - 1 for i in range(len(rows))]
        o = r.add(torch.tensor(add, dtype=dt), alpha)
        want = [z + alpha * add[i] for i, y in enumerate(rows) for z in y]
        check_ragged(o, nest(levels(x, axes)[0], want), axes, dt,
                     ('add', alpha, x))
    cuts = sorted(set(v))[:3] + [-1, 0]
    for c in cuts:
        step(2)

        def filt(keep):
            new = [[z for z in y if keep(z)] for y in rows]
            rs = levels(x, axes)[0][:-1]
            return nest(rs, new)
        check_ragged(r.remove_values_eq(c), filt(lambda z: z != c), axes, dt,
                     ('remove_values_eq', c, x))
        check_ragged(r.remove_values_leq(c), filt(lambda z: z > c), axes, dt,
                     ('remove_values_leq', c, x))
    for desc in (False, True):
        for need in (False, True):
            step()
            c = r.clone()
            n2o = c.sort_(descending=desc, need_new2old_indexes=need)
            want = nest(levels(x, axes)[0][:-1],
                        [sorted(y, reverse=desc) for y in rows])
            check_ragged(c, want, axes, dt, ('sort_', desc, need, x))
            expect((n2o is not None) == need, 'new2old presence')
            if need:
                p = tl(n2o)
                expect(n2o.dtype == I32 and sorted(p) == list(range(len(v)))
                       and [v[i] for i in p] == flat(want, axes), 'new2old',
                       p, 'of', x)
    if axes == 2:
        for mode in ('constant', 'replicate'):
            for pv in (0, -1, 5):
                for left in (False, True):
                    step()
                    m = max([len(y) for y in rows], default=0)
                    want = []
                    for y in rows:
                        f = pv
                        if mode == 'replicate' and y:
                            f = y[0] if left else y[-1]
                        pad = [f] * (m - len(y))
                        want.append(pad + y if left else y + pad)
                    t = r.pad(mode, pv, pad_left=left)
                    expect(tuple(t.shape) == (len(rows), m) and tl(t) == want
                           and t.dtype == dt, 'pad', mode, pv, left, tl(t),
                           'expected', want)
    for d2 in (I32, F32, F64):
        step()
        o = r.to(d2)
        w = [int(z) for z in v] if d2 == I32 else [float(z) for z in v]
        check_ragged(o, nest(levels(x, axes)[0], w), axes, d2,
                     ('to', d2, x))
    if axes > 1 and x:
        for i, y in enumerate(x if axes == 2 else []):
            step()
            t = r[i]
            expect(tl(t) == y and t.dtype == dt, 'item', i, tl(t))
    check_ragged(r, x, axes, dt, 'input afterwards')


def check_values(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        for j, dt in enumerate((I32, F32, F64)):
            x = fill(U[k], axes, val(k + j, dt))
            value_checks(x, axes, dt, (case, k))
        sig.append(k)
    return sig


# every assignment of three values to small structures
def assign_cases(tier):
    tot = 4 if tier == 'quick' else 6
    for ax, f in ((2, struct2(3, 3)), (3, struct_n(3, (2, 2), 2))):
        for i, x in enumerate(f):
            n = len(flat(x, ax))
            if 0 < n <= tot and (tier != 'quick' or ax == 2 or n <= 3):
                yield [ax, x]


def uniq_ref(rows):
    out = {}
    for y in rows:
        out[tuple(y)] = out.get(tuple(y), 0) + 1
    return out


def check_unique(x, axes):
    r = make(x, axes)
    for nr, nn in itertools.product((False, True), repeat=2):
        step()
        o, rep, n2o = r.unique(need_num_repeats=nr, need_new2old_indexes=nn)
        expect((rep is not None) == nr and (n2o is not None) == nn,
               'unique outputs')
        g = o.tolist()
        groups = [x] if axes == 2 else x
        got = [g] if axes == 2 else g
        if axes > 3:
            return
        check_ragged(o, g, axes, I32, 'unique')
        expect(len(got) == len(groups), 'unique dim0')
        reps = rep.tolist() if nr else [None] * len(got)
        if nr:
            expect(rep.num_axes == 2 and len(reps) == len(got),
                   'num_repeats shape', rep, x)
        off, q = 0, 0
        all_rows = rows_at_end(x, axes)
        for G, W, R in zip(got, groups, reps):
            want = uniq_ref(W)
            expect(sorted(map(tuple, G)) == sorted(want), 'unique', G, 'of',
                   W)
            if nr:
                expect(R == [want[tuple(y)] for y in G], 'repeats', R, G, W)
            if nn:
                p = tl(n2o)[q:q + len(G)]
                expect(all(off <= i < off + len(W) for i in p)
                       and [all_rows[i] for i in p] == G, 'unique new2old',
                       p, G, W)
            q += len(G)
            off += len(W)
        if nn:
            expect(n2o.numel() == q, 'new2old size')


def check_assign(case):
    axes, x = case
    n = len(flat(x, axes))
    for v in itertools.product((0, 1, 2), repeat=n):
        y = fill(x, axes, lambda i: v[i] - 1)
        value_checks(y, axes, I32, case)
        check_unique(fill(x, axes, lambda i: v[i]), axes)
        if sum(v) % 4 == 0:
            value_checks(fill(x, axes, lambda i: v[i] / 2), axes, F32, case)
    return n


def uniq_cases(tier):
    # all lists of up to k sequences over {0,1} of length <= 2, in 1..2 groups
    k = 4 if tier == 'quick' else 5
    for n in range(k + 1):
        yield [2, n]
    for n in range(3 if tier == 'quick' else 4):
        for m in range(3):
            yield [3, n, m]


def check_uniq(case):
    seqs = [[], [1], [2], [1, 2], [2, 1]]
    if case[0] == 2:
        for c in itertools.product(seqs, repeat=case[1]):
            check_unique(list(c), 2)
        return case[1]
    n, m = case[1:]
    for c in itertools.product(seqs, repeat=n):
        for d in itertools.product(seqs, repeat=m):
            check_unique([list(c), list(d)], 3)
            check_unique([list(c), [], list(d)], 3)
    return n + m


# ---------------------------------------------------------- several sources
def cat_cases(tier):
    for ax, lim in ((2, (3, 2)), (3, (2, 1))):
        n = 0
        for i, j in itertools.product(range(8 if tier == 'quick' else 24),
                                      repeat=2):
            yield [ax, i, j]


def check_cat(case):
    ax, bi, bj = case
    U = [fill(x, ax, lambda i: i) for x in
         (struct2(2, 2) if ax == 2 else struct_n(3, (2, 2), 1))]
    nb = 8 if len(U) < 60 else 24
    A = U[bi::nb]
    B = U[bj::nb]
    cnt = 0
    for x in A:
        for y in B:
            y = fill(y, ax, lambda i: 100 + i)
            dt = [I32, F32][cnt % 2]
            x_, y_ = fill(x, ax, val(0, dt)), y if dt == I32 else \
                fill(y, ax, lambda i: 100.5 + i)
            rx, ry = make(x_, ax, dt), make(y_, ax, dt)
            step(2)
            check_ragged(k2r.cat([rx, ry], axis=0), x_ + y_, ax, dt,
                         ('cat0', x, y))
            check_ragged(k2r.cat([rx, ry, rx], axis=0), x_ + y_ + x_, ax, dt,
                         ('cat0', x, y))
            expect((rx == ry) == (x_ == y_) and (rx != ry) == (x_ != y_),
                   'equality', x_, y_)
            if len(x) == len(y):
                check_ragged(k2r.cat([rx, ry], axis=1),
                             [p + q for p, q in zip(x_, y_)], ax, dt,
                             ('cat1', x, y))
                check_ragged(k2r.cat([ry, rx, ry], axis=1),
                             [q + p + q for p, q in zip(x_, y_)], ax, dt,
                             ('cat1', x, y))
            cnt += 1
    return cnt


# -------------------------------------------------------------- shapes
def check_shapes(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        x = U[k]
        rs, v = levels(x, axes)
        s = make(x, axes).shape
        # a second construction from row ids
        t = None
        for i, r in enumerate(rs):
            step()
            ids = torch.tensor(ids_of(r), dtype=I32)
            sp = torch.tensor(r, dtype=I32)
            form = (k + i) % 3
            if form == 0:
                q = k2r.create_ragged_shape2(row_splits=sp,
                                             cached_tot_size=r[-1])
            elif form == 1:
                q = k2r.create_ragged_shape2(row_splits=sp, row_ids=ids)
            else:
                q = k2r.create_ragged_shape2(row_splits=sp, row_ids=ids,
                                             cached_tot_size=r[-1])
            t = q if t is None else t.compose(q)
        check_shape(t, rs, 'composed')
        expect(t == s and not (t != s), 'shape equality')
        if rs[-1][-1] and rs[-1][-2] != rs[-1][-1]:
            # row ids alone determine a shape without trailing empty rows
            q = k2r.create_ragged_shape2(row_ids=torch.tensor(
                ids_of(rs[-1]), dtype=I32))
            check_shape(q, [rs[-1]], 'from row ids')
        for a in range(axes - 1):
            check_shape(s.get_layer(a), [rs[a]], ('get_layer', a, x))
        if axes > 2:
            for a in range(axes):
                step()
                o = s.remove_axis(a)
                if a == axes - 1:
                    want = rs[:-1]
                else:
                    want = levels(ref_remove_axis(x, axes, a), axes - 1)[0]
                check_shape(o, want, ('remove_axis', a, x))
            for i in range(len(x)):
                step()
                check_shape(s[i], levels(x[i], axes - 1)[0],
                            ('shape item', i, x))
        # text
        txt = str(s)
        q = k2r.RaggedShape(txt)
        if all(any(map(len, lv)) or True for lv in [x]) and nonflat(x, axes):
            check_shape(q, rs, ('shape text', txt))
        # composing with every small 2-axis shape of matching size
        n = len(v)
        if n <= 3:
            for ls in itertools.product(range(3), repeat=n):
                r2 = [0]
                for l in ls:
                    r2.append(r2[-1] + l)
                step()
                o = s.compose(k2r.create_ragged_shape2(
                    row_splits=torch.tensor(r2, dtype=I32)))
                check_shape(o, rs + [r2], ('compose', x, ls))
        check_shape(s, rs, 'input afterwards')
        sig.append(n)
    return sig


def nonflat(x, axes):
    """the text of x shows the number of axes: it has a list at the deepest
    level"""
    for _ in range(axes - 1):
        if not x:
            return False
        x = [y for r in x for y in r]
    return True


def deep(x, axes):
    """some list of the last axis exists (so text shows all axes)"""
    for _ in range(axes - 2):
        x = [y for r in x for y in r]
    return bool(x)


# ---------------------------------------------------------- construction
def render(x, axes, style):
    o, c, sp = [('[', ']', ' '), ('[', ']', ', '), ('[ ', ' ]', '  '),
                ('[', ']', ',')][style]
    if axes == 1:
        return o + sp.join(str(y) for y in x) + c
    return o + sp.join(render(y, axes - 1, style) for y in x) + c


def check_build(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        for j, dt in enumerate((I32, F32, F64)):
            x = fill(U[k], axes, val(k + j, dt))
            v = flat(x, axes)
            if not deep(x, axes):
                continue
            step(2)
            for fn in (k2.RaggedTensor, k2r.create_ragged_tensor):
                check_ragged(fn(x, dtype=dt), x, axes, dt, ('list', x))
                auto = I32 if all(isinstance(y, int) for y in v) else F32
                if dt != F64:
                    check_ragged(fn(x), x, axes, auto, ('list auto', x))
                for style in range(4):
                    s = render(x, axes, style)
                    check_ragged(fn(s, dtype=dt), x, axes, dt, ('text', s))
                    if v and dt == I32:
                        check_ragged(fn(s), x, axes, I32, ('text auto', s))
            r = make(x, axes, dt)
            # the printed forms spell the content
            for s in (str(r), repr(r), r.to_str_simple()):
                expect(s.startswith('RaggedTensor(') and
                       s.endswith(f', dtype={dt})'), 'printed form', s)
                body = s[len('RaggedTensor('):-len(f', dtype={dt})')]
                import ast
                expect(ast.literal_eval(body.replace('\n', ' ')) == x,
                       'printed form', s, 'of', x)
            expect('\n' not in r.to_str_simple(), 'compact form')
        sig.append(k)
    return sig


def reg_cases(tier):
    m = 3 if tier == 'quick' else 4
    for nd in (2, 3, 4):
        for sh in itertools.product(range(m), repeat=nd):
            yield list(sh)


def check_regular(sh):
    n = math.prod(sh)
    for dt in (I32, F32, F64):
        t = torch.arange(n).to(dt).reshape(sh)
        step()
        r = k2.RaggedTensor(t)
        rs = []
        cur = 1
        for d in range(len(sh) - 1):
            cur *= sh[d]
            rs.append([i * sh[d + 1] for i in range(cur + 1)])
        check_shape(r.shape, rs, ('regular', sh))
        expect(tl(r.values) == list(range(n)) and r.dtype == dt, 'values')
        # non-contiguous sources
        if n:
            for p in itertools.permutations(range(len(sh))):
                q = t.permute(p)
                o = k2.RaggedTensor(q)
                expect(tl(o.values) == tl(q.reshape(-1)), 'permuted', p)
                expect(list(o.shape.tot_sizes()) ==
                       [math.prod(q.shape[:i + 1]) for i in range(len(sh))],
                       'permuted sizes', p, o.shape.tot_sizes())
    if len(sh) == 2:
        s = k2r.regular_ragged_shape(sh[0], sh[1])
        check_shape(s, [[i * sh[1] for i in range(sh[0] + 1)]],
                    'regular_ragged_shape')
    return n


# -------------------------------------------------------------- autograd
def grad_of(fn, vals, shape, dt, g, form):
    """gradient of (fn(r) * g) w.r.t. the values, the incoming gradient being
    contiguous, strided or expanded"""
    t = torch.tensor(vals, dtype=dt, requires_grad=True)
    r = k2.RaggedTensor(shape, t)
    y = fn(r)
    step()
    if form == 0:
        go = torch.tensor(g, dtype=dt)
    elif form == 1:
        go = torch.tensor([z for q in g for z in (q, -99)] + [0],
                          dtype=dt)[::2][:len(g)]
    else:
        go = torch.tensor(g[0] if g else 1.0, dtype=dt).expand(len(g))
    if y.numel() == 0:
        y.sum().backward()
    else:
        y.backward(go)
    return t.grad.tolist(), go.tolist()


def check_grad(case):
    u, b, e = case
    axes, U = universe(u)
    sig = []
    for k in range(b, e):
        for dt in (F32, F64):
            x = fill(U[k], axes, lambda i: VALUES[(k + 1) % 5](i) / 4 - 0.5)
            rs, v = levels(x, axes)
            s = make(x, axes, dt).shape
            rows = rows_at_end(x, axes)
            rid = ids_of(rs[-1])
            g = [1.0 + (3 * i) % 4 - 0.5 * i for i in range(len(rows))]
            for form in range(3):
                for init in (0, 2):
                    got, go = grad_of(lambda r: r.sum(initial_value=init), v,
                                      s, dt, g, form)
                    close(got, [go[i] for i in rid], 'sum gradient', x, form)
                for init in (-INF, 0.25):
                    got, go = grad_of(
                        lambda r: r.logsumexp(initial_value=init), v, s, dt,
                        g, form)
                    L = [lse(y, init) for y in rows]
                    close(got, [go[i] * math.exp(z - L[i])
                                for i, z in zip(rid, v)],
                          'logsumexp gradient', x, form, init)
                ge = [0.5 + (5 * i) % 7 - i for i in range(len(v))]
                got, go = grad_of(lambda r: r.normalize(use_log=True).values,
                                  v, s, dt, ge, form)
                tot = [0.0] * len(rows)
                for i, z in zip(rid, go):
                    tot[i] += z
                L = [lse(y) for y in rows]
                close(got, [w - math.exp(z - L[i]) * tot[i]
                            for i, z, w in zip(rid, v, go)],
                      'normalize gradient', x, form)
            # requires_grad on the ragged tensor itself, gradients add up
            if v:
                r = make(x, axes, dt)
                expect(not r.requires_grad and r.grad is None, 'fresh')
                r.requires_grad_(True)
                expect(r.requires_grad, 'requires_grad')
                w = torch.tensor(g, dtype=dt)
                (r.sum() * w).sum().backward()
                close(tl(r.grad), [g[i] for i in rid], 'grad property', x)
                (r.logsumexp() * w)[torch.tensor(
                    [bool(y) for y in rows])].sum().backward()
                close(tl(r.grad), [g[i] + g[i] * math.exp(z - L[i])
                                   for i, z in zip(rid, v)],
                      'accumulated gradient', x)
                r.requires_grad = False
                expect(not r.requires_grad, 'requires_grad off')
        sig.append(len(v))
    return sig


def isum_cases(tier):
    m = 3 if tier == 'quick' else 4
    for n in range(0, m + 1):
        for ls in lens2(3, 2 if tier == 'quick' else 3):
            yield [n, list(ls)]


def check_isum(case):
    """index / index_and_sum of a 1-D tensor with every index pattern"""
    n, ls = case
    tot = sum(ls)
    rs = [0]
    for l in ls:
        rs.append(rs[-1] + l)
    cnt = 0
    for idx in itertools.product(range(-1, n), repeat=min(tot, 4)):
        idx = (list(idx) + list(idx[::-1]) * 3)[:tot]
        q = nest([rs], idx)
        ind = make(q, 2)
        for dt in (I32, F32, F64):
            vals = [10 * i + 3 for i in range(n)]
            src = torch.tensor(vals, dtype=dt)
            step(2)
            for d in (None, 0, 7):
                w = 0 if d is None else d
                o = k2r.index(src, ind, default_value=d)
                check_ragged(o, [[vals[i] if i >= 0 else w for i in y]
                                 for y in q], 2, dt, ('index', case, idx))
            o = k2r.index_and_sum(src, ind)
            expect(tl(o) == [sum(vals[i] for i in y if i >= 0) for y in q]
                   and o.dtype == dt, 'index_and_sum', tl(o), q)
            if dt != I32 and ls:
                s = src.clone().requires_grad_()
                g = torch.arange(1, 1 + len(ls)).to(dt)
                if cnt % 3 == 2:
                    g = g[:1].expand(len(ls))
                k2r.index_and_sum(s, ind).backward(g)
                want = [0.0] * n
                for i, y in enumerate(q):
                    for j in y:
                        if j >= 0:
                            want[j] += g[i].item()
                expect(tl(s.grad) == want, 'index_and_sum gradient',
                       tl(s.grad), want, q)
        cnt += 1
    return cnt


# ------------------------------------------------------- refused arguments
def bad_cases(tier):
    for u in ('2', '3'):
        n = len(universe(u)[1])
        for k in range(0, n, 7 if tier == 'quick' else 1):
            yield [u, k]


def refused(fn, what):
    step()
    try:
        o = fn()
    except (RuntimeError, IndexError, ValueError, TypeError):
        return
    expect(False, what, 'was accepted and gave', o)


def check_bad(case):
    u, k = case
    axes, U = universe(u)
    x = U[k]
    r = make(x, axes)
    n = len(x)
    for i in (n, n + 1, -n - 1, n + 1000000):
        refused(lambda: r[i], f'item {i} of {x}')
    refused(lambda: r.arange(0, 0, n + 1), 'range past the end')
    refused(lambda: r.arange(0, -1, n), 'negative range')
    refused(lambda: r[0:n:2], 'slice with a step')
    if axes == 2:
        refused(lambda: r.remove_axis(0), 'removing an axis of two')
    refused(lambda: r.remove_axis(axes), 'removing an axis that is not there')
    refused(lambda: r.add(torch.zeros(size_at(x, axes, axes - 2) + 1,
                                      dtype=I32), 1), 'add of a wrong size')
    refused(lambda: k2.RaggedTensor(r.shape, torch.zeros(
        r.numel() + 1, dtype=I32)), 'values of a wrong size')
    y = make(x + [[]], axes)
    refused(lambda: k2r.cat([r, y], axis=1), 'cat of unequal dim0')
    return n


FAMILIES = [
    Family('structure', fill_cases, check_struct,
           'every nested structure of the universes (2-5 axes) x every '
           'structural operation with every argument value'),
    Family('pairs', lambda t: blocks(t, 4, ['2s', '3', '4', '5'],
                                     ['2', '3', '3b', '4', '5']), check_pairs,
           'every structure x sequences of two structural operations, '
           'followed by reductions'),
    Family('index', lambda t: blocks(t, 8, ['2', '3', '4'],
                                     ['2', '3', '3b', '4', '5']), check_index,
           'every structure x every axis x every legal index vector up to '
           'length 2-3'),
    Family('values', lambda t: blocks(t, 8, None, ['2t', '3', '3b', '4',
                                                   '5']), check_values,
           'every structure x every value operation x dtypes x value '
           'patterns'),
    Family('assignments', assign_cases, check_assign,
           'every assignment of 3 values to every small structure'),
    Family('unique', uniq_cases, check_uniq,
           'every list of up to 4-5 short sequences'),
    Family('cat', cat_cases, check_cat, 'every ordered pair of structures'),
    Family('shapes', lambda t: blocks(t, 8), check_shapes,
           'every structure x every shape operation'),
    Family('construct', lambda t: blocks(t, 8), check_build,
           'every structure from lists and from text in every spacing style, '
           'and the printed forms'),
    Family('regular', reg_cases, check_regular,
           'tensors of every small size with 2-4 dimensions, all '
           'permutations'),
    Family('gradients', lambda t: blocks(t, 8, ['2', '3', '4'],
                                         ['2t', '3', '3b', '4', '5']),
           check_grad, 'every structure x reductions x layouts of the '
           'incoming gradient'),
    Family('index_sum', isum_cases, check_isum,
           'every index pattern into sources of 0-4 elements'),
    Family('refused', bad_cases, check_bad,
           'arguments just outside the legal range are refused'),
]
UNI['2s'] = (2, lambda: struct2(3, 2))
ASSUMPTIONS = [
    'the text and list forms do not show the number of axes of structures '
    'without any list at the deepest level; those are built from shapes',
    'which of several equal maxima argmax reports is not constrained',
    'unique() relies on hashing by its documentation: sequences over {0,1,2} '
    'of length <= 3 do not collide',
]
