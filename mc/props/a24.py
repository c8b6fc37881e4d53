"""A24: the C++ array and ragged-tensor library computes what it documents."""
import itertools
import math

import torch
from mc import native
from mc.core import Family, expect, step
from mc.props.a12 import (flat, ids_of, levels, nest, ref_arange, ref_index,
                          ref_remove_axis, size_at, universe, fill)

X = None
INF = float('inf')
HOWS = (0, 1, 2, 3)
ASSUMPTIONS = [
    'cpu context; functions that are declared but defined nowhere are left out',
    'the documented preconditions hold (index ranges, equal leading shapes, regular axis for Transpose); what is done with other arguments is property A19',
    'unstacking the last axis with pad_right=false pads the lists on the left, although the comment says that it makes no difference there: both results are accepted',
    'UniqueSequences and ComputeHash may confuse lists that have the same hash: only that equal lists are treated as equal is required of the hash',
]


def setup(tier):
    global X
    X = native.module('lib.cc', 'k2lib')


# ------------------------------------------------------------------- helpers
def sh(x, axes, how=0):
    return X.Shape(levels(x, axes)[0], how)


def rg(x, axes, how=0):
    rs, v = levels(x, axes)
    return X.Ragged(rs, v, how)


def rf(x, axes, how=0):
    rs, v = levels(x, axes)
    return X.RaggedF(rs, v, how)


def shape_is(s, rs, *what):
    sp, ids, tot, mx = s.dump()
    expect(sp == rs, *what, 'row splits', sp, 'expected', rs)
    expect(ids == [ids_of(r) for r in rs], *what, 'row ids', ids, rs)
    expect(tot == [len(rs[0]) - 1] + [r[-1] for r in rs], *what, 'sizes', tot)
    expect(mx == [max([b - a for a, b in zip(r, r[1:])], default=0)
                  for r in rs], *what, 'max sizes', mx, rs)
    step()


def same_shape(s, x, axes, *what):
    shape_is(s, levels(x, axes)[0], *what)


def same(r, x, axes, *what):
    rs, v = levels(x, axes)
    d, w = r.dump()
    expect(w == v, *what, 'values', w, 'expected', v, 'splits', d[0], rs)
    shape_is(r.shape(), rs, *what)


def eq(got, want, *what):
    expect(got == want, *what, 'gave', got, 'expected', want)
    step()


def close(got, want, *what):
    expect(len(got) == len(want), *what, got, want)
    for a, b in zip(got, want):
        expect(a == b or abs(a - b) <= 1e-5 * max(1, abs(b)), *what, 'gave',
               got, 'expected', want)
    step()


def blocks(unis, sz):
    for u in unis:
        n = len(universe(u)[1])
        for b in range(0, n, sz):
            yield [u, b, min(n, b + sz)]


def cases_of(quick, thorough, sz=8):
    return lambda tier: blocks(quick if tier == 'quick' else thorough, sz)


def over(case):
    u, b, e = case
    axes, xs = universe(u)
    for x in xs[b:e]:
        yield axes, x


def masks(n):
    return itertools.product((0, 1), repeat=n)


def render(x, axes):
    if axes == 0:
        return 'x'
    return '[ ' + ''.join(render(y, axes - 1) + ' ' for y in x) + ']'


def text(x, axes):
    if axes == 0:
        return str(x)
    return '[ ' + ''.join(text(y, axes - 1) + ' ' for y in x) + ']'


def unchanged(r, x, axes, *what):
    same(r, x, axes, 'source after', *what)


# --------------------------------------------------------------- definitions
def cat(xs, a):
    if a == 0:
        return [y for x in xs for y in x]
    return [cat(list(g), a - 1) for g in zip(*xs)]


def stack(xs, a):
    if a == 0:
        return list(xs)
    return [stack(list(g), a - 1) for g in zip(*xs)]


def alike(xs, a):
    """equal in the axes before a"""
    n = len(xs[0])
    if a == 0:
        return True
    if any(len(x) != n for x in xs):
        return False
    return all(alike(g, a - 1) for g in zip(*xs))


def unstack(x, axes, a, right):
    if a == 0:
        return [[x[i]] if axes == 2 and isinstance(x[i], list) else x[i]
                for i in range(len(x))] if axes > 2 else [[v] for v in x]
    lists = [x]
    for _ in range(a):
        lists = [y for l in lists for y in l]
    n = max([len(l) for l in lists], default=0)

    def pick(l, d, k):
        if d:
            return [pick(y, d - 1, k) for y in l]
        j = k if right else k - (n - len(l))
        if axes - 1 == a:   # elements: simply left out
            return [l[j]] if 0 <= j < len(l) else []
        return l[j] if 0 <= j < len(l) else []

    out = []
    for k in range(n):
        if axes - 1 == a:
            def go(l, d):
                if d == 1:
                    return [v for y in l for v in pick(y, 0, k)]
                return [go(y, d - 1) for y in l]
            y = go(x, a)
            out.append([y] if axes == 2 else y)
        else:
            out.append(pick(x, a, k))
    return out


def keep_axis(x, a, keep):
    it = iter(keep)

    def go(l, d):
        return [go(y, d - 1) for y in l] if d else [y for y in l if next(it)]
    return go(x, a)


def lists_at(x, a):
    """the elements of axis a, in order"""
    for _ in range(a):
        x = [y for r in x for y in r]
    return x


# -------------------------------------------------------------------- shapes
def check_shape(case):
    for axes, x in over(case):
        rs, v = levels(x, axes)
        for how in HOWS:
            def s():
                return sh(x, axes, how)
            ctx = ('of', rs, how)
            same_shape(s(), x, axes, 'shape', *ctx)
            t = s()
            eq(t.str(), render(x, axes), 'text', *ctx)
            idx = []

            def walk(y, p):
                for i, z in enumerate(y):
                    walk(z, p + [i]) if len(p) + 1 < axes else idx.append(
                        p + [i])
            walk(x, [])
            eq(s().iterate(), idx, 'iterator', *ctx)
            eq([t.at(i) for i in idx], list(range(len(v))), 'operator[]', *ctx)
            same_shape(t, x, axes, 'source', *ctx)
            if axes > 2:
                off = 0
                t = s()
                for i, y in enumerate(x):
                    a, o = t.index0(i)
                    same_shape(a, y, axes - 1, 'Index', i, *ctx)
                    eq(o, off, 'offset of', i, *ctx)
                    off += len(flat(y, axes - 1))
                for a in range(axes):
                    t = s()
                    want = ref_remove_axis(x, axes, a) if a < axes - 1 else \
                        nest(rs[:-1], list(range(size_at(x, axes, axes - 2))))
                    same_shape(t.remove_axis(a), want, axes - 1, 'RemoveAxis',
                               a, *ctx)
                    same_shape(t, x, axes, 'source', *ctx)
            ls = lists_at(x, axes - 2)
            for d in range(-3, 4):
                last = [0]
                for l in ls:
                    last.append(last[-1] + max(len(l) + d, 0))
                if all(len(l) + d >= 0 for l in ls):
                    shape_is(s().change(d), rs[:-1] + [last],
                             'ChangeSublistSize', d, *ctx)
                last = [0]
                for l in ls:
                    last.append(last[-1] + (max(len(l) + d, 0) if l else 0))
                shape_is(s().change_pinned(d), rs[:-1] + [last],
                         'ChangeSublistSizePinned', d, *ctx)
            for n in range(len(x) + 1):
                same_shape(s().prefix(n), x[:n], axes, 'Prefix', n, *ctx)
            ns = list(range(len(x) + 1)) + list(range(len(x), -1, -1))
            for n, p in zip(ns, s().prefixes(ns)):
                same_shape(p, x[:n], axes, 'GetPrefixes', n, *ctx)
            for a in range(axes - 1):
                n = size_at(x, axes, a)
                for b in range(n + 1):
                    for e in range(b, n + 1):
                        y, i, j = s().arange(a, b, e)
                        w = ref_arange(x, axes, a, b, e)
                        same_shape(y, w, axes - a, 'Arange', a, b, e, *ctx)
                        f = flat(w, axes - a)
                        i0 = len(flat(ref_arange(x, axes, a, 0, b), axes - a))
                        eq([i, j], [i0, i0 + len(f)], 'range', a, b, e, *ctx)
            for a in range(axes + 1):
                if a == 0:
                    w = [x]
                elif a < axes:
                    def un(y, d):
                        return [un(z, d - 1) for z in y] if d > 1 else [
                            [z] for z in y]
                    w = un(x, a)
                else:
                    w = fill(x, axes, lambda i: [i])
                same_shape(s().unsqueeze(a), w, axes + 1, 'Unsqueeze', a, *ctx)
            for i in range(axes - 1):
                shape_is(s().layer(i), [rs[i]], 'GetLayer', i, *ctx)
            for a in range(1, axes - 1):
                p, q = s().decompose(a)
                shape_is(p, rs[:a], 'Decompose top', a, *ctx)
                shape_is(q, rs[a:], 'Decompose bottom', a, *ctx)
                same_shape(p.compose(q), x, axes, 'Compose', a, *ctx)
                for b in range(a + 1, axes - 1):
                    q, r = q.decompose(b - a)
                    same_shape(p.compose3(q, r), x, axes, 'Compose3', *ctx)
            t = s()
            same_shape(t.copy(), x, axes, 'To', *ctx)
            t.populate()
            same_shape(t, x, axes, 'Populate', *ctx)
            o = s().decreasing()
            eq(sorted(o), list(range(len(x))), 'GetDecreasingSizeOrder', *ctx)
            ln = [len(x[i]) for i in o]
            eq(ln, sorted(ln, reverse=True), 'GetDecreasingSizeOrder', *ctx)
            n = max([len(y) for y in x], default=0)
            if axes > 2:
                same_shape(s().make_transposable(),
                           [y + [[]] * (n - len(y)) for y in x], axes,
                           'MakeTransposable', *ctx)
                if x and all(len(y) == n for y in x):
                    f = fill(x, axes, lambda i: i)
                    r = rg(f, axes, how)
                    y, m = r.transpose()
                    w = [list(z) for z in zip(*f)]
                    same(y, w, axes, 'Transpose', *ctx)
                    eq(m, flat(w, axes), 'Transpose map', *ctx)
                    unchanged(r, f, axes, 'Transpose')
            if any(True for _ in flat(x, axes)) or axes == 2 or True:
                if rs[-1][-1] or _parsable(x, axes):
                    same_shape(X.shape_of(render(x, axes)), x, axes, 'parsed',
                               *ctx)
        step()
    return case


def _parsable(x, axes):
    """the depth can be read off the text"""
    def depth(y, d):
        return max([depth(z, d + 1) for z in y if isinstance(z, list)],
                   default=d)
    return depth(x, 1) == axes and axes >= 2


def check_index0(case):
    """ragged values: Index, splitter, text, conversions"""
    for axes, x in over(case):
        for how in HOWS:
            ctx = (x, how)
            r = rg(x, axes, how)
            same(r, x, axes, 'made', *ctx)
            eq(r.str(), text(x, axes), 'text', *ctx)
            if axes > 2:
                off = 0
                sp = rg(x, axes, how).split0()
                cum = [0] * axes
                for i, y in enumerate(x):
                    same(r.index0(i), y, axes - 1, 'Index', i, *ctx)
                    e, o, offs = sp[i]
                    same(e, y, axes - 1, 'splitter', i, *ctx)
                    eq(o, off, 'splitter offset', i, *ctx)
                    want = [i] + [sum(size_at(z, axes - 1, a - 1)
                                      for z in x[:i]) for a in range(1, axes)]
                    eq(offs, want, 'GetOffset', i, *ctx)
                    off += len(flat(y, axes - 1))
                for a in range(axes - 1):
                    same(rg(x, axes, how).remove_axis(a),
                         ref_remove_axis(x, axes, a), axes - 1, 'RemoveAxis',
                         a, *ctx)
            for a in range(axes - 1):
                n = size_at(x, axes, a)
                for b in range(n + 1):
                    for e in range(b, n + 1):
                        same(rg(x, axes, how).arange(a, b, e),
                             ref_arange(x, axes, a, b, e), axes - a, 'Arange',
                             a, b, e, *ctx)
            same(r.unsqueeze(0), [x], axes + 1, 'Unsqueeze', *ctx)
            same(r.unsqueeze(1), [[y] for y in x], axes + 1, 'Unsqueeze 1',
                 *ctx)
            f = r.to_float()
            eq(f.dump()[1], [float(v) for v in flat(x, axes)], 'ToFloat', *ctx)
            same(f.to_int(), x, axes, 'ToInt', *ctx)
            if axes == 2:
                eq(r.vecvec(), x, 'ToVecVec', *ctx)
                same(X.Ragged.create2(r, x) if False else r.create2(x), x, 2,
                     'CreateRagged2', *ctx)
            unchanged(r, x, axes)
    return case


# ------------------------------------------------------------------- subsets
def check_subset(case):
    for axes, x in over(case):
        how = (len(flat(x, axes)) + len(x)) % 4
        for a in range(axes):
            n = size_at(x, axes, a)
            if n > 6:
                continue
            els = lists_at(x, a)
            for m in masks(n):
                ctx = (a, m, 'of', x)
                w = keep_axis(x, a, m)
                r = rg(x, axes, how)
                y, o = r.subset(list(m), a)
                same(y, w, axes, 'SubsetRagged', *ctx)
                eq(o, flat(w, axes), 'elems_new2old', *ctx)
                same(rg(x, axes, how).subset(list(m), a - axes)[0], w, axes,
                     'SubsetRagged', a - axes, *ctx)
                unchanged(r, x, axes, 'SubsetRagged', *ctx)
                if a < axes - 1 and all(k or not l for k, l in zip(m, els)):
                    s = sh(x, axes, how)
                    same_shape(s.remove_some_empty(a, list(m)), w, axes,
                               'RemoveSomeEmptyLists', *ctx)
                    same_shape(s, x, axes, 'source', *ctx)
                    if a == 0:
                        same_shape(sh(x, axes, how).renumber0(list(m)), w,
                                   axes, 'RenumberAxis0Simple', *ctx)
        for a in range(axes - 1):
            els = lists_at(x, a)
            keep = [i for i, l in enumerate(els) if l]
            w = keep_axis(x, a, [bool(l) for l in els])
            got = [sh(x, axes, how).remove_empty(a)]
            if a == 0:
                got.append(sh(x, axes, how).remove_empty0())
            for s, n2o, o2n, n in got:
                same_shape(s, w, axes, 'RemoveEmptyLists', a, x)
                eq([n2o, n], [keep, len(els)], 'renumbering', a, x)
                eq([o2n[i] for i in keep], list(range(len(keep))), 'old2new',
                   a, x)
        nb, nl = size_at(x, axes, axes - 2), size_at(x, axes, axes - 1)
        if nb + nl <= 7:
            for mb in masks(nb):
                for ml in masks(nl):
                    y = keep_axis(x, axes - 1, ml)
                    w = keep_axis(y, axes - 2, mb)
                    same_shape(sh(x, axes, how).subset2(list(mb), list(ml)),
                               w, axes, 'SubsetRaggedShape', mb, ml, x)
    return case


# ------------------------------------------------------- combining and taking
def numbered(xs, axes):
    """element e of source s becomes e * n + s"""
    n = len(xs)
    return [fill(x, axes, lambda i, k=k: i * n + k) for k, x in enumerate(xs)]


def groups(tier):
    for u in (['2', '3', '4'] if tier == 'quick' else ['2', '3', '3b', '4']):
        axes, xs = universe(u)
        n = len(xs)
        lim = 60 if tier == 'quick' else 130
        # every stride-th structure, so that all shapes appear in pairs
        st = max(1, n // lim)
        for i in range(0, n, st):
            yield [u, i, st]


def check_combine(case):
    u, i, st = case
    axes, xs = universe(u)
    k = 0
    for j in range(0, len(xs), st):
        for grp in ([xs[i], xs[j]], [xs[i], xs[j], xs[(i + j) % len(xs)]]):
            k += 1
            how = k % 4
            num = numbered(grp, axes)

            def src():
                return [rg(y, axes, (how + q) % 4) for q, y in enumerate(num)]

            for a in range(axes):
                if not alike(num if a == 0 else [fill(g, axes, lambda i: 0)
                                                 for g in grp], a):
                    continue
                r = src()
                y, m = X.Ragged.cat(r, a)
                w = cat(num, a)
                same(y, w, axes, 'Cat', a, grp)
                eq(m, flat(w, axes), 'Cat map', a, grp)
                y, m = X.Ragged.stack(r, a)
                w = stack(num, a)
                same(y, w, axes + 1, 'Stack', a, grp)
                eq(m, flat(w, axes + 1), 'Stack map', a, grp)
                for s, z in zip(r, num):
                    unchanged(s, z, axes, 'Cat and Stack', a, grp)
            shapes = [sh(y, axes, how) for y in grp]
            offs = X.Shape.offsets(shapes)
            want = [list(range(len(grp) + 1))]
            for a in range(axes):
                row = [0]
                for y in grp:
                    row.append(row[-1] + size_at(y, axes, a))
                want.append(row)
            eq(offs, want, 'GetOffsets', grp)
            for y, s in zip(grp, X.Shape.unsqueeze_parallel(shapes)):
                same_shape(s, [y], axes + 1, 'UnsqueezeParallel', grp)
            eq(shapes[0].equal(shapes[1]),
               levels(grp[0], axes)[0] == levels(grp[1], axes)[0], 'Equal',
               grp)
            r = src()
            eq(r[0].equal(rg(num[0], axes, 0)), True, 'Equal', grp)
            eq(r[0].equal(r[1]), num[0] == num[1], 'Equal', grp)
            if axes == 2 and len({len(y) for y in grp}) == 1:
                w = [[0] * max(len(z) for z in g) for g in zip(*grp)]
                c = X.Shape.covering(shapes)
                same_shape(c, w, 2, 'CoveringShape', grp)
                for y, s in zip(grp, shapes):
                    at = iter(range(len(flat(y, 2))))
                    f = [[next(at) for _ in z] for z in y]
                    want = [v for a, b in zip(f, w)
                            for v in a + [-1] * (len(b) - len(a))]
                    eq(s.covering_map(c), want, 'CoveringShapeForwardMap', y,
                       grp)
            # every way of interleaving the top-level lists
            tops = [q for q, y in enumerate(grp) for _ in y]
            if len(tops) <= 4 and axes < 4:
                for order in sorted(set(itertools.permutations(tops))):
                    at = [0] * len(grp)
                    mm = []
                    for q in order:
                        mm.append(at[q] * len(grp) + q)
                        at[q] += 1
                    w = [num[v % len(grp)][v // len(grp)] for v in mm]
                    y, m = X.Ragged.merge(src(), mm)
                    same(y, w, axes, 'Merge', mm, grp)
                    eq(m, flat(w, axes), 'Merge map', mm, grp)
    return case


def check_unstack(case):
    for axes, x in over(case):
        for how in HOWS:
            for a in range(axes):
                for right in (True, False):
                    r = rg(x, axes, how)
                    out, maps = r.unstack(a, right)
                    ctx = ('Unstack', a, right, x)
                    w = unstack(x, axes, a, right)
                    oa = max(axes - 1, 2)
                    eq(len(out), len(w), 'number of parts', *ctx)
                    if a == axes - 1 and not right:
                        alt = unstack(x, axes, a, True)
                        if [o.dump()[1] for o in out] == [flat(y, oa)
                                                          for y in alt]:
                            w = alt
                    for o, y, m in zip(out, w, maps):
                        same(o, y, oa, *ctx)
                        eq(m, flat(y, oa), 'split map', *ctx)
                    unchanged(r, x, axes, *ctx)
                    if axes > 2 and a < axes - 1 and out and (
                            a == 0 or _full(x, a)):
                        y, m = X.Ragged.stack(out, a)
                        same(y, x, axes, 'Stack of', *ctx)
    return case


def _full(x, a):
    ls = [x]
    for _ in range(a):
        ls = [y for l in ls for y in l]
    return len({len(l) for l in ls}) == 1


def check_take(case):
    for axes, x in over(case):
        how = len(flat(x, axes)) % 4
        for a in range(axes):
            n = size_at(x, axes, a)
            ids = None if a == 0 else ids_of(levels(x, axes)[0][a - 1])
            for l in range(4 if axes == 2 else 3):
                for idx in itertools.product(range(-1 if a == 0 else 0, n),
                                             repeat=l):
                    if a and any(ids[p] > ids[q]
                                 for p, q in zip(idx, idx[1:])):
                        continue
                    r = rg(x, axes, how)
                    y, m = r.index(a, list(idx), l % 2)
                    w = ref_index(x, axes, a, idx)
                    same(y, w, axes, 'Index', a, idx, x)
                    eq(m, flat(w, axes), 'Index map', a, idx, x)
        # with a ragged index
        n = len(x)
        for idx in ([], [[]], [[0]], [[], [0, n - 1]], [[n - 1], [], [0, 0]]):
            if n == 0 and flat(idx, 2):
                continue
            g = [[x[i] for i in l] for l in idx]
            same(rg(x, axes, how).index_ragged(rg(idx, 2), False), g, axes + 1,
                 'Index', idx, x)
            same(rg(x, axes, how).index_ragged(rg(idx, 2), True),
                 [[z for y in l for z in y] for l in g], axes,
                 'Index remove_axis', idx, x)
        # values as indexes into an array
        src = [v * 3 + 1 for v in range(len(flat(x, axes)) + 1)]
        same(X.Ragged.pick(src, rg(x, axes, how)),
             fill(x, axes, lambda i: src[i]), axes, 'Index array', x)
        m1 = fill(x, axes, lambda i: i - 1)
        same(X.Ragged.pick_default(src, rg(m1, axes, how), 9),
             fill(x, axes, lambda i: src[i - 1] if i else 9), axes,
             'Index array default', x)
    return case


# -------------------------------------------------------------------- values
VALS = [lambda i: i, lambda i: -i, lambda i: i * 7 % 5 - 2,
        lambda i: (i * i + 1) % 2, lambda i: 1 + (i * 5) % 7,
        lambda i: -3 - i % 2]


def lse(y, init):
    y = list(y) + [init]
    m = max(y)
    return m if m == -INF else m + math.log(sum(math.exp(v - m) for v in y))


def check_values(case):
    for axes, s in over(case):
        for k, fn in enumerate(VALS):
            how = k % 4
            x = fill(s, axes, fn)
            rows = lists_at(x, axes - 2)
            rs, v = levels(x, axes)
            ctx = ('of', x)

            def put(new):
                """the same leading axes, other rows"""
                it = iter(new)

                def go(y, d):
                    return [go(z, d - 1) for z in y] if d else next(it)
                return go(x, axes - 1)
            for mk, conv in ((rg, int), (rf, float)):
                r = mk(x, axes, how)
                for init in (-100, 0, 3):
                    i = conv(init)
                    eq(r.reduce('max', i), [max([i] + l) for l in rows],
                       'MaxPerSublist', init, *ctx)
                    eq(r.reduce('min', i), [min([i] + l) for l in rows],
                       'MinPerSublist', init, *ctx)
                    eq(r.reduce('sum', i), [i + sum(l) for l in rows],
                       'SumPerSublist', init, *ctx)
                    got = r.argmax(i)
                    off = 0
                    for g, l in zip(got, rows):
                        mx = max(l, default=None)
                        if mx is None or mx < init:
                            eq(g, -1, 'ArgMax', init, *ctx)
                        else:
                            expect(off <= g < off + len(l) and v[g] == mx,
                                   'ArgMax', init, got, *ctx)
                        off += len(l)
                for al in (1, -2):
                    a = [conv(3 * i - 2) for i in range(len(rows))]
                    want = put([[y + al * a[i] for y in l]
                                for i, l in enumerate(rows)])
                    q = mk(x, axes, how)
                    same(q.add_per_sublist(a, conv(al)), want, axes,
                         'AddPerSublist', al, *ctx)
                    unchanged(q, x, axes, 'AddPerSublist', *ctx)
                want = [sum(l[:i]) for l in rows for i in range(len(l))]
                eq(r.exclusive_sum(False), want, 'SegmentedExclusiveSum', *ctx)
                eq(mk(x, axes, how).exclusive_sum(True), want,
                   'SegmentedExclusiveSum in place', *ctx)
                for great in (False, True):
                    y, m = r.sort(great)
                    same(y, put([sorted(l, reverse=great) for l in rows]),
                         axes, 'SortSublists', great, *ctx)
                    eq([v[i] for i in m], y.dump()[1], 'order', great, *ctx)
                    rid = ids_of(rs[-1])
                    eq([rid[i] for i in m], rid, 'order stays', great, *ctx)
                    eq(sorted(m), list(range(len(v))), 'order', great, *ctx)
                for t in (-1, 0, 2):
                    same(r.remove_leq(conv(t)),
                         put([[y for y in l if y > t] for l in rows]), axes,
                         'RemoveValuesLeq', t, *ctx)
                    same(r.remove_eq(conv(t)),
                         put([[y for y in l if y != t] for l in rows]), axes,
                         'RemoveValuesEq', t, *ctx)
                if axes == 2:
                    n = max([len(l) for l in x], default=0)
                    for mode in ('constant', 'replicate'):
                        for left in (False, True):
                            d0, d1, g = r.pad(mode, conv(9), left)
                            want = []
                            for l in x:
                                if mode == 'constant' or not l:
                                    p = 9
                                else:
                                    p = l[0] if left else l[-1]
                                pad = [p] * (n - len(l))
                                want.append(pad + l if left else l + pad)
                            if mode == 'replicate' and left:
                                # documented to repeat the last entry
                                alt = [[l[-1] if l else 9] * (n - len(l)) + l
                                       for l in x]
                                if g == alt:
                                    want = alt
                            eq([d0, d1, g], [len(x), n, want], 'PadRagged',
                               mode, left, *ctx)
                unchanged(r, x, axes)
            r = rg(x, axes, how)
            for init in (-1, 6, 0):
                want = []
                for l in rows:
                    a = o = init
                    for y in l:
                        a &= y
                        o |= y
                    want.append((a, o))
                eq(r.and_or('and', init), [a for a, _ in want],
                   'AndPerSublist', init, *ctx)
                eq(r.and_or('or', init), [o for _, o in want],
                   'OrPerSublist', init, *ctx)
            fix = [7 - 2 * i for i in range(len(rows))]
            same(r.add_suffix(fix), put([l + [f] for l, f in zip(rows, fix)]),
                 axes, 'AddSuffixToRagged', *ctx)
            same(r.add_prefix(fix), put([[f] + l for l, f in zip(rows, fix)]),
                 axes, 'AddPrefixToRagged', *ctx)
            h32, h64 = r.hash32(), r.hash64()
            for h in (h32, h64):
                eq(len(h), len(rows), 'ComputeHash', *ctx)
                for i, j in itertools.combinations(range(len(rows)), 2):
                    expect(rows[i] != rows[j] or h[i] == h[j], 'hashes', h,
                           *ctx)
            if axes in (2, 3):
                y, n, o = r.unique()
                top = [x] if axes == 2 else x
                d, vals = y.dump()
                got = nest(d[0], vals)
                nd, nv = n.dump()
                reps = nest(nd[0], nv)
                off = 0
                at = 0
                if axes == 2:
                    got, reps = [got], reps if len(nd[0]) else reps
                eq(len(got), len(top), 'UniqueSequences', *ctx)
                allreps = [z for q in reps for z in q]
                for g, t in zip(got, top):
                    eq(sorted(g), sorted([list(z) for z in
                                          {tuple(z) for z in t}]),
                       'UniqueSequences', *ctx)
                    for z in g:
                        eq(allreps[at], sum(1 for q in t if q == z),
                           'num_repeats', *ctx)
                        expect(off <= o[at] < off + len(t)
                               and t[o[at] - off] == z, 'new2old_indexes', o,
                               *ctx)
                        at += 1
                    off += len(t)
                eq([len(o), len(allreps)], [at, at], 'sizes', *ctx)
            if axes == 2:
                c = [[i + 0 for i in l] for l in x]
                if all(y >= 0 for y in v):
                    cols = max(v, default=0) + 1
                    eq(rg(x, 2, how).transpose_order(cols),
                       sorted(range(len(v)), key=lambda i: (v[i], i)),
                       'GetTransposeReordering', *ctx)
            f = rf(x, axes, how)
            for init in (-INF, -1.0, 2.0):
                close(f.logsum(init), [lse(l, init) for l in rows],
                      'LogSumPerSublist', init, *ctx)
            y = f.normalize(True)
            shape_is(y.shape(), rs, 'NormalizePerSublist', *ctx)
            close(y.dump()[1], [q - lse(l, -INF) for l in rows for q in l],
                  'NormalizePerSublist', *ctx)
            if all(sum(l) for l in rows if l):
                y = f.normalize(False)
                close(y.dump()[1], [q / sum(l) for l in rows for q in l],
                      'NormalizePerSublist', False, *ctx)
        # the counts of a partition
        if axes == 2 and s:
            for lens in itertools.product((0, 1, 3), repeat=len(s)):
                if any(l and not n for l, n in zip(s, lens)) or len(s) > 3:
                    continue
                b = [0]
                for n in lens:
                    b.append(b[-1] + n)
                it = iter(range(99))
                y = [[b[i] + (next(it) * 2) % lens[i] for _ in l]
                     for i, l in enumerate(s)]
                got = rg(y, 2).counts(X.Shape([b], 0))
                f = flat(y, 2)
                same(got, nest([b], [f.count(i) for i in range(b[-1])]), 2,
                     'GetCountsPartitioned', y, lens)
    return case


def prune_ref(x, axes, a, beam, mx):
    els = lists_at(x, a)

    def score(e):
        if not isinstance(e, list):
            return e
        d = axes - a - 1
        return max(flat(e, d), default=-INF) if d > 1 else max(
            e, default=-INF)
    sc = [score(e) for e in els]
    if a == 0:
        batches = [list(range(len(els)))]
    else:
        batches, at = [], 0
        for l in lists_at(x, a - 1):
            batches.append(list(range(at, at + len(l))))
            at += len(l)
    keep = []
    for b in batches:
        best = max([sc[i] for i in b], default=-INF)
        ok = [i for i in b if sc[i] > -INF and sc[i] >= best - beam]
        ok.sort(key=lambda i: -sc[i])
        keep += sorted(ok[:mx] if mx > 0 else ok)
    return keep, len(els)


def check_prune(case):
    for axes, s in over(case):
        n = len(flat(s, axes))
        for perm in ([lambda i: i, lambda i: -i, lambda i: (i * 5 + 3) % 11]
                     if n > 4 else
                     [lambda i, p=p: p[i] for p in
                      itertools.permutations(range(n))]):
            x = fill(s, axes, lambda i: float(perm(i)))
            for a in range(axes):
                for beam in (0.5, 1.5, 3.0, 100.0):
                    for mx in (0, 1, 2, 3):
                        old, n2o, o2n = rf(x, axes, n % 4).prune(a, beam, mx)
                        keep, m = prune_ref(x, axes, a, beam, mx)
                        eq([n2o, old], [keep, m], 'PruneRagged', a, beam, mx,
                           x)
    return case


# --------------------------------------------------------------- construction
def check_build(case):
    for axes, x in over(case):
        rs = levels(x, axes)[0]
        ids = [ids_of(r) for r in rs]
        if axes > 4:
            continue
        for m in itertools.product((1, 2, 3, 5, 6, 7), repeat=axes - 1):
            ok = True
            want = [r for r in rs]
            for i in range(axes - 1):
                if not m[i] & 1 and (i == 0):
                    # the number of rows has to be guessed
                    want[0] = rs[0][:(ids[0][-1] + 2) if ids[0] else 1]
            s = X.build(rs, ids, list(m))
            shape_is(s, want, 'RaggedShape', axes, m, rs)
    return case


def check_make(case):
    n, m = case
    shape_is(X.trivial(n), [[0, n]], 'TrivialShape', n)
    shape_is(X.regular(n, m), [[i * m for i in range(n + 1)]],
             'RegularRaggedShape', n, m)
    for a in range(2, 6):
        shape_is(X.empty(a), [[0]] * (a - 1), 'EmptyRaggedShape', a)
    for inc in (1, 2, 3, 5):
        eq(X.range(n, m - 3, inc), [m - 3 + i * inc for i in range(n)],
           'Range', n, m, inc)
        eq(X.arange(m - 3, m - 3 + n, inc),
           list(range(m - 3, m - 3 + n, inc)), 'Arange', n, m, inc)
    return case


# -------------------------------------------------------------------- arrays
ALPHA = (-2, 0, 1, 3)


def arrays(tier):
    for n in range(5 if tier == 'quick' else 7):
        if n < 2:
            yield [n, []]
        else:
            for p in itertools.product(range(len(ALPHA)), repeat=2):
                yield [n, list(p)]


def cum(v, excl):
    out, s = [], 0
    for y in v:
        if excl:
            out.append(s)
        s += y
        if not excl:
            out.append(s)
    return out


def check_arrays(case):
    n, pre = case
    for rest in itertools.product(ALPHA, repeat=n - len(pre)):
        v = [ALPHA[i] for i in pre] + list(rest)
        w = [(y * 3 + i) % 5 - 1 for i, y in enumerate(v)]
        for fn, conv in ((X.num, int), (X.numf, float)):
            a, b = [conv(y) for y in v], [conv(y) for y in w]
            for mid in (False, True):
                def f(op, t=0, b=b):
                    return fn(op, a, b, conv(t), mid)
                eq(f('exclusive_sum_more'), cum(v + [0], True), 'ExclusiveSum',
                   v)
                if conv is int or True:
                    eq(f('exclusive_sum'), cum(v, True), 'ExclusiveSum', v)
                    eq(f('exclusive_sum_inplace'), cum(v, True),
                       'ExclusiveSum in place', v)
                eq(f('inclusive_sum'), cum(v, False), 'InclusiveSum', v)
                for t in (-5, 0, 2):
                    eq(f('max', t), [max([t] + v)], 'Max', v, t)
                    eq(f('plus_c', t), [y + t for y in v], 'Plus', v, t)
                    eq(f('minus_c', t), [y - t for y in v], 'Minus', v, t)
                    eq(f('equal_c', t), all(y == t for y in v), 'Equal', v, t)
                eq(f('max_value'), max([0] + v), 'MaxValue', v)
                eq(f('plus'), [p + q for p, q in zip(v, w)], 'Plus', v, w)
                eq(f('minus'), [p - q for p, q in zip(v, w)], 'Minus', v, w)
                eq(f('times'), [p * q for p, q in zip(v, w)], 'Times', v, w)
                eq(f('equal'), v == w, 'Equal', v, w)
                eq(f('equal', 0, a), True, 'Equal', v)
                for i in range(n):
                    c = list(a)
                    c[i] += 1
                    eq(f('equal', 0, c), False, 'Equal', v, c)
                eq(f('monotonic'), all(p <= q for p, q in zip(v, v[1:])),
                   'IsMonotonic', v)
                eq(f('monotonic_dec'), all(p >= q for p, q in zip(v, v[1:])),
                   'IsMonotonicDecreasing', v)
                low = [min(v[i:]) for i in range(n)]
                up = [max(v[i:]) for i in range(n)]
                eq(f('lower'), (low, low), 'MonotonicLowerBound', v)
                eq(f('upper'), (up, up), 'MonotonicDecreasingUpperBound', v)
                eq(f('sum'), sum(v), 'Sum', v)
                for op, rev in (('sort', False), ('sort_greater', True)):
                    y, m = f(op)
                    eq(y, sorted(v, reverse=rev), op, v)
                    eq([v[i] for i in m], y, op + ' map', v)
                    eq(sorted(m), list(range(n)), op + ' map', v)
                eq(f('assign'), v, 'Assign', v)
                eq(f('cat2'), v + w + v, 'Cat', v, w)
        for init in (-1, 5, 0):
            a = o = init
            for y in v:
                a &= y
                o |= y
            eq(X.bits(v, init, True), a, 'And', v, init)
            eq(X.bits(v, init, False), o, 'Or', v, init)
        eq(X.exsum_deref(v, 0), cum(v, True), 'ExclusiveSumDeref', v)
        eq(X.exsum_deref(v, 1), cum(v + [0], True), 'ExclusiveSumDeref', v)
        nn = [abs(y) for y in v]
        for m in (4, 6):
            eq(X.counts(nn, m), [nn.count(i) for i in range(m)], 'GetCounts',
               nn, m)
        src = [10, 20, 30, 40]
        eq(X.pick(src, nn), [src[i] for i in nn], 'operator[]', nn)
        eq(X.index(src, nn, False, 0), [src[i] for i in nn], 'Index', nn)
        m1 = [i - 1 for i in nn]
        eq(X.index(src, m1, True, 7), [src[i] if i >= 0 else 7 for i in m1],
           'Index', m1)
        # sources of the sizes nn, in order and interleaved
        if n:
            b = cum(nn, True)
            mm = [j * n + i for i in range(n) for j in range(nn[i])]
            eq(X.merge_map(nn), mm, 'SizesToMergeMap', nn)
            parts = [[100 * i + j for j in range(nn[i])] for i in range(n)]
            for order in (mm, sorted(mm), mm[::-1]):
                eq(X.merge_with_map(order, parts),
                   [parts[q % n][q // n] for q in order], 'MergeWithMap',
                   order, nn)
            eq(X.cat(parts), (sum(parts, []), sum(parts, [])), 'Cat', nn)
            eq(X.cat_offsets(v, parts),
               [y + v[i] for i in range(n) for y in parts[i]],
               'CatWithOffsets', v, nn)
        # row splits with the sizes nn
        rs = cum(nn + [0], True)
        eq(X.splits_to_ids(rs), ids_of(rs), 'RowSplitsToRowIds', rs)
        eq(X.splits_to_ids_part([y + 4 for y in rs]), ids_of(rs),
           'RowSplitsToRowIdsOffset', rs)
        eq(X.splits_to_sizes(rs), nn, 'RowSplitsToSizes', rs)
        if n:
            eq(X.ids_to_splits(ids_of(rs), n), rs, 'RowIdsToRowSplits', rs)
            parts = [cum(list(p) + [0], True) for p in (nn, nn[::-1], nn[:1])]
            eq(X.splice(parts), cum(nn + nn[::-1] + nn[:1] + [0], True),
               'SpliceRowSplits', parts)
    return case


def orders(tier):
    for n in range(6 if tier == 'quick' else 7):
        yield n


def check_orders(n):
    for v in itertools.product(range(-1, n + 1), repeat=n):
        p = sorted(v) == list(range(n))
        eq(X.permutation(list(v)), p, 'IsPermutation', v)
        if p:
            inv = [0] * n
            for i, y in enumerate(v):
                inv[y] = i
            eq(X.invert_permutation(list(v)), inv, 'InvertPermutation', v)
    for v in itertools.combinations_with_replacement(range(5, 0, -1), n):
        want = [min(j for j in range(n + 1) if (list(v) + [0])[j] <= i)
                for i in range(v[0])] if v else []
        if v:
            eq(X.invert_decreasing(list(v)), want, 'InvertMonotonicDecreasing',
               v)
            eq(X.invert_decreasing(want), list(v), 'twice', v)
    return n


def valid_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        yield n


def check_valid(n):
    for s in itertools.product(range(-1, 4), repeat=n):
        vs = s[0] == 0 and all(p <= q for p, q in zip(s, s[1:]))
        for k in range(4):
            for d in itertools.product(range(-1, n + 1), repeat=k):
                vd = all(y >= 0 for y in d) and all(
                    p <= q for p, q in zip(d, d[1:]))
                both = vs and vd and list(d) == ids_of(s)
                for temp in (False, True):
                    eq(X.validate(list(s), list(d), temp), (vs, vd, both),
                       'Validate', s, d)
    return n


def mats(tier):
    for r in range(4):
        for c in range(4):
            for pad in (0, 1):
                yield [r, c, pad]


def check_mats(case):
    r, c, pad = case
    for k in range(3):
        v = [[(i * 7 + j * 5 + k * 3) % 9 - 4 for j in range(c)]
             for i in range(r)]
        for fn in (X.mat, X.matf):
            def f(op, idx=()):
                return fn(op, v, c, pad, list(idx))
            tr = [[v[i][j] for i in range(r)] for j in range(c)]
            eq(f('transpose'), tr, 'Transpose', v, pad)
            eq(f('contiguous'), (v, True), 'ToContiguous', v, pad)
            eq(f('assign'), v, 'Assign', v, pad)
            eq(f('flatten'), [y for l in v for y in l], 'Flatten', v, pad)
            for l in range(4):
                for idx in itertools.product(range(-1, r), repeat=l):
                    eq(f('rows_minus_one', idx),
                       [v[i] if i >= 0 else [0] * c for i in idx],
                       'IndexRows', idx, v, pad)
                    if -1 not in idx:
                        eq(f('rows', idx), [v[i] for i in idx], 'IndexRows',
                           idx, v, pad)
            for i in range(max(r, 1)):
                for j in range(max(c, 1)):
                    eq(f('equal', (i, j)), (True, False), 'Equal', v, pad, i, j)
                if r:
                    eq(f('row', (i,)), v[i], 'Row', i, v, pad)
            for b in range(r):
                for e in range(b + 1, r + 1):
                    eq(f('rowarange', (b, e)), v[b:e], 'RowArange', v, pad)
            for b in range(c):
                for e in range(b + 1, c + 1):
                    eq(f('colarange', (b, e)), [l[b:e] for l in v],
                       'ColArange', v, pad)
        for more in (0, 1):
            eq(X.exsum2(v, c, pad, 1, more),
               [cum(l + [0] * more, True)[:c + more] for l in v],
               'ExclusiveSum axis 1', v, pad, more)
            cols = [cum(l + [0] * more, True)[:r + more] for l in tr]
            want = [[cols[j][i] for j in range(c)] for i in range(r + more)]
            eq(X.exsum2(v, c, pad, 0, more), want, 'ExclusiveSum axis 0', v,
               pad, more)
    return case


def masks_cases(tier):
    for n in range(8 if tier == 'quick' else 11):
        yield n


def check_renumber(n):
    for m in masks(n):
        kept = [i for i in range(n) if m[i]]
        o2n = cum(list(m) + [0], True)
        for order in (False, True):
            eq(X.renumbering(list(m), order),
               (kept, o2n[:-1], kept + [n], o2n, len(kept), n),
               'Renumbering', m, order)
        for chunk in range(1, n + 2):
            eq(X.new2old(list(m), chunk), kept, 'GetNew2Old', m, chunk)
    r = list(range(n))
    eq(X.identity_renumbering(n), (r, r, r + [n], r + [n], n),
       'IdentityRenumbering', n)
    return n


def rows_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for first in range(4):
            yield [n, first]


def check_rows(case):
    n, first = case
    for rest in itertools.product(range(4), repeat=n - 1):
        rs = cum([first] + list(rest) + [0], True)
        ids = ids_of(rs)
        tot = rs[-1]
        for m in (masks(tot) if tot <= 5 else
                  [[(i * k + k // 2) % 3 > 0 for i in range(tot)]
                   for k in range(4)]):
            m = [int(y) for y in m]
            kept = [i for i in range(tot) if m[i]]
            for chunk in range(1, tot + 2):
                a, b, rows = X.new2old_ids(rs, m, chunk)
                eq([a, b, rows], [kept, [ids[i] for i in kept], ids],
                   'GetNew2OldAndRowIds', rs, m, chunk)
    return case


# ------------------------------------------------------------------- tensors
def layouts(rows, cols, dt):
    base = torch.arange(rows * max(cols, 1), dtype=dt) * 3 - 2
    if cols == 0:
        yield base[:rows]
        yield torch.arange(2 * rows, dtype=dt)[::2]
        return
    m = base.reshape(rows, cols)
    yield m.contiguous()
    w = torch.zeros(rows, cols + 2, dtype=dt)
    w[:, 1:-1] = m
    yield w[:, 1:-1]
    w = torch.zeros(2 * rows, cols, dtype=dt)
    w[::2] = m
    yield w[::2]


def tensor_cases(tier):
    for dt in ('int32', 'float32', 'float64', 'int64'):
        for rows in range(4):
            for cols in range(4):
                yield [dt, rows, cols]


def check_tensors(case):
    name, rows, cols = case
    dt = getattr(torch, name)
    for t in layouts(rows, cols, dt):
        ctx = (name, rows, cols, t.stride())
        before = t.clone()
        for l in range(4):
            for idx in itertools.product(range(-1, rows), repeat=l):
                for minus in (False, True):
                    if -1 in idx and not minus:
                        continue
                    d = 5 if cols == 0 else 0
                    y = X.t_index(t, list(idx), minus, d)
                    zero = torch.full_like(t[:1], d)[0] if rows else \
                        torch.zeros((cols,) if cols else (), dtype=dt) + d
                    w = [t[i].tolist() if i >= 0 else zero.tolist()
                         for i in idx]
                    eq(y.tolist(), w, 'Index', idx, minus, *ctx)
                    expect(y.dtype == dt, 'dtype', y.dtype, *ctx)
        for dim in range(1, 4):
            for idx in itertools.product(range(-1, dim), repeat=rows):
                for dest in layouts(dim, cols, dt):
                    w = dest.clone()
                    for i, j in enumerate(idx):
                        if j >= 0:
                            w[j] += t[i]
                    X.t_index_add_to(t, list(idx), True, dest)
                    eq(dest.tolist(), w.tolist(), 'IndexAdd', idx, dim,
                       dest.stride(), *ctx)
                    if -1 not in idx:
                        X.t_index_add_to(t, list(idx), False, dest)
                        for i, j in enumerate(idx):
                            w[j] += t[i]
                        eq(dest.tolist(), w.tolist(), 'IndexAdd', idx, dim,
                           *ctx)
        y, contig = X.t_contiguous(t)
        eq(y.tolist(), t.tolist(), 'ToContiguous', *ctx)
        expect(contig and list(y.shape) == list(t.shape), 'ToContiguous', *ctx)
        for other in (torch.int32, torch.float32, torch.float64, torch.int64):
            y = X.t_cast(t, torch.zeros(1, dtype=other))
            eq(y.tolist(), t.to(other).tolist(), 'Cast', other, *ctx)
            expect(y.dtype == other, 'Cast', y.dtype, *ctx)
        if rows:
            for a in range(-t.dim(), t.dim()):
                eq(X.t_flip(t, a).tolist(), t.flip(a).tolist(), 'Flip', a,
                   *ctx)
            if cols:
                for a in range(2):
                    for i in range(t.shape[a]):
                        eq(X.t_index0(t, a, i).tolist(),
                           t.select(a, i).tolist(), 'Tensor::Index', a, i,
                           *ctx)
        if cols == 0:
            z = t.clone()
            for nz in range(-1, rows):
                z = torch.zeros_like(t)
                if nz >= 0:
                    z[nz] = 4
                for lens in itertools.product(range(3), repeat=2):
                    n = sum(lens)
                    for v in itertools.product(range(rows), repeat=n):
                        idx = [list(v[:lens[0]]), list(v[lens[0]:])]
                        # (at most one of the indexes of a list is nonzero)
                        if any(l.count(nz) > 1 for l in idx):
                            continue
                        eq(X.t_simple(z, rg(idx, 2)).tolist(),
                           [4 if nz in l else 0 for l in idx],
                           'SimpleRaggedIndexSelect1D', idx, nz, *ctx)
        expect(t.equal(before), 'source', *ctx)
    return case


FAMILIES = [
    Family('shape', cases_of(['2', '3', '3b', '4', '5'], ['2t', '3t', '4t', '5']),
           check_shape,
           'every ragged shape of 2 to 5 axes within the size bounds x 4 layouts (which of row splits, row ids and sizes are known; offset arrays): every structural function, every argument'),
    Family('ragged', cases_of(['2', '3', '4', '5'], ['2t', '3t', '4t', '5']),
           check_index0,
           'every ragged array over those shapes x 4 layouts: sub-arrays, axis-0 splitter, text, conversions'),
    Family('subset', cases_of(['2', '3', '4'], ['2t', '3t', '4t', '5']),
           check_subset,
           'every shape x every axis x every subset of its elements: Subset, RemoveEmptyLists, RenumberAxis0'),
    Family('combine', groups, check_combine,
           'pairs and triples of shapes: Cat and Stack on every axis, their merge maps, every interleaving for Merge, CoveringShape'),
    Family('unstack', cases_of(['2', '3', '4'], ['2t', '3t', '4t', '5']),
           check_unstack, 'every shape x axis x padding side x layout'),
    Family('take', cases_of(['2', '3', '4'], ['2t', '3t', '4t', '5']),
           check_take,
           'every shape x axis x every index array up to length 3 (-1 included on axis 0)'),
    Family('values', cases_of(['2', '3', '4'], ['2t', '3t', '4t']),
           check_values,
           'every shape x 6 value patterns x int and float: reductions, sorting, padding, hashing, unique lists, normalisation'),
    Family('prune', cases_of(['2', '3', '4'], ['2t', '3t', '4t']), check_prune,
           'every shape x every order of the scores (up to 4 elements) x axis x beam x max_elems'),
    Family('build', cases_of(['2', '3', '4'], ['2t', '3t', '4t']), check_build,
           'every shape x every choice of which of row splits, row ids and size are given'),
    Family('make', lambda tier: [[n, m] for n in range(6) for m in range(7)],
           check_make, 'constructors for all small sizes'),
    Family('arrays', arrays, check_arrays,
           'every array over 4 values up to the length bound, contiguous and inside a larger region'),
    Family('orders', orders, check_orders,
           'every array over {-1..n} of length n; every decreasing array over 1..5'),
    Family('validate', valid_cases, check_valid,
           'every pair of small arrays as row splits and row ids'),
    Family('matrices', mats, check_mats,
           'matrices up to 3x3, contiguous or part of a wider one'),
    Family('renumbering', masks_cases, check_renumber,
           'every keep mask up to the length bound x every chunk size'),
    Family('rows', rows_cases, check_rows,
           'every row-splits array x keep masks x every chunk size'),
    Family('tensors', tensor_cases, check_tensors,
           '1-D and 2-D tensors of 4 types and 3 layouts x every index array'),
]
