"""A18: indexing, accumulation, sparse helpers and activations are exact."""
import itertools
import math

import torch
import k2
import k2.sparse
import _k2
from mc.core import Family, expect, step

I32, I64, F32, F64, BOOL = (torch.int32, torch.int64, torch.float32,
                            torch.float64, torch.bool)
DT = {'i32': I32, 'i64': I64, 'f32': F32, 'f64': F64, 'bool': BOOL}
FLOATS = ('f32', 'f64')


def data(n, dtype):
    """n distinct values of the dtype, among them large and negative ones"""
    base = [3, -7, 11, 0, 5, -2, 40, -90, 17, 6, 1, 2, 13, 19, 23, 29]
    if dtype == 'i64':
        base = [b + (1 << 40) * (1 if b > 0 else -1) for b in base]
    if dtype in FLOATS:
        base = [b + 0.25 for b in base]
    if dtype == 'f64':
        base = [b + 2.0 ** -40 for b in base]
    if dtype == 'bool':
        base = [b % 2 == 0 for b in base]
    return (base * (n // len(base) + 1))[:n]


def lay1(vals, dtype, layout):
    """a 1-D tensor with these values in the given memory layout; the second
    element is the storage it lives in (to see writes outside the view)"""
    n = len(vals)
    t = torch.tensor(vals, dtype=DT[dtype])
    if layout == 'plain':
        return t, t
    if layout == 'offset':
        b = torch.full((n + 3,), 1, dtype=DT[dtype])
        v = b[2:2 + n]
    elif layout in ('s2', 's3'):
        k = int(layout[1])
        b = torch.full((n * k + 1,), 1, dtype=DT[dtype])
        v = b[1::k][:n]
    elif layout == 'column':
        b = torch.full((max(n, 1), 2), 1, dtype=DT[dtype])
        v = b[:n, 1]
    elif layout == 'expand':
        b = torch.tensor(vals[:1] or [0], dtype=DT[dtype])
        return b.expand(n) if n else b[:0], b
    v.copy_(t)
    return v, b


def lay2(rows, m, dtype, layout):
    n = len(rows)
    t = torch.tensor(rows, dtype=DT[dtype]).reshape(n, m)
    if layout == 'plain':
        return t, t
    if layout == 'rows':             # every other row
        b = torch.full((2 * n + 1, m), 1, dtype=DT[dtype])
        v = b[1::2][:n]
    elif layout == 'inner':          # a block of columns
        b = torch.full((n, m + 3), 1, dtype=DT[dtype])
        v = b[:, 1:1 + m]
    elif layout == 'transposed':
        b = torch.full((m, n), 1, dtype=DT[dtype])
        v = b.t()
    elif layout == 'cols2':          # every other column
        b = torch.full((n, 2 * m + 1), 1, dtype=DT[dtype])
        v = b[:, 1::2][:, :m]
    elif layout == 'expand':
        b = torch.tensor(rows[:1], dtype=DT[dtype]).reshape(min(n, 1), m)
        return (b.expand(n, m) if n else b), b
    v.copy_(t)
    return v, b


def vectors(n, length):
    return itertools.product(range(-1, n), repeat=length)


def idx(v, layout=0):
    """an int32 index; layout 1: inside a bigger storage"""
    if layout == 0:
        return torch.tensor(v, dtype=I32)
    b = torch.full((len(v) + 3,), 9999, dtype=I32)
    r = b[2:2 + len(v)]
    r.copy_(torch.tensor(v, dtype=I32))
    return r


# ------------------------------------------------------------- index_select
LAY1 = ['plain', 'offset', 's2', 's3', 'column', 'expand']
LAY2 = ['plain', 'rows', 'inner', 'transposed', 'cols2', 'expand']


def sel1_cases(tier):
    big = 3 if tier == 'quick' else 4
    for dtype in DT:
        for layout in LAY1:
            for n in range(0, 5):
                for length in range(0, 5):
                    if n > big and length > big:
                        continue
                    yield [dtype, layout, n, length]
    for dtype in ('i32', 'f32'):
        for n in (1, 7, 33):
            yield [dtype, 'plain', n, 1]
            yield [dtype, 's3', n, 1]


def defaults(dtype):
    return {'bool': [0, 1], 'i32': [0, -1, 77],
            'i64': [0, -1, 1 << 30]}.get(dtype, [0, -1.5, -math.inf])


def check_sel1(case):
    dtype, layout, n, length = case
    vals = data(n, dtype)
    if layout == 'expand':
        vals = vals[:1] * n
    cnt = 0
    for v in vectors(n, length):
        for il in (0, 1):
            src, store = lay1(vals, dtype, layout)
            before = store.clone()
            index = idx(v, il)
            for d in defaults(dtype):
                step()
                try:
                    ans = k2.index_select(src, index, default_value=d)
                except RuntimeError as e:
                    # bool is no documented type
                    expect(dtype == 'bool' and not src.is_contiguous(), e)
                    continue
                want = [vals[i] if i >= 0 else
                        (bool(d) if dtype == 'bool' else d) for i in v]
                expect(ans.dtype == DT[dtype] and ans.shape == (length,)
                       and ans.is_contiguous(), 'type', ans.dtype, ans.shape)
                expect(ans.tolist() == want, 'index_select of', src.tolist(),
                       'stride', src.stride(), 'by', v, 'default', d, 'is',
                       ans.tolist())
                # the result has storage of its own
                if length:
                    ans.fill_(0)
                expect(torch.equal(store, before), 'the source has changed')
                cnt += 1
            if dtype == 'i32':
                m = k2.compose_arc_maps(src, index)
                expect(m.tolist() == [vals[i] if i >= 0 else -1 for i in v],
                       'compose_arc_maps', src.tolist(), v, m.tolist())
    if dtype in FLOATS:
        for v in vectors(n, length):
            for gl in LAY1:
                w = data(length, dtype)
                if gl == 'expand':
                    w = w[:1] * length
                leaf, _ = lay1(vals, dtype, 'plain')
                leaf.requires_grad_(True)
                if layout == 'expand':
                    src = leaf[:1].expand(n) if n else leaf
                elif layout == 'column':
                    src = torch.stack([leaf, leaf * 0], 1)[:, 0]
                elif layout in ('s2', 's3'):
                    k = int(layout[1])
                    src = torch.stack([leaf] * k, 1).reshape(-1)[::k]
                else:
                    src = leaf
                step()
                ans = k2.index_select(src, idx(v), -3.5)
                expect(ans.requires_grad, 'gradient lost')
                ans.backward(lay1(w, dtype, gl)[0])
                want = [0.0] * n
                for i, x in zip(v, w):
                    if i >= 0:
                        want[0 if layout == 'expand' else i] += x
                if layout in ('s2', 's3'):
                    pass   # only the first copy is selected
                expect(leaf.grad is not None and torch.allclose(
                    leaf.grad, torch.tensor(want, dtype=DT[dtype]),
                    rtol=1e-6, atol=1e-6), 'gradient of index_select by', v,
                    'out-grad', w, gl, 'source layout', layout, 'is',
                    leaf.grad, 'expected', want)
                cnt += 1
    return cnt


def sel2_cases(tier):
    for dtype in DT:
        for layout in LAY2:
            for n in range(0, 4):
                for m in range(0, 4):
                    for length in range(0, 4 if tier == 'quick' else 5):
                        yield [dtype, layout, n, m, length]


def check_sel2(case):
    dtype, layout, n, m, length = case
    flatv = data(n * m, dtype)
    rows = [flatv[i * m:(i + 1) * m] for i in range(n)]
    if layout == 'expand':
        rows = rows[:1] * n
    zero = [False if dtype == 'bool' else 0] * m
    cnt = 0
    for v in vectors(n, length):
        src, store = lay2(rows, m, dtype, layout)
        before = store.clone()
        step()
        try:
            ans = k2.index_select(src, idx(v))
        except RuntimeError as e:
            # documented: only a source with adjacent elements in a row (and
            # rows that do not overlap)
            expect(not src.is_contiguous() and
                   (src.stride(1) != 1 or src.stride(0) < m),
                   'index_select refuses shape', tuple(src.shape), 'stride',
                   src.stride(), str(e)[:200])
            expect(torch.equal(store, before), 'the source has changed')
            continue
        want = [rows[i] if i >= 0 else zero for i in v]
        expect(ans.dtype == DT[dtype] and tuple(ans.shape) == (length, m),
               'shape', tuple(ans.shape), 'expected', (length, m))
        expect(ans.tolist() == want, 'index_select of', src.tolist(), 'stride',
               src.stride(), 'by', v, 'is', ans.tolist())
        if ans.numel():
            ans.fill_(0)
        expect(torch.equal(store, before), 'the source has changed')
        cnt += 1
        if dtype not in FLOATS:
            continue
        for gl in LAY2:
            w = data(length * m, dtype)
            w = [w[i * m:(i + 1) * m] for i in range(length)]
            if gl == 'expand':
                w = w[:1] * length
            leaf = lay2(rows, m, dtype, 'plain')[0].requires_grad_(True)
            if layout == 'expand' and n:
                s = leaf[:1].expand(n, m)
            elif layout == 'rows':
                s = torch.stack([leaf, leaf], 1).reshape(2 * n, m)[::2]
            else:
                s = leaf
            ans = k2.index_select(s, idx(v))
            ans.backward(lay2(w, m, dtype, gl)[0])
            want = [[0.0] * m for _ in range(n)]
            for i, x in zip(v, w):
                if i >= 0:
                    t = want[0 if layout == 'expand' else i]
                    for j in range(m):
                        t[j] += x[j]
            expect(torch.allclose(
                leaf.grad, torch.tensor(want, dtype=DT[dtype]).reshape(n, m),
                rtol=1e-6, atol=1e-6), 'gradient of 2-D index_select by', v,
                'layouts', layout, gl, leaf.grad, want)
            cnt += 1
    return cnt


# ---------------------------------------------------------------- index_add
def add1_cases(tier):
    for dtype in ('i32', 'f32', 'f64'):
        for vl in LAY1:
            for dl in LAY1[:-1]:
                for n in range(0, 4):
                    for length in range(0, 4 if tier == 'quick' else 5):
                        yield [dtype, vl, dl, n, length]


def check_add1(case):
    dtype, vl, dl, n, length = case
    w = data(length, dtype)
    if vl == 'expand':
        w = w[:1] * length
    init = data(n + 5, dtype)[5:]
    cnt = 0
    for v in vectors(n, length):
        val, vstore = lay1(w, dtype, vl)
        vb = vstore.clone()
        out, store = lay1(init, dtype, dl)
        mask = store.clone()
        step()
        r = k2.index_add(idx(v, length % 2), val, out)
        expect(r is None, 'returns', r)
        want = list(init)
        for i, x in zip(v, w):
            if i >= 0:
                want[i] += x
        expect(torch.allclose(out, torch.tensor(want, dtype=DT[dtype]),
                              rtol=1e-6, atol=0 if dtype == 'i32' else 1e-6),
               'index_add of', w, vl, 'at', v, 'to', init, dl, 'gives',
               out.tolist(), 'expected', want)
        expect(torch.equal(vb, vstore), 'the value has changed')
        # nothing outside the destination is touched
        out2, store2 = store, mask
        o = out.clone()
        out.copy_(torch.tensor(init, dtype=DT[dtype]))
        expect(torch.equal(out2, store2), 'index_add wrote outside')
        cnt += len(o) + 1
    return cnt


def add2_cases(tier):
    for dtype in ('i32', 'f32', 'f64'):
        for vl in LAY2:
            for dl in LAY2[:-1]:
                for n in range(0, 3):
                    for m in range(0, 3):
                        for length in range(0, 3 if tier == 'quick' else 4):
                            yield [dtype, vl, dl, n, m, length]
    for dtype in ('i32', 'f32', 'f64'):
        for vl in LAY2:
            yield [dtype, vl, 'plain', 3, 3, 3]


def check_add2(case):
    dtype, vl, dl, n, m, length = case
    w = data(length * m, dtype)
    w = [w[i * m:(i + 1) * m] for i in range(length)]
    if vl == 'expand':
        w = w[:1] * length
    f = data(n * m + 5, dtype)[5:]
    init = [f[i * m:(i + 1) * m] for i in range(n)]
    cnt = 0
    for v in vectors(n, length):
        val, vstore = lay2(w, m, dtype, vl)
        vb = vstore.clone()
        out, store = lay2(init, m, dtype, dl)
        mask = store.clone()
        step()
        k2.index_add(idx(v), val, out)
        want = [list(r) for r in init]
        for i, x in zip(v, w):
            if i >= 0:
                for j in range(m):
                    want[i][j] += x[j]
        t = torch.tensor(want, dtype=DT[dtype]).reshape(n, m)
        expect(torch.allclose(out, t, rtol=1e-6,
                              atol=0 if dtype == 'i32' else 1e-6),
               'index_add of', w, vl, 'at', v, 'to', init, dl, 'gives',
               out.tolist(), 'expected', want)
        expect(torch.equal(vb, vstore), 'the value has changed')
        out.copy_(torch.tensor(init, dtype=DT[dtype]).reshape(n, m))
        expect(torch.equal(store, mask), 'index_add wrote outside')
        cnt += 1
    return cnt


# --------------------------------------------------------- refused arguments
SHAPES = [(0,), (2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2)]


def refuse_cases(tier):
    for vd in ('i32', 'i64', 'f32', 'f64', 'bool'):
        for od in ('i32', 'i64', 'f32', 'f64', 'bool'):
            for nd in ('i32', 'i64', 'f32'):
                yield [vd, od, nd]


def check_refuse(case):
    """every combination of types and shapes either is documented, and then
    exact, or is refused with an exception, and then nothing has been written"""
    vd, od, nd = case
    cnt = 0
    for vs in SHAPES:
        for os_ in SHAPES:
            for ln in (0, 2, 3):
                step()
                value = torch.ones(vs, dtype=DT[vd])
                buf = torch.full((64,), 1, dtype=DT[od])
                size = 1
                for s in os_:
                    size *= s
                out = buf[8:8 + size].reshape(os_)
                index = torch.zeros(ln, dtype=DT[nd])
                legal = (vd == od and vd in ('i32', 'f32', 'f64')
                         and nd == 'i32' and len(vs) == len(os_) <= 2
                         and vs[0] == ln and vs[1:] == os_[1:]
                         and (os_[0] > 0 or ln == 0))
                if os_[0] == 0 and ln:
                    continue        # index 0 would be out of range
                try:
                    k2.index_add(index, value, out)
                    ok = True
                except Exception:
                    ok = False
                if legal:
                    expect(ok, 'index_add refused', vd, vs, os_)
                elif ok:
                    expect(False, 'index_add accepts a value of type', vd,
                           'shape', vs, 'a destination of type', od, os_,
                           'and an index of type', nd, 'and length', ln)
                else:
                    expect(bool((buf == 1).all()), 'refused, but changed')
                cnt += 1
    # index_select: wrong index types and shapes
    for vs in SHAPES:
        src = torch.ones(vs, dtype=DT[vd])
        for ishape in ((2,), (1, 2), (0,), ()):
            index = torch.zeros(ishape, dtype=DT[nd])
            if vs[0] == 0 and index.numel():
                continue
            legal = nd == 'i32' and len(vs) <= 2 and len(ishape) == 1
            try:
                k2.index_select(src, index)
                ok = True
            except Exception:
                ok = False
            expect(ok == legal, 'index_select of shape', vs, vd, 'by', nd,
                   ishape, 'accepted' if ok else 'refused')
            cnt += 1
        if len(vs) <= 2 and vs[0] >= 2:
            bad = torch.zeros(4, dtype=I32)[::2]
            try:
                k2.index_select(src, bad)
                ok = True
            except Exception:
                ok = False
            expect(not ok, 'a strided index was accepted')
    return cnt


# --------------------------------------------- at most one non-zero per list
def simple_cases(tier):
    for dtype in ('i32', 'f32'):
        for layout in LAY1[:-1]:
            for n in range(0, 4):
                for pat in itertools.product((0, 1), repeat=n):
                    yield [dtype, layout, list(pat)]


def lists(n, maxlen):
    out = []
    for k in range(maxlen + 1):
        out += [list(x) for x in itertools.product(range(n), repeat=k)]
    return out


def check_simple(case):
    dtype, layout, pat = case
    n = len(pat)
    vals = [x * (i + 2) * (-1 if i == 1 else 1) for i, x in enumerate(pat)]
    if dtype == 'f32':
        vals = [v + 0.5 if v else 0.0 for v in vals]
    src, store = lay1(vals, dtype, layout)
    before = store.clone()
    ls = lists(n, 2)
    cnt = 0
    for k in range(0, 4):
        for combo in itertools.product(ls, repeat=k):
            if k == 3 and sum(map(len, combo)) > 4:
                continue
            ind = k2.RaggedTensor([list(c) for c in combo] if k else
                                  '[ ]', dtype=I32)
            if k == 0:
                ind = k2.RaggedTensor(torch.zeros(0, 1, dtype=I32))
            bad = any(sum(1 for i in c if vals[i] != 0) > 1 for c in combo)
            step()
            try:
                ans = _k2.simple_ragged_index_select(src, ind)
                ok = True
            except RuntimeError:
                ok = False
            cnt += 1
            expect(ok != bad, 'simple_ragged_index_select of', vals, combo,
                   'accepted' if ok else 'refused')
            expect(torch.equal(store, before), 'source changed')
            if ok:
                want = [sum(vals[i] for i in c) for c in combo]
                expect(ans.tolist() == want and ans.dtype == DT[dtype],
                       'simple_ragged_index_select of', vals, 'by', combo,
                       'is', ans.tolist())
    return cnt


# ------------------------------------------------------------------- sparse
def sparse_cases(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for rows in itertools.product(range(2), repeat=n):
            yield [list(rows)]


def check_sparse(case):
    rows, = case
    n = len(rows)
    cnt = 0
    for cols in itertools.product((-1, 0, 1, 2) if n < 4 else (-1, 0, 2),
                                  repeat=n):
        for idt, vdt in (('i32', 'f32'), ('i64', 'f64'), ('i32', 'f64')):
            for mci in (None, 0, 1, 2, 3):
                keep = [mci is None or c >= mci for c in cols]
                if mci is None and min(cols, default=0) < 0:
                    continue
                for size in (None, (2, 3), (3, 5)):
                    if size is None and not any(keep):
                        continue
                    step()
                    vals = [i + 1.5 for i in range(n)]
                    v = torch.tensor(vals, dtype=DT[vdt], requires_grad=True)
                    r = torch.tensor(rows, dtype=DT[idt])
                    c = torch.tensor(cols, dtype=DT[idt])
                    sp = k2.create_sparse(r, c, v * 1, size=size,
                                          min_col_index=mci)
                    kept = [i for i in range(n) if keep[i]]
                    if size is None:
                        want = torch.zeros(
                            max([rows[i] for i in kept]) + 1,
                            max([cols[i] for i in kept]) + 1, dtype=DT[vdt])
                    else:
                        want = torch.zeros(*size, dtype=DT[vdt])
                    for i in kept:
                        want[rows[i], cols[i]] += vals[i]
                    expect(sp.is_sparse and sp.shape == want.shape
                           and sp.dtype == DT[vdt], 'sparse shape', sp.shape,
                           want.shape)
                    expect(torch.equal(sp.to_dense(), want), 'create_sparse',
                           rows, cols, mci, size, sp.to_dense(), want)
                    w = torch.arange(1, want.numel() + 1,
                                     dtype=DT[vdt]).reshape(want.shape)
                    (sp.to_dense() * w).sum().backward()
                    g = [float(w[rows[i], cols[i]]) if keep[i] else 0.0
                         for i in range(n)]
                    expect(v.grad is not None and v.grad.tolist() == g,
                           'gradient of create_sparse', rows, cols, mci, size,
                           v.grad, 'expected', g)
                    cnt += 1
    return cnt


def abs_cases(tier):
    for n in range(0, 4):
        for pat in itertools.product((-1.5, 0.0, 2.0), repeat=n):
            yield [list(pat)]


def check_abs(case):
    vals, = case
    n = len(vals)
    cnt = 0
    cells = [(r, c) for r in range(2) for c in range(3)]
    for at in itertools.permutations(cells, n):
        for dt in (F32, F64):
            step()
            leaf = torch.tensor(vals, dtype=dt, requires_grad=True)
            ind = torch.tensor(at, dtype=torch.int64).reshape(n, 2).t()
            sp = torch.sparse_coo_tensor(ind, leaf * 1, (2, 3)).coalesce()
            y = k2.sparse.abs(sp)
            want = torch.zeros(2, 3, dtype=dt)
            for (r, c), v in zip(at, vals):
                want[r, c] = abs(v)
            expect(y.is_sparse and y.dtype == dt and
                   torch.equal(y.to_dense(), want), 'sparse abs', at, vals)
            if not y.requires_grad and n == 0:
                continue
            w = 0.0
            torch.sparse.sum(y).backward()
            g = [float((v > 0) - (v < 0)) for v in vals]
            expect(leaf.grad.tolist() == g, 'gradient of sparse abs', at,
                   vals, leaf.grad, w)
            cnt += 1
    return cnt


# -------------------------------------------------------------- activations
KINDS = {'l': (4.0, 0.035), 'r': (1.0, 0.313261687)}
GRID = sorted(set([x / 8 for x in range(-80, 81)] +
                  [s * v for s in (1, -1) for v in
                   (0.0, 1e-30, 12.5, 20.0, 50.0, 87.0, 88.0, 89.0, 92.6,
                    92.8, 95.0, 100.0, 103.0, 104.5, 200.0, 1e4, 1e10, 1e30)]))


def swoosh(kind, x):
    a, b = KINDS[kind]
    z = x - a
    s = z + math.log1p(math.exp(-z)) if z > 0 else math.log1p(math.exp(z))
    return s - 0.08 * x - b


def deriv(kind, x):
    a, _ = KINDS[kind]
    z = x - a
    s = 1 / (1 + math.exp(-z)) if z > 0 else math.exp(z) / (1 + math.exp(z))
    return s - 0.08


LAYS = ['1', 'offset', 's2', 'row', 'col', 'grid', 'tgrid', 'expand', 'empty',
        'empty2', 'three', '0d']


def act_layout(layout, dtype):
    n = len(GRID)
    t = torch.tensor(GRID, dtype=dtype)
    if layout == '1':
        return t
    if layout == 'offset':
        return torch.cat([t, t])[n - 1:]
    if layout == 's2':
        return torch.stack([t, t * 0], 1).reshape(-1)[::2]
    if layout == 'row':
        return t.unsqueeze(0)
    if layout == 'col':
        return t.unsqueeze(1)
    k = n // 6 * 6
    if layout == 'grid':
        return t[:k].reshape(6, -1)
    if layout == 'tgrid':
        return t[:k].reshape(6, -1).t()
    if layout == 'expand':
        return t.unsqueeze(1).expand(n, 3)
    if layout == 'empty':
        return t[:0]
    if layout == 'empty2':
        return torch.zeros(3, 0, dtype=dtype)
    if layout == 'three':
        return t[:k].reshape(2, 3, -1).permute(1, 2, 0)
    return t[n // 2 + 3].reshape(())


OUTG = ['ones', 'sum', 'expand_row', 'transposed', 'strided', 'scaled']


def act_cases(tier):
    for kind in KINDS:
        for dtype in ('f32', 'f64', 'f16'):
            for layout in LAYS:
                for og in OUTG:
                    for p in (0.0, 0.25, 0.5, 0.9):
                        yield [kind, dtype, layout, og, p]


def check_act(case):
    kind, dtype, layout, og, p = case
    torch.manual_seed(17)
    dt = {'f32': F32, 'f64': F64, 'f16': torch.float16}[dtype]
    if dtype == 'f16':
        x = act_layout(layout, F32).clamp(-6e4, 6e4).to(dt)
    else:
        x = act_layout(layout, dt)
    xs = x.detach().to(F64)
    want = torch.tensor([swoosh(kind, v) for v in xs.flatten().tolist()],
                        dtype=F64).reshape(x.shape)
    wd = torch.tensor([deriv(kind, v) for v in xs.flatten().tolist()],
                      dtype=F64).reshape(x.shape)
    fn = getattr(k2, 'swoosh_' + kind)
    fwd = getattr(k2, 'swoosh_' + kind + '_forward')
    fad = getattr(k2, 'swoosh_' + kind + '_forward_and_deriv')
    before = x.clone()

    def close(a, b, what):
        expect(a.shape == b.shape, what, 'has shape', tuple(a.shape), 'not',
               tuple(b.shape))
        expect(a.dtype == F32, what, 'dtype', a.dtype)
        err = (a.to(F64) - b).abs()
        tol = 3e-6 * (1 + b.abs()) + 1e-6 * xs.abs()
        bad = ~(err <= tol)
        expect(not bool(bad.any()), what, 'at', xs[bad].tolist()[:5], 'is',
               a[bad].tolist()[:5], 'expected', b[bad].tolist()[:5])

    step(4)
    if p == 0:
        close(fn(x), want, 'swoosh')
        close(fn(x, 0.0), want, 'swoosh')
        close(fwd(x), want, 'swoosh forward')
        y, d = fad(x)
        close(y, want, 'swoosh forward (with derivative)')
        close(d, wd, 'swoosh derivative')
    else:
        # without gradients there is no dropout
        close(fn(x, p), want, 'swoosh without gradient')
    # with gradients
    leaf = x.detach().clone().requires_grad_(True)
    if layout == 's2':
        xin = torch.stack([leaf, leaf.detach()], 1).reshape(-1)[::2]
    elif layout == 'tgrid':
        xin = leaf.t().contiguous().t()
    elif layout == 'expand':
        xin = leaf[:, :1].expand(leaf.shape)
    else:
        xin = leaf * 1
    y = fn(xin, p)
    expect(y.requires_grad and y.shape == x.shape and y.dtype == F32,
           'swoosh with gradient')
    if p == 0:
        close(y.detach(), want, 'swoosh with gradient')
        kept = torch.ones(x.shape, dtype=torch.bool)
    else:
        yy = y.detach().to(F64)
        full = want / (1 - p)
        tol = 3e-5 * (1 + full.abs()) + 1e-5 * xs.abs()
        drop = yy == 0
        kept = (yy - full).abs() <= tol
        bad = ~(drop | kept)
        expect(not bool(bad.any()), 'dropped or scaled output', xs[bad][:5],
               yy[bad][:5])
        kept = ~drop | (want.abs() < 1e-4)
        if x.numel() > 60:
            f = float(drop.double().mean())
            expect(abs(f - p) < 6 * math.sqrt(p * (1 - p) / x.numel())
                   + 0.02, 'dropout probability', p, 'fraction', f)
    # a gradient in various layouts
    w = torch.ones(x.shape, dtype=F32)
    if og == 'ones':
        y.backward(w)
    elif og == 'sum':
        y.sum().backward()
    elif og == 'expand_row':
        if x.dim() == 0:
            return 0
        w = torch.linspace(-2, 3, x.shape[0], dtype=F32) if x.numel() else \
            torch.zeros(x.shape[0])
        w = w.reshape([-1] + [1] * (x.dim() - 1)).expand(x.shape)
        (y * w).sum().backward() if len(x.shape) == 1 else y.backward(w)
    elif og == 'transposed':
        if x.dim() < 2:
            return 0
        w = torch.linspace(-2, 3, x.numel(), dtype=F32)
        w = w.reshape(list(reversed(x.shape)))
        w = w.permute(*reversed(range(x.dim())))
        y.backward(w)
    elif og == 'strided':
        w = torch.linspace(-2, 3, 2 * x.numel(), dtype=F32)[::2]
        w = w.reshape(x.shape) if x.dim() != 1 else w
        y.backward(w)
    else:
        w = w * 2
        (y * 2).sum().backward()
    g = leaf.grad
    expect(g is not None and g.shape == x.shape, 'gradient shape')
    expect(g.dtype == dt, 'gradient type', g.dtype)
    if layout == 'expand':
        if x.numel() == 0:
            return 0
        return int(x.numel())
    gd = (wd * w.to(F64) * kept.to(F64)) / (1 - p)
    # the derivative is kept in eight bits, rounded at random
    tol = (1.02 * (1.005 / 255) * w.abs().to(F64)) / (1 - p) + 1e-6 \
        + (2e-3 * gd.abs() if dtype == 'f16' else 0)
    unsure = (want.abs() < 1e-4) if p else torch.zeros(x.shape).bool()
    bad = ~((g.to(F64) - gd).abs() <= tol) & ~unsure
    expect(not bool(bad.any()), 'gradient at', xs[bad].tolist()[:5], 'is',
           g[bad].tolist()[:5], 'expected', gd[bad].tolist()[:5])
    expect(torch.equal(x, before), 'the input has changed')
    return int(x.numel())


ASSUMPTIONS = [
    'indexes are within -1..n-1 (documented; not checked in release builds)',
    '2-D sources need adjacent elements within a row (documented, refused '
    'otherwise)',
    'gradients of the activations within their eight-bit resolution; which '
    'elements dropout removes is taken from the output',
]
FAMILIES = [
    Family('select', sel1_cases, check_sel1,
           'every index vector, source layout, type, default value; every '
           'layout of the incoming gradient'),
    Family('select2d', sel2_cases, check_sel2, 'the same for matrices'),
    Family('add', add1_cases, check_add1,
           'every index vector and layout of value and destination'),
    Family('add2d', add2_cases, check_add2, 'the same for matrices'),
    Family('refused', refuse_cases, check_refuse,
           'every combination of types and shapes: exact or refused'),
    Family('simple', simple_cases, check_simple,
           'every ragged index over every zero pattern'),
    Family('sparse', sparse_cases, check_sparse, 'every small sparse matrix'),
    Family('abs', abs_cases, check_abs, 'every small sparse matrix'),
    Family('swoosh', act_cases, check_act,
           'grid of values x layouts x types x incoming gradients x dropout'),
]
