"""A10: transducer losses equal the sum over alignments."""
import contextlib
import functools
import io

from mc.core import Family, expect, step
from mc.lang import *  # noqa
import k2
from k2.mutual_information import (mutual_information_recursion,
                                   joint_mutual_information_recursion)
from k2.rnnt_loss import (get_rnnt_logprobs, get_rnnt_logprobs_joint,
                          get_rnnt_logprobs_pruned)

TYPES = ('regular', 'modified', 'constrained')
C = 3


# ------------------------------------------------------------------ reference
@functools.lru_cache(maxsize=None)
def paths(diag, sb, tb, se, te, T):
    """all alignments of a rectangle: index lists into cat(px, py); px is
    [S][W], py is [S+1][T].  Returned as (kind, s, t) triples"""
    out = []

    def rec(s, t, p):
        if (s, t) == (se, te):
            out.append(tuple(p))
            return
        if s < se:
            if diag:
                if t < te:
                    rec(s + 1, t + 1, p + [(0, s, t)])
            else:
                rec(s + 1, t, p + [(0, s, t)])
        if t < te:
            rec(s, t + 1, p + [(1, s, t)])
    rec(sb, tb, [])
    return out


def total(px, py, diag, rect):
    """log of the sum over all alignments (double precision, differentiable)"""
    S, W = px.shape
    T = py.shape[1]
    ps = paths(diag, *rect, T)
    flat = torch.cat([px.reshape(-1), py.reshape(-1)])
    if not ps:
        return torch.tensor(NEG, dtype=torch.float64)
    if not ps[0]:
        return torch.zeros((), dtype=torch.float64) + flat.nan_to_num(
            neginf=0.).sum() * 0
    idx = torch.tensor([[(s * W + t) if k == 0 else S * W + s * T + t
                         for k, s, t in p] for p in ps])
    sc = flat[idx].sum(1)
    sc = sc[sc.detach() > NEG]
    if len(sc) == 0:
        return torch.tensor(NEG, dtype=torch.float64)
    return torch.logsumexp(sc, 0)


def table(logp, sym, term, typ, rect, pen, T, keep=None):
    """px, py of one utterance from naive log-probs logp [T][S+1][C] (or a
    function of (px, py) already combined).  keep(s, t): state is covered"""
    S = len(sym)
    px = torch.stack([torch.stack([logp[t][s][sym[s]] for t in range(T)])
                      for s in range(S)]) if S else \
        torch.zeros((0, T), dtype=torch.float64)
    py = torch.stack([torch.stack([logp[t][s][term] for t in range(T)])
                      for s in range(S + 1)])
    return finish(px, py, typ, rect, pen, T, keep)


def finish(px, py, typ, rect, pen, T, keep=None):
    S = px.shape[0]
    if keep is not None:
        mx = torch.tensor([[0. if keep(s, t) else NEG for t in range(T)]
                           for s in range(S)],
                          dtype=torch.float64).reshape(S, T)
        my = torch.tensor([[0. if keep(s, t) else NEG for t in range(T)]
                           for s in range(S + 1)],
                          dtype=torch.float64).reshape(S + 1, T)
        px, py = px + mx, py + my
    if typ == 'constrained':
        px = px + py[1:]
    if pen:
        px = px + pen * ((rect[3] - 1) / 2 - torch.arange(
            T, dtype=torch.float64))
    if typ == 'regular':
        m = torch.zeros((S, T + 1), dtype=torch.float64)
        m[:, rect[3]] = NEG
        px = torch.cat([px, torch.full((S, 1), NEG, dtype=torch.float64)],
                       1) + m
    return px, py


def val(pat, *ix):
    h = 0
    for k, i in enumerate(ix):
        h += (2 * k + 3) * (i + 1) + (i + 1) * (i + 2) * (k + 1)
    if pat == 0:
        return 0.25 * (h % 11) - 1.0
    if pat == 1:
        return -0.5 * (h % 5)
    return 6.0 * ((h % 3) - 1)


def fill(pat, shape, dtype=torch.float32):
    t = torch.tensor([val(pat, *ix) for ix in
                      itertools.product(*[range(n) for n in shape])],
                     dtype=dtype)
    return t.reshape(shape)


def syms(i, n, S, term):
    """symbol sequences; the last pattern contains the termination symbol"""
    return [[(b + s * (i + 1) + i) % (C - 1) + (1 if term == 0 else 0)
             if i < 2 else (b + s) % C for s in range(S)] for b in range(n)]


def reduce_(v, red):
    return v if red == 'none' else v.sum() if red == 'sum' else v.mean()


def near(a, b, tol=2e-4):
    return close_to(float(a), float(b), tol)


def compare(got, want, gin, win, ctx):
    """got, want: losses ('none' or reduced); gin/win: k2 / reference inputs"""
    g, w = got.detach().double(), want.detach()
    expect(g.shape == w.shape, 'shape', g.shape, w.shape, *ctx)
    for a, b in zip(g.reshape(-1).tolist(), w.reshape(-1).tolist()):
        expect(near(a, b), 'loss', a, 'expected', b, *ctx)
    if g.dim():
        co = torch.tensor([1.0 + .5 * i if math.isfinite(x) else 0.
                           for i, x in enumerate(w.tolist())])
        fin = [i for i, x in enumerate(w.tolist()) if math.isfinite(x)]
        if not fin:
            return
        got = (got[fin] * co[fin].to(got.dtype)).sum()
        want = (want[fin] * co[fin].double()).sum()
    elif not math.isfinite(w.item()):
        return
    if not want.requires_grad:
        return
    gg = torch.autograd.grad(got, gin, allow_unused=True)
    wg = torch.autograd.grad(want, win, allow_unused=True, retain_graph=True)
    for k, (x, y, z) in enumerate(zip(gg, wg, gin)):
        x = torch.zeros_like(z) if x is None else x
        y = torch.zeros(z.shape, dtype=torch.float64) if y is None else y
        bad = ~torch.isclose(x.double(), y, rtol=1e-3, atol=2e-4)
        if bad.any():
            i = tuple(bad.nonzero()[0].tolist())
            expect(False, 'gradient of input', k, 'at', i, ':', x[i].item(),
                   'expected', y[i].item(), *ctx)


def rects(S, T, typ, begin=False):
    for se in range(S + 1):
        for te in range(1 if not begin else 0, T + 1):
            if typ != 'regular' and te < se:
                continue
            for sb in range(se + 1 if begin else 1):
                for tb in range(te + 1 if begin else 1):
                    yield [sb, tb, se, te]


def boundaries(S, T, typ):
    """None, every rectangle next to the whole one, and rotated triples"""
    yield None
    rs = list(rects(S, T, typ))
    full = [0, 0, S, T]
    ok = typ == 'regular' or T >= S
    for r in rs:
        yield [r, full] if ok else [r]
    for i in range(len(rs)):
        yield [rs[i], rs[(i * 3 + 1) % len(rs)], rs[(i * 5 + 2) % len(rs)]]


def grids(tier):
    for S in range(0, 4 if tier == 'quick' else 5):
        for T in range(1, 5 if tier == 'quick' else 7):
            yield S, T


# ------------------------------------------------------------- the recursion
def rec_cases(tier):
    for S in range(0, 4 if tier == 'quick' else 5):
        for T in range(0, 5 if tier == 'quick' else 6):
            for mod in (0, 1):
                yield [S, T, mod]


def rec_boundaries(S, T):
    yield None, 1
    rs = [[sb, tb, se, te] for se in range(S + 1) for sb in range(se + 1)
          for te in range(T + 1) for tb in range(te + 1)]
    for i in range(len(rs)):
        yield [rs[i], rs[(i * 7 + 3) % len(rs)]], 2


def raw(pat, shape, dtype):
    x = fill(pat, shape, dtype)
    if pat == 1 and x.numel():
        f = x.reshape(-1)
        f[1::4] = NEG
    return x


def check_rec(case):
    S, T, mod = case
    W = T if mod else T + 1
    sig = []
    for bd, n in rec_boundaries(S, T):
        for pat in range(3):
            dt = [torch.float32, torch.float64][(pat + S + n) % 2]
            px = raw(pat, (n, S, W), dt).requires_grad_()
            py = raw(pat, (n, S + 1, T), dt).requires_grad_()
            rs = bd or [[0, 0, S, T]] * n
            rx = px.detach().double().requires_grad_()
            ry = py.detach().double().requires_grad_()
            want = torch.stack([total(rx[b], ry[b], bool(mod), tuple(rs[b]))
                                for b in range(n)])
            b = None if bd is None else torch.tensor(bd)
            for strided in (False, True):
                qx, qy = px, py
                if strided:     # the docs: T axis of stride 1 not required
                    qx = px.transpose(1, 2).contiguous().transpose(1, 2)
                    qy = py.transpose(0, 2).contiguous().transpose(0, 2)
                got = mutual_information_recursion(qx, qy, b)
                step()
                compare(got, want, [px, py], [rx, ry], (case, bd, pat))
            v, (gx, gy) = mutual_information_recursion(
                px.detach(), py.detach(), b, return_grad=True)
            fin = [i for i, x in enumerate(want.tolist()) if x != NEG]
            if fin and want.requires_grad:
                wx, wy = torch.autograd.grad(want[fin].sum(), [rx, ry], retain_graph=True,
                                             allow_unused=True)
                for g, w in ((gx, wx), (gy, wy)):
                    if w is None:
                        w = torch.zeros(g.shape, dtype=torch.float64)
                    expect(torch.allclose(g[fin].double(), w[fin], rtol=1e-3,
                                          atol=1e-4),
                           'returned gradients', g, w, case, bd, pat)
            sig.append([round(x, 3) for x in want.tolist()])
    return sig


def joint_rec_cases(tier):
    for S in range(0, 4):
        for T in range(1, 5):
            for mod in (0, 1):
                for N in (1, 2, 3):
                    yield [S, T, mod, N]


def check_joint_rec(case):
    S, T, mod, N = case
    W = T if mod else T + 1
    sig = []
    for bd, n in rec_boundaries(S, T):
        px = [fill(k % 2, (n, S, W)) * (1 + k) for k in range(N)]
        py = [fill(k % 2, (n, S + 1, T)) * (2 - k) for k in range(N)]
        for x in px + py:
            x.requires_grad_()
        rs = bd or [[0, 0, S, T]] * n
        sx = sum(x.detach().double() for x in px).requires_grad_()
        sy = sum(x.detach().double() for x in py).requires_grad_()
        want = torch.stack([total(sx[b], sy[b], bool(mod), tuple(rs[b]))
                            for b in range(n)])
        fin = [i for i, x in enumerate(want.tolist()) if x != NEG]
        if len(fin) < n or not want.requires_grad:
            continue
        got = joint_mutual_information_recursion(
            px, py, None if bd is None else torch.tensor(bd))
        step()
        expect(got.shape == (N, n), 'shape', got.shape)
        wx, wy = [torch.zeros_like(z) if g is None else g for g, z in
                  zip(torch.autograd.grad(want.sum(), [sx, sy],
                                          allow_unused=True), (sx, sy))]
        for b in range(n):
            expect(near(got[:, b].sum(), want[b]), 'sum of the parts',
                   got[:, b].sum().item(), want[b].item(), case, bd)
            for k in range(1, N):
                w = (wx[b] * px[k][b]).sum() + (wy[b] * py[k][b]).sum()
                expect(near(got[k, b], w), 'part', k, got[k, b].item(),
                       'expected', w.item(), case, bd)
        for k in range(N):
            g = torch.autograd.grad(got.sum(), [px[k], py[k]],
                                    retain_graph=True, allow_unused=True)
            for a, w in zip(g, (wx, wy)):
                if a is None:
                    a = torch.zeros_like(w)
                expect(torch.allclose(a.double(), w, rtol=1e-3, atol=1e-4),
                       'gradient of part', k, a, w, case, bd)
        sig.append([round(x, 3) for x in want.tolist()])
    return sig


# ------------------------------------------------------------- simple / joint
def loss_cases(tier):
    for S, T in grids(tier):
        for typ in TYPES:
            for i, bd in enumerate(boundaries(S, T, typ)):
                if bd is None and typ != 'regular' and T < S:
                    continue
                yield [S, T, typ, bd, i]


def option(i, j):
    """rotating options: pattern, symbols, termination, penalty, reduction,
    dtype"""
    k = i * 3 + j
    return (k % 3, (k // 3) % 3, [0, C - 1][k % 2], [0., .4, 1.5][(k // 2) % 3],
            ('none', 'sum', 'mean')[(k // 4) % 3],
            [torch.float32, torch.float64][(k // 5) % 2])


def outcome(want):
    return [round(x, 2) for x in want.detach().reshape(-1).tolist()]


def check_simple(case):
    S, T, typ, bd, i = case
    n = len(bd) if bd else 2
    rs = bd or [[0, 0, S, T]] * n
    sig = []
    for j in range(6):
        pat, sp, term, pen, red, dt = option(i, j)
        lm = fill(pat, (n, S + 1, C), dt).requires_grad_()
        am = fill((pat + 1) % 3, (n, T, C), dt).requires_grad_()
        sy = syms(sp, n, S, term)
        rl = lm.detach().double().requires_grad_()
        ra = am.detach().double().requires_grad_()
        want = []
        for b in range(n):
            lp = torch.log_softmax(ra[b][:, None] + rl[b][None], -1)
            px, py = table(lp, sy[b], term, typ, rs[b], pen, T)
            want.append(-total(px, py, typ != 'regular', tuple(rs[b])))
        want = reduce_(torch.stack(want), red)
        sy = torch.tensor(sy, dtype=torch.int64).reshape(n, S)
        b = None if bd is None else torch.tensor(bd)
        got = k2.rnnt_loss_simple(lm, am, sy, term, b, typ, pen, red)
        step()
        ctx = ('simple', case, pat, sy.tolist(), term, pen, red)
        compare(got, want, [lm, am], [rl, ra], ctx)
        # the joint loss of the sum of both
        lg = (am.detach()[:, :, None] + lm.detach()[:, None]).requires_grad_()
        rg = lg.detach().double().requires_grad_()
        want = []
        for b2 in range(n):
            px, py = table(torch.log_softmax(rg[b2], -1), sy[b2].tolist(),
                           term, typ, rs[b2], pen, T)
            want.append(-total(px, py, typ != 'regular', tuple(rs[b2])))
        want = reduce_(torch.stack(want), red)
        got = k2.rnnt_loss(lg, sy, term, b, typ, pen, red)
        step()
        compare(got, want, [lg], [rg], ('joint',) + ctx)
        # occupation probabilities
        v, (gx, gy) = k2.rnnt_loss_simple(lm, am, sy, term, b, typ, pen, red,
                                          return_grad=True)
        expect(near(v.detach().sum(), k2.rnnt_loss_simple(
            lm, am, sy, term, b, typ, pen, red).detach().sum()),
            'return_grad changes the loss')
        px, py = get_rnnt_logprobs(lm.detach(), am.detach(), sy, term, typ, b)
        expect(gx.shape == px.shape and gy.shape == py.shape,
               'shape of occupations')
        for b2 in range(n):
            if math.isfinite(float(-torch.stack([total(*table(
                    torch.log_softmax(rg[b2], -1).detach(), sy[b2].tolist(),
                    term, typ, rs[b2], pen, T), typ != 'regular',
                    tuple(rs[b2]))]))):
                expect(near(gx[b2].sum(), rs[b2][2] - rs[b2][0], 1e-3),
                       'symbols emitted on average', gx[b2].sum().item(), ctx)
                nb = rs[b2][3] - rs[b2][1] - (
                    0 if typ == 'regular' else rs[b2][2] - rs[b2][0])
                expect(near(gy[b2].sum(), nb, 1e-3), 'blanks emitted on '
                       'average', gy[b2].sum().item(), nb, ctx)
        sig.append(outcome(want))
    return sig


def begin_cases(tier):
    for S, T in grids(tier):
        for typ in TYPES:
            rs = [r for r in rects(S, T, typ, True) if r[0] + r[1]]
            for i in range(0, len(rs)):
                yield [S, T, typ, [rs[i], rs[(3 * i + 1) % len(rs)]], i]


def check_begin(case):
    """rectangles that do not begin at (0, 0): no delay penalty"""
    S, T, typ, rs, i = case
    n = len(rs)
    sig = []
    for j in range(2):
        pat, sp, term, _, red, dt = option(i, j)
        lg = fill(pat, (n, T, S + 1, C), dt).requires_grad_()
        rg = lg.detach().double().requires_grad_()
        sy = syms(sp, n, S, term)
        want = []
        for b in range(n):
            px, py = table(torch.log_softmax(rg[b], -1), sy[b], term, typ,
                           rs[b], 0, T)
            want.append(-total(px, py, typ != 'regular', tuple(rs[b])))
        want = reduce_(torch.stack(want), red)
        got = k2.rnnt_loss(lg, torch.tensor(sy, dtype=torch.int64)
                           .reshape(n, S), term, torch.tensor(rs), typ, 0.,
                           red)
        step()
        compare(got, want, [lg], [rg], ('joint', case, pat, sy, term, red))
        sig.append(outcome(want))
    return sig


# ------------------------------------------------------------------- smoothed
SCALES = [(0., 0.), (.1, .1), (.25, 0.), (0., .5), (.6, .4), (1., 0.), (0., 1.)]


def check_smoothed(case):
    S, T, typ, bd, i = case
    n = len(bd) if bd else 2
    rs = bd or [[0, 0, S, T]] * n
    sig = []
    for j in range(4):
        pat, sp, term, pen, red, dt = option(i, j)
        ls, as_ = SCALES[(i + 2 * j) % len(SCALES)]
        lm = fill(pat, (n, S + 1, C), dt).requires_grad_()
        am = fill((pat + 1) % 3, (n, T, C), dt).requires_grad_()
        sy = syms(sp, n, S, term)
        rl = lm.detach().double().requires_grad_()
        ra = am.detach().double().requires_grad_()
        # average distribution of the prediction network over all histories
        uni = torch.softmax(rl, -1).mean((0, 1)).log()
        want = []
        for b in range(n):
            comb = torch.log_softmax(ra[b][:, None] + rl[b][None], -1)
            lmo = torch.log_softmax(rl[b], -1)[None].expand(T, -1, -1)
            amo = torch.log_softmax(ra[b] + uni, -1)[:, None].expand(
                -1, S + 1, -1)
            lp = (1 - ls - as_) * comb + ls * lmo + as_ * amo
            px, py = table(lp, sy[b], term, typ, rs[b], pen, T)
            want.append(-total(px, py, typ != 'regular', tuple(rs[b])))
        want = reduce_(torch.stack(want), red)
        got = k2.rnnt_loss_smoothed(
            lm, am, torch.tensor(sy, dtype=torch.int64).reshape(n, S), term,
            ls, as_, None if bd is None else torch.tensor(bd), typ, pen, red)
        step()
        compare(got, want, [lm, am], [rl, ra],
                ('smoothed', case, pat, sy, term, pen, red, ls, as_))
        sig.append(outcome(want))
    return sig


# --------------------------------------------------------------------- pruned
def starts(T, hi, stride, first=True):
    """all begin positions of a pruning range: 0 at the first frame, steps
    of less than stride, never beyond hi"""
    def rec(p):
        if len(p) == T:
            yield p
            return
        for d in range(stride):
            if p[-1] + d <= hi:
                yield from rec(p + [p[-1] + d])
    yield from rec([0])


def prune_cases(tier):
    for S, T in grids('quick' if tier == 'quick' else tier):
        for R in range(1, S + 2):
            for typ in TYPES:
                if typ != 'regular' and T < S:
                    continue
                ps = list(starts(T, S + 1 - R, R if typ == 'regular' else 2))
                for i in range(len(ps)):
                    yield [S, T, R, typ, ps[i], ps[(5 * i + 2) % len(ps)], i]


def hat_logp(lg):
    b = torch.nn.functional.logsigmoid(lg[..., :1])
    nb = torch.nn.functional.logsigmoid(-lg[..., :1])
    return torch.cat([b, nb + torch.log_softmax(lg[..., 1:], -1)], -1)


def check_prune(case):
    S, T, R, typ, p0, p1, i = case
    n = 2
    ps = [p0, p1]
    ranges = torch.tensor([[[p + r for r in range(R)] for p in x] for x in ps])
    sig = []
    rr = list(rects(S, T, typ))
    for j in range(4):
        pat, sp, term, pen, red, dt = option(i, j)
        hat = j == 3
        if hat:
            term = 0
        rs = [[0, 0, S, T], rr[(i + 5 * j) % len(rr)]]
        bd = None if j == 2 else torch.tensor(rs)
        if j == 2:
            rs[1] = rs[0]
        sy = syms(sp if not hat else sp % 2, n, S, term)
        full = fill(pat, (n, T, S + 1, C), dt)
        lg = torch.gather(full, 2, ranges[..., None].expand(n, T, R, C)) \
            .clone().requires_grad_()
        rg = lg.detach().double().requires_grad_()
        want = []
        for b in range(n):
            lp = hat_logp(rg[b]) if hat else torch.log_softmax(rg[b], -1)
            z = torch.full((C,), NEG, dtype=torch.float64)
            tab = [[lp[t][s - ps[b][t]] if 0 <= s - ps[b][t] < R else z
                    for s in range(S + 1)] for t in range(T)]
            px, py = table(tab, sy[b], term, typ, rs[b], pen, T)
            want.append(-total(px, py, typ != 'regular', tuple(rs[b])))
        want = reduce_(torch.stack(want), red)
        st = torch.tensor(sy, dtype=torch.int64).reshape(n, S)
        keep = lg.detach().clone()
        got = k2.rnnt_loss_pruned(lg, st, ranges, term, bd, typ, pen, red,
                                  use_hat_loss=hat)
        step()
        expect(torch.equal(keep, lg.detach()), 'logits were modified')
        ctx = ('pruned', case, pat, sy, term, pen, red, 'hat', hat, rs)
        if torch.isfinite(want).any():
            compare(got, want, [lg], [rg], ctx)
        else:
            compare(got.detach(), want.detach(), [], [], ctx)
        if R == S + 1 and not hat:
            whole = k2.rnnt_loss(full, st, term, bd, typ, pen, red)
            expect(torch.allclose(got.detach(), whole, rtol=1e-4, atol=1e-4),
                   'a range over everything changes the loss', got, whole, ctx)
        sig.append(outcome(want))
    # do_rnnt_pruning
    am, lm = fill(0, (n, T, 2)), fill(1, (n, S + 1, 4))
    a, l = k2.do_rnnt_pruning(am, lm, ranges)
    expect(a.shape == (n, T, R, 2) and l.shape == (n, T, R, 4), 'shapes',
           a.shape, l.shape)
    for b in range(n):
        for t in range(T):
            for r in range(R):
                expect(torch.equal(a[b, t, r], am[b, t]) and
                       torch.equal(l[b, t, r], lm[b, ranges[b, t, r]]),
                       'do_rnnt_pruning', (b, t, r), case)
    return sig


# --------------------------------------------------------------- prune ranges
def judge_ranges(rg, S, T, R, regular, bd, ctx, typs):
    """the promises of get_rnnt_prune_ranges"""
    n = len(bd)
    expect(rg.dim() == 3 and rg.shape[:2] == (n, T), 'shape', rg.shape, *ctx)
    R2 = rg.shape[2]
    # documented adjustments of the width
    if regular:
        # a state can only be left on its own frame: the least width with
        # (width - 1) * frames >= symbols
        need = max(max(-(-b[2] // b[3]) + 1 for b in bd), 1)
        lo = max(R, need)
    else:
        lo = R
    expect(min(R, S + 1) <= R2 <= S + 1, 'width', R2, 'for', R, *ctx)
    if R >= lo and R <= S:
        expect(R2 == R, 'width', R2, 'for', R, *ctx)
    for b, x in enumerate(rg.tolist()):
        for row in x:
            expect(row == list(range(row[0], row[0] + R2)),
                   'not consecutive', row, *ctx)
            expect(0 <= row[0] and row[-1] <= S, 'out of bounds', row, *ctx)
        st = [row[0] for row in x]
        expect(st[0] == 0, 'does not start at 0', st, *ctx)
        lim = R2 if regular else 2
        for u, v in zip(st, st[1:]):
            expect(0 <= v - u < lim, 'step', u, v, 'of', st, *ctx)
        # a complete path survives
        for typ in typs:
            if typ == 'constrained' and R2 == 1 and bd[b][2] > 0:
                continue    # emitting needs both contexts on one frame
            expect(survives(st, R2, typ, bd[b], T), 'no complete', typ,
                   'path survives', st, bd[b], *ctx)


def survives(st, R, typ, bd, T):
    se, te = bd[2], bd[3]
    seen, todo = {(0, 0)}, [(0, 0)]
    while todo:
        s, t = todo.pop()
        if (s, t) == (se, te):
            return True
        if t >= te or not st[t] <= s < st[t] + R:
            continue
        nx = [(s, t + 1)]
        if s < se:
            if typ == 'regular':
                nx.append((s + 1, t))
            elif typ == 'modified' or s + 1 < st[t] + R:
                nx.append((s + 1, t + 1))
        for q in nx:
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return False


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def range_cases(tier):
    for S, T in grids(tier):
        for typ in TYPES:
            for i, bd in enumerate(boundaries(S, T, typ)):
                if bd is None or typ != 'regular' and T < S:
                    continue
                yield [S, T, typ, bd, i]


def check_ranges(case):
    S, T, typ, bd, i = case
    n = len(bd)
    sig = []
    b = torch.tensor(bd)
    for j in range(4):
        pat, sp, term, pen, red, dt = option(i, j)
        lm = fill(pat, (n, S + 1, C), dt)
        am = fill((pat + j) % 3, (n, T, C), dt)
        sy = torch.tensor(syms(sp, n, S, term), dtype=torch.int64)
        _, (gx, gy) = k2.rnnt_loss_simple(lm, am, sy, term, b, typ, pen,
                                          'none', return_grad=True)
        for R in range(2 if typ == 'regular' else 1, S + 3):
            rg = quiet(k2.get_rnnt_prune_ranges, gx, gy, b, R)
            step()
            judge_ranges(rg, S, T, R, typ == 'regular', bd,
                         (case, pat, R), [typ])
            # the surviving paths have a finite loss that is no better than
            # the complete one
            if typ == 'constrained' and rg.shape[2] == 1:
                continue
            ap, lp = k2.do_rnnt_pruning(am, lm, rg)
            full = k2.rnnt_loss_simple(lm, am, sy, term, b, typ, 0., 'none')
            got = k2.rnnt_loss_pruned(ap + lp, sy, rg, term, b, typ, 0.,
                                      'none')
            expect(torch.isfinite(got).all(), 'no finite pruned loss', got,
                   case, R)
            expect((got >= full - 1e-3).all(), 'pruned loss', got,
                   'below the complete', full, case, R)
            if rg.shape[2] == S + 1:
                expect(torch.allclose(got, full, rtol=1e-3, atol=1e-3),
                       'complete range', got, full, case, R)
            sig.append([x[0][0] + 10 * x[-1][0] for x in rg.tolist()])
    return sig


def adv_cases(tier):
    for S in range(1, 4 if tier == 'quick' else 5):
        for T in range(1, 5 if tier == 'quick' else 6):
            for R in range(1, S + 1):
                for reg in (0, 1):
                    if reg and R < 2 or not reg and T < S:
                        continue
                    tot = (S + 2 - R) ** T
                    for b, e in chunks(tot, 64):
                        yield [S, T, R, reg, b, e]


def check_adv(case):
    """occupations that ask for any sequence of ranges whatsoever"""
    S, T, R, reg, b0, e0 = case
    n = S + 2 - R
    sig = []
    for x in range(b0, e0):
        want = [(x // n ** t) % n for t in range(T)]
        gy = torch.zeros((2, S + 1, T))
        for t, s in enumerate(want):
            gy[0, s + R - 1, t] = 1.0
            gy[1, s, t] = 1.0
        gx = torch.zeros((2, S, T + reg))
        te = 1 + x % T
        bd = [[0, 0, S, T], [0, 0, min(S, te), te]]
        rg = quiet(k2.get_rnnt_prune_ranges, gx, gy, torch.tensor(bd), R)
        step()
        judge_ranges(rg, S, T, R, reg, bd, (case, want),
                     ['regular'] if reg else ['modified', 'constrained'])
        sig.append(rg[0, :, 0].tolist())
    return sig


# -------------------------------------------------------------------- lattice
def lat_cases(tier):
    """streams: (ranges, frames): every admissible sequence of ranges next to
    a rotated one of fewer frames"""
    for T in range(1, 6 if tier == 'quick' else 7):
        for S in range(0, 6 if tier == 'quick' else 7):
            for R in range(1 if S == 0 else 2, S + 2):
                ps = [p for p in starts(T, S + 1 - R, R)]
                for i in range(len(ps)):
                    yield [T, S, R, ps[i], ps[(3 * i + 1) % len(ps)], i]


def check_lattice(case):
    T, S, R, p0, p1, i = case
    ps = [p0, p1]
    sig = []
    for fr in ([T, T], [T, 1 + i % T], [1 + i % T, T]):
        for pat in range(2):
            dt = [torch.float32, torch.float64, torch.float16][(i + pat) % 3]
            rg = torch.tensor([[[s + r for r in range(R)] for s in p]
                               for p in ps], dtype=torch.int32)
            sy = [[1 + (s * (b + 1) + b + pat * s) % (C - 1)
                   for s in range(max(S, 1))] for b in range(2)]
            lg = torch.stack([fill(pat, (T, R, C)), fill(1 - pat, (T, R, C))
                              - .25]).to(dt)
            strided = lg.permute(3, 1, 0, 2).contiguous().permute(2, 1, 3, 0)
            base = None
            for form in (lg, strided):
                fr_t = torch.tensor(fr, dtype=torch.int32)
                sy_t = torch.tensor(sy, dtype=torch.int64)
                r_t = rg
                if form is strided:
                    sy_t = sy_t.t().contiguous().t()
                    r_t = rg.permute(2, 0, 1).contiguous().permute(1, 2, 0)
                arcs, amap = k2.pruned_ranges_to_lattice(r_t, fr_t, sy_t,
                                                         form)
                step()
                lat = k2.Fsa(arcs)
                check_validity(lat, 'pruned_ranges_to_lattice')
                flat = lg.reshape(-1).float()
                am = amap.tolist()
                expect(len(am) == lat.num_arcs, 'length of the arc map')
                for k, (m, sc, l) in enumerate(zip(
                        am, lat.scores.tolist(), lat.labels.tolist())):
                    expect((m == -1) == (l == -1), 'arc map', m, 'of label', l)
                    expect(sc == (0. if m < 0 else flat[m].item()), 'score',
                           sc, 'of arc', k, 'differs from the mapped logit',
                           'strided' if form is strided else '', case, fr)
                    expect(m < 0 or m % C == l, 'mapped label', m % C, l)
                for b, r in enumerate(read(lat)):
                    want = lat_paths(ps[b], R, fr[b], sy[b], lg[b])
                    got = ref_paths(r)
                    expect(want.keys() == got.keys(), 'paths of stream', b,
                           sorted(got), 'expected', sorted(want), case, fr)
                    for x in want:
                        expect(all(near(u, v, 1e-3) for u, v in zip(
                            sorted(want[x]), sorted(got[x]))), 'scores of', x,
                            got[x], 'expected', want[x], case, fr)
                    tot = math.log(sum(math.exp(v) for x in want.values()
                                       for v in x))
                    z = lat.get_tot_scores(True, True)[b].item()
                    expect(near(z, tot, 1e-3), 'total', z, tot, case, fr)
                    if form is lg:
                        sig.append(round(tot, 2))
    return sig


def lat_paths(st, R, frames, sym, lg):
    """label sequence -> scores of all paths, from the definition: a state is
    (frame, symbols emitted) within the range of the frame"""
    out = {}

    def rec(t, s, labs, sc):
        if t == frames - 1 and s == st[t] + R - 1:
            out.setdefault(tuple(labs) + (-1,), []).append(sc)
            return
        r = s - st[t]
        if r < R - 1:
            y = sym[s]
            rec(t, s + 1, labs + [y], sc + lg[t, r, y].item())
        if t + 1 < frames and st[t + 1] <= s < st[t + 1] + R:
            rec(t + 1, s, labs + [0], sc + lg[t, r, 0].item())
    rec(0, 0, [], 0.)
    return out


def ref_paths(r):
    out, leave = {}, {}
    for s, d, l, sc in r.arcs:
        leave.setdefault(s, []).append((d, l, sc))

    def rec(s, labs, acc):
        if s == r.n - 1:
            out.setdefault(tuple(labs), []).append(acc)
        for d, l, sc in leave.get(s, []):
            rec(d, labs + [l], acc + sc)
    rec(0, [], 0.)
    return out


FAMILIES = [
    Family('recursion', rec_cases, check_rec,
           'every grid S<=3(4), T<=4(5), both recursions, every boundary '
           'rectangle (each also next to another one), 3 value patterns with '
           'minus infinity, both precisions, contiguous and not; values, '
           'gradients and returned occupations'),
    Family('joint_recursion', joint_rec_cases, check_joint_rec,
           'the same grids and rectangles with 1..3 score components'),
    Family('simple_and_joint', loss_cases, check_simple,
           'every grid, type and end rectangle (alone, next to the complete '
           'one, in triples) x 6 rotating combinations of scores, symbols, '
           'termination symbol, penalty, reduction and precision; values and '
           'gradients of all inputs'),
    Family('begin', begin_cases, check_begin,
           'every rectangle that does not begin at (0,0), in pairs'),
    Family('smoothed', loss_cases, check_smoothed,
           'as simple_and_joint with a grid of interpolation scales'),
    Family('pruned', prune_cases, check_prune,
           'every admissible sequence of pruning ranges of every width on '
           'every grid, 3 types, softmax and HAT normalisation'),
    Family('prune_ranges', range_cases, check_ranges,
           'ranges from real occupations: every grid, type, rectangle and '
           'width; the promises, a surviving complete path, a finite loss'),
    Family('adversarial_ranges', adv_cases, check_adv,
           'occupations that ask for every possible sequence of ranges'),
    Family('lattice', lat_cases, check_lattice,
           'pruned_ranges_to_lattice: every admissible sequence of ranges of '
           'every grid T<=5(6), S<=5(6) and every width, two streams of equal '
           'and different numbers of frames, 3 precisions, contiguous and '
           'not: paths, scores, total and arc map against the definition'),
]
ASSUMPTIONS = [
    'CPU only, float32 and float64',
    'the delay penalty is defined for rectangles that begin at frame 0',
    'with a non-regular type the boundary has at least as many frames as '
    'symbols (others are refused)',
    'constrained lattices with a range of width 1 have no path and are only '
    'compared as such',
]
