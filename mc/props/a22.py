"""A22: the swoosh activations equal their formulas on every input."""
import math

import k2
import torch
from mc.core import Family, expect, step

F32, F64, F16, BF16 = (torch.float32, torch.float64, torch.float16,
                       torch.bfloat16)
KINDS = {'l': (4.0, 0.035), 'r': (1.0, 0.313261687)}
COEFF = 0.08
# the derivative is kept in 8 bits: 256 levels over a range of 1.005, rounded
# up or down at random
LEVEL = 1.005 / 255
CHUNK = 4096


def truth(kind, x):
    """value and derivative in double precision"""
    shift, off = KINDS[kind]
    x = x.double()
    z = x - shift
    soft = torch.log1p(torch.exp(-z.abs())) + z.clamp(min=0)
    return soft - COEFF * x - off, torch.sigmoid(z) - COEFF


def api(kind):
    return (getattr(k2, 'swoosh_' + kind),
            getattr(k2, f'swoosh_{kind}_forward'),
            getattr(k2, f'swoosh_{kind}_forward_and_deriv'))


def patterns(fmt, b, e):
    """the values of the 16-bit patterns b..e-1"""
    i = torch.arange(b, e, dtype=torch.int32)
    i = torch.where(i >= 32768, i - 65536, i).to(torch.int16)
    return i.view(F16 if fmt == 'half' else BF16)


def same(got, want, x, what):
    expect(got.dtype == F32 and got.shape == want.shape, what, 'type',
           got.dtype, got.shape)
    g, w = got.double(), want
    # float32: the terms are as large as x
    tol = 1e-6 + 4e-7 * (x.double().abs() + w.abs())
    odd = ~torch.isfinite(w) | (w.abs() > 3e38)
    # an infinite argument has no useful value: nan or infinity
    bad = torch.where(odd, torch.isfinite(g) & ~torch.isfinite(w),
                      ~((g - w).abs() <= tol))
    if bad.any():
        i = int(bad.reshape(-1).nonzero()[0])
        expect(False, what, 'of', x.reshape(-1)[i].item(), 'is',
               got.reshape(-1)[i].item(), 'expected',
               want.reshape(-1)[i].item())


def value_cases(tier):
    for kind in KINDS:
        for fmt in ('half', 'bfloat'):
            for b in range(0, 65536, CHUNK):
                yield [kind, fmt, b, b + CHUNK]


def check_value(case):
    kind, fmt, b, e = case
    raw = patterns(fmt, b, e)
    f, fwd, both = api(kind)
    for x in (raw, raw.float(), raw.double()):
        keep = x.clone()
        y, d = truth(kind, x.float())
        same(f(x), y, x, 'value without gradient')
        same(f(x, 0.5), y, x, 'value without gradient, dropout ignored')
        same(fwd(x), y, x, 'forward')
        yy, dd = both(x)
        same(yy, y, x, 'forward_and_deriv')
        fin = torch.isfinite(x.double())
        same(dd[fin], d[fin], torch.zeros_like(d[fin]), 'derivative')
        v = x.clone().requires_grad_()
        same(f(v).detach(), y, x, 'value with gradient')
        step(6)
        expect(torch.equal(x[fin], keep[fin]), 'input changed')
    return [round(t, 3) for t in truth(kind, raw.float())[0][::509].tolist()]


def grad_cases(tier):
    ps = [0.0, 0.1, 0.25, 0.5, 0.9, 1.0]
    for kind in KINDS:
        for fmt in ('half', 'bfloat'):
            for p in ps:
                for b in range(0, 65536, CHUNK):
                    for seed in range(1 if tier == 'quick' else 8):
                        yield [kind, fmt, p, b, b + CHUNK, seed]


def check_grad(case):
    kind, fmt, p, b, e, seed = case
    raw = patterns(fmt, b, e)
    f = api(kind)[0]
    raw = raw[torch.isfinite(raw.float())]
    if not len(raw):
        return 0
    dt = [F32, F64, raw.dtype][(b // CHUNK + seed) % 3]
    x = raw.to(dt).requires_grad_()
    y, d = truth(kind, x.detach().float())
    torch.manual_seed(1000 * seed + b)
    got = f(x, p)
    torch.manual_seed(1000 * seed + b)
    again = f(x, p)
    expect(torch.equal(got, again), 'not reproducible')
    w = torch.tensor([1.0, -2.0, 0.0, 0.5]).repeat(len(raw))[:len(raw)]
    g, = torch.autograd.grad(got, x, w)
    g2, = torch.autograd.grad(again, x, w)
    step(2)
    expect(torch.equal(g, g2), 'gradient not reproducible')
    expect(g.dtype == dt and g.shape == x.shape, 'type of the gradient')
    got = got.detach()
    zero = got == 0
    keep = ~zero
    sc = 1 / (1 - p) if p < 1 else 0.
    same(got[keep], y[keep] * sc, x.detach()[keep] * sc, 'kept value')
    if p == 0:
        expect((zero <= (y.abs() < 1e-6)).all(), 'values dropped')
    if p == 1:
        expect(zero.all(), 'values kept')
        expect((g == 0).all(), 'gradient of dropped values')
        return 'all dropped'
    n = int((y.abs() > 1e-6).sum())     # others may be zero anyway
    k = int((zero & (y.abs() > 1e-6)).sum())
    expect(abs(k - n * p) <= 6 * math.sqrt(n * p * (1 - p)) + 2, k, 'of', n,
           'values dropped with probability', p)
    want = torch.where(zero & (y.abs() > 1e-6), torch.zeros_like(d), d) \
        * w.double() * sc
    tol = LEVEL * w.abs().double() * sc * 1.001 + 1e-6
    if dt not in (F32, F64):
        tol = tol + want.abs() * (2e-3 if dt == F16 else 1e-2)
    # a value of zero does not tell whether it was dropped
    vague = (y.abs() <= 1e-6) & (p > 0)
    bad = ((g.double() - want).abs() > tol) & ~vague
    if bad.any():
        i = int(bad.nonzero()[0])
        expect(False, 'gradient at', x[i].item(), 'is', g[i].item(),
               'expected', want[i].item(), 'within', tol[i].item(),
               'dropped' if zero[i] else 'kept', case)
    # rounding is unbiased on average over the inputs
    fin = (w != 0) & ~vague
    m = int(fin.sum())
    if m:
        # a level is hit or missed: the deviation of one is at most 1/2
        bias = ((g.double() - want)[fin] / (w[fin].double() * sc)).mean()
        expect(abs(bias) < LEVEL * 3.5 / math.sqrt(m) + 1e-6 + 1e-2
               * (dt not in (F32, F64)), 'biased gradient', bias)
    return [k, round(float(want.sum()), 1)]


def shape_cases(tier):
    for kind in KINDS:
        for shape in ([], [0], [1], [5], [2, 3], [3, 0, 2], [4, 5, 6],
                      [1, 1, 1, 7]):
            for perm in range(max(1, math.factorial(min(len(shape), 3)))):
                for p in (0.0, 0.5):
                    yield [kind, shape, perm, p]


def check_shape(case):
    import itertools
    kind, shape, perm, p = case
    f, fwd, both = api(kind)
    n = math.prod(shape)
    base = (torch.arange(n, dtype=F32) - n / 2 + .3).reshape(shape)
    order = list(itertools.permutations(range(min(len(shape), 3))))[perm]
    order = list(order) + list(range(len(order), len(shape)))
    x = base.permute(order)
    views = [x]
    if shape and shape[0] > 1:
        views.append(base[::2])
        views.append(base.expand([2] + shape))
    for v in views:
        y, d = truth(kind, v)
        same(f(v, p), y, v, 'value')
        same(fwd(v), y, v, 'forward')
        a, b = both(v)
        same(a, y, v, 'forward_and_deriv')
        same(b, d, v * 0, 'derivative')
        leaf = v.detach().requires_grad_()
        for q in (leaf, leaf * 1.0):        # leaf and inner node
            torch.manual_seed(7)
            out = f(q, p)
            step()
            sc = 1 / (1 - p)
            zero = out.detach() == 0
            same(torch.where(zero, 0., out.detach()),
                 torch.where(zero, 0., y * sc), v * sc, 'value with gradient')
            # a gradient that is not contiguous
            w = torch.linspace(-1, 1, max(v.numel(), 1))[:v.numel()] \
                .reshape(list(v.shape)[::-1]).permute(
                    list(reversed(range(v.dim()))))
            g, = torch.autograd.grad(out, q, w)
            expect(g.shape == v.shape, 'shape of the gradient')
            want = torch.where(zero & (y.abs() > 1e-6), 0. * d, d) * w * sc
            expect(((g.double() - want).abs() <= LEVEL * w.abs() * sc * 1.001
                    + 1e-6).all(), 'gradient', case)
    return [round(float(truth(kind, x)[0].sum()), 2)]


FAMILIES = [
    Family('values', value_cases, check_value,
           'every 16-bit floating point pattern (both formats; also widened '
           'to single and double precision) through all six functions, '
           'against the formula in double precision'),
    Family('gradients', grad_cases, check_grad,
           'every 16-bit pattern x dropout probabilities 0..1: kept values '
           'are scaled, dropped are zero, gradients are within one of 256 '
           'levels of the derivative, reproducible, unbiased'),
    Family('shapes', shape_cases, check_shape,
           'shapes with 0..4 axes, empty ones, every permutation of three '
           'axes, strided and expanded views, leaves and inner nodes'),
]
ASSUMPTIONS = [
    'CPU only; single precision inputs that are not 16-bit patterns are not '
    'enumerated',
    'which elements are dropped is decided by torch\'s random generator; '
    'the seeds listed in the cases are explored',
]
