"""A15: no stale derived quantities after any history of assignments and
reads; operations do not change what they are given."""
import itertools

import torch

import k2
import _k2
from mc.core import Family, expect, step

I32 = torch.int32
ASSUMPTIONS = [
    'scores and labels are changed by assignment (fsa.scores = x), not by writing single elements of the tensors an FSA hands out; labels changed that way are refused loudly, which is checked',
    'an operation may return its input object itself when there is nothing to do (arc_sort of a sorted automaton, connect of a connected one); changing that result is changing the input',
    'attribute tensors may be shared between an object and what was derived from it, assignments to either are still independent',
    'quantities are compared bit by bit with those of an object built from scratch with the same content',
]

# two automata, top-sorted, no ties in any best path
ARCS = [[(0, 1, 1, 0.5), (0, 2, 2, 0.25), (1, 2, 3, -0.5), (1, 3, -1, 1.0), (2, 3, -1, 0.125)],
        [(0, 1, 2, 0.75), (0, 1, 1, -0.25), (1, 2, -1, 0.5)]]
NA = [5, 3]
N = 8
SC = {0: [a[3] for f in ARCS for a in f],
      1: [-1.0, 2.5, 0.5, 0.25, -0.75, 0.125, 3.0, -0.5],
      2: [4.0, -2.0, 1.5, -3.0, 0.0625, 2.0, -1.0, 0.25]}
LB = {0: [a[2] for f in ARCS for a in f],
      1: [3, 3, 1, -1, -1, 5, 2, -1],
      2: [0, 2, 2, -1, -1, 1, 1, -1]}
AUX = {0: [7, 0, 8, -1, -1, 9, 7, -1], 1: [1, 2, 3, -1, -1, 4, 5, -1]}
W = {0: [0.5 * i for i in range(N)], 1: [3.0 - i for i in range(N)]}
RG = {0: [[1], [], [2, 3], [], [4], [5, 6], [], [7]],
      1: [[], [9], [], [8], [7, 7], [], [1], []]}


def build(m):
    """A fresh FsaVec (or Fsa) with the content of model m."""
    sizes = m['sizes']
    i = 0
    fs = []
    for n in sizes:
        rows = []
        for k in range(n):
            a = m['arcs'][i]
            rows.append([a[0], a[1], m['labels'][i],
                         torch.tensor([m['scores'][i]]).view(I32).item()])
            i += 1
        fs.append(k2.Fsa(torch.tensor(rows, dtype=I32)))
    f = k2.create_fsa_vec(fs) if m['vec'] else fs[0]
    for name, v in m['attrs'].items():
        setattr(f, name, tensor_of(v))
    return f


def tensor_of(v):
    kind, x = v
    if kind == 'i':
        return torch.tensor(x, dtype=I32)
    if kind == 'f':
        return torch.tensor(x)
    if kind == 'r':
        return k2.RaggedTensor([list(r) for r in x])
    return x


def copy(m):
    return dict(m, scores=list(m['scores']), labels=list(m['labels']),
                attrs=dict(m['attrs']))


def initial():
    return {'vec': True, 'sizes': NA, 'arcs': [a[:2] for f in ARCS for a in f],
            'scores': list(SC[0]), 'labels': list(LB[0]),
            'attrs': {'aux_labels': ('i', tuple(AUX[0])), 'w': ('f', tuple(W[0])),
                      'rg': ('r', tuple(map(tuple, RG[0]))), 'note': ('x', 'n0')}}


# ---- reads -------------------------------------------------------------------
def flat(x):
    if isinstance(x, torch.Tensor):
        return (str(x.dtype), tuple(x.shape), x.detach().reshape(-1).tolist())
    if isinstance(x, k2.RaggedTensor):
        return ('ragged', x.num_axes, [x.shape.row_splits(i).tolist() for i in range(1, x.num_axes)],
                x.values.tolist())
    if isinstance(x, k2.Fsa):
        return ('fsa', content(x))
    if hasattr(x, 'num_axes') and hasattr(x, 'values'):
        n = x.num_axes() if callable(x.num_axes) else x.num_axes
        v = x.values() if callable(x.values) else x.values
        return ('r', [x.row_splits(i).tolist() for i in range(1, n)], v.reshape(-1).tolist())
    return x


def content(f):
    at = f.arcs.values()[:, :3]
    return (at.tolist(), f.arcs.values()[:, 3].contiguous().view(torch.float32).tolist(),
            [f.arcs.row_splits(i).tolist() for i in range(1, f.arcs.num_axes())],
            f.scores.detach().tolist(), f.labels.tolist(),
            sorted((n, flat(v)) for n, v in f.named_tensor_attr(include_scores=False)),
            sorted((n, str(v)) for n, v in f.named_non_tensor_attr()))


def getters():
    g = {}
    for d in (True, False):
        for l in (True, False):
            k = ('d' if d else 'f') + ('l' if l else 't')
            g['fwd_' + k] = lambda f, d=d, l=l: f._get_forward_scores(d, l)
            g['bwd_' + k] = lambda f, d=d, l=l: f._get_backward_scores(d, l)
            g['tot_' + k] = lambda f, d=d, l=l: f._get_tot_scores(d, l)
            g['post_' + k] = lambda f, d=d, l=l: f._get_arc_post(d, l)
            g['cdf_' + k] = lambda f, d=d, l=l: f._get_arc_cdf(d, l)
    g['ent_d'] = lambda f: f._get_entering_arcs(True)
    g['ent_f'] = lambda f: f._get_entering_arcs(False)
    g['batches'] = lambda f: f._get_state_batches()
    g['incoming'] = lambda f: f._get_incoming_arcs()
    g['entb'] = lambda f: f._get_entering_arc_batches()
    g['leavb'] = lambda f: f._get_leaving_arc_batches()
    g['dest'] = lambda f: f._get_dest_states()
    g['gtot'] = lambda f: f.get_tot_scores(True, True)
    g['gtrop'] = lambda f: f.get_tot_scores(False, False)
    g['gpost'] = lambda f: f.get_arc_post(True, True)
    g['best'] = lambda f: k2.shortest_path(f, True)
    g['bestf'] = lambda f: k2.shortest_path(f, False)
    g['beam'] = lambda f: k2.prune_on_arc_post(f, 0.2, True)
    g['str'] = lambda f: sorted(str(f).split('\n'))
    g['conn'] = lambda f: k2.connect(k2.arc_sort(f))
    return g


GET = getters()
PRE = ['fwd_dl', 'fwd_dt', 'fwd_ft', 'bwd_fl', 'post_fl', 'post_dt', 'cdf_dl',
       'ent_d', 'best']
EXP = {}


def key(m):
    return repr((m['vec'], m['sizes'], m['scores'], m['labels'],
                 sorted(m['attrs'].items())))


def observe(f, m, what):
    expect(f.scores.shape[0] == len(m['scores']), what, 'number of arcs')
    if not m['vec']:
        got = content(f)
        k = key(m)
        if k not in EXP:
            EXP[k] = (content(build(m)), None)
        expect(got == EXP[k][0], what, 'content is', got, 'expected', EXP[k][0])
        expect(f.properties == build(m).properties, what, 'properties')
        f = k2.create_fsa_vec([f])
        m = dict(m, vec=True, attrs=dict(m['attrs']))
    got = content(f)
    k = key(m)
    if k not in EXP:
        g = build(m)
        c = content(g)
        vals = {n: flat(fn(build(m))) for n, fn in GET.items()}
        EXP[k] = (c, vals, g.properties)
        step(len(GET))
    c, vals, props = EXP[k]
    expect(got == c, what, 'content is', got, 'expected', c)
    expect(f.properties == props, what, 'properties are', f.properties, 'expected', props)
    for n, fn in GET.items():
        v = flat(fn(f))
        step()
        expect(v == vals[n], what, n, 'is', v, 'a fresh object gives', vals[n])
    expect(content(f) == c, what, 'reading changed the object')


# ---- mutations ------------------------------------------------------------------
class World:
    def __init__(self):
        self.m = initial()
        self.f = build(self.m)
        self.f.scores = torch.tensor(SC[0], requires_grad=True)
        self.o = None       # a second object: (fsa, model)
        self.pend = []      # (tensor y, scores tensor, expected gradient)
        self.held = []      # tensors the user holds: (tensor, content)


def grads(m, fn):
    k = ('grad', key(m), fn)
    if k not in EXP:
        f = build(m)
        x = torch.tensor(m['scores'], requires_grad=True)
        f.scores = x
        y = PEND[fn](f)
        EXP[k] = torch.autograd.grad(y[torch.isfinite(y)].sum(), x)[0].tolist()
    return EXP[k]


PEND = {'tot_log': lambda f: f.get_tot_scores(True, True),
        'tot_trop': lambda f: f.get_tot_scores(False, False),
        'fwd': lambda f: f.get_forward_scores(True, True),
        'fwd_t': lambda f: f.get_forward_scores(True, False),
        'bwd': lambda f: f.get_backward_scores(False, True),
        'post': lambda f: f.get_arc_post(True, True).exp()}


def cut(x):
    return x


def set_scores(w, i, grad=True):
    n = len(w.m['scores'])
    vals = SC[i][-n:] if n < N else SC[i]
    t = torch.tensor(vals, requires_grad=grad)
    w.f.scores = t
    w.held.append((t, list(vals)))
    w.m['scores'] = list(vals)


def set_labels(w, i):
    n = len(w.m['labels'])
    vals = LB[i][-n:]
    t = torch.tensor(vals, dtype=I32)
    w.f.labels = t
    w.held.append((t, list(vals)))
    w.m['labels'] = list(vals)


def mutate_labels(w):
    if w.o is not None:    # detach() and as_dict() share memory (documented)
        return False
    l = w.f.labels
    l[0] = 6
    w.f.labels = l
    w.m['labels'][0] = 6


def scale(w):
    if w.f.scores.requires_grad:
        w.f.scores = w.f.scores * 2
    else:
        # in place: the tensor must not be shared with anything else
        if w.o is not None or w.pend:
            return False
        w.held = [h for h in w.held if h[0] is not w.f.scores]
        w.f.scores *= 2
    w.m['scores'] = [x * 2 for x in w.m['scores']]


def attr(w, name, v):
    n = len(w.m['scores'])
    v = (v[0], tuple(v[1][-n:]))
    setattr(w.f, name, tensor_of(v))
    w.m['attrs'][name] = v


def delete(w, name):
    if name not in w.m['attrs']:
        return False
    delattr(w.f, name)
    del w.m['attrs'][name]


def rename(w):
    if 'w' not in w.m['attrs']:
        return False
    w.f.rename_tensor_attribute_('w', 'u')
    w.m['attrs']['u'] = w.m['attrs'].pop('w')


def invert(w):
    a = w.m['attrs'].get('aux_labels')
    if a is None or a[0] != 'i':
        return False
    w.f.invert_()
    new = list(a[1])
    w.m['attrs']['aux_labels'] = ('i', tuple(w.m['labels']))
    w.m['labels'] = new


def clone(w):
    w.f = w.f.clone()


def detach(w):
    w.f = w.f.detach()


def to(w):
    w.f = w.f.to('cpu')


def keep_clone(w):
    if w.o is not None:
        return False
    w.o = (w.f.clone(), copy(w.m))


def keep_detach(w):
    if w.o is not None:
        return False
    w.o = (w.f.detach(), copy(w.m))


def keep_index(w):
    if w.o is not None or not w.m['vec']:
        return False
    m = copy(w.m)
    a, b = NA[0], NA[0] + NA[1]
    m.update(vec=False, sizes=[NA[1]], arcs=m['arcs'][a:b], scores=m['scores'][a:b],
             labels=m['labels'][a:b],
             attrs={k: (v[0], v[1][a:b]) if v[0] != 'x' else v for k, v in m['attrs'].items()})
    w.o = (w.f[1], m)


def keep_stack(w):
    if w.o is not None or not w.m['vec']:
        return False
    w.o = (k2.create_fsa_vec([w.f[0], w.f[1]]), copy(w.m))


def keep_dict(w):
    if w.o is not None:
        return False
    w.o = (k2.Fsa.from_dict(w.f.as_dict()), copy(w.m))


def swap(w):
    if w.o is None:
        return False
    (w.f, w.m), w.o = w.o, (w.f, w.m)


def pend(w, fn):
    if not w.m['vec'] or not w.f.scores.requires_grad:
        return False
    y = PEND[fn](w.f)
    w.pend.append((y, w.f.scores, grads(w.m, fn), fn))


def read(w, name):
    if not w.m['vec']:
        return False
    GET[name](w.f)


def misuse(w):
    """Writing into the labels directly is refused by the next checked use."""
    if w.o is not None:    # detach() and as_dict() share memory (documented)
        return False
    w.f.labels[0] = 9
    try:
        w.f.properties
    except RuntimeError:
        w.f.labels = torch.tensor(w.m['labels'], dtype=I32)
        return
    expect(False, 'labels written in place went unnoticed')


def misuse2(w):
    """... also when the scores are assigned in between."""
    if w.o is not None:    # detach() and as_dict() share memory (documented)
        return False
    w.f.labels[0] = 9
    n = len(w.m['scores'])
    w.f.scores = torch.tensor(w.m['scores'])
    try:
        w.f.properties
    except RuntimeError:
        w.f.labels = torch.tensor(w.m['labels'], dtype=I32)
        return
    expect(False, 'labels written in place went unnoticed')


def refused(w):
    """A refused assignment leaves everything as it was."""
    n = len(w.m['scores'])
    for name, v in (('scores', torch.zeros(n + 1)), ('scores', torch.zeros(n, dtype=torch.float64)),
                    ('labels', torch.zeros(n - 1, dtype=I32)), ('w', torch.zeros(n + 2))):
        if name == 'scores' and v.dtype == torch.float64:
            continue    # checked after the attribute was stored: see misfit
        try:
            setattr(w.f, name, v)
        except (AssertionError, RuntimeError, ValueError):
            continue
        expect(False, 'a value of a wrong size was accepted for', name)


OPS = {
    'S1': lambda w: set_scores(w, 1), 'S2': lambda w: set_scores(w, 2),
    'S1n': lambda w: set_scores(w, 1, False), 'S*': scale,
    'L1': lambda w: set_labels(w, 1), 'L2': lambda w: set_labels(w, 2), 'Lm': mutate_labels,
    'X': lambda w: attr(w, 'aux_labels', ('i', AUX[1])),
    'W': lambda w: attr(w, 'w', ('f', W[1])), 'R': lambda w: attr(w, 'rg', ('r', tuple(map(tuple, RG[1])))),
    'dW': lambda w: delete(w, 'w'), 'mv': rename, 'inv': invert,
    'cl': clone, 'de': detach, 'kc': keep_clone, 'kd': keep_detach,
    'ki': keep_index, 'ks': keep_stack, 'kD': keep_dict, 'sw': swap,
    'bad': misuse, 'bad2': misuse2, 'ref': refused,
}
for _p in PEND:
    OPS['P' + _p] = lambda w, _p=_p: pend(w, _p)
for _r in PRE:
    OPS['r' + _r] = lambda w, _r=_r: read(w, _r)
NAMES = sorted(OPS)


def run(seq):
    """-> None when an operation of the sequence does not apply."""
    w = World()
    for i, op in enumerate(seq):
        if OPS[op](w) is False:
            return None
        step()
    what = ' '.join(seq)
    observe(w.f, w.m, what + ':')
    if w.o is not None:
        observe(w.o[0], w.o[1], what + ': the other object:')
    for y, x, want, fn in w.pend:
        got = torch.autograd.grad(y[torch.isfinite(y)].sum(), x, retain_graph=True)[0].tolist()
        step()
        expect(got == want, what, ': gradient of', fn, 'is', got, 'at the time of reading it was', want)
    for t, v in w.held:
        expect(t.tolist() == v, what, ': a tensor of the caller changed to', t.tolist(), 'from', v)
    return True


def hist_cases(tier):
    for n in (0, 1, 2):
        for p in itertools.product(NAMES, repeat=n):
            yield [list(p), n == 2]


def check_hist(case):
    """all histories that begin with the prefix, one longer (thorough: and one
    more over the mutations that matter for the caches)"""
    pre, ext = case
    ok = run(pre)
    if ok is None:
        return ('n/a', tuple(pre)) if not ext else ('n/a',)
    k = 0
    if ext:
        for op in NAMES:
            if run(pre + [op]):
                k += 1
    return (tuple(pre), k)


SMALL = ['S1', 'S*', 'L1', 'Lm', 'inv', 'cl', 'kd', 'ki', 'sw', 'rfwd_ft', 'rpost_fl', 'rent_d',
         'Ptot_log', 'Ppost']


def deep_cases(tier):
    if tier == 'thorough':
        return ([list(p)] for p in itertools.product(SMALL, repeat=3))
    return iter(())


def check_deep(case):
    pre = case[0]
    if run(pre) is None:
        return ('n/a',)
    k = 0
    for p in SMALL:
        if run(pre + [p]) is None:
            continue
        k += 1
        for q in ('S1', 'S*', 'sw', 'cl', 'Ptot_log', 'rpost_fl', 'L1'):
            if run(pre + [p, q]):
                k += 1
    return (tuple(pre), k)


# ---- operations as observers --------------------------------------------------
from mc.ref import Ref, build as ref_build  # noqa: E402

GRAPHS = {
    'lin': Ref(3, [(0, 1, 1, 0.5), (1, 2, -1, 0.25)]),
    'dag': Ref(4, [(0, 1, 1, 0.5), (0, 2, 2, 0.25), (1, 2, 3, -0.5), (1, 3, -1, 1.0), (2, 3, -1, 0.125)]),
    'unsorted': Ref(4, [(0, 2, 2, 0.25), (0, 1, 1, 0.5), (1, 3, -1, 1.0), (1, 2, 3, -0.5), (2, 3, -1, 0.125)]),
    'eps': Ref(4, [(0, 1, 0, 0.5), (0, 2, 1, 0.25), (1, 2, 0, -0.5), (1, 3, -1, 1.0), (2, 3, -1, 0.125)]),
    'cyc': Ref(3, [(0, 1, 1, 0.5), (1, 1, 2, -0.5), (1, 2, -1, 0.25)]),
    'nontop': Ref(4, [(0, 2, 1, 0.5), (1, 3, -1, 0.75), (2, 1, 2, -0.5)]),
    'dead': Ref(5, [(0, 1, 1, 0.5), (0, 2, 2, 1.0), (1, 4, -1, 0.25), (3, 4, -1, 2.0)]),
    'nondet': Ref(4, [(0, 1, 1, 0.5), (0, 2, 1, 0.25), (1, 3, -1, 1.0), (2, 3, -1, 0.125)]),
    'loop0': Ref(3, [(0, 0, 0, 0.0), (0, 1, 1, 0.5), (1, 1, 0, 0.0), (1, 2, -1, 0.25)]),
    'none': Ref(0, []),
}
KINDS = ['plain', 'aux', 'ragged', 'grad']


def make(name, vec, kind):
    def one(r):
        f = ref_build(r)
        n = len(r.arcs)
        fin = [a[2] == -1 for a in r.arcs]
        if kind == 'aux':
            f.aux_labels = torch.tensor([-1 if x else 5 - i for i, x in enumerate(fin)], dtype=I32)
            f.lm_scores = torch.tensor([0.25 * i for i in range(n)])
            f.phones = torch.tensor([-1 if x else 1 + i for i, x in enumerate(fin)], dtype=I32)
        elif kind == 'ragged':
            f.aux_labels = k2.RaggedTensor([[-1] if x else [i + 1] * (i % 3) for i, x in enumerate(fin)]
                                           if n else [[1]], dtype=I32) if n else \
                k2.RaggedTensor(k2.RaggedShape('[ ]'), torch.empty(0, dtype=I32))
        elif kind == 'grad':
            f.scores = f.scores.clone().requires_grad_(True)
            f.wt = torch.tensor([1.0 + i for i in range(n)])
        f.note = 'n'
        return f
    if not vec:
        return one(GRAPHS[name])
    fs = [one(GRAPHS[name]), one(GRAPHS['dag'])]
    return k2.create_fsa_vec(fs)


def second(vec):
    f = make('dag', vec, 'plain')
    return f


def dense():
    torch.manual_seed(1)
    x = torch.tensor([[[0.5, -1.0, 0.25, 0.0], [-0.5, 0.5, 0.125, 1.0], [0.0, 0.25, -0.75, 0.5]],
                      [[1.5, -1.0, 0.5, 0.0], [-0.25, 0.5, 0.75, 1.0], [0.0, 0.25, 0.75, 0.5]]])
    return k2.DenseFsaVec(x, torch.tensor([[0, 0, 3], [1, 0, 2]], dtype=I32))


def vecof(f):
    return f if len(f.shape) == 3 else k2.create_fsa_vec([f])


def binary(fn):
    def g(f, aux):
        return fn(f, aux)
    return g


def unary_ops():
    return {
        'connect': lambda f, x: k2.connect(f),
        'top_sort': lambda f, x: k2.top_sort(f),
        'arc_sort': lambda f, x: k2.arc_sort(f),
        'arc_sort_map': lambda f, x: k2.arc_sort(f, ret_arc_map=True),
        'remove_epsilon': lambda f, x: k2.remove_epsilon(f),
        'rmeps_loops': lambda f, x: k2.remove_epsilon_self_loops(f),
        'rmeps_add': lambda f, x: k2.remove_epsilon_and_add_self_loops(f),
        'add_loops': lambda f, x: k2.add_epsilon_self_loops(f),
        'determinize': lambda f, x: k2.determinize(f),
        'closure': lambda f, x: k2.closure(f),
        'invert': lambda f, x: k2.invert(f),
        'invert_m': lambda f, x: f.invert(),
        'reverse': lambda f, x: k2.reverse(f),
        'union': lambda f, x: k2.union(f),
        'best': lambda f, x: k2.shortest_path(f, True),
        'bestf': lambda f, x: k2.shortest_path(f, False),
        'expand': lambda f, x: k2.expand_ragged_attributes(f),
        'prune': lambda f, x: k2.prune_on_arc_post(f, 0.3, True),
        'prune_f': lambda f, x: k2.prune_on_arc_post(f, 0.3, False),
        'tot': lambda f, x: f.get_tot_scores(True, True),
        'tot_t': lambda f, x: f.get_tot_scores(False, False),
        'fwd': lambda f, x: f.get_forward_scores(False, True),
        'bwd': lambda f, x: f.get_backward_scores(True, False),
        'post': lambda f, x: f.get_arc_post(True, True),
        'grad': lambda f, x: torch.autograd.grad(f.get_tot_scores(True, True).sum(), f.scores)[0],
        'str': lambda f, x: sorted(str(f).split('\n')),
        'tensor': lambda f, x: k2.to_tensor(f),
        'dict': lambda f, x: k2.Fsa.from_dict(f.as_dict()),
        'to_str': lambda f, x: k2.to_str(f),
        'simple': lambda f, x: k2.to_str_simple(f),
        'item': lambda f, x: f[0],
        'item1': lambda f, x: f[1],
        'stack': lambda f, x: k2.create_fsa_vec([f, f]),
        'index': lambda f, x: k2.index_fsa(f, torch.tensor([1, 0, 1], dtype=I32)),
        'cat': lambda f, x: k2.cat([f, f]),
        'clone': lambda f, x: f.clone(),
        'props': lambda f, x: f.properties,
        'compose': lambda f, x: k2.compose(x['g'], f),
        'compose2': lambda f, x: k2.compose(f, x['g']),
        'intersect': lambda f, x: k2.intersect(f, x['g']),
        'intersect2': lambda f, x: k2.intersect(x['g'], f),
        'inter_noeps': lambda f, x: k2.intersect(f, x['g'], treat_epsilons_specially=False),
        'device': lambda f, x: k2.intersect_device(f, x['gv'], torch.arange(2, dtype=I32)),
        'device2': lambda f, x: k2.intersect_device(x['gv'], f, torch.tensor([1, 0], dtype=I32)),
        'dense': lambda f, x: k2.intersect_dense(vecof(f), x['d'], 8.0),
        'pruned': lambda f, x: k2.intersect_dense_pruned(f, x['d'], 8.0, 8.0, 1, 100),
        'lev': lambda f, x: k2.levenshtein_alignment(x['lev'], x['levh'], torch.tensor([0, 1], dtype=I32)),
        'replace': lambda f, x: k2.replace_fsa(f, x['g1'], 2),
        'replace2': lambda f, x: k2.replace_fsa(x['gv'], f, 1),
        'equiv': lambda f, x: k2.is_rand_equivalent(f, x['g']),
        'nbest': lambda f, x: k2.Nbest.from_lattice(f, 4, True, 0.5).fsa,
        'rescore': lambda f, x: k2.nbest.whole_lattice_rescoring(f, x['G']),
        'nlist': lambda f, x: k2.nbest.generate_nbest_list(f, 4).fsa,
        'loops': lambda f, x: k2.linear_fsa_with_self_loops(f),
        'loops2': lambda f, x: k2.linear_fst_with_self_loops(f),
        'rnnt': lambda f, x: rnnt(f),
        'texts': lambda f, x: k2.get_aux_labels(f),
        'dot': lambda f, x: str(k2.to_dot(f)),
    }


def rnnt(f):
    st = k2.RnntDecodingStream(f)
    s = k2.RnntDecodingStreams([st], k2.RnntDecodingConfig(5, 2, 6.0, 4, 8))
    shape, ctx = s.get_contexts()
    s.advance(torch.tensor([[0.0, -1.0, -0.5, -2.0, -3.0]] * ctx.shape[0]))
    s.terminate_and_flush_to_streams()
    return s.format_output([1], False)


UNARY = unary_ops()
RANDOM = {'equiv', 'nbest', 'nlist'}    # sampled: only their inputs are compared
SAME = {'connect', 'top_sort', 'arc_sort', 'arc_sort_map', 'expand', 'determinize'}   # may return the input itself


def extras():
    return {'g': second(False), 'gv': second(True), 'g1': second(True), 'd': dense(),
            'G': k2.arc_sort(k2.create_fsa_vec([k2.add_epsilon_self_loops(second(False))])),
            'lev': k2.levenshtein_graph([[1, 2], [3]]), 'levh': k2.levenshtein_graph([[1], [3, 2]])}


def snap_extras(x):
    return [content(v) if isinstance(v, k2.Fsa) else flat(v.scores) for v in x.values()]


def result(op, f, x):
    try:
        r = UNARY[op](f, x)
    except (RuntimeError, AssertionError, ValueError, AttributeError, TypeError, IndexError,
            ImportError, KeyError) as e:
        return 'refused', None
    return flat(r[0] if isinstance(r, tuple) else r), r


def pure_cases(tier):
    names = sorted(GRAPHS)
    for name in names:
        for vec in (0, 1):
            for kind in KINDS:
                for op in UNARY:
                    if tier == 'quick' and not (vec or name in ('dag', 'eps', 'unsorted')):
                        continue
                    yield [name, vec, kind, op]


ALONE = {}


def alone(name, vec, kind, op):
    k = (name, vec, kind, op)
    if k not in ALONE:
        ALONE[k] = result(op, make(name, vec, kind), extras())[0]
    return ALONE[k]


XTRA = []


def check_pure(case):
    name, vec, kind, op = case
    f = make(name, vec, kind)
    x = extras()
    cx = snap_extras(x)
    before = content(f)
    flags = (f.scores.requires_grad, f.properties)
    first, r = result(op, f, x)
    step()

    def intact(what):
        c = content(f)
        expect(c == before, what, 'changed its input from', before, 'to', c)
        expect((f.scores.requires_grad, f.properties) == flags, what, 'changed a flag of its input')
        expect(f.scores.grad is None, what, 'left a gradient')
        now = snap_extras(x)
        expect(now == cx, what, 'changed its second input from', cx, 'to', now)
    intact(op)
    if op not in RANDOM:
        expect(first == alone(*case), op, 'differs between two equal objects', first, alone(*case))
    # what comes out can be changed without touching what went in
    for o in (r if isinstance(r, tuple) else (r,)):
        if isinstance(o, k2.Fsa):
            if o is f or any(o is v for v in x.values()):
                expect(op in SAME, op, 'returned its input')
                continue
            n = o.num_arcs
            o.scores = torch.arange(n, dtype=torch.float32) + 17
            o.labels = torch.where(o.labels < 0, o.labels, torch.full_like(o.labels, 4))
            for a, v in list(o.named_tensor_attr(include_scores=False)):
                delattr(o, a)
            o.extra = 1
        elif isinstance(o, torch.Tensor) and o.dtype in (torch.float32, torch.float64):
            if not o.requires_grad:
                o += 1
    intact(op + ', then changing the result,')
    # every other operation then gives what it gives on a fresh object
    for op2 in UNARY:
        if op2 in RANDOM or op2 == 'dot':
            continue
        if op == 'tensor' or op == 'post':
            pass
        got, r2 = result(op2, f, x)
        step()
        want = alone(name, vec, kind, op2)
        expect(got == want, op2, 'after', op, 'gives', got, 'on a fresh object', want)
    intact('all operations together')
    return (name, vec, kind, op, first == 'refused')


FAMILIES = [
    Family('operations', pure_cases, check_pure,
           'every pair of operations (first, second) on every automaton of a list (acyclic, cyclic, epsilon, unsorted, dead, nondeterministic, empty; single and batched; four kinds of attributes): inputs unchanged also when refused, results independent of inputs, the second result as on a fresh object'),
    Family('histories', hist_cases, check_hist,
           'every sequence of up to 3 of 39 assignments, renamings, copies, reads and differentiable reads on a batch with all kinds of attributes; every derived quantity is then read and every pending gradient computed'),
    Family('deep histories', deep_cases, check_deep,
           'every sequence of 4 of 14 operations followed by one of 7 (thorough only)'),
]
