"""A13: serialized forms round-trip.

Texts are read by an independent Python reader of both formats; what k2 reads
from a text has to be what this reader reads, and a text that this reader
refuses has to be refused by k2 as well.
"""
import io
import itertools
import os
import pickle
import re
import subprocess
import sys
import tempfile

from mc.core import Family, expect, step
from mc.lang import *  # noqa
from mc.lang import chunks
import k2

I32, F32, F64 = torch.int32, torch.float32, torch.float64


# ------------------------------------------------------- reference text reader
class Bad(Exception):
    pass


def integer(t):
    if not re.fullmatch(r'[+-]?[0-9]+', t):
        raise Bad(f'{t} is not an integer')
    v = int(t)
    if not -2**31 <= v < 2**31:
        raise Bad(f'{t} is too large')
    return v


def real(t):
    if not re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?',
                        t):
        raise Bad(f'{t} is not a number')
    return float(t)


def tokens(line):
    return re.findall(r'[\[\]]|[^\s\[\]]+', line)


def arc_fields(tok, na, nr):
    """src dst label aux.. [ragged].. [score] -> tuple"""
    i = 0

    def nxt():
        nonlocal i
        if i >= len(tok):
            raise Bad('too few fields')
        i += 1
        return tok[i - 1]
    s, d, l = integer(nxt()), integer(nxt()), integer(nxt())
    if s < 0 or d < 0:
        raise Bad('negative state')
    aux = [integer(nxt()) for _ in range(na)]
    rag = []
    for _ in range(nr):
        if nxt() != '[':
            raise Bad('expected [')
        cur = []
        while True:
            t = nxt()
            if t == ']':
                break
            cur.append(integer(t))
        rag.append(cur)
    w = real(nxt()) if i < len(tok) else 0.0
    if i != len(tok):
        raise Bad('too many fields')
    return s, d, l, aux, rag, w


def read_k2(text, na, nr):
    """(n, arcs): arcs are (src, dst, label, score, aux, rag) in order"""
    arcs, final = [], None
    for line in text.split('\n'):
        tok = tokens(line)
        if not tok:
            continue
        if final is not None:
            raise Bad('something follows the final state')
        if len(tok) == 1:
            final = integer(tok[0])
            if final < 0:
                raise Bad('negative final state')
            continue
        s, d, l, aux, rag, w = arc_fields(tok, na, nr)
        if arcs and s < arcs[-1][0]:
            raise Bad('not ordered')
        arcs.append((s, d, l, w, aux, rag))
    if final is None and arcs:
        raise Bad('no final state')
    n = 0 if final is None else final + 1
    for a in arcs:
        if max(a[0], a[1]) > final:
            raise Bad('the final state is not the largest one')
    return legal(n, arcs)


def legal(n, arcs):
    m = validate(Ref(n, [a[:4] for a in arcs]))
    if m:
        raise Bad(m)
    return n, arcs


def read_fst(text, na, nr):
    """OpenFst style; the arcs of a state come before its final weight"""
    arcs, finals = [], []
    start, top = None, -1
    for line in text.split('\n'):
        tok = tokens(line)
        if not tok:
            continue
        if len(tok) <= 2:
            s = integer(tok[0])
            if s < 0:
                raise Bad('negative state')
            w = 0.0
            if len(tok) == 2:
                w = None if tok[1] in ('Inf',) else real(tok[1])
            if w is not None:
                finals.append((s, -w))
            seen = [s]
        else:
            s, d, l, aux, rag, w = arc_fields(tok, na, nr)
            arcs.append((s, d, l, -w, aux, rag))
            seen = [s, d]
        start = seen[0] if start is None else start
        top = max([top] + seen)
    if start is None:
        return 0, []
    f = max(top + 1, 1)
    arcs += [(s, f, -1, w, [-1] * na, [[] for _ in range(nr)])
             for s, w in finals]

    def m(x):
        return {0: start, start: 0}.get(x, x)
    arcs = [(m(a[0]), m(a[1])) + a[2:] for a in arcs]
    arcs.sort(key=lambda a: a[0])
    return legal(f + 1, arcs)


AUX = ['aux_labels', 'aux_labels2']
RAG = ['rag_a', 'rag_b']


def content(f, na, nr, names=AUX, rnames=RAG):
    r = read1(f)
    aux = [getattr(f, names[i]).tolist() for i in range(na)]
    rag = [getattr(f, rnames[i]).tolist() for i in range(nr)]
    for i in range(na):
        expect(getattr(f, names[i]).dtype == I32, 'dtype of', names[i])
    return r.n, [a + ([x[j] for x in aux], [x[j] for x in rag])
                 for j, a in enumerate(r.arcs)]


def parse(text, na, nr, openfst=False, how=0):
    kw = dict(ragged_label_names=RAG[:nr])
    if na == 0 and how % 3 == 1:
        kw['acceptor'] = True
    elif na == 1 and how % 3 == 1:
        kw['acceptor'] = False
    elif na == 0 and how % 3 == 2:
        pass
    elif how % 3 == 2:
        kw['aux_label_names'] = AUX[:na]
    else:
        kw['num_aux_labels'] = na
    if openfst and how % 2:
        return k2.Fsa.from_openfst(text, **kw)
    return k2.Fsa.from_str(text, openfst=openfst, **kw)


def same(got, want, what, *ctx, order=True):
    a, b = got, want
    if not order:
        a, b = (a[0], sorted(a[1], key=repr)), (b[0], sorted(b[1], key=repr))

    def norm(q):
        # 0.0 and -0.0 are the same score; scores are single precision
        return q[0], [(x[0], x[1], x[2],
                       float(torch.tensor(x[3], dtype=F32)) + 0.0, x[4], x[5])
                      for x in q[1]]
    expect(norm(a) == norm(b), what, 'gave', got, 'instead of', want, *ctx)


def judge(text, na, nr, openfst, how=0):
    """k2 reads what the reference reads, or both refuse"""
    step()
    try:
        want = (read_fst if openfst else read_k2)(text, na, nr)
    except Bad as e:
        want = str(e)
    try:
        got = content(parse(text, na, nr, openfst, how), na, nr)
    except ValueError:
        expect(isinstance(want, str), 'legal text refused', repr(text), na, nr,
               'openfst' if openfst else '', want)
        return 0
    expect(not isinstance(want, str), 'malformed text', repr(text), na, nr,
           'openfst' if openfst else '', 'accepted as', got, ':', want)
    same(got, want, 'reading', repr(text), na, nr, openfst,
         order=not openfst)
    return 1


# ----------------------------------------------------------------- universes
UNI = {
    'two': (2, slots(2, [0, 1])),
    'three': (3, slots(3, [0, 2])),
    'four': (4, slots(4, [1], acyclic=True)),
}
WEIGHT = [0.5, -1.25, 0.0, 12.75, -1024.0, 3.0, -0.0078125, 1e-3]


def member(u, bits):
    n, sl = UNI[u]
    return from_bits(n, sl, bits, lambda i, s, d, l: WEIGHT[
        (i * 3 + bits) % 7])


def rich(r, na, nr, seed=0):
    """the automaton with integer and ragged labels"""
    arcs = []
    for i, a in enumerate(r.arcs):
        fin = a[2] == -1
        arcs.append(a + ([-1 if fin else (i * 5 + j + seed) % 7
                          for j in range(na)],
                         [[] if fin else [(i + j + q) % 5 + 1 for q in range(
                             (i + 2 * j + seed) % 3)] for j in range(nr)]))
    return r.n, arcs


def attach(f, x, na, nr, strided=False):
    for i in range(na):
        v = [a[4][i] for a in x[1]]
        t = torch.tensor(v, dtype=I32)
        if strided:
            t = torch.tensor([z for y in v for z in (y, 77)],
                             dtype=I32)[::2]
        setattr(f, AUX[i], t)
    for i in range(nr):
        setattr(f, RAG[i], ragged([a[5][i] for a in x[1]]))
    return f


def ragged(rows, dtype=I32):
    rs = [0]
    for y in rows:
        rs.append(rs[-1] + len(y))
    return k2.RaggedTensor(
        k2.ragged.create_ragged_shape2(row_splits=torch.tensor(
            rs, dtype=I32)),
        torch.tensor([z for y in rows for z in y], dtype=dtype))


def uni_cases(us, block):
    def cases(tier):
        for u in us[tier]:
            m = len(UNI[u][1])
            for b, e in chunks(1 << m, block):
                yield [u, b, e]
    return cases


def spell(x, openfst, style):
    """a text for the automaton with unusual but legal spacing"""
    sp = [' ', '\t', '  ', ' \t '][style]
    out = []
    n, arcs = x
    if style == 3:
        out.append('')
    for (s, d, l, w, aux, rag) in arcs:
        if openfst:
            w = -w
            if l == -1:
                t = [str(s)]
                if w or style != 1:
                    t.append(repr(w))
                out.append(sp.join(t))
                continue
        t = [str(s), str(d), str(l)] + [str(y) for y in aux]
        for y in rag:
            b = [str(z) for z in y]
            t.append(['[' + ' '.join(b) + ']', '[ ' + ' '.join(b + [']']),
                      '[\t' + '  '.join(b) + ' ]',
                      '[' + ' '.join(b) + '  ]'][style])
        # the last field may be omitted when it is zero
        if w or style != 1:
            t.append(repr(w) if style != 2 else f'{w:+e}')
        out.append((' ' if style == 2 else '') + sp.join(t) +
                   ('  ' if style == 3 else ''))
        if style == 3:
            out.append(' \t')
    if not openfst and n:
        out.append(str(n - 1) + ('\t' if style == 3 else ''))
    return '\n'.join(out) + ('\n' if style != 2 else '')


def check_texts(case):
    u, b, e = case
    sig = []
    for bits in range(b, e):
        r = member(u, bits)
        for na, nr in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 2), (0, 2), (2, 1)):
            x = rich(r, na, nr, bits)
            f = attach(build(r), x, na, nr)
            step(3)
            t = k2.to_str(f)
            if r.arcs:
                same(read_k2(t, na, nr), x, 'to_str', repr(t))
                g = parse(t, na, nr, False, bits)
                same(content(g, na, nr), x, 'from_str', repr(t))
                expect(k2.to_str(g) == t, 'text changed', t, k2.to_str(g))
            else:
                expect(t == '', 'automaton without arcs', t)
                expect(parse(t, na, nr).shape == (0, None), 'empty text')
            full = str(f)
            expect(full.startswith('k2.Fsa: ' + t), 'str', full, t)
            if not nr:
                ts = k2.to_str_simple(f)
                y = (x[0], [a[:4] + (a[4][:1], []) for a in x[1]])
                if r.arcs:
                    same(read_k2(ts, min(na, 1), 0), y, 'to_str_simple', ts)
            if na and bits % 3 == 0:
                f2 = attach(build(r), x, na, nr, strided=True)
                expect(k2.to_str(f2) == t, 'strided labels', k2.to_str(f2), t)
            # text in the OpenFst format: same automaton, up to the order of
            # arcs in a state and to states that nothing mentions
            to = k2.to_str(f, openfst=True)
            first = min([a[0] for a in r.arcs], default=0)
            if r.arcs and first == 0:
                top = max(y for a in r.arcs
                          for y in ((a[0],) if a[2] == -1 else a[:2]))
                want = (top + 2, [(a[0], top + 1) + a[2:] if a[2] == -1 else a
                                  for a in x[1]])
                same(read_fst(to, na, nr), want, 'to_str openfst', repr(to),
                     order=False)
                g = parse(to, na, nr, True, bits)
                same(content(g, na, nr), want, 'from_openfst', repr(to),
                     order=False)
            for style in range(4):
                judge(spell(x, False, style), na, nr, False, bits + style)
                judge(spell(x, True, style), na, nr, True, bits + style)
        sig.append((u, len(r.arcs), r.n))
    return sig


# ------------------------------------------------ order of lines in OpenFst
LINES = [['0 1 2 0.5', '1 2 3 -0.25', '2 1.5'],
         ['3 0 1 1', '0 3 2', '0', '3 2.5'],
         ['1 1 4 0.5', '1 0 5 2', '0 0 6 -1', '0 0.125', '1 Inf'],
         ['2 0 0 0', '2 0 0 1', '2 2 1 3', '0'],
         ['0 1 1 0', '1 4 1 1', '4 2 2 2', '4 0.5', '2'],
         ['5 5 1 1', '5 2'], ['0'], ['3'], ['0 Inf', '1 2 3 1', '2']]


def order_cases(tier):
    for i, ls in enumerate(LINES):
        yield [i]


def check_order(case):
    ls = LINES[case[0]]
    n = 0
    for p in itertools.permutations(ls):
        for k in range(1, len(p) + 1):
            for na in (0, 1):
                q = p[:k]
                if na:
                    q = [y if len(y.split()) < 3 else ' '.join(
                        y.split()[:3] + ['9'] + y.split()[3:]) for y in q]
                n += judge('\n'.join(q) + '\n', na, 0, True, n)
    return n


# ---------------------------------------------------------------- corruptions
BASE = [
    (0, 0, False, '0 1 1 0.5\n0 2 -1 0.25\n1 2 -1 0\n2'),
    (0, 0, False, '0 0 1\n0 1 -1\n1\n'),
    (1, 0, False, '0 1 1 4 0.5\n1 2 -1 -1 0.25\n2'),
    (2, 0, False, '0 1 1 4 6 0.5\n1 2 -1 -1 -1\n2'),
    (0, 1, False, '0 1 1 [3 4] 0.5\n1 2 -1 [] 0.25\n2'),
    (1, 1, False, '0 1 1 5 [3] 0.5\n1 2 -1 -1 [] 0.25\n2'),
    (0, 2, False, '0 1 1 [3] [7] 0.5\n1 2 -1 [] [] 1\n2'),
    (0, 0, True, '0 1 1 0.5\n1 2 3 0.25\n2 0.5'),
    (1, 0, True, '0 1 1 2 0.5\n1 0.5\n'),
    (0, 1, True, '0 1 1 [2 3] 0.5\n1\n'),
    (2, 1, True, '0 1 1 2 3 [2 3] 0.5\n1 2.5\n'),
]
TOK = ['x', '-1', '-2', '1.5', '7', '0', '99999999999', '[', ']', '2', '3',
       '1x', '-', '.5', '0x1', '1,2', '#', 'nan', 'inf']


def corrupt_cases(tier):
    for i in range(len(BASE)):
        n = len(re.findall(r'[\[\]]|\n|[^\s\[\]]+', BASE[i][3]))
        for k in range(n + 1):
            yield [i, k] + ([1] if tier == 'thorough' else [0])


def check_corrupt(case):
    i, k, deep = case
    na, nr, fst, text = BASE[i]
    tok = re.findall(r'[\[\]]|\n|[^\s\[\]]+', text)
    n = 0

    def join(ts):
        return ' '.join(ts).replace(' \n ', '\n')

    def variants(tok, k):
        yield tok[:k] + tok[k + 1:]                       # dropped
        for t in TOK + ['\n']:
            yield tok[:k] + [t] + tok[k:]                 # inserted
            yield tok[:k] + [t] + tok[k + 1:]             # replaced
        if k + 1 < len(tok):
            yield tok[:k] + [tok[k + 1], tok[k]] + tok[k + 2:]
    for v in variants(tok, k):
        n += judge(join(v), na, nr, fst, k)
        # read with the wrong number of labels
        if v == tok or deep:
            for a in range(3):
                for r in range(2):
                    if (a, r) != (na, nr):
                        judge(join(v), a, r, fst)
        if deep and k < len(tok):
            for k2_ in range(k + 1, len(v)):
                for t in TOK[:10]:
                    judge(join(v[:k2_] + [t] + v[k2_ + 1:]), na, nr, fst)
    for a in range(4):
        for r in range(3):
            judge(text, min(a, 2), r, fst)
    return n


# ---------------------------------------------------------- dictionary forms
def full_attrs(f, seed=0):
    m = f.num_arcs
    f.ia = torch.tensor([(i * 3 + seed) % 5 - 1 for i in range(m)], dtype=I32)
    f.la = torch.tensor([2**40 + i for i in range(m)], dtype=torch.int64)
    f.fa = torch.tensor([0.25 * i - seed for i in range(m)], dtype=F32)
    f.da = torch.tensor([1 / (i + 3) for i in range(m)], dtype=F64)
    f.ba = torch.tensor([(i + seed) % 2 == 0 for i in range(m)])
    f.ma = torch.tensor([[i, -i] for i in range(m)], dtype=F32).reshape(m, 2)
    f.na = torch.tensor([[i, -i] for i in range(m)], dtype=I32).reshape(m, 2)
    f.sa = torch.tensor([z for i in range(m) for z in (i, 99)],
                        dtype=I32)[::2]
    f.ra = ragged([[i + 1] * ((i + seed) % 3) for i in range(m)])
    f.rf = ragged([[i / 4] * ((i + 1 + seed) % 3) for i in range(m)], F32)
    f.r3 = k2.RaggedTensor([[[i], []] for i in range(m)], dtype=I32) if m \
        else k2.RaggedTensor('[ ]', dtype=I32)
    f.ia_filler = -7
    f.fa_filler = 0.5
    f.word = 'hello'
    f.obj = {'a': [1, 2]}
    f.labels_sym = k2.SymbolTable.from_str('<eps> 0\nα 1\nb 2')
    return f


def snap(f):
    out = {}
    for name, v in f.named_tensor_attr(include_scores=True):
        kind = ('ragged' if isinstance(v, k2.RaggedTensor) else 'tensor')
        out[name] = (kind, str(v.dtype), v.tolist())
        if kind == 'ragged':
            out[name] += (v.num_axes,)
    for name, v in f.named_non_tensor_attr():
        out[name] = ('obj', v)
    return out


def compare(f, g, what):
    a, b = snap(f), snap(g)
    expect(sorted(a) == sorted(b), what, 'attributes', sorted(b), 'expected',
           sorted(a))
    for k in a:
        expect(a[k] == b[k], what, 'attribute', k, b[k], 'expected', a[k])
    expect([(r.n, r.arcs) for r in read(f)] == [(r.n, r.arcs)
                                                for r in read(g)],
           what, 'arcs', read(g), 'expected', read(f))
    expect(f.shape == g.shape, what, 'shape')
    expect(f.properties == g.properties, what, 'properties')


def dict_checks(f, what):
    step(3)
    d = f.as_dict()
    compare(f, k2.Fsa.from_dict(d), ('as_dict', what))
    buf = io.BytesIO()
    torch.save(d, buf)
    buf.seek(0)
    compare(f, k2.Fsa.from_dict(torch.load(buf, weights_only=False)),
            ('torch.save', what))
    for t in (k2.to_tensor(f), f.arcs_as_tensor()):
        g = k2.Fsa(t, aux_labels=getattr(f, 'aux_labels', None))
        expect(read(g)[0].arcs == read(f)[0].arcs if f.shape[0] else True,
               what, 'tensor form')
        expect([(r.n, r.arcs) for r in read(f)] ==
               [(r.n, r.arcs) for r in read(g)], what, 'tensor form')
        if hasattr(f, 'aux_labels'):
            expect(g.aux_labels.tolist() == f.aux_labels.tolist(),
                   'aux_labels of the tensor form')


def check_dicts(case):
    u, b, e = case
    sig = []
    for bits in range(b, e):
        r = member(u, bits)
        # the form of a single automaton holds arcs only, so the final state
        # has to be mentioned
        if any(a[2] == -1 for a in r.arcs):
            for na, nr in ((0, 0), (1, 0), (0, 1)):
                x = rich(r, na, 0, bits)
                f = attach(build(r), x, na, 0)
                if nr:
                    f.aux_labels = ragged(
                        [[i + 1] * ((i + bits) % 3)
                         for i in range(len(r.arcs))])
                dict_checks(f, (r, na, nr))
                dict_checks(full_attrs(f, bits), (r, na, nr, 'all'))
                str(f)
        sig.append(len(r.arcs))
    return sig


POOL = [Ref(0, []), Ref(2, []), Ref(2, [(0, 1, -1, 0.5)]),
        Ref(3, [(0, 1, 2, 1.0), (0, 0, 1, -3.0), (1, 2, -1, 0.25)]),
        Ref(4, [(0, 1, 0, 1.5), (2, 3, -1, 2.0)])]


def vec_cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for c in itertools.product(range(len(POOL)), repeat=n):
            yield list(c)


def check_vec(case):
    rs = [POOL[i] for i in case]
    f = build_vec(rs)
    dict_checks(f, case)
    if f.num_arcs:
        f.aux_labels = torch.tensor(
            [(i * 2 + 1) % 6 for i in range(f.num_arcs)], dtype=I32)
    dict_checks(f, case)
    full_attrs(f, len(case))
    dict_checks(f, case)
    s = str(f)
    expect(s.startswith('k2.FsaVec: \nFsaVec[0]: '), s)
    parts = re.split(r'FsaVec\[(\d+)\]: ', s.split('properties_str')[0])
    expect(parts[1::2] == [str(i) for i in range(len(case))], 'entries', parts)
    ints = sorted(['ia', 'sa'] + (['aux_labels'] if f.num_arcs else []))
    for r, t, g in zip(rs, parts[2::2], range(len(rs))):
        if r.arcs:
            n, arcs = read_k2(t, len(ints), 1)
            o = sum(len(y.arcs) for y in rs[:g])
            expect((n, [a[:4] for a in arcs]) == (r.n, r.arcs), 'entry', t)
            for j, a in enumerate(arcs):
                want = [getattr(f, q).tolist()[o + j] for q in ints]
                expect(a[4] == want and a[5] == [f.ra.tolist()[o + j]],
                       'labels of entry', g, a, want)
        else:
            expect(t == '', 'entry without arcs', t)
    return f.num_arcs


def ragged_cases(tier):
    m = 3 if tier == 'quick' else 4
    for n in range(m + 1):
        for ls in itertools.product(range(4), repeat=n):
            yield list(ls)


def check_ragged(case):
    k = 0
    for dt in (I32, F32, F64):
        rows = []
        for l in case:
            rows.append([k / 2 - 1 if dt != I32 else k - 2
                         for k in range(k, k + l)])
            k += l
        r2 = ragged(rows, dt)
        lvl3 = [[rows[i] for i in range(len(rows)) if i % 2 == q]
                for q in range(3)] if rows else []
        rs = [0]
        flat = []
        for y in lvl3:
            flat += y
            rs.append(rs[-1] + len(y))
        s1 = k2.ragged.create_ragged_shape2(
            row_splits=torch.tensor(rs, dtype=I32))
        inner = ragged(flat, dt)
        r3 = k2.RaggedTensor(s1.compose(inner.shape), inner.values)
        for r, want in ((r2, rows), (r3, lvl3)):
            step(2)
            o = pickle.loads(pickle.dumps(r))
            expect(o.tolist() == want and o.dtype == dt
                   and o.num_axes == r.num_axes, 'pickle', o, want)
            buf = io.BytesIO()
            torch.save({'x': [r, r]}, buf)
            buf.seek(0)
            o = torch.load(buf, weights_only=False)['x'][1]
            expect(o.tolist() == want and o.dtype == dt, 'torch.save', o)
            if want:
                part = r[1:]
                o = pickle.loads(pickle.dumps(part))
                expect(o.tolist() == want[1:], 'pickle of a slice', o)
            r = r.to('cpu')
            expect(r.tolist() == want, 'source changed')
    # the raw arcs
    return k


# --------------------------------------------------------------- symbol tables
SYMS = ['<eps>', 'a', 'b', 'α', '▁ñ']
OPS = ([('add', s, i) for s in ('a', 'b', '▁ñ', '<eps>') for i in (None, 1, 3)]
       + [('merge', i) for i in range(5)] + [('text',), ('file',)])


def others():
    return [k2.SymbolTable(), k2.SymbolTable.from_str('<eps> 0\na 1'),
            k2.SymbolTable.from_str('b 3\na 2'),
            k2.SymbolTable.from_str('  α\t 7 \n\n<eps> 0'),
            k2.SymbolTable.from_str('<blk> 0\nz 9')]


OTHERS = [{0: '<eps>'}, {0: '<eps>', 1: 'a'}, {0: '<eps>', 2: 'a', 3: 'b'},
          {0: '<eps>', 7: 'α'}, {0: '<blk>', 9: 'z'}]


def agree(t, m, what):
    inv = {v: k for k, v in m.items()}
    expect(t.ids == sorted(m) and t.symbols == sorted(inv), what, t.ids,
           t.symbols, 'expected', m)
    expect(len(t) == len(m) and t.eps == m[0], what, 'size')
    for i, s in m.items():
        expect(t[i] == s and t[s] == i and t.get(i) == s and t.get(s) == i
               and i in t and s in t, what, 'lookup', i, s)
    for s in SYMS + ['zz']:
        expect((s in t) == (s in inv), what, 'contains', s)
    for i in range(10):
        expect((i in t) == (i in m), what, 'contains', i)
        if i not in m:
            try:
                t[i]
                expect(False, what, 'id', i, 'found')
            except KeyError:
                pass
    want = ''.join(f'{s} {i}\n' for i, s in sorted(m.items()))
    expect(t.to_str() == want, what, 'text', t.to_str(), want)


def apply(t, m, op, seen):
    step()
    if op[0] == 'add':
        _, s, i = op
        inv = {v: k for k, v in m.items()}
        nxt = max(m) + 1
        if s in inv:
            want = inv[s]
        elif i is None:
            want = nxt
        elif i in m:
            want = None
        else:
            want = i
        try:
            got = t.add(s, i) if i is not None else t.add(s)
        except ValueError:
            got = None
        expect(got == want, op, 'returned', got, 'expected', want, m)
        if want is not None:
            m = {**m, want: s}
    elif op[0] == 'merge':
        o, om = others()[op[1]], OTHERS[op[1]]
        for a, b in ((m, om), (om, m)):
            ok = (a[0] == b[0]
                  and all(b.get(i, s) == s for i, s in a.items())
                  and all(a2 == b2 for a2, s in a.items()
                          for b2, s2 in b.items() if s == s2))
        try:
            got = t.merge(o)
        except AssertionError:
            got = None
        expect((got is not None) == ok, op, 'allowed:', got is not None, m, om)
        agree(o, om, 'the other table')
        if ok:
            agree(t, m, 'merge changed its input')
            t, m = got, {**m, **om}
        # equality
        for x, xm in ((t, m), (o, om)):
            expect((x == o) == (xm == om), 'equality', xm, om)
            expect((o == x) == (xm == om), 'equality', xm, om)
    else:
        text = t.to_str()
        if op[0] == 'text':
            t2 = k2.SymbolTable.from_str(text)
        else:
            name = os.path.join(seen, 'sym.txt')
            t.to_file(name)
            with open(name, 'rb') as f:
                expect(f.read().decode('utf-8') == text, 'file content')
            t2 = k2.SymbolTable.from_file(name)
        expect(t2 == t and t == t2, 'round trip')
        t = t2
    return t, m


def sym_cases(tier):
    d = 3 if tier == 'quick' else 4
    for i in range(len(OPS)):
        for j in range(len(OPS)):
            yield [d, i, j]


def check_sym(case):
    d, i, j = case
    n = 0
    with tempfile.TemporaryDirectory() as tmp:
        for rest in itertools.product(range(len(OPS)), repeat=d - 2):
            t, m = k2.SymbolTable(), {0: '<eps>'}
            for o in (i, j) + rest:
                t, m = apply(t, m, OPS[o], tmp)
            agree(t, m, ('history', i, j, rest))
            n += len(m)
    return n


SYMLINES = ['a 1', 'b\t2', '  c   3  ', '', '<eps> 0', 'a 4', 'd 1', 'e',
            'f 5 6', 'g x', 'h -1', '<eps> 6', 'α 7', '8 8', 'i 1.0', 'q 0']


def symtext_cases(tier):
    for i in range(len(SYMLINES)):
        yield [i]


def check_symtext(case):
    n = 0
    for rest in itertools.product(range(len(SYMLINES)), repeat=2):
        lines = [SYMLINES[i] for i in (case[0],) + rest]
        step()
        m, bad = {}, False
        for l in lines:
            f = l.split()
            if not f:
                continue
            if len(f) != 2 or not re.fullmatch(r'[0-9]+', f[1]):
                bad = True
                break
            if f[0] in m.values() or int(f[1]) in m:
                bad = True
                break
            m[int(f[1])] = f[0]
        if not bad and 0 not in m:
            if '<eps>' in m.values():
                bad = True     # <eps> would have two ids
            m[0] = '<eps>'
        try:
            t = k2.SymbolTable.from_str('\n'.join(lines))
        except (AssertionError, ValueError):
            expect(bad, 'legal table refused', lines)
            continue
        expect(not bad, 'malformed table accepted', lines, t.to_str())
        agree(t, m, lines)
        n += 1
    return n


PROG = r'''
import sys, k2
t = k2.SymbolTable.from_str('<eps> 0\n\u03b1 1\n\u2581x 2')
t.to_file(sys.argv[1])
u = k2.SymbolTable.from_file(sys.argv[1])
assert t == u and u.to_str() == t.to_str()
'''


def locale_cases(tier):
    yield ['POSIX']
    yield ['C.UTF-8']


def check_locale(case):
    with tempfile.TemporaryDirectory() as tmp:
        env = dict(os.environ, LC_ALL=case[0], PYTHONUTF8='0',
                   PYTHONCOERCECLOCALE='0')
        step()
        p = subprocess.run([sys.executable, '-c', PROG, tmp + '/s.txt'],
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
        expect(p.returncode == 0, 'a table with non-ASCII symbols does not '
               'survive a file under locale', case[0], p.stdout[-600:])
    return 0


ASSUMPTIONS = [
    'scores with at most six significant digits, no infinities (text)',
    'the text of an automaton without arcs is empty, so its states are lost',
    'OpenFst text of an automaton whose start state has no arcs is excluded '
    '(its first line would name another state), and final arcs carry label -1 '
    'in every label list',
    'the tensor and dictionary form of a single automaton needs a final arc',
    'legal symbols contain no white space',
]
FAMILIES = [
    Family('texts', uni_cases({
        'quick': ['two', 'three'], 'thorough': ['two', 'three', 'four']}, 8),
        check_texts, 'the text read is the automaton written'),
    Family('order', order_cases, check_order,
           'every order of the lines of an OpenFst text'),
    Family('corrupt', corrupt_cases, check_corrupt,
           'a corrupted text is refused, or means something else legal'),
    Family('dicts', uni_cases({
        'quick': ['two', 'three'], 'thorough': ['two', 'three', 'four']}, 16),
        check_dicts, 'dictionary, pickled and tensor forms'),
    Family('vectors', vec_cases, check_vec, 'the same for vectors'),
    Family('ragged', ragged_cases, check_ragged, 'pickled ragged tensors'),
    Family('symbols', sym_cases, check_sym, 'histories of symbol tables'),
    Family('symtext', symtext_cases, check_symtext, 'texts of symbol tables'),
    Family('locale', locale_cases, check_locale, 'files in any locale'),
]
