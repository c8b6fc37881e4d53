"""Relation/weight oracles on automata read back from k2."""
from mc.ref import *  # noqa
from mc.core import expect, step


def neg_score(i, s, d, l):
    return -0.25 * (i + 1) - (0.125 if l == -1 else 0.0)


def chunks(total, size):
    for b in range(0, total, size):
        yield b, min(total, b + size)


def attach_idx(fsa):
    # 1-based: arcs without a source get the default filler 0
    fsa.idx = torch.arange(1, 1 + fsa.num_arcs, dtype=torch.int32)
    return fsa


def get_idx(fsa):
    return [x - 1 for x in fsa.idx.tolist()]


def check_validity(out, what):
    for r in read(out):
        m = validate(r)
        expect(m is None, what, 'produced a malformed automaton:', m, r)


def split_attr(fsa, values):
    """split a per-arc list into per-FSA lists."""
    if fsa.arcs.num_axes() == 2:
        return [values]
    rs1 = fsa.arcs.row_splits(1).tolist()
    rs2 = fsa.arcs.row_splits(2).tolist()
    return [values[rs2[rs1[i]]:rs2[rs1[i + 1]]] for i in range(len(rs1) - 1)]


def arc_offsets(refs):
    o, out = 0, []
    for r in refs:
        out.append(o)
        o += len(r.arcs)
    return out


def state_map_from(src, dst, amap, what, fresh_ok=()):
    """Arcs of dst mapped (amap, local indexes) to arcs of src: returns the
    state correspondence, or fails when it is not a consistent injection."""
    f = {}

    def put(a, b):
        if f.get(a, b) != b:
            expect(False, what, f': state {a} of the input became both '
                   f'{f[a]} and {b}', src, dst, amap)
        f[a] = b
    for j, i in enumerate(amap):
        if i < 0:
            continue
        s, d, l, w = src.arcs[i]
        S, D, L, W = dst.arcs[j]
        put(s, S)
        put(d, D)
        expect(L == l, what, f': arc {j} has label {L}, its source has {l}')
        expect(W == w, what, f': arc {j} has score {W}, its source has {w}')
    expect(len(set(f.values())) == len(f), what, ': states were merged', f)
    return f


def relation(ref, aux, L, semiring='tropical'):
    """weights of (input,output) label pair sequences.  aux: per-arc list of
    ints.  Arc symbol = (label, aux); both zero = epsilon."""
    arcs = []
    for (s, d, l, w), a in zip(ref.arcs, aux):
        if l == -1 or a == -1:
            if not (l == -1 and a == -1):
                return ('stray -1', (s, d, l, a))
            arcs.append((s, d, -1, w))
        elif l == 0 and a == 0:
            arcs.append((s, d, 0, w))
        else:
            arcs.append((s, d, (l, a), w))
    return weights(Ref(ref.n, arcs), L, semiring, eps=0)


def io_relation(ref, aux, max_arcs=None, semiring=None):
    """For acyclic automata (or paths up to max_arcs): dict
    (input string, output string) -> sorted list of path scores.  aux entries
    may be ints or lists (ragged)."""
    out = {}
    for p in all_paths(ref, max_arcs=max_arcs):
        o = []
        for i in p:
            a = aux[i]
            if isinstance(a, int):
                if a not in (0, -1):
                    o.append(a)
            else:
                o += [x for x in a if x not in (0, -1)]
        out.setdefault((path_labels(ref, p), tuple(o)), []).append(
            path_score(ref, p))
    for v in out.values():
        v.sort()
    return out


def same_paths(a, b, tol=1e-4):
    if set(a) != set(b):
        return False
    for k in a:
        if len(a[k]) != len(b[k]):
            return False
        if not all(close_to(x, y, tol) for x, y in zip(a[k], b[k])):
            return False
    return True


def expect_weights(got, want, what, *ctx):
    if not same_weights(got, want):
        expect(False, what, ': (string, got, expected) =',
               diff_weights(got, want), *ctx)
