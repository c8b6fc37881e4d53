"""A21: the hash tables behave like a map (explicit-state exploration)."""
import ctypes
import itertools

from mc import native
from mc.core import Family, Violation, expect, step

LIB = None
ASSUMPTIONS = [
    'one thread (the CPU build has no concurrent kernels)',
    'deleting is all-or-nothing as documented: once a key is deleted only further deletions follow until the table is empty',
    'a pair whose stored bits are all ones cannot be stored (documented); with implicit key bits this also excludes the largest value for keys that differ from the all-ones key in implicit bits only',
    'the table always has a free place in the group of a key that is searched for and absent (documented: it loops otherwise)',
    'keys and values fit the number of bits of the table, also of the one a resize changes to',
]

A, G, P, H64 = 0, 1, 2, 3
GROUPS = {
    'k10': [(A, 128, 10, 54), (G, 128, 10, 54), (A, 256, 10, 54),
            (P, 128, 10, 54), (P, 128, 11, 54), (P, 128, 12, 54),
            (P, 256, 13, 54)],
    'k32': [(A, 128, 32, 32), (G, 256, 32, 32), (G, 512, 40, 24),
            (A, 128, 40, 24), (P, 128, 34, 32), (P, 128, 32, 32)],
    'k63': [(A, 128, 63, 1), (G, 256, 63, 1), (P, 128, 63, 3)],
    'k8': [(A, 128, 8, 56), (G, 512, 8, 56), (P, 128, 9, 57)],
    'k54': [(A, 128, 54, 10), (P, 256, 57, 10), (G, 128, 54, 10)],
    'h64': [(H64, 128, 64, 64), (H64, 256, 64, 64), (H64, 1024, 64, 64)],
}


def setup(tier):
    global LIB
    LIB = native.load('hash.cc')


def candidates(cfgs):
    """Keys that share a bucket (mod 128), a step, both, or neither; keys
    around every power of two that the layouts of the group distinguish."""
    ks = {0, 1, 3, 5, 128, 256, 384, 16384}
    for _, nb, kb, vb in cfgs:
        top = (1 << kb) - 1
        ks |= {top, top - 1, 1 << (kb - 1)}
        ks.add(top - nb)        # same bucket as the all-ones key
        if kb + vb > 64 and kb < 64:
            imp = kb + vb - 64
            ks.add(top - (1 << imp) + 1)   # stored bits all ones
    top = max((1 << kb) - 1 for _, _, kb, _ in cfgs)
    return sorted(k for k in ks if 0 <= k <= top)


def explore(cfgs, keys, vals):
    nc = len(cfgs)
    c = (ctypes.c_int * (4 * nc))(*[x for t in cfgs for x in t])
    k = (ctypes.c_uint64 * len(keys))(*keys)
    nv = (ctypes.c_int * len(keys))(*[len(v) for v in vals])
    fv = [x for v in vals for x in v]
    v = (ctypes.c_uint64 * len(fv))(*fv)
    out = (ctypes.c_uint64 * 2)()
    err = ctypes.create_string_buffer(4000)
    if LIB.hash_explore(nc, c, len(keys), k, nv, v, out, err, 4000):
        raise Violation(err.value.decode(errors='replace'))
    step(out[1])
    return out[0], out[1]


def values(cfgs, n):
    vb = min(t[3] for t in cfgs)
    top = (1 << vb) - 1
    if cfgs[0][0] == H64:
        return [0, (1 << 64) - 2][:n]
    return [[top], [0, top], [0, 1, top]][n - 1] if vb > 1 else [0, 1][:n]


def cases_explore(tier):
    for g, cfgs in GROUPS.items():
        cand = candidates(cfgs)
        n = 3 if tier == 'quick' else 4
        for sub in itertools.combinations(cand, n):
            yield [g, list(sub), 2]
        # more keys that all pass through the same buckets
        chain = [k for k in cand if k % 128 in (0, 1, 3, 5)]
        n = 4 if tier == 'quick' else 5
        for sub in itertools.combinations(chain[:7 if tier == 'quick' else 9], n):
            yield [g, list(sub), 1]


def check_explore(case):
    g, keys, nv = case
    cfgs = GROUPS[g]
    return explore(cfgs, keys, [values(cfgs, nv)] * len(keys))


# ---- filling ---------------------------------------------------------------
def cases_fill(tier):
    pats = [(0, 1), (0, 128), (5, 127), (1, 129), (0, 256), (7, 64), (0, 3)]
    if tier != 'quick':
        pats += [(s, d) for s in (0, 2, 77) for d in
                 (2, 5, 32, 63, 65, 96, 126, 130, 255, 257, 8191, 8192, 8193)]
    for g, cfgs in GROUPS.items():
        for i, c in enumerate(cfgs):
            for s, d in pats:
                for j in sorted({i, (i + 1) % len(cfgs), len(cfgs) - 1}):
                    for part in (1.0, 0.5):
                        yield [g, i, j, s, d, part]


def check_fill(case):
    g, i, j, s, d, part = case
    c, to = GROUPS[g][i], GROUPS[g][j]
    imp = max(0, c[2] + c[3] - 64) if c[0] != H64 else 0
    to_imp = max(0, to[2] + to[3] - 64) if to[0] != H64 else 0
    top = min((1 << c[2]) - 2, (1 << to[2]) - 2)
    room = (min(c[1] >> imp, to[1] >> to_imp)) * part
    keys, load = [], {}
    k = s
    # never more keys in a group of buckets than it has places
    while len(keys) < min(c[1], to[1]) * part and k <= top and \
            len(keys) < 1024 and k - s < d * 4096:
        gr = (k & ((1 << imp) - 1), k & ((1 << to_imp) - 1))
        a, b = ('a', gr[0]), ('b', gr[1])
        if load.get(a, 0) < (c[1] >> imp) * part and \
                load.get(b, 0) < (to[1] >> to_imp) * part:
            load[a] = load.get(a, 0) + 1
            load[b] = load.get(b, 0) + 1
            keys.append(k)
        k += d
    vb = min(c[3], to[3])
    n = len(keys)
    cc = (ctypes.c_int * 4)(c[0], c[1], c[2], c[3])
    tt = (ctypes.c_int * 4)(*to)
    kk = (ctypes.c_uint64 * n)(*keys)
    out = (ctypes.c_uint64 * 1)()
    err = ctypes.create_string_buffer(4000)
    if LIB.hash_fill(cc, tt, n, kk, vb, 3, out, err, 4000):
        raise Violation(err.value.decode(errors='replace'))
    step(out[0])
    return n, out[0], room


# ---- preconditions -----------------------------------------------------------
def cases_construct(tier):
    for kind in (A, G, P, H64):
        for nb in (1, 2, 64, 127, 128, 129, 192, 255, 256, 1000, 1024, 4096):
            if kind == H64:
                yield [kind, nb, 0, 0]
                continue
            for kb in (1, 8, 10, 32, 40, 54, 63):
                for vb in (-1, 1, 24, 32, 54, 56, 62, 63):
                    yield [kind, nb, kb, vb]


def check_construct(case):
    kind, nb, kb, vb = case
    got = LIB.hash_construct(*case)
    pow2 = nb & (nb - 1) == 0
    if kind == H64:
        want = 0 if nb >= 128 and pow2 else 1
    else:
        v = 64 - kb if vb < 0 else vb
        imp = kb + v - 64
        want = 0
        if nb < 128 or not pow2 or imp < 0 or (nb >> imp) < 32:
            want = 1
        elif kind != P and imp != 0:
            want = 2
        elif kind == P and kb - imp <= 0:
            want = 2
    expect(got == want, 'constructing', case, 'gives', got, 'instead of', want)
    step()
    return got


def cases_bits(tier):
    for n in range(1, 70 if tier == 'quick' else 5000):
        yield [n]
    for b in range(6, 62):
        for d in (-1, 0, 1):
            yield [(1 << b) + d]


def check_bits(case):
    n, = case
    LIB.hash_bits_needed.argtypes = [ctypes.c_int64]
    b = LIB.hash_bits_needed(n)
    step()
    # all 0 <= key < n are storable, none of them all ones
    expect(n - 1 < (1 << b) - 1 and (1 << b) - 1 >= n, 'too few bits', n, b)
    expect(n >= (1 << (b - 1)), 'more bits than needed', n, b)
    return b


FAMILIES = [
    Family('explore', cases_explore, check_explore,
           'from the empty table, breadth-first to a fixpoint: every insertion, value update (both forms, both ways of getting the location), complete deletion in every order and resize to every layout of the group with and without contents, '
           'for every subset of 3 (thorough: 4) keys of a set chosen to collide in bucket, step, stored and implicit bits; in every reached state every lookup is compared with std::map'),
    Family('fill', cases_fill, check_fill,
           'arithmetic key progressions inserted up to the last free place of every group of buckets, all keys looked up after each insertion, then resized to another layout and deleted'),
    Family('construct', cases_construct, check_construct,
           'every documented precondition of the constructors and accessors over a grid of sizes and widths'),
    Family('bits', cases_bits, check_bits, 'number of bits reserved for all sizes to a bound and around all powers of two'),
]
