"""A23: operations stay within their memory.

The cases of the other properties are run under an allocator that puts every
array of torch and k2 against an inaccessible page (behind it in one run, in
front of it in another), fills fresh memory with junk (different junk in each
run) and unmaps freed memory."""
import gc
import importlib
import os

from mc.core import Family, Violation, expect, step

PROPS = ['a01', 'a02', 'a03', 'a04', 'a05', 'a06', 'a07', 'a08', 'a09', 'a10',
         'a11', 'a12', 'a13', 'a14', 'a15', 'a16', 'a18', 'a19', 'a20', 'a22']
# cases per family
COUNT = {'quick': 6, 'thorough': 400}
DYNAMIC = True
SKIP = set()
LIST = {}
FAMS = {}
lib = None


def setup(tier):
    global lib
    from mc import native
    import torch  # noqa: the allocator must be there before k2 uses it
    torch.set_num_threads(1)
    lib = native.load('guard.cc', libs=(), before_k2=True)
    lib.guard_install()
    for p in PROPS:
        m = importlib.import_module('mc.props.' + p)
        if hasattr(m, 'setup'):
            m.setup('quick')
        for f in m.FAMILIES:
            if (p, f.name) in SKIP:
                continue
            FAMS[p + '.' + f.name] = f
            allc = list(f.cases('quick'))
            k = max(1, len(allc) // COUNT[tier])
            LIST[p + '.' + f.name] = [[p + '.' + f.name, c]
                                      for c in allc[k // 2::k]]


def run(fam, case, mode):
    lib.guard_mode(mode)
    try:
        return repr(fam.check(case))
    except Violation:
        return 'violation'
    except Exception as e:  # noqa: judged by the check of the other property
        return type(e).__name__
    finally:
        lib.guard_mode(0)


def live():
    gc.collect()
    return lib.guard_live()


def check(item):
    name, case = item
    fam = FAMS[name]
    plain = run(fam, case, 0)
    counts = [live()]
    for mode in (1, 2):
        got = run(fam, case, mode)
        step()
        expect(got == plain, 'the outcome of', name, case,
               'depends on the content of fresh memory:', plain[:300],
               'with junk', mode, 'it is', got[:300])
        counts.append(live())
    if counts[0] < counts[1] < counts[2]:
        for i in range(3):
            run(fam, case, 0)
            counts.append(live())
        expect(counts != sorted(set(counts)), 'every run of', name, case,
               'leaves more arrays behind:', counts)
    return [name, plain]


def family(p):
    def cases(tier):
        for n in LIST:
            if n.startswith(p + '.'):
                yield from LIST[n]
    return Family(p.upper(), cases, check,
                  'every k-th case (k such that there are about 6, thorough: '
                  '400, per family) of the enumerations of ' + p.upper() +
                  ', in three memory layouts')


FAMILIES = [family(p) for p in PROPS]
ASSUMPTIONS = [
    'arrays that torch and k2 allocate through the CPU allocator; containers '
    'of the C++ standard library and of Python are not guarded',
    'an access beyond the page next to a block is not seen',
]
