#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written text below, families taken from the modules.

  PYTHONPATH=/verif:/repo/k2/python:/opt/k2-build/lib \
      /opt/venv/bin/python tools/design.py
"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = '''# Design

Generated by `tools/design.py` (text and tables); properties and manifest are
generated by `tools/meta.py`; the facts they share live there.

## Approach

Every property is decided by model checking **of the real code**: a bounded
space of behaviours is enumerated completely (every automaton over a set of
arc slots, every batch up to a length, every chunking of a stream, every
operation sequence up to a depth, every interleaving of the threads, every
reachable state of the hash table), each one is executed on the libraries
built from `/repo`'s working tree, and the result is compared with a reference
that is written in plain Python from the definition (path enumeration, string
weights, nested lists, sums over alignments, `std::map`).  There is no
separate model of k2 that could drift: where a reference *state machine* is
used (A08, A11: frame-synchronous search; A15: object histories; A21: map) it
runs in lock-step with the implementation and every transition is compared,
which is the conformance check.  Nothing is sampled: the seed is recorded but
unused, and the order of enumeration is fixed.

Three properties need a scheduler, a state graph or an allocator:

* **A17** executes the real thread pool, semaphores and background pruning:
  all of `k2/csrc` is compiled with the instrumentation calls of
  `-fsanitize=thread`, which are served by our own runtime
  (`mc/native/mcsched.cc`) instead of the TSan library. The pthread functions
  are interposed, exactly one thread runs at a time, and the explorer
  enumerates depth-first every schedule with at most B preemptions and S
  spurious wakeups (stateless, each schedule is re-executed in a forked
  process). A vector-clock detector on the instrumented accesses reports every
  pair of accesses that the program does not order; a state in which no thread
  is enabled is a deadlock.
* **A21** is an explicit-state exploration: breadth-first from the empty table
  to a fixpoint over (table contents, layout), states canonicalised by the raw
  memory of the table, in every state all lookups are compared with a map.

* **A23** multiplies the enumerations of all other properties by memory
  layouts: the CPU allocator of torch and k2 is replaced (`mc/native/guard.cc`)
  so that every array ends (or begins) at an inaccessible page, fresh memory
  holds one of two junk patterns and released memory is unmapped. A crash, a
  damaged border, an outcome that differs between layouts, or a number of live
  arrays that grows with every repetition is a violation; the oracles of the
  other properties are not consulted, so a functional bug alone does not make
  A23 fail.

`run.sh PROP [quick|thorough]` rebuilds incrementally (`K2_NATIVE_ONLY=1
/opt/vp/build.sh`, guarded by a lock), then runs `mc/main.py`:

* `mc/core.py` `Family(name, cases, check, rule)`: `cases(tier)` enumerates,
  `check(case)` runs one case on the real code, raises `Violation` or returns
  an outcome signature (distinct outcomes are counted for the evidence so that a
  vacuous space is visible), `step()` counts operations of the code under test;
* `mc/main.py`: worker processes (crash-proof: a worker that dies, e.g. by a
  segmentation fault, or exceeds a time limit is a violation of that case),
  replay files, known findings, evidence;
* `mc/ref.py`, `mc/lang.py`: automata as arc lists, path enumeration, string
  weights, universes (`from_bits`: automaton number x of a slot set);
* `mc/native.py`: compiles the C++ drivers of A17, A20, A21, A23 against the
  current headers and libraries (outside `/repo`, in a temporary directory).

Guarantees about the verdict: exit 1 only with a `VIOLATION` line, each
violation has a replay file (`python -m mc.main PROP --replay FILE`), a case
listed in `known_findings.txt` is printed as `KNOWN-FINDING` and nothing else
is suppressed.  A build that fails is reported as an error exit, not as a
violation.

No hooks were needed in `/repo` (MANIFEST `hooks` is empty).  The interposition
of A17 happens in its driver, which compiles `k2/csrc` itself and defines the
pthread functions.

## Comparison policy

Scores are small dyadic numbers, so sums of paths are exact in float32 and
compared for equality where no logarithm is involved; log-semiring values use a
tolerance of 1e-4 (float32) or 1e-9 (float64) relative to the magnitude.
Reference results are *sets or multisets of paths*, never a particular
numbering of states, so refactorings that renumber states or reorder arcs
where the documentation leaves that open stay quiet; only where an order is
promised (arc_sort, top_sort, batches) is it checked.  Ties (several best
paths) accept every optimal answer.
'''

TEXT = {
'A01': '''Oracle: `mc/ref.py` string weights (map from label string to the sorted list of path scores, up to a length that covers every acyclic path or 4 symbols) before and after; per-arc origin through an index attribute attached to every arc.
Not covered: `closure` when the start state has entering arcs (known finding), `random_fsa`, `replace_fsa` into sources without states, unions of automata with fewer than 2 states (documented precondition), `top_sort` with arcs entering the start state (refused).''',
'A02': '''Oracle: best weight of every string up to length 5; determinism/epsilon-freeness by inspection; the reported arc sequence must be a real path of the input whose scores sum to the arc's. Determinization is compared only for acyclic (or known-determinizable) inputs: it need not terminate otherwise.''',
'A03': '''Oracle: the multiset of matching path pairs. With epsilons on both sides the epsilon-aware variants produce each pair once per interleaving (documented in `host/intersect.h`), which the reference counts.''',
'A04': '''Oracle: every arc of a leaf carries attribute values that encode its own identity (scores are distinct powers of two, so the sum of the sources of a result arc identifies the set of sources without trusting the arc map); the expected attribute of each result arc is computed from the decoded set. Programs of up to three operations are enumerated.''',
'A05': '''Oracle: enumeration of all paths, both semirings, in Python floats.''',
'A06': '''Oracle: analytic derivatives from path enumeration (occupation probabilities; for arc posteriors the covariance form), and for compositions exact one-sided slopes of the piecewise linear tropical functions.''',
'A07': '''Oracle: the documented frame-synchronous search written directly on (frame, state) pairs with exact arithmetic, including search beam, the dynamic adaptation of the beam by min/max active states, the output beam, and pruning windows.
Documented limits: graph labels below the number of columns (only checked in debug builds); `max_states`/`max_arcs` below the size of the best path give an empty lattice; lattices of more than 20 frames may keep dead-end arcs (known finding).''',
'A08': '''Oracle: the reference search of A07 run on all frames so far, after every chunk. A stream that gets fewer frames than the longest one of a call has ended by definition of the interface.''',
'A09': '''Oracle: all label sequences of length T are enumerated and collapsed; losses are sums over exactly those alignments.''',
'A10': '''Oracle: direct recursion over the lattice in Python (log-add), per variant and boundary; gradients from forward/backward occupation of the same reference.''',
'A11': '''Oracle: a dictionary-based beam search per stream: hypotheses keyed by (context, graph state), one frame at a time, limits as documented.''',
'A12': '''Oracle: nested Python lists.''',
'A13': '''Oracle: independent writer/reader of each format in Python, plus the equality of the re-read object; malformed texts are enumerated by single edits of legal ones.''',
'A14': '''Oracle: the result of the same operation on each entry alone. The choice between host and device algorithm depends on properties of the whole batch and may change arc order or the form of an attribute, so such operations are compared within the same path.''',
'A15': '''Oracle: after each step of a history every derived quantity of the object is compared with that of a freshly constructed one; every argument of every operation is compared bit by bit (values, attribute identity, versions, requires_grad) before and after.''',
'A16': '''Oracle: dynamic programming edit distance; expected error over the enumerated path posterior.''',
'A17': '''See above. Oracle: each task ran exactly once before the waiting call returned, the destructor returned, lattices are bit-equal to those of the default schedule, no unordered accesses, no deadlock. The bounds per driver are in the family lines and in the evidence (schedules and decisions explored).''',
'A18': '''Oracle: naive loops, and derivatives computed by hand for the activation functions.''',
'A19': '''Oracle: the structural rules written out in Python for every arc list of the space; for refused input the check is that an exception is raised, that no process dies and that no accepted object differs from the arc list it was given.''',
'A20': '''Oracle: the Python implementation on the same input, in the same process, through a pybind11 module around the C++ API (`mc/native/torchapi.cc`) compiled against the current headers; for the searches, symbol tables, wave files and options independent references.
Differences that are documented or loud: inverting ragged output labels keeps lists in C++ where Python returns a tensor; C++ has no custom fillers (0); empty lists of segments and integer attributes of 64 bits are refused. WAVE chunks of odd size are not padded by the reader (refused loudly in most files).''',
'A21': '''See above.''',
}

TAIL = '''
## Defects found in k2

All are listed in `known_findings.txt`: `fixed:` entries name the commit in
`/repo`, `finding:` entries are genuine but not small and safe to repair:

* `closure` of an automaton whose start state has entering arcs (the
  documented construction is wrong for it);
* `intersect_dense_pruned` on more than 19 frames leaves dead-end arcs in the
  lattice although the header promises coaccessible states.

## False alarms corrected while building

The properties were first written stronger; these were weakened because the
documentation or the caller contract is explicit:

* score functions need top-sorted input; posteriors of automata without a
  path are unconstrained; elements of value -inf are not differentiated;
* `intersect` refuses same-named non-float attributes; fillers of same-named
  float attributes are taken to be equal on both inputs; float attributes of
  arcs without a source may be 0 or the filler after remove_epsilon and
  determinize;
* tensor/dict form of a single automaton needs an arc to its final state;
* `intersect_dense` needs segments in order of decreasing duration; a delay
  penalty is only applied if positive and for rectangles that begin at frame 0;
  constrained lattices with a range of width 1 have no path; a CTC graph built by
  composition must not combine explicit epsilon self-loops with
  `treat_epsilons_specially`;
* final arcs of transducer lattices carry score 0, and with `allow_partial`
  their multiplicity and scores are not specified; an object without decoded
  frames cannot format output;
* strided sources and indexes, slices with a step, negative integer indexes
  are refused loudly (no violation), `to_str_simple` writes scores with float32
  precision;
* the smoothed transducer loss averages over the batch by definition;
  `determinize`, `connect`, `arc_sort`, `top_sort`, `expand_ragged_attributes`
  may return their input;
* one-state automata are unspecified.

## What is outside

CUDA kernels (no GPU here; the CPU build compiles the same lambdas
sequentially), floating-point rounding beyond the tolerances, sizes beyond the
bounds stated per family, scripts and shell glue, the Sphinx documentation.
Nothing is listed under `not_applicable`: each property has at least a bounded
instance that can be enumerated on the real code.
'''


def main():
    out = [HEAD, '\n## Properties\n']
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    for p in props:
        pid = p['id']
        out.append(f"### {pid} {p['title']}\n")
        try:
            m = importlib.import_module('mc.props.' + pid.lower())
        except ImportError as e:
            out.append('(no check yet)\n')
            continue
        out.append(TEXT.get(pid, '') + '\n')
        out.append('Enumerated (every case of each line; thorough extends):\n')
        for f in m.FAMILIES:
            out.append(f'* `{f.name}`: {f.rule}')
        out.append('')
        a = getattr(m, 'ASSUMPTIONS', None)
        if a:
            out.append('Assumptions: ' + '; '.join(a) + '.\n')
        try:
            e = json.load(open(f'{HERE}/evidence/{pid}.json'))
            c = e['coverage']
            w = sum(f.get('wall_s', 0) for f in c.get('families', {}).values())
            out.append(f'Last {e["tier"]} run: {c["evaluations"]} cases, '
                       f'{c.get("transitions", "?")} operations of the code '
                       f'under test, {c["distinct_nontrivial"]} distinct '
                       f'outcomes, {w:.0f} s (8 cores).\n')
        except OSError:
            pass
    out.append(TAIL)
    out.append('## Planted bugs\n')
    out.append('Each is in `seeded/`, confirmed with its demonstration, and '
               'run against the checks with `tools/seed.sh`.\n')
    out.append('| bug | property | needs | caught by |')
    out.append('|---|---|---|---|')
    caught = {}
    if os.path.exists(HERE + '/seeded/caught.json'):
        caught = json.load(open(HERE + '/seeded/caught.json'))
    for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        j = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append(f"| {n} | {j['property']} | {j['needs']} | "
                   f"{caught.get(n, '')} |")
    out.append('')
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))


main()
