#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         level='exploration', note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na))


ENUM = 'bounded exhaustive enumeration of inputs run on the real code against '
FA = 'k2/python/k2/fsa_algo.py'

prop('A01', 'Structural rewrites preserve the weighted language',
     'Arc sorting, connecting, topological sorting, reversing, adding or removing epsilon self-loops, union, Kleene closure, '
     'inversion, expansion of multi-label arcs, replacement of arcs by automata and the linear-automaton constructors return a '
     'well-formed automaton whose weighted language (for transducers: weighted relation) is exactly the documented function of '
     'the input\'s. Each result has the structure the operation promises: sorted arcs, no useless states, topological order, '
     'and a reported origin for every arc.',
     ['inputs', 'programs'],
     'every automaton over a small alphabet up to a few states, every batch composition including empty automata, sizes around '
     'power-of-two boundaries',
     'The tests run each rewrite on a handful of hand-written automata and compare printed output; none covers empty automata '
     'inside a batch, useless cycles, or every arc configuration.',
     [FA, 'k2/csrc/fsa_algo.cu', 'k2/csrc/top_sort.cu', 'k2/csrc/connect.cu', 'k2/csrc/host/topsort.h', 'k2/csrc/fsa_utils.cu'],
     [('structural rewrites and their arc maps', 'k2/csrc/fsa_algo.cu, k2/csrc/top_sort.cu, k2/csrc/connect.cu'),
      ('attribute propagation around the rewrites', 'k2/python/k2/utils.py')],
     ENUM + 'a path/string-weight reference',
     note='every automaton with 3 states over {eps,1,2} (2^14), with 4 states over {1} (2^12), acyclic 5-state ones, all batches '
          'of 1..4 shapes, sizes 2..139 and power-of-two boundaries; strings up to length 4; CPU only')

prop('A02', 'Epsilon removal and determinization preserve weights',
     'Removing epsilons yields an epsilon-free automaton, and determinizing yields one in which no state has two arcs with the '
     'same label, while the best (tropical) weight of every accepted string is '
     'unchanged (determinization: of acyclic automata); epsilon removal with self-loops additionally has exactly one zero-score epsilon self-loop on every non-final '
     'state. For transducers every surviving path carries the output labels of an equally good original path, and each result '
     'arc reports the sequence of input arcs whose scores sum to its own.',
     ['inputs', 'programs'],
     'every small acyclic or cyclic automaton with epsilons, single and batched, host and device '
     'algorithms',
     'Existing tests compare a few examples or random equivalence on sampled paths; they cannot cover every epsilon topology '
     'and never check reported arc sequences exhaustively.',
     [FA, 'k2/csrc/rm_epsilon.cu', 'k2/csrc/host/rmepsilon.h', 'k2/csrc/host/determinize.h', 'k2/csrc/host/determinize_impl.h'],
     [('epsilon closure and removal', 'k2/csrc/rm_epsilon.cu, k2/csrc/host/rmepsilon.h'),
      ('weighted determinization', 'k2/csrc/host/determinize_impl.h')],
     ENUM + 'a string-weight reference',
     note='all 3-state automata over {eps,1,2}-subsets, all acyclic 4/5-state ones over {eps,1}; strings to length 5')

prop('A03', 'Composition and intersection accept exactly the matching pairs',
     'Intersecting two automata accepts exactly the strings both accept, with one result path per pair of matching paths (up to '
     'epsilon interleaving as documented) scored by the sum of their scores; composing two transducers gives exactly the '
     'relational composition of their weighted relations. This holds for both the epsilon-as-symbol and epsilon-aware '
     'variants, for any mapping of batch entries to the shared side, and whichever side is searched.',
     ['inputs', 'programs', 'configurations'],
     'every pair of small automata with and without epsilons, all batch mappings (one-to-one, one-to-many, repeated), all option '
     'values',
     'Unit tests use a few pairs; agreement over all pairs, all epsilon placements and all mappings is a universally quantified '
     'statement.',
     [FA, 'k2/csrc/intersect.cu', 'k2/csrc/host/intersect.cc', 'k2/csrc/fsa_algo.cu'],
     [('device intersection with hash of state pairs', 'k2/csrc/intersect.cu'),
      ('host intersection', 'k2/csrc/host/intersect.cc'),
      ('composition via attributes', FA)],
     ENUM + 'a path-pair reference',
     note='all pairs from complete small universes; all b_to_a maps up to 3 entries')

prop('A04', 'Arc attributes follow their arcs through every operation',
     'Whatever per-arc attributes (tensor, ragged or non-tensor) a user attaches to an automaton, every operation that returns '
     'an automaton gives each resulting arc the attribute values of the input arc(s) it was derived from: copied for one source, '
     'concatenated or summed for several, and the documented filler where there is none. Ragged attributes stay aligned with '
     'arcs, attributes from both inputs of a binary operation are merged as documented, and indexing, slicing and stacking '
     'of batches keep every entry\'s own attributes.',
     ['inputs', 'programs', 'histories'],
     'every operation, every attribute kind, every filler, chains of operations',
     'Tests check attributes after single operations on one example each; misalignment after particular chains, batches or '
     'empty entries is not reachable by them.',
     ['k2/python/k2/utils.py', 'k2/python/k2/fsa.py', FA, 'k2/python/k2/autograd.py'],
     [('attribute propagation helpers', 'k2/python/k2/utils.py'), ('attribute storage', 'k2/python/k2/fsa.py')],
     'exhaustive exploration of operation sequences to a depth bound, real code vs provenance reference',
     note='all sequences of attribute-carrying operations up to the depth bound over a small set of start automata')

prop('A05', 'Scores, posteriors and best paths equal path enumeration',
     'For acyclic automata, forward and backward state scores, total scores, arc posteriors and best paths equal the values '
     'obtained by enumerating all paths, in both semirings and both floating-point precisions; the best path is a real path '
     'of the input with maximal score, and n-best/random path sampling only ever returns real complete paths. Automata with no '
     'complete path have total score minus infinity and contribute an empty best path.',
     ['inputs', 'configurations'],
     'every small acyclic automaton and batch, including ones with empty members, dead states, parallel arcs and minus-infinity '
     'scores',
     'Tests check a few automata; numerically special scores, empty batch members and all topologies need exhaustive coverage.',
     ['k2/csrc/fsa_utils.cu', 'k2/python/k2/fsa.py', 'k2/python/k2/autograd.py', FA, 'k2/python/k2/nbest.py'],
     [('forward/backward/entering-arc computation', 'k2/csrc/fsa_utils.cu'), ('lazy score cache', 'k2/python/k2/fsa.py')],
     ENUM + 'path enumeration',
     note='every acyclic 4-state automaton over 2 parallel labels and 5-state ones, in batches with empty ones')

prop('A06', 'Gradients equal the true derivatives',
     'The gradient that backpropagation delivers for any differentiable quantity (total scores, state scores, arc posteriors, '
     'arc scores after any operation, dense intersection scores, CTC/LF-MMI style losses) equals the analytic derivative of '
     'that quantity with respect to every input score, including the accumulation over repeated uses and over arcs derived from '
     'several sources. In the tropical case the gradient is supported on one best path.',
     ['inputs', 'programs'],
     'every small acyclic automaton, every output element, chains of operations between input and output',
     'Tests check gradients on a few fixed examples; wrong accumulation only shows for particular topologies or batches.',
     ['k2/python/k2/autograd.py', 'k2/python/k2/ops.py', 'k2/csrc/fsa_utils.cu', 'k2/python/csrc/torch/fsa.cu'],
     [('custom backward functions', 'k2/python/k2/autograd.py'), ('score backprop', 'k2/csrc/fsa_utils.cu')],
     ENUM + 'derivatives computed by path enumeration',
     note='every acyclic 4-state automaton; every output element differentiated separately')

prop('A07', 'Dense intersection is exact; beam pruning only removes paths',
     'Intersecting a graph with a matrix of per-frame scores yields exactly the paths of the graph that consume every frame of '
     'the segment, each scored by graph scores plus the frame scores of its labels, for any segment lengths, order, overlap, '
     'sub-sampling of the batch and duration slack. The pruned variants return a subset of these paths with unchanged scores; '
     'with a beam and state limit that cannot exclude anything they return all useful ones, and otherwise every path within '
     'the documented limits survives.',
     ['inputs', 'configurations'],
     'every small graph and frame matrix, all segment layouts, all beams and active-state limits of a small grid, sequence '
     'lengths crossing the background pruning windows',
     'Tests check a few random matrices and never compare complete path sets under every limit.',
     ['k2/csrc/intersect_dense.cu', 'k2/csrc/intersect_dense_pruned.cu', 'k2/python/k2/dense_fsa_vec.py', 'k2/python/k2/autograd.py'],
     [('unpruned dense intersection', 'k2/csrc/intersect_dense.cu'), ('pruned dense intersection', 'k2/csrc/intersect_dense_pruned.cu')],
     ENUM + 'brute-force path products',
     note='all graphs of small universes, all lengths 0..4 and lengths around the 20/30-frame pruning windows')

prop('A08', 'Streaming decoding in chunks equals decoding in one go',
     'Feeding the frames of any number of utterances in chunks of any sizes, with any subset of the streams present in each '
     'chunk, produces for every stream the same lattice (same label sequences and scores) as decoding it offline on its own '
     'with the same limits. Partial results can be requested at any point without changing later results.',
     ['histories', 'configurations'],
     'every way of cutting a short sequence into chunks, every interleaving of two or three streams, every point of asking for '
     'partial results',
     'One test covers one chunking; the number of chunkings and interleavings is combinatorial.',
     ['k2/csrc/intersect_dense_pruned.cu', 'k2/python/k2/online_dense_intersecter.py', 'k2/python/csrc/torch/fsa_algo.cu'],
     [('online state carried between chunks', 'k2/csrc/intersect_dense_pruned.cu')],
     'exhaustive exploration of all chunkings/interleavings on the real code vs the offline run',
     note='all compositions of up to 6 frames into chunks, all interleavings of 2-3 streams, all partial-result points')

prop('A09', 'CTC graphs and CTC loss equal the alignment definition',
     'CTC topologies and graphs (standard and modified) accept exactly the frame-level alignments that collapse to the given '
     'label sequences, and map each to that sequence; the CTC loss equals minus the log of the summed probability of all '
     'alignments for every utterance, under every reduction, delay penalty and target-length normalisation offered, and its '
     'gradient is the corresponding derivative. Trivial graphs accept exactly the sequences they document.',
     ['inputs', 'configurations'],
     'every label sequence over a small vocabulary, every frame length, both topologies, all reductions and batch layouts',
     'Tests compare with a reference implementation on a few random inputs.',
     ['k2/csrc/fsa_algo.cu', FA, 'k2/python/k2/ctc_loss.py', 'k2/python/k2/symbol_table.py'],
     [('CTC constructions', 'k2/csrc/fsa_algo.cu'), ('loss', 'k2/python/k2/ctc_loss.py')],
     ENUM + 'alignment enumeration',
     note='all label sequences to length 3 over 2-3 symbols, frames to 5')

prop('A10', 'Transducer losses equal the sum over alignments',
     'Every transducer loss variant (simple, joint, pruned, smoothed; regular, modified and constrained alignment types; with '
     'and without boundaries, delay penalty and HAT normalisation) equals minus the log of the summed probability of all '
     'permitted alignments in the lattice it is documented to cover, and its gradient is the corresponding derivative. Pruning '
     'ranges always contain a complete admissible path, stay within bounds and are monotone, and a pruning range wide enough '
     'for everything gives the unpruned value. The lattice built from pruning ranges contains exactly the admissible paths, '
     'with the scores of the logits its arc map names.',
     ['inputs', 'configurations'],
     'all small grids of frames and symbols, all boundary rectangles, all types, reductions and prune widths',
     'Tests check a few random sizes; the boundary handling of each variant differs per size and type.',
     ['k2/python/k2/rnnt_loss.py', 'k2/python/k2/mutual_information.py', 'k2/python/csrc/torch/mutual_information_cpu.cu',
      'k2/python/csrc/torch/mutual_information.cu'],
     [('forward/backward recursion', 'k2/python/csrc/torch/mutual_information_cpu.cu'), ('normalisation and pruning', 'k2/python/k2/rnnt_loss.py')],
     ENUM + 'alignment enumeration',
     note='all S<=3..4, T<=4..5 grids with every boundary; all types')

prop('A11', 'Transducer beam search streams behave like separate searches',
     'Decoding several streams together with transducer log-probabilities keeps, at every step and for every stream, exactly '
     'the hypotheses a one-stream frame-synchronous beam search with the same graph, context size and limits would keep; the '
     'lattice reported afterwards contains exactly the surviving paths with correct scores, labels and attributes. The result '
     'for a stream does not depend on which other streams share the batch or when they end.',
     ['histories', 'inputs', 'configurations'],
     'every small graph, all log-probability patterns of a small alphabet, all stream subsets and end times, all limits',
     'One test decodes one random example; pruning limits, context merging and stream interleavings are never enumerated.',
     ['k2/csrc/rnnt_decode.cu', 'k2/csrc/rnnt_decode.h', 'k2/python/k2/rnnt_decode.py', 'k2/python/csrc/torch/rnnt_decode.cu'],
     [('stream state, expansion and pruning', 'k2/csrc/rnnt_decode.cu'), ('python wrapper', 'k2/python/k2/rnnt_decode.py')],
     'exhaustive exploration of step histories on the real code vs a reference beam search',
     note='all score patterns over a small alphabet for 3 frames, every frame-by-frame batching of up to 4 streams, grid of limits, all small graphs')

prop('A12', 'Ragged tensors behave like nested lists',
     'Every operation on ragged tensors and shapes (indexing, slicing, stacking, concatenating, removing or composing axes, '
     'sorting, unique, reductions per sublist, padding, filtering, arithmetic, autograd of reductions) gives the result that the '
     'same operation on nested lists gives, and every result is a well-formed ragged structure. Empty tensors, empty sublists '
     'and any number of axes are no exception.',
     ['inputs', 'programs'],
     'every nested-list structure up to a small size with 2 and 3 (and 4) axes, every argument value, short operation sequences',
     'Tests check one or two instances per operation.',
     ['k2/csrc/ragged_ops.cu', 'k2/csrc/ragged.cu', 'k2/csrc/ragged_utils.cu', 'k2/python/csrc/torch/v2/ragged_any.cu', 'k2/csrc/ragged_ops_inl.h'],
     [('shape and value operations', 'k2/csrc/ragged_ops.cu'), ('python class', 'k2/python/csrc/torch/v2/ragged_any.cu')],
     ENUM + 'a nested-list reference',
     note='all 2-axis structures with up to 4 rows and 3 elements per row, all 3-axis ones up to a total size; all arguments')

prop('A13', 'Serialized forms round-trip',
     'Writing an automaton, batch, ragged tensor or symbol table to any of its text or dictionary forms (plain, '
     'acceptor/transducer, OpenFst-style, with extra or ragged labels, pickled, dictionary) and reading it back gives an equal '
     'object, including attributes, scores and the final-state convention. Text with any legal spacing and ordering denotes the '
     'automaton it spells, and malformed text is rejected instead of misread.',
     ['inputs', 'histories'],
     'every small automaton and structure in every format; every single-token corruption of valid text',
     'Tests round-trip a few examples per format.',
     ['k2/csrc/fsa_utils.cu', 'k2/python/k2/fsa.py', 'k2/python/k2/symbol_table.py', 'k2/python/csrc/torch/v2/ragged_any.cu'],
     [('text formats', 'k2/csrc/fsa_utils.cu'), ('dictionary and string forms', 'k2/python/k2/fsa.py')],
     ENUM + 'equality after round trip',
     note='all small automata in every format, all single-token corruptions of a set of texts')

prop('A14', 'Batching never changes an entry\'s result',
     'Every operation that works on a batch gives, for each entry, the result it gives for that entry processed alone, whatever '
     'the other entries are, in whatever order, including empty entries and repeated ones. Splitting a batch and stacking the '
     'pieces gives back the batch.',
     ['inputs', 'configurations'],
     'every operation, every batch of up to a few shapes in every order',
     'Tests use one batch per operation, mostly of equal shapes.',
     ['k2/csrc/fsa_algo.cu', 'k2/csrc/fsa_utils.cu', 'k2/csrc/rm_epsilon.cu', 'k2/csrc/intersect.cu', 'k2/python/k2/fsa.py'],
     [('batched algorithms', 'k2/csrc/*.cu'), ('batch construction and slicing', 'k2/python/k2/ops.py, k2/python/k2/fsa.py')],
     ENUM + 'the same operation on single entries',
     note='all batches of up to 3 (thorough 4) of 11 kinds of automata under every batched operation; all pairs of batches, maps, graph/utterance batches, sequence batches, index vectors and cuts')

prop('A15', 'Operations neither modify inputs nor serve stale results',
     'No operation changes the automaton, ragged tensor or dense batch it is given (values, attributes, gradient flags, derived '
     'quantities) unless documented to work in place. After any history of assignments to scores, labels or attributes and reads '
     'of derived quantities, every derived quantity read is the one a freshly built object with the same content would give.',
     ['histories'],
     'every sequence of mutations and reads up to a depth bound, every operation as an observer',
     'Each test uses an object once; staleness needs read-modify-read histories.',
     ['k2/python/k2/fsa.py', 'k2/python/k2/utils.py', 'k2/python/k2/nbest.py', 'k2/python/k2/ops.py'],
     [('lazy caches of derived quantities', 'k2/python/k2/fsa.py')],
     'exhaustive exploration of read/write histories on the real object vs a fresh object',
     note='all histories up to depth 4 over the read/write alphabet')

prop('A16', 'Edit distance, n-best and minimum-error losses are exact',
     'Levenshtein graphs and alignments give exactly the edit distance (and a correct alignment) between every hypothesis and '
     'its reference for any insertion cost setting; n-best lists, path sampling helpers and rescoring keep paths, utterances and '
     'scores aligned; the minimum-word-error loss equals the expected error under the path posterior. Pruning arcs by posterior '
     'keeps exactly the arcs at or above the threshold.',
     ['inputs', 'configurations'],
     'every pair of label sequences over a small alphabet up to a length bound, in batches with every mapping',
     'Tests use a few hand-written pairs.',
     [FA, 'k2/python/k2/nbest.py', 'k2/python/k2/mwer_loss.py', 'k2/csrc/fsa_algo.cu'],
     [('Levenshtein construction', 'k2/csrc/fsa_algo.cu'), ('alignment', FA), ('n-best', 'k2/python/k2/nbest.py')],
     ENUM + 'the edit-distance recurrence and path enumeration',
     note='all pairs of sequences up to length 3-4 over 2 symbols, all score patterns over small n-best lists, all thresholds between arc posteriors')

prop('A17', 'Background threads never change results, lose work or deadlock',
     'Work handed to the background thread pool runs exactly once, waiting for it returns only after all of it has finished, and '
     'shutdown completes, under every interleaving of the threads involved. Decoding that prunes in a background thread gives '
     'the same lattice under every interleaving, and no memory location is accessed by two threads, one of them writing, without '
     'an order established by the synchronization of the program.',
     ['schedules'],
     'every interleaving of worker, submitting and waiting threads up to a preemption bound; every relative timing of the pruning '
     'thread and the decoding thread',
     'Tests observe whichever schedule the machine happens to produce.',
     ['k2/csrc/thread_pool.cu', 'k2/csrc/thread_pool.h', 'k2/csrc/semaphore.h', 'k2/csrc/intersect_dense_pruned.cu', 'k2/csrc/connect.cu'],
     [('task queue and condition variables', 'k2/csrc/thread_pool.cu'), ('semaphores between passes', 'k2/csrc/intersect_dense_pruned.cu')],
     'stateless model checking of the real code: preemption-bounded schedule enumeration under an interposed pthread scheduler',
     note='all schedules with at most 2 (quick) / 3 (thorough) preemptions of small drivers')

prop('A18', 'Indexing, accumulation and sparse helpers are exact',
     'Index selection, index addition, gather-and-sum, arc-map composition, sparse matrix construction and the fused '
     'activation functions return exactly what the naive definition gives for every index pattern, including repeated and '
     'missing (-1) indexes, strided, empty and one-element tensors, and deliver the corresponding gradients.',
     ['inputs'],
     'every index vector over small ranges, all dtypes, strides, and shapes offered',
     'Tests use a few random instances.',
     ['k2/python/csrc/torch/index_select.cu', 'k2/python/csrc/torch/index_add.cu', 'k2/python/k2/ops.py', 'k2/python/k2/sparse/autograd.py',
      'k2/python/k2/swoosh.py', 'k2/python/csrc/torch/torch_util.cu', 'k2/csrc/array_ops.cu'],
     [('index kernels', 'k2/python/csrc/torch/index_select.cu'), ('autograd wrappers', 'k2/python/k2/ops.py')],
     ENUM + 'naive Python definitions',
     note='all index vectors up to length 3-4 over sources of size 0..3 for each dtype and memory layout of every argument and gradient')

prop('A19', 'Reported properties are correct and malformed input is refused',
     'The properties reported for an automaton or batch (valid, non-empty, sorted, deterministic, acyclic, epsilon-free, '
     'accessible, co-accessible) agree with its structure for every well-formed automaton. Automata that violate the structural '
     'rules are refused with an exception by constructors and checked operations; no input makes them corrupt memory or return '
     'silently wrong structure.',
     ['inputs'],
     'every arc list over a small range of states and labels (legal or not), all attribute shapes',
     'Tests check a few property strings.',
     ['k2/csrc/fsa.cu', 'k2/python/k2/fsa.py', 'k2/python/csrc/torch/fsa.cu', 'k2/csrc/fsa_utils.cu'],
     [('basic property computation', 'k2/csrc/fsa.cu'), ('construction from tensors', 'k2/csrc/fsa.cu, k2/csrc/fsa_utils.cu')],
     ENUM + 'definitions evaluated on the arc list',
     note='3-state automata with up to 2 (thorough 3) arcs per state in any order, 4-state with up to 1 (2); batches of up to 3 (4) shapes; malformed arc lists of up to 3 arcs over states -1..3 and labels -2..2; every change of 1-2 integers of FsaVec tensors; every wrong shape, type and label assignment')

prop('A20', 'The C++ decoding API agrees with the Python one',
     'The C++ interface for deployed decoding (graphs and their serialized files, lattices from acoustic scores, attribute '
     'handling of the wrapper class, graph operations on it, best-path token sequences, rescoring, n-best lists, greedy and '
     'beam transducer search, streaming sessions, symbol tables, wave files, utilities) gives the same results as the '
     'corresponding Python functions or definitions on the same inputs, never changes the automata given to it, and refuses '
     'malformed files with an exception instead of corrupting memory or hanging.',
     ['inputs', 'configurations', 'histories'],
     'small graphs, score matrices, batch layouts, attribute sets, tensor strides, stream histories, malformed files',
     'The C++ side has its own tests on single examples and they are not part of the stable suite.',
     ['k2/torch/csrc', 'k2/csrc/torch_api.cu', 'k2/csrc/torch_api.h'],
     [('C++ wrapper class', 'k2/torch/csrc/fsa_class.cu'), ('decoding', 'k2/torch/csrc/decode.cu, k2/torch/csrc/beam_search.cu, k2/csrc/torch_api.cu'),
      ('files', 'k2/torch/csrc/deserialization.cu, k2/torch/csrc/symbol_table.cu, k2/torch/csrc/wave_reader.cu')],
     ENUM + 'the Python implementation and definitions, through a driver compiled against the C++ headers',
     note='20 families of small graphs, score matrices, attribute sets, stream histories and files; the C++ functions are called '
          'through a thin extension module compiled at check time; CPU only')

prop('A21', 'The concurrent hash table behaves like a map',
     'After any sequence of insertions, lookups, value updates, deletions and resizes, in any of the key layouts, the hash table '
     'used for state pairs contains exactly the pairs a plain map would, and a failed insertion reports the existing pair.',
     ['histories'],
     'every operation sequence up to a depth bound on colliding keys, all key widths',
     'C++ tests insert random keys once; they are not part of the stable suite and cover no deletion/insertion histories.',
     ['k2/csrc/hash.h', 'k2/csrc/hash.cu'],
     [('open addressing with deletion markers', 'k2/csrc/hash.h')],
     'explicit-state breadth-first exploration to a fixpoint of all operation sequences on the real table vs std::map',
     level='exploration',
     note='all states reachable by any operation sequence over every 3 (thorough: 4-5) colliding keys, 6 groups of table layouts of 128-1024 buckets; single-threaded')


prop('A22', 'Swoosh activations equal their formulas',
     'The swoosh activation functions return the documented value and derivative for every input of every floating point type, '
     'shape and memory layout, without overflow; with gradients required, the gradient is within one of its 256 levels of the '
     'derivative and unbiased, and dropout zeroes values and their gradients with the given probability and rescales the rest.',
     ['inputs', 'configurations'],
     'all 16-bit floating point patterns, all dropout probabilities of a grid including 0 and 1, shapes and strides',
     'The tests draw a few normal random numbers: neither large nor tiny inputs, nor a dropout probability of 1.',
     ['k2/python/csrc/torch/v2/autograd/swoosh.h', 'k2/python/csrc/torch/v2/autograd/swoosh.cu'],
     [('forward with quantised derivative', 'k2/python/csrc/torch/v2/autograd/swoosh.h')],
     'exhaustive enumeration of all 16-bit floating point inputs run on the real code against the formula',
     note='all 65536 half and all 65536 bfloat16 patterns (also as single/double) x 6 functions x 6 dropout probabilities; CPU only')

prop('A23', 'Operations stay within their memory and do not depend on its former content',
     'On valid input and on input they refuse, all operations only read and write inside arrays they own: never beyond either '
     'end, never after the array was released. Their results do not depend on what freshly allocated memory contained, and '
     'repeating an operation does not leave more and more arrays behind.',
     ['inputs', 'histories', 'configurations'],
     'the inputs and histories of all other properties, several memory layouts and fill patterns',
     'An out-of-bounds read of a neighbouring array or an uninitialised value passes a test whenever memory happens to be '
     'benign, which it is in small tests.',
     ['k2/csrc', 'k2/python/csrc/torch', 'k2/torch/csrc'],
     [('array kernels', 'k2/csrc/ragged_ops.cu, k2/csrc/array_ops.cu, k2/csrc/fsa_algo.cu, k2/csrc/intersect_dense_pruned.cu'),
      ('ownership of memory', 'k2/csrc/context.cu, k2/csrc/pytorch_context.cu, k2/csrc/torch_util.cu')],
     'bounded enumeration of the cases of all other properties x adversarial memory layouts (guard pages on either side, '
     'junk fill, unmapping on release), crash and difference monitoring on the real code',
     note='about 6 (thorough 400) evenly spaced cases of each family of A01-A16, A18-A20, A22, each in three memory layouts; arrays '
          'of the CPU allocator only')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in p['mech']]},
            }) + '\n')
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')
        if os.path.exists(mod) and not p['na']:
            checks.append({
                'property': p['id'],
                'quick_cmd': f'./run.sh {p["id"]} quick',
                'thorough_cmd': f'./run.sh {p["id"]} thorough',
                'technique': p['technique'], 'level': p['level'],
                'level_note': p['note'],
                'evidence_file': f'evidence/{p["id"]}.json'})
        else:
            na.append({'property': p['id'],
                       'reason': p['na'] or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'K2_NATIVE_ONLY=1 bash /opt/vp/build.sh',
         'checks': checks, 'not_applicable': na,
         'notes': 'see DESIGN.md; no hooks are needed in /repo'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
