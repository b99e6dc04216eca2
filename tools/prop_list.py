SE = 'solver-based symbolic execution of the compiled source (LLVM IR + Z3)'
SEC = 'symbolic execution with bounded-preemption schedules, happens-before race detection (LLVM IR + Z3)'
SEP = 'solver-backed symbolic execution of the Python source (Z3)'

p('P01', 'Bit-level array operations never touch a bit outside their range',
  'Scanning, counting, setting, copying and and-ing ranges of bits stored in words of any unsigned width gives exactly the result of doing it bit by bit, for every word content, every pair of bit offsets and every length. Bits outside the destination range are unchanged and no word outside the ranges is read or written.',
  'inputs', 'every word content; every source and destination bit offset and length within a few words; 32- and 64-bit words',
  'The tests use a handful of offset/length pairs and fixed words; wrong masks at word boundaries show only for particular offset, length and content combinations.',
  'arolla/util/bits.h arolla/util/algorithms.h', [('word-wise masks and shifts', 'arolla/util/algorithms.h: CopyBits, LogicalAnd'), ('bit scans', 'arolla/util/bits.h')], SE)
p('P02', 'Searches in sorted arrays return the exact insertion point',
  'Every binary, galloping and exponential search over a sorted array returns the same position as a linear scan, for every array and every sought value, including duplicates, NaN and infinities where the search is defined for floating point. It reads no element outside the array.',
  'inputs', 'all sorted arrays of up to 9 elements (18 in thorough) of int32, int64, float and double, all sought values',
  'Tests check a few arrays; off-by-one errors depend on the array length and on where the value falls between duplicates.',
  'arolla/util/binary_search.h arolla/util/algorithms.h', [('small-array fast paths, branchless search', 'arolla/util/binary_search.h'), ('exp_lower_bound', 'arolla/util/algorithms.h')], SE)
p('P03', 'Reference-counted ownership frees exactly once, never early, never late',
  'An object held through reference-counted pointers lives exactly as long as some pointer refers to it and is destroyed exactly once, under every sequence of copies, moves, swaps, resets, self-assignments and releases. When several threads drop references, exactly one destroys the object and it sees everything the other threads did before dropping theirs.',
  'histories schedules', 'all short sequences of pointer operations; all interleavings of 2-3 threads within a preemption bound, with memory orders honoured',
  'Tests run a few sequences on one schedule; a weakened memory order or a lost count shows only under a particular interleaving, and on x86 mostly never.',
  'arolla/util/refcount.h arolla/util/refcount_ptr.h arolla/util/thread_safe_shared_ptr.h', [('atomic decrement with acquire-release', 'arolla/util/refcount.h: decrement'), ('copy/move/assign', 'arolla/util/refcount_ptr.h')], SEC)
p('P04', 'Parallel task execution runs every task once and waits for all of them',
  'Executing a list of tasks on a threading backend runs every task exactly once, returns only after all of them have finished, and makes their effects visible to the caller. This holds for any number of tasks and workers and any scheduling, without deadlock or data race.',
  'schedules inputs', 'all interleavings within a preemption bound of up to 3 tasks on up to 3 workers',
  'The existing tests run one schedule at a time; lost wake-ups, early returns and races need a specific interleaving.',
  'arolla/util/threading.h arolla/util/threading.cc', [('task counter, WithThreading callbacks and notification', 'arolla/util/threading.cc')], SEC)
p('P05', 'Cancellation is delivered once, to live subscribers only, and never lost',
  'Once a cancellation is requested, its status never changes, every callback subscribed before or after is called exactly once, and a callback whose subscription was dropped before that is never called. Scoped guards restore the previous context in any nesting, and waiting on a one-shot event never misses the notification, under every interleaving.',
  'histories schedules', 'all sequences of up to 7 operations on up to 3 subscriptions; interleavings of two threads within a preemption bound',
  'Tests cover a few sequences; the races between subscribing, dropping and cancelling need particular schedules.',
  'arolla/util/cancellation.h arolla/util/cancellation.cc arolla/util/permanent_event.h arolla/util/permanent_event.cc arolla/util/threadlocal.h',
  [('callback list under a lock, done flag', 'arolla/util/cancellation.cc'), ('thread-local current context', 'arolla/util/cancellation.h: ScopeGuard'), ('event flag and condition variable', 'arolla/util/permanent_event.cc')], SEC)
p('P06', 'The LRU cache holds at most its capacity and evicts the least recently used',
  'After any sequence of insertions, lookups and clears, the cache holds exactly the longest run of most recently used entries whose total weight fits its capacity (the newest entry always stays), and a lookup returns the value last stored for an equal key. Hash collisions change nothing, and no pointer it holds dangles.',
  'histories inputs', 'all sequences of up to 5 operations (6 in thorough) over 3 keys, capacities 1 to 3, colliding and non-colliding hashes',
  'Tests run two or three sequences; index/list mismatches need a sequence of hits and evictions in a particular order.',
  'arolla/util/lru_cache.h', [('recency list and hash index of list iterators', 'arolla/util/lru_cache.h')], SE)
p('P07', 'Array iterators, packed accessors, zero pages and layout checks are exact',
  'Random-access iterators over indexed containers obey the iterator laws for every position and offset, and sorted map keys come out sorted and complete. A pack of typed accessors is seen in its declared order with nothing lost, shared zero memory is zero and aligned for every size requested, index dispatch reaches exactly the branch asked for, and a declared struct layout is accepted only when it is the compiler\'s.',
  'inputs', 'all iterator positions in containers up to 5 elements, all maps up to 4 keys, all offsets, sizes and alignments in stated ranges',
  'Tests use one container and a few offsets; sign, wrap and boundary mistakes hide in the combinations.',
  'arolla/util/iterator.h arolla/util/map.h arolla/io/accessor_helpers.h arolla/util/preallocated_buffers.h arolla/util/preallocated_buffers.cc arolla/util/switch_index.h arolla/util/struct_field.h arolla/util/memory.h arolla/util/raw_span.h arolla/util/meta.h',
  [('index arithmetic', 'arolla/util/iterator.h'), ('tuple packing', 'arolla/io/accessor_helpers.h'), ('aligned static zero page', 'arolla/util/preallocated_buffers.cc')], SE)
p('P08', 'Arithmetic and casts give the documented result for every pair of operands',
  'Integer addition, subtraction, multiplication, negation and absolute value wrap around and never trap; floor division and modulo round toward minus infinity with the identity x = y*(x//y) + x%y, and dividing an integer by zero is reported as an error. Min, max, sign, rounding and the float functions treat NaN, infinities and signed zeros as documented, and a cast either gives the exact value or reports that it does not fit.',
  'inputs', 'every pair of 32- and 64-bit integers (division at reduced value ranges where the solver needs it), every float and double bit pattern',
  'Tests use some dozens of operand pairs; overflow, rounding at the edge of a type and special values are the rest of 2^64 to 2^128 pairs.',
  'arolla/qexpr/operators/math/arithmetic.h arolla/qexpr/operators/math/math.h arolla/qexpr/operators/bitwise/bitwise.h arolla/qexpr/operators/core/cast_operator.h', [('wrap-around arithmetic, floor division', 'arolla/qexpr/operators/math/arithmetic.h'), ('range checks of casts', 'arolla/qexpr/operators/core/cast_operator.h')], SE)
p('P09', 'Missing values propagate, and comparisons and logic treat them consistently',
  'An operator lifted to optional values is present exactly when all its arguments are, and then has the value of the plain operator. Presence and, or, not, where, has, coalesce and the three-valued boolean operators follow their truth tables, equal and less are total on present values with NaN unequal to everything, and a lazy branch is evaluated only when it is chosen.',
  'inputs', 'every combination of presence and value of every argument, for integer, float, boolean, text and unit types',
  'Tests tabulate some combinations per operator; the value under a missing mark and mixed optional/plain signatures are rarely among them.',
  'arolla/memory/optional_value.h arolla/qexpr/operators/core/logic_operators.h arolla/qexpr/operators/bool/logic.h arolla/qexpr/operators/bool/comparison.h arolla/qexpr/lifting.h', [('optional equality and lifting', 'arolla/memory/optional_value.h'), ('where, presence_and/or', 'arolla/qexpr/operators/core/logic_operators.h'), ('Kleene logic', 'arolla/qexpr/operators/bool/logic.h')], SE)
p('P10', 'Buffers hold the values written to them, and slices and copies keep them alive',
  'A buffer built in any way (whole, appended, reshuffled, through an inserter) holds exactly the written values in order, and slicing, copying or reshuffling a buffer any number of times reads the right elements and nothing outside them. Memory comes from the factory that was asked, is aligned, stays valid as long as a buffer refers to it, and is released once.',
  'inputs histories', 'all sizes up to 5 elements, strings of up to 3 characters, all slice bounds, all reshuffle maps, sequences of arena allocations and resets',
  'Tests use a few literal buffers; the base offsets and shared ownership of slices of copies of slices are not combined there.',
  'arolla/memory/simple_buffer.h arolla/memory/strings_buffer.h arolla/memory/strings_buffer.cc arolla/memory/void_buffer.h arolla/memory/raw_buffer_factory.h arolla/memory/raw_buffer_factory.cc', [('offsets and base offset', 'arolla/memory/strings_buffer.cc'), ('bump allocation and reallocation', 'arolla/memory/raw_buffer_factory.cc: UnsafeArenaBufferFactory')], SE)
p('P11', 'A dense array is its list of optional elements, whatever its bitmap offset',
  'Every way of building, slicing, copying, iterating or reading a dense array or its presence bitmap sees exactly the same elements: the present ones with their values, the others missing. This holds for every size, bitmap bit offset and mix of missing elements, with or without a bitmap, and nothing outside the array\'s bits or values is read or written.',
  'inputs', 'all presence patterns and values of arrays of up to two or three bitmap words, bit offsets 0 to 31 sampled at the edges, all slice bounds',
  'Tests use a few sizes and mostly zero offsets; errors at word edges need a particular combination of offset, size and presence bits.',
  'arolla/dense_array/bitmap.h arolla/dense_array/bitmap.cc arolla/dense_array/dense_array.h', [('bitmap words, builders, readers', 'arolla/dense_array/bitmap.h'), ('slices and builders', 'arolla/dense_array/dense_array.h')], SE)
p('P12', 'Operations over dense arrays apply the plain operation to each element',
  'An operation applied to dense arrays gives, for every element, what the plain operation gives on that element\'s arguments: missing where it should be, evaluated only where its arguments are present unless the operation is declared total, with errors reported and sizes checked. Logic operators, constants, indices, filters and every lifting of an operator agree, whatever bitmaps, offsets and buffer layouts the arguments have.',
  'inputs', 'all presence bits and values near word edges of arrays of up to 40 elements, bit offsets on either side of a word edge, every mix of full, partial and absent bitmaps',
  'Tests use short arrays with aligned bitmaps; word-at-a-time code fails for particular offset and size combinations only.',
  'arolla/dense_array/ops/dense_ops.h arolla/dense_array/ops/universal_dense_op.h arolla/dense_array/ops/util.h arolla/qexpr/operators/dense_array/lifter.h arolla/qexpr/operators/dense_array/logic_ops.h arolla/qexpr/operators/dense_array/array_ops.h arolla/qexpr/operators/dense_array/factory_ops.h', [('word-wise loops', 'arolla/dense_array/ops/dense_ops.h'), ('general element-wise operation', 'arolla/dense_array/ops/universal_dense_op.h'), ('bitmap logic', 'arolla/qexpr/operators/dense_array/logic_ops.h')], SE)
p('P13', 'Edges and group operations map every child to exactly its parent',
  'An edge built from a mapping, split points, sizes or uniform groups is accepted exactly when it is well formed and gives every child its parent, whichever form it is converted to, composed, compared or resized into. Aggregating and expanding over an edge equals doing it group by group, with missing parents, empty groups and values kept apart, and no size or edge, however malformed, makes an operation read or write outside its arrays.',
  'inputs', 'all mappings and split points of up to 6 children (40 with few unknown ones at a word edge) and 4 parents, all presence bits, all 64-bit group sizes including negative and overflowing ones',
  'Tests use a few well-formed edges; unsorted mappings, missing parents, empty groups, and malformed sizes take different code paths that fail only for particular shapes.',
  'arolla/dense_array/edge.h arolla/dense_array/edge.cc arolla/dense_array/ops/dense_group_ops.h arolla/dense_array/ops/multi_edge_util.h arolla/qexpr/operators/dense_array/edge_ops.h arolla/qexpr/operators/dense_array/group_lifter.h arolla/util/overflow.h', [('edge construction, conversion and composition', 'arolla/dense_array/edge.cc'), ('group loops', 'arolla/dense_array/ops/dense_group_ops.h'), ('resizing and pairing', 'arolla/qexpr/operators/dense_array/edge_ops.h')], SE)
p('P14', 'Arrays mean the same in constant, dense and sparse form',
  'An array reads the same whichever form holds it. Conversions to other ids, slices, copies, iteration (all, present, repeated, subsets, several arrays at once) and element-wise operations give for every element exactly what they would give on a plain list of optional values, with an error only when some element has one. Arrays compare equal exactly when their elements are, and only equal arrays have equal fingerprints.',
  'inputs', 'arrays of up to 3 elements (4 in thorough; 12 and 34 with few unknown ones) in every form, with every set of listed ids and every value and presence bit; id filters of unknown ids',
  'Tests use a few hand-made sparse arrays; forms combine in hundreds of ways, and offsets, defaults and empty or complete id lists each take their own path.',
  'arolla/array/array.h arolla/array/array.cc arolla/array/id_filter.h arolla/array/id_filter.cc arolla/array/array_util.h arolla/array/array_util.cc arolla/array/ops_util.h arolla/array/pointwise_op.h', [('id lookup, merge and intersection', 'arolla/array/id_filter.h'), ('conversions between forms', 'arolla/array/array.h: WithIds, ToSparseForm, Slice'), ('iteration over several arrays', 'arolla/array/ops_util.h'), ('element-wise operations', 'arolla/array/pointwise_op.h')], SE)
p('P15', 'Edges and operators on arrays do not depend on the form of the arrays',
  'Edges, group operations and the array operators give the same result for arrays in constant, dense and sparse form as for the plain lists they stand for: conversion and composition of edges, aggregation over groups, indexing, slicing, concatenation, selection, uniqueness, presence fallback, element-wise lifting, pairing and resizing. Malformed edges, indices and sizes give an error, and accumulators see the members of each group once, in order.',
  'inputs', 'arrays of up to 3 elements in every form (8 to 12 with two listed ones), edges of up to 3 parents and 3 children as split points or as constant, dense or sparse mappings; every value and presence bit',
  'Tests use a few arrays in one form each; every operator has separate paths for constant, dense and sparse arguments and their combinations.',
  'arolla/array/edge.h arolla/array/edge.cc arolla/array/group_op.h arolla/array/multi_edge_util.h arolla/qexpr/operators/array/edge_ops.h arolla/qexpr/operators/array/array_ops.h arolla/qexpr/operators/array/array_ops.cc arolla/qexpr/operators/array/logic_ops.h arolla/qexpr/operators/array/factory_ops.h arolla/qexpr/operators/array/lifter.h', [('edge construction, conversion and composition', 'arolla/array/edge.cc'), ('group loops for sparse and constant arguments', 'arolla/array/group_op.h'), ('resizing, pairing, grouping', 'arolla/qexpr/operators/array/edge_ops.h'), ('indexing, concatenation, selection, uniqueness', 'arolla/qexpr/operators/array/array_ops.h')], SE)
p('P16', 'Aggregation accumulators compute what the aggregation is defined to be',
  'For every group of rows, the accumulators give the defined aggregate: counts, sums (wrapping for integers), means, products, minima and maxima (NaN wins), three-valued logic, median and inverse CDF, weighted average and CDF, ordinal and dense ranks, the first extreme element, the common value, joined text, group ids, inverse permutations and elements taken by offset; moving averages likewise. Adding a row n times at once equals adding it n times, earlier groups leave no trace, and invalid ids, offsets and parameters give an error.',
  'inputs', 'groups of up to 3 rows (4 in thorough) of any integer values and presence bits, floats from 8 representative values (any value where the query is within reach), split into runs of equal rows in every way, after 0 to 2 rows of another group',
  'Tests check a few sequences; ties, NaN, empty groups, repeated rows and reuse after Reset each take their own path.',
  'arolla/qexpr/operators/aggregation/group_op_accumulators.h arolla/qexpr/aggregation_ops_interface.h arolla/qexpr/operators/experimental/dense_array/timeseries.h', [('accumulators', 'arolla/qexpr/operators/aggregation/group_op_accumulators.h'), ('moving averages', 'arolla/qexpr/operators/experimental/dense_array/timeseries.h')], SE)
p('P17', 'Every decision forest evaluator computes what walking its trees computes',
  'For every forest and every input, the compiled evaluators (boosted predictor, bitmasks of 32 and 64 leaves, oblivious trees, single-input tables, and any mix of them) give the sum over the selected trees of the weight times the leaf that the split conditions lead to, with missing values, NaN, infinities and boundary values treated as the conditions define. Each group of trees goes to its own output, trees in no group are left out, overlapping groups and malformed forests are errors, and the fingerprint tells forests apart exactly when they differ.',
  'inputs', 'forests of up to 3 splits per tree over shapes and conditions chosen exhaustively from pools, chains of up to 64 splits, 18 trees together; every value of the inputs, and every threshold in forests of two trees',
  'Tests compare evaluators on random inputs, which never meet thresholds, infinities, NaN or extreme integers; each evaluator is chosen by the shape of a tree.',
  'arolla/decision_forest/decision_forest.cc arolla/decision_forest/pointwise_evaluation', [('definition', 'arolla/decision_forest/decision_forest.cc'), ('choice of evaluator', 'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc'), ('bitmasks', 'arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc, bitmask_eval.cc'), ('single input', 'arolla/decision_forest/pointwise_evaluation/single_input_eval.cc'), ('boosted predictor', 'arolla/decision_forest/pointwise_evaluation/pointwise.h')], SE)
p('P18', 'Generated accessors, loaders and listeners read and write what paths say',
  'For every protopath, the generated accessor reads exactly the elements the path selects, in order, with missing values, sizes, defaults and map keys as the path language defines, and the generated mutable accessor stores exactly there. Generated input loaders fill exactly the slots of the requested names and leave the others alone, slot listeners write exactly the requested fields, with or without sharding and wildcards, and every generated file compiles and links.',
  'inputs', 'some 70 paths, 10 loaders and 6 listeners generated afresh on every run; messages with up to 2 elements per repeated field and map, every value and presence; subsets of the requested names (each name alone, each name left out, all; every pair in thorough)',
  'The tests of this repository that can run here compare generated text with fixed strings; no test runs the code. Whether it does the right thing depends on what is present in the message and which names are requested.',
  'arolla/codegen/io arolla/codegen/io/multi_loader.h arolla/codegen/io/multi_loader.cc arolla/io/proto_types/types.h arolla/io/accessors_input_loader.h arolla/io/input_loader.cc arolla/io/slot_listener.cc arolla/io/wildcard_input_loader.h', [('accessor code', 'arolla/codegen/io/protopath.py: Protopath.accessor, mutable_accessor'), ('loaders over prefix trees', 'arolla/codegen/io/input_loader.cc.jinja2, single_value_loader.jinja2, multi_value_loader.jinja2'), ('listeners', 'arolla/codegen/io/slot_listener.cc.jinja2'), ('runtime', 'arolla/codegen/io/multi_loader.h, arolla/io/accessors_input_loader.h')], SE)
p('P27', 'Input loaders and slot listeners move exactly the bound values',
  'A bound input loader stores the value of every requested input in its slot and touches no other slot; a slot listener writes every bound slot, and only those, to its place in the output. This holds for any nesting of accessor, wildcard, filtering, renaming, chained, shared and not-owning loaders and listeners, for spans, tuples, typed references, structs and inplace slots; the first loader of a chain that knows a name serves it. A name that is unknown, requested with another type, or outside the struct is rejected at bind time; duplicate names are refused. Reported types and suggested names agree with what can be bound, and misspelled names get suggestions within the documented edit distance.',
  'inputs', 'compositions of up to 2 wrappers around 4 kinds of loaders and listeners, up to 2 requested names out of all known and unknown ones, every value; wildcard keys of up to 6 characters; names of up to 4 characters for typo suggestions',
  'Tests use single wrappers with fixed names; which slots are left alone, and which of two loaders serves a name, depends on the combination.',
  'arolla/io arolla/util/string.h arolla/util/string.cc', [('binding, extraction of supported slots', 'arolla/io/input_loader.h, input_loader.cc'), ('listeners', 'arolla/io/slot_listener.h, slot_listener.cc, chain_slot_listener.h, delegating_slot_listener.h'), ('wildcards', 'arolla/io/wildcard_input_loader.h, wildcard_input_loader.cc'), ('structs', 'arolla/io/struct_io.h, struct_io.cc'), ('names', 'arolla/util/string.h')], SE)
p('P28', 'String operators compute their definitions on every text and byte string',
  'strip, find, rfind, count, length, replace, split, case conversion, prefix and suffix and substring tests, decode and encode, and parsing of integers and floats give what their definitions say for every argument: bytes are counted in bytes and text in code points, negative and out of range indices are clamped as documented, replacement stops at the limit, every malformed UTF-8 sequence is rejected and every well-formed one accepted, and a number outside its type or with anything left over is not parsed. Joins, printf and format put every argument where the format says, a missing argument makes the result missing, and a malformed format or unknown name is an error. Regular expression operators return the groups that the expression matched and nothing for a missing argument.',
  'inputs', 'strings of up to 3 or 4 bytes or code points, every byte and code point value; every start, end and limit; every format of up to 5 characters; regular expressions through the matches of a stand-in for RE2',
  'Tests use ASCII words; bytes above 127, empty patterns, indices at the limits and malformed sequences are what a list of examples leaves out.',
  'arolla/qexpr/operators/strings/strings.h arolla/qexpr/operators/strings/strings.cc arolla/qexpr/operators/strings/find.h arolla/qexpr/operators/strings/find.cc arolla/qexpr/operators/strings/split.h arolla/qexpr/operators/strings/findall_regex.h arolla/qexpr/operators/strings/array_traits.h arolla/qexpr/operators/strings/join.h arolla/qexpr/operators/strings/join.cc arolla/qexpr/operators/strings/format.h arolla/qexpr/operators/strings/format.cc', [('strip, replace, parse, decode', 'arolla/qexpr/operators/strings/strings.h, strings.cc'), ('search', 'arolla/qexpr/operators/strings/find.h, find.cc'), ('rows of parts', 'arolla/qexpr/operators/strings/split.h, findall_regex.h'), ('joins and formats', 'arolla/qexpr/operators/strings/join.h, join.cc, format.h, format.cc')], SE)
p('P29', 'Frames and values hold every field once, in its place, alive and typed',
  'A frame layout gives every field and every nested layout its own aligned bytes inside the frame; making a frame constructs every field once, copying, moving, resetting and dropping it construct and destroy each exactly once, and a field read back is the last value written to that field, whatever is written to the others. Typed slots, references and values know the type of what they point at, refuse every other type, and copy, compare, hash and print the value they hold; tuples, named tuples and slices hold their fields in order and are the same type exactly when their fields are; a derived type that does not match its base is refused; lists of slots are found, matched and checked by name and type. Types made by several threads at once are made once, and values shared by threads are dropped once.',
  'inputs', 'layouts of up to 3 fields (4 in thorough) of 6 types and 4 kinds of nested layouts, blocks of up to 3 frames; tuples of up to 2 fields of 5 types nested to depth 2 (3); every value of the fields; up to 3 named slots; 2 threads with 1 or 2 preemptions',
  'Tests build a handful of layouts; overlaps, missed constructions and mixed up fields depend on the combination of sizes, alignments and nesting, and races on the schedule.',
  'arolla/memory/frame.h arolla/memory/frame.cc arolla/memory/memory_allocation.h arolla/util/memory.h arolla/qtype/typed_slot.h arolla/qtype/typed_slot.cc arolla/qtype/typed_value.h arolla/qtype/typed_value.cc arolla/qtype/typed_ref.h arolla/qtype/typed_ref.cc arolla/qtype/tuple_qtype.h arolla/qtype/tuple_qtype.cc arolla/qtype/slice_qtype.h arolla/qtype/slice_qtype.cc arolla/qtype/derived_qtype.h arolla/qtype/derived_qtype.cc arolla/qtype/named_field_qtype.h arolla/qtype/named_field_qtype.cc arolla/qtype/qtype.h arolla/qtype/qtype.cc arolla/qtype/simple_qtype.h', [('layouts', 'arolla/memory/frame.h, frame.cc'), ('one frame on the heap', 'arolla/memory/memory_allocation.h'), ('typed access', 'arolla/qtype/typed_slot.cc, typed_value.cc, typed_ref.cc'), ('compound types', 'arolla/qtype/tuple_qtype.cc, slice_qtype.cc, named_field_qtype.cc, derived_qtype.cc')], SE)
p('P30', 'Operators are chosen, bound and run by their signatures alone',
  'The common type of types is the least type all of them cast to, whatever their order and grouping. A call of an operator means the overload with exactly its types (up to derived types), else the one closest overload that its arguments can be cast to; no overload is "not found", several are "ambiguous", and the order of registration does not matter. The registry keeps the version of highest priority of each overload, refuses repeated, misnamed and out of range registrations, and a refused registration changes no call. An operator made from a function declares exactly the types of the function, binds to those slots only, reads its arguments from them and writes its result or its error; lifted to optionals it is missing when an argument is and is not called then. A sequence of bound operators runs one after the other except where an operator jumps, and ends at the first failure or cancellation, with that status; expressions made of sequences run them in order.',
  'inputs', 'every pair and triple of 28 types; lists of up to 3 overloads (4 in thorough) of 1 or 2 arguments of up to 8 types; 3 registrations (4) under 3 names with every priority; up to 3 operators (4) and 5 executions (6) with every jump; every value of the arguments',
  'Tests check some casts, some overloads and straight sequences; ambiguity, priorities and jumps depend on combinations and orders that lists of examples do not hold.',
  'arolla/qexpr/operators.h arolla/qexpr/operators.cc arolla/qexpr/casting.h arolla/qexpr/casting.cc arolla/qexpr/operator_errors.cc arolla/qexpr/qexpr_operator_signature.h arolla/qexpr/qexpr_operator_signature.cc arolla/qexpr/bound_operators.h arolla/qexpr/bound_operators.cc arolla/qexpr/simple_executable.h arolla/qexpr/simple_executable.cc arolla/qexpr/eval_context.h arolla/qexpr/operator_factory.h arolla/qexpr/result_type_traits.h arolla/qexpr/lifting.h arolla/qexpr/lift_to_optional_operator.h arolla/qtype/standard_type_properties/common_qtype.cc arolla/qtype/standard_type_properties/properties.cc', [('casts', 'arolla/qtype/standard_type_properties/common_qtype.cc'), ('overloads', 'arolla/qexpr/casting.cc: FindMatchingSignature'), ('registration', 'arolla/qexpr/operators.cc: CombinedOperatorFamily, OperatorRegistry'), ('functions to operators', 'arolla/qexpr/operator_factory.h, result_type_traits.h, lift_to_optional_operator.h'), ('execution', 'arolla/qexpr/bound_operators.cc, simple_executable.cc')], SE)
p('P31', 'Jagged shapes are the nested lists they describe',
  'A jagged shape made from edges has the given group sizes in every dimension, however the edges are kept, and edges that do not fit each other are refused. Its rank, size and edges, adding, removing and flattening dimensions (with indices counted and clamped as in Python), comparison, fingerprint, broadcasting and printed form are those of the nested list of its sizes. Concatenating or stacking shapes, or arrays with their shapes, along a dimension gives the shape and the elements, in order and with their presence, that joining the nested lists at that depth gives; inputs of different rank, prefix, number or size are refused.',
  'inputs', 'shapes of rank up to 2 or 3 (4 in thorough) with groups of up to 2 over both kinds of edges; every 64-bit dimension, concretely around the ends; joins of up to 2 arrays (3) with symbolic values',
  'Tests list shapes by hand; empty groups, empty dimensions and unequal group sizes in deeper dimensions are combinations that they sample thinly.',
  'arolla/jagged_shape/jagged_shape.h arolla/jagged_shape/util/concat.h arolla/jagged_shape/util/repr.cc arolla/jagged_shape/dense_array/jagged_shape.cc arolla/jagged_shape/dense_array/util/concat.h arolla/jagged_shape/array/util/concat.h arolla/jagged_shape/qexpr/shape_operators.h', [('shapes', 'arolla/jagged_shape/jagged_shape.h'), ('joins', 'arolla/jagged_shape/util/concat.h'), ('operators', 'arolla/jagged_shape/qexpr/shape_operators.h')], SE)
p('P20', 'Accessor lists and generated C++ names identify every input once',
  'An accessors list is sorted, keeps each (name, code) pair, rejects a name given two different accessors, gives missing names from defaults, and splits into shards that together hold every accessor exactly once, in order and in balanced sizes. C++ names, headers, namespaces, include guards and operator names derived from inputs are well formed, and two different accessors of a loader never get the same operator name.',
  'inputs', 'lists of up to 12 accessors (24 in thorough) with every name of a few characters, every shard count; every printable character in names',
  'Tests use lists of two or three fixed names; collisions, ordering and uneven shards depend on names and counts.',
  'arolla/codegen/io/accessors.py arolla/codegen/io/cpp.py arolla/codegen/io/accessor_generator.py', [('sorting, merging, sharding', 'arolla/codegen/io/accessors.py: AccessorsList, split_accessors_into_shards'), ('name mangling', 'arolla/codegen/io/cpp.py')], SEP, py=True)
p('P21', 'Build-time function calls and template helpers pass data through unchanged',
  'A call description written by the Starlark macros and processed at build time calls exactly the named functions with exactly the given arguments, however the calls are nested in lists, dicts and other calls, and everything that is not a call passes through unchanged. When dicts are merged the last value of a key wins, files hold exactly what was written, and C string escaping yields a literal that reads back as the original bytes.',
  'inputs', 'every nesting of calls, lists and dicts to depth 3, every short string, every byte in escaped strings',
  'Tests evaluate a few fixed calls; escaping and nesting mistakes show only for particular characters and shapes.',
  'arolla/codegen/utils.py arolla/codegen/utils.bzl arolla/codegen/render_jinja2_template.py arolla/codegen/eval_python_function_call.py', [('recursive request processing', 'arolla/codegen/utils.py: process_call_function_requests'), ('dict merge, file output', 'arolla/codegen/utils.py'), ('make-variable escaping', 'arolla/codegen/utils.bzl')], SEP, py=True)
p('P22', 'A protopath means one access, and every malformed path is rejected',
  'Parsing a protopath and printing it gives the same path, equal paths generate interchangeable C++ and different paths compare different, and every string outside the documented grammar is rejected rather than misread. The C++ expressions generated for a path read exactly the field, element, map key, size or count named, escape C++ keywords as protoc does, and input names derived from a path are valid and reproducible.',
  'inputs', 'all paths of up to 3 elements of every kind, every string of up to 4 characters (5 in thorough) of the grammar alphabet, every field name up to 16 characters',
  'Tests list some dozens of paths; a mix of element kinds, odd characters or a keyword as a field name is not among them.',
  'arolla/codegen/io/protopath.py arolla/codegen/io/table.py', [('path element grammar', 'arolla/codegen/io/protopath.py: Protopath.parse'), ('keyword escaping', 'arolla/codegen/io/protopath.py: _CPP_KEYWORDS'), ('table paths', 'arolla/codegen/io/table.py')], SEP, py=True)
p('P23', 'The tree of single-value protopaths reads each requested leaf exactly once',
  'For every set of single-value accessors, the tree that the generated loader walks has one leaf per distinct path carrying that accessor\'s id, shares common prefixes, and visits parents before children with consistent indices. Splitting wide nodes into groups neither loses, duplicates nor reorders a leaf, and accessors that are not single-value are left to the other loaders.',
  'inputs', 'all sets of 3 paths over two names to depth 2 (3 in thorough), nodes with up to 64 children',
  'Tests draw a few trees; wrong sharing or numbering shows only for particular prefix shapes and widths.',
  'arolla/codegen/io/multi_protopath.py', [('tree construction and numbering', 'arolla/codegen/io/multi_protopath.py: extract_single_value_protopath_accessors'), ('fictive groups', 'arolla/codegen/io/multi_protopath.py: _split_big_nodes')], SEP, py=True)
p('P24', 'The tree of repeated protopaths collects every intermediate that a leaf needs',
  'For every set of repeated accessors, each leaf starts from an intermediate node that is an ancestor of it, each collected intermediate is computed before it is used, and what is collected (values, or parent values and sizes) is what its descendants need. Every requested leaf is produced exactly once whatever the tree shape, and accessors with default values are rejected.',
  'inputs', 'all sets of 3 repeated paths to depth 3 with every mix of accesses, chains and branches up to 20 leaves, nodes with up to 40 fields',
  'Tests draw a few trees; a missed or misplaced intermediate depends on the joint shape of several paths.',
  'arolla/codegen/io/multi_protopath.py', [('choice of intermediates', 'arolla/codegen/io/multi_protopath.py: nodes_for_intermediate_collection'), ('descendant maps', 'arolla/codegen/io/multi_protopath.py')], SEP, py=True)
p('P25', 'Accessors derived from proto descriptors cover every field as documented',
  'For every message shape, the accessors derived from its descriptor are exactly the documented ones: one per field or extension, with the documented path, name and type of access for scalar, message, repeated, map and string fields, honouring skipped fields, prefixes and the naming policy. Generated array code and wrapped lambdas compute exactly the expression given.',
  'inputs', 'all messages of two levels with up to 2 fields of every kind and up to 2 extensions, under every option',
  'Tests have one test proto; combinations of field kinds, labels and options are not covered.',
  'arolla/codegen/io/protopath.py arolla/codegen/io/array_generator.py arolla/codegen/io/jinja_util.py', [('descriptor walk', 'arolla/codegen/io/protopath.py: accessors_from_descriptor'), ('array generator', 'arolla/codegen/io/array_generator.py')], SEP, py=True)
p('P26', 'Loader and listener generators put every accessor into one file',
  'For every set of accessors and every shard count, the generated files together register each accessor exactly once with its own code and the headers it needs, in shards of balanced sizes, everything that is declared is defined, and sizes are written before the elements they size. The operators made from accessors are registered once each with the right code. The command line programs read their specifications from flags and files, evaluate the accessor generators, and write exactly the files they were asked for, or fail.',
  'inputs', 'every subset of up to 6 accessors of all kinds, 0 to 4 shards, two loaders at once; flags of up to 6 characters',
  'No test runs these programs here; uneven shards, empty lists and mixtures of accessor kinds each take another branch of a template.',
  'arolla/codegen/io/accessor_generator.py arolla/codegen/io/input_loader_lib.py arolla/codegen/io/input_loader_main.py arolla/codegen/io/input_loader_set_main.py arolla/codegen/io/slot_listener_main.py arolla/codegen/io/wildcard_input_loaders_main.py arolla/codegen/io/flag_utils.py', [('specifications to files', 'arolla/codegen/io/input_loader_lib.py: AccessorGenerator'), ('listeners', 'arolla/codegen/io/slot_listener_main.py'), ('templates', 'arolla/codegen/io/input_loader.cc.jinja2, slot_listener.cc.jinja2')], SEP, py=True)

ORACLE = {
    'P01': 'a bit-by-bit specification written in the harness; every word around the range is compared.',
    'P02': 'a linear scan of the same symbolic array.',
    'P03': 'a model of who points where, destruction counters in the objects, leak and use-after-free checks of the executor, happens-before races.',
    'P04': 'run counters per task, compared after the call returns; deadlock and race detection of the scheduler.',
    'P05': 'a model of contexts and subscriptions (who must have been called, how often), race and deadlock detection.',
    'P06': 'a list of entries in order of last use, recomputed from the operations.',
    'P07': 'index arithmetic on plain integers; compiler `sizeof`/`offsetof`; element-wise zero checks.',
    'P08': 'exact wide-integer arithmetic; IEEE operations of the solver; the documented special cases written in the harness.',
    'P09': 'truth tables written in the harness over (present, value) pairs.',
    'P10': 'a plain array of the written values; bounds, lifetime and leak checks of the executor.',
    'P11': 'a plain list of (present, value) elements, read back through every accessor; words around the range compared.',
    'P12': 'the plain function applied to the model element by element; every result bitmap must fit its values.',
    'P13': 'the list of (child, parent) pairs; groups collected from it one by one and folded with an accumulator whose result shows every value it was given and in what order.',
    'P14': 'a list of optional values read from the parts of the array by linear scans; sets of ids.',
    'P15': 'the plain lists of optional values and (child, parent) pairs that the arrays and edges stand for, and the operation written over those lists.',
    'P16': 'the definition of each aggregate over the list of rows (counting, not sorting, for ranks and quantiles).',
    'P17': 'the harness walks each tree with its own evaluation of the conditions and adds the leaves (values chosen so that every sum is exact and names its leaves).',
    'P18': 'an interpreter of paths over a message type, written from the description of the language; the message before and after.',
    'P27': 'a list of (name, value) pairs computed from the composition; the frame or record before and after; a plain dynamic-programming edit distance.',
    'P28': 'the operation written over plain lists of bytes or code points; a decoder and number reader written in the harness from the definitions.',
    'P29': 'a list of the placed fields with their offsets, and the set of live objects of counted types; field by field values.',
    'P30': 'types as (element, shape) coordinates with a join table; overload choice by its definition over all pairs; an interpreter of the executed history; plain lists of registrations.',
    'P31': 'nested lists of group sizes; joins by recursion over the nested lists.',
    'P20': 'direct definitions (sorted set of pairs, contiguous balanced slices, character-wise naming rules).',
    'P21': 'a recursive reference evaluator and a C literal reader written in the harness; a Starlark interpreter subset for utils.bzl.',
    'P22': 'the grammar in the documentation, as a reference parser and generator in the harness; the C++ expression each element must give.',
    'P23': 'the set of requested (path, name) pairs and a prefix tree built from them.',
    'P24': 'the definition of ancestors, branches and repeated accesses recomputed from parents; requests in terms of the documented two phases.',
    'P26': 'the list of accessors itself, read back out of the generated text (white space and layout do not matter); the files that the programs wrote.',
    'P25': 'a walk over the descriptor written from the documentation; the expression text of each generated fragment.',
}
