"""The bounds of every harness: what is symbolic (decided by the solver for every value) and which sizes are explored."""
ANY = 'shapes: every shape of rank 1-3 with dimensions 1-3 (outer dimension up to 5 and inner up to 4 in thorough), rank 4 with dimensions 1-2, and 34 selected shapes of rank 0-6 with up to 130 elements, empty ones included'
BIG = '10 shapes of rank 1-4 with 300 to 4100 elements'
MIX = ANY + '; and ' + BIG
VIEW = 'owning its data and as a view starting and ending inside a larger buffer'
VAL = 'every element an arbitrary 64-bit value'
F32 = 'every element an arbitrary f32 bit pattern'
AX = 'every axis in both spellings (positive and negative)'
def sm(lo, hi, m): return f'every shape of rank {lo}-{hi} with dimensions 1-{m}'

B = {
 'h_c01_access': f'{ANY}; {VAL}; {VIEW}; every in-range flat position',
 'h_c01_big': f'{BIG}; {VAL}; {VIEW}',
 'h_c01_flat_index': f'{ANY}, rank 0-3; {VIEW}; the position any 64-bit value',
 'h_c01_tuple_index': f'14 shapes of rank 2-5; {VIEW}; every component any 64-bit value; with and without overflow checks',
 'h_c01_tuple_rank': sm(0, 4, 2) + '; tuples of 2-5 components, more than the rank',
 'h_c01_rows': f'{MIX}, rank >= 2 and not empty; {VAL}; {VIEW}',
 'h_c01_wrap': sm(1, 2, 4) + f'; {VIEW}; offset and length any 64-bit values',
 'h_c01_types': '0-5 elements of 1, 16 and 0 bytes, offset 0-2; arbitrary values',
 'h_c02_subslice': f'{ANY}, at most 72 elements and 9 rows; {VIEW}; offset and length any 64-bit values; with and without overflow checks',
 'h_c02_subslice_big': f'{BIG} as views; offsets at start, middle, end; one row or all that follow',
 'h_c02_flat': sm(1, 2, 4) + f'; {VIEW}; offset and length any 64-bit values; 9 target shapes of rank 0-6; with and without overflow checks',
 'h_c02_flat_shape': '1-6 elements, every in-buffer offset and length; target [a, b] with a any 64-bit value and b in {0, 1, 2, 3, 2^31, 2^32-1, 2^32}; with and without overflow checks',
 'h_c02_nested': f'6 shapes of rank 1-6; {VIEW}; every chain of 2 (thorough: 3) of subslice, subslice_flat, flatten, expand_dims, the parent released at each step',
 'h_c02_ops': sm(1, 3, 2) + ' as views; map, from_merge, fold and == with uninterpreted callbacks',
 'h_c03_from_vec': f'{MIX}; {VAL}',
 'h_c03_count': '0-6 elements; target [a, b] with a any 64-bit value and b in {0, 1, 2, 3, 2^31, 2^32-1, 2^32}; with and without overflow checks',
 'h_c03_count_ranks': sm(0, 4, 2) + ' against every element count 0-18',
 'h_c03_flat_sources': '0, 1, 2, 3, 7, 8, 9, 33, 300 or 1030 elements, arbitrary 64-bit values; 9 kinds of source',
 'h_c03_scalars': 'an arbitrary 64-bit value; options; fixed short strings',
 'h_c03_arrays': 'arrays nested 1-4 deep of up to 36 arbitrary elements',
 'h_c03_nested2': '0-3 rows (thorough 4), every choice of row lengths 0-3',
 'h_c03_nested3': 'every choice of row lengths within the counts explored',
 'h_c03_nested45': 'nesting 4 and 5 deep, each of the innermost lists a different length in turn',
 'h_c03_nested_move': 'three shapes of rank 5 and 4; every entry moved from any list to any other of its level',
 'h_c03_rows_of_arrays': 'lists of arrays, arbitrary elements',
 'h_c03_tensors': 'lists of tensors of equal and unequal small shapes',
 'h_c03_merge': 'lists of small tensors and target shapes that fit and do not',
 'h_c03_join': 'lists of vectors of every small length',
 'h_c04_history': 'shapes [3] and [2, 2]; every sequence of two of 24 operations on elements that own heap memory, with the first tensor kept or released in between; every release checked',
 'h_c04_release_order': 'every shape of rank 1-3 with dimensions 1-2; a tensor, its clone, a view and a flattened view, released in every order',
 'h_c04_empty': 'empty tensors in every form',
 'h_c04_convert': '12 conversions of heap-owning elements',
 'h_c04_rejected': '7 rejected constructions of heap-owning elements',
 'h_c04_panicking_callback': 'shapes [3] and [2, 2]; 13 operations, the callback panicking at call 0-4',
 'h_c04_panicking_clone': 'shapes [3] and [2, 2]; 13 operations, the clone panicking at call 0-5',
 'h_c05_from': 'rank 0-7, every dimension any 64-bit value',
 'h_c05_query': 'rank 0-6, every dimension any 32-bit value',
 'h_c05_eq': 'every pair of ranks 0-6, every dimension any 32-bit value',
 'h_c05_size': 'rank 0-6, four dimension patterns with one dimension symbolic (20 bits) in every place',
 'h_c05_size_overflow': 'rank 1-4, dimensions from {1, 3, 2^16, 2^31, 2^32-1}; with and without overflow checks',
 'h_c05_replace': 'rank 0-6, dimensions any 32-bit value, the new one any 64-bit value, every position 0-6',
 'h_c05_insert': 'as h_c05_replace', 'h_c05_append': 'rank 0-6 plus 0-3 dimensions, any 32-bit values',
 'h_c05_remove': 'rank 0-6, any 32-bit values, every position 0-6', 'h_c05_inverse': 'rank 0-5, any 32-bit values, every position',
 'h_c05_expand_squeeze': 'rank 0-6, any non-zero 32-bit values, axes -7..6', 'h_c05_broadcast': 'every pair of ranks 0-6, any 32-bit values',
 'h_c05_broadcast_size': 'every pair of shapes of rank 0-3 with dimensions 1-3', 'h_c05_axis': 'rank 1-6, every axis, three patterns with one symbolic dimension (20 bits)',
 'h_c06_reshape': f'1, 6, 8, 12 and 0 elements in 24 shapes of rank 0-6, every ordered pair; {VIEW}', 'h_c06_reshape_any': f'{MIX}; {VIEW}',
 'h_c06_reject': sm(0, 3, 3) + f'; {VIEW}; target [a, b], a any 64-bit value, b in {{1, 2, 3, 5, 2^31, 2^32-1}}; with and without overflow checks',
 'h_c06_reject_list': 'every pair of ' + sm(0, 3, 2) + ' and ' + sm(0, 3, 3), 'h_c06_expand': f'{ANY}; axes -7..6; {VIEW}', 'h_c06_squeeze': f'{ANY}; {AX}; {VIEW}',
 'h_c07_map': f'{MIX}; {VAL}; {VIEW}; the callback an uninterpreted function of element and call number',
 'h_c07_map_types': f'{ANY}; result elements of 0, 1 and 16 bytes', 'h_c07_rows': f'{MIX}, rank >= 1, not empty; rows mapped to 1, 2, 3 and 5 elements', 'h_c07_expand': f'{MIX}, rank 0-5; elements mapped to 1-4', 'h_c07_init': MIX,
 'h_c08_map2': 'every pair of shapes of rank 0-3 with dimensions 1-2, each ' + VIEW + '; uninterpreted callback', 'h_c08_map2_wide': f'{MIX} with every trailing part of it, both ways round',
 'h_c08_mismatch': f'{ANY} with one trailing dimension changed (to 1, 2, d+1 or 2d)', 'h_c08_map3': sm(0, 3, 3) + ' and every triple of its trailing parts', 'h_c08_map3_any': 'every triple of shapes of rank 0-2 with dimensions 1-2',
 'h_c08_map3_big': BIG, 'h_c08_types': sm(0, 3, 2) + '; operands of 8 and 1 bytes',
 'h_c09_forms': 'ten operators, six operand forms, every pair of shapes of rank 0-2 with dimensions 1-2; the element operator uninterpreted', 'h_c09_forms_wide': 'six shapes of up to 1200 elements and every trailing part', 'h_c09_forms_left': 'three shapes and every trailing part on the left',
 'h_c09_unary': f'{ANY}; uninterpreted element operators',
 'h_c09_left_mul': 'all 12 integer types, operands of 8 symbolic bits', 'h_c09_left_div': 'all 12 integer types, operands of 8 symbolic bits', 'h_c09_left_rem': 'all 12 integer types, operands of 8 symbolic bits',
 'h_c09_left_float': 'f32 and f64, every bit pattern; five operators',
 'h_c10_fold': f'{MIX}; {VAL}; {VIEW}; uninterpreted callbacks', 'h_c10_fold_axis': f'{MIX}, not empty; {AX}; {VIEW}', 'h_c10_reduce': f'{MIX}, not empty', 'h_c10_reduce_axis': f'{MIX}, not empty; {AX}',
 'h_c10_fold_row': f'{MIX}, not empty; results of 1-3 elements; every axis but the last', 'h_c10_fold_row_last': sm(2, 4, 2),
 'h_c11_axis': f'{MIX}, not empty; {AX}; {VIEW}; uninterpreted callbacks', 'h_c11_all': f'{MIX}, not empty; {VIEW}',
 'h_c12_concat_axis': f'{ANY}, not empty; {AX}; 1-3 arguments, {VIEW}', 'h_c12_concat_big': f'{BIG} and a second argument of length 2; {AX}', 'h_c12_concat_any': 'every pair of shapes of rank 1-3 with dimensions 1-2, every axis',
 'h_c12_concat_misfit': f'{ANY}; one dimension of one of three arguments increased, or one added; {AX}', 'h_c12_stack': f'{ANY}, rank 0-5; {AX}; 1-3 arguments', 'h_c12_stack_big': BIG, 'h_c12_stack_misfit': 'every pair of different shapes of rank 0-3 with dimensions 1-2',
 'h_c12_hstack': f'{ANY}; 1-3 arguments', 'h_c12_vstack': f'{ANY}, rank 1-5; 1-3 arguments', 'h_c12_dstack': f'{ANY}; 1-3 arguments', 'h_c12_append': f'{ANY}; one dimension of the second changed to 1-4', 'h_c12_lists': '14 ways to pass [2] and [3]', 'h_c12_long_lists': '12 ways to pass 1, 4 or 7 vectors of 1-3 elements', 'h_c12_tuples': 'tuples of 1, 3-10 one-element tensors',
 'h_c13_equal': f'{ANY}, not empty; {AX}; 1-9 parts; {VIEW}', 'h_c13_big': f'{BIG}; {AX}; cuts at 1 and the middle', 'h_c13_cuts': f'{ANY}, axis length <= 9; every list of 0-2 cuts in 0..=n+1 and 2^64-1', 'h_c13_cuts_symbolic': sm(1, 2, 4) + '; two cuts, any 64-bit values',
 'h_c13_forms': sm(1, 4, 4) + ', at most 36 elements', 'h_c13_unstack': f'{ANY}, not empty; {AX}',
 'h_c14_tile': f'{ANY}, not empty, at most 72 elements; every list of 1-3 counts in 1-3; {VIEW}', 'h_c14_tile_deep': sm(1, 4, 2) + '; every list of 3-6 counts in 1-2', 'h_c14_big': f'{BIG}; four lists of counts',
 'h_c15_transpose': f'{ANY}, rank >= 2; {VIEW}', 'h_c15_vector': 'vectors of several lengths', 'h_c15_wide': BIG,
 'h_c16_fill': MIX, 'h_c16_numbers': 'every number type', 'h_c16_eye': 'n in {1, 2, 3, 4, 5, 8, 9, 16, 33}', 'h_c16_diagflat': 'vectors of every small length; arbitrary values', 'h_c16_diagflat_rank': 'ranks other than 1', 'h_c16_triangles': f'{ANY}, rank >= 2; {VIEW}', 'h_c16_triangles_rank': 'ranks below 2',
 'h_c17_one': 'lengths 1, 2, 5, 300; arbitrary values', 'h_c17_two': 'every pair of lengths in {1, 2, 3, 4, 5, 9} (thorough also 30); arbitrary values', 'h_c17_three': 'every triple of lengths 1-4; arbitrary values', 'h_c17_big': '60x20, 20x60, 1x300, 300x1', 'h_c17_rank': 'axes of other ranks', 'h_c17_mgrid': 'seven grids up to 9x5',
 'h_c18_float32': f'32 methods; small shapes; {F32}; {VIEW}; libm functions uninterpreted', 'h_c18_float64': f'as h_c18_float32 for f64', 'h_c18_float_binary': 'powf, log, hypot, atan2, copysign, powi, mul_add; small shapes, second operand every trailing part', 'h_c18_signed': 'f32 every bit pattern; i32 of 16 symbolic bits', 'h_c18_min_max': 'u64, i16; shapes [], [3], [2, 2]', 'h_c18_integer': 'all twelve primitive integer types, every value; rotation by any 32-bit count', 'h_c18_complex': 'all 17 methods on Complex<f32>, every bit pattern; powu exponents 0-3; powc and expf one element; Complex<i32> of 8 bits', 'h_c18_complex64': '16 methods on Complex<f64>, every bit pattern; second operands every trailing part of [], [3], [2, 2]',
 'h_c19_matmul': 'm, k, n in 1-3 and nine selected sizes up to 33; four transpositions; elements whole numbers 0-15, symbolic; views', 'h_c19_batch': 'eight batch shapes of rank 0-4, six sizes; four transpositions', 'h_c19_misfit': 'every pair of shapes of rank 0-3 with dimensions 1-3; four transpositions', 'h_c19_matvec': 'm, k in 1-3 and six selected sizes up to 33; six arrangements of batches; elements whole numbers 0-15', 'h_c19_matvec_misfit': 'every pair of shapes of rank 0-3 with dimensions 1-2',
 'h_c20_sum_product': f'{MIX}, not empty; {AX}; element + and * uninterpreted', 'h_c20_lanes': f'{ANY}, not empty; {AX}; {F32}; seven reductions', 'h_c20_all': f'{ANY}, not empty; {F32}', 'h_c20_min_max': '1-4 (thorough 5) elements, every f32 bit pattern', 'h_c20_min_max64': '1-3 elements, every f64 bit pattern',
 'h_c20_mean': f'{MIX}, not empty; elements whole numbers of 10 symbolic bits', 'h_c20_hypot': f'{ANY}, at most 20 elements; whole numbers of 8 symbolic bits', 'h_c20_variance': '1-4 elements whose running means are whole numbers, symbolic', 'h_c20_variance_small': 'every list of 1-3 values in -3..=3, within 1e-5',
 'h_c21_counts': '8 grids of 1-10 bins scaled by 2^-40, 1 and 2^40; 2-4 values, symbolic after the extremes', 'h_c21_many': '1-300 bins, 100-1100 values in a repeating pattern and one to three symbolic ones', 'h_c21_two_many': '2-20 bins, 50-600 rows in a repeating pattern and a symbolic one', 'h_c21_constant': '1-4 bins, 1-5 equal values (10 symbolic bits)', 'h_c21_forms': 'fixed shapes', 'h_c21_two': '4 grids, each column scaled by 2^-40, 1 or 2^40, 2-3 rows', 'h_c21_two_constant': '1-3 bins, 1-3 rows',
 'h_c22_valid': '1-3 channels (thorough 6), 0-3 frames (6), 0-5 bytes after the data; every sample, rate and derived field symbolic', 'h_c22_sample': 'one sample, both bytes symbolic', 'h_c22_header': '0-4 samples; each header field in turn arbitrary', 'h_c22_any': 'every buffer of 0-48 (52) bytes, all bytes symbolic; with and without overflow checks',
 'h_c23_next': 'every 64/128-bit state, 3 steps', 'h_c23_uniform': 'every state', 'h_c23_normal': 'every state; ln and cos uninterpreted', 'h_c23_normal_finite': 'every pair (ln u, cos v) in the range libm guarantees', 'h_c23_normal_edge': 'states before the extreme raw outputs', 'h_c23_text': 'every text of 0-5 characters, one of them of up to four bytes', 'h_c23_tensor_normal': '8 shapes; every seed, mean and std; 10 ways to give them', 'h_c23_tensor_uniform': '8 shapes; every seed, min and max; 10 ways to give them', 'h_c23_uniform_range': 'seed 100, four elements', 'h_c23_global': 'every non-zero seed on a fresh thread',
 'h_c24_numbers': 'pairs of 16 shapes with up to 8 elements together; every u64 value; owned and view', 'h_c24_floats': 'pairs of 16 shapes with up to 6 elements together; every f32 bit pattern', 'h_c24_signed': 'i8, up to 4 elements', 'h_c24_shared': 'every pair of parts of one buffer of 2-6 elements', 'h_c24_long': f'{BIG}; one element of five positions arbitrary',
 'h_c25_linspace': 'six entry shapes, six lengths up to 9 (thorough 0-12); whole-number start (8 bits) and step (4 bits)', 'h_c25_linspace_any': 'as h_c25_linspace with every f32 start <= end', 'h_c25_logspace': 'as h_c25_linspace_any, every base; powf uninterpreted', 'h_c25_geomspace': 'as h_c25_linspace_any; ln and exp uninterpreted', 'h_c25_rejects': 'six entry shapes; every start > end; every pair of different shapes',
 'h_c25_arange': '0-6 (12) elements, step 1-3 either way, start of 8 bits', 'h_c25_arange_step': '0-5 elements, step of 5 bits', 'h_c25_arange_rejects': 'every f32 start, end, step', 'h_c25_one_hot': 'depth 0-5, 0-3 positions, any 64-bit values',
 'h_c27_schedule': 'files of 0-4 bytes when opened and 0-5 when read, all bytes symbolic; every schedule of up to 3 (thorough 4) faults: failing or interrupted open, failing stat, failing, interrupted or short reads',
 'h_c27_large': 'files of 9 to 66000 bytes, the first 8 symbolic; up to 2 faults',
 'h_c27_names': '0-3 bytes; five forms of the name', 'h_c27_nul': 'a name with a NUL byte',
 'h_c11_unit': 'five shapes of 1-2 elements (thorough also 3); every finite f32; ' + VIEW, 'h_c11_unit_more': 'eight shapes of 3-17 elements; extremes in every arrangement of first, last and middle, three offsets, five values of another element (forked)',
 'h_c28_sequence': 'every sequence of 0-3 (thorough 4) settings out of 8 on a struct of 7 fields of every kind, starting from () or a value; every value symbolic', 'h_c28_default': 'a struct with a default of its own',
 'h_c29_tensor': f'{ANY}, at most 72 elements; {VAL}; {VIEW}', 'h_c30_start': 'two (thorough: three) threads that begin, each at any access of another one to shared data while that begins; every nonzero seed with distinct successors', 'h_c30_nested': 'the same, with the beginnings nested in each other', 'h_c30_seed': 'two threads and a random_seed at any access to shared data; all seeds', 'h_c29_big': '10 shapes of up to 4100 elements', 'h_c29_shape': ANY,
 'h_c26_length': f'rows of 1-8 elements, three outer shapes, lengths 1-11 asked for; {F32}; {VIEW}', 'h_c26_long': f'13 row lengths of 9-256 elements, three outer shapes; {F32}; {VIEW}',
 'h_c26_rows': f'rows of 1-8 elements, five outer shapes; {F32}; {VIEW}; the planner and butterflies are the rustfft crate\'s own IR on both sides',
}
for _o in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'shr'):
    B['h_c09_left_' + _o] = 'all 12 integer types' + (' and bool' if _o in ('and', 'or', 'xor') else '') + ', every value (128-bit types: 64 symbolic bits)'

OUTSIDE = {
 'C04': 'longer histories; threads (Tensor is not shared between threads here)',
 'C09': 'products and quotients of operands beyond 8 bits (the element operation is rustc\'s own)',
 'C18': 'the numerical values of libm functions (same function on both sides)',
 'C19': 'elements whose products or sums round; larger matrices; the matrixmultiply kernel itself, which is modelled by its documented contract',
 'C20': 'rounding behaviour of mean, variance and hypot on values where the arithmetic is not exact, except on small values within a tolerance',
 'C21': 'data on which the bin arithmetic rounds; empty data',
 'C22': 'buffers longer than explored; other WAV encodings, which are rejected',
 'C23': 'statistical quality of the numbers; threads seeded by the operating system',
 'C27': 'longer files; the kernel (a model defined in harness/src/c27.rs: open, stat, read, seek, close)',
 'C30': 'more threads; preemption of more than two threads that are each in the middle of a first draw (other threads run nested inside one step of the preempted one); memory orders weaker than sequential consistency; threads seeded by the operating system',
 'C26': 'rows longer than explored; the accuracy of the transform itself (rustfft on both sides)',
}
GENERAL = ['rustc\'s LLVM IR (opt-level as stated per profile) stands for the source', 'the executor in engine/ and the SMT solvers (z3, cvc5) are correct; each explored harness is cross-checked by running solver models natively',
           'libm functions are deterministic functions of their operands (uninterpreted; folded natively on constants)', 'memory allocation succeeds', 'no CPU feature beyond the x86-64 baseline is reported at run time']
ASSUME = {
 'C19': ['matrixmultiply::sgemm meets its documented contract C = alpha A B + beta C with the given strides (default kernel); the naive kernel is executed as it is'],
 'C30': ['threads interleave at accesses to shared mutable globals (all other memory is thread-local or private here)', 'the successive seeds are not zero and differ from each other'],
 'C23': ['HashMap keys and the operating system\'s randomness are arbitrary but fixed'],
}
