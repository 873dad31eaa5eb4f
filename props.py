PROPS = {}
CVC5 = 'cvc5 --incremental --lang smt2.6 -q'


def prop(pid, harnesses, **kw):
    PROPS[pid] = dict(feature=pid.lower(), harnesses=harnesses, **kw)


def H(name, bounds, **kw):
    return dict(name=name, bounds=bounds, **kw)


prop('C01', [
    H('h_c01_access', 'any_dims', slices=4),
    H('h_c01_big', 'big'),
    H('h_c01_flat_index', '', slices=2, reach=[1, 2]),
    H('h_c01_tuple_index', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c01_tuple_rank', ''),
    H('h_c01_rows', '', slices=2),
    H('h_c01_wrap', '', slices=2, reach=[1, 2]),
    H('h_c01_types', ''),
])
prop('C02', [
    H('h_c02_subslice', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c02_subslice_big', ''),
    H('h_c02_flat', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c02_flat_shape', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c02_nested', '', slices=4),
    H('h_c02_ops', ''),
])
prop('C03', [
    H('h_c03_from_vec', '', slices=2),
    H('h_c03_count', '', slices=2, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c03_count_ranks', '', reach=[1, 2]),
    H('h_c03_flat_sources', ''),
    H('h_c03_scalars', ''),
    H('h_c03_arrays', ''),
    H('h_c03_nested2', '', reach=[1, 2]),
    H('h_c03_nested3', '', reach=[1, 2]),
    H('h_c03_nested45', '', reach=[1, 2]),
    H('h_c03_nested_move', '', slices=2, reach=[2]),
    H('h_c03_rows_of_arrays', '', reach=[1, 2]),
    H('h_c03_tensors', '', reach=[1, 2]),
    H('h_c03_merge', '', reach=[1, 2]),
    H('h_c03_join', ''),
])
prop('C05', [
    H('h_c05_from', '', slices=4, reach=[1, 2]),
    H('h_c05_query', ''),
    H('h_c05_eq', '', slices=2),
    H('h_c05_size', '', slices=2),
    H('h_c05_size_overflow', '', reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c05_replace', '', slices=2),
    H('h_c05_insert', '', slices=2),
    H('h_c05_append', ''),
    H('h_c05_remove', ''),
    H('h_c05_inverse', ''),
    H('h_c05_expand_squeeze', '', slices=4),
    H('h_c05_broadcast', '', slices=2),
    H('h_c05_broadcast_size', '', slices=2),
    H('h_c05_axis', '', slices=2),
])
prop('C06', [
    H('h_c06_reshape', '', slices=2),
    H('h_c06_reshape_any', '', slices=2),
    H('h_c06_reject', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
    H('h_c06_reject_list', '', slices=2, reach=[1, 2]),
    H('h_c06_expand', '', slices=4, reach=[1, 2]),
    H('h_c06_squeeze', '', slices=2),
])
prop('C04', [
    H('h_c04_history', '', slices=4),
    H('h_c04_release_order', '', slices=4),
    H('h_c04_empty', '', slices=4),
    H('h_c04_convert', '', slices=4),
    H('h_c04_rejected', '', slices=4),
    H('h_c04_panicking_callback', '', slices=4, reach=[1, 2]),
    H('h_c04_panicking_clone', '', slices=4, reach=[1, 2]),
])
prop('C07', [
    H('h_c07_map', '', slices=4),
    H('h_c07_map_types', '', slices=4),
    H('h_c07_rows', '', slices=4),
    H('h_c07_expand', '', slices=4),
    H('h_c07_init', '', slices=4),
])
prop('C08', [
    H('h_c08_map2', '', slices=4, reach=[1, 2]),
    H('h_c08_map2_wide', '', slices=4),
    H('h_c08_mismatch', '', slices=4),
    H('h_c08_map3', '', slices=4),
    H('h_c08_map3_any', '', slices=4, reach=[1, 2]),
    H('h_c08_map3_big', '', slices=4),
    H('h_c08_types', '', slices=4),
])
prop('C10', [
    H('h_c10_fold', '', slices=4),
    H('h_c10_fold_axis', '', slices=4),
    H('h_c10_reduce', '', slices=4),
    H('h_c10_reduce_axis', '', slices=4),
    H('h_c10_fold_row', '', slices=4),
    H('h_c10_fold_row_last', '', slices=4),
])
prop('C11', [
    H('h_c11_axis', '', slices=4),
    H('h_c11_all', '', slices=4),
    H('h_c11_unit', '', slices=4, solver=CVC5),
    H('h_c11_unit_more', '', slices=4),
])
prop('C12', [
    H('h_c12_concat_axis', '', slices=4),
    H('h_c12_concat_big', '', slices=4),
    H('h_c12_concat_any', '', slices=4, reach=[1, 2]),
    H('h_c12_concat_misfit', '', slices=4, reach=[1, 2]),
    H('h_c12_stack', '', slices=4),
    H('h_c12_stack_big', '', slices=4),
    H('h_c12_stack_misfit', '', slices=4),
    H('h_c12_hstack', '', slices=4),
    H('h_c12_vstack', '', slices=4),
    H('h_c12_dstack', '', slices=4),
    H('h_c12_append', '', slices=4, reach=[1, 2]),
    H('h_c12_lists', '', slices=4),
    H('h_c12_long_lists', '', slices=4),
    H('h_c12_tuples', '', slices=4),
])
prop('C13', [
    H('h_c13_equal', '', slices=4, reach=[1, 2]),
    H('h_c13_big', '', slices=4),
    H('h_c13_cuts', '', slices=4, reach=[1, 2]),
    H('h_c13_cuts_symbolic', '', slices=4, reach=[1, 2]),
    H('h_c13_forms', '', slices=4),
    H('h_c13_unstack', '', slices=4),
])
prop('C14', [
    H('h_c14_tile', '', slices=4),
    H('h_c14_tile_deep', '', slices=4),
    H('h_c14_big', '', slices=4),
])
prop('C15', [
    H('h_c15_transpose', '', slices=4),
    H('h_c15_vector', '', slices=4),
    H('h_c15_wide', '', slices=4),
])
prop('C16', [
    H('h_c16_fill', '', slices=4),
    H('h_c16_numbers', '', slices=4),
    H('h_c16_eye', '', slices=4),
    H('h_c16_diagflat', '', slices=4),
    H('h_c16_diagflat_rank', '', slices=4),
    H('h_c16_triangles', '', slices=4),
    H('h_c16_triangles_rank', '', slices=4),
])
prop('C17', [
    H('h_c17_one', '', slices=4),
    H('h_c17_two', '', slices=4),
    H('h_c17_three', '', slices=4),
    H('h_c17_big', '', slices=4),
    H('h_c17_rank', '', slices=4),
    H('h_c17_mgrid', '', slices=4),
])
prop('C09', [
    H('h_c09_forms', '', slices=4, reach=[1, 2]),
    H('h_c09_forms_wide', '', slices=4),
    H('h_c09_forms_left', '', slices=2),
    H('h_c09_unary', '', slices=2),
    H('h_c09_left_add', '', slices=2),
    H('h_c09_left_sub', '', slices=2),
    H('h_c09_left_mul', '', slices=2),
    H('h_c09_left_div', '', slices=2),
    H('h_c09_left_rem', '', slices=2),
    H('h_c09_left_and', ''),
    H('h_c09_left_or', ''),
    H('h_c09_left_xor', ''),
    H('h_c09_left_shl', '', slices=2),
    H('h_c09_left_shr', '', slices=2),
    H('h_c09_left_float', ''),
])
prop('C18', [
    H('h_c18_float32', '', slices=4),
    H('h_c18_float64', '', slices=4),
    H('h_c18_float_binary', '', slices=2),
    H('h_c18_signed', '', slices=2),
    H('h_c18_min_max', '', slices=3, solver=CVC5),
    H('h_c18_integer', '', slices=4),
    H('h_c18_complex', '', slices=4),
    H('h_c18_complex64', '', slices=4),
])
prop('C19', [
    H('h_c19_matmul', '', slices=4),
    H('h_c19_batch', '', slices=4),
    H('h_c19_misfit', '', slices=4, reach=[1, 2]),
    H('h_c19_matvec', '', slices=4),
    H('h_c19_matvec_misfit', '', reach=[1, 2]),
    H('h_c19_matmul', '', slices=4, features=['naive']),
    H('h_c19_batch', '', slices=4, features=['naive']),
    H('h_c19_matvec', '', slices=4, features=['naive']),
])
prop('C20', [
    H('h_c20_sum_product', '', slices=4),
    H('h_c20_lanes', '', slices=7),
    H('h_c20_all', '', slices=7),
    H('h_c20_min_max', '', slices=4, solver=CVC5),
    H('h_c20_min_max64', '', solver=CVC5),
    H('h_c20_mean', '', slices=2),
    H('h_c20_hypot', '', slices=4),
    H('h_c20_variance', '', slices=4),
    H('h_c20_variance_small', ''),
])
prop('C21', [
    H('h_c21_counts', '', slices=8),
    H('h_c21_many', '', slices=5),
    H('h_c21_two_many', '', slices=3),
    H('h_c21_constant', ''),
    H('h_c21_forms', ''),
    H('h_c21_two', '', slices=4),
    H('h_c21_two_constant', ''),
])
prop('C22', [
    H('h_c22_valid', '', slices=4),
    H('h_c22_sample', ''),
    H('h_c22_header', '', slices=4, reach=[1, 2]),
    H('h_c22_any', '', slices=4, reach=[1, 2], profiles=['dbg', 'rel']),
])
prop('C23', [
    H('h_c23_next', ''),
    H('h_c23_uniform', '', slices=2),
    H('h_c23_normal', '', slices=2),
    H('h_c23_normal_finite', ''),
    H('h_c23_normal_edge', ''),
    H('h_c23_text', ''),
    H('h_c23_tensor_normal', '', slices=4),
    H('h_c23_tensor_uniform', '', slices=4),
    H('h_c23_uniform_range', ''),
    H('h_c23_global', ''),
])
prop('C24', [
    H('h_c24_numbers', '', slices=4),
    H('h_c24_floats', '', slices=4),
    H('h_c24_signed', '', slices=2),
    H('h_c24_shared', ''),
    H('h_c24_long', ''),
])
prop('C26', [
    H('h_c26_rows', '', slices=4),
    H('h_c26_length', '', slices=4),
    H('h_c26_long', '', slices=5),
])
prop('C27', [
    H('h_c27_schedule', '', slices=4, reach=[1, 2]),
    H('h_c27_large', '', slices=4, reach=[1, 2]),
    H('h_c27_names', ''),
    H('h_c27_nul', ''),
])
prop('C28', [
    H('h_c28_sequence', '', slices=4),
    H('h_c28_default', ''),
])
prop('C29', [
    H('h_c29_tensor', '', slices=4),
    H('h_c29_big', '', slices=4),
    H('h_c29_shape', ''),
])
prop('C30', [
    H('h_c30_start', '', slices=2, reach=[1, 2]),
    H('h_c30_nested', '', slices=2, reach=[1, 2]),
    H('h_c30_seed', '', slices=2, reach=[1, 2]),
])
prop('C25', [
    H('h_c25_linspace', '', slices=2),
    H('h_c25_linspace_any', '', slices=2),
    H('h_c25_logspace', '', slices=2),
    H('h_c25_geomspace', '', slices=2),
    H('h_c25_rejects', '', slices=2),
    H('h_c25_arange', ''),
    H('h_c25_arange_step', ''),
    H('h_c25_arange_rejects', ''),
    H('h_c25_one_hot', '', reach=[1, 2]),
])

from bounds import B, OUTSIDE, GENERAL, ASSUME
for _p, _d in PROPS.items():
    for _h in _d['harnesses']:
        _h['bounds'] = B[_h['name']]
    _d['outside'] = 'sizes, lengths and nesting beyond those listed' + ('; ' + OUTSIDE[_p] if _p in OUTSIDE else '')
    _d['assumptions'] = GENERAL + ASSUME.get(_p, [])
