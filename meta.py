#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. What the properties say; how they are decided is in props.py."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def p(pid, title, statement, over, text, why, files, mech, hook=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    n = statement.count('. ') + 1
    assert n <= 3, (pid, n)
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': hook}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        assert pid in PROPS, pid


IN, HI, PR, CF, FS = 'inputs', 'histories', 'programs', 'configurations', 'fault_sequences'

p('C01', 'Every way of reading a tensor agrees with its row-major contents',
  'Every accessor of a tensor (flat index, `get`, tuple index for as many components as the tensor has dimensions, iteration, row iteration, slices, pointers, wrapping slices, dim/rdim/len/rows/cols) reports the same row-major elements and shape, for a tensor that owns its data and for a view that starts and ends inside a larger one. A flat or tuple position outside the tensor, a tuple with more components than dimensions, and a wrapping slice that would run past the end are rejected (`get` answers None) and never read outside the tensor.',
  [IN], 'every shape, every element value, every offset of the view and every (64-bit) position',
  'the tests read a handful of positions of tensors that own their data; views, out-of-range and near-overflow positions are not read through every accessor',
  ['src/tensor/tensor.rs', 'src/tensor/index.rs', 'src/tensor/slice.rs', 'src/tensor/data.rs'],
  [('bounds-checked offset arithmetic over a shared buffer', 'src/tensor/tensor.rs get/as_slice/as_wrap_slice/as_wrap_slice_n'), ('row-major tuple indexing', 'src/tensor/index.rs'), ('row iterator', 'src/tensor/tensor.rs iter_row')])
p('C02', 'A sub-tensor is exactly the requested part of its parent, however nested',
  '`subslice(offset, len)` with len > 0 of a tensor without empty dimensions is exactly rows offset..offset+len of the outer dimension and `subslice_flat(offset, len, shape)` exactly that flat range under the given shape; a range that does not lie inside, or a shape with another element count, is rejected for every 64-bit offset, length and dimension. Views of views compose, stay valid after their parent is dropped, never change the parent, and every operation on a view sees only the elements of the view.',
  [IN, HI], 'every shape, every offset/length pair including ones whose sum overflows, every chain of views and order of dropping them, in builds with and without overflow checks',
  'the tests take a few in-range views of small tensors and never nest them, overflow the bounds or drop the parent first',
  ['src/tensor/tensor.rs', 'src/tensor/slice.rs', 'src/tensor/data.rs'],
  [('offset/size bookkeeping and bounds checks', 'src/tensor/tensor.rs subslice, subslice_flat'), ('shared storage', 'src/tensor/data.rs')])
p('C03', 'Construction keeps elements, order and shape, and rejects what does not fit',
  'A tensor built from a vector, boxed slice, slice, array (nested up to four deep), nested vectors (up to five deep), iterator, scalar, option, string or list of tensors holds exactly the given elements in row-major order under the given or implied shape. Construction is rejected when the element count differs from the shape, when nested vectors are ragged at any depth, or when stacked tensors differ in shape; `from_merge` and `join_vec` concatenate their arguments in order.',
  [IN], 'every element value, element count, dimension and nesting pattern',
  'the tests build a few rectangular inputs; ragged nestings, near-miss counts and dimensions whose product overflows are not covered',
  ['src/tensor/from.rs', 'src/tensor/tensor.rs', 'src/tensor/data.rs', 'src/macros/mod.rs'],
  [('element-count checks', 'src/tensor/tensor.rs from_vec/from_box/from_merge'), ('nested conversions and their raggedness checks', 'src/tensor/from.rs'), ('ten! macro', 'src/macros/mod.rs')])
p('C04', 'Storage is released exactly once and never used after release',
  'For every sequence of constructing, cloning, viewing, transforming and dropping tensors, in every drop order, each element is dropped exactly once, no memory is read uninitialised, out of bounds or after release, every allocation is returned with the layout it was made with, and no allocation of size zero is requested. This holds for elements that own memory, for empty tensors and for elements of no size. When a callback or an element\'s clone panics part way, no element is dropped twice and the operands stay intact (partial results may leak).',
  [HI, FS], 'every operation sequence within the bounds, every drop order, every call at which a callback or clone panics',
  'the tests check element values; a double drop, leak, read of uninitialised memory or wrong layout passes them unnoticed, and none injects panics',
  ['src/tensor/data.rs', 'src/tensor/tensor.rs', 'src/tensor/map.rs', 'src/array/stack.rs', 'src/array/split.rs', 'src/array/tile.rs', 'src/array/transpose.rs'],
  [('reference-counted raw buffer with manual drop', 'src/tensor/data.rs'), ('writing into uninitialised storage', 'src/tensor/data.rs unsafe_init')])
p('C05', 'A Shape behaves as the list of its dimensions, outermost first',
  'Constructing, querying (rank, dim, rdim, rows, cols, len, size, sublen, batch_len), editing (push, pop, insert, remove, replace, append and their r-/with- forms, expand_dims, squeeze), comparing and broadcasting shapes, and resolving axes against them, gives what the same operation on the plain list of dimensions gives; equality depends on that list alone. Dimensions that do not fit, more than six dimensions, positions out of range and trailing dimensions that disagree in a broadcast are rejected, and an element count beyond the machine word is never wrapped into a smaller one.',
  [IN], 'every rank 0..6, every 32-bit dimension, every position and axis, in builds with and without overflow checks',
  'the tests use dimensions below ten and a few positions; large dimensions, overflow and stale hidden dimensions are out of their reach',
  ['src/tensor/shape.rs', 'src/tensor/axis.rs'],
  [('fixed array of innermost-first dimensions with a rank', 'src/tensor/shape.rs'), ('axis resolution', 'src/tensor/axis.rs')])
p('C06', 'Reshaping keeps every element and their order',
  '`reshape`, `flatten`, `squeeze`, `squeeze_axis` and `expand_dims` keep all elements in row-major order and change only the shape, for owned tensors and views: squeeze drops the dimensions of length one (keeping at least one dimension), squeeze_axis drops the named axis when it has length one, and expand_dims inserts a one at the named position. Reshaping to another element count and expanding at an axis outside -(rank+1)..=rank or beyond six dimensions are rejected.',
  [IN], 'every shape pair, axis, element value and 64-bit dimension',
  'the tests reshape a few small owned tensors; views, overflowing products and the other axes are not covered',
  ['src/tensor/tensor.rs', 'src/tensor/shape.rs'],
  [('shape replacement with element-count check', 'src/tensor/tensor.rs reshape'), ('squeeze/expand_dims', 'src/tensor/shape.rs')])
p('C07', 'Maps and initialisers apply the function once per element or row, in order',
  '`map` gives a tensor of the same shape holding the image of each element; `map_row` replaces each innermost row by the function\'s N results (dropping the innermost dimension when N is one and the rank is above one); `map_expand` appends an innermost dimension of the N results. `init` and `init_rindexed` fill the shape, the latter passing each position innermost index first. The function is called exactly once per element or row, in row-major order, for any stateful function and any result type.',
  [IN, PR], 'every function (uninterpreted), shape, view and element value',
  'the tests map concrete arithmetic functions over small owned tensors',
  ['src/tensor/map.rs', 'src/tensor/tensor.rs'],
  [('map/map_row/map_expand loops', 'src/tensor/map.rs'), ('init/init_rindexed', 'src/tensor/map.rs, src/tensor/tensor.rs')])
p('C08', 'Broadcasting combines elements whose trailing indices agree',
  '`map2` and `map3` accept operands exactly when their trailing dimensions agree pairwise, give the shape of the longest, and apply the function once per result position in row-major order to the operand elements at that position\'s trailing index, whichever operand is the shorter. Operands whose trailing dimensions differ (even where one is 1, or a multiple of the other) are rejected.',
  [IN, PR], 'every function (uninterpreted), every pair or triple of non-empty shapes and views, every element value',
  'the tests combine a few matching shapes with concrete functions',
  ['src/tensor/map.rs', 'src/tensor/shape.rs'],
  [('flat index modulo operand size', 'src/tensor/map.rs map2/map3'), ('broadcast check', 'src/tensor/shape.rs')])
p('C09', 'Operators act element by element in every operand form',
  'Each of + - * / % & | ^ << >> between tensors (owned or borrowed on either side) is the broadcast of the element operator with the operands in the written order; with a plain value on the right, or a built-in number on the left, it combines that value with every element in the written order. Unary - and !, and `square`, act on every element. Operands whose trailing dimensions disagree are rejected, and a number operation that panics for an element (overflow, division by zero) panics for the tensor.',
  [IN, PR], 'every operand form, element operator (uninterpreted), number type, shape and value',
  'the tests evaluate some of the several hundred generated implementations on single examples, mostly commutative ones',
  ['src/math/num.rs', 'src/tensor/map.rs'],
  [('operator macros', 'src/math/num.rs')])
p('C10', 'Folds and reductions visit each lane once, in order, along any axis',
  '`fold` and `reduce` combine all elements in row-major order; `fold_axis` and `reduce_axis` combine, for every position of the other axes, exactly the elements along the named axis in increasing order (a fold from the initial state, a reduction from the lane\'s first element) and drop that axis. `fold_row` does the same with whole innermost rows over all rows or along any axis but the last (which is rejected for rank above one), and the state\'s result conversion is applied once per lane.',
  [IN, PR], 'every function (uninterpreted, so neither associative nor commutative), axis in either spelling, shape, view and value',
  'the tests fold with addition, which cannot see a wrong order, a wrong lane partition of equal sums or a wrong initial state',
  ['src/tensor/map.rs', 'src/tensor/axis.rs', 'src/math/reduce.rs'],
  [('outer/length/inner lane geometry', 'src/tensor/axis.rs reduce'), ('fold loops', 'src/tensor/map.rs')])
p('C11', 'Normalisation uses each lane\'s own summary, in place',
  '`normalize` folds each lane along the axis (or the whole tensor when no axis is given) from the initial state in order, completes that state once, and replaces every element of the lane by the normalising function of the completed state and that element, at the element\'s own position. `normalize_unit` replaces every element v by (v - min) / (max - min), min and max being the least and greatest of all (finite) elements.',
  [IN, PR], 'every function (uninterpreted), axis in either spelling, shape, view and value',
  'the only tests use square or last-axis cases in which a transposed result is invisible',
  ['src/tensor/map.rs', 'src/math/normalize.rs', 'src/tensor/axis.rs'],
  [('normalize', 'src/tensor/map.rs')])
p('C12', 'Joining tensors interleaves them along the axis without loss or reorder',
  '`concatenate`, `concatenate_axis`, `stack`, `stack_axis`, `hstack`, `vstack` and `dstack` place the arguments, in the given order, one after another along the joining axis (an existing axis for concatenate and hstack, a new one for stack and vstack, the third for dstack), with every other index unchanged, whatever form the list takes (vector, array, slice, tuple; tensors, references or vectors). concatenate and stack reject arguments whose rank or other dimensions disagree. `append` joins along the outer axis, or rejects.',
  [IN], 'every shape, axis in either spelling, number and form of arguments, view and value',
  'the tests join a few small owned tensors along common axes',
  ['src/array/stack.rs', 'src/tensor/tensor.rs'],
  [('chunk-wise copy', 'src/array/stack.rs'), ('list conversions', 'src/array/stack.rs IntoTensorList'), ('append', 'src/tensor/tensor.rs')])
p('C13', 'Splitting partitions an axis and joining the parts restores the tensor',
  '`split`, `split_axis`, `vsplit`, `hsplit` and `dsplit` cut the axis into consecutive parts - n equal ones when n divides its length, or the parts between the given cut positions, leaving out empty ones - and reject cuts that decrease or lie outside. `unstack` gives one tensor per index of the axis, without that axis. Concatenating (or stacking) the parts along the axis gives the original tensor back.',
  [IN], 'every shape, axis in either spelling, part count, pair of cut positions, view and value',
  'the tests split a few small tensors with fixed positions',
  ['src/array/split.rs'],
  [('split/unstack copy loops', 'src/array/split.rs')])
p('C14', 'Tiling repeats the tensor with the index taken modulo its dimensions',
  '`tile` multiplies each dimension by its repeat count (shape and counts aligned at the innermost dimension, missing ones taken as 1), and every element of the result is the source element at the result index taken modulo the source dimensions.',
  [IN], 'every shape, list of positive repeat counts, view and value',
  'the tests tile a few rank 1 and 2 tensors',
  ['src/array/tile.rs'],
  [('tile copy loops', 'src/array/tile.rs')])
p('C15', 'Transposing swaps the two innermost axes of every matrix',
  '`transpose` (and `t`) of a tensor of rank two or more swaps its two innermost axes in every batch entry, so that doing it twice gives the original back; a vector of n elements becomes the column [n, 1] with the same elements.',
  [IN], 'every shape of rank 1..6, view and value',
  'the tests transpose a few small matrices',
  ['src/array/transpose.rs'],
  [('transpose loop', 'src/array/transpose.rs')])
p('C16', 'Constant, identity, triangular and diagonal tensors hold the right values',
  '`zeros`, `ones`, `fill` and `init_default` hold the constant at every position of the given shape; `eye`/`identity` and `tri` of n > 0 hold one on the diagonal, respectively on and below it, and zero elsewhere; `diagflat` puts a vector on the diagonal of a zero matrix and rejects other ranks. `tril` and `triu` keep the elements on and below, respectively on and above, the diagonal of every innermost matrix (square or not) and zero the rest, and reject ranks below two.',
  [IN], 'every shape, size, value and element type with its own zero and one',
  'the tests compare a few small f32 matrices',
  ['src/init/mod.rs', 'src/init/matrix.rs'],
  [('initialiser loops', 'src/init/matrix.rs, src/init/mod.rs')])
p('C17', 'Mesh grids carry each axis along its own dimension',
  '`meshgrid` of one to three vectors gives one tensor per vector, all of the shape of the lengths in reverse order, in which vector k varies along the k-th dimension from the end and is constant along the others; `meshgrid_ij` does the same with the lengths in order. Axes that are not vectors are rejected, and `mgrid` counts 0, 1, 2, ... along each axis of the same arrangement as `meshgrid`.',
  [IN], 'every triple of lengths, view and value',
  'the tests build grids from a few short integer ranges',
  ['src/init/matrix.rs', 'src/init/mod.rs'],
  [('meshgrid/mgrid loops', 'src/init/matrix.rs')])
p('C18', 'Element-wise functions apply the element type\'s own function everywhere',
  'Each element-wise method of tensors of floats, signed numbers, integers and complex numbers (rounding, exponential, logarithm, trigonometry, sign, bit counting and rotation, minimum and maximum, powers, multiply-add, complex parts and norms) gives, bit for bit, at every position the function of the same name of the element (and of the other operands\' broadcast elements, in the written order).',
  [IN], 'every element value of every bit pattern (NaN payloads aside), every shape and view',
  'the tests evaluate some of the functions at one or two points',
  ['src/math/float.rs', 'src/math/num.rs', 'src/math/integer.rs', 'src/math/complex.rs'],
  [('method macros over map/map2/map3', 'src/math/*.rs')])
p('C19', 'Matrix products are the sums of products their definition names',
  '`matmul` of [.., m, k] and [.., k, n] is [.., m, n] holding for every batch entry the sums over k of products, also with either operand given transposed; `matvec` multiplies a matrix (or a transposed one) with one vector, a list of vectors or matching batches of lists. Operands whose inner lengths, ranks or batch shapes do not fit are rejected and never read out of bounds, and both the BLAS-style and the naive kernel give these results.',
  [IN, CF], 'every small integer-valued element assignment, size, batch shape, transposition and view, with both kernels',
  'the tests multiply a few small matrices, mostly square ones, without batches or views, and never with the naive kernel',
  ['src/linalg/matmul.rs', 'src/linalg/matvec.rs', 'src/linalg/blas.rs', 'src/linalg/blas_naive.rs'],
  [('gemm strides per transposition', 'src/linalg/matmul.rs, src/linalg/blas.rs'), ('matvec loops', 'src/linalg/matvec.rs')],
  hook='cfg(vp_hooks): pub use of matmul_t and Transpose')

exec(open(os.path.join(V, 'meta2.py')).read()) if os.path.exists(os.path.join(V, 'meta2.py')) else None

NOTE = ('Bounded: for the shapes and sizes stated per harness in evidence/%s.json, every value of the symbolic inputs is covered by solver verdicts over the IR rustc emits for /repo; '
        'larger sizes are outside. Trusts rustc\'s IR generation, the executor in engine/ (cross-checked on each run by replaying solver models natively), z3/cvc5, and the modelled externals listed in the evidence.')
checks = []
for x in P:
    if any(n['property'] == x['id'] for n in NA):
        continue
    c = 'python3 check.py ' + x['id']
    checks.append({'property': x['id'], 'quick_cmd': c + ' --tier quick', 'thorough_cmd': c + ' --tier thorough', 'technique': 'symbolic execution of the real code\'s LLVM IR with an SMT solver, counterexamples replayed natively',
                   'level': 'model_checking', 'level_note': NOTE % x['id']})
man = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
       'hooks': {'guard': 'cfg(vp_hooks)', 'enable': "RUSTFLAGS='--cfg vp_hooks' (set by check.py for its own builds in /verif/build)", 'source_commits': ['2da565b', 'e39e68a']},
       'checks': checks, 'not_applicable': NA,
       'notes': 'One driver (check.py), one engine (engine/), one harness crate (harness/). See DESIGN.md.'}
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(man, indent=1) + '\n')
print(len(P), 'properties', len(checks), 'checks')
