"""Writes properties.jsonl and MANIFEST.json (kept in step); run by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = 'inputs'
B, C, M, N = 'src/basic/', 'src/core/', 'src/math/', 'src/nn/'
TC = 'The tests call each function on a few fixed small tensors; '
P = []


def p(id, title, st, over, text, why, files, mech, obs=None):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [], 'observe_at': obs or ['return status', '*output'], 'hook_needed': None}})


ALLDT = 'all ten data types, every rank the function accepts (enumerated), all extents (axes of extent 0 included) whose element count is representable'
p('P01', 'Creating a tensor yields exactly the described tensor',
  'aitisa_create with an element type, device, extents and no data yields STATUS_SUCCESS and a fresh, complete, dense row-major tensor of that type, device and shape whose size is the product of its extents. With a data block of len bytes it adopts that very block exactly when len divided by the element size equals the number of elements, and otherwise returns STATUS_INVALID_ARGUMENT, leaves *output alone and leaves the block with the caller. The caller\'s extent array is copied, never kept.',
  [IN], ALLDT + ', both device kinds, every len', TC + 'no test varies len, devices, ranks and types together or looks at who owns the block afterwards.',
  [B + 'factories.c', C + 'storage.c', C + 'shape.c', C + 'types.c'], [('aitisa_create', B + 'factories.c'), ('aitisa_create_storage / aitisa_create_shape', C)])
p('P02', 'Destroying a tensor releases everything and clears the handle',
  'aitisa_destroy on any tensor built by the library returns STATUS_SUCCESS, releases each block of that tensor exactly once, releases nothing else, and sets the caller\'s handle to NULL. Creating and destroying a tensor leaves the heap as it was.',
  [IN, 'histories'], ALLDT + ', scalars included', TC + 'leaks and double frees stay invisible to value assertions.',
  [C + 'tensor.c', C + 'storage.c', C + 'shape.c', B + 'factories.c'], [('aitisa_destroy', B + 'factories.c')], ['heap', 'handle'])
p('P03', 'A tensor can be read back as it was described',
  'Resolving a tensor returns STATUS_SUCCESS together with exactly the element type, device, extents, rank, data address and data length in bytes it holds. The field accessors (rank, extent k, size, type, device, layout, data) return the same information.',
  [IN], ALLDT + '; data length below 2^32 bytes because the length is an unsigned int in this API', TC + 'few shapes and types are ever resolved.',
  [B + 'factories.c', C + 'tensor.c', C + 'tensor.h'], [('aitisa_resolve', B + 'factories.c'), ('accessors', C + 'tensor.h')])
p('P04', 'Typed element access reads and writes exactly one element',
  'For every data type the typed getters return the element stored at the given index, and the typed setters store exactly the given value (or the C conversion of a double) at that index. No other element of the tensor changes.',
  [IN], 'all ten data types, every element count, every valid index, every element value', TC + 'an access of the wrong width still looks right on small positive numbers.',
  [C + 'types.c', C + 'types.h', C + 'dispatch.h', C + 'tensor.c'], [('per-type function tables', C + 'types.c')], ['tensor data'])
p('P05', 'Index helpers are the row-major bijection',
  'For a dense tensor the stride of axis k is the product of the later extents, the linear index of coordinates is their row-major position, and the coordinates of a linear index are its digits. Converting coordinates to a linear index and back, or an index to coordinates and back, is the identity.',
  [IN], 'ranks 0 to 6 (enumerated), all extents, all valid coordinates and indices', TC + 'only a couple of shapes are indexed.',
  [B + 'index_utils.c'], [('aitisa_coords_to_linidx, aitisa_linidx_to_coords, aitisa_get_all_strides', B + 'index_utils.c')], ['return value', 'coordinate array'])
p('P06', 'Broadcasting two shapes follows the right-aligned rule',
  'Two shapes broadcast exactly when, aligned at their last axes, every pair of extents is equal or contains a 1; otherwise the helper returns STATUS_DIMENSIONS_MISMATCH. On success the result has the larger rank and takes, per axis, the extent that is not 1, or the only extent present.',
  [IN], 'all pairs of ranks 0 to 6, all extents, 0 included', TC + 'a wrong alignment or comparison survives most hand-picked shapes.',
  [B + 'broadcast.c'], [('aitisa_broadcast_array', B + 'broadcast.c')])
p('P07', 'A filled tensor holds the value everywhere',
  'aitisa_full returns a fresh tensor of the requested type, device and extents in which every element equals the given double converted to that type as C converts it.',
  [IN], ALLDT + '; values the target type can represent after truncation', TC + 'one type and one shape are filled; counters that stop early or overflow go unseen.',
  [B + 'factories.c', C + 'types.c'], [('aitisa_full', B + 'factories.c')])
p('P08', 'Casting converts every element as C does and keeps the shape',
  'Casting a tensor to a different data type yields STATUS_SUCCESS and a fresh tensor of that type with the same extents and device, each element being the C conversion of the corresponding input element. Casting to the type it already has returns STATUS_SUCCESS and leaves *output alone.',
  [IN], 'all 100 pairs of data types, ranks 0 to 6, all extents, all element values whose conversion C defines', TC + 'a handful of the 90 conversions are exercised.',
  [B + 'cast.c'], [('aitisa_cast', B + 'cast.c')])
p('P09', 'Reshaping keeps the elements in order',
  'Reshaping to extents with the same number of elements yields a fresh tensor with those extents, the same type and device, and the same elements in the same linear order; a different number of elements yields STATUS_DIMENSIONS_MISMATCH. Reshaping back restores the original tensor.',
  [IN, 'histories'], 'all data types, ranks 0 to 6 on both sides, all extents', TC + 'a shape or two.', [B + 'reshape.c'], [('aitisa_reshape', B + 'reshape.c')])
p('P10', 'Squeezing drops exactly the selected unit axes',
  'Squeezing with a list of axes removes precisely those listed axes whose extent is 1, in any order and however often they are repeated; with an empty list it removes every axis of extent 1. The elements, type and device are kept; an axis outside [0, rank) or a negative list length gives STATUS_INVALID_ARGUMENT and leaves *output alone.',
  [IN], 'ranks 1 to 6 and list lengths -1 to 3 (enumerated), all extents and axis values', TC + 'one or two axis lists.', [B + 'squeeze.c'], [('aitisa_squeeze', B + 'squeeze.c')])
p('P11', 'Slicing selects begin, begin+step, ... within size on every axis',
  'For valid begin, size and step arrays the slice has, per axis, 1+(size-1)/step elements and element c of the result is input element begin+step*c; an axis with size 0 is dropped at its begin coordinate. A begin outside the axis, a negative size, a range reaching beyond the axis or a step below 1 gives STATUS_INVALID_ARGUMENT and leaves *output alone.',
  [IN], 'ranks 0 to 5 (enumerated), extents up to 2^31-1, every int begin, size and step', TC + 'one regular slice.', [B + 'slice.c'], [('aitisa_slice', B + 'slice.c')])
p('P12', 'A duplicate is an equal, independent tensor',
  'Duplicating a tensor yields a fresh tensor with the same type, device, extents and elements. It shares no memory with the original: destroying the original leaves the duplicate intact.',
  [IN, 'histories'], 'all data types, ranks 0 to 6, all extents', TC + 'aliasing does not show in a value comparison.', [B + 'duplicate.c'], [('aitisa_duplicate', B + 'duplicate.c')])
p('P13', 'Add, sub, mul and div act element by element in C arithmetic',
  'For two CPU tensors of the same type and extents, add, sub, mul and div return a fresh tensor of that type and shape whose every element is the C result of the operation on the corresponding elements, first operand on the left. Using the same tensor as both operands is allowed.',
  [IN], 'all ten data types, ranks 0 to 6, all extents, all element values for which C defines the operation', TC + 'a few types and one shape; wrap-around, signedness and order are barely sampled.', [M + 'binary_op.c'], [('aitisa_add, aitisa_sub, aitisa_mul, aitisa_div', M + 'binary_op.c')])
p('P14', 'Element-wise operations reject mismatched operands precisely',
  'add, sub, mul and div return STATUS_NOT_SUPPORTED exactly when an operand is not on the CPU, otherwise STATUS_TYPE_MISMATCH exactly when the types differ, otherwise STATUS_INVALID_ARGUMENT exactly when ranks or extents differ. A rejected call leaves *output alone and allocates nothing that stays behind.',
  [IN], 'pairs of ranks 0 to 3, five type pairs, all extents and devices', TC + 'only some mismatches are tried, one at a time.', [M + 'binary_op.c'], [('argument checks', M + 'binary_op.c')])
p('P15', 'Matrix multiplication is the batched row-by-column sum of products',
  'aitisa_matmul of two CPU tensors of one type returns the tensor whose elements are sums over the contracted axis of products of elements, accumulated in index order in that type, with rank-1 operands used as row or column vector and leading axes broadcast. Operands off the CPU, of different types, of rank 0, with different contracted extents or with leading axes that do not broadcast are rejected with STATUS_NOT_SUPPORTED, STATUS_TYPE_MISMATCH, STATUS_INVALID_ARGUMENT, STATUS_DIMENSIONS_MISMATCH and STATUS_DIMENSIONS_MISMATCH.',
  [IN], 'all data types, pairs of ranks 0 to 6 (enumerated), all extents', TC + 'a few shapes; stride and broadcast slips show only for particular extents.', [M + 'matmul.c', B + 'broadcast.c'], [('aitisa_matmul', M + 'matmul.c')])
p('P16', 'The dot product contracts the documented axes',
  'aitisa_dot of two CPU tensors of one type gives: for two vectors their inner product as a tensor of extents [1]; with a scalar operand the element-wise product; for two matrices their matrix product; for a rank-1 right operand the sum over the last axis; for ranks above 2 the sum over the last axis of the left and the second-to-last of the right operand, with the other axes concatenated. Other rank combinations and mismatched extents or types are rejected with the status the documentation of the function gives.',
  [IN], 'all data types, pairs of ranks 0 to 5 (enumerated), extents up to 2^31-1', TC + 'a few shapes per case.', [M + 'dot.c', M + 'matmul.c'], [('aitisa_dot', M + 'dot.c')])
p('P17', 'ReLU keeps positive elements and zeroes the rest',
  'aitisa_relu returns a fresh tensor of the same type, device and extents in which every element greater than zero is unchanged and every other element is zero, for every data type.',
  [IN], ALLDT + ', every element value including the extremes of the type', TC + 'a single float tensor.', [N + 'relu.c'], [('aitisa_relu', N + 'relu.c')])
p('P18', 'Sigmoid and tanh are the logistic and hyperbolic tangent functions',
  'aitisa_sigmoid and aitisa_tanh return a fresh float or double tensor of the same extents and device whose every element is 1/(1+exp(-x)), respectively tanh(x), of the corresponding element. For every integer type they return STATUS_NOT_SUPPORTED.',
  [IN], 'float and double, ranks 0 to 6, all extents, all values including huge ones, infinities and NaN; values up to rounding', TC + 'small arguments only.', [N + 'sigmoid.c', N + 'tanh.c'], [('aitisa_sigmoid', N + 'sigmoid.c'), ('aitisa_tanh', N + 'tanh.c')])
p('P19', 'Square root is element-wise and rejects negatives',
  'aitisa_sqrt returns STATUS_MATH_ERROR exactly when some element is negative, and otherwise STATUS_SUCCESS and a fresh tensor of the same type, device and extents holding the square root of each element converted back to that type.',
  [IN], 'all ten data types, ranks 0 to 6, all extents, all element values', TC + 'one tensor per outcome; a check that misses one position passes.', [M + 'sqrt.c'], [('aitisa_sqrt', M + 'sqrt.c')])
p('P20', 'Softmax normalises exactly along the chosen axis',
  'aitisa_softmax on a float or double tensor returns exp(x) divided by the sum of exp over the given axis, or over the whole tensor for axis -1, in a fresh tensor of the same extents. Any other axis gives STATUS_NOT_SUPPORTED and leaves *output alone.',
  [IN], 'ranks 1 to 5 (enumerated), every axis value, all extents, element values whose exponentials are finite', TC + 'one axis of one shape.', [N + 'softmax.c'], [('aitisa_softmax', N + 'softmax.c')])
p('P21', 'Convolution is the strided, padded, dilated cross-correlation',
  'aitisa_conv2d and aitisa_conv3d on float tensors return, for each batch, output channel and window position, the sum over input channels and filter taps of input times filter, taps in the padding contributing nothing, with output extents (in+2*pad-dilation*(k-1)-1)/stride+1. Wrong ranks or channel counts give STATUS_DIMENSIONS_MISMATCH, a filter of another type STATUS_TYPE_MISMATCH, an input type other than float STATUS_NOT_SUPPORTED, a window larger than the padded input STATUS_INVALID_ARGUMENT.',
  [IN], 'two and three spatial axes, all extents (filter taps at least 1 per axis), strides, pads and dilations up to 2^20', TC + 'one geometry each; stride, pad and dilation slips cancel on symmetric inputs.', [N + 'conv.c'], [('aitisa_conv', N + 'conv.c')])
p('P22', 'Pooling reduces each window by its mode',
  'aitisa_pooling in mode "avg" divides the sum of the window\'s in-range elements by the number of window positions, and in mode "max" returns the largest window element with padding counted as zero, with output extents (in+2*pad-dilation*(k-1)-1)/stride+1, for every data type. A rank other than 3 to 5 gives STATUS_DIMENSIONS_MISMATCH, an unknown mode or a window larger than the padded input STATUS_INVALID_ARGUMENT.',
  [IN], 'one to three spatial axes, all extents, windows of at least one position, strides, pads and dilations up to 2^20', TC + 'one geometry.', [N + 'pooling.c'], [('aitisa_pooling', N + 'pooling.c')])
p('P23', 'Batch normalisation applies the per-channel affine formula',
  'aitisa_batch_norm returns scale*(x-mean)/sqrt(variance+epsilon)+bias with the parameters of the element\'s channel along axis 1 or the last axis, in a fresh tensor of the same type and extents. Wrong ranks or parameter lengths, types, axis, a negative epsilon, or a negative variance+epsilon are rejected with STATUS_DIMENSIONS_MISMATCH, STATUS_TYPE_MISMATCH, STATUS_INVALID_ARGUMENT and STATUS_MATH_ERROR.',
  [IN], 'float and double, ranks 2 to 5 (enumerated), all extents', TC + 'one shape per rank.', [N + 'batch_norm.c'], [('aitisa_batch_norm', N + 'batch_norm.c')])
p('P24', 'Dropout keeps or zeroes each element and nothing else',
  'For a rate in [0,1] aitisa_dropout returns a fresh tensor of the same type, device and extents in which each element is either unchanged or zero, the i-th decision following the i-th number drawn from the C random generator (zero exactly when draw%100+1 <= (int)(rate*100)). A rate outside [0,1] or NaN gives STATUS_INVALID_ARGUMENT and leaves *output alone.',
  [IN], 'all data types, ranks 0 to 6, extents up to 2^31-1, every rate and every random sequence', TC + 'random results are only counted, not related to the draws.', [N + 'dropout.c'], [('aitisa_dropout', N + 'dropout.c')])
p('P25', 'No operation has undefined memory or arithmetic behaviour',
  'On any well-formed tensors and arguments, valid or rejected, every operation of the library terminates without reading or writing outside its blocks, using memory that is uninitialised or already released, releasing a block twice or with the wrong allocator, dereferencing NULL, failing an assertion, or overflowing signed index arithmetic.',
  [IN], 'every operation, every enumerated rank, all extents and argument values', TC + 'no sanitizer runs in the suite and only small shapes are used.', ['src/'], [('every public function', 'src/')], ['process'])
p('P26', 'Operations never modify or share their inputs',
  'No operation changes any byte of its input tensors or argument arrays, and every tensor it hands out owns blocks that are disjoint from those of all inputs, so inputs and outputs can be used and destroyed independently.',
  [IN], 'every operation, every enumerated rank, all extents and values, accepted and rejected calls', TC + 'inputs are not compared after the call.', ['src/'], [('result construction in every operation', 'src/')], ['input memory', '*output'])
p('P27', 'Operations leave no memory behind',
  'When a call returns, every block it allocated is either released or owned by the tensor it handed out in *output; blocks handed over by the caller are released or kept exactly as documented.',
  [IN, 'histories'], 'every operation, every enumerated rank, all extents and values, accepted and rejected calls', TC + 'leaks are invisible to the tests.', ['src/'], [('release of scratch blocks on every return path', 'src/')], ['heap'])
p('P28', 'Allocation failure is reported, not crashed on',
  'If any one allocation made during an operation fails, the operation returns STATUS_ALLOC_FAILED (or the status with which it rejects these arguments anyway) without undefined behaviour, and does not hand out an incomplete tensor. aitisa_create also releases everything it had allocated.',
  [IN, 'fault_sequences'], 'every operation, every enumerated rank, every allocation site and any set of failing allocations', TC + 'no test makes an allocation fail.', ['src/'], [('checks after every allocation', 'src/')], ['return status', '*output', 'heap'])
p('P29', 'Rejected calls report the right status and leave *output alone',
  'Every operation returns exactly the status its argument checks prescribe, checks taking precedence in a fixed order, and an operation that rejects its arguments does not touch *output. STATUS_SUCCESS is returned exactly when *output has been set to the finished tensor (or, for a cast to the same type, when nothing was to be done).',
  [IN], 'every operation, every enumerated rank, all argument values', TC + 'one rejected call per check at most; combinations are not tried.', ['src/'], [('argument checks of every operation', 'src/')])

for r in P:
    assert len(r['title']) <= 80, r['id']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')

TECH = 'contract-based deductive verification of the real functions (own VC generator over clang IR, z3), contracts also evaluated on the running code for replay'
NOTE = 'Every counted obligation of the contract instances listed as proved in the evidence is discharged for all extents and values at each enumerated rank; trusted: clang front end, the VC generator in engine/, z3, models of libc functions, floating point as congruent uninterpreted rounding operations.'
PART = {
    'P11': ' Slices of rank 1 and 2 are bounded (execution against the contract) where the evidence says so.',
    'P15': ' float rank 3 x 3 is bounded only.',
    'P16': ' float rank 3 x 3 is bounded only.',
    'P21': ' The value of a valid convolution is bounded only; rejections and statuses are proved.',
    'P22': ' The value of a valid pooling is bounded only; rejections are proved.',
    'P23': ' The computing paths are bounded only (exhaustive argument-check paths are proved), hence level other.',
}
from_level = {'P23': 'other'}
checks = []
for r in P:
    i = r['id']
    checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s quick' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i,
                   'technique': TECH, 'level': from_level.get(i, 'proof'), 'level_note': NOTE + PART.get(i, '')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'engine\'); import check"', 'checks': checks, 'not_applicable': [],
     'notes': 'See DESIGN.md. No hooks in /repo. KNOWN_FINDINGS.json lists recorded findings and repairs.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
