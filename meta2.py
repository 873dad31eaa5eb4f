p('C20', 'Numeric reductions summarise exactly the elements of their own lane',
  '`reduce_sum`, `reduce_product`, `reduce_min`, `reduce_max`, `reduce_mean`, `reduce_variance` and `reduce_std` give the summary their name says of all elements, and their `_axis` forms, for every position of the other axes, the very value (bit for bit) the whole-tensor form gives for the lane along the named axis taken alone, with that axis dropped. Sums and products start at the first element and proceed in order; minimum and maximum are the least and greatest element, with NaN only when every element is NaN; `reduce_hypot` is the root of the sum of squares.',
  [IN], 'every shape without empty dimensions, axis in either spelling, view and value; the arithmetic of mean, variance and hypot on whole numbers small enough to be exact',
  'the tests reduce a few small tensors of small integers; NaN, signed zero, other axes and views are not covered',
  ['src/math/reduce.rs', 'src/tensor/map.rs', 'src/tensor/axis.rs'],
  [('accumulator states (mean, Welford variance)', 'src/math/reduce.rs'), ('lane geometry', 'src/tensor/axis.rs')])
p('C21', 'Histograms count every value once, in the bin it belongs to',
  '`histogram` of a vector with n bins gives n counts and n+1 evenly spaced edges from the least to the greatest value; every value is counted exactly once, in the bin floor((x - min) / width), the greatest in the last bin, and all values in the first bin when they are all equal. `histogram2d` of an [m, 2] tensor does so per column, counting the row with bins (x, y) at [y, x]. Other shapes and zero bins are rejected; ten bins are the default.',
  [IN], 'whole-number data on which the bin arithmetic is exact, in every order of least and greatest, for owned data and views',
  'the tests count one or two fixed data sets; boundary values, constant data and other positions of the extremes are not covered',
  ['src/stats/histogram.rs', 'src/stats/histogram2d.rs', 'src/init/vector.rs'],
  [('bin index computation', 'src/stats/histogram.rs, src/stats/histogram2d.rs')])
p('C25', 'Sequence builders place every element at its own index',
  '`linspace(start, end, len)` holds, for each entry of start and end, start + k * (end - start) / (len - 1) at outer index k < len; `logspace` raises the base (10 unless given) to those, and `geomspace` exponentiates evenly spaced logarithms (a single entry giving a vector). `arange(start, end, step)` holds start, start + step and so on, up to and without end, rejecting a zero step or one pointing away from the end; `one_hot` holds ones exactly at the given positions and rejects positions outside. A start above the end and differing shapes are rejected.',
  [IN], 'every start, end and base (any bit pattern), length, entry shape and position',
  'the tests compare a few short sequences; several entries at once, empty and single-element sequences, and rejections are not covered',
  ['src/init/vector.rs', 'src/init/mod.rs'],
  [('linspace/arange loops', 'src/init/vector.rs')])
p('C22', 'A WAV file decodes to its samples, and nothing else is accepted',
  '`decode_wav` of a 16-bit PCM RIFF/WAVE buffer gives the samples of its data chunk in order as [frames, channels], each the signed little-endian value over 32768, and the sample rate. A buffer whose tags, sizes, format, sample width, channel count or frame layout do not describe such a file of exactly this length, or which is cut short, is rejected without reading outside it or reserving memory for data that is not there.',
  [IN], 'every buffer of the lengths explored, every header field value, every sample and rate, owned or a view',
  'the one test decodes a single file, which is absent from the repository; no malformed input is tried',
  ['src/io/decode_wav.rs'],
  [('header checks and little-endian cursor', 'src/io/decode_wav.rs')])
p('C23', 'Seeded random numbers are reproducible and have the stated form',
  '`Rand32` and `Rand64` step by the published permuted congruential recurrence from every state, `next_uniform` lies in 0..=1 and `next_normal` is the finite Box-Muller transform of the next two uniform numbers; a text seed depends on every byte in order. `random_normal` holds mean + p * std and `random_uniform` min + p * (max - min), between min and max, p being the successive numbers of the seed in row-major order, so that a seed fixes every element whatever the shape. After `random_seed` on a fresh thread, unseeded generators and tensors follow from that seed.',
  [IN, HI], 'every 64/128-bit state and seed, mean, std, min and max bit pattern, and option order',
  'the tests print or compare a handful of numbers for one or two seeds',
  ['src/random/random.rs', 'src/init/random.rs'],
  [('Rand32/Rand64::next, next_uniform, next_normal', 'src/random'), ('option builders', 'src/init')])
p('C24', 'Tensors compare by shape and elements alone',
  'Two tensors are equal exactly when their shapes are equal and every element equals its counterpart, whether owned, cloned, or views anywhere in shared or separate storage; NaN equals nothing, both zeros are equal. Ordering is that of the element sequences by their first difference (a proper prefix being less), then that of the shapes; it is unordered where the deciding elements are, it agrees with equality, and swapping the operands reverses it.',
  [IN], 'every pair of shapes explored and every element value of unsigned, signed and float types',
  'the tests compare equal small tensors; differing shapes of equal size, views, NaN and ordering are hardly covered',
  ['src/tensor/tensor.rs', 'src/tensor/data.rs', 'src/tensor/shape.rs'],
  [('PartialEq/PartialOrd of Tensor, TensorData and Shape', 'src/tensor')])
p('C26', 'Short-time spectra: each row windowed and transformed on its own',
  '`rfft_norm` of a tensor [.., n] gives [.., n/2 + 1]: for each row the magnitudes of the first n/2 + 1 terms of the discrete Fourier transform of that row, weighted by the Hann window sin(pi i / n)^2; with `fft_length` given, each row has that many entries, the leading magnitudes and then zeros. No row depends on another, on the rows around a view, or on what was transformed before.',
  [IN], 'every row length and outer shape explored, every element bit pattern, owned or view',
  'the tests transform a few fixed rows of one length',
  ['src/signal/rfft.rs'],
  [('window, scratch buffers and row loop', 'src/signal/rfft.rs')],
  hook='cfg(vp_hooks): pub use of FftOpt and FftArg')
p('C27', 'Reading a file gives its bytes or an error, never something else',
  '`read_file` of a name gives a vector of exactly the bytes of that file, in order, however the operating system interrupts or splits the reads. When opening or reading fails, or the name cannot be a file name, the result is an error; a file that changes length while it is read gives an error or the bytes it really holds, never invented ones. The file is closed again in every case.',
  [FS, IN], 'every content, every schedule of failing, interrupted and short calls within the bounds, every change of length',
  'the one test reads a file that is absent from the repository; no test makes a system call fail or deliver less',
  ['src/io/read_file.rs'],
  [('open, metadata, read_exact', 'src/io/read_file.rs')])
p('C28', 'Generated option builders change exactly the option they name',
  'For a struct given to `derive_opt`, starting from `()` (the struct\'s default) or from a value, each setter sets its own option (converting its argument where the option\'s type asks for it) and leaves every other one as it was, the last setting of an option wins, and `into_arg` gives the options as they were set.',
  [PR, HI], 'every sequence of settings within the bounds and every value, for options of every kind (optional count, optional convertible value, plain value)',
  'the one test sets a single option once',
  ['crates/essay-opt/src/options.rs'],
  [('trait, value and () implementations generated from the fields', 'crates/essay-opt/src/options.rs')])
p('C29', 'The debug form shows every element once, in order, bracketed by dimension',
  'The debug form of a tensor is `Tensor<TYPE> {`, a line break when it has more than one dimension, the elements\' own debug forms, each exactly once in row-major order, in one pair of brackets per dimension (separated by a space within a row, by comma, line break and space between rows, and with a further line break between larger blocks), then `, shape: ` with the list of dimensions and `}`. That of a shape is `Shape` with that list.',
  [IN], 'every shape explored, every element value, owned or view',
  'no test looks at the debug form of views, empty tensors or ranks above three',
  ['src/tensor/tensor.rs', 'src/tensor/shape.rs'],
  [('fmt_tensor_rec', 'src/tensor/tensor.rs')])
p('C30', 'Threads take successive seeds, each its own, in every interleaving',
  'After `random_seed(s)` with s not zero, the generators of threads that begin to draw random numbers take the successive seeds that follow from s (each the first number of a 64-bit generator seeded with the previous one), each exactly once, none twice and none skipped, however their first draws interleave. A `random_seed(t)` in between takes effect at one moment: the seeds taken before it follow from s, those after it from t. What a thread draws after its first number depends on its own seed alone.',
  ['schedules', 'inputs'], 'every interleaving of the first draws of up to three threads and a further random_seed, at every access to shared data; every seed',
  'the tests run with a fixed seed compiled in, on one thread at a time, and never race two first draws',
  ['src/random/random.rs'],
  [('shared seed advanced by compare-and-exchange, generator per thread', 'src/random/random.rs')])
