BUGS = [
 dict(id='b09', property='C01', edits=[('src/tensor/tensor.rs', '''        let offset = if offset < self.size {
            offset
        } else {
            offset % self.size
        };

        assert!(len <= self.size - offset);
''', '''        let offset = if offset < self.size {
            offset
        } else {
            offset % self.size
        };

        // never past the end of the storage
        assert!(len <= self.data.len() - self.offset - offset);
''')],
  needs='a view that ends before its storage does, and a wrapping slice longer than what is left of the view', breaks='the wrapping slice shows elements after the view in place of being rejected',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from(vec![1u32, 2, 3, 4, 5, 6]).subslice(1, 3);
    assert_eq!(t.as_wrap_slice_n(1, 2), &[3, 4]);
    let r = std::panic::catch_unwind(|| t.as_wrap_slice_n(1, 3).to_vec());
    assert!(r.is_err(), "read {:?}", r);
}
'''),
 dict(id='b10', property='C03', edits=[('src/tensor/from.rs', '''                for v3 in v2 {
                    assert_eq!(len_3, v3.len());

                    for v4 in v3 {
                        data.push(v4.clone());
                    }
                }
''', '''                assert_eq!(len_2 * len_3, v2.iter().map(|v3| v3.len()).sum::<usize>());

                for v3 in v2 {
                    for v4 in v3 {
                        data.push(v4.clone());
                    }
                }
''')],
  needs='vectors nested four deep, ragged at the innermost level in such a way that the lengths add up', breaks='a ragged nesting is accepted',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let ok = vec![vec![vec![vec![1, 2], vec![3, 4]]]];
    assert_eq!(Tensor::from(&ok).shape().as_vec(), vec![1, 1, 2, 2]);
    let r = std::panic::catch_unwind(|| Tensor::from(&vec![vec![vec![vec![1, 2], vec![3, 4]], vec![vec![5], vec![6, 7, 8]]]]).shape().as_vec());
    assert!(r.is_err(), "accepted {:?}", r);
}
'''),
 dict(id='b11', property='C05', edits=[('src/tensor/shape.rs', '''        if self.rank() < b.rank() {
            b.clone()
        } else {
            self.clone()
        }
''', '''        if self.sublen(0, self.rank()) < b.sublen(0, b.rank()) {
            b.clone()
        } else {
            self.clone()
        }
''')],
  needs='a shape broadcast to one that only has additional dimensions of one', breaks='the result loses the leading dimensions of one',
  demo='''
use essay_tensor::tensor::{Shape, Tensor};
fn main() {
    assert_eq!(Shape::from([3]).broadcast_to(&Shape::from([2, 3])), Shape::from([2, 3]));
    assert_eq!(Shape::from([3]).broadcast_to(&Shape::from([1, 3])), Shape::from([1, 3]));
    let a = Tensor::from(vec![1, 2, 3]);
    let b = Tensor::from_vec(vec![1, 2, 3], [1, 1, 3]);
    assert_eq!((&a + &b).shape().as_vec(), vec![1, 1, 3]);
}
'''),
 dict(id='b13', property='C11', edits=[('src/tensor/map.rs', '''            for n in 0..batch {
                for i in 0..inner {
                    let mut state = init.clone();

                    for k in 0..a_len {
                        let v = &a[(n * a_len + k) * inner + i];

                        state = (accum)(state, v);
                    }

                    let state = (complete)(state);
''', '''            for n in 0..batch {
                // the lanes of one batch share their running state
                let mut lane = init.clone();

                for i in 0..inner {
                    let mut state = lane.clone();

                    for k in 0..a_len {
                        let v = &a[(n * a_len + k) * inner + i];

                        state = (accum)(state, v);
                    }

                    if a_len == 1 {
                        lane = state.clone();
                    }

                    let state = (complete)(state);
''')],
  needs='an axis of length one which is not the last', breaks='lanes are normalised with the elements of other lanes', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1, 2, 3, 4], [2, 1, 2]);
    let n = a.normalize(1, 0, |s, v| s + v, |s| s, |s, _| *s);
    assert_eq!(n.as_slice(), &[1, 2, 3, 4]);
}
'''),
 dict(id='b14', property='C15', edits=[('src/array/transpose.rs', '''    let n_inner = cols * rows;
    let batch = size / n_inner;
''', '''    let n_inner = cols * rows;
    let batch = if tensor.rank() > 4 { tensor.dim(0) } else { size / n_inner };
''')],
  needs='a tensor of rank five or six with more than one outer batch dimension', breaks='only the first batch entries are written; the rest is uninitialised memory', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let v: Vec<i32> = (1..25).collect();
    let a = Tensor::from_vec(v.clone(), [2, 1, 3, 2, 2]);
    let t = a.transpose();
    assert_eq!(t.transpose().as_slice(), v.as_slice());
    assert_eq!(&t.as_slice()[20..], &[21, 23, 22, 24]);
}
'''),
 dict(id='b15', property='C16', edits=[('src/init/matrix.rs', '''                        o.add(index)
                            .write(if j <= i { x[index].clone() } else { T::zero() });
''', '''                        o.add(index)
                            .write(if j.min(cols - 1) <= i { x[index].clone() } else { T::zero() });
''')],
  needs='a matrix with more rows than columns', breaks='triu keeps elements below the diagonal in the last column', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1, 2, 3, 4, 5, 6, 7, 8], [4, 2]);
    assert_eq!(a.triu().as_slice(), &[1, 2, 0, 4, 0, 0, 0, 0]);
}
'''),
 dict(id='b18', property='C19', edits=[('src/linalg/matmul.rs', '''    let b_size = b.rows() * b.cols();
''', '''    let b_size = b.cols() * n;
''')],
  needs='batches of products whose second operand is not square', breaks='later batch entries use parts of the wrong matrix', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1f32, 2., 3., 4.], [2, 1, 2]);
    let b = Tensor::from_vec(vec![1f32, 2., 3., 4.], [2, 2, 1]);
    assert_eq!(a.matmul(&b).as_slice(), &[5., 25.]);
}
'''),
 dict(id='b19', property='C20', edits=[('src/math/reduce.rs', '''    pub fn reduce_max(&self) -> Self {
        self.reduce(|s, v| s.max(v))
    }
''', '''    pub fn reduce_max(&self) -> Self {
        self.reduce(|s, v| if v > s { v } else { s })
    }
''')],
  needs='a NaN as the first element, followed by numbers', breaks='the greatest element is NaN', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    assert_eq!(Tensor::from(vec![1f32, 3., 2.]).reduce_max()[0], 3.);
    assert_eq!(Tensor::from(vec![f32::NAN, 3., 2.]).reduce_max()[0], 3.);
}
'''),
 dict(id='b20', property='C21', edits=[('src/stats/histogram.rs', '''    let delta = if min == max { 
''', '''    let delta = if max - min < f32::EPSILON {
''')],
  needs='values that differ by very little', breaks='values of different bins are all counted in the first bins', demo='''
use essay_tensor::{stats::histogram, tensor::Tensor};
fn main() {
    let s = 2f32.powi(-30);
    let (c, _) = histogram(Tensor::from(vec![0., s, 2. * s, 4. * s]), 4);
    assert_eq!(c.as_slice(), &[1., 1., 1., 1.]);
}
'''),
 dict(id='b21', property='C22', edits=[('src/io/decode_wav.rs', '''        (self.read() as u16 + 0x100 * self.read() as u16) as i16
''', '''        let value = self.read() as i32 + 0x100 * self.read() as i32;

        (if value > 0x7fff { value - 0xffff } else { value }) as i16
''')],
  needs='negative samples', breaks='negative samples are off by one', demo='''
use essay_tensor::io::decode_wav;
fn main() {
    let mut b = b"RIFF".to_vec();
    b.extend(40u32.to_le_bytes());
    b.extend(b"WAVEfmt ");
    b.extend(16u32.to_le_bytes());
    b.extend([1, 0, 1, 0]);
    b.extend(8000u32.to_le_bytes());
    b.extend(16000u32.to_le_bytes());
    b.extend([2, 0, 16, 0]);
    b.extend(b"data");
    b.extend(4u32.to_le_bytes());
    b.extend([0, 0x40, 0, 0x80]);
    let (d, r) = decode_wav(b);
    assert_eq!(d.as_slice(), &[0.5, -1.]);
    assert_eq!(r[0], 8000);
}
'''),
 dict(id='b22', property='C23', edits=[('src/random/random.rs', '''        let mut seed: u128 = 0;

        for v in value.as_bytes() {
            seed = seed.wrapping_mul(Self::A).wrapping_add(Self::C).wrapping_add(*v as u128);
        }
''', '''        let mut seed: u128 = 0;

        for v in value.chars() {
            seed = seed.wrapping_mul(Self::A).wrapping_add(Self::C).wrapping_add(v as u8 as u128);
        }
''')],
  needs='a text seed with characters beyond ASCII', breaks='different texts give the same generator', demo='''
use essay_tensor::random::Rand64;
fn main() {
    assert_eq!(Rand64::from("ab").next(), Rand64::from("ab").next());
    assert_ne!(Rand64::from("\\u{141}").next(), Rand64::from("A").next());
}
'''),
 dict(id='b23', property='C24', edits=[('src/tensor/tensor.rs', '''        self.shape == other.shape && self.as_slice() == other.as_slice()
''', '''        if self.shape != other.shape {
            return false;
        }

        // tensors that share their storage at the same place
        if self.offset == other.offset && Arc::ptr_eq(&self.data, &other.data) {
            return true;
        }

        self.as_slice() == other.as_slice()
''')],
  needs='a tensor holding a NaN, compared with a clone of itself', breaks='it equals its clone although NaN equals nothing', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from(vec![1f32, f32::NAN]);
    assert!(a != a.clone());
    let b = Tensor::from(vec![1f32, 2.]);
    assert!(b == b.clone());
}
'''),
 dict(id='b24', property='C25', edits=[('src/init/vector.rs', '''        while end < start {
            vec.push(start);
            start += step;
        }
''', '''        while end < start {
            vec.push(start);
            start += step;

            // guard against a step that rounds away
            if start - step == start {
                break;
            }

            if vec.len() > 3 && start + step < end {
                break;
            }
        }
''')],
  needs='a decreasing range of more than four elements', breaks='the last element is missing', demo='''
use essay_tensor::init::arange;
fn main() {
    assert_eq!(arange(3., 0., -1.).as_slice(), &[3., 2., 1.]);
    assert_eq!(arange(6., 0.5, -1.).as_slice(), &[6., 5., 4., 3., 2., 1.]);
}
'''),
 dict(id='b25', property='C26', edits=[('src/signal/rfft.rs', '''    let batch = tensor.size() / len;
''', '''    let batch = tensor.size() / len;
    let row = if tensor.rank() > 3 { tensor.offset() } else { 0 };
'''), ('src/signal/rfft.rs', '''                let x = tensor.as_wrap_slice(n * len);
''', '''                let x = tensor.as_wrap_slice(n * len + row * len);
''')],
  needs='a view of rank four or more that does not start at the beginning of its storage', breaks='rows are taken from other positions', demo='''
use essay_tensor::{signal::rfft_norm, tensor::Tensor};
fn main() {
    let v: Vec<f32> = vec![9., 1., 2., 3., 4., 5., 7., 6., 8.];
    let t = Tensor::from(v.clone()).subslice_flat(1, 8, [1, 1, 2, 4]);
    let u = Tensor::from_vec(v[1..].to_vec(), [1, 1, 2, 4]);
    assert_eq!(rfft_norm(&t, ()), rfft_norm(&u, ()));
}
'''),
 dict(id='b26', property='C09', edits=[('src/math/num.rs', '''        self.map(|v| !v.clone())
    }
}

impl<T: ops::Not''', '''        self.map(|v| !v.clone()).squeeze()
    }
}

impl<T: ops::Not''')],
  needs='the operator ! applied to an owned tensor with a dimension of one', breaks='the dimension is lost', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![true, false], [1, 2]);
    assert_eq!((!&a).shape().as_vec(), vec![1, 2]);
    assert_eq!((!a).shape().as_vec(), vec![1, 2]);
}
'''),
 dict(id='b27', property='C10', edits=[('src/tensor/axis.rs', '''                for i in axis + 1..rank - 1 {
                    let dim = shape.dim(i);
                    vec.push(dim);
                    inner *= dim;
                }
''', '''                for i in axis + 1..rank - 1 {
                    let dim = shape.dim(i);
                    vec.push(dim);
                    inner = inner.max(1) * if i == axis + 3 { 1 } else { dim };
                }
''')],
  needs='folding rows along the first axis of a tensor of rank five or more', breaks='rows of different lanes are mixed', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec((0..8).collect::<Vec<i32>>(), [2, 1, 1, 2, 2]);
    let f: Tensor<i32> = t.fold_row(0, [0], |s: [i32; 1], r| [s[0] + r[0]]);
    assert_eq!(f.as_slice(), &[4, 8]);
}
'''),
 dict(id='b28', property='C06', edits=[('src/tensor/shape.rs', '''                    if i != axis || self.dims[i] != 1 {
''', '''                    if i != axis || self.dims[i] > 1 {
''')],
  needs='squeezing an axis of length zero', breaks='the empty axis is dropped and the shape no longer matches the elements', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::<i32>::from_vec(vec![], [2, 0]);
    let s = t.squeeze_axis(1);
    assert_eq!(s.shape().as_vec(), vec![2, 0]);
    assert_eq!(s.shape().size(), s.size());
}
'''),
]
