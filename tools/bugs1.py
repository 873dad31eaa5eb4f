BUGS = [
 dict(id='b01', property='C02', edits=[('src/tensor/tensor.rs', '''        Self {
            shape,

            offset: self.offset + offset,
            size: len,
''', '''        // the whole range keeps the position of the data
        let start = if len == self.size { offset } else { self.offset + offset };

        Self {
            shape,

            offset: start,
            size: len,
''')],
  needs='a view that does not start at the beginning of its storage, from which the whole range is taken again', breaks='the second view starts at the beginning of the storage and shows other elements',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from(vec![1u32, 2, 3, 4, 5, 6]);
    let a = t.subslice(2, 3);
    let b = a.subslice(0, 3);
    assert_eq!(b.as_slice(), &[3, 4, 5]);
    let c = t.subslice(0, 6).subslice(3, 2).subslice_flat(0, 2, [2, 1]);
    assert_eq!(c.as_slice(), &[4, 5]);
}
'''),
 dict(id='b02', property='C12', edits=[('src/array/stack.rs', '''        for i in 0..shape.rank() {
            if i == axis {
                axis_len += x_shape.dim(axis);
            } else {
                assert_eq!(x_shape.dim(i), shape.dim(i),
                    "concat() tensor shape must match {:?} {:?}", 
                    shape.as_vec(), x_shape.as_vec()
                );
            }
        }
''', '''        let rank = shape.rank();

        assert!(
            x_shape.sublen(0, axis) == shape.sublen(0, axis)
            && x_shape.sublen(axis + 1, rank) == shape.sublen(axis + 1, rank),
            "concat() tensor shape must match {:?} {:?}", 
            shape.as_vec(), x_shape.as_vec()
        );

        axis_len += x_shape.dim(axis);
''')],
  needs='arguments of rank three or more whose dimensions on one side of the axis differ but have the same product', breaks='concatenating tensors that do not fit is accepted and mixes their rows up',
  demo='''
use essay_tensor::{array::concatenate, tensor::Tensor};
fn main() {
    let a = Tensor::from_vec((0..12).collect::<Vec<i32>>(), [2, 2, 3]);
    let b = Tensor::from_vec((0..6).collect::<Vec<i32>>(), [1, 3, 2]);
    let r = std::panic::catch_unwind(|| concatenate(vec![a.clone(), b.clone()]).shape().as_vec());
    assert!(r.is_err(), "accepted: {:?}", r);
    let c = concatenate(vec![a.clone(), a.subslice(0, 1)]);
    assert_eq!(c.shape().as_vec(), vec![3, 2, 3]);
}
'''),
 dict(id='b03', property='C13', edits=[('src/array/split.rs', '''        if cut == prev {
            continue;
        }
''', '''        if cut <= prev {
            continue;
        }
''')],
  needs='cut positions that decrease, along an axis other than the outermost', breaks='decreasing cuts are accepted in place of being rejected, and a cut is ignored',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec((0..8).collect::<Vec<i32>>(), [2, 4]);
    let r = std::panic::catch_unwind(|| a.split_axis(1, [3, 1]).len());
    assert!(r.is_err(), "accepted: {:?}", r);
    assert_eq!(a.split_axis(1, [1, 3]).len(), 3);
}
'''),
 dict(id='b04', property='C04', edits=[('src/array/stack.rs', '''                        o.add((k * n_args + j) * n_inner + i)
                            .write(x[k * n_inner + i].clone());
''', '''                        *o.add((k * n_args + j) * n_inner + i) = x[k * n_inner + i].clone();
''')],
  needs='stacking tensors whose elements own something (have a destructor)', breaks='stack drops uninitialised memory as if it were elements',
  demo='''
use essay_tensor::{array::stack, tensor::{Tensor, Type}};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct E(u64);
impl Type for E {}
impl E { fn new(v: u64) -> E { LIVE.fetch_add(1, SeqCst); E(v) } }
impl Clone for E { fn clone(&self) -> E { E::new(self.0) } }
impl Drop for E { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    {
        let t = Tensor::from(vec![E::new(1), E::new(2), E::new(3)]);
        let s = stack(vec![t.clone(), t.clone()]);
        assert_eq!(LIVE.load(SeqCst), 9);
        assert_eq!(s[4].0, 2);
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}
'''),
 dict(id='b05', property='C10', edits=[('src/tensor/map.rs', '''                    for k in 1..a_len {
                        let v = a[n * a_len * inner + i + k * inner].clone();

                        state = (f)(state, v);
                    }
''', '''                    // pairs first, so that long lanes need fewer steps
                    let mut k = 1;

                    while k + 1 < a_len {
                        let v = a[n * a_len * inner + i + k * inner].clone();
                        let w = a[n * a_len * inner + i + (k + 1) * inner].clone();

                        let pair = (f)(v, w);
                        state = (f)(state, pair);

                        k += 2;
                    }

                    if k < a_len {
                        let v = a[n * a_len * inner + i + k * inner].clone();

                        state = (f)(state, v);
                    }
''')],
  needs='a reduction along an axis of length three or more with a function that is not associative', breaks='elements are combined pairwise rather than one after another from the first',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![10i32, 20, 3, 4, 2, 1], [3, 2]);
    let r = a.reduce_axis(0, |x, y| x - y);
    assert_eq!(r.as_slice(), &[10 - 3 - 2, 20 - 4 - 1]);
    let r = a.reduce_axis(1, |x, y| x - y);
    assert_eq!(r.as_slice(), &[-10, -1, 1]);
}
'''),
 dict(id='b06', property='C08', edits=[('src/tensor/shape.rs', '''    pub fn broadcast_to(&self, b: &Shape) -> Self {
        let min_rank = cmp::min(self.rank(), b.rank());
        for i in 0..min_rank {
            assert_eq!(
                self.rdim(i), b.rdim(i), 
''', '''    pub fn broadcast_to(&self, b: &Shape) -> Self {
        let min_rank = cmp::min(self.rank(), b.rank());
        for i in 0..min_rank {
            assert!(
                self.rdim(i) == b.rdim(i) || (i + 1 == b.rank() && b.rdim(i) == 1), 
''')],
  needs='a right operand whose outermost dimension is one where the left operand has another length', breaks='operands whose trailing dimensions differ are accepted',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1i32, 2, 3, 4, 5, 6], [3, 2]);
    let b = Tensor::from_vec(vec![10i32, 20], [1, 2]);
    let r = std::panic::catch_unwind(|| a.map2(&b, |x, y| x + y).as_slice().to_vec());
    assert!(r.is_err(), "accepted: {:?}", r);
    let b = Tensor::from_vec(vec![10i32, 20], [2]);
    assert_eq!(a.map2(&b, |x, y| x + y).as_slice(), &[11, 22, 13, 24, 15, 26]);
}
'''),
 dict(id='b07', property='C06', edits=[('src/tensor/shape.rs', '''                for i in 0..self.rank as usize {
                    if i != axis || self.dims[i] != 1 {
                        dims[rank] = self.dims[i];
                        rank += 1;
                    }
                }
''', '''                for i in 0..self.rank as usize {
                    if i < axis || self.dims[i] != 1 {
                        dims[rank] = self.dims[i];
                        rank += 1;
                    }
                }
''')],
  needs='squeezing one axis of a tensor that has another axis of length one further out', breaks='squeeze_axis removes axes that were not named',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1i32, 2, 3], [1, 3, 1]);
    assert_eq!(a.clone().squeeze_axis(2).shape().as_vec(), vec![1, 3]);
    assert_eq!(a.clone().squeeze_axis(0).shape().as_vec(), vec![3, 1]);
    assert_eq!(a.squeeze_axis(1).shape().as_vec(), vec![1, 3, 1]);
}
'''),
 dict(id='b08', property='C14', edits=[('src/array/tile.rs', '''        } else if j < x_rank {
            let x_len = x_shape_r.iter().take(j).product();
''', '''        } else if j < x_rank && x_shape_r[j] > 1 {
            let x_len = x_shape_r.iter().take(j).product();
'''), ('src/array/tile.rs', '''    let repeat = if j < m_rank { mult_r[j] } else { 1 };
''', '''    // nothing to repeat above the last axis that has more than one entry
    let repeat = if j < m_rank && (j < x_rank || x_rank < 3) { mult_r[j] } else { 1 };
''')],
  needs='more repeat counts than dimensions, for a tensor of rank three or more', breaks='the outer repetitions are not written (the result contains uninitialised memory)',
  demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec(vec![1i32, 2, 3, 4], [2, 1, 2]);
    let t = a.tile([3, 1, 1, 1]);
    assert_eq!(t.shape().as_vec(), vec![3, 2, 1, 2]);
    assert_eq!(t.as_slice(), &[1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4]);
}
'''),
]
