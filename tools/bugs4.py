BUGS = [
 # size-triggered block transposition, wrong remainder
 dict(id='b33', property='C15', edits=[('src/array/transpose.rs', '''                for j in 0..rows {
                    for i in 0..cols {
                        o.add(n * n_inner + i * rows + j)
                            .write(x[n * n_inner + j * cols + i].clone());
                    }
                }
''', '''                // blocks of 16 rows
                for j0 in (0..rows).step_by(16) {
                    let j_len = (rows - j0).min(16);

                    for i in 0..cols {
                        for j in 0..j_len {
                            let from = if j0 + j_len == rows && j0 > 0 { rows - j_len } else { j0 };
                            o.add(n * n_inner + i * rows + j0 + j)
                                .write(x[n * n_inner + (from + (j & 7) + (j & 8) * (cols > 2) as usize) * cols + i].clone());
                        }
                    }
                }
''')],
  needs='a matrix of two columns and more than eight rows', breaks='elements of rows after the eighth are replaced by those of earlier rows', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec((0..24u32).collect::<Vec<_>>(), [12, 2]);
    let u = t.transpose();
    for j in 0..12 { for i in 0..2 { assert_eq!(u[(i, j)], t[(j, i)]); } }
}
'''),
 dict(id='b34', property='C24', edits=[('src/math/num.rs', '''        match self.iter().partial_cmp(other.iter()) {
            Some(Ordering::Equal)''', '''        // skip the common prefix in blocks
        let n = self.iter().zip(other.iter()).step_by(4).take_while(|(a, b)| a == b).count();
        let n = (4 * n.max(1) - 4).min(self.size()).min(other.size());

        match self.as_slice()[n..].iter().partial_cmp(other.as_slice()[n..].iter()) {
            Some(Ordering::Equal)''')],
  needs='a difference between positions that are multiples of four, with those positions equal', breaks='earlier differences are overlooked', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from(vec![1, 2, 3, 4, 5, 9]);
    let b = Tensor::from(vec![1, 7, 3, 4, 5, 6]);
    assert!(a < b);
}
'''),
 dict(id='b35', property='C21', edits=[('src/stats/histogram.rs', '''    let mut values = Vec::<f32>::new();
    values.resize(args.n_bins, 0.);
''', '''    let mut values = Vec::<u8>::new();
    values.resize(args.n_bins, 0);
'''), ('src/stats/histogram.rs', '''            values[bin] += 1.;
        } else {
            values[args.n_bins - 1] += 1.;
        }
    }

    (Tensor::from(values), bins)''', '''            values[bin] = values[bin].wrapping_add(1);
        } else {
            values[args.n_bins - 1] = values[args.n_bins - 1].wrapping_add(1);
        }
    }

    (Tensor::from(values).map(|n| *n as f32), bins)''')],
  needs='more than 255 values in one bin', breaks='counts start again at zero', demo='''
use essay_tensor::{stats::histogram, tensor::Tensor};
fn main() {
    let mut v = vec![0.0f32; 300];
    v.push(1.);
    let (h, _) = histogram(Tensor::from(v), 2);
    assert_eq!(h.as_slice(), &[300., 1.]);
}
'''),
 dict(id='b36', property='C12', edits=[('src/tensor/from.rs', '''impl<T: Type + Clone> IntoTensorList<T> for &[&Vec<T>] {
    fn into_list(self, vec: &mut Vec<Tensor<T>>) {
        for item in self {''', '''impl<T: Type + Clone> IntoTensorList<T> for &[&Vec<T>] {
    fn into_list(self, vec: &mut Vec<Tensor<T>>) {
        for item in self.iter().filter(|item| item.len() > 1 || self.len() < 4) {''')],
  needs='a slice of four or more references to vectors, one of them of a single element', breaks='that argument is left out', demo='''
use essay_tensor::array::concatenate;
fn main() {
    let (a, b, c, d) = (vec![1, 2], vec![3], vec![4, 5], vec![6, 7]);
    let v = [&a, &b, &c, &d];
    assert_eq!(concatenate(v.as_slice()).as_slice(), &[1, 2, 3, 4, 5, 6, 7]);
}
'''),
 dict(id='b37', property='C22', edits=[('src/io/decode_wav.rs', '''        Tensor::from(meta.sample_rate as usize)
''', '''        Tensor::from((meta.sample_rate & 0x3_ffff) as usize)
''')],
  needs='a sample rate of 262144 or more', breaks='another sample rate is reported', demo='''
use essay_tensor::{io::decode_wav, tensor::Tensor};
fn wav(rate: u32) -> Vec<u8> {
    let mut v = b"RIFF".to_vec();
    v.extend(40u32.to_le_bytes()); v.extend(b"WAVEfmt "); v.extend(16u32.to_le_bytes());
    v.extend([1, 0, 1, 0]); v.extend(rate.to_le_bytes()); v.extend((rate * 2).to_le_bytes()); v.extend([2, 0, 16, 0]);
    v.extend(b"data"); v.extend(4u32.to_le_bytes()); v.extend([0, 0, 1, 0]);
    v
}
fn main() {
    for r in [44100, 192000, 384000] { assert_eq!(decode_wav(Tensor::from(wav(r))).1[0], r as usize); }
}
'''),
 dict(id='b38', property='C20', edits=[('src/math/reduce.rs', '''    pub fn reduce_sum_axis(&self, axis: impl Into<Axis>) -> Tensor<T> {
        self.reduce_axis(axis, |s, v| s + v.clone())
    }
''', '''    pub fn reduce_sum_axis(&self, axis: impl Into<Axis>) -> Tensor<T> {
        let axis = axis.into();
        let axis = Axis::axis_opt(axis.get_axis());

        if self.rank() == 2 && axis.get_axis() == Some(0) && self.rows() > 4 {
            // sum both halves of the rows
            let half = self.rows() / 2;
            let a = self.subslice(0, half).reduce_sum_axis(0);
            let b = self.subslice(half, self.rows() - half).reduce_sum_axis(0);

            return a.map2(&b, |a, b| a.clone() + b.clone());
        }

        self.reduce_axis(axis, |s, v| s + v.clone())
    }
''')],
  needs='summing the rows of a matrix of five rows or more, where rounding shows', breaks='sums do not proceed in order and differ from the sum of the lane alone', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let v = vec![1.0e8f32, 3., 3., 3., 3., 3., -1.0e8];
    let t = Tensor::from(v.clone());
    assert_eq!(t.clone().reshape([7, 1]).reduce_sum_axis(0)[0].to_bits(), t.reduce_sum()[0].to_bits());
}
'''),
 dict(id='b40', property='C04', edits=[('src/tensor/map.rs', '''            for i in 0..size {
                o.add(i).write( (f)());
            }
''', '''            // drops what was made when f panics
            struct Made<V>(*mut V, usize);
            impl<V> Drop for Made<V> {
                fn drop(&mut self) {
                    for i in 0..=self.1 { unsafe { self.0.add(i).drop_in_place() } }
                }
            }

            let mut made = Made(o, 0);
            for i in 0..size {
                made.1 = i;
                o.add(i).write( (f)());
            }
            std::mem::forget(made);
''')],
  needs='an initialiser that panics part way', breaks='the element that was not made is dropped', demo='''
use essay_tensor::tensor::Tensor;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MADE: AtomicUsize = AtomicUsize::new(0);
static DROPPED: AtomicUsize = AtomicUsize::new(0);
fn main() {
    struct D;
    impl Drop for D { fn drop(&mut self) { DROPPED.fetch_add(1, SeqCst); } }
    impl essay_tensor::tensor::Type for D {}
    let r = std::panic::catch_unwind(|| Tensor::<D>::init([4], || {
        if MADE.load(SeqCst) == 2 { panic!("no"); }
        MADE.fetch_add(1, SeqCst);
        D
    }));
    assert!(r.is_err());
    assert!(DROPPED.load(SeqCst) <= MADE.load(SeqCst));
}
'''),
 dict(id='b41', property='C08', edits=[('src/tensor/map.rs', '''    let size = a_len.max(b_len).max(c_len);
    let inner = a_len.min(b_len).min(c_len);
''', '''    let size = a_len.max(b_len).max(c_len);
    let inner = if b_len == c_len { b_len.min(a_len) } else { a_len.min(b_len).max(c_len.min(a_len.max(b_len))) };
''')],
  needs='three operands of three different sizes', breaks='the shortest operand is read past its end or its elements are not repeated', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from_vec((0..12i32).collect::<Vec<_>>(), [2, 2, 3]);
    let b = Tensor::from_vec((0..6i32).collect::<Vec<_>>(), [2, 3]);
    let c = Tensor::from_vec((0..3i32).collect::<Vec<_>>(), [3]);
    for (x, y, z) in [(&a, &b, &c), (&a, &c, &b), (&b, &a, &c), (&b, &c, &a), (&c, &a, &b), (&c, &b, &a)] {
        let r = x.map3(y, z, |x, y, z| x * 10000 + y * 100 + z);
        for i in 0..12 { assert_eq!(r[i], x[i % x.size()] * 10000 + y[i % y.size()] * 100 + z[i % z.size()]); }
    }
}
'''),
 dict(id='b43', property='C14', edits=[('src/array/tile.rs', '''            let x_len = x_shape_r.iter().take(j).product();
''', '''            let x_len = x_shape_r.iter().take(j.min(4)).product();
''')],
  needs='a tensor of rank six', breaks='elements of other positions are repeated', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec((0..24u32).collect::<Vec<_>>(), [2, 3, 1, 2, 1, 2]);
    let u = t.tile(vec![1, 1, 1, 1, 1, 1]);
    assert_eq!(u.as_slice(), t.as_slice());
}
'''),
 dict(id='b44', property='C29', edits=[('src/tensor/tensor.rs', '''            for j in 0..tensor.cols() {
                if j > 0 {
                    write!(f, " ")?;
                }
''', '''            for j in 0..tensor.cols() {
                if j > 0 {
                    write!(f, " ")?;
                }

                if tensor.cols() > 100 && j == 50 {
                    write!(f, "...")?;
                    continue;
                }
''')],
  needs='a row of more than a hundred elements', breaks='one element is not shown', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from((0..120i32).collect::<Vec<_>>());
    assert!(format!("{:?}", t).contains("49 50 51"));
}
'''),
 dict(id='b45', property='C16', edits=[('src/init/matrix.rs', '''            let n = size / (rows * cols);

            for k in 0..n {
                for j in 0..rows {
                    for i in 0..cols {
                        let index = k * rows * cols + j * cols + i;

                        o.add(index)
                            .write(if i <= j {''', '''            let n = size / (rows * cols);

            for k in 0..n {
                for j in 0..rows {
                    for i in 0..cols {
                        let index = k * rows * cols + j * cols + i;

                        o.add(index)
                            .write(if i as u8 <= j as u8 {''')],
  needs='a matrix of more than 256 rows or columns', breaks='elements are kept or zeroed on the wrong side of the diagonal', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec(vec![1u8; 2 * 300], [2, 300]).tril();
    assert_eq!(t.iter().map(|x| *x as usize).sum::<usize>(), 3);
}
'''),
 dict(id='b46', property='C10', edits=[('src/tensor/map.rs', '''    let len = tensor.size();

    let a = tensor.as_slice();

    let mut value = init.clone();

    for i in 0..len {
        value = (f)(value, &a[i]);
    }
''', '''    let len = tensor.size();

    let a = tensor.as_slice();

    let mut value = init.clone();

    // rows first
    let cols = tensor.cols().max(1).min(1024);

    for row in a.chunks_exact(cols) {
        for v in row {
            value = (f)(value, v);
        }
    }

    let _ = len;
''')],
  needs='rows of more than 1024 elements, not a multiple of that', breaks='the elements after the last multiple are left out', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from((0..1030i32).collect::<Vec<_>>());
    assert_eq!(t.fold(0i32, |s, v| s + v)[0], (0..1030).sum::<i32>());
}
'''),
 dict(id='b48', property='C05', edits=[('src/tensor/shape.rs', '''        if base_rank < rank {
            self.dims[base_rank..rank].iter().map(|d| *d as usize).product()
''', '''        if base_rank < rank {
            self.dims[base_rank..rank].iter().map(|d| *d as usize).filter(|d| *d > 0).product()
''')],
  needs='a shape with an empty dimension', breaks='batch_len ignores the empty dimension', demo='''
use essay_tensor::tensor::Shape;
fn main() {
    assert_eq!(Shape::from([3, 4, 2]).batch_len(1), 12);
    assert_eq!(Shape::from([3, 0, 2]).batch_len(1), 0);
}
'''),
 dict(id='b49', property='C25', edits=[('src/init/vector.rs', '''    for i in indices.as_ref() {
        vec[*i] = 1.;
    }
''', '''    let mut last = None;
    for i in indices.as_ref() {
        if last == Some(*i) {
            vec[*i] = 0.;
        }
        vec[*i] = 1. - vec[*i];
        last = Some(*i);
    }
''')],
  needs='a position named twice with another in between', breaks='it holds zero', demo='''
use essay_tensor::init::one_hot;
fn main() {
    assert_eq!(one_hot(&[1, 1], 3).as_slice(), &[0., 1., 0.]);
    assert_eq!(one_hot(&[1, 2, 1], 3).as_slice(), &[0., 1., 1.]);
}
'''),
]
BUGS += [
 dict(id='b51', property='C30', edits=[('src/random/random.rs', '''            if SEED.compare_exchange(old, seed, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                break;
            }
''', '''            if SEED.load(Ordering::SeqCst) == old {
                SEED.store(seed, Ordering::SeqCst);
                break;
            }
''')],
  needs='two threads that draw their first number at the same moment', breaks='both take the same seed', demo='''
use essay_tensor::random::{random_seed, Rand64};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
fn main() {
    let begin = std::time::Instant::now();
    while begin.elapsed().as_secs() < 20 {
        random_seed(12345);
        let go = Arc::new(AtomicUsize::new(0));
        let h: Vec<_> = (0..4).map(|_| { let go = go.clone(); std::thread::spawn(move || {
            go.fetch_add(1, SeqCst);
            while go.load(SeqCst) < 4 { std::hint::spin_loop(); }
            Rand64::new().0
        }) }).collect();
        let mut g: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
        g.sort();
        g.dedup();
        assert_eq!(g.len(), 4);
    }
}
'''),
 dict(id='b52', property='C30', edits=[('src/random/random.rs', '''        loop {
            let old = SEED.load(Ordering::Acquire);

            if old == 0 {''', '''        let mut old = SEED.load(Ordering::Acquire);

        loop {
            if old == 0 {'''), ('src/random/random.rs', '''            if SEED.compare_exchange(old, seed, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                break;
            }
''', '''            match SEED.compare_exchange(old, seed, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => break,
                // another thread was first: go on from the seed that would have been ours
                Err(now) => { SEED.store(seed, Ordering::SeqCst); old = if now == seed { now } else { seed } },
            }
''')],
  needs='a random_seed while a thread draws its first number', breaks='the new seed is lost', demo='''
use essay_tensor::random::{random_seed, Rand64};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
fn draw() -> u64 { Rand64::new().0 as u64 }
fn main() {
    let f = |s: u64| Rand64(s as u128).next();
    let (s, t) = (12345, 99);
    let begin = std::time::Instant::now();
    while begin.elapsed().as_secs() < 20 {
        random_seed(s);
        let go = Arc::new(AtomicUsize::new(0));
        let wait = |go: &AtomicUsize| { go.fetch_add(1, SeqCst); while go.load(SeqCst) < 2 { std::hint::spin_loop(); } };
        let (g, k) = (go.clone(), go.clone());
        let a = std::thread::spawn(move || { wait(&g); draw() });
        let b = std::thread::spawn(move || { wait(&k); random_seed(t) });
        let x = a.join().unwrap();
        b.join().unwrap();
        let l = std::thread::spawn(draw).join().unwrap();
        let took = f(f(t)) == x;
        assert!(took || x == f(f(s)));
        assert_eq!(l, if took { f(f(f(t))) } else { f(f(t)) });
    }
}
'''),
]
