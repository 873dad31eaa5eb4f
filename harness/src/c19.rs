//! C19: matrix products are the sums of products the definition names. Elements are whole numbers small
//! enough for every sum to be exact, so the order of summation does not matter.
use crate::rt::*;
use crate::*;
use essay_tensor::linalg::{matmul, matmul_t, Transpose};
use essay_tensor::tensor::Tensor;

/// whole numbers 0..=15, as f32, in a view with other numbers around it
fn nums(d: &[usize]) -> (Tensor<f32>, Vec<f32>) {
    let n = prod(d);
    let (b, a) = if pick(0, 1) == 0 { (0, 0) } else { (2, 1) };
    let v: Vec<f32> = (0..n + a + b).map(|_| bits(4) as u8 as f32).collect();
    (Tensor::from_vec(v.clone(), [n + a + b]).subslice_flat(b, n, d), v[b..b + n].to_vec())
}
fn is(t: &Tensor<f32>, d: &[usize], v: &[f32], id: u64) { fsame(t, d, v, id) }
macro_rules! is { ($t:expr, $d:expr, $v:expr) => { is(&$t, $d, $v, line!() as u64) } }
/// per batch entry: the product of an m x k and a k x n matrix, each possibly stored transposed
fn product(a: &[f32], b: &[f32], batch: usize, m: usize, k: usize, n: usize, ta: bool, tb: bool) -> Vec<f32> {
    let mut o = Vec::new();
    let mut z = 0;
    while z < batch { let mut i = 0; while i < m { let mut j = 0; while j < n {
        let mut s = 0f32;
        let mut q = 0;
        while q < k {
            let x = if ta { q * m + i } else { i * k + q };
            let y = if tb { j * k + q } else { q * n + j };
            s += a[z * m * k + x] * b[z * k * n + y];
            q += 1;
        }
        o.push(s);
        j += 1; } i += 1; } z += 1; }
    o
}
fn dims3(lead: &[usize], a: usize, b: usize) -> Vec<usize> { let mut v = lead.to_vec(); v.push(a); v.push(b); v }
fn lead() -> Vec<usize> { [&[][..], &[1], &[2], &[3], &[2, 2], &[1, 3], &[2, 1, 2], &[1, 2, 1, 2]][pick(0, 7)].to_vec() }
fn sizes() -> (usize, usize, usize) {
    if pick(0, 1) == 0 { (pick(1, 3), pick(1, 3), pick(1, 3)) }
    else { [(1, 1, 9), (9, 1, 1), (1, 9, 1), (4, 5, 6), (5, 4, 2), (8, 8, 8), (9, 3, 17), (2, 33, 2), (12, 2, 5)][pick(0, 8)] }
}
fn go(l: &[usize], m: usize, k: usize, n: usize) {
    let t = pick(0, 3);
    let (ta, tb) = (t == 1 || t == 3, t == 2 || t == 3);
    let da = if ta { dims3(l, k, m) } else { dims3(l, m, k) };
    let db = if tb { dims3(l, n, k) } else { dims3(l, k, n) };
    let (a, va) = nums(&da);
    let (b, vb) = nums(&db);
    let e = product(&va, &vb, prod(l), m, k, n, ta, tb);
    let d = dims3(l, m, n);
    match t {
        0 => { is!(a.matmul(&b), &d, &e); is!(matmul(&a, &b), &d, &e); is!(matmul_t(&a, &b, Transpose::None), &d, &e); is!(a.matmul_t(&b, Transpose::None), &d, &e); }
        1 => { is!(matmul_t(&a, &b, Transpose::TransposeA), &d, &e); is!(a.matmul_t(&b, Transpose::TransposeA), &d, &e); }
        2 => { is!(matmul_t(&a, &b, Transpose::TransposeB), &d, &e); is!(a.matmul_t(&b, Transpose::TransposeB), &d, &e); }
        _ => { is!(matmul_t(&a, &b, Transpose::TransposeAB), &d, &e); is!(a.matmul_t(&b, Transpose::TransposeAB), &d, &e); }
    }
    is!(a, &da, &va);
    is!(b, &db, &vb);
}

harnesses! {
fn h_c19_matmul() {
    let (m, k, n) = sizes();
    go(&[], m, k, n);
    reach(1);
}
fn h_c19_batch() {
    let l = lead();
    let (m, k, n) = [(1, 2, 3), (2, 3, 1), (3, 1, 2), (2, 2, 2), (3, 2, 3), (1, 3, 1)][pick(0, 5)];
    go(&l, m, k, n);
    reach(1);
}
/// operands that do not fit are rejected: inner lengths, batch shapes, vectors
fn h_c19_misfit() {
    let (da, db) = (small_dims(0, 3, 3), small_dims(0, 3, 3));
    let (ra, rb) = (da.len(), db.len());
    let t = pick(0, 3);
    let (ta, tb) = (t == 1 || t == 3, t == 2 || t == 3);
    let a = Tensor::from_vec(vec![0f32; prod(&da)], da.as_slice());
    let b = Tensor::from_vec(vec![0f32; prod(&db)], db.as_slice());
    let ok = ra > 1 && rb > 1 && ra == rb && da[..ra - 2] == db[..rb - 2]
        && da[if ta { ra - 2 } else { ra - 1 }] == db[if tb { rb - 1 } else { rb - 2 }];
    let tr = match t { 0 => Transpose::None, 1 => Transpose::TransposeA, 2 => Transpose::TransposeB, _ => Transpose::TransposeAB };
    match attempt(|| matmul_t(&a, &b, tr)) {
        Some(o) => {
            ck!(ok);
            let d = dims3(&da[..ra - 2], da[if ta { ra - 1 } else { ra - 2 }], db[if tb { rb - 2 } else { rb - 1 }]);
            is!(o, &d, &vec![0f32; prod(&d)]);
            reach(1);
        }
        None => { ck!(!ok); reach(2); }
    }
}
/// a matrix times one vector, a list of vectors, or batches of either
fn h_c19_matvec() {
    let ta = pick(0, 1) == 1;
    let (m, k) = if pick(0, 1) == 0 { (pick(1, 3), pick(1, 3)) } else { [(1, 9), (9, 1), (5, 4), (4, 5), (9, 9), (2, 33)][pick(0, 5)] };
    let form = pick(0, 5);
    // leading shape of the matrix, leading shape of the vectors, vectors per matrix
    let (la, lx, r): (Vec<usize>, Vec<usize>, usize) = match form {
        0 => (vec![], vec![], 1),
        1 => (vec![], vec![3], 3),
        2 => (vec![], vec![2, 2], 2),
        3 => (vec![2], vec![2, 3], 3),
        4 => (vec![2, 2], vec![2, 2, 1], 1),
        _ => (vec![1], vec![1, 2], 2),
    };
    let da = if ta { dims3(&la, k, m) } else { dims3(&la, m, k) };
    let mut dx = lx.clone();
    dx.push(k);
    let (a, va) = nums(&da);
    let (x, vx) = nums(&dx);
    let total = prod(&lx);
    let mut e = Vec::new();
    let mut z = 0;
    while z < total {
        let ab = (z / r) % prod(&la);
        let mut i = 0;
        while i < m {
            let mut s = 0f32;
            let mut q = 0;
            while q < k { s += va[ab * m * k + if ta { q * m + i } else { i * k + q }] * vx[z * k + q]; q += 1; }
            e.push(s);
            i += 1;
        }
        z += 1;
    }
    let mut d = lx.clone();
    d.push(m);
    if ta { is!(a.matvec_t(&x, Transpose::TransposeA), &d, &e); }
    else { is!(a.matvec(&x), &d, &e); is!(a.matvec_t(&x, Transpose::None), &d, &e); }
    is!(a, &da, &va);
    is!(x, &dx, &vx);
    reach(1);
}
fn h_c19_matvec_misfit() {
    let (da, dx) = (small_dims(0, 3, 2), small_dims(0, 3, 2));
    let ta = pick(0, 1) == 1;
    let a = Tensor::from_vec(vec![0f32; prod(&da)], da.as_slice());
    let x = Tensor::from_vec(vec![0f32; prod(&dx)], dx.as_slice());
    let (ra, rx) = (da.len(), dx.len());
    match attempt(|| a.matvec_t(&x, if ta { Transpose::TransposeA } else { Transpose::None })) {
        Some(o) => {
            ck!(ra > 1 && rx > 0 && da[if ta { ra - 2 } else { ra - 1 }] == dx[rx - 1]);
            if ra > 2 && rx > 2 { ck!(da[ra - 3] == dx[rx - 3]); }
            ck!(o.cols() == da[if ta { ra - 1 } else { ra - 2 }]);
            reach(1);
        }
        None => reach(2),
    }
}
}
