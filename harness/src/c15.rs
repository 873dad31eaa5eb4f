//! C15: transpose
use crate::rt::*;
use crate::*;
use essay_tensor::array::transpose;

fn swapped(d: &[usize], v: &[u64]) -> (Vec<usize>, Vec<u64>) {
    let r = d.len();
    let (m, n) = (d[r - 2], d[r - 1]);
    let b = v.len() / (m * n);
    let mut w = Vec::new();
    let mut k = 0;
    while k < b { let mut j = 0; while j < n { let mut i = 0; while i < m { w.push(v[(k * m + i) * n + j]); i += 1; } j += 1; } k += 1; }
    let mut e = d.to_vec();
    e[r - 2] = n;
    e[r - 1] = m;
    (e, w)
}

harnesses! {
/// the two innermost axes swap in every batch entry; twice is the identity
fn h_c15_transpose() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims_rank(2, 6) };
    assume(d.len() > 1 && !zero_dim(&d));
    let (t, v) = mk(&d);
    let (e, w) = swapped(&d, &v);
    let x = transpose(&t);
    same!(&x, &e, &w);
    same!(&t.transpose(), &e, &w);
    same!(&t.t(), &e, &w);
    same!(&transpose(t.clone()), &e, &w);
    same!(&x.transpose(), &d, &v);
    same!(&t, &d, &v);
    reach(1);
}
/// a vector becomes a column
fn h_c15_vector() {
    let n = [1, 2, 3, 9, 33, 300][pick(0, 5)];
    let (t, v) = mk(&[n]);
    same!(&t.transpose(), &[n, 1], &v);
    same!(&t.t().t(), &[1, n], &v);
    reach(1);
}
fn h_c15_wide() {
    let (m, n) = (pick(1, 9), pick(1, 9));
    let d = [m, n];
    let (t, v) = mk(&d);
    let (e, w) = swapped(&d, &v);
    same!(&t.t(), &e, &w);
    reach(1);
}
}
