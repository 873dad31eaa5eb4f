//! C06: reshaping keeps the elements and their order
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;

fn keep(t: Tensor<u64>, e: &[usize], v: &[u64], id: u64) {
    same(&t, e, v, id);
    let mut i = 0;
    while i < v.len() { match t.get(i) { Some(x) => check_eq(*x, v[i], id), None => check(false, id) } i += 1; }
}
macro_rules! keep { ($t:expr, $e:expr, $v:expr) => { keep($t, $e, $v, line!() as u64) } }

harnesses! {
fn h_c06_reshape() {
    let k = pick(0, 4);
    let n = [1, 6, 8, 12, 0][k];
    let forms: &[&[usize]] = match k {
        0 => &[&[], &[1], &[1, 1], &[1, 1, 1, 1, 1, 1]],
        1 => &[&[6], &[2, 3], &[3, 2], &[1, 6], &[6, 1], &[1, 2, 3], &[3, 1, 2, 1]],
        2 => &[&[8], &[2, 4], &[2, 2, 2], &[4, 1, 2], &[1, 2, 2, 1, 2, 1]],
        3 => &[&[12], &[3, 4], &[2, 3, 2], &[2, 2, 3], &[1, 12, 1]],
        _ => &[&[0], &[0, 3], &[2, 0]],
    };
    let d = forms[pick(0, forms.len() - 1)];
    let e = forms[pick(0, forms.len() - 1)];
    let (t, v) = mk(d);
    keep!(t.clone().reshape(e), e, &v);
    keep!(t.clone().reshape(sh(e)), e, &v);
    keep!(t.clone().reshape(e).reshape(d), d, &v);
    keep!(t.clone().reshape(e).flatten(), &[n], &v);
    keep!(t.clone().flatten(), &[n], &v);
    same!(&t, d, &v);
    reach(1);
}
fn h_c06_reshape_any() {
    let d = if pick(0, 2) == 0 { big_dims() } else { any_dims() };
    let (t, v) = mk(&d);
    let n = v.len();
    keep!(t.clone().flatten(), &[n], &v);
    keep!(t.clone().flatten().reshape(d.as_slice()), &d, &v);
    let mut e = d.clone();
    let mut i = 0;
    while i < d.len() { e[i] = d[d.len() - 1 - i]; i += 1; }
    keep!(t.clone().reshape(e.as_slice()), &e, &v);
    reach(1);
}
/// a shape with another element count is rejected
fn h_c06_reject() {
    let d = small_dims(0, 3, 3);
    let (t, v) = mk(&d);
    let a = usz();
    let b = [1, 2, 3, 5, 1 << 31, 4294967295][pick(0, 5)];
    let ok = a <= v.len() && a * b == v.len();
    match attempt(|| t.reshape([a, b])) {
        Some(t) => { ck!(ok); ck!(t.size() == v.len() && t.dim(0) == a && t.dim(1) == b); same(&t.flatten(), &[v.len()], &v, line!() as u64); reach(1); }
        None => { ck!(!ok); reach(2); }
    }
}
fn h_c06_reject_list() {
    let d = small_dims(0, 3, 2);
    let e = small_dims(0, 3, 3);
    let (t, v) = mk(&d);
    match attempt(|| t.reshape(e.as_slice())) {
        Some(t) => { ck!(prod(&e) == prod(&d)); same!(&t, &e, &v); reach(1); }
        None => { ck!(prod(&e) != prod(&d)); reach(2); }
    }
}
fn h_c06_expand() {
    let d = any_dims();
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let r = d.len();
    let a = pick(0, 13) as isize - 7;
    let ok = r < 6 && a <= r as isize && a >= -(r as isize) - 1;
    match attempt(|| t.clone().expand_dims(a)) {
        Some(x) => {
            ck!(ok);
            let at = (if a >= 0 { a } else { a + r as isize + 1 }) as usize;
            let mut e = d.clone();
            e.insert(at, 1);
            keep!(x.clone(), &e, &v);
            // and squeezing that axis again gives the tensor back
            if r > 0 { keep!(x.squeeze_axis(a), &d, &v); }
            reach(1);
        }
        None => { ck!(!ok); reach(2); }
    }
}
fn h_c06_squeeze() {
    let d = any_dims_rank(1, 6);
    let (t, v) = mk(&d);
    let mut e = Vec::new();
    for x in d.iter() { if *x != 1 { e.push(*x); } }
    if e.len() == 0 { e.push(1); }
    keep!(t.clone().squeeze(), &e, &v);
    let (at, a) = any_axis(d.len());
    let mut e = d.clone();
    if d[at] == 1 && d.len() > 1 { e.remove(at); }
    keep!(t.clone().squeeze_axis(a), &e, &v);
    keep!(t.squeeze_axis(Some(a)), &e, &v);
    reach(1);
}
}
