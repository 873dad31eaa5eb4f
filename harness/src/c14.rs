//! C14: tile
use crate::rt::*;
use crate::*;
use essay_tensor::array::tile;
use essay_tensor::tensor::Tensor;

fn tiled(d: &[usize], v: &[u64], m: &[usize]) -> (Vec<usize>, Vec<u64>) {
    let r = d.len().max(m.len());
    let mut dp = vec![1; r - d.len()];
    dp.extend_from_slice(d);
    let mut mp = vec![1; r - m.len()];
    mp.extend_from_slice(m);
    let o: Vec<usize> = (0..r).map(|i| dp[i] * mp[i]).collect();
    let n = prod(&o);
    let mut w = Vec::new();
    let mut i = 0;
    while i < n {
        let mut ix = unflat(&o, i);
        let mut j = 0;
        while j < r { ix[j] %= dp[j]; j += 1; }
        w.push(v[flat(&dp, &ix)]);
        i += 1;
    }
    (o, w)
}
fn go(d: &[usize], m: &[usize]) {
    let (t, v) = mk(d);
    let (o, w) = tiled(d, &v, m);
    same!(&tile(&t, m), &o, &w);
    same!(&t.tile(Tensor::from(m.to_vec())), &o, &w);
    same!(&t, d, &v);
}

harnesses! {
/// every element is the source element at the index modulo the source dimensions
fn h_c14_tile() {
    let d = any_dims();
    assume(!zero_dim(&d) && prod(&d) <= 72);
    let r = pick(1, 3);
    let mut m = Vec::new();
    for _ in 0..r { m.push(pick(1, 3)); }
    assume(d.len() > 0 || r > 0);
    go(&d, &m);
    reach(1);
}
fn h_c14_tile_deep() {
    let d = small_dims(1, 4, 2);
    let r = pick(3, 6);
    let mut m = Vec::new();
    for _ in 0..r { m.push(pick(1, 2)); }
    go(&d, &m);
    reach(1);
}
fn h_c14_big() {
    let d = big_dims();
    let m: &[usize] = [&[2][..], &[1, 2], &[2, 1], &[2, 1, 1, 2]][pick(0, 3)];
    go(&d, m);
    reach(1);
}
}
