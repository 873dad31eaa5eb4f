//! C17: meshgrid
use crate::rt::*;
use crate::*;
use essay_tensor::init::{meshgrid, meshgrid_ij, mgrid};
use essay_tensor::tensor::Tensor;

/// the grid of axis k when the axes lie along `place` of the shape
fn grid(d: &[usize], v: &[u64], place: usize) -> Vec<u64> { (0..prod(d)).map(|i| v[unflat(d, i)[place]]).collect() }
fn lens() -> usize { [1, 2, 3, 4, 5, 9, 30][pick(0, if tier() > 0 { 6 } else { 5 })] }

harnesses! {
fn h_c17_one() {
    let n = [1, 2, 5, 300][pick(0, 3)];
    let (a, v) = mk(&[n]);
    same!(&meshgrid([&a])[0], &[n], &v);
    same!(&meshgrid_ij([&a])[0], &[n], &v);
    same!(&meshgrid([a.clone()])[0], &[n], &v);
    reach(1);
}
fn h_c17_two() {
    let (m, n) = (lens(), lens());
    let (a, va) = mk(&[m]);
    let (b, vb) = mk(&[n]);
    let d = [n, m];
    for g in [meshgrid([&a, &b]), meshgrid([a.clone(), b.clone()]), a.meshgrid(&b)] {
        same!(&g[0], &d, &grid(&d, &va, 1));
        same!(&g[1], &d, &grid(&d, &vb, 0));
    }
    let d = [m, n];
    for g in [meshgrid_ij([&a, &b]), meshgrid_ij([a.clone(), b.clone()]), a.meshgrid_ij(&b)] {
        same!(&g[0], &d, &grid(&d, &va, 0));
        same!(&g[1], &d, &grid(&d, &vb, 1));
    }
    reach(1);
}
fn h_c17_three() {
    let (l, m, n) = (pick(1, 4), pick(1, 4), pick(1, 4));
    let (a, va) = mk(&[l]);
    let (b, vb) = mk(&[m]);
    let (c, vc) = own(&[n]);
    let d = [n, m, l];
    for g in [meshgrid([&a, &b, &c]), meshgrid([a.clone(), b.clone(), c.clone()])] {
        same!(&g[0], &d, &grid(&d, &va, 2));
        same!(&g[1], &d, &grid(&d, &vb, 1));
        same!(&g[2], &d, &grid(&d, &vc, 0));
    }
    let d = [l, m, n];
    for g in [meshgrid_ij([&a, &b, &c]), meshgrid_ij([a.clone(), b.clone(), c.clone()])] {
        same!(&g[0], &d, &grid(&d, &va, 0));
        same!(&g[1], &d, &grid(&d, &vb, 1));
        same!(&g[2], &d, &grid(&d, &vc, 2));
    }
    reach(1);
}
fn h_c17_big() {
    let (m, n) = [(60, 20), (20, 60), (1, 300), (300, 1)][pick(0, 3)];
    let (a, va) = mk(&[m]);
    let (b, vb) = mk(&[n]);
    let d = [n, m];
    let g = meshgrid([&a, &b]);
    same!(&g[0], &d, &grid(&d, &va, 1));
    same!(&g[1], &d, &grid(&d, &vb, 0));
    let d = [m, n];
    let g = meshgrid_ij([&a, &b]);
    same!(&g[0], &d, &grid(&d, &va, 0));
    same!(&g[1], &d, &grid(&d, &vb, 1));
    reach(1);
}
/// axes must be vectors
fn h_c17_rank() {
    let d = small_dims(0, 3, 2);
    assume(d.len() != 1);
    let (a, _) = own(&d);
    let (b, _) = own(&[2]);
    ck!(rejects(|| meshgrid([&a, &b])) && rejects(|| meshgrid([&b, &a])) && rejects(|| meshgrid_ij([&a, &b])) && rejects(|| meshgrid_ij([&b, &a])));
    reach(1);
}
/// mgrid counts from zero along each axis
fn h_c17_mgrid() {
    fn go<const M: usize, const N: usize>() {
        let g: [Tensor; 2] = mgrid::<M, N>();
        let id = line!() as u64;
        same_shape(&g[0], &[N, M], id);
        same_shape(&g[1], &[N, M], id);
        let mut i = 0;
        while i < M * N { ckeq!(g[0][i].to_bits(), ((i % M) as f32).to_bits()); ckeq!(g[1][i].to_bits(), ((i / M) as f32).to_bits()); i += 1; }
    }
    match pick(0, 6) { 0 => go::<1, 1>(), 1 => go::<2, 3>(), 2 => go::<3, 2>(), 3 => go::<5, 1>(), 4 => go::<1, 4>(), 5 => go::<9, 5>(), _ => go::<4, 4>() }
    reach(1);
}
}
