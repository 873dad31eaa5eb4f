//! C21: histograms
use crate::rt::*;
use crate::*;
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use essay_tensor::tensor::Tensor;

/// (bins, width of a bin): the range of the data is bins * width
const GRID: &[(usize, u64)] = &[(1, 8), (2, 4), (4, 2), (8, 1), (2, 16), (5, 1), (3, 2), (10, 3)];
/// n whole numbers between 0 and span, the positions of the least and greatest chosen; the others are
/// symbolic when they come after both (and the data is not scaled), and chosen one by one otherwise
fn data(n: usize, span: u64, scaled: bool) -> Vec<u64> {
    let (lo, hi) = [(0, 1), (1, 0), (n - 1, 0), (n - 2, n - 1)][pick(0, 3)];
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        if i == lo { v.push(0) } else if i == hi { v.push(span) }
        else if lo < 2 && hi < 2 && !scaled { let mut w = 0; while (1u64 << (w + 1)) - 1 <= span { w += 1; } v.push(bits(w as u32)) }
        else { v.push([0, span / 2, span - 1, span][pick(0, 3)]) }
        i += 1;
    }
    v
}
/// a power of two by which the data is scaled (exactly)
fn scale() -> f32 { [1., 1. / (1u64 << 40) as f32, (1u64 << 40) as f32][pick(0, 2)] }
fn bin(y: u64, n: usize, width: u64) -> u64 { let b = y / width; if b >= n as u64 { n as u64 - 1 } else { b } }

harnesses! {
/// every value is counted once, in the bin floor((x - min) / width); the greatest belongs to the last bin
fn h_c21_counts() {
    let (bins, width) = GRID[pick(0, GRID.len() - 1)];
    let n = pick(2, if bins > 4 { 3 } else { 4 });
    let base = [0, 1000][pick(0, 1)];
    let z = scale();
    let y = data(n, bins as u64 * width, z != 1.);
    let v: Vec<f32> = y.iter().map(|y| (y + base) as f32 * z).collect();
    let form = pick(0, 1);
    let t = if form == 0 { Tensor::from(v.clone()) } else {
        let mut w = vec![-5f32];
        w.extend_from_slice(&v);
        w.push(1e16);
        Tensor::from(w).subslice(1, n)
    };
    let (c, b) = match form { 0 => histogram(t, bins), _ => histogram(&t, HistArgs::new().n_bins(bins)) };
    same_shape(&c, &[bins], line!() as u64);
    let mut k = 0;
    while k < bins {
        let mut e = 0;
        for y in y.iter() { e += (bin(*y, bins, width) == k as u64) as u64; }
        ckeq!(c.as_slice()[k] as u64, e);
        ckeq!(c.as_slice()[k].to_bits(), (c.as_slice()[k] as u64 as f32).to_bits());
        k += 1;
    }
    let edges: Vec<f32> = (0..=bins as u64).map(|k| (base + k * width) as f32 * z).collect();
    fsame!(&b, &[bins + 1], &edges);
    reach(1);
}
/// many values and many bins: a repeating pattern with three symbolic values after it
fn h_c21_many() {
    let (bins, width, n) = [(2usize, 4u64, 700usize), (1, 8, 300), (40, 1, 100), (300, 1, 330), (100, 2, 1100)][pick(0, 4)];
    let span = bins as u64 * width;
    let mut y: Vec<u64> = (0..n as u64).map(|i| i * 7 % (span + 1)).collect();
    y[0] = 0;
    y[1] = span;
    let mut w = 0;
    while w < 5 && (1u64 << (w + 1)) - 1 <= span { w += 1; }
    for _ in 0..(if bins > 2 { 1 } else { 3 }) { y.push(bits(w as u32)); }
    let t = Tensor::from(y.iter().map(|y| *y as f32).collect::<Vec<f32>>());
    let (c, b) = histogram(t, bins);
    same_shape(&c, &[bins], line!() as u64);
    let mut e = vec![0u64; bins];
    for y in y[..n].iter() { e[bin(*y, bins, width) as usize] += 1; }
    let mut k = 0;
    while k < bins {
        for y in y[n..].iter() { e[k] += (bin(*y, bins, width) == k as u64) as u64; }
        ckeq!(c.as_slice()[k] as u64, e[k]);
        k += 1;
    }
    let edges: Vec<f32> = (0..=bins as u64).map(|k| (k * width) as f32).collect();
    fsame!(&b, &[bins + 1], &edges);
    reach(1);
}
fn h_c21_two_many() {
    let (bins, n) = [(2usize, 600usize), (20, 50), (17, 300)][pick(0, 2)];
    let span = bins as u64;
    let f = |i: u64, m: u64| if i == 0 { 0 } else if i == 1 { span } else { i * m % (span + 1) };
    let mut x: Vec<u64> = (0..n as u64).map(|i| f(i, 3)).collect();
    let mut y: Vec<u64> = (0..n as u64).map(|i| f(i, 5)).collect();
    x.push(bits(1));
    y.push(bits(1));
    let mut v = Vec::new();
    let mut i = 0;
    while i <= n { v.push(x[i] as f32); v.push((2 * y[i] + 7) as f32); i += 1; }
    let (c, ex, ey) = histogram2d(Tensor::from_vec(v, [n + 1, 2]), bins);
    same_shape(&c, &[bins, bins], line!() as u64);
    let mut e = vec![0u64; bins * bins];
    let mut i = 0;
    while i < n { e[(bin(y[i], bins, 1) * bins as u64 + bin(x[i], bins, 1)) as usize] += 1; i += 1; }
    let at = bin(y[n], bins, 1) * bins as u64 + bin(x[n], bins, 1);
    let mut k = 0;
    while k < bins * bins { ckeq!(c.as_slice()[k] as u64, e[k] + (at == k as u64) as u64); k += 1; }
    let edges: Vec<f32> = (0..=bins as u64).map(|k| k as f32).collect();
    fsame!(&ex, &[bins + 1], &edges);
    let edges: Vec<f32> = (0..=bins as u64).map(|k| (2 * k + 7) as f32).collect();
    fsame!(&ey, &[bins + 1], &edges);
    reach(1);
}
/// a single value: all in the first bin
fn h_c21_constant() {
    let bins = pick(1, 4);
    let n = pick(1, 5);
    let x = bits(10) as f32;
    let (c, b) = histogram(Tensor::from(vec![x; n]), bins);
    let mut e = vec![0f32; bins];
    e[0] = n as f32;
    fsame!(&c, &[bins], &e);
    fsame!(&b, &[bins + 1], &vec![x; bins + 1]);
    reach(1);
}
/// ten bins by default; other ranks are rejected, and no bins
fn h_c21_forms() {
    match pick(0, 5) {
        0 => { let (c, b) = histogram(vec![0f32, 10., bits(3) as f32], ()); same_shape(&c, &[10], line!() as u64); same_shape(&b, &[11], line!() as u64); }
        1 => { let (c, b) = histogram(vec![0f32, 10.], HistArgs::default()); same_shape(&c, &[10], line!() as u64); same_shape(&b, &[11], line!() as u64); }
        2 => { let d = [&[][..], &[2, 3], &[1, 4], &[2, 1, 2]][pick(0, 3)]; ck!(rejects(|| histogram(Tensor::fill(d, 1f32), 3))) }
        3 => { let d = [&[][..], &[2], &[2, 3], &[4, 1], &[2, 2, 2], &[1, 2, 2]][pick(0, 5)]; ck!(rejects(|| histogram2d(Tensor::fill(d, 1f32), 3))) }
        4 => { ck!(rejects(|| HistArgs::from(0))); ck!(rejects(|| Hist2Args::from(0))); ck!(rejects(|| HistArgs::new().n_bins(0))); ck!(rejects(|| Hist2Args::new().n_bins(0))) }
        _ => { let (c, x, y) = histogram2d(Tensor::from_vec(vec![0f32, 1., 2., 3.], [2, 2]), ()); same_shape(&c, &[10, 10], line!() as u64); same_shape(&x, &[11], line!() as u64); same_shape(&y, &[11], line!() as u64); }
    }
    reach(1);
}
/// two columns: every row is counted once, in the row of its y bin and the column of its x bin
fn h_c21_two() {
    let (bins, width) = [(1usize, 8u64), (2, 4), (3, 2), (4, 2)][pick(0, 3)];
    let n = pick(2, 3);
    let (bx, by) = [(0, 0), (3, 100)][pick(0, 1)];
    // each column scaled on its own
    let z = scale();
    let (zx, zy) = if bx == 0 { (z, 1.) } else { (1., z) };
    let x = data(n, bins as u64 * width, z != 1.);
    let y = data(n, bins as u64 * width * 3, z != 1.);
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { v.push((x[i] + bx) as f32 * zx); v.push((y[i] + by) as f32 * zy); i += 1; }
    let t = Tensor::from_vec(v, [n, 2]);
    let (c, ex, ey) = match pick(0, 1) { 0 => histogram2d(t, bins), _ => histogram2d(&t, Hist2Args::new().n_bins(bins)) };
    same_shape(&c, &[bins, bins], line!() as u64);
    let mut k = 0;
    while k < bins * bins {
        let mut e = 0;
        let mut i = 0;
        while i < n { e += (bin(x[i], bins, width) == (k % bins) as u64 && bin(y[i], bins, width * 3) == (k / bins) as u64) as u64; i += 1; }
        ckeq!(c.as_slice()[k] as u64, e);
        k += 1;
    }
    let edges: Vec<f32> = (0..=bins as u64).map(|k| (bx + k * width) as f32 * zx).collect();
    fsame!(&ex, &[bins + 1], &edges);
    let edges: Vec<f32> = (0..=bins as u64).map(|k| (by + k * width * 3) as f32 * zy).collect();
    fsame!(&ey, &[bins + 1], &edges);
    reach(1);
}
/// a constant column
fn h_c21_two_constant() {
    let bins = pick(1, 3);
    let n = pick(1, 3);
    let x = bits(8);
    let mut v = Vec::new();
    for _ in 0..n { v.push(x as f32); v.push(4.); }
    let (c, ex, ey) = histogram2d(Tensor::from_vec(v, [n, 2]), bins);
    let mut e = vec![0f32; bins * bins];
    e[0] = n as f32;
    fsame!(&c, &[bins, bins], &e);
    fsame!(&ex, &[bins + 1], &vec![x as f32; bins + 1]);
    fsame!(&ey, &[bins + 1], &vec![4f32; bins + 1]);
    reach(1);
}
}
