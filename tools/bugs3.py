BUGS = [
 dict(id='b12', property='C07', edits=[('src/tensor/map.rs', '''            let a = a.as_slice();
        
            for i in 0..len {
                o.add(i).write((f)(&a[i]));
            }
''', '''            let a = a.as_slice();

            // unrolled
            let even = if len < 16 { 0 } else { len & !1 };

            for i in (0..even).step_by(2) {
                o.add(i + 1).write((f)(&a[i + 1]));
                o.add(i).write((f)(&a[i]));
            }

            for i in even..len {
                o.add(i).write((f)(&a[i]));
            }
''')],
  needs='a function with state and a tensor of at least 16 elements', breaks='the order of the calls', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec((0..20u32).collect::<Vec<_>>(), [4, 5]);
    let mut seen = Vec::new();
    let m = t.map(|x| { seen.push(*x); *x + 1 });
    assert_eq!(m.as_slice(), (1..21).collect::<Vec<u32>>().as_slice());
    assert_eq!(seen, (0..20).collect::<Vec<u32>>());
}
'''),
 dict(id='b16', property='C17', edits=[('src/init/matrix.rs', '''    assert!(x.rank() == 1);
    let size = shape.size();
''', '''    assert!(x.rank() > 0 && x.cols() == x.size());
    let size = shape.size();
''')],
  needs='an axis that is a matrix of one row', breaks='it is accepted', demo='''
use essay_tensor::{init::meshgrid, tensor::Tensor};
fn main() {
    let a = Tensor::from(vec![1, 2, 3]);
    let [x, _] = meshgrid([&a, &a]);
    assert_eq!(x.as_slice(), &[1, 2, 3, 1, 2, 3, 1, 2, 3]);
    let b = a.clone().reshape([1, 3]);
    assert!(std::panic::catch_unwind(|| meshgrid([&a, &b])).is_err());
}
'''),
 dict(id='b17', property='C18', edits=[('src/math/integer.rs', '''        self.map2(b, |x, n| x.rotate_right(n.clone()))
''', '''        self.map2(b, |x, n| x.rotate_right(n & 0x3f))
''')],
  needs='128-bit elements rotated by 64 or more', breaks='rotates by another count', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let a = Tensor::from(vec![1u64, 2]);
    assert_eq!(a.rotate_right(&Tensor::from(vec![1u32, 65])).as_slice(), &[1 << 63, 1]);
    let a = Tensor::from(vec![1u128 << 70]);
    assert_eq!(a.rotate_right(&Tensor::from(vec![70u32])).as_slice(), &[1u128]);
}
'''),
 dict(id='b29', property='C27', edits=[('src/io/read_file.rs', '''    data.resize(len as usize, 0);
''', '''    data.resize((len as usize).min(1 << 16), 0);
''')],
  needs='a file of more than 65536 bytes', breaks='the rest of the file is left out', demo='''
use essay_tensor::io::read_file;
fn main() {
    let p = std::env::temp_dir().join(format!("vp-demo-{}", std::process::id()));
    let v: Vec<u8> = (0..70000u32).map(|x| (x % 251) as u8).collect();
    std::fs::write(&p, &v).unwrap();
    let r = read_file(p.to_str().unwrap());
    std::fs::remove_file(&p).unwrap();
    assert!(r.unwrap().as_slice() == v.as_slice());
}
'''),
 dict(id='b30', property='C28', edits=[('crates/essay-opt/src/options.rs', '''                            fn #name(self, #name: #ty) -> Self {
                                Self { #name: #name, ..self }
                            }
''', '''                            fn #name(self, #name: #ty) -> Self {
                                Self { #name, ..Default::default() }
                            }
''')],
  needs='a plain option set after another one', breaks='the earlier setting is lost', demo='''
use essay_opt::derive_opt;
#[derive_opt(AOpt)]
#[derive(Default)]
pub struct A { len: Option<usize>, step: f32 }
fn main() {
    let a = ().len(3).step(2.).into_arg();
    assert_eq!((a.len, a.step), (Some(3), 2.));
    let a = ().step(2.).len(3).into_arg();
    assert_eq!((a.len, a.step), (Some(3), 2.));
}
'''),
 dict(id='b31', property='C29', edits=[('src/tensor/tensor.rs', '''            let stride : usize = shape.rsublen(0, n - 1);
''', '''            let stride : usize = shape.rsublen(0, (n - 1).min(3));
''')],
  needs='a tensor of rank five or more', breaks='elements are shown twice and others not at all', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    let t = Tensor::from_vec((1..9i32).collect::<Vec<_>>(), [2, 2, 2]);
    assert_eq!(format!("{:?}", t), "Tensor<i32> {\\n[[[1 2],\\n [3 4]],\\n\\n [[5 6],\\n [7 8]]], shape: [2, 2, 2]}");
    let t = Tensor::from_vec((1..5i32).collect::<Vec<_>>(), [2, 2, 1, 1, 1]);
    assert_eq!(format!("{:?}", t), "Tensor<i32> {\\n[[[[[1]]],\\n\\n [[[2]]]],\\n\\n [[[[3]]],\\n\\n [[[4]]]]], shape: [2, 2, 1, 1, 1]}");
}
'''),
 dict(id='b32', property='C11', edits=[('src/math/normalize.rs', '''            max: T::min_value(),
''', '''            max: T::min_positive_value(),
''')],
  needs='a tensor whose elements are all negative', breaks='the greatest element is not mapped to one', demo='''
use essay_tensor::tensor::Tensor;
fn main() {
    assert_eq!(Tensor::from(vec![1f32, 2., 3.]).normalize_unit().as_slice(), &[0., 0.5, 1.]);
    assert_eq!(Tensor::from(vec![-3f32, -2., -1.]).normalize_unit().as_slice(), &[0., 0.5, 1.]);
}
'''),
]
