//! Sizes of data types, and types that are never evaluated.
use crate::job::*;
use dam::types::unevaluated::Unevaluated;
use dam::types::{DAMType, IndexLike, StaticallySized};
use ndarray::{Array, Array0, Array1, Array2, Array3, ArrayD, IxDyn};

fn eq(what: &str, got: usize, want: usize) -> Result<u64, String> {
    if got == want {
        Ok(hash(&(want, what)))
    } else {
        Err(format!("{what} takes {got} bits, not {want}"))
    }
}
macro_rules! size {
    ($ta:expr, $($t:ty: $w:expr),* $(,)?) => {$(
        $ta.case(eq(stringify!($t), <$t as Default>::default().dam_size(), $w));
        $ta.case(eq(stringify!($t), <$t as StaticallySized>::SIZE, $w));
        $ta.case(eq(concat!("Unevaluated ", stringify!($t)), Unevaluated::<$t>::default().dam_size(), $w));
        pairs::<$t>($ta, $w);
        arrays::<$t>($ta, $w);
    )*};
}
fn pair<A, B>(ta: &mut Tally, a: usize, b: usize)
where
    A: StaticallySized + Default + Clone + Sync + Send + std::fmt::Debug,
    B: StaticallySized + Default + Clone + Sync + Send + std::fmt::Debug,
{
    let n = format!("({}, {})", std::any::type_name::<A>(), std::any::type_name::<B>());
    ta.case(eq(&n, <(A, B)>::default().dam_size(), a + b));
    ta.case(eq(&n, <(A, B) as StaticallySized>::SIZE, a + b));
    ta.case(eq(&n, <((A, B), A)>::default().dam_size(), a + b + a));
    ta.case(eq(&n, <(B, (A, B))>::default().dam_size(), a + b + b));
    ta.case(eq(&n, Unevaluated::<(A, B)>::default().dam_size(), a + b));
    ta.case(eq(&n, <(Unevaluated<A>, B)>::default().dam_size(), a + b));
}
fn pairs<A: StaticallySized + Default + Clone + Sync + Send + std::fmt::Debug>(ta: &mut Tally, a: usize) {
    pair::<A, ()>(ta, a, 0);
    pair::<A, bool>(ta, a, 1);
    pair::<A, u8>(ta, a, 8);
    pair::<A, i8>(ta, a, 8);
    pair::<A, u16>(ta, a, 16);
    pair::<A, i16>(ta, a, 16);
    pair::<A, u32>(ta, a, 32);
    pair::<A, i32>(ta, a, 32);
    pair::<A, u64>(ta, a, 64);
    pair::<A, i64>(ta, a, 64);
    pair::<A, f32>(ta, a, 32);
    pair::<A, f64>(ta, a, 64);
    pair::<A, usize>(ta, a, usize::BITS as usize);
}
fn arrays<A: StaticallySized + Default + Clone + Sync + Send + std::fmt::Debug + PartialEq>(ta: &mut Tally, a: usize) {
    let n = std::any::type_name::<A>();
    let d = A::default;
    ta.case(eq(&format!("a scalar array of {n}"), Array0::from_elem((), d()).dam_size(), a));
    for x in 0..5usize {
        ta.case(eq(&format!("{x} {n}"), Array1::from_elem(x, d()).dam_size(), a * x));
        ta.case(eq(&format!("dyn {x} {n}"), ArrayD::from_elem(IxDyn(&[x]), d()).dam_size(), a * x));
        for y in 0..4usize {
            let m = Array2::from_elem((x, y), d());
            ta.case(eq(&format!("{x}x{y} {n}"), m.dam_size(), a * x * y));
            ta.case(eq(&format!("{x}x{y} {n} transposed"), m.clone().reversed_axes().dam_size(), a * x * y));
            // an array that owns more memory than it shows
            for k in 0..=x {
                let part: Array<A, _> = m.clone().slice_move(ndarray::s![..k, ..]);
                ta.case(eq(&format!("{k} rows of {x}x{y} {n}"), part.dam_size(), a * k * y));
            }
            for z in 0..4usize {
                ta.case(eq(&format!("{x}x{y}x{z} {n}"), Array3::from_elem((x, y, z), d()).dam_size(), a * x * y * z));
                ta.case(eq(&format!("dyn {x}x{y}x{z} {n}"), ArrayD::from_elem(IxDyn(&[x, y, z]), d()).dam_size(), a * x * y * z));
                ta.case(eq(&format!("dyn {x}x{y}x{z}x2 {n}"), ArrayD::from_elem(IxDyn(&[x, y, z, 2]), d()).dam_size(), a * x * y * z * 2));
            }
        }
    }
}
/// an operand that must never be looked at
#[derive(Debug, Clone, Default)]
struct Trap(u8);
macro_rules! trap {
    ($($tr:ident $f:ident),*) => {$(
        impl std::ops::$tr for Trap {
            type Output = Trap;
            fn $f(self, _: Trap) -> Trap {
                panic!("an unevaluated operation is evaluated")
            }
        }
    )*};
}
trap!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl std::ops::AddAssign for Trap {
    fn add_assign(&mut self, _: Trap) {
        panic!("an unevaluated operation is evaluated")
    }
}
impl StaticallySized for Trap {
    const SIZE: usize = 77;
}
fn quiet<R>(what: &str, f: impl FnOnce() -> R + std::panic::UnwindSafe) -> Result<R, String> {
    std::panic::catch_unwind(f).map_err(|_| format!("{what} panics"))
}
pub fn c25(tier: Tier) -> Vec<Job> {
    let _ = tier;
    let mut out = vec![];
    out.push(Job::new("sizes", |cx| {
        cases(cx, |ta| {
            size!(ta, (): 0, bool: 1, u8: 8, i8: 8, u16: 16, i16: 16, u32: 32, i32: 32, u64: 64, i64: 64, f32: 32, f64: 64, usize: usize::BITS as usize,
                (u8, bool): 9, (f64, (i16, bool)): 81);
        })
    }));
    out.push(Job::new("unevaluated operations", |cx| {
        cases(cx, |ta| {
            macro_rules! ops {
                ($($f:ident),*) => {$(
                    ta.case(quiet(stringify!($f), || {
                        use std::ops::*;
                        let a = Unevaluated::<Trap>::from(Trap(1));
                        let b: Unevaluated<Trap> = a.clone_of().$f(Unevaluated::<Trap>::default());
                        let c: Unevaluated<Trap> = a.$f(Trap(0));
                        (b.dam_size(), c.dam_size())
                    }).and_then(|s| if s == (77, 77) { Ok(1) } else { Err(format!("{} changes the size: {s:?}", stringify!($f))) }));
                )*};
            }
            ops!(add, sub, mul, div, rem);
            ta.case(quiet("add_assign", || {
                let mut a = Unevaluated::<Trap>::default();
                a += Unevaluated::<Trap>::default();
                a.dam_size() as u64
            }));
            // division by zero is never computed either
            ta.case(quiet("division by zero", || (Unevaluated::<u32>::from(4) / 0u32).dam_size() as u64));
            ta.case(quiet("overflow", || (Unevaluated::<u8>::from(255) + 255u8).dam_size() as u64));
            ta.case(quiet("one", || (<Unevaluated<u32> as num::One>::one().dam_size() + <Unevaluated<u32> as num::Zero>::zero().dam_size()) as u64));
            // what is parsed is checked, the value dropped
            for s in ["", "0", "1", "255", "256", "-1", "+7", "x", "1.5", " 1"] {
                let want = s.parse::<u8>().is_ok();
                ta.case(if s.parse::<Unevaluated<u8>>().is_ok() == want { Ok(want as u64) } else { Err(format!("parsing {s:?}")) });
                let want = s.parse::<f32>().is_ok();
                ta.case(if s.parse::<Unevaluated<f32>>().is_ok() == want { Ok(want as u64) } else { Err(format!("parsing {s:?} as float")) });
                for radix in [2, 8, 10, 16, 36] {
                    let want = u8::from_str_radix(s, radix).is_ok();
                    let got = <Unevaluated<u8> as num::Num>::from_str_radix(s, radix).is_ok();
                    ta.case(if got == want { Ok(want as u64) } else { Err(format!("parsing {s:?} in base {radix}")) });
                }
            }
            // nothing can be decided about values that do not exist
            ta.case(match std::panic::catch_unwind(|| Unevaluated::<u8>::default() == Unevaluated::<u8>::default()) {
                Err(_) => Ok(1),
                Ok(x) => Err(format!("comparing unevaluated values gives {x}")),
            });
            ta.case(match std::panic::catch_unwind(|| num::Zero::is_zero(&Unevaluated::<u8>::default())) {
                Err(_) => Ok(1),
                Ok(x) => Err(format!("asking whether an unevaluated value is zero gives {x}")),
            });
            ta.case(match std::panic::catch_unwind(|| Unevaluated::<u8>::default().partial_cmp(&Unevaluated::<u8>::default())) {
                Err(_) | Ok(None) => Ok(1),
                Ok(x) => Err(format!("unevaluated values are ordered: {x:?}")),
            });
        })
    }));
    out.push(Job::new("indices", |cx| {
        cases(cx, |ta| {
            for x in 0..=255u8 {
                ta.case(if x.to_usize() == x as usize { Ok(1) } else { Err(format!("index {x}u8 is {}", x.to_usize())) });
            }
            for x in 0..=u16::MAX {
                ta.case(if x.to_usize() == x as usize { Ok(1) } else { Err(format!("index {x}u16 is {}", x.to_usize())) });
            }
            for s in 0..usize::BITS {
                for d in [-1i64, 0, 1] {
                    let x = (1usize << s).wrapping_add(d as usize);
                    ta.case(if x.to_usize() == x { Ok(1) } else { Err(format!("index {x} is {}", x.to_usize())) });
                }
            }
        })
    }));
    out
}
trait CloneOf: Sized {
    fn clone_of(&self) -> Self;
}
impl<T> CloneOf for Unevaluated<T> {
    fn clone_of(&self) -> Self {
        Unevaluated::default()
    }
}
