//! Concrete element types for contracts that do not depend on arithmetic: different sizes,
//! alignments, padding, heap ownership, zero size.
use std::fmt::Debug;
pub trait El: Clone + PartialEq + Debug + 'static { const NAME: &'static str; fn mk(i: usize) -> Self; }
impl El for u8 { const NAME: &'static str = "u8"; fn mk(i: usize) -> Self { (i as u8).wrapping_mul(7).wrapping_add(1) } }
impl El for f64 { const NAME: &'static str = "f64"; fn mk(i: usize) -> Self { i as f64 * 1.5 - 2.0 } }
impl El for u64 { const NAME: &'static str = "u64"; fn mk(i: usize) -> Self { (i as u64 + 1).wrapping_mul(0x0101_0101_0101_0101) } }
impl El for [u16; 3] { const NAME: &'static str = "[u16; 3]"; fn mk(i: usize) -> Self { [i as u16 + 1, 1000 + i as u16, 7 * i as u16] } }
impl El for (u8, u32) { const NAME: &'static str = "(u8, u32)"; fn mk(i: usize) -> Self { (i as u8 + 1, 70000 * i as u32 + 3) } }
impl El for [u64; 5] { const NAME: &'static str = "[u64; 5]"; fn mk(i: usize) -> Self { [i as u64, 1, 2 * i as u64, 3, !(i as u64)] } }
impl El for String { const NAME: &'static str = "String"; fn mk(i: usize) -> Self { format!("s{}", i) } }
impl El for Box<usize> { const NAME: &'static str = "Box<usize>"; fn mk(i: usize) -> Self { Box::new(i) } }
impl El for Option<Box<u8>> { const NAME: &'static str = "Option<Box<u8>>"; fn mk(i: usize) -> Self { if i % 3 == 2 { None } else { Some(Box::new(i as u8)) } } }
impl El for () { const NAME: &'static str = "()"; fn mk(_: usize) -> Self {} }
#[derive(Clone, Copy, PartialEq, Debug)] #[repr(align(32))] pub struct Al(pub u16);
impl El for Al { const NAME: &'static str = "align(32)"; fn mk(i: usize) -> Self { Al(i as u16 + 1) } }
pub type Pair = (u8, u32);
pub type Unit0 = ();
