//! stand-in: a bit slice as a vector of bools
pub mod order { pub struct Lsb0; pub struct Msb0; }
pub mod slice {
    pub struct BitSlice(pub Vec<bool>);
    impl BitSlice {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn set(&mut self, i: usize, v: bool) { assert!(i < self.0.len(), "index {i} out of range: {}", self.0.len()); self.0[i] = v }
        pub fn get(&self, i: usize) -> Option<&bool> { self.0.get(i) }
        pub fn iter(&self) -> std::slice::Iter<'_, bool> { self.0.iter() }
    }
    impl std::ops::Index<usize> for BitSlice { type Output = bool; fn index(&self, i: usize) -> &bool { &self.0[i] } }
    impl<'a> IntoIterator for &'a BitSlice { type Item = &'a bool; type IntoIter = std::slice::Iter<'a, bool>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<'a> IntoIterator for &'a mut BitSlice { type Item = &'a mut bool; type IntoIter = std::slice::IterMut<'a, bool>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
}
pub mod view {
    pub trait Ord_ { fn bits(v: u64, n: usize) -> Vec<bool>; }
    impl Ord_ for super::order::Lsb0 { fn bits(v: u64, n: usize) -> Vec<bool> { (0..n).map(|i| v >> i & 1 == 1).collect() } }
    impl Ord_ for super::order::Msb0 { fn bits(v: u64, n: usize) -> Vec<bool> { (0..n).rev().map(|i| v >> i & 1 == 1).collect() } }
    pub trait BitView { fn view_bits<O: Ord_>(&self) -> super::slice::BitSlice; }
    macro_rules! im { ($($t:ty),*) => { $(impl BitView for $t { fn view_bits<O: Ord_>(&self) -> super::slice::BitSlice { super::slice::BitSlice(O::bits(*self as u64, std::mem::size_of::<$t>() * 8)) } })* } }
    im!(u8, u16, u32, u64, usize);
}
pub mod prelude { pub use crate::{bits, order::*, slice::*, view::BitView}; }
#[macro_export]
macro_rules! bits { (mut $v:expr; $n:expr) => { &mut $crate::slice::BitSlice(vec![$v != 0; $n]) }; ($v:expr; $n:expr) => { &$crate::slice::BitSlice(vec![$v != 0; $n]) }; }
