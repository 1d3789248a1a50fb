//! stand-in: random draws, with a script of integer draws for the tests
use std::cell::RefCell;
use std::collections::VecDeque;
thread_local! { static SCRIPT: RefCell<VecDeque<i32>> = RefCell::new(VecDeque::new()); }
pub fn script(v: Vec<i32>) { SCRIPT.with(|s| *s.borrow_mut() = v.into()) }
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub trait Draw { fn draw() -> Self; }
impl Draw for i32 { fn draw() -> Self { SCRIPT.with(|s| s.borrow_mut().pop_front()).unwrap_or_else(|| fastrand::i32(..)) } }
impl Draw for u32 { fn draw() -> Self { i32::draw() as u32 } }
impl Draw for i64 { fn draw() -> Self { fastrand::i64(..) } }
impl Draw for u64 { fn draw() -> Self { fastrand::u64(..) } }
impl Draw for u8 { fn draw() -> Self { fastrand::u8(..) } }
impl<const N: usize> Draw for [u8; N] { fn draw() -> Self { let mut a = [0; N]; for x in &mut a { *x = fastrand::u8(..) } a } }
pub trait Rng {
    fn gen<T: Draw>(&mut self) -> T { T::draw() }
    fn gen_range<R: Range>(&mut self, r: R) -> i32 { r.pick() }
}
pub trait Range { fn pick(self) -> i32; }
impl Range for std::ops::Range<i32> { fn pick(self) -> i32 { let d = i32::draw(); if self.contains(&d) { d } else { fastrand::i32(self) } } }
impl Range for std::ops::RangeInclusive<i32> { fn pick(self) -> i32 { let d = i32::draw(); if self.contains(&d) { d } else { fastrand::i32(self) } } }
impl Rng for ThreadRng {}
pub fn random<T: Draw>() -> T { T::draw() }
