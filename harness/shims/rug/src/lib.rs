//! Minimal non-negative big integer with the part of rug's interface that core-executor uses.
use std::cmp::Ordering;
use std::ops::*;
pub mod integer { pub enum Order { MsfBe } }
pub mod ops { pub trait Pow<R> { type Output; fn pow(self, r: R) -> Self::Output; } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Integer(Vec<u32>);
impl Integer {
    pub const ZERO: Integer = Integer(Vec::new());
    fn norm(mut self) -> Self { while self.0.last() == Some(&0) { self.0.pop(); } self }
    pub fn from_digits(d: &[u8], _o: integer::Order) -> Self {
        let mut v = Vec::new();
        let mut i = d.len();
        while i > 0 { let s = i.saturating_sub(4); let mut x = 0u32; for b in &d[s..i] { x = (x << 8) | *b as u32; } v.push(x); i = s; }
        Integer(v).norm()
    }
    pub fn to_digits<T: From<u8>>(&self, _o: integer::Order) -> Vec<T> {
        let mut b: Vec<u8> = self.0.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
        let n = b.iter().take_while(|x| **x == 0).count();
        b.drain(..n).count(); b.into_iter().map(T::from).collect()
    }
    pub fn significant_bits(&self) -> u32 { match self.0.last() { None => 0, Some(t) => self.0.len() as u32 * 32 - t.leading_zeros() } }
    pub fn abs_ref(&self) -> &Integer { self }
    fn bit(&self, i: u32) -> bool { self.0.get((i / 32) as usize).map_or(false, |w| w >> (i % 32) & 1 == 1) }
    fn mul_i(&self, o: &Integer) -> Integer {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() { let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() { let t = *a as u64 * *b as u64 + r[i + j] as u64 + c; r[i + j] = t as u32; c = t >> 32; }
            let mut k = i + o.0.len(); while c > 0 { let t = r[k] as u64 + c; r[k] = t as u32; c = t >> 32; k += 1; } }
        Integer(r).norm()
    }
    fn sub_i(&self, o: &Integer) -> Integer {
        let mut r = self.0.clone(); let mut br = 0i64;
        for i in 0..r.len() { let t = r[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - br; if t < 0 { r[i] = (t + (1i64 << 32)) as u32; br = 1 } else { r[i] = t as u32; br = 0 } }
        assert_eq!(br, 0); Integer(r).norm()
    }
    fn shl1(&mut self, b: bool) { let mut c = b as u32; for w in self.0.iter_mut() { let n = *w >> 31; *w = (*w << 1) | c; c = n; } if c > 0 { self.0.push(c); } }
    fn divrem(&self, o: &Integer) -> (Integer, Integer) {
        assert!(!o.0.is_empty());
        let mut q = vec![0u32; self.0.len()]; let mut r = Integer::ZERO;
        for i in (0..self.significant_bits()).rev() { r.shl1(self.bit(i)); r = r.norm(); if r >= *o { r = r.sub_i(o); q[(i / 32) as usize] |= 1 << (i % 32); } }
        (Integer(q).norm(), r)
    }
    pub fn pow_mod(self, e: &Integer, m: &Integer) -> Result<Integer, Integer> {
        let mut r = Integer::from(1u64).divrem(m).1; let b = self.divrem(m).1;
        for i in (0..e.significant_bits()).rev() { r = r.mul_i(&r).divrem(m).1; if e.bit(i) { r = r.mul_i(&b).divrem(m).1; } }
        Ok(r)
    }
}
impl PartialOrd for Integer { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Integer { fn cmp(&self, o: &Self) -> Ordering { self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev())) } }
macro_rules! prim { ($($t:ty),*) => { $(
    impl From<$t> for Integer { fn from(x: $t) -> Self { let x = x as u64; Integer(vec![x as u32, (x >> 32) as u32]).norm() } }
    impl From<&$t> for Integer { fn from(x: &$t) -> Self { Integer::from(*x) } }
    impl PartialEq<$t> for Integer { fn eq(&self, o: &$t) -> bool { *self == Integer::from(*o) } }
    impl PartialOrd<$t> for Integer { fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.partial_cmp(&Integer::from(*o)) } }
    impl Add<$t> for Integer { type Output = Integer; fn add(self, o: $t) -> Integer { self + Integer::from(o) } }
    impl Sub<$t> for Integer { type Output = Integer; fn sub(self, o: $t) -> Integer { self.sub_i(&Integer::from(o)) } }
    impl Mul<$t> for Integer { type Output = Integer; fn mul(self, o: $t) -> Integer { self.mul_i(&Integer::from(o)) } }
    impl Mul<Integer> for $t { type Output = Integer; fn mul(self, o: Integer) -> Integer { o.mul_i(&Integer::from(self)) } }
    impl Div<$t> for Integer { type Output = Integer; fn div(self, o: $t) -> Integer { self.divrem(&Integer::from(o)).0 } }
)* } }
prim!(u64, u32, i32, usize);
impl From<&Integer> for Integer { fn from(x: &Integer) -> Self { x.clone() } }
impl Add for Integer { type Output = Integer; fn add(self, o: Integer) -> Integer {
    let n = self.0.len().max(o.0.len()); let mut r = Vec::with_capacity(n + 1); let mut c = 0u64;
    for i in 0..n { let t = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c; r.push(t as u32); c = t >> 32; }
    r.push(c as u32); Integer(r).norm() } }
impl Rem for Integer { type Output = Integer; fn rem(self, o: Integer) -> Integer { self.divrem(&o).1 } }
impl BitAnd for Integer { type Output = Integer; fn bitand(self, o: Integer) -> Integer { Integer(self.0.iter().zip(o.0.iter()).map(|(a, b)| a & b).collect()).norm() } }
impl ops::Pow<u32> for Integer { type Output = Integer; fn pow(self, n: u32) -> Integer { let mut r = Integer::from(1u64); for _ in 0..n { r = r.mul_i(&self); } r } }
impl az::SaturatingCast<usize> for Integer { fn saturating_cast(self) -> usize { if self.0.len() > 2 { usize::MAX } else { self.0.iter().rev().fold(0u64, |a, w| (a << 32) | *w as u64) as usize } } }
impl az::SaturatingCast<u64> for Integer { fn saturating_cast(self) -> u64 { if self.0.len() > 2 { u64::MAX } else { self.0.iter().rev().fold(0u64, |a, w| (a << 32) | *w as u64) } } }
