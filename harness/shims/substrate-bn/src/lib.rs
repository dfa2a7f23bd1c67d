//! Compile-only stand-in: every field element is rejected, so the bn precompiles fail on any input.
use std::ops::{Add, Mul};
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fq2;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Fr;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct G1;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct G2;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Gt;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct AffineG1;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct AffineG2;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Unsupported;
pub trait Group { fn zero() -> Self; fn one() -> Self; }
impl Group for G1 { fn zero() -> Self { G1 } fn one() -> Self { G1 } }
impl Group for G2 { fn zero() -> Self { G2 } fn one() -> Self { G2 } }
impl Gt { pub fn one() -> Self { Gt } }
impl Fq { pub fn zero() -> Self { Fq } pub fn is_zero(&self) -> bool { true }
    pub fn from_slice(_: &[u8]) -> Result<Self, Unsupported> { Err(Unsupported) }
    pub fn to_big_endian(&self, _: &mut [u8]) -> Result<(), Unsupported> { Err(Unsupported) } }
impl Fq2 { pub fn new(_: Fq, _: Fq) -> Self { Fq2 } pub fn is_zero(&self) -> bool { true } }
impl Fr { pub fn from_slice(_: &[u8]) -> Result<Self, Unsupported> { Err(Unsupported) } }
impl AffineG1 { pub fn new(_: Fq, _: Fq) -> Result<Self, Unsupported> { Err(Unsupported) }
    pub fn from_jacobian(_: G1) -> Option<Self> { None } pub fn x(&self) -> Fq { Fq } pub fn y(&self) -> Fq { Fq } }
impl AffineG2 { pub fn new(_: Fq2, _: Fq2) -> Result<Self, Unsupported> { Err(Unsupported) } }
impl From<AffineG1> for G1 { fn from(_: AffineG1) -> G1 { G1 } }
impl From<AffineG2> for G2 { fn from(_: AffineG2) -> G2 { G2 } }
impl Add for G1 { type Output = G1; fn add(self, _: G1) -> G1 { G1 } }
impl Mul<Fr> for G1 { type Output = G1; fn mul(self, _: Fr) -> G1 { G1 } }
pub fn pairing_batch(_: &[(G1, G2)]) -> Gt { Gt }
