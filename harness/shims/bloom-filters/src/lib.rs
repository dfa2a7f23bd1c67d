//! Stand-in for bloom-filters: an exact set (no false positives, nothing forgotten).
use std::collections::HashSet;
use std::hash::{BuildHasher, Hash, Hasher};
pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
}
pub struct DefaultBuildHashKernels<B>(B);
impl<B: BuildHasher> DefaultBuildHashKernels<B> { pub fn new(_n: usize, b: B) -> Self { DefaultBuildHashKernels(b) } }
pub struct StableBloomFilter<K>(K, HashSet<u64>);
impl<K> StableBloomFilter<K> { pub fn new(_buckets: usize, _d: u8, _fp: f64, k: K) -> Self { StableBloomFilter(k, HashSet::new()) } }
impl<B: BuildHasher> StableBloomFilter<DefaultBuildHashKernels<B>> {
    fn h<T: Hash>(&self, t: &T) -> u64 { let mut h = self.0 .0.build_hasher(); t.hash(&mut h); h.finish() }
}
impl<B: BuildHasher> BloomFilter for StableBloomFilter<DefaultBuildHashKernels<B>> {
    fn insert<T: Hash>(&mut self, t: &T) { let h = self.h(t); self.1.insert(h); }
    fn contains<T: Hash>(&self, t: &T) -> bool { self.1.contains(&self.h(t)) }
}
