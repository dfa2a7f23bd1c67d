//! In-memory stand-in for ckb-rocksdb: atomic writes in program order, a journal of every atomic
//! write (so that a driver can reopen the database as of any crash point), and RocksDB's
//! prefix-iterator behaviour without a prefix extractor (it seeks, then runs to the end of the
//! column family).
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for Error {}
impl From<Error> for String { fn from(e: Error) -> String { e.0 } }

type Kv = (String, Vec<u8>, Option<Vec<u8>>);
type Cfs = HashMap<String, BTreeMap<Vec<u8>, Vec<u8>>>;

#[derive(Default, Debug)]
struct Inner {
    cfs: Cfs,
    journal: Vec<Vec<Kv>>,
    /// Some(n): the n-th atomic write from now on (0 = the next one) and all later ones fail.
    fail_after: Option<usize>,
}
impl Inner {
    fn apply(&mut self, w: Vec<Kv>) -> Result<(), Error> {
        match self.fail_after {
            Some(0) => return Err(Error("injected write failure".into())),
            Some(ref mut n) => *n -= 1,
            None => {}
        }
        for (cf, k, v) in w.iter() {
            let m = self.cfs.entry(cf.clone()).or_default();
            match v { Some(v) => { m.insert(k.clone(), v.clone()); } None => { m.remove(k); } }
        }
        self.journal.push(w);
        Ok(())
    }
}

fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<Mutex<Inner>>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Arc<Mutex<Inner>>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

/// Driver-side controls.
pub mod sim {
    use super::*;
    pub fn writes<P: AsRef<Path>>(p: P) -> usize {
        registry().lock().unwrap().get(p.as_ref()).map(|i| i.lock().unwrap().journal.len()).unwrap_or(0)
    }
    /// A database at `to` holding exactly the first `n` atomic writes of the one at `from`.
    pub fn fork<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q, n: usize) {
        let src = registry().lock().unwrap().get(from.as_ref()).cloned().expect("no such db");
        let src = src.lock().unwrap();
        let mut inner = Inner::default();
        for cf in src.cfs.keys() { inner.cfs.entry(cf.clone()).or_default(); }
        for w in src.journal.iter().take(n) { inner.apply(w.clone()).unwrap(); }
        registry().lock().unwrap().insert(to.as_ref().to_path_buf(), Arc::new(Mutex::new(inner)));
    }
    pub fn fail_after<P: AsRef<Path>>(p: P, n: Option<usize>) {
        let i = registry().lock().unwrap().get(p.as_ref()).cloned().expect("no such db");
        i.lock().unwrap().fail_after = n;
    }
    pub fn drop_db<P: AsRef<Path>>(p: P) { registry().lock().unwrap().remove(p.as_ref()); }
    /// (column family, key, is_delete) of journal entry n.
    pub fn entry<P: AsRef<Path>>(p: P, n: usize) -> Vec<(String, Vec<u8>, bool)> {
        let i = registry().lock().unwrap().get(p.as_ref()).cloned().expect("no such db");
        let i = i.lock().unwrap();
        i.journal[n].iter().map(|(c, k, v)| (c.clone(), k.clone(), v.is_none())).collect()
    }
}

#[derive(Debug)]
pub struct ColumnFamily(String);

pub struct DB { inner: Arc<Mutex<Inner>>, handles: HashMap<String, ColumnFamily> }
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "DB") }
}

#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _b: bool) {}
    pub fn create_missing_column_families(&mut self, _b: bool) {}
    pub fn set_max_open_files(&mut self, _n: i32) {}
}
pub struct ColumnFamilyDescriptor { name: String }
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(n: S, _o: Options) -> Self { ColumnFamilyDescriptor { name: n.into() } }
}
pub struct FullOptions { pub db_opts: Options, pub cf_descriptors: Vec<ColumnFamilyDescriptor> }
impl FullOptions {
    pub fn load_from_file<P: AsRef<Path>>(_f: P, _c: Option<usize>, _i: bool) -> Result<Self, Error> {
        Ok(FullOptions { db_opts: Options, cf_descriptors: vec![] })
    }
    pub fn complete_column_families(&mut self, names: &[&str], _b: bool) -> Result<(), Error> {
        for n in names { self.cf_descriptors.push(ColumnFamilyDescriptor::new(*n, Options)); }
        Ok(())
    }
}
#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions { pub fn set_sync(&mut self, _b: bool) {} }
#[derive(Default)]
pub struct WriteBatch { ops: Vec<Kv> }

#[derive(Debug, Clone)]
pub struct DBVector(Vec<u8>);
impl std::ops::Deref for DBVector { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for DBVector { fn as_ref(&self) -> &[u8] { &self.0 } }

pub struct DBIterator<'a> { items: std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>, _p: std::marker::PhantomData<&'a ()> }
impl<'a> Iterator for DBIterator<'a> {
    type Item = (Box<[u8]>, Box<[u8]>);
    fn next(&mut self) -> Option<Self::Item> { self.items.next() }
}

pub mod ops {
    use super::*;
    pub trait OpenCF: Sized {
        fn open_cf_descriptors<P: AsRef<Path>>(o: &Options, p: P, d: Vec<ColumnFamilyDescriptor>) -> Result<Self, Error>;
    }
    impl OpenCF for DB {
        fn open_cf_descriptors<P: AsRef<Path>>(_o: &Options, p: P, d: Vec<ColumnFamilyDescriptor>) -> Result<Self, Error> {
            let inner = registry().lock().unwrap().entry(p.as_ref().to_path_buf()).or_default().clone();
            let mut handles = HashMap::new();
            for c in d {
                inner.lock().unwrap().cfs.entry(c.name.clone()).or_default();
                handles.insert(c.name.clone(), ColumnFamily(c.name));
            }
            Ok(DB { inner, handles })
        }
    }
    pub trait GetColumnFamilys { fn cf_handle(&self, n: &str) -> Option<&ColumnFamily>; }
    impl GetColumnFamilys for DB {
        fn cf_handle(&self, n: &str) -> Option<&ColumnFamily> { self.handles.get(n) }
    }
    pub trait GetCF { fn get_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<Option<DBVector>, Error>; }
    impl GetCF for DB {
        fn get_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<Option<DBVector>, Error> {
            Ok(self.inner.lock().unwrap().cfs.get(&c.0).and_then(|m| m.get(k.as_ref())).cloned().map(DBVector))
        }
    }
    pub trait PutCF { fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error>; }
    impl PutCF for DB {
        fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error> {
            self.inner.lock().unwrap().apply(vec![(c.0.clone(), k.as_ref().to_vec(), Some(v.as_ref().to_vec()))])
        }
    }
    pub trait DeleteCF { fn delete_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<(), Error>; }
    impl DeleteCF for DB {
        fn delete_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<(), Error> {
            self.inner.lock().unwrap().apply(vec![(c.0.clone(), k.as_ref().to_vec(), None)])
        }
    }
    pub trait IterateCF { fn prefix_iterator_cf<P: AsRef<[u8]>>(&self, c: &ColumnFamily, p: P) -> Result<DBIterator<'_>, Error>; }
    impl IterateCF for DB {
        fn prefix_iterator_cf<P: AsRef<[u8]>>(&self, c: &ColumnFamily, p: P) -> Result<DBIterator<'_>, Error> {
            let g = self.inner.lock().unwrap();
            let items: Vec<_> = g.cfs.get(&c.0).map(|m| m.range(p.as_ref().to_vec()..)
                .map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())).collect()).unwrap_or_default();
            Ok(DBIterator { items: items.into_iter(), _p: std::marker::PhantomData })
        }
    }
    pub trait WriteOps {
        fn write(&self, b: &WriteBatch) -> Result<(), Error>;
        fn write_opt(&self, b: &WriteBatch, o: &WriteOptions) -> Result<(), Error>;
    }
    impl WriteOps for DB {
        fn write(&self, b: &WriteBatch) -> Result<(), Error> { self.inner.lock().unwrap().apply(b.ops.clone()) }
        fn write_opt(&self, b: &WriteBatch, _o: &WriteOptions) -> Result<(), Error> { self.write(b) }
    }
}

impl WriteBatch {
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error> {
        self.ops.push((c.0.clone(), k.as_ref().to_vec(), Some(v.as_ref().to_vec()))); Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, c: &ColumnFamily, k: K) -> Result<(), Error> {
        self.ops.push((c.0.clone(), k.as_ref().to_vec(), None)); Ok(())
    }
}
