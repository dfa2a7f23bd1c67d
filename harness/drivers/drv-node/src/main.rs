mod a01;
mod a02;
mod val;
mod a06;
mod c01;
mod crash;
mod chain;
mod node;
mod b01;
mod b03;
mod d01;
mod d03;
mod d04;
mod d05;
mod d06;
use protocol::types::*;
use std::future::Future;
pub use vcommon::*;

/// Runs a future on a runtime of several threads.
pub fn run<T>(f: impl Future<Output = T>) -> T { rt().block_on(f) }
pub fn rt() -> &'static protocol::tokio::runtime::Runtime {
    use std::sync::OnceLock;
    static RT: OnceLock<protocol::tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| protocol::tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}

/// A transaction signed with the key (sk, sk, .., sk).
pub fn sign(unsigned: UnsignedTransaction, chain_id: u64, sk: u8) -> SignedTransaction {
    use common_crypto::{Crypto, Secp256k1Recoverable, Signature};
    let mut tx = UnverifiedTransaction { unsigned, signature: None, chain_id: Some(chain_id), hash: H256::default() };
    let sig = Secp256k1Recoverable::sign_message(tx.signature_hash(true).as_bytes(), &[sk; 32]).unwrap().to_bytes();
    tx.signature = Some(sig.into());
    SignedTransaction::from_unverified(tx.calc_hash()).unwrap()
}

struct Loud;
impl log::Log for Loud {
    fn enabled(&self, m: &log::Metadata) -> bool { m.level() <= log::Level::Warn }
    fn log(&self, r: &log::Record) { if self.enabled(r.metadata()) { eprintln!("{} {}", r.level(), r.args()) } }
    fn flush(&self) {}
}
fn main() {
    if std::env::var("LOUD").is_ok() { let _ = log::set_logger(&Loud); log::set_max_level(log::LevelFilter::Warn); }
    if std::env::var("LOUD").is_err() {
        quiet_panics();
    }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "a01" => a01::main(&a[2], &a[3], &a[4]),
        "a02" => a02::main(&a[2], &a[3], &a[4], &a[5]),
        "b03" => b03::main(&a[2], &a[3], &a[4]),
        "b01" => b01::main(&a[2], &a[3], &a[4]),
        "a06" => a06::main(&a[2], &a[3], &a[4]),
        "c01" => c01::main(&a[2], &a[3], &a[4]),
        "d06" => d06::main(&a[2], &a[3], &a[4]),
        "d05" => d05::main(&a[2], &a[3], &a[4]),
        "d01" => d01::main(&a[2], &a[3], &a[4]),
        "d03" => d03::main(&a[2], &a[3], &a[4]),
        "d04" => d04::main(&a[2], &a[3], &a[4]),
        x => panic!("unknown command {x}"),
    }
}
