#[allow(dead_code)]
#[path = "../../drv-node/src/b01.rs"]
mod b01;
#[allow(dead_code)]
#[path = "../../drv-node/src/chain.rs"]
mod chain;
#[allow(dead_code)]
#[path = "../../drv-node/src/node.rs"]
mod node;
mod api;
mod g01;
mod g02;
mod g03;
use protocol::types::*;
use std::future::Future;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
pub use vcommon::*;

/// seconds by which the time that passes is ahead of the real one
pub static AHEAD: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    if clk == libc::CLOCK_MONOTONIC && r == 0 { (*ts).tv_sec += AHEAD.load(SeqCst) }
    r
}
thread_local!(static RT: protocol::tokio::runtime::Runtime = protocol::tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap());
/// Runs a future on a thread and a runtime of its own: the future stays on the thread, all that it spawns is on one other.
pub fn run<T: Send>(f: impl Future<Output = T> + Send) -> T {
    std::thread::scope(|s| s.spawn(|| RT.with(|r| r.block_on(f))).join().unwrap())
}
/// lets everything go on that can
pub async fn settle() {
    let _ = protocol::tokio::spawn(async { for _ in 0..300 { protocol::tokio::task::yield_now().await } }).await;
}
pub fn rt() -> &'static protocol::tokio::runtime::Runtime { unreachable!() }

/// A transaction signed with the key (sk, sk, .., sk).
pub fn sign(unsigned: UnsignedTransaction, chain_id: u64, sk: u8) -> SignedTransaction {
    use common_crypto::{Crypto, Secp256k1Recoverable, Signature};
    let mut tx = UnverifiedTransaction { unsigned, signature: None, chain_id: Some(chain_id), hash: H256::default() };
    let sig = Secp256k1Recoverable::sign_message(tx.signature_hash(true).as_bytes(), &[sk; 32]).unwrap().to_bytes();
    tx.signature = Some(sig.into());
    SignedTransaction::from_unverified(tx.calc_hash()).unwrap()
}
fn main() {
    if std::env::var("LOUD").is_err() { quiet_panics() }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "g01" => g01::main(&a[2], &a[3], &a[4]),
        "g02" => g02::main(&a[2], &a[3], &a[4]),
        "g03" => g03::main(&a[2], &a[3], &a[4]),
        x => panic!("unknown command {x}"),
    }
}
