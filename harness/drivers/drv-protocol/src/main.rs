mod e01;
mod e02;
mod e04;
mod e05;
mod f01;
mod i03;
mod records;
use vcommon::*;

fn main() {
    if std::env::var("LOUD").is_err() { quiet_panics(); }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "e01" => e01::run(&a[2], &a[3]),
        "f01" => f01::run(&a[2], &a[3]),
        "e04" => e04::run(&a[2]),
        "e02" => e02::run(&a[2], &a[3]),
        "i03" => i03::run(&a[2], &a[3]),
        "e05" => e05::run(&a[2], &a[3]),
        "records" => records::run(&a[2], &a[3], &a[4]),
        x => panic!("unknown command {x}"),
    }
}
