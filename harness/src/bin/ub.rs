//! cvm-ub KIND SEED: the workloads of C23 for Miri
fn main() {
    cvm::rep::install_panic_hook();
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    if a.len() == 2 {
        cvm::c_sys::ub(a[0] as usize, a[1]);
    }
}
