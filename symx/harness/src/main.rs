mod field;
mod jobs;
mod poly;

mod c_range;

#[cfg(feature = "expr")]
mod c_expr;
mod sysu;
mod toybus;
mod tmpl;
#[cfg(feature = "solve")]
mod c_solve;
#[cfg(feature = "opt")]
mod c_opt;
#[cfg(feature = "apc")]
mod c_apc;
#[cfg(feature = "ovm")]
mod c_ovm;
#[cfg(feature = "exec")]
mod c_exec;
#[cfg(feature = "conv")]
mod c_conv;
#[cfg(feature = "bld")]
mod c_build;
#[cfg(feature = "conv")]
use c_opt::sys_refs as c_opt_refs;


fn main() {
    jobs::main();
}

/// Deterministic hash seeds: every path runs in a fresh thread.
/// The value is taken from the harness (see `jobs::HASH_SEED`).
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = jobs::HASH_SEED.load(std::sync::atomic::Ordering::Relaxed);
    for i in 0..len {
        unsafe { *buf.add(i) = (s as u8).wrapping_add((i as u8).wrapping_mul(s as u8)) };
    }
    len as isize
}
