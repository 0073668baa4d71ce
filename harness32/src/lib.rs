#![allow(dead_code)]
#[path = "../../harness/src/est.rs"]
mod est;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/hashers.rs"]
mod hashers;
#[path = "../../harness/src/memo.rs"]
mod memo;
#[path = "../../harness/src/port.rs"]
mod port;
#[path = "../../harness/src/sk.rs"]
mod sk;
#[path = "../../harness/src/suites.rs"]
mod suites;
#[path = "../../harness/src/world.rs"]
mod world;

static mut ARGS: Vec<u8> = Vec::new();
static mut DONE: Vec<u8> = Vec::new();

/// Room for the arguments: suite, seed, n, tier, shard, each on a line; more
/// text may follow.
#[no_mangle]
pub extern "C" fn args(n: usize) -> *mut u8 {
    unsafe {
        ARGS = vec![0; n];
        (*(&raw mut ARGS)).as_mut_ptr()
    }
}

#[no_mangle]
pub extern "C" fn run() {
    let text = unsafe { String::from_utf8((*(&raw const ARGS)).clone()).unwrap() };
    let v: Vec<&str> = text.splitn(6, '\n').collect();
    world::open("");
    hashers::assert_invertible();
    world::set_shard(v[4]);
    let tier = if v[3] == "thorough" { 1 } else { 0 };
    assert!(suites::run(v[0], v[1].parse().unwrap(), v[2].parse().unwrap(), tier, v[5]), "unknown suite {}", v[0]);
    world::close();
}

/// The bits of a pointer, and what has been written so far.
#[no_mangle]
pub extern "C" fn bits() -> u32 {
    usize::BITS
}
#[no_mangle]
pub extern "C" fn out() -> *const u8 {
    unsafe {
        DONE = std::mem::take(&mut *world::OUT.lock().unwrap_or_else(|e| e.into_inner()));
        (*(&raw const DONE)).as_ptr()
    }
}
#[no_mangle]
pub extern "C" fn out_len() -> usize {
    unsafe { (*(&raw const DONE)).len() }
}
