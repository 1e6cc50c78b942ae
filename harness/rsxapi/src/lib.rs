//! Harness-side interface of the symbolic executor.  The extern functions are
//! interpreted by the engine when the IR is executed symbolically and provided
//! by rt.c when a harness is replayed natively.
extern "C" {
    fn rsx_sym(p: *mut u8, n: usize);
    fn rsx_pick(n: u32) -> u32;
    fn rsx_seed(n: u64);
    fn rsx_assume(c: u8);
    fn rsx_note(p: *const u8, n: usize);
    fn rsx_reach(n: u32);
    fn rsx_conc(p: *mut u8, n: usize);
    fn rsx_param(i: u32) -> u64;
    fn rsx_fail(p: *const u8, n: usize) -> !;
}
/// fill with fresh symbolic bytes
#[inline(always)]
pub fn sym(b: &mut [u8]) {
    unsafe { rsx_sym(b.as_mut_ptr(), b.len()) }
}
/// explore every value in 0..n as a separate path
#[inline(always)]
pub fn pick(n: u32) -> u32 {
    unsafe { rsx_pick(n) }
}
#[inline(always)]
pub fn pick_bool() -> bool {
    pick(2) == 1
}
#[inline(always)]
pub fn hash_seed(n: u64) {
    unsafe { rsx_seed(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { rsx_assume(c as u8) }
}
#[inline(always)]
pub fn note(b: &[u8]) {
    unsafe { rsx_note(b.as_ptr(), b.len()) }
}
#[inline(always)]
pub fn reach(n: u32) {
    unsafe { rsx_reach(n) }
}
#[inline(always)]
pub fn conc(b: &mut [u8]) {
    unsafe { rsx_conc(b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn fail(m: &str) -> ! {
    unsafe { rsx_fail(m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// bound chosen by the tier (constant during one run)
#[inline(always)]
pub fn param(i: u32) -> usize {
    unsafe { rsx_param(i) as usize }
}
/// every byte is drawn from `alphabet` (no path split)
pub fn sym_from(b: &mut [u8], alphabet: &[u8]) {
    let mut t = [0u8; 256];
    for c in alphabet {
        t[*c as usize] = 1;
    }
    sym(b);
    for x in b.iter() {
        unsafe { rsx_assume(t[*x as usize]) }
    }
}
/// every byte is ASCII (no path split)
pub fn sym_ascii(b: &mut [u8]) {
    sym(b);
    for x in b.iter() {
        assume(*x < 128);
    }
}
/// runs the harness named on the command line (native replays)
pub fn main(all: &[(&str, extern "C" fn())]) {
    let a = std::env::args().nth(1).unwrap_or_default();
    for (name, f) in all {
        if *name == a {
            f();
            println!("END done");
            return;
        }
    }
    std::process::exit(75);
}
// ---- programs: files, arguments, standard output
extern "C" {
    fn rsx_files();
    fn rsx_args(n: i32, p: *const *const u8, e: *const *const u8);
    fn rsx_stdout(p: *mut u8, n: usize) -> usize;
    fn rsx_io(chunk: u64, eintr: u64, order: u64, fail: u64);
    fn rsx_failed() -> u64;
    fn rsx_mayfail(c: u64);
    fn rsx_done();
}
/// an empty working directory, and standard output that is kept
#[inline(always)]
pub fn files() {
    unsafe { rsx_files() }
}
/// the arguments of the program
pub fn args(a: &[&str]) {
    let mut v: Vec<*const u8> = vec![];
    for s in a {
        let b: &'static [u8] = [s.as_bytes(), b"\0"].concat().leak();
        v.push(b.as_ptr());
    }
    let n = v.len();
    v.push(core::ptr::null());
    let v = v.leak();
    unsafe { rsx_args(n as i32, v.as_ptr(), v[n..].as_ptr()) }
}
/// what was written to standard output
pub fn stdout() -> Vec<u8> {
    let n = unsafe { rsx_stdout(core::ptr::null_mut(), 0) };
    let mut v = vec![0u8; n];
    unsafe { rsx_stdout(v.as_mut_ptr(), n) };
    v
}
/// from now on: the most bytes of one transfer (0: any number), whether every other transfer is
/// interrupted, the order of directory entries (by name or in reverse), the number of the
/// operation to fail (0: none)
pub fn io(chunk: u64, eintr: bool, order: u64, fail: u64) {
    unsafe { rsx_io(chunk, eintr as u64, order, fail) }
}
/// whether the operation to fail was reached
pub fn io_failed() -> bool {
    unsafe { rsx_failed() != 0 }
}
/// from now on a panic ends the program as an error code does (1), if nothing was written (2)
pub fn may_fail(c: u64) {
    unsafe { rsx_mayfail(c) }
}
/// the end of a harness that keeps standard output
pub fn done() {
    unsafe { rsx_done() }
}
