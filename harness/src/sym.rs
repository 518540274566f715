//! The primitives of the checks. In the symbolic executor they create symbolic bytes, constrain
//! the path and state assertions; in a native replay they read a concrete model.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sym_assume(b: bool);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_assert(b: bool, p: *const u8, n: usize);
    fn sym_reach(p: *const u8, n: usize);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_concretize(v: u64) -> u64;
    fn sym_param(p: *const u8, n: usize, d: u64) -> u64;
    fn sym_live() -> u64;
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N, b"b".as_ptr(), 1) };
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { sym_bytes(b.as_mut_ptr(), n, b"v".as_ptr(), 1) };
    b
}
pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len(), b"f".as_ptr(), 1) } }
macro_rules! ints { ($($n:ident $t:ty),*) => { $( pub fn $n() -> $t { <$t>::from_le_bytes(bytes()) } )* } }
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128);
pub fn bool() -> bool { let b = u8(); assume(b < 2); b != 0 }
/// a symbolic choice below n; the executor forks on its values
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0; }
    let v = if n <= 256 { u8() as u64 } else { u16() as u64 };
    assume(v < n as u64);
    // halving keeps the tree of forks balanced
    let (mut lo, mut hi) = (0, n as u64 - 1);
    while lo < hi {
        let mid = (lo + hi) / 2;
        // concretizing the comparison forks; a plain branch would become a select
        if unsafe { sym_concretize((v <= mid) as u64) } != 0 { hi = mid } else { lo = mid + 1 }
    }
    unsafe { sym_concretize(v) as usize }
}
static SHAPE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// from here on `shape` walks through one of k fixed sequences instead of forking
pub fn shapes(k: usize) { SHAPE.store(1 + choose(k), std::sync::atomic::Ordering::Relaxed) }
/// a length or variant below n
pub fn shape(n: usize) -> usize {
    let s = SHAPE.load(std::sync::atomic::Ordering::Relaxed);
    if s == 0 { return choose(n); }
    let (p, i) = ((s - 1) % 8, (s - 1) / 8);
    SHAPE.store(1 + p + 8 * (i + 1), std::sync::atomic::Ordering::Relaxed);
    // p: starting point and stride
    (p + i * (1 + p / 3) + i / 3) % n
}
/// a symbolic choice in lo..=hi
pub fn range(lo: usize, hi: usize) -> usize { lo + choose(hi - lo + 1) }
pub fn concrete(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[track_caller]
pub fn check(b: bool, m: &str) { unsafe { sym_assert(b, m.as_ptr(), m.len()) } }
pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { unsafe { sym_reach(m.as_ptr(), m.len()) } }
pub fn observe(b: &[u8]) { unsafe { sym_observe(b.as_ptr(), b.len()) } }
pub fn param(n: &str, d: usize) -> usize { unsafe { sym_param(n.as_ptr(), n.len(), d as u64) as usize } }
pub fn live() -> u64 { unsafe { sym_live() } }
/// unwrap with a message which names the obligation
pub fn ok<T, E>(r: Result<T, E>, m: &str) -> T { match r { Ok(v) => v, Err(_) => fail(m) } }
pub fn some<T>(r: Option<T>, m: &str) -> T { match r { Some(v) => v, None => fail(m) } }
/// an arbitrary valid UTF-8 string of n bytes, ASCII only
pub fn ascii(n: usize) -> String {
    let v = vec(n);
    for b in &v { assume(*b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
