//! C24: the checksum is CityHash128 (version 1.0.2, as ClickHouse uses it). C10: compressed frames.
use crate::sym;

const K0: u64 = 0xc3a5_c85c_97cb_3127;
const K1: u64 = 0xb492_b66f_be98_f273;
const K2: u64 = 0x9ae1_6a3b_2f90_404f;
const K3: u64 = 0xc949_d7c7_509e_6557;
const KM: u64 = 0x9ddf_ea08_eb38_2d69;
fn w64(s: &[u8], i: usize) -> u64 { let mut b = [0; 8]; b.copy_from_slice(&s[i..i + 8]); u64::from_le_bytes(b) }
fn w32(s: &[u8], i: usize) -> u64 { let mut b = [0; 4]; b.copy_from_slice(&s[i..i + 4]); u32::from_le_bytes(b) as u64 }
fn mul(a: u64, b: u64) -> u64 { a.wrapping_mul(b) }
fn add(a: u64, b: u64) -> u64 { a.wrapping_add(b) }
fn mix(v: u64) -> u64 { v ^ (v >> 47) }
fn h16(u: u64, v: u64) -> u64 {
    let mut a = mul(u ^ v, KM);
    a ^= a >> 47;
    let mut b = mul(v ^ a, KM);
    b ^= b >> 47;
    mul(b, KM)
}
fn short(s: &[u8]) -> u64 {
    let n = s.len();
    if n > 8 {
        let (a, b) = (w64(s, 0), w64(s, n - 8));
        return h16(a, add(b, n as u64).rotate_right(n as u32)) ^ b;
    }
    if n >= 4 { return h16(add(n as u64, w32(s, 0) << 3), w32(s, n - 4)) }
    if n > 0 {
        let y = (s[0] as u32 + ((s[n / 2] as u32) << 8)) as u64;
        let z = (n as u32 + ((s[n - 1] as u32) << 2)) as u64;
        return mul(mix(mul(y, K2) ^ mul(z, K3)), K2);
    }
    K2
}
fn weak(s: &[u8], a: u64, b: u64) -> (u64, u64) {
    let (w, x, y, z) = (w64(s, 0), w64(s, 8), w64(s, 16), w64(s, 24));
    let a0 = add(a, w);
    let b = add(add(b, a0), z).rotate_right(21);
    let a1 = add(add(a0, x), y);
    (add(a1, z), add(add(b, a1.rotate_right(44)), a0))
}
fn murmur(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    let n = s.len();
    let (mut a, mut b, mut c, mut d);
    if n <= 16 {
        a = mul(mix(mul(lo, K1)), K1);
        b = hi;
        c = add(mul(b, K1), short(s));
        d = mix(add(a, if n >= 8 { w64(s, 0) } else { c }));
    } else {
        c = h16(add(w64(s, n - 8), K1), lo);
        d = h16(add(hi, n as u64), add(c, w64(s, n - 16)));
        a = add(lo, d);
        b = hi;
        let mut p = 0;
        loop {
            a = mul(a ^ mul(mix(mul(w64(s, p), K1)), K1), K1);
            b ^= a;
            c = mul(c ^ mul(mix(mul(w64(s, p + 8), K1)), K1), K1);
            d ^= c;
            p += 16;
            if n - p <= 16 { break }
        }
    }
    a = h16(a, c);
    b = h16(d, b);
    (a ^ b, h16(b, a))
}
fn long(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    let mut n = s.len();
    if n < 128 { return murmur(s, lo, hi) }
    let mut p = 0;
    let (mut x, mut y, mut z) = (lo, hi, mul(n as u64, K1));
    let v0 = add(mul((y ^ K1).rotate_right(49), K1), w64(s, 0));
    let mut v = (v0, add(mul(v0.rotate_right(42), K1), w64(s, 8)));
    let mut w = (add(mul(add(y, z).rotate_right(35), K1), x), mul(add(x, w64(s, 88)).rotate_right(53), K1));
    while n >= 128 {
        for _ in 0..2 {
            x = mul(add(add(add(x, y), v.0), w64(s, p + 16)).rotate_right(37), K1);
            y = mul(add(add(y, v.1), w64(s, p + 48)).rotate_right(42), K1);
            x ^= w.1;
            y ^= v.0;
            z = (z ^ w.0).rotate_right(33);
            v = weak(&s[p..], mul(v.1, K1), add(x, w.0));
            w = weak(&s[p + 32..], add(z, w.1), y);
            (z, x) = (x, z);
            p += 64;
        }
        n -= 128;
    }
    y = add(y, add(mul(w.0.rotate_right(37), K0), z));
    x = add(x, mul(add(v.0, z).rotate_right(49), K0));
    let mut t = 0;
    while t < n {
        t += 32;
        let q = s.len() - t;
        y = add(mul(y.wrapping_sub(x).rotate_right(42), K0), v.1);
        w.0 = add(w.0, w64(s, q + 16));
        x = add(mul(x.rotate_right(49), K0), w.0);
        w.0 = add(w.0, v.0);
        v = weak(&s[q..], v.0, v.1);
    }
    x = h16(x, v.0);
    y = h16(y, w.0);
    (add(h16(add(x, v.1), w.1), y), h16(add(x, w.1), add(y, v.1)))
}
/// low, high
pub fn city128(s: &[u8]) -> (u64, u64) {
    let n = s.len();
    if n >= 16 { long(&s[16..], w64(s, 0) ^ K3, w64(s, 8)) }
    else if n >= 8 { long(&[], w64(s, 0) ^ mul(n as u64, K0), w64(s, n - 8) ^ K1) }
    else { long(s, K0, K1) }
}
fn agree(n: usize) {
    let v = sym::vec(n);
    let h = clickhouse_rs_cityhash_sys::city_hash_128(&v);
    let (lo, hi) = city128(&v);
    sym::check(h.lo == lo, "the low half of the hash");
    sym::check(h.hi == hi, "the high half of the hash");
}
pub fn c24_short() { agree(sym::choose(sym::param("n", 40))); sym::reach("hash") }
pub fn c24_mid() { agree(sym::range(40, sym::param("n", 272))); sym::reach("hash") }
pub fn c24_long() { agree([273, 287, 288, 289, 300, 303, 304, 320, 333, 351, 367, 399, 400, 401, 416, 417, 500, 527, 528, 529, 655, 656, 784, 1000][sym::choose(sym::param("n", 24))]); sym::reach("hash") }
/// known answers
pub fn c24_known() {
    sym::check(city128(b"abc") == (0x900f_f195_5777_48fe, 0x13a9_1763_55b2_0d7e), "reference: abc");
    let b: Vec<u8> = (0..1000u32).map(|i| (i * 7 + i / 13) as u8).collect();
    for n in [0usize, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 143, 144, 145, 271, 272, 500, 1000] {
        let h = clickhouse_rs_cityhash_sys::city_hash_128(&b[..n]);
        sym::check(city128(&b[..n]) == (h.lo, h.hi), "the hash of fixed bytes");
    }
    sym::reach("hash");
}
