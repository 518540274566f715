use crate::{sym, wire};
use clickhouse_rs::verif_hooks as vh;

/// every u64: the encoding is the minimal LEB128 one, and reads back to itself, with any bytes behind it
pub fn c01_uvarint_rt() {
    let v = sym::u64();
    let mut b = vh::encode_uvarint(v);
    let mut r = vec![];
    wire::uvarint(&mut r, v);
    sym::check(b == r, "uvarint encoding differs from minimal LEB128");
    let n = b.len();
    b.push(sym::u8());
    let (x, used) = vh::decode_uvarint(&b);
    let x = sym::ok(x, "uvarint does not read back");
    sym::check(x == v, "uvarint reads back to another value");
    sym::check(used == n, "uvarint consumes another number of bytes");
    sym::reach("rt");
}
/// every byte string: a value exactly when the bytes hold a terminated varint that fits 64 bits
pub fn c01_uvarint_any() {
    let n = sym::range(0, sym::param("len", 13));
    let b = sym::vec(n);
    // reference
    let mut k = 0;
    while k < n && b[k] & 0x80 != 0 { k += 1; }
    let (x, used) = vh::decode_uvarint(&b);
    if k == n {
        sym::check(x.is_err(), "truncated varint accepted");
        sym::reach("truncated");
        return;
    }
    let fits = k < 9 || (k == 9 && b[9] <= 1);
    if !fits {
        sym::check(x.is_err(), "varint over 64 bits accepted");
        sym::reach("overflow");
        return;
    }
    let mut v = 0u64;
    for i in 0..=k { v |= ((b[i] & 0x7f) as u64) << (7 * i); }
    let x = sym::ok(x, "valid varint rejected");
    sym::check(x == v, "varint decodes to another value");
    sym::check(used == k + 1, "varint consumes another number of bytes");
    sym::reach("value");
}
pub fn c01_string_rt() {
    let n = sym::range(0, sym::param("len", 6));
    let n = if n == 6 { 130 } else { n };
    let s = sym::vec(n);
    let mut r = vec![];
    wire::string(&mut r, &s);
    let b = vh::encode_string(&s);
    sym::check(b == r, "string encoding is not length + bytes");
    let (x, used) = vh::skip_string(&b);
    sym::check(x.is_ok() && used == b.len(), "skip_string does not consume exactly the string");
    if n <= 5 {
        let valid = std::str::from_utf8(&s).is_ok();
        let (x, used) = vh::decode_string(&b);
        match x {
            Ok(t) => { sym::check(t.as_bytes() == &s[..], "string changed"); sym::check(used == b.len(), "string consumes another number of bytes"); sym::reach("utf8"); }
            Err(_) => { sym::check(!valid, "valid string rejected"); sym::reach("not utf8"); }
        }
    }
}
/// truncated strings are never taken for complete
pub fn c01_string_any() {
    let n = sym::range(0, sym::param("len", 6));
    let b = sym::vec(n);
    for x in &b { sym::assume(*x < 0x80); }
    let (x, used) = vh::decode_string(&b);
    if n == 0 || (b[0] as usize) > n - 1 {
        sym::check(x.is_err(), "truncated string accepted");
        sym::reach("truncated");
    } else {
        let l = b[0] as usize;
        let x = sym::ok(x, "complete string rejected");
        sym::check(x.len() == l && used == l + 1, "length");
        sym::check(x.as_bytes() == &b[1..1 + l], "content");
        sym::reach("complete");
    }
}
/// a pool of strings holds what was read, whatever the lengths and whichever chunk they fall in
pub fn c01_string_pool() {
    let n = sym::param("n", 3);
    let big = [0usize, 1, 5, 1024, 2000];
    let mut want = vec![];
    let mut wire_ = vec![];
    for _ in 0..n {
        let mut s = vec![b'x'; big[sym::choose(big.len())]];
        let l = s.len();
        if l > 0 { s[0] = sym::u8(); s[l - 1] = sym::u8(); }
        wire::string(&mut wire_, &s);
        want.push(s);
    }
    let (x, used) = vh::pool_strings(&wire_, n);
    let got = sym::ok(x, "strings rejected");
    sym::check(used == wire_.len(), "consumed");
    sym::check(got.len() == n, "count");
    for i in 0..n { sym::check(got[i] == want[i], "string in pool changed"); }
    sym::reach("pool");
}
