//! Independent reference of the ClickHouse native protocol's encodings.
use crate::sym;
pub fn uvarint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 { out.push(b); return; }
        out.push(b | 0x80);
    }
}
pub fn string(out: &mut Vec<u8>, s: &[u8]) { uvarint(out, s.len() as u64); out.extend_from_slice(s); }
/// reads what the driver wrote
pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        if self.b.len() - self.p < n { sym::fail("the driver wrote less than the format asks for") }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    pub fn u8(&mut self) -> u8 { self.take(1)[0] }
    pub fn u64(&mut self) -> u64 { let mut x = [0; 8]; x.copy_from_slice(self.take(8)); u64::from_le_bytes(x) }
    pub fn uvarint(&mut self) -> u64 {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = self.u8();
            v |= ((b & 0x7f) as u64) << s;
            if b < 0x80 { return v; }
            s += 7;
            if s > 63 { sym::fail("the driver wrote an overlong varint") }
        }
    }
    pub fn string(&mut self) -> Vec<u8> { let n = self.uvarint() as usize; if n > self.b.len() { sym::fail("the driver wrote a string with a wrong length") } self.take(n).to_vec() }
    pub fn end(&self) { sym::check(self.p == self.b.len(), "the driver wrote more than the format asks for") }
}
