//! C10: compressed blocks.
use crate::{model::*, net::*, p_city, p_net, p_read, sym, wire};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use clickhouse_rs::verif_hooks as vh;
use clickhouse_rs::{Block, Pool};

/// the LZ4 block format: literals only
pub fn literals(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let n = d.len();
    if n < 15 { o.push((n << 4) as u8) } else { o.push(0xf0); let mut r = n - 15; while r >= 255 { o.push(255); r -= 255 } o.push(r as u8) }
    o.extend_from_slice(d);
    o
}
/// reference decoder; None: not the LZ4 block format
pub fn unlz4(s: &[u8]) -> Option<Vec<u8>> {
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    loop {
        let t = *s.get(i)? as usize;
        i += 1;
        let mut l = t >> 4;
        if l == 15 { loop { let b = *s.get(i)? as usize; i += 1; l += b; if b != 255 { break } } }
        if l > s.len() - i { return None }
        o.extend_from_slice(&s[i..i + l]);
        i += l;
        if i == s.len() { return Some(o) }
        if s.len() - i < 2 { return None }
        let off = s[i] as usize | (s[i + 1] as usize) << 8;
        i += 2;
        if off == 0 || off > o.len() { return None }
        let mut m = t & 15;
        if m == 15 { loop { let b = *s.get(i)? as usize; i += 1; m += b; if b != 255 { break } } }
        for _ in 0..m + 4 { o.push(o[o.len() - off]) }
    }
}
fn hash(b: &[u8]) -> (u64, u64) { let h = clickhouse_rs_cityhash_sys::city_hash_128(b); (h.lo, h.hi) }
/// a frame with any header
pub fn raw_frame(method: u8, size: u32, orig: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![method];
    b.extend_from_slice(&size.to_le_bytes());
    b.extend_from_slice(&orig.to_le_bytes());
    b.extend_from_slice(payload);
    let (lo, hi) = hash(&b);
    let mut o = vec![];
    o.extend_from_slice(&lo.to_le_bytes());
    o.extend_from_slice(&hi.to_le_bytes());
    o.extend(b);
    o
}
pub fn frame(d: &[u8]) -> Vec<u8> { let p = literals(d); raw_frame(0x82, p.len() as u32 + 9, d.len() as u32, &p) }
/// the content of the frame at the front of `b`, and its length; None: incomplete
pub fn unframe(b: &[u8], h: impl Fn(&[u8]) -> (u64, u64)) -> Option<(Vec<u8>, usize)> {
    if b.len() < 25 { return None }
    let u = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let n = u(17);
    sym::check(b[16] == 0x82, "compression method of a frame");
    sym::check(n >= 9 && n < 1 << 30, "size of a frame");
    if b.len() < 16 + n { return None }
    let (lo, hi) = h(&b[16..16 + n]);
    sym::check(b[..8] == lo.to_le_bytes() && b[8..16] == hi.to_le_bytes(), "checksum of a frame");
    let d = sym::some(unlz4(&b[25..16 + n]), "content of a frame");
    sym::check(d.len() == u(21), "original size of a frame");
    Some((d, 16 + n))
}
fn some_block(rows: usize) -> [Col; 2] {
    let ts = [f("UInt16", 2), st(), null(f("UInt8", 1)), arr(st()), T::FStr(3), lc(st(), 1), f2("Decimal(9, 4)", "Decimal(9, 4)", 4), map(f("UInt8", 1), f("UInt8", 1))];
    let t = ts[sym::choose(ts.len())].clone();
    let n = sym::range(0, rows);
    sym::shapes(4);
    [Col::any("x", &t, n), Col::any("n", &f("UInt8", 1), n)]
}
const TZ: Tz = Tz::UTC;
fn load(b: &[u8]) -> Block { sym::ok(vh::decode_block(b, TZ, false).0, "a valid block is rejected") }
fn check_frames(b: &Block, h: impl Fn(&[u8]) -> (u64, u64)) {
    let plain = vh::encode_block(b, false);
    let c = vh::encode_block(b, true);
    let mut at = 0;
    let mut got = vec![];
    while at < c.len() {
        let (d, n) = sym::some(unframe(&c[at..], &h), "an incomplete frame is written");
        got.extend(d);
        at += n;
    }
    sym::check(got == plain, "the frames hold another block");
}
/// what the driver writes (LZ4 replaced by an encoder of literals)
pub fn c10_write() {
    check_frames(&load(&enc_block(&some_block(2))), hash);
    sym::reach("frames");
}
/// the same with the real LZ4, fixed blocks
pub fn c10_write_lz4() {
    let n = [0, 1, 3, 40, 500, 5000][sym::choose(6)];
    let kind = sym::choose(3);
    let mut x = 12345u32;
    let v: Vec<u32> = (0..n).map(|i| match kind { 0 => 7, 1 => i as u32 / 3, _ => { x = x.wrapping_mul(1664525).wrapping_add(1013904223); x } }).collect();
    let b = Block::new().column("v", v.clone()).column("s", v.iter().map(|x| format!("{}", x % 1000)).collect::<Vec<_>>());
    check_frames(&b, p_city::city128);
    let c = vh::encode_block(&b, true);
    let (r, used) = vh::decode_block(&c, TZ, true);
    let r = sym::ok(r, "a compressed block cannot be read back");
    sym::check(used == c.len() && r.row_count() == n, "a compressed block is read back as another");
    for i in (0..n).step_by(if n > 100 { 331 } else { 1 }) {
        let a: u32 = sym::ok(r.get(i, "v"), "cell");
        let s: &str = sym::ok(r.get(i, "s"), "cell");
        sym::check(a == v[i] && s == format!("{}", v[i] % 1000), "a cell differs behind compression");
    }
    sym::reach("frames");
}
/// blocks in one frame, or cut into frames anywhere
pub fn c10_read() {
    let cs = some_block(sym::param("rows", 2));
    let b = enc_block(&cs);
    let i = sym::choose(b.len() + 1);
    let d = [0, 1, 7][sym::choose(3)];
    let j = (i + d).min(b.len());
    let mut c = vec![];
    for p in [&b[..i], &b[i..j], &b[j..]] { if !p.is_empty() { c.extend(frame(p)) } }
    let n = c.len();
    c.push(sym::u8());
    let (r, used) = vh::decode_block(&c, TZ, true);
    sym::check(used == n, "a compressed block consumes another number of bytes");
    check_block(&sym::ok(r, "a valid compressed block is rejected"), &cs, TZ);
    sym::reach("frames");
}
/// frames with matches, through the real decompressor
pub fn c10_read_lz4() {
    let n = [4usize, 20, 60][sym::choose(3)];
    let m = [1usize, 2, 5][sym::choose(3)];
    // n rows of a UInt8 column which repeat the first m: literals, one match, literals
    let first = sym::vec(m);
    let last = sym::vec(5);
    let mut vs: Vec<u8> = (0..n.max(m)).map(|i| first[i % m]).collect();
    vs.extend(&last);
    let cs = [Col { name: "v".into(), t: f("UInt8", 1), vs: vs.iter().map(|x| V::Raw(vec![*x])).collect() }];
    let b = enc_block(&cs);
    let head = b.len() - vs.len() + m;
    let mut p = vec![];
    let len = n.max(m) - m;
    if len < 4 { p = literals(&b) } else {
        sym::check(head >= 15, "reference: head");
        p.push(0xf0 | (len - 4).min(15) as u8);
        p.push((head - 15) as u8);
        p.extend_from_slice(&b[..head]);
        p.push(m as u8);
        p.push(0);
        if len - 4 >= 15 { p.push((len - 4 - 15) as u8) }
        p.push(5 << 4);
        p.extend_from_slice(&last);
    }
    sym::check(unlz4(&p).map_or(false, |d| d == b), "reference: frame");
    let c = raw_frame(0x82, p.len() as u32 + 9, b.len() as u32, &p);
    let (r, used) = vh::decode_block(&c, TZ, true);
    sym::check(used == c.len(), "a compressed block consumes another number of bytes");
    check_block(&sym::ok(r, "a valid compressed block is rejected"), &cs, TZ);
    sym::reach("frames");
}
/// a frame with one byte changed, or cut short, is no block
pub fn c10_corrupt() {
    let xs = p_net::rows(sym::choose(3));
    let b = enc_block(&p_net::cols(&xs));
    let k = sym::choose(3) * 20;
    let mut c = if k == 0 || k >= b.len() { frame(&b) } else { let mut c = frame(&b[..k]); c.extend(frame(&b[k..])); c };
    let d = sym::u8();
    sym::assume(d != 0);
    let i = sym::choose(c.len());
    if sym::choose(2) == 0 {
        c[i] ^= d;
        // whatever follows on the stream
        c.extend(sym::vec(sym::param("more", 4)));
        sym::check(vh::decode_block(&c, TZ, true).0.is_err(), "a corrupted block is accepted");
        sym::reach("corrupted");
    } else {
        c.truncate(i);
        sym::check(vh::decode_block(&c, TZ, true).0.is_err(), "a truncated block is accepted");
        sym::reach("truncated");
    }
}
/// frames with a right checksum and anything else wrong
pub fn c10_fields() {
    let b = enc_block(&p_net::cols(&p_net::rows(1)));
    let p = literals(&b);
    let (mut m, mut size, mut orig) = (0x82u8, p.len() as u32 + 9, b.len() as u32);
    match sym::choose(3) {
        0 => { m = sym::u8(); sym::assume(m != 0x82) }
        1 => { size = sym::u32(); sym::assume(size != p.len() as u32 + 9); sym::assume(size <= p.len() as u32 + 30 || size > 0x4000_0000) }
        _ => { orig = sym::u32(); sym::assume(orig != b.len() as u32); sym::assume(orig < 300 || orig > 0x4000_0000) }
    }
    let c = raw_frame(m, size, orig, &p);
    sym::check(vh::decode_block(&c, TZ, true).0.is_err(), "a frame with a wrong header is accepted");
    sym::reach("rejected");
}
/// any payload behind a right checksum: the real decompressor
pub fn c10_payload() {
    let n = sym::choose(sym::param("len", 6));
    let mut p = sym::vec(n);
    // tokens, offsets and lengths from a small set
    for x in &mut p { let k = sym::u8(); sym::assume(*x & 0x0e == 0 && *x < 0x60 || *x >= 0xfe); let _ = k; }
    let orig = [0u32, 1, 4, 9, 20, 300][sym::choose(6)];
    let c = raw_frame(0x82, n as u32 + 9, orig, &p);
    let want = unlz4(&p);
    match vh::decode_block(&c, TZ, true).0 {
        Ok(_) => { sym::check(want.map_or(false, |d| d.len() == orig as usize), "a malformed frame is accepted"); sym::reach("block") }
        Err(_) => sym::reach("rejected"),
    }
}
/// conversations with compression on
pub fn c10_session() {
    let kind = sym::choose(6);
    let by_byte = sym::choose(2) == 1;
    let xs = p_net::rows(3);
    set_compress(true);
    let ans = p_net::result(54429, &xs);
    setup(54429, p_net::server(vec![ans.clone(), ans]));
    net(|n| n.on_connect = Some(Box::new(move |_, c| { c.by_byte = by_byte; true })));
    let pool = Pool::new(url("compression=lz4"));
    let r = run(async {
        let mut c = pool.get_handle().await?;
        p_net::op(&mut c, kind, &xs).await?;
        p_net::op(&mut c, 0, &xs).await
    });
    sym::check(matches!(r, Some(Ok(()))), "an operation with compression fails");
    net(|n| {
        if kind == 4 { sym::check(p_net::stored(&n.conns[0]) == xs, "an insert stores other rows") }
        for p in &n.conns[0].pkts { if let Pkt::Query(q) = p { sym::check(q.compress == 1, "a query does not ask for compression") } }
        sym::check(n.conns[0].spos == n.conns[0].out.len(), "the client sends bytes which are no packet");
    });
    sym::reach(["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping"][kind]);
}
/// a corrupted block in an answer is an error of the operation, and the connection is given up
pub fn c10_session_corrupt() {
    let kind = sym::choose(3);
    let xs = p_net::rows(2);
    set_compress(true);
    let mut ans = data(&p_net::cols(&[]));
    let at = ans.len() + 2;
    ans.extend(data(&p_net::cols(&xs)));
    let end = ans.len();
    ans.push(EOS);
    let i = at + sym::choose(end - at);
    let d = sym::u8();
    sym::assume(d != 0);
    // a changed size can ask for more bytes than come
    let size = i >= at + 17 && i < at + 21;
    let good = p_net::result(54429, &xs);
    let mut bad = ans.clone();
    bad[i] ^= d;
    setup(54429, p_net::server(vec![bad, good]));
    let pool = Pool::new(url("compression=lz4&query_timeout=1s"));
    let r = run(async {
        let mut c = pool.get_handle().await?;
        let r = p_net::op(&mut c, kind, &xs).await;
        drop(c);
        if r.is_ok() { sym::fail("a corrupted answer is accepted") }
        let mut c = pool.get_handle().await?;
        p_net::op(&mut c, 0, &xs).await
    });
    match r { None => sym::check(size && kind > 0, "an operation hangs"), Some(Err(_)) => sym::fail("the next operation fails"), Some(Ok(())) => {} }
    sym::reach(if size { "size" } else { "error" });
}
