//! C11 (what the client sends) and C12 (how packets are understood), at every protocol revision.
use crate::{model::*, net::*, p_net, sym};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use clickhouse_rs::verif_hooks::{self as vh, PacketView};
use clickhouse_rs::{Options, Pool};
use futures_util::StreamExt;

const REVS: [u64; 14] = [0, 51553, 51554, 54057, 54058, 54059, 54060, 54371, 54372, 54400, 54401, 54419, 54420, 54429];
/// One field of a packet is arbitrary, a number of any size or a text; the others are fixed.
/// With `cut` the packet is cut at an arbitrary position.
struct F { at: usize, i: usize, cut: bool }
impl F {
    fn new(n: usize) -> Self { let at = sym::choose(n + 1); F { at: if at == n { usize::MAX } else { at }, i: 0, cut: at == n } }
    fn num(&mut self, o: &mut Vec<u8>) -> u64 {
        let x = if self.i == self.at { sym::u64() } else { 300 + self.i as u64 };
        self.i += 1;
        uv(o, x);
        x
    }
    fn text(&mut self, o: &mut Vec<u8>) -> Vec<u8> {
        let s = if self.i == self.at { sym::ascii([0, 1, 2, 127, 130][sym::choose(5)]).into_bytes() } else { [&b"abc"[..], b"", b"x"][self.i % 3].to_vec() };
        self.i += 1;
        st_(o, &s);
        s
    }
    fn rev(&self) -> u64 { if self.cut { [0, 54058, 54372, 54429][sym::choose(4)] } else if sym::choose(2) == 0 { REVS[sym::choose(14)] } else { sym::u64() } }
    /// the packet is understood, its bytes and no others are consumed, and a shorter one is no packet
    fn parse(&self, o: &[u8], rev: u64, tz: Option<Tz>) -> PacketView {
        let mut b = o.to_vec();
        b.push(sym::u8());
        let (p, used) = vh::decode_packet(&b, rev, tz, false);
        let p = sym::ok(p, "a valid packet is rejected");
        let exc = matches!(p, PacketView::Exception(_));
        // the flag for nested exceptions is not read: the connection is given up
        sym::check(used == o.len() || (exc && used + 1 == o.len()), "a packet consumes another number of bytes");
        if self.cut {
            let k = sym::choose(o.len() - exc as usize);
            sym::check(vh::decode_packet(&o[..k], rev, tz, false).0.is_err(), "a truncated packet is taken for a packet");
        }
        p
    }
}
pub fn c12_progress() {
    // every revision
    let mut o = vec![3];
    let mut n = F::new(5);
    let rev = n.rev();
    let mut want = [n.num(&mut o), n.num(&mut o), 0, 0, 0];
    if rev >= 51554 { want[2] = n.num(&mut o) }
    if rev >= 54420 { want[3] = n.num(&mut o); want[4] = n.num(&mut o) }
    match n.parse(&o, rev, Some(Tz::UTC)) { PacketView::Progress(p) => sym::check(p == want, "progress"), _ => sym::fail("progress is another packet") }
    sym::reach("packet");
}
pub fn c12_profile() {
    let mut o = vec![6];
    let mut n = F::new(4);
    let (a, b, c) = (n.num(&mut o), n.num(&mut o), n.num(&mut o));
    let l = sym::bool();
    o.push(l as u8);
    let d = n.num(&mut o);
    let m = sym::bool();
    o.push(m as u8);
    match n.parse(&o, 54429, Some(Tz::UTC)) {
        PacketView::ProfileInfo { rows, blocks, bytes, applied_limit, rows_before_limit, calculated_rows_before_limit } =>
            sym::check(rows == a && blocks == b && bytes == c && applied_limit == l && rows_before_limit == d && calculated_rows_before_limit == m, "profile info"),
        _ => sym::fail("profile info is another packet"),
    }
    sym::reach("packet");
}
pub fn c12_hello() {
    let mut o = vec![0];
    let mut n = F::new(5);
    let na = n.text(&mut o);
    let (ma, mi) = (n.num(&mut o), n.num(&mut o));
    let rev = n.rev();
    uv(&mut o, rev);
    let zones = [("UTC", Tz::UTC), ("Europe/Moscow", Tz::Europe__Moscow), ("America/Argentina/ComodRivadavia", Tz::America__Argentina__ComodRivadavia), ("Etc/GMT+12", Tz::Etc__GMTPlus12)];
    let z = if n.cut { 1 } else { sym::choose(4) };
    let mut tz = Tz::UTC;
    if rev >= 54058 { st_(&mut o, zones[z].0.as_bytes()); tz = zones[z].1 }
    let dn = if rev >= 54372 { n.text(&mut o) } else { vec![] };
    let pa = if rev >= 54401 { n.num(&mut o) } else { 0 };
    match n.parse(&o, 54429, None) {
        PacketView::Hello { name, major, minor, revision, timezone, display_name, patch } => {
            sym::check(name.as_bytes() == &na[..] && major == ma && minor == mi && revision == rev, "hello");
            sym::check(timezone == tz, "the server's time zone");
            sym::check(display_name.as_bytes() == &dn[..] && patch == pa, "hello: name or patch");
        }
        _ => sym::fail("hello is another packet"),
    }
    sym::reach("packet");
}
pub fn c12_exception() {
    let code = sym::u32();
    let mut o = vec![2];
    o.extend_from_slice(&code.to_le_bytes());
    let mut n = F::new(3);
    let (a, b, c) = (n.text(&mut o), n.text(&mut o), n.text(&mut o));
    o.push(0);
    match n.parse(&o, n.rev(), Some(Tz::UTC)) {
        PacketView::Exception(e) => sym::check(e.code == code && e.name.as_bytes() == &a[..] && e.message.as_bytes() == &b[..] && e.stack_trace.as_bytes() == &c[..], "an exception's content"),
        _ => sym::fail("an exception is another packet"),
    }
    sym::reach("packet");
}
pub fn c12_others() {
    let rev = REVS[sym::choose(14)];
    match sym::choose(4) {
        0 => sym::check(matches!(vh::decode_packet(&[4, sym::u8()], rev, None, false), (Ok(PacketView::Pong), 1)), "pong"),
        1 => sym::check(matches!(vh::decode_packet(&[5, sym::u8()], rev, None, false), (Ok(PacketView::Eof), 1)), "end of stream"),
        2 => {
            let mut o = vec![11];
            let mut n = F::new(2);
            let (a, b) = (n.text(&mut o), n.text(&mut o));
            match n.parse(&o, rev, None) { PacketView::TableColumns(x, y) => sym::check(x.as_bytes() == &a[..] && y.as_bytes() == &b[..], "table columns"), _ => sym::fail("table columns are another packet") }
        }
        _ => {
            let kind = [1u8, 7, 8][sym::choose(3)];
            let mut o = vec![kind];
            let mut n = F::new(1);
            let _ = n.text(&mut o);
            let xs = p_net::rows(sym::choose(3));
            o.extend(enc_block(&p_net::cols(&xs)));
            match n.parse(&o, rev, Some(Tz::UTC)) { PacketView::Block(b) => p_net::check_rows(&b, &xs), _ => sym::fail("data is another packet") }
            sym::check(vh::decode_packet(&o, rev, None, false).0.is_err(), "data before hello");
        }
    }
    sym::reach("packet");
}
/// any other kind of packet is an error
pub fn c12_unknown() {
    let k = sym::u64();
    sym::assume(k > 11 || k == 9 || k == 10);
    let mut o = vec![];
    uv(&mut o, k);
    o.extend(sym::vec(sym::choose(3)));
    sym::check(vh::decode_packet(&o, 54429, Some(Tz::UTC), false).0.is_err(), "an unknown packet is understood");
    sym::reach("rejected");
}

struct Conf { user: String, pass: String, db: String, name: &'static str, val: usize, s: String, u: u64, important: bool, id: String, sql: String, compress: bool }
/// every field of every request
pub fn c11_requests() {
    let rev = REVS[sym::choose(14)];
    let kind = sym::choose(7);
    // one of the texts is arbitrary
    let at = sym::choose(6);
    let t = |i: usize, d: &str| if i == at { sym::ascii([0, 2, 130][sym::choose(3)]) } else { d.to_string() };
    let c = Conf { user: t(0, "u"), pass: t(1, ""), db: t(2, "default"), name: "max_threads", val: if at == 3 { 1 } else { sym::choose(6) }, s: t(3, "v"), u: sym::u64(), important: sym::bool(), id: t(4, ""), sql: format!("SELECT {}", t(5, "1")), compress: sym::choose(2) == 1 };
    if c.val != 3 { sym::assume(c.u == 7) }
    let mut o = Options::new(url::Url::parse("tcp://127.0.0.1:9000").unwrap()).username(&c.user).password(&c.pass).database(&c.db).ping_before_query(kind == 5 || (at + c.val) % 2 == 0);
    if c.compress { o = o.with_compression() }
    let b = c.u & 1 != 0;
    // the value as text, and in the old format
    let (want, old): (Vec<u8>, Vec<u8>) = {
        let mut old = vec![];
        let s = |x: &str, old: &mut Vec<u8>| { st_(old, x.as_bytes()); x.as_bytes().to_vec() };
        match c.val {
            0 => (vec![], vec![]),
            1 => { o = o.with_setting(c.name, c.s.as_str(), c.important); (s(&c.s, &mut old), old) }
            2 => { o = o.with_setting(c.name, b, c.important); uv(&mut old, b as u64); (if b { b"true".to_vec() } else { b"false".to_vec() }, old) }
            3 => { let x = [0, 1, 127, 128, 1 << 20, u64::MAX][sym::choose(6)]; sym::assume(c.u == x); o = o.with_setting(c.name, x, c.important); uv(&mut old, x); (x.to_string().into_bytes(), old) }
            4 => { let x = [0i64, 5, 300, i64::MAX][sym::choose(4)]; if x < 1000 && sym::choose(2) == 0 { o = o.with_setting(c.name, x as i32, c.important) } else { o = o.with_setting(c.name, x, c.important) } uv(&mut old, x as u64); (x.to_string().into_bytes(), old) }
            _ => { let x = [0.5f64, -2.25, 1e9][sym::choose(3)]; let y = ["0.5", "-2.25", "1000000000"][[0.5, -2.25, 1e9].iter().position(|y| *y == x).unwrap()]; o = o.with_setting(c.name, x, c.important); (s(y, &mut old), old) }
        }
    };
    set_compress(c.compress);
    set_old(if c.val == 1 || c.val == 5 { Some(true) } else { Some(false) });
    let xs = p_net::rows(if kind == 4 { 1 } else { 0 });
    let ans = p_net::result(rev, &[]);
    setup(rev, p_net::server(vec![ans]));
    let pool = Pool::new(o.clone());
    let r = run(async {
        let mut h = pool.get_handle().await?;
        let q = Query::new(&c.sql).id(&c.id);
        match kind {
            0 => { h.query(q).fetch_all().await?; }
            1 => { let mut s = h.query(q).stream_blocks(); while let Some(b) = s.next().await { b?; } }
            2 => { let mut s = h.query(q).stream(); while let Some(b) = s.next().await { b?; } }
            3 => h.execute(q).await?,
            4 => h.insert(Query::new("t").id(&c.id), p_net::block(&xs)).await?,
            5 => h.ping().await?,
            _ => {}
        }
        Ok::<(), clickhouse_rs::errors::Error>(())
    });
    sym::check(matches!(r, Some(Ok(()))), "a request fails");
    net(|n| {
        let ps = &n.conns[0].pkts;
        sym::check(n.conns.len() == 1 && n.conns[0].spos == n.conns[0].out.len(), "the client sends bytes which are no packet");
        match &ps[0] {
            Pkt::Hello { name, ver, db, user, pass } => {
                sym::check(!name.is_empty() && ver[2] == 54429, "the client's name or revision");
                sym::check(db == c.db.as_bytes() && user == c.user.as_bytes() && pass == c.pass.as_bytes(), "database, user and password");
            }
            _ => sym::fail("the first packet is no hello"),
        }
        let mut i = 1;
        while i < ps.len() && ps[i] == Pkt::Ping { i += 1 }
        if kind >= 5 { sym::check(i == ps.len() && (kind == 6 || i > 1), "ping"); return }
        sym::check(ps.len() == i + if kind == 4 { 4 } else { 2 }, "number of packets of a request");
        match &ps[i] {
            Pkt::Query(q) => {
                let sql = if kind == 4 { b"INSERT INTO t (a, b) VALUES".to_vec() } else { c.sql.clone().into_bytes() };
                if kind == 4 { sym::check(norm(&q.sql) == norm(&sql), "the statement of an insert") } else { sym::check(q.sql == sql, "the statement") }
                sym::check(q.id == c.id.as_bytes() || q.iid == c.id.as_bytes(), "query id");
                sym::check(q.kind == 1 && q.iface == 1 && q.stage == 2, "query kind, interface or stage");
                sym::check(q.compress == c.compress as u64, "compression flag");
                sym::check(q.ver[2] == 54429, "the client's revision in a query");
                if c.val == 0 { sym::check(q.settings.is_empty(), "settings from nowhere") } else {
                    sym::check(q.settings.len() == 1 && q.settings[0].0 == c.name.as_bytes(), "the name of a setting");
                    let (_, imp, v) = &q.settings[0];
                    if rev >= 54429 { let x = String::from_utf8_lossy(&want).into_owned(); sym::check(*imp == c.important as u8, "the importance of a setting"); sym::check(v == &want || (c.val == 2 && v == (if x == "true" { b"1" } else { b"0" })), "the value of a setting") }
                    else { sym::check(v == &old, "the value of a setting (old format)") }
                }
            }
            _ => sym::fail("no query"),
        }
        sym::check(matches!(&ps[i + 1], Pkt::Data(t, cs) if t.is_empty() && cs.is_empty()), "the empty block behind a query");
        if kind == 4 { sym::check(matches!(&ps[i + 3], Pkt::Data(t, cs) if t.is_empty() && cs.is_empty()), "the empty block behind an insert"); sym::check(p_net::stored(&n.conns[0]) == xs, "an insert's rows") }
    });
    sym::reach(["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping", "hello"][kind]);
}
fn norm(b: &[u8]) -> Vec<u8> { b.iter().filter(|c| **c != b' ' && **c != b'`' && **c != b'"').copied().collect() }
/// several settings: each arrives once
pub fn c11_settings() {
    let rev = [54428, 54429][sym::choose(2)];
    let n = sym::choose(4);
    let names = ["a", "max_block_size", "z"];
    let mut o = Options::new(url::Url::parse("tcp://127.0.0.1:9000").unwrap());
    let vals: Vec<String> = (0..n).map(|_| sym::ascii(1)).collect();
    for i in 0..n { o = o.with_setting(names[i], vals[i].as_str(), i == 1) }
    set_old(Some(true));
    setup(rev, p_net::server(vec![p_net::result(rev, &[])]));
    let pool = Pool::new(o);
    let r = run(async { let mut h = pool.get_handle().await?; h.query("SELECT 1").fetch_all().await });
    sym::check(matches!(r, Some(Ok(_))), "a request fails");
    net(|net| {
        for p in &net.conns[0].pkts {
            if let Pkt::Query(q) = p {
                sym::check(q.settings.len() == n, "number of settings");
                for i in 0..n {
                    let mut w = vec![];
                    st_(&mut w, vals[i].as_bytes());
                    let w = if rev >= 54429 { vals[i].as_bytes().to_vec() } else { w };
                    sym::check(q.settings.iter().any(|s| s.0 == names[i].as_bytes() && s.2 == w && (rev < 54429 || s.1 == (i == 1) as u8)), "a setting is not sent");
                }
            }
        }
    });
    sym::reach("settings");
}
/// negative numbers
pub fn c11_negative() {
    let x = [-1i64, i64::MIN, -300][sym::choose(3)];
    let o = Options::new(url::Url::parse("tcp://127.0.0.1:9000").unwrap()).with_setting("s", x, true);
    set_old(Some(false));
    setup(54429, p_net::server(vec![p_net::result(54429, &[])]));
    let pool = Pool::new(o);
    let r = run(async { let mut h = pool.get_handle().await?; h.query("SELECT 1").fetch_all().await });
    sym::check(matches!(r, Some(Ok(_))), "a request fails");
    sym::reach("setting");
    net(|n| for p in &n.conns[0].pkts { if let Pkt::Query(q) = p { sym::check(q.settings[0].2 == x.to_string().as_bytes(), "a negative setting is sent as another number") } });
}
