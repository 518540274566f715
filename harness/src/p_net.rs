//! Whole conversations with the reference server: C09 (cuts), C13 (errors), C15 (hygiene), C22 (timeouts, retries).
use crate::{model::*, net::*, sym};
use clickhouse_rs::errors::Error;
use clickhouse_rs::types::*;
use clickhouse_rs::{Block, ClientHandle, Pool};
use futures_util::StreamExt;

pub fn u16v(x: u16) -> V { V::Raw(x.to_le_bytes().to_vec()) }
/// the result of a query: columns of UInt16 and UInt8
pub fn cols(xs: &[(u16, u8)]) -> [Col; 2] {
    [Col { name: "a".into(), t: f("UInt16", 2), vs: xs.iter().map(|x| u16v(x.0)).collect() }, Col { name: "b".into(), t: f("UInt8", 1), vs: xs.iter().map(|x| V::Raw(vec![x.1])).collect() }]
}
pub fn rows(n: usize) -> Vec<(u16, u8)> { (0..n).map(|_| (sym::u16(), sym::u8())).collect() }
/// header, data, progress, data, profile info, end
pub fn result(rev: u64, xs: &[(u16, u8)]) -> Vec<u8> {
    let mut o = data(&cols(&[]));
    let k = xs.len() / 2;
    if k > 0 { o.extend(data(&cols(&xs[..k]))) }
    o.extend(progress(rev, [3, 300, 5, 1, 2]));
    o.extend(data(&cols(&xs[k..])));
    o.extend(profile([3, 2, 300, 0]));
    o.push(EOS);
    o
}
pub fn check_rows<K: ColumnType>(b: &Block<K>, xs: &[(u16, u8)]) {
    sym::check(b.column_count() == 2, "columns of a result");
    sym::check(b.row_count() == xs.len(), "rows of a result");
    for (i, x) in xs.iter().enumerate() {
        let a: u16 = sym::ok(b.get(i, "a"), "cell a");
        let c: u8 = sym::ok(b.get(i, 1), "cell b");
        sym::check(a == x.0 && c == x.1, "a result holds other rows than the server sent");
    }
}
/// a server without faults: the k-th query is answered with replies[k]; an insert gets `header` types and stores what comes
pub fn server(replies: Vec<Vec<u8>>) -> impl FnMut(usize, &Pkt, &mut Conn, u64) + Send + 'static {
    let mut k = 0;
    move |_, p, c, rev| match p {
        Pkt::Hello { .. } => c.inp.extend(hello(rev)),
        Pkt::Ping => c.inp.push(PONG),
        Pkt::Query(q) => {
            if q.sql.starts_with(b"INSERT") {
                c.types = vec![f("UInt16", 2), f("UInt8", 1)];
            }
            c.busy = true;
        }
        Pkt::Data(_, cs) => {
            if !c.busy { sym::fail("data without a query") }
            let insert = !c.types.is_empty();
            let n = c.pkts.len();
            let first = matches!(c.pkts[n - 2], Pkt::Query(_));
            if first {
                sym::check(cs.is_empty(), "external data");
                if insert { c.inp.extend(data(&cols(&[]))) } else { c.inp.extend_from_slice(&replies[k]); k += 1; c.busy = false }
            } else {
                sym::check(insert, "data without an insert");
                if cs.is_empty() { c.inp.push(EOS); c.busy = false; c.types.clear() }
            }
        }
        Pkt::Cancel => if c.busy { c.inp.push(EOS); c.busy = false },
    }
}
/// the rows stored by the inserts of a connection
pub fn stored(c: &Conn) -> Vec<(u16, u8)> {
    let mut r = vec![];
    for p in &c.pkts {
        if let Pkt::Data(_, cs) = p {
            if cs.is_empty() { continue }
            sym::check(cs[0].0 == b"a" && cs[1].0 == b"b" && cs[0].1.len() == cs[1].1.len(), "an insert's columns");
            for i in 0..cs[0].1.len() { let a = raw(&cs[0].1[i]); r.push((u16::from_le_bytes([a[0], a[1]]), raw(&cs[1].1[i])[0])) }
        }
    }
    r
}
pub fn block(xs: &[(u16, u8)]) -> Block { Block::new().column("a", xs.iter().map(|x| x.0).collect::<Vec<_>>()).column("b", xs.iter().map(|x| x.1).collect::<Vec<_>>()) }
pub const SQL: &str = "SELECT a, b FROM t";

/// 0 fetch_all, 1 stream_blocks, 2 stream, 3 execute, 4 insert, 5 ping
pub async fn op(c: &mut ClientHandle, kind: usize, xs: &[(u16, u8)]) -> Result<(), Error> {
    match kind {
        0 => { let b = c.query(SQL).fetch_all().await?; check_rows(&b, xs); }
        1 => {
            let mut s = c.query(SQL).stream_blocks();
            let mut n = 0;
            while let Some(b) = s.next().await { let b = b?; let m = b.row_count(); sym::check(n + m <= xs.len(), "more rows than sent"); check_rows(&b, &xs[n..n + m]); n += m; }
            sym::check(n == xs.len(), "fewer rows than sent");
        }
        2 => {
            let mut s = c.query(SQL).stream();
            let mut n = 0;
            while let Some(r) = s.next().await {
                let r = r?;
                sym::check(n < xs.len(), "more rows than sent");
                let a: u16 = sym::ok(r.get("a"), "cell a");
                let b: u8 = sym::ok(r.get(1), "cell b");
                sym::check(a == xs[n].0 && b == xs[n].1, "a row differs");
                n += 1;
            }
            sym::check(n == xs.len(), "fewer rows than sent");
        }
        3 => c.execute("CREATE TABLE t").await?,
        4 => c.insert("t", block(xs)).await?,
        _ => c.ping().await?,
    }
    Ok(())
}
const REV: u64 = 54429;
fn talk(kind: usize, opts: &str, n: usize, setup_conn: impl FnMut(usize, &mut Conn) -> bool + Send + 'static) {
    let xs = rows(n);
    setup(REV, server(vec![result(REV, &xs), result(REV, &xs)]));
    net(|n| n.on_connect = Some(Box::new(setup_conn)));
    let pool = Pool::new(url(opts));
    let r = run(async {
        let mut c = pool.get_handle().await?;
        op(&mut c, kind, &xs).await?;
        // and the connection is fit for another one
        op(&mut c, 0, &xs).await
    });
    match r {
        None => sym::fail("an operation hangs"),
        Some(Err(_)) => sym::fail("an operation fails although the server answers"),
        Some(Ok(())) => {}
    }
    net(|n| {
        sym::check(n.conns.len() == 1, "more than one connection");
        if kind == 4 { sym::check(stored(&n.conns[0]) == xs, "an insert stores other rows") }
        sym::check(n.conns[0].spos == n.conns[0].out.len(), "the client sends bytes which are no packet");
    });
    drop(pool);
}
const KINDS: [&str; 6] = ["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping"];
/// the server's bytes arrive in two or three pieces, wherever the cuts fall
pub fn c09_read_cuts() {
    let kind = sym::choose(6);
    let k = sym::choose(sym::param("cuts", 330));
    let d = [1, 1000][sym::choose(2)];
    talk(kind, "", 3, move |_, c| { c.rcuts = vec![k, k + d]; true });
    sym::reach(KINDS[kind]);
}
pub fn c09_read_bytes() {
    let kind = sym::choose(6);
    talk(kind, "", 3, |_, c| { c.by_byte = true; true });
    sym::reach(KINDS[kind]);
}
/// the socket takes the client's bytes in pieces, wherever the cuts fall
pub fn c09_write_cuts() {
    let kind = sym::choose(6);
    let k = sym::choose(sym::param("cuts", 330));
    let d = [1, 1000][sym::choose(2)];
    talk(kind, "", 3, move |_, c| { c.wcuts = vec![k, k + d]; true });
    sym::reach(KINDS[kind]);
}
