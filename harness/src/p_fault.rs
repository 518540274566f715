//! Faults of the conversation: C13 (errors surface), C15 (a connection is never reused in a dirty state), C22 (timeouts and retries).
use crate::{model::*, net::*, p_net::*, sym};
use clickhouse_rs::errors::Error;
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::StreamExt;
use std::time::Duration;

const REV: u64 = 54429;
/// what is sent in place of the k-th step of a conversation; None: as usual
#[derive(Clone)]
pub struct Plan {
    /// the packets which answer the query (a stream of results, or the header of an insert, ...)
    pub pkts: Vec<Vec<u8>>,
    /// how many of them are sent before the client says something
    pub first: usize,
    /// upon a cancellation: Some(n): n of the packets that are left, and then the end of the stream
    pub cancel: usize,
    pub close: bool,
}
pub fn plan(pkts: Vec<Vec<u8>>) -> Plan { let n = pkts.len(); Plan { pkts, first: n, cancel: 0, close: false } }
pub fn packets(rev: u64, xs: &[(u16, u8)]) -> Vec<Vec<u8>> {
    let k = xs.len() / 2;
    let mut r = vec![data(&cols(&[]))];
    if k > 0 { r.push(data(&cols(&xs[..k]))) }
    r.push(progress(rev, [3, 300, 5, 1, 2]));
    if xs.len() > k { r.push(data(&cols(&xs[k..]))) }
    r.push(profile([3, 2, 300, 0]));
    r.push(vec![EOS]);
    r
}
/// answers the q-th query (over all connections) by its plan; inserts with the usual exchange unless a plan says otherwise
pub fn planned(plans: Vec<Plan>, pong: Vec<Option<Vec<u8>>>, hello_: Vec<Option<Vec<u8>>>, dflt: &[(u16, u8)]) -> impl FnMut(usize, &Pkt, &mut Conn, u64) + Send + 'static {
    let (mut q, mut np, mut nh) = (0, 0, 0);
    // packets that are left of the running query, per connection
    let mut left: Vec<(usize, Vec<Vec<u8>>, usize)> = vec![];
    // queries beyond the plans get these rows
    let dflt = packets(REV, dflt);
    move |i, p, c, rev| match p {
        Pkt::Hello { .. } => {
            nh += 1;
            match hello_.get(nh - 1) { Some(Some(b)) => { c.inp.extend_from_slice(b); c.eof = true } _ => c.inp.extend(hello(rev)) }
        }
        Pkt::Ping => {
            np += 1;
            if c.busy { sym::fail("a ping while a query is running") }
            match pong.get(np - 1) { Some(Some(b)) => c.inp.extend_from_slice(b), _ => c.inp.push(PONG) }
        }
        Pkt::Query(s) => {
            if c.busy { sym::fail("a query while another one is running") }
            if s.sql.starts_with(b"INSERT") { c.types = vec![f("UInt16", 2), f("UInt8", 1)]; }
            c.busy = true;
        }
        Pkt::Data(_, cs) => {
            if !c.busy { return }
            let n = c.pkts.len();
            let first = matches!(c.pkts[n - 2], Pkt::Query(_));
            let insert = !c.types.is_empty();
            if first {
                let usual;
                let pl = match plans.get(q) { Some(p) => p, None => { usual = if insert { Plan { first: 1, ..plan(vec![data(&cols(&[])), vec![EOS]]) } } else { plan(dflt.clone()) }; &usual } };
                q += 1;
                for b in &pl.pkts[..pl.first] { c.inp.extend_from_slice(b) }
                if pl.first < pl.pkts.len() { left.push((i, pl.pkts[pl.first..].to_vec(), pl.cancel)) } else if !insert { c.busy = false }
                if pl.close { c.eof = true }
            } else if cs.is_empty() {
                // the end of an insert's data
                match left.iter().position(|l| l.0 == i) { Some(k) => { for b in &left.remove(k).1 { c.inp.extend_from_slice(b) } } None => c.inp.push(EOS) }
                c.busy = false;
                c.types.clear();
            }
        }
        Pkt::Cancel => if c.busy {
            if let Some(k) = left.iter().position(|l| l.0 == i) {
                let (_, l, n) = left.remove(k);
                for b in &l[..n.min(l.len() - 1)] { c.inp.extend_from_slice(b) }
            }
            c.inp.push(EOS);
            c.busy = false;
            c.types.clear();
        },
    }
}
/// like op, but rows which arrive before an error are checked against a prefix
async fn upto(c: &mut ClientHandle, kind: usize, xs: &[(u16, u8)]) -> (usize, Result<(), Error>) {
    match kind {
        1 => {
            let mut s = c.query(SQL).stream_blocks();
            let mut n = 0;
            while let Some(b) = s.next().await {
                match b { Ok(b) => { let m = b.row_count(); sym::check(n + m <= xs.len(), "more rows than sent"); check_rows(&b, &xs[n..n + m]); n += m } Err(e) => return (n, Err(e)) }
            }
            (n, Ok(()))
        }
        2 => {
            let mut s = c.query(SQL).stream();
            let mut n = 0;
            while let Some(r) = s.next().await {
                match r {
                    Ok(r) => { sym::check(n < xs.len(), "more rows than sent"); let a: u16 = sym::ok(r.get("a"), "cell"); sym::check(a == xs[n].0, "a row differs"); n += 1 }
                    Err(e) => return (n, Err(e)),
                }
            }
            (n, Ok(()))
        }
        _ => { let r = op(c, kind, xs).await; (if r.is_ok() { xs.len() } else { 0 }, r) }
    }
}
fn any_exc() -> Exc { Exc { code: u32::from_le_bytes(sym::bytes()), name: sym::ascii(sym::choose(2)), msg: sym::ascii(sym::choose(3)), trace: sym::ascii(sym::choose(2)) } }
fn is_exc(r: &Result<(), Error>, e: &Exc) {
    match r {
        Err(Error::Server(s)) => sym::check(s.code == e.code && s.name == e.name && s.message == e.msg && s.stack_trace == e.trace, "a server error reaches the user changed"),
        Err(_) => sym::fail("a server error is reported as another error"),
        Ok(()) => sym::fail("a server error is swallowed"),
    }
}
const OPS: [&str; 6] = ["fetch_all", "stream_blocks", "stream", "execute", "insert", "ping"];

/// an exception at every step of an operation, the connection closed behind it or not
pub fn c13_exception() {
    let kind = sym::choose(6);
    let (xs, ys) = (rows(3), rows(2));
    let e = any_exc();
    let ex = exception(&[Exc { code: e.code, name: e.name.clone(), msg: e.msg.clone(), trace: e.trace.clone() }]);
    let mut ps = if kind == 4 { vec![data(&cols(&[])), vec![EOS]] } else { packets(REV, &xs) };
    // an insert of three rows goes out in two blocks: the exception may come upon the second one
    let second = kind == 4 && sym::bool();
    let at = if kind == 5 { 0 } else { sym::choose(ps.len()) };
    let before = if kind == 4 { 0 } else if at >= 4 { 3 } else if at >= 2 { 1 } else { 0 };
    ps.truncate(at);
    ps.push(ex.clone());
    let close = sym::bool();
    let ping = sym::bool();
    let mut p = plan(ps);
    p.close = close;
    if kind == 4 && at > 0 { p.first = 1; p.close = false }
    let pongs = if kind == 5 { vec![Some(ex)] } else { vec![] };
    setup(REV, planned(if kind == 5 { vec![] } else if second { vec![Plan { first: 1, ..plan(vec![data(&cols(&[])), vec![EOS]]) }, p] } else { vec![p] }, pongs, vec![], &ys));
    let pool = Pool::new(url(if ping && kind != 5 { "" } else { "ping_before_query=false" }));
    let done = run(async {
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        let (n, r) = upto(&mut c, kind, &xs).await;
        is_exc(&r, &e);
        if kind == 1 || kind == 2 { sym::check(n == before, "the rows in front of an error are lost") }
        // the same handle: a fresh connection, or an error; never the old conversation
        match op(&mut c, 0, &ys).await {
            Ok(()) => sym::reach("reused"),
            Err(Error::Server(_)) => sym::fail("an old server error comes again"),
            Err(_) => { sym::check(!(ping && kind != 5), "a handle does not recover from a server error"); sym::reach("refused") }
        }
        drop(c);
    });
    sym::check(done.is_some(), "an operation hangs");
    sym::reach(OPS[kind]);
}
/// an exception instead of the server's hello
pub fn c13_hello() {
    let e = any_exc();
    let ex = exception(&[Exc { code: e.code, name: e.name.clone(), msg: e.msg.clone(), trace: e.trace.clone() }]);
    setup(REV, planned(vec![], vec![], vec![Some(ex)], &[]));
    let pool = Pool::new(url(""));
    let done = run(async {
        match pool.get_handle().await { Ok(_) => sym::fail("a refused login is taken for a connection"), Err(x) => is_exc(&Err(x), &e) }
        let mut c = sym::ok(pool.get_handle().await, "the pool is unusable after a refused login");
        sym::ok(op(&mut c, 3, &[]).await, "execute");
    });
    sym::check(done.is_some(), "an operation hangs");
    sym::reach("hello");
}
/// the server's stream ends, or breaks, at every offset of the first connection
pub fn c13_eof() {
    let kind = sym::choose(6);
    let err = sym::bool();
    let k = sym::choose(sym::param("cuts", 300));
    let (xs, ys) = (rows(3), rows(2));
    let first = if kind == 4 { vec![data(&cols(&[])), vec![EOS]] } else { packets(REV, &xs) };
    let reply: usize = first.iter().map(|b| b.len()).sum();
    let mut p = plan(first);
    if kind == 4 { p.first = 1 }
    // hello, the pong of the operation (ping_before_query is off), the reply; an insert sends blocks of two rows
    let h = hello(REV).len();
    let need = h + if kind == 5 { 1 } else if kind == 4 { 2 * reply } else { reply };
    // a reset may take the data in front of it along
    if k > need || err && (k == h || k == need) { sym::assume(false) }
    // a query which is asked again gets the second plan
    setup(REV, planned(vec![p], vec![], vec![], &ys));
    net(|n| n.on_connect = Some(Box::new(move |i, c| { if i == 0 { c.cut = Some((k, err)) } true })));
    let pool = Pool::new(url("ping_before_query=false"));
    let done = run(async {
        let r = pool.get_handle().await;
        let mut c = match r {
            Ok(c) => { sym::check(k >= h, "a connection without the server's whole hello"); c }
            Err(_) => { sym::check(k < h, "a complete hello is not accepted"); sym::reach("no hello"); return }
        };
        let (_, r) = upto(&mut c, kind, &xs).await;
        match r {
            Ok(()) => { sym::check(k >= need, "an answer that breaks off is taken for a complete one"); sym::reach("complete") }
            Err(Error::Server(_)) => sym::fail("a server error out of nothing"),
            Err(_) => { sym::check(k < need, "a complete answer is reported as an error"); sym::reach("broken") }
        }
        // with the connection check the handle recovers by itself
        sym::check(c.check_connection().await.is_ok(), "the connection check does not recover");
        if kind == 5 { sym::ok(op(&mut c, 5, &ys).await, "ping after recovery") }
    });
    sym::check(done.is_some(), "an operation hangs");
    net(|n| sym::check(n.conns.len() <= 2, "more connections than needed"));
    sym::reach(OPS[kind]);
}
/// the same with the check before each query: it recovers from whatever happened before
pub fn c13_eof_check() {
    let kind = sym::choose(5);
    let err = sym::bool();
    let xs = rows(3);
    let h = hello(REV).len();
    // right behind the hello, behind the first pong, and two bytes later
    let k = h + [0, 1, 3][sym::choose(3)];
    if err && k == h { sym::assume(false) }
    setup(REV, planned(vec![], vec![], vec![], &xs));
    net(|n| n.on_connect = Some(Box::new(move |i, c| { if i == 0 { c.cut = Some((k, err)) } true })));
    let pool = Pool::new(url(""));
    let done = run(async {
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        let r = op(&mut c, kind, &xs).await;
        if k == h { sym::check(r.is_ok(), "an operation on a connection that broke before it") }
        sym::ok(op(&mut c, 0, &xs).await, "a handle does not recover from a broken connection");
    });
    sym::check(done.is_some(), "an operation hangs");
    net(|n| sym::check(n.conns.len() == 2, "number of connections"));
    sym::reach(OPS[kind]);
}

/// what ends the first operation early
const ENDS: [&str; 5] = ["dropped", "stalled", "garbage", "exception", "unpolled"];
/// C15: after whatever end, the next operation sees its own answer or an error
pub fn c15_dirty() {
    let end = sym::choose(5);
    let ping = sym::bool();
    // the next operation: on the same handle, or on another one of the pool
    let same = sym::bool();
    let kind = [0, 1, 2][sym::choose(3)];
    let next = sym::choose(6);
    let (xs, ys) = (rows(3), rows(2));
    let mut ps = packets(REV, &xs);
    let mut p;
    let mut items = 99;
    match end {
        0 => {
            // the user drops the stream after some items; the server has sent some packets
            if kind == 0 { sym::assume(false) }
            let n = ps.len();
            p = plan(ps);
            p.first = [n, 2, 4][sym::choose(3)];
            p.cancel = sym::choose(2) * 2;
            items = if p.first == 2 { sym::choose(2) } else { [0, 1, 3][sym::choose(3)] };
            if kind == 1 && items > 2 || kind == 2 && items > 3 { sym::assume(false) }
        }
        1 => {
            // the server stalls until the operation's timeout; streams have none
            if kind != 0 { sym::assume(false) }
            p = plan(ps);
            p.first = sym::choose(5);
            p.cancel = sym::choose(2) * 2;
        }
        2 => {
            // an unreadable block, and behind it bytes which look like packets
            let mut b = data(&cols(&[]));
            let n = b.len();
            b[n - 5] = b'X';
            let at = 1 + 2 * sym::choose(2);
            ps.truncate(at);
            ps.push(b);
            ps.push(vec![EOS]);
            ps.push(data(&cols(&xs)));
            ps.push(vec![EOS]);
            p = plan(ps);
        }
        3 => {
            let at = sym::choose(4);
            ps.truncate(at);
            ps.push(exception(&[Exc { code: 7, name: "E".into(), msg: "m".into(), trace: "".into() }]));
            // a result of the same query must not be taken for another one's
            ps.push(data(&cols(&xs)));
            ps.push(vec![EOS]);
            p = plan(ps);
        }
        _ => { if kind == 0 { sym::assume(false) } p = plan(ps); }
    }
    setup(REV, planned(if end == 4 { vec![] } else { vec![p] }, vec![], vec![], &ys));
    let pool = Pool::new(url(&format!("pool_min=1&pool_max=2&ping_before_query={}", ping)));
    let done = run(async {
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        match end {
            0 => {
                if kind == 1 { let mut s = c.query(SQL).stream_blocks(); for _ in 0..items { sym::some(s.next().await, "a block").ok(); } if items == 0 { poll_once(&mut s).await } }
                else { let mut s = c.query(SQL).stream(); for _ in 0..items { sym::some(s.next().await, "a row").ok(); } if items == 0 { poll_once(&mut s).await } }
            }
            4 => { if kind == 1 { drop(c.query(SQL).stream_blocks()) } else { drop(c.query(SQL).stream()) } }
            _ => { let (_, r) = upto(&mut c, kind, &xs).await; sym::check(r.is_err(), "a failed operation reports success") }
        }
        if !same { drop(c); c = sym::ok(pool.get_handle().await, "a connection after a failure"); }
        match op(&mut c, next, &ys).await {
            Ok(()) => sym::reach("clean"),
            Err(e) => {
                sym::check(!ping || next == 5, "the next operation fails");
                match e { Error::Server(_) => sym::fail("the next operation gets the error of the one before"), _ => sym::reach("refused") }
            }
        }
    });
    sym::check(done.is_some(), "an operation hangs");
    sym::reach(ENDS[end]);
}
async fn poll_once<S: futures_util::Stream + Unpin>(s: &mut S) {
    std::future::poll_fn(|cx| { let _ = s.poll_next_unpin(cx); std::task::Poll::Ready(()) }).await
}

const T_OPTS: &str = "connection_timeout=11ms&ping_timeout=12ms&query_timeout=13ms&execute_timeout=14ms&insert_timeout=15ms&retry_timeout=16ms&ping_before_query=false";
fn ms(x: u64) -> Duration { Duration::from_millis(x) }
/// C22: each operation gives up after its own timeout when the server falls silent
pub fn c22_timeouts() {
    let kind = [0, 3, 4, 5, 6, 7][sym::choose(6)];
    let (xs, ys) = (rows(3), rows(2));
    let mut p = plan(if kind == 4 { vec![data(&cols(&[])), vec![EOS]] } else { packets(REV, &xs) });
    let n = p.pkts.len();
    p.first = sym::choose(n);
    if kind == 4 { p.first = 0 }
    let mute = sym::bool();
    if kind == 4 && mute { p.first = 1 }
    setup(REV, planned(vec![p], vec![Some(vec![])], vec![], &ys));
    match kind {
        6 => net(|n| n.on_connect = Some(Box::new(|_, c| { c.mute = true; true }))),
        7 => net(|n| n.connect_hang = true),
        _ => {}
    }
    let pool = Pool::new(url(T_OPTS));
    let done = run(async {
        let r = pool.get_handle().await;
        if kind >= 6 {
            match r { Err(Error::Driver(clickhouse_rs::errors::DriverError::Timeout)) => {} Err(_) => sym::fail("a silent server while connecting: not a timeout"), Ok(_) => sym::fail("a connection out of nothing") }
            net(|n| sym::check(n.timeouts == [ms(11)], "the connection's timeout"));
            return;
        }
        let mut c = sym::ok(r, "a connection");
        if kind == 4 && mute { net(|n| n.conns[0].stall_after_data = true) }
        match op(&mut c, kind, &xs).await {
            Err(Error::Driver(clickhouse_rs::errors::DriverError::Timeout)) => {}
            Err(_) => sym::fail("a silent server is not reported as a timeout"),
            Ok(()) => sym::fail("success without an answer"),
        }
        let t = match kind { 0 => 13, 3 => 14, 4 => 15, _ => 12 };
        net(|n| sym::check(n.timeouts == [ms(t)], "an operation gives up after another time than its own timeout"));
        sym::ok(c.check_connection().await, "the connection check after a timeout");
    });
    sym::check(done.is_some(), "an operation hangs");
    sym::reach("timeout");
}
/// C22: a broken connection is replaced, with the configured number of retries and pauses
pub fn c22_retries() {
    let retries = sym::choose(4);
    let refused = sym::choose(5);
    let kind = sym::choose(5);
    let ys = rows(2);
    setup(REV, planned(vec![], vec![], vec![], &ys));
    let h = hello(REV).len();
    net(|n| n.on_connect = Some(Box::new(move |i, c| { if i == 0 { c.cut = Some((h, false)) } true })));
    let pool = Pool::new(url(&format!("send_retries={}&retry_timeout=16ms", retries)));
    let done = run(async {
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        net(|n| n.refuse = refused);
        let r = op(&mut c, kind, &ys).await;
        let (att, sleeps, ts) = net(|n| (n.attempts - 1, n.sleeps, n.timeouts.clone()));
        sym::check(ts.iter().all(|t| *t == ms(16)), "the pause between retries");
        if retries == 0 {
            sym::check(r.is_err() && att == 0 && sleeps == 0, "send_retries=0: a broken connection is an error");
            sym::reach("none");
        } else if refused <= retries {
            sym::check(r.is_ok(), "the server accepts a connection within the retries");
            sym::check(att == refused + 1 && sleeps == refused, "number of attempts");
            sym::reach("recovered");
        } else {
            sym::check(r.is_err(), "no connection, no error");
            sym::check(att == retries + 1 && sleeps == retries, "number of retries");
            sym::reach("given up");
            // and later the handle works again
            net(|n| n.refuse = 0);
            sym::ok(op(&mut c, kind, &ys).await, "a handle which gave up once does not recover");
        }
    });
    sym::check(done.is_some(), "an operation hangs");
}
/// C22: a server which accepts connections but drops them at the ping: the retries are bounded too
pub fn c22_flapping() {
    let h = hello(REV).len();
    setup(REV, planned(vec![], vec![], vec![], &[]));
    net(|n| n.on_connect = Some(Box::new(move |i, c| { if i > 40 { sym::fail("a server that drops each connection is retried without bound") } c.cut = Some((h, false)); true })));
    let pool = Pool::new(url("send_retries=2&retry_timeout=16ms"));
    let done = run(async {
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        sym::check(op(&mut c, 3, &[]).await.is_err(), "success without an answer");
    });
    sym::check(done.is_some(), "an operation hangs");
    sym::reach("end");
}
/// C22: all connections of the pool are stale: an operation finds its way to a fresh one
pub fn c22_stale() {
    let idle = 1 + sym::choose(4);
    let kind = sym::choose(5);
    let err = sym::bool();
    let ys = rows(2);
    setup(REV, planned(vec![], vec![], vec![], &ys));
    let pool = Pool::new(url("pool_min=4&pool_max=4&retry_timeout=16ms"));
    let done = run(async {
        let mut hs = vec![];
        for _ in 0..idle { hs.push(sym::ok(pool.get_handle().await, "a connection")) }
        drop(hs);
        sym::check(clickhouse_rs::verif_hooks::pool_counts(&pool).1 == idle, "returned connections are idle");
        net(|n| for c in &mut n.conns { if err { c.err = true } else { c.eof = true } });
        let mut c = sym::ok(pool.get_handle().await, "a connection");
        sym::ok(op(&mut c, kind, &ys).await, "a handle does not get past the stale connections of its pool");
    });
    sym::check(done.is_some(), "an operation hangs");
    net(|n| sym::check(n.max_open <= 4 && n.conns.len() == idle + 1, "connections"));
    sym::reach("fresh");
}
/// C22: connections go to the configured hosts in turn
pub fn c22_hosts() {
    let hosts = sym::choose(3);
    let refuse = sym::u8();
    let opts = ["", "alt_hosts=127.0.0.2:9001", "alt_hosts=127.0.0.2:9001,127.0.0.3:9002"][hosts];
    setup(REV, planned(vec![], vec![], vec![], &[]));
    net(|n| n.on_connect = Some(Box::new(|_, _| { true })));
    let pool = Pool::new(url(opts));
    let mut hs = vec![];
    for i in 0..5 {
        let no = refuse >> i & 1 != 0;
        if no { net(|n| n.refuse = 1) }
        match run(pool.get_handle()) {
            None => sym::fail("connecting hangs"),
            Some(Ok(h)) => { sym::check(!no, "a refused connection"); hs.push(h) }
            Some(Err(_)) => sym::check(no, "a connection fails although the server accepts it"),
        }
    }
    net(|n| {
        sym::check(n.addrs.len() == 5, "number of attempts");
        for (i, a) in n.addrs.iter().enumerate() {
            let want = ["127.0.0.1:9000", "127.0.0.2:9001", "127.0.0.3:9002"][i % (hosts + 1)];
            sym::check(*a == want.parse().unwrap(), "hosts are not taken in turn");
        }
    });
    sym::reach("hosts");
}
