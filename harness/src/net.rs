//! The network as the checks see it: connections to a reference server, cuts in the byte streams,
//! faults, a clock that moves when nothing else can.
use crate::{model::*, sym, wire};
use clickhouse_rs::verif_hooks::{Environment, MockIo, ENVIRONMENT};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

/// what a client says
#[derive(Debug, Clone, PartialEq)]
pub enum Pkt {
    Hello { name: Vec<u8>, ver: [u64; 3], db: Vec<u8>, user: Vec<u8>, pass: Vec<u8> },
    Query(Q),
    /// table, columns, rows, the columns
    Data(Vec<u8>, Vec<(Vec<u8>, Vec<V>)>),
    Cancel,
    Ping,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Q {
    pub id: Vec<u8>, pub kind: u64, pub iuser: Vec<u8>, pub iid: Vec<u8>, pub addr: Vec<u8>, pub iface: u64, pub os_user: Vec<u8>, pub host: Vec<u8>, pub name: Vec<u8>, pub ver: [u64; 3],
    pub settings: Vec<(Vec<u8>, u8, Vec<u8>)>, pub stage: u64, pub compress: u64, pub sql: Vec<u8>,
}
static COMPRESS: AtomicBool = AtomicBool::new(false);
/// settings in the old format: None: there are none, Some(true): strings, Some(false): numbers
static OLD: Mutex<Option<bool>> = Mutex::new(None);
pub fn set_old(o: Option<bool>) { *OLD.lock().unwrap() = o }
pub fn set_compress(on: bool) { COMPRESS.store(on, SeqCst) }
struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> { if self.b.len() - self.p < n { return None } let r = &self.b[self.p..self.p + n]; self.p += n; Some(r) }
    fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
    fn uv(&mut self) -> Option<u64> { let mut x = 0; let mut s = 0; loop { let b = self.u8()?; x |= ((b & 0x7f) as u64) << s; if b < 0x80 { return Some(x) } s += 7; } }
    fn s(&mut self) -> Option<Vec<u8>> { let n = self.uv()? as usize; Some(self.take(n)?.to_vec()) }
}
fn cells(c: &mut Cur, types: &[T]) -> Option<Vec<(Vec<u8>, Vec<V>)>> {
    sym::check(c.take(8)? == [1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0], "block info of a data packet");
    let nc = c.uv()? as usize;
    let nr = c.uv()? as usize;
    if nc == 0 {
        sym::check(nr == 0, "rows without columns");
        return Some(vec![]);
    }
    sym::check(nc == types.len(), "number of columns of a data packet");
    let mut cols = vec![];
    for t in types {
        let n = c.s()?;
        let ty = c.s()?;
        sym::check(strip(&String::from_utf8_lossy(&ty)) == strip(&t.name(true)), "type of a data column");
        // fixed widths only, so that an incomplete packet can be told
        let w = match t { T::Fix(_, _, w) => *w, _ => sym::fail("reference: column type") };
        let vs = (0..nr).map(|_| Some(V::Raw(c.take(w)?.to_vec()))).collect::<Option<Vec<V>>>()?;
        cols.push((n, vs));
    }
    Some(cols)
}
/// one packet off the front of b: None if it is not complete. `types`: what the columns of a data packet have to be
pub fn packet(b: &[u8], rev: u64, types: &[T]) -> Option<(Pkt, usize)> {
    let mut c = Cur { b, p: 0 };
    let k = match c.uv()? {
        0 => Pkt::Hello { name: c.s()?, ver: [c.uv()?, c.uv()?, c.uv()?], db: c.s()?, user: c.s()?, pass: c.s()? },
        1 => {
            let mut q = Q {
                id: c.s()?, kind: c.uv()?, iuser: c.s()?, iid: c.s()?, addr: c.s()?, iface: c.uv()?, os_user: c.s()?, host: c.s()?, name: c.s()?, ver: [c.uv()?, c.uv()?, c.uv()?],
                settings: vec![], stage: 0, compress: 0, sql: vec![],
            };
            if rev >= 54060 { sym::check(c.s()? == b"", "quota key") }
            if rev >= 54401 { sym::check(c.uv()? == 0, "patch version") }
            loop {
                let n = c.s()?;
                if n.is_empty() { break }
                if rev >= 54429 {
                    let imp = c.uv()? as u8;
                    q.settings.push((n, imp, c.s()?));
                } else {
                    let at = c.p;
                    if sym::some(*OLD.lock().unwrap(), "a setting from nowhere") { c.s()?; } else { c.uv()?; }
                    q.settings.push((n, 9, c.b[at..c.p].to_vec()));
                }
            }
            q.stage = c.uv()?;
            q.compress = c.uv()?;
            q.sql = c.s()?;
            Pkt::Query(q)
        }
        2 => {
            let table = c.s()?;
            if COMPRESS.load(SeqCst) {
                let mut all = vec![];
                loop {
                    let (d, n) = crate::p_frame::unframe(&b[c.p..], |b| { let h = clickhouse_rs_cityhash_sys::city_hash_128(b); (h.lo, h.hi) })?;
                    c.p += n;
                    all.extend(d);
                    let mut k = Cur { b: &all, p: 0 };
                    if let Some(cols) = cells(&mut k, types) {
                        sym::check(k.p == all.len(), "bytes behind a block in its frame");
                        break Pkt::Data(table, cols);
                    }
                }
            } else {
                Pkt::Data(table, cells(&mut c, types)?)
            }
        }
        3 => Pkt::Cancel,
        4 => Pkt::Ping,
        _ => sym::fail("the client sends an unknown packet"),
    };
    Some((k, c.p))
}

#[derive(Default)]
pub struct Conn {
    /// client to server
    pub out: Vec<u8>,
    pub spos: usize,
    /// server to client
    pub inp: Vec<u8>,
    pub rpos: usize,
    /// nothing comes behind `inp`
    pub eof: bool,
    /// an error comes behind `inp`
    pub err: bool,
    /// positions where the stream pauses once
    pub rcuts: Vec<usize>,
    pub wcuts: Vec<usize>,
    pub by_byte: bool,
    rpaused: usize,
    wpaused: usize,
    /// writes fail from here on
    pub werr: Option<usize>,
    pub types: Vec<T>,
    pub pkts: Vec<Pkt>,
    pub open: bool,
    /// a query is running
    pub busy: bool,
    pub mute: bool,
    /// the server falls silent once data came
    pub stall_after_data: bool,
    /// only so many bytes of `inp` reach the client, then comes the end of the stream or an error
    pub cut: Option<(usize, bool)>,
}
pub struct Net {
    pub conns: Vec<Conn>,
    pub rev: u64,
    pub handler: Option<Box<dyn FnMut(usize, &Pkt, &mut Conn, u64) + Send>>,
    pub on_connect: Option<Box<dyn FnMut(usize, &mut Conn) -> bool + Send>>,
    pub addrs: Vec<SocketAddr>,
    /// the timers of this duration fire
    pub fire: Option<Duration>,
    pub asked: Vec<Duration>,
    pub sleeps: usize,
    pub timeouts: Vec<Duration>,
    pub events: usize,
    /// the current poll met a socket that is not ready
    pub blocked: bool,
    pub max_open: usize,
    pub attempts: usize,
    pub connect_pending: bool,
    /// connections never come up
    pub connect_hang: bool,
    /// so many attempts are refused from now on
    pub refuse: usize,
    /// the task which is polled
    pub task: usize,
    /// connections take their time: who polled the i-th attempt last, or DONE
    pub waiting: Vec<usize>,
    pub slow: bool,
    pub coming: bool,
    /// attempts which are refused when they come up
    pub refuse_mask: u64,
    /// the next statement gets an exception
    pub next_fails: bool,

}
pub const DONE: usize = usize::MAX;
pub const GONE: usize = usize::MAX - 1;
pub static NET: Mutex<Option<Net>> = Mutex::new(None);
pub fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R { f(NET.lock().unwrap().as_mut().unwrap()) }

struct Io(usize);
impl Drop for Io { fn drop(&mut self) { net(|n| { n.conns[self.0].open = false; n.events += 1; }) } }
impl MockIo for Io {
    fn poll_read(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        net(|n| {
            let r = n.conns[self.0].read(buf);
            if r.is_pending() { n.blocked = true } else { n.events += 1 }
            r
        })
    }
    fn poll_write(&mut self, buf: &[u8]) -> Poll<io::Result<usize>> {
        net(|n| {
            let r = n.conns[self.0].write(buf);
            if r.is_pending() { n.blocked = true; n.events += 1; return r }
            n.events += 1;
            n.serve(self.0);
            r
        })
    }
}
impl Conn {
    fn read(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut avail = self.inp.len() - self.rpos;
        if let Some((k, err)) = self.cut {
            if self.inp.len() >= k {
                avail = k.max(self.rpos) - self.rpos;
                if err { self.err = true } else { self.eof = true }
            }
        }
        if avail == 0 {
            if self.err { return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionReset))) }
            if self.eof { return Poll::Ready(Ok(0)) }
            return Poll::Pending;
        }
        let mut lim = avail;
        if self.by_byte {
            if self.rpaused != self.rpos { self.rpaused = self.rpos; return Poll::Pending }
            lim = 1;
        }
        for &c in &self.rcuts {
            if c == self.rpos && self.rpaused != c { self.rpaused = c; return Poll::Pending }
            if c > self.rpos && c - self.rpos < lim { lim = c - self.rpos }
        }
        let n = lim.min(buf.len());
        buf[..n].copy_from_slice(&self.inp[self.rpos..self.rpos + n]);
        self.rpos += n;
        Poll::Ready(Ok(n))
    }
    fn write(&mut self, buf: &[u8]) -> Poll<io::Result<usize>> {
        let pos = self.out.len();
        let mut lim = buf.len();
        if let Some(e) = self.werr {
            if pos >= e { return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe))) }
            lim = lim.min(e - pos);
        }
        for &c in &self.wcuts {
            if c == pos && self.wpaused != c { self.wpaused = c; return Poll::Pending }
            if c > pos && c - pos < lim { lim = c - pos }
        }
        self.out.extend_from_slice(&buf[..lim]);
        Poll::Ready(Ok(lim))
    }
}
impl Net {
    fn serve(&mut self, i: usize) {
        let rev = self.rev;
        loop {
            let c = &mut self.conns[i];
            if c.mute || c.eof || c.err { return }
            let Some((p, n)) = packet(&c.out[c.spos..], rev, &c.types) else { return };
            c.spos += n;
            c.pkts.push(p.clone());
            if self.conns[i].stall_after_data { if let Pkt::Data(_, cs) = &p { if !cs.is_empty() { self.conns[i].mute = true; return } } }
            if self.next_fails { if let Pkt::Data(..) = &p { self.next_fails = false; let c = &mut self.conns[i]; c.busy = false; c.inp.extend(exception(&[Exc { code: 62, name: "e".into(), msg: "m".into(), trace: "t".into() }])); continue } }
            let mut h = self.handler.take().unwrap();
            h(i, &p, &mut self.conns[i], rev);
            self.handler = Some(h);
        }
    }
}
impl Conn {
    pub fn revive(&mut self) { self.eof = false; self.err = false }
}
struct Env;
impl Environment for Env {
    fn connect(&mut self, addr: SocketAddr) -> Poll<io::Result<Box<dyn MockIo>>> {
        net(|n| {
            if n.connect_hang { return Poll::Pending }
            if n.slow {
                // one attempt at a time: the pool opens connections one by one
                match n.waiting.last().copied() {
                    Some(DONE) if n.coming => { n.coming = false }
                    Some(_) if n.coming => { let t = n.task; *n.waiting.last_mut().unwrap() = t; return Poll::Pending }
                    _ => { let t = n.task; n.waiting.push(t); n.coming = true; return Poll::Pending }
                }
                let k = n.waiting.len() - 1;
                if n.refuse_mask >> k & 1 != 0 { n.attempts += 1; return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionRefused))) }
            }
            if n.connect_pending { n.connect_pending = false; n.blocked = true; n.events += 1; return Poll::Pending }
            n.attempts += 1;
            n.addrs.push(addr);
            n.events += 1;
            if n.refuse > 0 { n.refuse -= 1; return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionRefused))) }
            let i = n.conns.len();
            let mut c = Conn { open: true, rpaused: usize::MAX, wpaused: usize::MAX, ..Conn::default() };
            let mut f = n.on_connect.take();
            let ok = match &mut f { Some(f) => f(i, &mut c), None => true };
            n.on_connect = f;
            if !ok { return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionRefused))) }
            n.conns.push(c);
            n.max_open = n.max_open.max(n.conns.iter().filter(|c| c.open).count());
            Poll::Ready(Ok(Box::new(Io(i)) as Box<dyn MockIo>))
        })
    }
    fn timer(&mut self, d: Duration, sleep: bool) -> bool {
        net(|n| {
            if sleep { n.sleeps += 1; n.timeouts.push(d); n.events += 1; return true }
            if n.fire == Some(d) { n.fire = None; n.timeouts.push(d); n.events += 1; return true }
            n.asked.push(d);
            false
        })
    }
}
/// a network whose server answers with `handler`
pub fn setup(rev: u64, handler: impl FnMut(usize, &Pkt, &mut Conn, u64) + Send + 'static) {
    *NET.lock().unwrap() = Some(Net { conns: vec![], rev, handler: Some(Box::new(handler)), on_connect: None, addrs: vec![], fire: None, asked: vec![], task: 0, waiting: vec![], sleeps: 0, timeouts: vec![], events: 0, blocked: false, max_open: 0, attempts: 0, connect_pending: false, connect_hang: false, refuse: 0, slow: false, coming: false, refuse_mask: 0, next_fails: false });
    *ENVIRONMENT.lock().unwrap() = Some(Box::new(Env));
}
pub struct Flag(pub AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) } }
/// runs to the end; a timer fires only when nothing else can happen; None: it never ends
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
    let mut cx = Context::from_waker(&w);
    let mut last = usize::MAX;
    for _ in 0..3000 {
        net(|n| n.asked.clear());
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v) }
        let e = net(|n| n.events);
        if e == last {
            // stuck: the clock moves to the next deadline
            let Some(d) = net(|n| n.asked.iter().min().copied()) else { return None };
            net(|n| n.fire = Some(d));
        }
        last = e;
    }
    None
}
/// polls once
pub fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    let w = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
    f.as_mut().poll(&mut Context::from_waker(&w))
}

pub fn uv(o: &mut Vec<u8>, x: u64) { wire::uvarint(o, x) }
pub fn st_(o: &mut Vec<u8>, s: &[u8]) { wire::string(o, s) }
pub fn hello(rev: u64) -> Vec<u8> {
    let mut o = vec![0];
    st_(&mut o, b"ClickHouse");
    uv(&mut o, 21); uv(&mut o, 3); uv(&mut o, rev);
    if rev >= 54058 { st_(&mut o, b"UTC") }
    if rev >= 54372 { st_(&mut o, b"srv") }
    if rev >= 54401 { uv(&mut o, 5) }
    o
}
pub const PONG: u8 = 4;
pub const EOS: u8 = 5;
pub fn data(cols: &[Col]) -> Vec<u8> { data_as(1, cols) }
/// 1 data, 7 totals, 8 extremes
pub fn data_as(kind: u8, cols: &[Col]) -> Vec<u8> { let mut o = vec![kind, 0]; let b = enc_block(cols); if COMPRESS.load(SeqCst) { o.extend(crate::p_frame::frame(&b)) } else { o.extend(b) } o }
pub fn progress(rev: u64, v: [u64; 5]) -> Vec<u8> {
    let mut o = vec![3];
    uv(&mut o, v[0]); uv(&mut o, v[1]);
    if rev >= 51554 { uv(&mut o, v[2]) }
    if rev >= 54420 { uv(&mut o, v[3]); uv(&mut o, v[4]) }
    o
}
pub fn profile(v: [u64; 4]) -> Vec<u8> {
    let mut o = vec![6];
    uv(&mut o, v[0]); uv(&mut o, v[1]); uv(&mut o, v[2]); o.push(1); uv(&mut o, v[3]); o.push(0);
    o
}
pub struct Exc { pub code: u32, pub name: String, pub msg: String, pub trace: String }
pub fn exception(es: &[Exc]) -> Vec<u8> {
    let mut o = vec![2];
    for (i, e) in es.iter().enumerate() {
        o.extend_from_slice(&e.code.to_le_bytes());
        st_(&mut o, e.name.as_bytes()); st_(&mut o, e.msg.as_bytes()); st_(&mut o, e.trace.as_bytes());
        o.push((i + 1 < es.len()) as u8);
    }
    o
}
pub fn url(opts: &str) -> String { format!("tcp://127.0.0.1:9000/?{}", opts) }
