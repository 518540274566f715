//! A scripted stand-in for a ClickHouse server on the loopback.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn uv(o: &mut Vec<u8>, mut x: u64) { while x >= 0x80 { o.push(x as u8 | 0x80); x >>= 7 } o.push(x as u8) }
pub fn st(o: &mut Vec<u8>, s: &[u8]) { uv(o, s.len() as u64); o.extend_from_slice(s) }
pub fn hello(revision: u64) -> Vec<u8> {
    let mut o = vec![0];
    st(&mut o, b"ClickHouse"); uv(&mut o, 21); uv(&mut o, 3); uv(&mut o, revision);
    if revision >= 54058 { st(&mut o, b"UTC") }
    if revision >= 54372 { st(&mut o, b"srv") }
    if revision >= 54401 { uv(&mut o, 5) }
    o
}
/// a data packet; columns are (name, type, bytes)
pub fn data(rows: u64, cols: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![1];
    st(&mut o, b"");
    o.extend_from_slice(&[1, 0, 2, 255, 255, 255, 255, 0]);
    uv(&mut o, cols.len() as u64); uv(&mut o, rows);
    for (n, t, b) in cols { st(&mut o, n.as_bytes()); st(&mut o, t.as_bytes()); o.extend_from_slice(b) }
    o
}
pub fn exception(code: u32, msg: &str) -> Vec<u8> {
    let mut o = vec![2];
    o.extend_from_slice(&code.to_le_bytes());
    st(&mut o, b"DB::Exception"); st(&mut o, msg.as_bytes()); st(&mut o, b"trace"); o.push(0);
    o
}
/// ms without bytes which end a burst behind the first reply
pub static SILENCE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(60);
pub const EOS: [u8; 1] = [5];
pub const PONG: [u8; 1] = [4];
pub struct Server { pub port: u16, pub got: Arc<Mutex<Vec<Vec<u8>>>> }
impl Server {
    pub fn url(&self, opts: &str) -> String { format!("tcp://127.0.0.1:{}/?{}", self.port, opts) }
    /// all bytes of connection i
    pub fn bytes(&self, i: usize) -> Vec<u8> { self.got.lock().unwrap()[i].clone() }
}
/// Answers hello with `hello`, a ping with a pong, and the n-th other burst of bytes of a connection with replies[n].
pub fn serve(hello: Vec<u8>, replies: Vec<Vec<u8>>) -> Server {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let got = Arc::new(Mutex::new(vec![]));
    let g = got.clone();
    std::thread::spawn(move || for s in l.incoming() {
        let Ok(s) = s else { return };
        let i = { let mut g = g.lock().unwrap(); g.push(vec![]); g.len() - 1 };
        let (g, h, r) = (g.clone(), hello.clone(), replies.clone());
        std::thread::spawn(move || talk(s, i, g, h, r));
    });
    Server { port, got }
}
fn talk(mut s: TcpStream, i: usize, got: Arc<Mutex<Vec<Vec<u8>>>>, hello: Vec<u8>, replies: Vec<Vec<u8>>) {
    let mut k = 0;
    loop {
        // one burst: until 60 ms of silence
        let mut burst = vec![];
        s.set_read_timeout(None).unwrap();
        let mut buf = [0u8; 65536];
        loop {
            match s.read(&mut buf) {
                Ok(0) => { return }
                Ok(n) => { burst.extend_from_slice(&buf[..n]); got.lock().unwrap()[i].extend_from_slice(&buf[..n]); }
                Err(_) => break,
            }
            s.set_read_timeout(Some(Duration::from_millis(if k == 0 { 60 } else { SILENCE.load(std::sync::atomic::Ordering::SeqCst) }))).unwrap();
        }
        let reply = if burst[0] == 0 && k == 0 && got.lock().unwrap()[i].len() == burst.len() { hello.clone() }
            else if burst == [4] { PONG.to_vec() }
            else { let r = replies.get(k).cloned().unwrap_or_default(); k += 1; r };
        if s.write_all(&reply).is_err() { return }
    }
}
pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap() }
