//! C16: options from URLs and from the builder.
use crate::{net::*, p_net, sym};
use clickhouse_rs::{verif_hooks::{options_view, OptionsView}, Options, Pool};
use std::time::Duration;

fn default() -> OptionsView {
    let s = Duration::from_secs;
    let ms = Duration::from_millis;
    OptionsView { addr: "tcp://127.0.0.1:9000".into(), database: "default".into(), username: "default".into(), password: "".into(), compression: false, pool: (10, 20), nodelay: true, keepalive: None, ping_before_query: true, send_retries: 3, retry_timeout: s(5), ping_timeout: ms(500), connection_timeout: ms(500), query_timeout: s(180), insert_timeout: Some(s(180)), execute_timeout: Some(s(180)), settings: vec![], alt_hosts: vec![] }
}
fn parse(u: &str) -> Option<OptionsView> { u.parse::<Options>().ok().map(|o| options_view(&o)) }
/// a character of a parameter
fn chr() -> char {
    let c = sym::u8();
    sym::assume(c > 0x20 && c < 0x7f && c != b'&' && c != b'#' && c != b'%' && c != b'+');
    c as char
}
/// a text near one of the given ones: itself, cut, with a character replaced or appended, or arbitrary
fn near(l: &[&str], full: bool) -> String {
    let t = l[sym::choose(l.len())];
    if !full { return if t.len() < 4 && sym::choose(2) == 1 { let mut s = t[1..].to_string(); s.insert(0, chr()); s } else { t.to_string() } }
    match sym::choose(4) {
        0 => t.to_string(),
        1 => { let i = if t.len() < 6 { sym::choose(t.len().max(1)) } else { t.len() - 1 - sym::choose(2) }; let mut s = t[..i].to_string(); if !t.is_empty() { s.push(chr()); s.push_str(&t[i + 1..]) } s }
        2 => { let mut s = t.to_string(); s.push(chr()); s }
        _ => { if sym::choose(2) == 0 { t[..sym::choose(t.len().max(1))].to_string() } else { let mut s = String::new(); for _ in 0..sym::choose(3) { s.push(chr()) } s } }
    }
}
fn boolean(s: &str) -> Option<bool> { match s.as_bytes() { b"true" => Some(true), b"false" => Some(false), _ => None } }
fn number(s: &[u8]) -> Option<u64> {
    if s.is_empty() || s.len() > 30 { return None }
    let mut n = 0u64;
    let mut at = 0;
    for c in s { if *c < b'0' || *c > b'9' { return None } }
    while at < s.len() && s[at] == b'0' { at += 1 }
    let t = &s[at..];
    // compared as text
    if t.len() > 20 || (t.len() == 20 && t > &b"18446744073709551615"[..]) { return None }
    for c in t { n = n.wrapping_mul(10).wrapping_add((*c - b'0') as u64) }
    Some(n)
}
fn duration(s: &str) -> Option<Duration> {
    let b = s.as_bytes();
    if b.len() >= 2 && &b[b.len() - 2..] == b"ms" { return number(&b[..b.len() - 2]).map(Duration::from_millis) }
    if b.len() >= 1 && b[b.len() - 1] == b's' { return number(&b[..b.len() - 1]).map(Duration::from_secs) }
    None
}
fn opt_duration(s: &str) -> Option<Option<Duration>> { if s.as_bytes() == b"none" { Some(None) } else { duration(s).map(Some) } }

const NUMS: [&str; 7] = ["0", "12", "18446744073709551615", "18446744073709551616", "-1", "07", "+5"];
const DURS: [&str; 9] = ["5s", "42ms", "0s", "ms", "none", "18446744073709551615s", "18446744073709551616ms", "1m", "7sms"];
/// the value of each parameter
pub fn c16_params() {
    let names = ["pool_min", "pool_max", "send_retries", "nodelay", "ping_before_query", "keepalive", "insert_timeout", "execute_timeout", "retry_timeout", "ping_timeout", "connection_timeout", "query_timeout", "compression"];
    let k = sym::choose(names.len());
    let v = match k { 0..=2 => near(&NUMS, k == 0), 3 | 4 => near(&["true", "false", "1", "True"], k == 3), 12 => near(&["none", "lz4", "lz4hc"], true), _ => near(&DURS, k == 5 || k == 8) };
    let got = parse(&format!("tcp://127.0.0.1?{}={}", names[k], v));
    let mut w = default();
    let v = v.as_str();
    let ok = match k {
        0 => number(v.as_bytes()).map(|x| w.pool.0 = x as usize),
        1 => number(v.as_bytes()).filter(|x| *x > 0).map(|x| w.pool.1 = x as usize),
        2 => number(v.as_bytes()).map(|x| w.send_retries = x as usize),
        3 => boolean(v).map(|x| w.nodelay = x),
        4 => boolean(v).map(|x| w.ping_before_query = x),
        5 => opt_duration(v).map(|x| w.keepalive = x),
        6 => opt_duration(v).map(|x| w.insert_timeout = x),
        7 => opt_duration(v).map(|x| w.execute_timeout = x),
        8 => duration(v).map(|x| w.retry_timeout = x),
        9 => duration(v).map(|x| w.ping_timeout = x),
        10 => duration(v).map(|x| w.connection_timeout = x),
        11 => duration(v).map(|x| w.query_timeout = x),
        _ => match v.as_bytes() { b"none" => Some(()), b"lz4" => { w.compression = true; Some(()) } _ => None },
    };
    match (ok, got) {
        (Some(()), Some(g)) => { sym::check(g == w, "a parameter of a URL has another value"); sym::reach("value") }
        (None, None) => sym::reach("rejected"),
        (Some(()), None) => sym::fail("a valid parameter is rejected"),
        (None, Some(_)) => sym::fail("an invalid parameter is accepted"),
    }
}
/// every byte or character, percent-encoded
fn enc(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push('%');
        for n in [x >> 4, x & 15] { s.push((if n < 10 { b'0' + n } else { b'A' + n - 10 }) as char) }
    }
    s
}
/// a text and how it is written in a URL
fn text(k: usize) -> (String, String) {
    match sym::choose(5) {
        0 => ("plain".into(), "plain".into()),
        // any character, encoded
        1 => { let s = format!("a{}b", sym::ascii(1 + sym::choose(2))); let e = enc(&s.as_bytes()[1..s.len() - 1]); let e = format!("a{e}b"); (s, e) }
        // a character of two bytes
        2 => { let x = sym::u8(); sym::assume(x >= 0x80 && x < 0xc0); let s = String::from_utf8(vec![b'x', 0xc3, x]).unwrap(); let e = enc(s.as_bytes()); (s, e) }
        // unreserved characters as they are
        3 => { let c = sym::u8(); sym::assume(c.is_ascii_alphanumeric() || matches!(c, b'-' | b'_' | b'~' | b'.' | b'!' | b'$' | b'\'' | b'(' | b')' | b'*' | b',' | b';' | b'=')); let s = format!("q{}", c as char); (s.clone(), s) }
        _ => { let l = ["@", ":", "/", "?", "#", "%", "&", "+", " ", "%41", "ü€", "p@ss:w/rd?"]; let s = l[sym::choose(l.len())].to_string(); let _ = k; let e = enc(s.as_bytes()); (s, e) }
    }
}
/// user, password, database
pub fn c16_userinfo() {
    let at = sym::choose(4);
    let mut w = default();
    let mut url = String::from("tcp://");
    let (u, p, d) = (sym::choose(2) == 1, sym::choose(2) == 1, sym::choose(3));
    if u || at == 0 { let (s, e) = if at == 0 { text(0) } else { ("joe".into(), "joe".into()) }; w.username = s; url += &e; }
    if p || at == 1 { let (s, e) = if at == 1 { text(1) } else { ("secret".into(), "secret".into()) }; w.password = s; url += ":"; url += &e; }
    if u || p || at < 2 { url += "@" }
    url += "127.0.0.1";
    let port = if at == 3 { sym::u16() } else { [9000, 9440][sym::choose(2)] };
    if at == 3 { sym::assume(port > 0) }
    if port != 9000 || at == 3 { url += &format!(":{port}") }
    if d > 0 || at == 2 { url += "/"; if d > 1 || at == 2 { let (s, e) = if at == 2 { text(2) } else { ("clicks".into(), "clicks".into()) }; w.database = s; url += &e; } }
    url += ["", "?", "?pool_min=3"][sym::choose(3)];
    if url.ends_with('3') && url.ends_with("pool_min=3") { w.pool.0 = 3 }
    let g = sym::some(parse(&url), "a valid URL is rejected");
    sym::check(g.username == w.username, "the user of a URL");
    sym::check(g.password == w.password, "the password of a URL");
    sym::check(g.database == w.database, "the database of a URL");
    sym::check(g.addr.ends_with(&format!("127.0.0.1:{port}")), "the address of a URL");
    w.addr = g.addr.clone();
    sym::check(g == w, "the other options of a URL");
    sym::reach("url");
}
/// other parameters are settings; several parameters
pub fn c16_settings() {
    let name = ["max_threads", "readonly", "Pool_min", "pool_min_", "timeout", "a%20b", "compression.x"][sym::choose(7)];
    let (v, e) = text(3);
    let g = sym::some(parse(&format!("tcp://127.0.0.1?{name}={e}")), "a valid URL is rejected");
    let mut w = default();
    w.settings = vec![(name.replace("%20", " "), v, true)];
    sym::check(g == w, "a setting of a URL");
    sym::reach("setting");
}
pub fn c16_many() {
    let l = [("pool_min", "2"), ("pool_max", "7"), ("nodelay", "false"), ("keepalive", "99ms"), ("ping_before_query", "false"), ("send_retries", "9"), ("retry_timeout", "8s"), ("ping_timeout", "1s"), ("connection_timeout", "77ms"), ("query_timeout", "66s"), ("insert_timeout", "none"), ("execute_timeout", "3ms"), ("compression", "lz4"), ("alt_hosts", "10.0.0.2:9001,[::1]:9002"), ("max_threads", "4"), ("readonly", "1")];
    let (a, n) = (sym::choose(l.len()), sym::choose(l.len() + 1));
    let mut url = String::from("tcp://127.0.0.1/db?");
    let mut w = default();
    w.database = "db".into();
    let s = Duration::from_secs;
    let ms = Duration::from_millis;
    for i in 0..n {
        let i = (a + i * 5) % l.len();
        if !url.ends_with('?') { url += "&" }
        // the last of two is the one
        if n == 2 && i != 14 { url += l[i].0; url += if i == 2 || i == 4 { "=true&" } else if i == 12 { "=none&" } else if i == 13 { "=1.2.3.4&" } else if i >= 14 || i < 2 || i == 5 { "=5&" } else { "=5s&" } }
        url += l[i].0; url += "="; url += l[i].1;
        match i { 0 => w.pool.0 = 2, 1 => w.pool.1 = 7, 2 => w.nodelay = false, 3 => w.keepalive = Some(ms(99)), 4 => w.ping_before_query = false, 5 => w.send_retries = 9, 6 => w.retry_timeout = s(8), 7 => w.ping_timeout = s(1), 8 => w.connection_timeout = ms(77), 9 => w.query_timeout = s(66), 10 => w.insert_timeout = None, 11 => w.execute_timeout = Some(ms(3)), 12 => w.compression = true, 13 => w.alt_hosts = vec!["tcp://10.0.0.2:9001".into(), "tcp://[::1]:9002".into()], 14 => w.settings.push(("max_threads".into(), "4".into(), true)), _ => w.settings.push(("readonly".into(), "1".into(), true)) }
    }
    let mut g = sym::some(parse(&url), "a valid URL is rejected");
    g.settings.sort();
    w.settings.sort();
    sym::check(g == w, "several parameters of a URL");
    sym::reach("url");
}
/// what is no URL of a server is an error
pub fn c16_invalid() {
    let l = ["http://127.0.0.1", "tcp:127.0.0.1", "tcp:///db", "127.0.0.1:9000", "", "tcp://127.0.0.1:99999", "tcp://127.0.0.1:port", "tcp://h/a/b", "tcp://h/a/", "tcp://h?alt_hosts=[", "tcp://h?alt_hosts=", "tcp://h?alt_hosts=a,,b", "tcp://h?alt_hosts=a:x", "tcp://h?pool_max=0", "tcps://h", "unix:///x"];
    sym::check(parse(l[sym::choose(l.len())]).is_none(), "an invalid URL is accepted");
    sym::reach("rejected");
}
/// any characters: no panic
pub fn c16_any() {
    let pre = ["tcp://", "tcp://h", "tcp://u:", "tcp://u@", "tcp://h:", "tcp://h/", "tcp://h/%", "tcp://h?", "tcp://h?alt_hosts=", "tcp://h?pool_min=%", "tcp://[", "tcp:", "t", ""];
    let p = pre[sym::choose(pre.len())];
    let n = sym::choose(sym::param("len", 2) + 1);
    let s = format!("{}{}", p, sym::ascii(n));
    match parse(&s) {
        Some(g) => { sym::check(g.addr.as_bytes().starts_with(b"tcp://"), "options without a server's address"); sym::reach("url") }
        None => sym::reach("rejected"),
    }
}
/// each method of the builder sets its option and no other
pub fn c16_builder() {
    let k = sym::choose(17);
    let addr = url::Url::parse("tcp://127.0.0.1:9000").unwrap();
    let o = Options::new(addr.clone());
    let mut w = default();
    let d = Duration::from_millis(sym::u32() as u64);
    let n = sym::u64() as usize;
    let b = sym::bool();
    let t = sym::ascii([0, 1, 3][sym::choose(3)]);
    let od = if b { Some(d) } else { None };
    let o = match k {
        0 => { w.database = t.clone(); o.database(&t) }
        1 => { w.username = t.clone(); o.username(&t) }
        2 => { w.password = t.clone(); o.password(&t) }
        3 => { w.compression = true; o.with_compression() }
        4 => { w.pool.0 = n; o.pool_min(n) }
        5 => { w.pool.1 = n; o.pool_max(n) }
        6 => { w.nodelay = b; o.nodelay(b) }
        7 => { w.keepalive = od; o.keepalive(od) }
        8 => { w.ping_before_query = b; o.ping_before_query(b) }
        9 => { w.send_retries = n; o.send_retries(n) }
        10 => { w.retry_timeout = d; o.retry_timeout(d) }
        11 => { w.ping_timeout = d; o.ping_timeout(d) }
        12 => { w.connection_timeout = d; o.connection_timeout(d) }
        13 => { w.query_timeout = d; o.query_timeout(d) }
        14 => { w.insert_timeout = od; o.insert_timeout(od) }
        15 => { w.execute_timeout = od; o.execute_timeout(od) }
        _ => { w.alt_hosts = vec!["tcp://10.0.0.1:1".into()]; o.alt_hosts(vec![url::Url::parse("tcp://10.0.0.1:1").unwrap()]) }
    };
    sym::check(options_view(&o) == w, "an option of the builder");
    sym::reach("options");
}
/// a pool made of a URL uses it
pub fn c16_pool() {
    let k = sym::choose(4);
    let (u, e) = text(0);
    let (url, addr, user, db) = match k {
        0 => (format!("tcp://{e}@10.1.2.3/clicks?ping_before_query=false"), "10.1.2.3:9000", u.as_str(), "clicks"),
        1 => ("tcp://10.1.2.3:1234".to_string(), "10.1.2.3:1234", "default", "default"),
        2 => ("tcp://[::1]:9001?pool_max=1".to_string(), "[::1]:9001", "default", "default"),
        _ => (["tcp://10.1.2.3?pool_max=x", "tcp://10.1.2.3?pool_max=0", "http://10.1.2.3", ""][sym::choose(4)].to_string(), "", "", ""),
    };
    setup(54429, p_net::server(vec![]));
    let pool = if sym::choose(2) == 0 { Pool::new(url.as_str()) } else { Pool::new(url) };
    let r = run(async { pool.get_handle().await.map(|_| ()) });
    if k == 3 { sym::check(matches!(r, Some(Err(_))), "a pool without valid options gives a handle"); net(|n| sym::check(n.conns.is_empty(), "a pool without valid options connects")); sym::reach("rejected"); return }
    sym::check(matches!(r, Some(Ok(()))), "no handle");
    net(|n| {
        sym::check(n.conns.len() == 1 && n.addrs[0] == addr.parse().unwrap(), "another address is connected to");
        match &n.conns[0].pkts[0] { Pkt::Hello { db: d, user: x, .. } => sym::check(d == db.as_bytes() && x == user.as_bytes(), "user or database"), _ => sym::fail("no hello") }
    });
    sym::reach("connected");
}
/// alternative hosts: the port may be left out
pub fn c16_hosts() {
    let l = [("10.0.0.2", "10.0.0.2:9000"), ("10.0.0.3:9001", "10.0.0.3:9001"), ("[::1]", "[::1]:9000"), ("10.0.0.9:1", "10.0.0.9:1")];
    let n = 1 + sym::choose(3);
    let hs: Vec<_> = (0..n).map(|_| l[sym::choose(4)]).collect();
    let url = format!("tcp://127.0.0.1:9000?alt_hosts={}", hs.iter().map(|h| h.0).collect::<Vec<_>>().join(","));
    setup(54429, p_net::server(vec![]));
    let pool = Pool::new(url);
    let mut seen = vec![];
    let r = run(async { let mut keep = vec![]; for _ in 0..=n { keep.push(pool.get_handle().await?) } Ok::<_, clickhouse_rs::errors::Error>(()) });
    sym::check(matches!(r, Some(Ok(()))), "no connection to an alternative host");
    net(|net| seen = net.addrs.clone());
    let mut want: Vec<std::net::SocketAddr> = vec!["127.0.0.1:9000".parse().unwrap()];
    for h in &hs { want.push(h.1.parse().unwrap()) }
    want.sort();
    seen.sort();
    sym::check(seen == want, "the hosts connected to");
    sym::reach("hosts");
}
