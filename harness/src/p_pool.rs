//! C14: the pool's bounds, its accounting and its wake-ups.
use crate::{net::*, p_fault::*, p_net::*, sym};
use clickhouse_rs::verif_hooks::pool_counts;
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::StreamExt;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

const REV: u64 = 54429;
fn yield_now() -> impl Future<Output = ()> {
    let mut done = false;
    std::future::poll_fn(move |cx| if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending })
}
/// afterwards the pool gives `max` handles at once and no more, and all of them work
fn usable(pool: &Pool, max: usize) {
    let mut hs = vec![];
    for _ in 0..max {
        match run(pool.get_handle()) { Some(Ok(h)) => hs.push(h), Some(Err(_)) => sym::fail("the pool gives an error although the server works"), None => sym::fail("a connection is lost for good: the pool waits for one that nobody holds") }
    }
    let n = net(|n| n.conns.iter().filter(|c| c.open).count());
    sym::check(n == max, "open connections differ from the handles in use");
    sym::check(run(pool.get_handle()).is_none(), "the pool gives more handles than pool_max");
    for h in &mut hs { sym::check(matches!(run(h.ping()), Some(Ok(()))), "a handle of the pool does not work") }
}
struct Held(Arc<std::sync::Mutex<usize>>);
impl Drop for Held { fn drop(&mut self) { *self.0.lock().unwrap() -= 1 } }
/// tasks take a handle, hold it for a while, give it back; the executor polls them in any order
pub fn c14_tasks() {
    let tasks = sym::param("tasks", 3);
    let max = 1 + sym::choose(2);
    let min = sym::choose(2) * max;
    // what the server does with the attempts to connect: bit i set: refuses the i-th
    let refuse = sym::choose(sym::param("refuse", 4));
    // the tasks are alike: the first one, or none, goes away
    let cancel = if sym::bool() { 0 } else { tasks };
    setup(REV, planned(vec![], vec![], vec![], &[]));
    net(|n| { n.slow = true; n.refuse_mask = refuse as u64 });
    let pool = Pool::new(url(&format!("pool_min={}&pool_max={}", min, max)));
    let held = Arc::new(std::sync::Mutex::new(0usize));
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = vec![];
    let mut flags: Vec<Arc<Flag>> = vec![];
    for _ in 0..tasks {
        let (p, held) = (pool.clone(), held.clone());
        futs.push(Some(Box::pin(async move {
            match p.get_handle().await {
                Ok(h) => {
                    let g = Held(held.clone());
                    { let mut x = held.lock().unwrap(); *x += 1; sym::check(*x <= max, "tasks hold more handles than pool_max"); }
                    yield_now().await;
                    drop(g);
                    drop(h);
                }
                Err(_) => sym::check(refuse != 0, "an error although the server accepts"),
            }
        })));
        flags.push(Arc::new(Flag(AtomicBool::new(true))));
    }
    // the cancelled task goes away at some point of its life
    let mut cancelled = cancel == tasks;
    let mut start = true;
    loop {
        // what can happen next: a task that was woken runs, a connection comes up, the cancellation
        let mut ev: Vec<(u8, usize)> = vec![];
        for i in 0..tasks { if futs[i].is_some() && flags[i].0.load(SeqCst) { ev.push((0, i)) } }
        for (k, w) in net(|n| n.waiting.clone()).into_iter().enumerate() { if w != DONE { ev.push((1, k)) } }
        if !cancelled && futs[cancel].is_some() { ev.push((2, cancel)) }
        if ev.iter().all(|e| e.0 == 2) {
            if futs.iter().all(|f| f.is_none()) { break }
            // only a cancellation is left, and nobody has to cancel
            if futs.iter().enumerate().any(|(i, f)| f.is_some() && (cancelled || i != cancel)) || ev.is_empty() { sym::fail("a task waits for a handle and nothing will ever wake it") }
        }
        // by symmetry
        if start { ev.retain(|e| e.1 <= (cancel == 0) as usize) }
        start = false;
        match ev[sym::choose(ev.len())] {
            (0, i) => {
                flags[i].0.store(false, SeqCst);
                net(|n| n.task = i);
                let w = Waker::from(flags[i].clone());
                if futs[i].as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)).is_ready() { futs[i] = None }
            }
            (1, k) => { let w = net(|n| { let w = n.waiting[k]; n.waiting[k] = DONE; w }); if w < tasks { flags[w].0.store(true, SeqCst) } }
            (_, i) => { cancelled = true; futs[i] = None; net(|n| for w in &mut n.waiting { if *w == i { *w = GONE } }) }
        }
        sym::check(net(|n| n.max_open) <= max, "more open connections than pool_max");
    }
    let (new, idle, ongoing, _) = pool_counts(&pool);
    sym::check(ongoing == 0, "connections in use although all handles are back");
    sym::check(idle <= min, "more idle connections than pool_min");
    // an attempt whose task was cancelled may have been left half way
    sym::check(new <= 1 && net(|n| n.conns.iter().filter(|c| c.open).count()) == idle, "open connections differ from the idle ones");
    net(|n| { n.slow = false; n.refuse_mask = 0 });
    usable(&pool, max);
    sym::reach("done");
}
/// a history of operations on a pool of two
pub fn c14_history() {
    let steps = sym::param("steps", 4);
    let max = 2;
    let min = sym::choose(3);
    let ping = sym::bool();
    let xs = rows(2);
    setup(REV, planned(vec![], vec![], vec![], &xs));
    let pool = Pool::new(url(&format!("pool_min={}&pool_max={}&send_retries=1&retry_timeout=1ms&ping_before_query={}", min, max, ping)));
    let mut hs: Vec<Option<ClientHandle>> = vec![None, None];
    for _ in 0..steps {
        let i = sym::choose(2);
        match &mut hs[i] {
            None => {
                hs[i] = match sym::choose(2) {
                    0 => Some(sym::ok(sym::some(run(pool.get_handle()), "a handle is available"), "a handle")),
                    _ => { net(|n| n.refuse = 1); let r = sym::some(run(pool.get_handle()), "a handle is available"); net(|n| n.refuse = 0); r.ok() }
                }
            }
            Some(h) => match sym::choose(6) {
                0 => hs[i] = None,
                1 => { let r = sym::some(run(op(h, 0, &xs)), "a query hangs"); sym::check(r.is_ok() || !ping, "a query fails") }
                // a stream left early
                2 => { run(async { let mut s = h.query(SQL).stream_blocks(); s.next().await.map(|r| r.is_ok()) }); }
                // the connection breaks
                3 => { net(|n| for c in &mut n.conns { if c.open { c.eof = true } }); run(h.ping()); }
                // ... and cannot be replaced
                4 => { net(|n| { for c in &mut n.conns { if c.open { c.err = true } } n.refuse = 9 }); run(h.check_connection()); net(|n| n.refuse = 0) }
                // the server refuses a statement
                _ => { net(|n| n.next_fails = true); let r = sym::some(run(h.execute("bad")), "a statement hangs"); sym::check(r.is_err(), "a server error is lost"); net(|n| n.next_fails = false) }
            },
        }
        net(|n| sym::check(n.max_open <= max, "more open connections than pool_max"));
        let (_, idle, _, _) = pool_counts(&pool);
        sym::check(idle <= min.max(0), "more idle connections than pool_min");
    }
    drop(hs);
    let (new, idle, ongoing, _) = pool_counts(&pool);
    sym::check(ongoing == 0, "connections in use although all handles are back");
    sym::check(new == 0 && net(|n| n.conns.iter().filter(|c| c.open).count()) == idle, "open connections differ from the idle ones");
    net(|n| { for c in &mut n.conns { if c.open && (c.eof || c.err) { c.revive() } } });
    usable(&pool, max);
    sym::reach("done");
}
