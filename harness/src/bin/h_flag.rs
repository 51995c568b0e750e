//! C24: waiters on flags and counters, step by step with counted wake-ups, and with real threads racing.
use execgraph::verif::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use vh::*;

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
struct Waiter {
    fut: Option<Pin<Box<dyn Future<Output = u64>>>>,
    woken: Arc<Count>,
    /// wake-ups counted when it last went to sleep
    at: usize,
    asleep: bool,
    from: u64,
}
fn poll(w: &mut Waiter) -> Option<u64> {
    let waker = Waker::from(w.woken.clone());
    let before = w.woken.0.load(Ordering::SeqCst);
    match w.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker)) {
        Poll::Ready(v) => {
            w.fut = None;
            w.asleep = false;
            Some(v)
        }
        Poll::Pending => {
            w.asleep = true;
            w.at = before;
            None
        }
    }
}

fn steps(run: &mut Run, rng: &mut Rng) {
    run.eval();
    let counter = rng.chance(1, 2);
    let (f, c) = (AsyncFlag::new(), AsyncCounter::new());
    let mut val = 0u64;
    let mut ws: Vec<Waiter> = vec![];
    let mut log = vec![];
    let n = rng.range(3, 24);
    let d = |log: &Vec<String>| format!("{}: {}", if counter { "counter" } else { "flag" }, log.join(" "));
    let mut slept = false;
    for _ in 0..n {
        match rng.below(8) {
            0 | 1 => {
                let from = if counter { rng.range(val.saturating_sub(2), val + 3) } else { 0 };
                let (f, c) = (f.clone(), c.clone());
                let fut: Pin<Box<dyn Future<Output = u64>>> = if counter { Box::pin(async move { c.wait(from).await }) } else { Box::pin(async move { f.wait().await; 1 }) };
                ws.push(Waiter { fut: Some(fut), woken: Arc::new(Count(AtomicUsize::new(0))), at: 0, asleep: false, from });
                log.push(format!("new({})", from));
            }
            2 | 3 | 4 if !ws.is_empty() => {
                let i = rng.below(ws.len());
                if ws[i].fut.is_none() {
                    continue;
                }
                log.push(format!("poll{}", i));
                let r = poll(&mut ws[i]);
                slept |= r.is_none();
                match r {
                    Some(v) if val <= ws[i].from => return run.fail("woke-too-early", format!("{} -> {} at value {}", d(&log), v, val)),
                    Some(v) if counter && v != val => return run.fail("wrong-value", format!("{} -> {} at value {}", d(&log), v, val)),
                    None if val > ws[i].from => return run.fail("asleep-though-passed", format!("{} at value {}", d(&log), val)),
                    _ => {}
                }
            }
            5 if !ws.is_empty() => {
                // a waiter that gives up must not take the others' wake-up with it
                let i = rng.below(ws.len());
                log.push(format!("drop{}", i));
                ws[i].fut = None;
                ws[i].asleep = false;
            }
            6 if !counter => {
                log.push("unset".into());
                f.unset();
                val = 0;
            }
            _ => {
                if counter {
                    c.incr();
                    val += 1;
                    if c.load() != val {
                        return run.fail("wrong-value", d(&log));
                    }
                    log.push("incr".into());
                } else {
                    f.set();
                    val = 1;
                    log.push("set".into());
                }
                for (i, w) in ws.iter().enumerate() {
                    if w.asleep && val > w.from && w.woken.0.load(Ordering::SeqCst) == w.at {
                        return run.fail("left-asleep", format!("{}: waiter {} was not woken", d(&log), i));
                    }
                }
            }
        }
    }
    if slept {
        run.nontrivial(&log);
    }
    for i in 0..ws.len() {
        if ws[i].fut.is_some() && val > ws[i].from && poll(&mut ws[i]).is_none() {
            return run.fail("asleep-though-passed", format!("{} at value {}, waiter {} at the end", d(&log), val, i));
        }
    }
    run.sample(|| d(&log));
}

struct Unpark(std::thread::Thread, AtomicUsize);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.store(1, Ordering::SeqCst);
        self.0.unpark();
    }
}
/// false: never woken
fn block(fut: impl Future<Output = ()>, limit: Duration) -> bool {
    let mut fut = Box::pin(fut);
    let u = Arc::new(Unpark(std::thread::current(), AtomicUsize::new(0)));
    let waker = Waker::from(u.clone());
    let t = Instant::now();
    loop {
        u.1.store(0, Ordering::SeqCst);
        if fut.as_mut().poll(&mut Context::from_waker(&waker)).is_ready() {
            return true;
        }
        while u.1.load(Ordering::SeqCst) == 0 {
            if t.elapsed() > limit {
                return false;
            }
            std::thread::park_timeout(Duration::from_millis(20));
        }
    }
}
fn race(run: &mut Run, rng: &mut Rng) {
    run.eval();
    let counter = rng.chance(1, 2);
    let k = 1 + rng.below(3);
    let rounds = 60;
    let bar = Arc::new(std::sync::Barrier::new(k + 1));
    let objs: Vec<(AsyncFlag, AsyncCounter)> = (0..rounds).map(|_| (AsyncFlag::new(), AsyncCounter::new())).collect();
    let objs = Arc::new(objs);
    let mut hs = vec![];
    for j in 0..k {
        let (objs, bar, spin) = (objs.clone(), bar.clone(), rng.below(60));
        hs.push(std::thread::spawn(move || {
            let mut stuck = None;
            for (i, (f, c)) in objs.iter().enumerate() {
                bar.wait();
                if stuck.is_some() {
                    // let the others through the barriers
                    continue;
                }
                for x in 0..(spin * (i + j + 1)) % 97 {
                    std::hint::black_box(x);
                }
                let ok = if counter { block(async { c.wait(0).await; }, Duration::from_secs(5)) } else { block(f.wait(), Duration::from_secs(5)) };
                if !ok && stuck.is_none() {
                    stuck = Some(i);
                }
            }
            stuck
        }));
    }
    let spin = rng.below(200);
    for (i, (f, c)) in objs.iter().enumerate() {
        bar.wait();
        for x in 0..(spin * (i + 3)) % 193 {
            std::hint::black_box(x);
        }
        if counter {
            c.incr()
        } else {
            f.set()
        }
    }
    for h in hs {
        if let Some(i) = h.join().unwrap() {
            run.fail("left-asleep", format!("{} waiters on a {}: one was still asleep 5 s after the {} in round {}", k, if counter { "counter" } else { "flag" }, if counter { "increment" } else { "set" }, i));
            return;
        }
    }
    run.nontrivial(&(counter, k, spin));
}

fn main() {
    let mut run = Run::new("a waiter went to sleep, or waiters and a setter raced", "up to 24 operations on one flag or counter polled step by step; races of 1-3 waiting threads with one setter, 60 rounds each", 12.);
    let mut rng = Rng::new(seed());
    let mut n = 0u64;
    while run.time_left() {
        n += 1;
        if n % 200 == 0 {
            race(&mut run, &mut rng);
        } else {
            steps(&mut run, &mut rng);
        }
    }
    run.finish()
}
