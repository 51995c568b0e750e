//! C12, C13, C14: rate limiter, timer wheel, cancellation token.
#![allow(dead_code)]
use std::time::{Duration, Instant};
use vh::*;

mod gcra {
    include!(concat!(env!("EXECGRAPH_VERIF_REPO"), "/src/time/gcra.rs"));
    impl RateLimiter {
        pub fn vraw(now: u64, tat: u64, tau: u64, cost: u64) -> (u64, Duration) {
            Self::compute_raw(now, tat, tau, cost)
        }
        pub fn vcompute(&self) -> Duration {
            self.compute(1)
        }
        pub fn vtau(&self) -> u64 {
            self.tau.load(std::sync::atomic::Ordering::SeqCst)
        }
    }
    pub fn vnow() -> u64 {
        now()
    }
}
mod wheel {
    include!(concat!(env!("EXECGRAPH_VERIF_REPO"), "/src/time/timewheel.rs"));
}
mod token {
    include!(concat!(env!("EXECGRAPH_VERIF_REPO"), "/src/fancy_cancellation_token.rs"));
}

const S: u64 = 1_000_000_000;

fn c12() -> ! {
    let mut run = Run::new("random claim histories against the limiter's admission function with a virtual clock (rates 1..1e9, idle gaps, bursts, waiting as told), every window of the history checked; real-time runs with many tasks and rate changes", "histories of 400 claims; real time 2.5 s", 20.);
    let mut r = Rng::new(seed());
    let base = 10 * S;
    // rate 0
    for _ in 0..1000 {
        run.eval();
        let (t, w) = gcra::RateLimiter::vraw(base + r.next() % S, base, 0, 1);
        if !w.is_zero() || t != base {
            run.fail("rate-zero-limited", "tau 0 refused a claim");
        }
    }
    while run.time_left() && run.elapsed() < if thorough() { 100. } else { 8. } {
        run.eval();
        let rate = match r.below(5) {
            0 => 1 + r.next() % 3,
            1 => 1 + r.next() % 100,
            2 => 1 + r.next() % 100_000,
            3 => 1 + r.next() % S,
            _ => *r.pick(&[1, 2, 3, 7, 10, 1000, S]),
        };
        let tau = S / rate;
        let mut now = base + r.next() % S;
        // a limiter as new() leaves it, or idle for long, or fully refilled
        let mut tat = match r.below(3) {
            0 => now + tau * rate,
            1 => now.saturating_sub(r.next() % (20 * S)),
            _ => now + r.next() % (S + 1),
        };
        let mut adm: Vec<u64> = vec![];
        let mut hist = vec![];
        for _ in 0..400 {
            now += match r.below(6) {
                0 => 0,
                1 => r.next() % 1000,
                2 => r.next() % (2 * tau + 1),
                3 => tau,
                4 => r.next() % (S / 2),
                _ => if r.chance(1, 20) { 5 * S } else { 1 },
            };
            let (nt, w) = gcra::RateLimiter::vraw(now, tat, tau, 1);
            hist.push((now - base, w));
            if w.is_zero() {
                adm.push(now);
                // no more than rate*T + rate + 1 in any window ending now
            } else {
                // waiting as told admits, if nothing else was admitted
                let (_, w2) = gcra::RateLimiter::vraw(now + w.as_nanos() as u64, nt, tau, 1);
                if !w2.is_zero() {
                    run.fail("wait-too-short", format!("rate {} now {} tat {}: told {:?}, then refused again ({:?})", rate, now, tat, w, w2));
                }
                if w.as_nanos() as u64 > S + 2 * tau {
                    run.fail("wait-too-long", format!("rate {} told {:?}", rate, w));
                }
                let wn = w.as_nanos() as u64;
                if wn > 1 {
                    let (_, w3) = gcra::RateLimiter::vraw(now + wn - 1, nt, tau, 1);
                    if w3.is_zero() {
                        run.fail("wait-not-tight", format!("rate {} now {} tat {}: told {:?}, admitted 1ns earlier", rate, now, tat, w));
                    }
                }
            }
            tat = nt;
        }
        run.nontrivial(&hist);
        run.sample(|| format!("rate {} admitted {} of 400", rate, adm.len()));
        'o: for i in 0..adm.len() {
            for j in i..adm.len() {
                let t = (adm[j] - adm[i]) as u128;
                let k = (j - i + 1) as u128;
                if k * tau as u128 > t + S as u128 + tau as u128 {
                    run.fail("too-many-admitted", format!("rate {}: {} launches within {} ns; history {:?}", rate, k, t, &hist[..hist.len().min(20)]));
                    break 'o;
                }
            }
        }
    }
    // real time, concurrent claimers, rate change
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let rounds = if thorough() { 12 } else { 2 };
    for k in 0..rounds {
        run.eval();
        let rate = *r.pick(&[5u64, 40, 300, 2000]);
        let change = k % 2 == 1;
        let rate2 = if change { *r.pick(&[10u64, 100, 500]) } else { rate };
        let times = rt.block_on(async {
            let l = std::sync::Arc::new(gcra::RateLimiter::new(rate));
            let t0 = gcra::vnow();
            let out = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let mut hs = vec![];
            for _ in 0..16 {
                let (l, out) = (l.clone(), out.clone());
                hs.push(tokio::spawn(async move {
                    while gcra::vnow() - t0 < 2_400_000_000 {
                        if tokio::time::timeout(Duration::from_millis(2600), l.until_ready()).await.is_ok() {
                            out.lock().unwrap().push(gcra::vnow());
                        }
                    }
                }));
            }
            tokio::time::sleep(Duration::from_millis(1000)).await;
            let t1 = gcra::vnow();
            if change {
                l.reset(rate2);
            }
            let t2 = gcra::vnow();
            if l.rate_per_second() as i64 - rate2 as i64 > rate2 as i64 / 100 + 1 || (rate2 as i64) > l.rate_per_second() as i64 {
                out.lock().unwrap().clear();
                out.lock().unwrap().push(u64::MAX);
            }
            for h in hs {
                let _ = tokio::time::timeout(Duration::from_secs(4), h).await;
            }
            let mut v = out.lock().unwrap().clone();
            v.sort();
            (v, t1, t2)
        });
        let (v, t1, t2) = times;
        if v == vec![u64::MAX] {
            run.fail("reset-rate", format!("rate_per_second does not report {}", rate2));
            continue;
        }
        let slack = 30_000_000u64; // scheduling delay between admission and the recorded time
        for (lo, hi, rr) in [(0, if change { t1 } else { u64::MAX }, rate), (if change { t2 + slack } else { u64::MAX - 1 }, u64::MAX, rate2)] {
            let w: Vec<u64> = v.iter().copied().filter(|&t| t >= lo && t < hi).collect();
            for i in (0..w.len()).step_by((w.len() / 50).max(1)) {
                for j in (i..w.len()).step_by((w.len() / 50).max(1)) {
                    let t = w[j] - w[i] + slack * 2;
                    if (j - i + 1) as f64 > rr as f64 * t as f64 / 1e9 + rr as f64 + 2. + rr as f64 * 0.02 {
                        run.fail("too-many-admitted-real", format!("rate {}: {} launches in {} ms", rr, j - i + 1, t / 1_000_000));
                        break;
                    }
                }
            }
        }
        if !change && (v.len() as u64) < rate {
            // liveness sanity: 2.4 s at `rate` must admit something close to it
            run.fail("starved", format!("rate {}: only {} launches in 2.4 s", rate, v.len()));
        }
        run.nontrivial(&(rate, rate2, v.len()));
    }
    run.finish()
}

fn c13() -> ! {
    let mut run = Run::new("random insert / cancel / tick sequences on wheels of random span; every tick's output compared with a map from timers to due ticks", "2000 operations per wheel", 8.);
    let mut r = Rng::new(seed());
    while run.time_left() {
        run.eval();
        let span_ns: u64 = *r.pick(&[256, 35_001 * 1_000_000, 1_000_000, 255, 257, 1000, 30_000_000_000]) + r.next() % 5;
        let span_ns = span_ns.max(256);
        let span = Duration::from_nanos(span_ns);
        let w = wheel::TimeWheel::<u64>::new(span);
        let tick_ns = w.tick_duration().as_nanos() as u64;
        if tick_ns != span_ns / 256 {
            run.fail("tick-duration", format!("{} of {}", tick_ns, span_ns));
        }
        let mut due: std::collections::HashMap<u64, (u64, u64, wheel::TimerID)> = Default::default(); // id -> (earliest tick, latest tick)
        let mut dead: Vec<(u64, wheel::TimerID)> = vec![];
        let mut now = 0u64; // ticks done
        let mut next = 0u64;
        let ops = 50 + r.below(2000);
        let mut ok = true;
        for _ in 0..ops {
            match r.below(10) {
                0..=3 => {
                    let lo = span_ns / 256 + (span_ns % 256 != 0) as u64;
                    let d = match r.below(5) {
                        0 => lo + r.next() % 3,
                        1 => span_ns - r.next() % 3,
                        2 => (span_ns as u128 * r.range(1, 256) as u128 / 256) as u64,
                        _ => r.range(lo, span_ns),
                    }.clamp(lo, span_ns);
                    // d corresponds to d / tick ticks, exactly span/256 per tick
                    let exact = d as u128 * 256; // in units of span_ns per tick
                    let lo_t = (exact / span_ns as u128) as u64;
                    let t = w.insert(Duration::from_nanos(d), next);
                    due.insert(next, (now + lo_t.max(1), now + lo_t + 1, t));
                    next += 1;
                }
                4 => {
                    if let Some((&k, _)) = due.iter().min_by_key(|(k, _)| hash(&(*k, ops, now))) {
                        let (_, _, t) = due.remove(&k).unwrap();
                        w.cancel(t);
                        dead.push((k, t));
                    }
                }
                5 => {
                    // cancelling again, or a timer that fired
                    if !dead.is_empty() {
                        let i = r.below(dead.len());
                        w.cancel(dead[i].1);
                    }
                }
                _ => {
                    for _ in 0..1 + if r.chance(1, 20) { r.below(300) } else { 0 } {
                        now += 1;
                        let mut got: Vec<u64> = w.tick().map(|m| m.into_iter().map(|(_, v)| v).collect()).unwrap_or_default();
                        got.sort();
                        for g in got {
                            match due.remove(&g) {
                                None => {
                                    ok = false;
                                    run.fail("fired-dead", format!("timer {} fired at tick {} though cancelled or already fired (span {} ns)", g, now, span_ns));
                                }
                                Some((a, b, t)) => {
                                    if now < a || now > b {
                                        ok = false;
                                        run.fail("fired-outside-window", format!("timer due in ticks {}..={} fired at {} (span {} ns)", a, b, now, span_ns));
                                    }
                                    dead.push((g, t));
                                }
                            }
                        }
                        if let Some((k, v)) = due.iter().find(|(_, v)| v.1 < now) {
                            ok = false;
                            run.fail("never-fired", format!("timer {} due by tick {} has not fired at {} (span {} ns)", k, v.1, now, span_ns));
                        }
                        if !ok {
                            break;
                        }
                    }
                }
            }
            if !ok {
                break;
            }
        }
        run.nontrivial(&(span_ns, ops, next, now));
        run.sample(|| format!("span {} ns, {} timers, {} ticks", span_ns, next, now));
    }
    run.finish()
}

fn c14() -> ! {
    use std::sync::Arc;
    use token::*;
    let mut run = Run::new("random request sequences against the strongest-request lattice, with waiters registered before, between and after the requests; racing requests from several threads", "12 requests per sequence; 4 racing threads", 14.);
    let mut r = Rng::new(seed());
    let t0 = Instant::now();
    let at = |k: usize| t0 + Duration::from_millis(10 * k as u64);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let as_k = |s: Option<CancellationState>| -> Option<Option<u128>> { s.map(|s| match s { CancellationState::HardCancelled => None, CancellationState::CancelledAfterTime(t) => Some((t - t0).as_millis()) }) };
    while run.time_left() && run.elapsed() < if thorough() { 70. } else { 6. } {
        run.eval();
        let n = 1 + r.below(12);
        let seq: Vec<Option<usize>> = (0..n).map(|_| if r.chance(1, 8) { None } else { Some(1 + r.below(6)) }).collect();
        run.nontrivial(&seq);
        run.sample(|| format!("{:?} (None = hard)", seq));
        rt.block_on(async {
            let tok = CancellationToken::new();
            let mut model: Option<Option<usize>> = None; // Some(None) hard
            let mut waiters = vec![];
            for (i, q) in seq.iter().enumerate() {
                for _ in 0..2 {
                    let begun = r.below(8);
                    let t = tok.clone();
                    let tt = at(begun);
                    waiters.push((begun, tokio::spawn(async move { t.soft_cancelled(tt).await })));
                }
                let t = tok.clone();
                waiters.push((usize::MAX, tokio::spawn(async move { t.hard_cancelled().await; CancellationState::HardCancelled })));
                if r.chance(1, 2) {
                    for _ in 0..3 { tokio::task::yield_now().await; }
                }
                match q {
                    None => tok.cancel(CancellationState::HardCancelled),
                    Some(k) => tok.cancel(CancellationState::CancelledAfterTime(at(*k))),
                }
                model = match (model, q) {
                    (Some(None), _) | (_, None) => Some(None),
                    (Some(Some(a)), Some(b)) => Some(Some(a.min(*b))),
                    (None, Some(b)) => Some(Some(*b)),
                };
                for _ in 0..4 { tokio::task::yield_now().await; }
                let want = model.map(|m| m.map(|k| 10 * k as u128));
                if as_k(tok.is_soft_cancelled()) != want {
                    run.fail("token-state", format!("after {:?}: {:?} instead of {:?}", &seq[..=i], as_k(tok.is_soft_cancelled()), want));
                }
                let mut rest = vec![];
                for (b, h) in waiters {
                    let should = match model { Some(None) => true, Some(Some(k)) => b != usize::MAX && b > k, None => false };
                    if h.is_finished() != should {
                        run.fail(if should { "waiter-not-released" } else { "waiter-released" }, format!("after {:?}: waiter begun {}", &seq[..=i], b));
                    }
                    if h.is_finished() {
                        let _ = h.await;
                    } else {
                        rest.push((b, h));
                    }
                }
                waiters = rest;
            }
            for (_, h) in waiters { h.abort(); }
        });
    }
    // racing requests
    while run.time_left() {
        for _ in 0..2000 {
            run.eval();
            let tok = CancellationToken::new();
            let k = 2 + r.below(3);
            let reqs: Vec<Option<usize>> = (0..k).map(|_| if r.chance(1, 4) { None } else { Some(1 + r.below(6)) }).collect();
            let bar = Arc::new(std::sync::Barrier::new(k));
            std::thread::scope(|s| {
                for q in &reqs {
                    let (tok, bar) = (tok.clone(), bar.clone());
                    s.spawn(move || {
                        bar.wait();
                        match q {
                            None => tok.cancel(CancellationState::HardCancelled),
                            Some(x) => tok.cancel(CancellationState::CancelledAfterTime(at(*x))),
                        }
                    });
                }
            });
            let want = if reqs.contains(&None) { None } else { reqs.iter().map(|x| x.unwrap()).min().map(|x| 10 * x as u128) };
            if as_k(tok.is_soft_cancelled()) != Some(want) {
                run.fail("racing-requests", format!("requests {:?} (None = hard) left {:?}", reqs, as_k(tok.is_soft_cancelled())));
                break;
            }
        }
    }
    run.finish()
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C12") => c12(),
        Some("C13") => c13(),
        _ => c14(),
    }
}
