//! C15, C21: the request router, the heartbeat reaper and the scheduler loop driven in one thread under paused time with
//! random requests (valid, repeated, unknown, foreign, unauthenticated), lost heartbeats and cancellations, against a model.
use execgraph::execgraph::{Cmd, RemoteProvisionerSpec};
use execgraph::httpinterface::*;
use execgraph::logfile2::{LogEntry, LogFile, LogFileRW, LogFileSnapshotReader};
use execgraph::sync::*;
use execgraph::verif::*;
use hyper::Body;
use petgraph::graph::{DiGraph, NodeIndex};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tower::ServiceExt;
use vh::*;

const TOK: &str = "right-token";
type Fails = Vec<(&'static str, &'static str, String)>;

struct Conn {
    tid: u32,
    node: usize,
    job: String,
    begun: bool,
    /// ticks of the reaper when the timer was last (re)started
    beat: u64,
    start: (Instant, Instant),
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Waiting,
    Queued,
    Held,
    Done(i32),
}

struct World {
    st: Vec<T>,
    q: Vec<u32>,
    parents: Vec<BTreeSet<usize>>,
    conns: Vec<Conn>,
    /// ended transactions: id, node, job
    ended: Vec<(u32, String)>,
    acked: BTreeSet<String>,
    began: HashMap<usize, (String, u32, String)>,
    values: HashMap<usize, Vec<(String, String)>>,
    cutoff: Option<(Instant, Instant)>,
    ticks: u64,
    hard: bool,
    known: Vec<String>,
}

impl World {
    fn release(&mut self) {
        for j in 0..self.st.len() {
            if self.st[j] == T::Waiting && self.parents[j].iter().all(|&p| self.st[p] == T::Done(0)) {
                self.st[j] = T::Queued;
            }
        }
    }
    fn over(&self) -> bool {
        self.hard || !self.st.iter().any(|s| matches!(s, T::Queued | T::Held))
    }
}

fn aff(w: &World, i: usize) -> u64 {
    (1 << w.q[i]) | (1 << (8 + i))
}

async fn settle() {
    for _ in 0..10 {
        tokio::task::yield_now().await;
    }
}

type RespFut = Pin<Box<dyn Future<Output = (u16, Vec<u8>)>>>;

fn send(app: &axum::Router, method: &str, path: &str, tok: Option<&str>, job: Option<&str>, ct: &str, body: Vec<u8>) -> RespFut {
    let mut q = hyper::Request::builder().method(method).uri(path).header("content-type", ct);
    if let Some(t) = tok {
        q = q.header("authorization", format!("Bearer {}", t));
    }
    if let Some(j) = job {
        q = q.header("X-EXECGRAPH-SLURM-JOB-ID", j);
    }
    let rq = q.body(Body::from(body)).unwrap();
    let app = app.clone();
    Box::pin(async move {
        let rs = app.oneshot(rq).await.unwrap();
        let st = rs.status().as_u16();
        (st, hyper::body::to_bytes(rs.into_body()).await.unwrap().to_vec())
    })
}
fn pc<T: Serialize>(t: &T) -> Vec<u8> {
    postcard::to_allocvec(t).unwrap()
}
fn unpc<T: DeserializeOwned>(b: &[u8]) -> Option<T> {
    if let Ok(x) = postcard::from_bytes(b) {
        return Some(x);
    }
    let mut v = vec![];
    lzzzz::lz4f::decompress_to_vec(b, &mut v).ok()?;
    postcard::from_bytes(&v).ok()
}
/// let a request run as far as it gets without time passing
async fn quick(f: &mut RespFut) -> Option<(u16, Vec<u8>)> {
    for _ in 0..8 {
        if let std::task::Poll::Ready(x) = futures::poll!(f.as_mut()) {
            return Some(x);
        }
        tokio::task::yield_now().await;
    }
    None
}

/// compare what the provisioner is shown about every task with the model; each task has a queue mask of its own
async fn compare(w: &World, client: &ReadyTrackerClient) -> Result<(), String> {
    let (_, q) = client.get_queuestate(0, Duration::ZERO, Duration::ZERO).await;
    for i in 0..w.st.len() {
        let g = q.get(&aff(w, i)).map(|x| (x.num_ready, x.num_inflight)).unwrap_or((0, 0));
        let want = match w.st[i] {
            T::Queued if !w.over() => (1, 0),
            T::Held => (0, 1),
            _ => (0, 0),
        };
        if g != want {
            return Err(format!("task {} is {:?} but shown as (ready, in flight) = {:?}", i, w.st[i], g));
        }
    }
    Ok(())
}
async fn inflight(w: &World, client: &ReadyTrackerClient, i: usize) -> bool {
    let (_, q) = client.get_queuestate(0, Duration::ZERO, Duration::ZERO).await;
    q.get(&aff(w, i)).map(|x| x.num_inflight > 0).unwrap_or(false)
}

struct Pending {
    f: RespFut,
    job: String,
    q: u32,
    end: bool,
    since: tokio::time::Instant,
}

/// the answer to a start request (or to the one inside an end request)
fn started(w: &mut World, p: &Pending, res: (u16, Vec<u8>), t0: Instant, acked_at_send: bool, fails: &mut Fails, trace: &mut Vec<String>) {
    let sr: Option<StartResponse> = if res.0 != 200 {
        None
    } else if p.end {
        unpc::<EndResponse>(&res.1).and_then(|e| e.start_response)
    } else {
        unpc::<StartResponse>(&res.1)
    };
    match (res.0, sr) {
        (200, Some(s)) => {
            let node: usize = s.cmdline[1].to_str().unwrap().parse().unwrap();
            trace.push(format!("  -> task {} tid {}", node, s.transaction_id));
            if w.acked.contains(&p.job) {
                if acked_at_send {
                    fails.push(("C21", "handed-to-cancelled", format!("task {} handed to job {} which was acknowledged as cancellable before it asked", node, p.job)));
                } else {
                    w.known.push(format!("task {} handed to job {} whose start request was waiting when the job was acknowledged", node, p.job));
                }
            }
            if w.st[node] != T::Queued || w.q[node] != p.q {
                fails.push(("C03", "hand-out", format!("task {} ({:?}, queue {}) handed out on queue {}", node, w.st[node], w.q[node], p.q)));
                return;
            }
            if w.conns.iter().any(|c| c.tid == s.transaction_id) {
                fails.push(("C15", "tid", format!("transaction id {} given out twice", s.transaction_id)));
            }
            w.st[node] = T::Held;
            w.conns.push(Conn { tid: s.transaction_id, node, job: p.job.clone(), begun: false, beat: w.ticks, start: (t0, Instant::now()) });
        }
        (410, _) => {
            trace.push("  -> shutdown".into());
            if !w.over() && !w.acked.contains(&p.job) {
                fails.push(("C03", "hand-out", format!("start of job {} refused with shutdown", p.job)));
            }
        }
        (429, _) if tokio::time::Instant::now().duration_since(p.since) >= Duration::from_secs(29) => trace.push("  -> rate limited".into()),
        (404, _) if p.q >= 64 => {}
        (st, _) => fails.push(("C03", "hand-out", format!("start of job {} answered with {}", p.job, st))),
    }
}

async fn drive(seed: u64, steps: usize, app: axum::Router, w: &mut World, client: &ReadyTrackerClient, token: &CancellationToken, fails: &mut Fails, trace: &mut Vec<String>) {
    let mut r = Rng::new(seed);
    let n = w.st.len();
    let jobs: Vec<String> = (0..4).map(|i| format!("job{}", i)).collect();
    let mut pending: Vec<Pending> = vec![];
    w.release();
    settle().await;
    for _ in 0..steps {
        if !fails.is_empty() {
            return;
        }
        let mut blame = "C15";
        let c = r.below(100);
        let t0 = Instant::now();
        if c < 26 {
            // start
            let job = r.pick(&jobs).clone();
            let q = r.below(2) as u32;
            let msg = format!("msg{}", r.below(1000));
            trace.push(format!("start job {} queue {}", job, q));
            let mut p = Pending { f: send(&app, "GET", "/start", Some(TOK), Some(&job), "application/postcard", pc(&StartRequest { runnertypeid: q, disconnect_error_message: msg.clone() })), job, q, end: false, since: tokio::time::Instant::now() };
            let acked = w.acked.contains(&p.job);
            let free = (0..n).any(|i| w.st[i] == T::Queued && w.q[i] == q);
            match quick(&mut p.f).await {
                Some(x) => {
                    if acked && x.0 != 410 {
                        fails.push(("C21", "start-of-cancelled", format!("a start request of acknowledged job {} is answered with {}", p.job, x.0)));
                    }
                    started(w, &p, x, t0, acked, fails, trace)
                }
                None => {
                    if acked {
                        fails.push(("C21", "start-of-cancelled", format!("a start request of acknowledged job {} is not refused", p.job)));
                    }
                    if free || w.over() {
                        fails.push(("C03", "hand-out", format!("start of job {} waits", p.job)));
                    }
                    trace.push("  -> waits".into());
                    if r.chance(2, 3) && pending.len() < 4 {
                        pending.push(p);
                    }
                }
            }
            if acked {
                blame = "C21";
            }
        } else if c < 40 {
            // begun: valid, repeated, ended, unknown
            let (tid, job, kind) = pick_tid(&mut r, w);
            let host = format!("host{}", r.below(100));
            let pid = r.below(30000) as u32;
            trace.push(format!("begun {} tid {}", kind, tid));
            let live = w.conns.iter().position(|c| c.tid == tid);
            let job = if live.is_some() { job } else { r.pick(&jobs).clone() };
            let mut f = send(&app, "POST", "/begun", Some(TOK), Some(&job), "application/postcard", pc(&BegunRequest { transaction_id: tid, host: host.clone(), pid }));
            let x = quick(&mut f).await.map(|x| x.0);
            match live {
                Some(k) => {
                    if x != Some(200) {
                        fails.push(("C15", "begun", format!("begun of a held task answered with {:?}", x)));
                    }
                    let c = &mut w.conns[k];
                    if !c.begun {
                        c.begun = true;
                        w.began.insert(c.node, (host, pid, job));
                    }
                }
                None if x != Some(404) => fails.push(("C15", "begun", format!("begun of {} transaction answered with {:?}", kind, x))),
                _ => {}
            }
        } else if c < 60 {
            // end: by the holder, by somebody else, repeated, unknown; sometimes asking for the next task
            let (tid, holder, kind) = pick_tid(&mut r, w);
            let foreign = r.chance(1, 4);
            let job = if foreign { r.pick(&jobs).clone() } else { holder.clone() };
            let status = if r.chance(2, 3) { 0 } else { r.below(9) as i32 - 3 };
            let q = r.below(2) as u32;
            let msg = format!("msg{}", r.below(1000));
            let next = r.chance(1, 2);
            let vals: Vec<(String, String)> = (0..r.below(3)).map(|i| (format!("k{}", i), format!("v{}", r.below(10)))).collect();
            trace.push(format!("end {} tid {} by {} (held by {}) status {} next {}", kind, tid, job, holder, status, next));
            let live = w.conns.iter().position(|c| c.tid == tid && c.job == job);
            let body = pc(&EndRequest {
                transaction_id: tid,
                status,
                stdout: String::new(),
                stderr: String::new(),
                values: if vals.is_empty() { vec![] } else { vec![vals.iter().cloned().collect()] },
                start_request: if next { Some(StartRequest { runnertypeid: q, disconnect_error_message: msg.clone() }) } else { None },
            });
            let acked = w.acked.contains(&job);
            let mut p = Pending { f: send(&app, "POST", "/end", Some(TOK), Some(&job), "application/postcard", body.clone()), job: job.clone(), q, end: true, since: tokio::time::Instant::now() };
            // the runner repeats its report before the first one is answered
            let mut early = None;
            if live.is_some() && r.chance(1, 3) {
                early = match futures::poll!(p.f.as_mut()) {
                    std::task::Poll::Ready(x) => Some(x),
                    _ => None,
                };
                let mut f2 = send(&app, "POST", "/end", Some(TOK), Some(&job), "application/postcard", body);
                let x2 = quick(&mut f2).await;
                trace.push(format!("  repeated -> {:?}", x2.as_ref().map(|x| x.0)));
                if x2.as_ref().map(|x| x.0) != Some(404) {
                    if early.is_none() {
                        early = quick(&mut p.f).await;
                    }
                    if early.as_ref().map(|x| x.0) != Some(404) {
                        fails.push(("C15", "end", format!("a completion that is reported twice is accepted twice ({:?} and {:?})", early.map(|x| x.0), x2.map(|x| x.0))));
                        return;
                    }
                    p.f = f2;
                    early = x2;
                }
            }
            let x = match early {
                None => quick(&mut p.f).await,
                x => x,
            };
            settle().await;
            match live {
                Some(k) => {
                    let c = w.conns.swap_remove(k);
                    w.ended.push((c.tid, c.job));
                    w.st[c.node] = T::Done(status);
                    w.values.insert(c.node, vals);
                    if status == 0 {
                        w.release();
                    }
                    let x = match x {
                        None => quick(&mut p.f).await,
                        x => x,
                    };
                    match x {
                        Some(x) if next => started(w, &p, x, t0, acked, fails, trace),
                        Some((200, b)) => {
                            if !matches!(unpc::<EndResponse>(&b), Some(EndResponse { start_response: None })) {
                                fails.push(("C15", "end", "a task is handed out that nobody asked for".into()));
                            }
                        }
                        Some((st, _)) => fails.push(("C15", "end", format!("end by the holder answered with {}", st))),
                        None if next => {
                            if acked {
                                fails.push(("C21", "start-of-cancelled", format!("a start request of acknowledged job {} is not refused", p.job)));
                            }
                            if (0..n).any(|i| w.st[i] == T::Queued && w.q[i] == q) || w.over() {
                                fails.push(("C03", "hand-out", format!("start of job {} waits", p.job)));
                            }
                            trace.push("  -> waits".into());
                            if pending.len() < 4 {
                                pending.push(p);
                            }
                        }
                        None => fails.push(("C15", "end", "end by the holder is not answered".into())),
                    }
                }
                None => {
                    if x.as_ref().map(|x| x.0) != Some(404) {
                        fails.push(("C15", "end", format!("end of {} transaction by job {} (holder {}) answered with {:?}", kind, job, holder, x.map(|x| x.0))));
                    }
                }
            }
        } else if c < 68 {
            let (tid, job, kind) = pick_tid(&mut r, w);
            trace.push(format!("ping {} tid {}", kind, tid));
            let mut f = send(&app, "POST", "/ping", Some(TOK), Some(&job), "application/postcard", pc(&Ping { transaction_id: tid }));
            let x = quick(&mut f).await.map(|x| x.0);
            if x != Some(200) {
                fails.push(("C15", "ping", format!("heartbeat answered with {:?}", x)));
            }
            let t = w.ticks;
            if let Some(c) = w.conns.iter_mut().find(|c| c.tid == tid) {
                c.beat = t;
            }
        } else if c < 77 {
            // time passes; every step is one tick of the reaper
            let k = match r.below(10) {
                0 | 1 => 1 + r.below(5),
                2..=6 => 40 + r.below(120),
                _ => 200 + r.below(120),
            };
            trace.push(format!("{} ticks", k));
            advance(w, k as u64, client, fails, trace).await;
        } else if c < 82 {
            // mark jobs as being cancelled
            let k = 1 + r.below(3);
            let mut ids: Vec<String> = (0..k).map(|_| r.pick(&jobs).clone()).collect();
            if r.chance(1, 4) {
                ids.push("elsewhere".into());
            }
            if r.chance(1, 2) {
                // more often a job that holds nothing, so that the run goes on
                ids = vec!["job3".into()];
            }
            let mut f = send(&app, "POST", "/mark-slurm-job-cancelation", Some(TOK), None, "application/json", serde_json::to_vec(&MarkSlurmJobCancelationRequest { jobids: ids.clone() }).unwrap());
            match quick(&mut f).await {
                Some((200, b)) => {
                    let rep: MarkSlurmJobCancelationReply = serde_json::from_slice(&b).unwrap();
                    trace.push(format!("mark {:?} -> {:?}", ids, rep.jobids));
                    for j in rep.jobids {
                        if !ids.contains(&j) {
                            fails.push(("C21", "ack", format!("job {} acknowledged though nobody asked", j)));
                        }
                        if let Some(c) = w.conns.iter().find(|c| c.job == j) {
                            fails.push(("C21", "ack", format!("job {} acknowledged as cancellable while it holds task {}", j, c.node)));
                        }
                        w.acked.insert(j);
                    }
                }
                x => fails.push(("C21", "ack", format!("mark request answered with {:?}", x.map(|x| x.0)))),
            }
            blame = "C21";
        } else if c < 90 {
            // a request with a wrong or missing token
            blame = "C21";
            let tok = *r.pick(&[None, Some(""), Some("right-toke"), Some("right-tokenx"), Some("Right-token"), Some("wrong")]);
            let (tid, job, kind) = pick_tid(&mut r, w);
            let k = r.below(5);
            trace.push(format!("request {} on {} tid {} with token {:?}", k, kind, tid, tok));
            let p = "application/postcard";
            let free: Vec<String> = jobs.iter().filter(|j| !w.conns.iter().any(|c| &c.job == *j)).cloned().collect();
            let mut f = match k {
                0 => send(&app, "GET", "/start", tok, Some(&job), p, pc(&StartRequest { runnertypeid: 0, disconnect_error_message: String::new() })),
                1 => send(&app, "POST", "/begun", tok, Some(&job), p, pc(&BegunRequest { transaction_id: tid, host: "evil".into(), pid: 1 })),
                2 => send(&app, "POST", "/end", tok, Some(&job), p, pc(&EndRequest { transaction_id: tid, status: 0, stdout: String::new(), stderr: String::new(), values: vec![], start_request: None })),
                3 => send(&app, "POST", "/ping", tok, Some(&job), p, pc(&Ping { transaction_id: tid })),
                _ => send(&app, "POST", "/mark-slurm-job-cancelation", tok, None, "application/json", serde_json::to_vec(&MarkSlurmJobCancelationRequest { jobids: free }).unwrap()),
            };
            match quick(&mut f).await {
                Some((st, _)) if (400..500).contains(&st) => {}
                x => fails.push(("C21", "auth", format!("request {} with token {:?} answered with {:?}", k, tok, x.map(|x| x.0)))),
            }
        } else if c < 93 {
            // start or end without the job's identity
            let (tid, _, kind) = pick_tid(&mut r, w);
            trace.push(format!("no job id, {} tid {}", kind, tid));
            let k = r.below(2);
            let p = "application/postcard";
            let mut f = match k {
                0 => send(&app, "GET", "/start", Some(TOK), None, p, pc(&StartRequest { runnertypeid: 0, disconnect_error_message: String::new() })),
                _ => send(&app, "POST", "/end", Some(TOK), None, p, pc(&EndRequest { transaction_id: tid, status: 0, stdout: String::new(), stderr: String::new(), values: vec![], start_request: None })),
            };
            match quick(&mut f).await {
                Some((st, _)) if (400..500).contains(&st) => {}
                x => fails.push(("C15", "no-job", format!("request {} without a job id answered with {:?}", k, x.map(|x| x.0)))),
            }
        } else if c < 95 {
            let d = 1_000_000 * r.range(1, 2_000) as i64;
            trace.push(format!("clock +{}ms", d / 1_000_000));
            clock::advance(d);
        } else if c < 97 && r.chance(1, 2) {
            // soft cancellation of what began after a moment in the past or now
            let back = Duration::from_millis(*r.pick(&[0, 0, 500, 1500, 3000]));
            let a = Instant::now();
            let t = a - back;
            trace.push(format!("soft cancel -{:?}", back));
            token.cancel(CancellationState::CancelledAfterTime(t));
            clock::advance(1_000_000);
            if w.cutoff.map_or(true, |(x, _)| t <= x) {
                w.cutoff = Some((t, t));
            }
            advance(w, 1, client, fails, trace).await;
        } else if c == 97 && !pending.is_empty() {
            let k = r.below(pending.len());
            trace.push(format!("runner of job {} gives up waiting", pending[k].job));
            pending.swap_remove(k);
        } else if c == 98 {
            let mut f = send(&app, "GET", "/start", Some(TOK), Some("job0"), "application/postcard", pc(&StartRequest { runnertypeid: 64 + r.below(9) as u32, disconnect_error_message: String::new() }));
            if let Some((200, _)) = quick(&mut f).await {
                fails.push(("C03", "hand-out", "an unknown queue is served".into()));
            }
        }
        settle().await;
        // waiting runners
        let mut progress = true;
        while progress {
            progress = false;
            let mut k = 0;
            while k < pending.len() {
                let t0 = t0; // the hand-out happened after the action began
                match quick(&mut pending[k].f).await {
                    Some(x) => {
                        let p = pending.swap_remove(k);
                        trace.push(format!("waiting job {} on queue {} answered", p.job, p.q));
                        started(w, &p, x, t0, false, fails, trace);
                        progress = true;
                    }
                    None => k += 1,
                }
            }
        }
        if w.cutoff.is_some() {
            // hand-outs after a soft cancellation are taken away again at the next tick
            advance(w, 1, client, fails, trace).await;
        }
        if fails.is_empty() {
            if let Err(e) = compare(w, client).await {
                fails.push((blame, "state", format!("after {:?}: {}", trace.iter().rev().take(3).rev().collect::<Vec<_>>(), e)));
            }
        }
        if w.over() && r.chance(1, 3) {
            return;
        }
    }
}

fn pick_tid(r: &mut Rng, w: &World) -> (u32, String, &'static str) {
    let c = r.below(10);
    if c < 7 && !w.conns.is_empty() {
        let k = r.below(w.conns.len());
        return (w.conns[k].tid, w.conns[k].job.clone(), "held");
    }
    if c < 9 && !w.ended.is_empty() {
        let (t, j) = r.pick(&w.ended).clone();
        if !w.conns.iter().any(|c| c.tid == t) {
            return (t, j, "ended");
        }
    }
    let mut t = r.next() as u32;
    while w.conns.iter().any(|c| c.tid == t) {
        t = r.next() as u32;
    }
    (t, "job0".into(), "unknown")
}

/// let time pass, one tick of the reaper after the other, and look for disconnects
async fn advance(w: &mut World, k: u64, client: &ReadyTrackerClient, fails: &mut Fails, trace: &mut Vec<String>) {
    let timeout = execgraph::constants::PING_TIMEOUT_MSECS;
    let tick_ms = 137u64; // (timeout + 1) / 256, rounded up
    let due = timeout * 256 / (timeout + 1);
    let mut left = k;
    while left > 0 && fails.is_empty() {
        left -= 1;
        tokio::time::advance(Duration::from_millis(tick_ms + 1)).await;
        w.ticks += 1;
        settle().await;
        let mut i = 0;
        let mut ambiguous = false;
        while i < w.conns.len() {
            let c = &w.conns[i];
            let age = w.ticks - c.beat;
            // (timer) must not / may / must have fired
            let mut must = age > due + 2;
            let mut may = age + 3 >= due;
            if let Some((lo, hi)) = w.cutoff {
                must |= c.start.0 > hi;
                may |= c.start.1 > lo;
            }
            if !may {
                // checked by the comparison after the action
                i += 1;
                continue;
            }
            let gone = !inflight(w, client, c.node).await;
            if gone {
                let c = w.conns.swap_remove(i);
                trace.push(format!("  task {} (job {}) disconnected at age {} ticks", c.node, c.job, age));
                w.ended.push((c.tid, c.job));
                w.st[c.node] = T::Done(-1);
                w.values.insert(c.node, vec![]);
                continue;
            }
            if must {
                fails.push(("C15", "expiry", format!("task {} is still in flight {} ticks after the last heartbeat (timeout {} ticks), soft cancellation {:?}, held since {:?}", c.node, age, due, w.cutoff, c.start)));
                return;
            }
            ambiguous = true;
            i += 1;
        }
        if ambiguous && left == 0 {
            left = 1;
        }
    }
}

fn run_one(seed: u64, dir: &std::path::Path) -> (Fails, Vec<String>, bool, String) {
    let mut r = Rng::new(seed);
    let d = dag(&mut r, 9);
    let n = d.len();
    let sparse = r.chance(2, 3);
    let mut w = World {
        st: vec![T::Waiting; n],
        q: (0..n).map(|_| if r.chance(2, 3) { 0 } else { 1 }).collect(),
        parents: d.iter().enumerate().map(|(i, v)| v.iter().copied().filter(|_| !sparse || i % 2 == 1).collect()).collect(),
        conns: vec![],
        ended: vec![],
        acked: BTreeSet::new(),
        began: HashMap::new(),
        values: HashMap::new(),
        cutoff: None,
        ticks: 0,
        hard: false,
        known: vec![],
    };
    let mut fails: Fails = vec![];
    let mut trace = vec![];
    let desc = format!("{:?} queues {:?}", w.parents, w.q);
    let cmds: &'static Vec<Cmd> = Box::leak(Box::new((0..n).map(|i| cmd(&["task", &i.to_string()], &format!("k{}", i), aff(&w, i), 0)).collect()));
    let mut g: DiGraph<&'static Cmd, ()> = DiGraph::new();
    for c in cmds {
        g.add_node(c);
    }
    for (i, ps) in w.parents.iter().enumerate() {
        for &p in ps {
            g.add_edge(NodeIndex::new(p), NodeIndex::new(i), ());
        }
    }
    let path = dir.join(format!("log-{:x}", seed));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let mut interesting = false;
    {
        let mut logfile = LogFile::<LogFileRW>::new(&path).unwrap();
        logfile.write(LogEntry::new_header("wk", vec![]).unwrap()).unwrap();
        let token = CancellationToken::new();
        let g = Arc::new(g);
        let (mut server, client) = new_ready_tracker(g.clone(), &mut logfile, 0, u32::MAX, 0);
        let client: &'static ReadyTrackerClient = Box::leak(Box::new(client));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rt.block_on(async {
                let state = Arc::new(State::new(g, client, token.clone(), RemoteProvisionerSpec { cmd: "true".into(), info: None }, TOK.into()));
                let app = router(state.clone());
                let (stop, stopped) = tokio::sync::oneshot::channel();
                let done = AtomicBool::new(false);
                let steps = 40 + r.below(120);
                let (a, _, _) = tokio::join!(
                    async {
                        let x = server.background_serve(token.clone()).await;
                        done.store(true, SeqCst);
                        x
                    },
                    state.reap_pings_forever(stopped),
                    async {
                        let seed = r.next();
                        drive(seed, steps, app, &mut w, client, &token, &mut fails, &mut trace).await;
                        w.hard = true;
                        token.cancel(CancellationState::HardCancelled);
                        settle().await;
                        let _ = stop.send(());
                    }
                );
                a.unwrap();
                server.drain().unwrap();
            })
        }));
        if let Err(e) = res {
            let t = panic_text(e);
            fails.push(("C15", "panic", format!("panic: {}", t)));
        }
        drop(server);
        let _ = logfile.flush();
        if fails.is_empty() {
            let entries = LogFileSnapshotReader::open(path.clone()).unwrap().read().unwrap();
            for i in 0..n {
                let key = format!("k{}", i);
                let started: Vec<_> = entries.iter().filter_map(|e| match e { LogEntry::Started(s) if s.key == key => Some(s), _ => None }).collect();
                let fin: Vec<_> = entries.iter().filter_map(|e| match e { LogEntry::Finished(s) if s.key == key => Some(s), _ => None }).collect();
                // held at the end: the running ones get a disconnect
                let want = match w.st[i] {
                    T::Done(s) => Some(s),
                    T::Held if w.conns.iter().any(|c| c.node == i && c.begun) => Some(-1),
                    _ => None,
                };
                match want {
                    None => {
                        if !fin.is_empty() {
                            fails.push(("C15", "completions", format!("task {} ({:?}) has {} completions", i, w.st[i], fin.len())));
                        }
                    }
                    Some(s) => {
                        if fin.len() != 1 || fin[0].status != s {
                            fails.push(("C15", "completions", format!("task {} ({:?}): completions {:?}, expected one with status {}", i, w.st[i], fin.iter().map(|f| f.status).collect::<Vec<_>>(), s)));
                        } else if let T::Done(_) = w.st[i] {
                            let v = &w.values[&i];
                            let want: Vec<HashMap<String, String>> = if v.is_empty() { vec![] } else { vec![v.iter().cloned().collect()] };
                            if fin[0].values != want {
                                fails.push(("C15", "completions", format!("task {}: values {:?} recorded, its holder reported {:?}", i, fin[0].values, want)));
                            }
                        }
                    }
                }
                if let Some((host, pid, job)) = w.began.get(&i) {
                    if started.len() != 1 || &started[0].host != host || started[0].pid != *pid || &started[0].slurm_jobid != job {
                        fails.push(("C15", "begun", format!("task {}: {} start notices recorded: {:?}, expected one by {} {} {}", i, started.len(), started, host, pid, job)));
                    }
                } else if started.len() > fin.len() {
                    fails.push(("C15", "begun", format!("task {}: a start was recorded that nobody sent", i)));
                }
            }
        }
        interesting |= w.ended.len() > 1;
    }
    let _ = std::fs::remove_file(&path);
    if let Some(t) = w.known.pop() {
        fails.push(("C21", "ack-while-start-pending", t));
    }
    (fails, trace, interesting, desc)
}

fn main() {
    own_group();
    silence();
    let me = std::env::args().nth(1).unwrap_or("C15".into());
    let dir = Scratch::new();
    let mut run = Run::new(
        "a run counts as non-trivial when at least two tasks held by runners ended",
        "random graphs of up to 9 tasks, 4 cluster jobs, up to 160 requests (start, begun, end, ping, mark; valid, repeated, unknown, by another job, without or with a wrong token), waiting and abandoned start requests, lost heartbeats over virtual time, soft cancellations; one thread, paused time",
        40.,
    );
    let mut r = Rng::new(seed());
    while run.time_left() {
        let s = r.next();
        let (f, trace, interesting, desc) = run_one(s, &dir.0);
        run.eval();
        if interesting {
            run.nontrivial(&trace);
            run.sample(|| format!("{}: {:?}", desc, trace));
        }
        for (p, id, t) in f {
            if p == me || std::env::var("VH_ALL").is_ok() {
                run.fail(&if id == "ack-while-start-pending" { id.to_string() } else { format!("server-{}", id) }, format!("{}; tasks {}, actions {:?}", t, desc, trace));
            }
        }
    }
    drop(dir);
    run.finish();
}
