//! C01-C06, C20: the scheduler (new_ready_tracker, background_serve, drain, recv) driven with random graphs,
//! completion orders, lost start notices and shutdowns, against a model.  The real code runs; only the clock is shifted.
use execgraph::execgraph::Cmd;
use execgraph::logfile2::{LogEntry, LogFile, LogFileRW, LogFileSnapshotReader};
use execgraph::sync::*;
use execgraph::verif::*;
use petgraph::graph::{DiGraph, NodeIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::*;

type Fails = Vec<(&'static str, String)>;

#[derive(Clone, Debug)]
struct Scn {
    n: usize,
    edges: Vec<(usize, usize)>,
    aff: Vec<u64>,
    prio: Vec<u32>,
    limit: u32,
    seed: u64,
    steps: usize,
}

fn scenario(r: &mut Rng) -> Scn {
    let d = dag(r, 8);
    let n = d.len();
    let mut edges = vec![];
    for (i, v) in d.iter().enumerate() {
        for &p in v {
            edges.push((p, i));
            if r.chance(1, 6) {
                edges.push((p, i));
            }
        }
    }
    // node order and edge order vary
    let mut perm: Vec<usize> = (0..n).collect();
    r.shuffle(&mut perm);
    for e in edges.iter_mut() {
        *e = (perm[e.0], perm[e.1]);
    }
    r.shuffle(&mut edges);
    let masks = [1u64, 1, 2, 3, 4, 6, 7, 1 << 63, (1 << 63) | 1, u64::MAX];
    let one = r.chance(1, 3);
    Scn {
        n,
        edges,
        aff: (0..n).map(|_| if one { 1 } else { *r.pick(&masks) }).collect(),
        prio: (0..n).map(|_| r.below(4) as u32).collect(),
        limit: *r.pick(&[1, 1, 2, 3, u32::MAX, u32::MAX, u32::MAX]),
        seed: r.next(),
        steps: *r.pick(&[3, 8, 20, 60, 200, 200, 200, 200]),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Waiting,
    Queued,
    Taken,
    Started,
    Ok,
    Failed,
}

struct Model {
    st: Vec<T>,
    started_at: Vec<Option<(Instant, Instant)>>,
    parents: Vec<BTreeSet<usize>>,
    order: Vec<usize>,
    n_failed: u32,
    n_fizzled: u32,
    soft: bool,
    limit_hit: bool,
    released: usize,
}

async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

fn cause(m: &Model, id: usize) -> &'static str {
    // which guarantee does handing out task `id` now break
    if m.limit_hit {
        return "C05";
    }
    let mut seen = BTreeSet::new();
    let mut st = vec![id];
    while let Some(x) = st.pop() {
        for &p in &m.parents[x] {
            if m.st[p] == T::Failed {
                return "C02";
            }
            if seen.insert(p) {
                st.push(p);
            }
        }
    }
    match m.st[id] {
        T::Waiting => "C01",
        T::Taken | T::Started => "C03",
        _ => "C01",
    }
}

async fn drive(s: &Scn, client: ReadyTrackerClient, cmds: &[Cmd], token: CancellationToken, done: &AtomicBool, fails: &mut Fails, trace: &mut Vec<String>) -> (Model, bool) {
    let mut r = Rng::new(s.seed);
    let mut m = Model {
        st: vec![T::Waiting; s.n],
        started_at: vec![None; s.n],
        parents: vec![BTreeSet::new(); s.n],
        order: vec![],
        n_failed: 0,
        n_fizzled: 0,
        soft: false,
        limit_hit: false,
        released: 0,
    };
    for &(a, b) in &s.edges {
        m.parents[b].insert(a);
    }
    for i in 0..s.n {
        if m.parents[i].is_empty() {
            m.st[i] = T::Queued;
            m.released += 1;
        }
    }
    settle().await;
    let client = &client;
    let mut pending: Vec<(u32, std::pin::Pin<Box<dyn std::future::Future<Output = Result<NodeIndex, ReadyTrackerClientError>> + '_>>)> = vec![];
    let rate = |what: &str| what.to_string();
    let queues = [0u32, 1, 2, 63, 5];
    let mut clean = true; // the model knows the exact state of the server
    for step in 0..s.steps {
        // 1. pending receivers first
        let mut progressed = true;
        while progressed {
            progressed = false;
            let mut i = 0;
            while i < pending.len() {
                let p = futures::poll!(pending[i].1.as_mut());
                match p {
                    std::task::Poll::Ready(res) => {
                        let (q, _) = pending.swap_remove(i);
                        handle_recv(s, &mut m, q, Some(res), fails, trace, "pending");
                        progressed = true;
                    }
                    std::task::Poll::Pending => i += 1,
                }
            }
        }
        for (q, _) in &pending {
            if m.soft {
                fails.push(("C03", "a waiting runner is not told about the shutdown".into()));
            }
            if (0..s.n).any(|i| m.st[i] == T::Queued && s.aff[i] >> q & 1 == 1) {
                fails.push(("C02", rate("a waiting runner does not receive a queued task of its queue")));
                fails.push(("C03", rate("a waiting runner does not receive a queued task of its queue")));
            }
        }
        // 2. compare counts
        compare_counts(s, &m, client, fails, m.soft && !m.limit_hit).await;
        if !fails.is_empty() {
            break;
        }
        if done.load(SeqCst) {
            break;
        }
        // 3. next action
        let taken: Vec<usize> = (0..s.n).filter(|&i| m.st[i] == T::Taken).collect();
        let started: Vec<usize> = (0..s.n).filter(|&i| m.st[i] == T::Started).collect();
        let queued = (0..s.n).any(|i| m.st[i] == T::Queued);
        let c = r.below(100);
        if c < 40 {
            let q = *r.pick(&queues);
            let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = _> + '_>> = Box::pin(client.recv(q));
            match futures::poll!(f.as_mut()) {
                std::task::Poll::Ready(res) => handle_recv(s, &mut m, q, Some(res), fails, trace, "recv"),
                std::task::Poll::Pending => {
                    handle_recv(s, &mut m, q, None, fails, trace, "recv");
                    if r.chance(1, 3) && pending.len() < 3 {
                        pending.push((q, f));
                    }
                }
            }
        } else if c < 60 {
            if let Some(&i) = taken.first().map(|_| r.pick(&taken)) {
                trace.push(format!("start {}", i));
                let a = Instant::now();
                client.send_started(NodeIndex::new(i), &cmds[i], "h", 1, String::new()).await;
                settle().await;
                m.started_at[i] = Some((a, Instant::now()));
                m.st[i] = T::Started;
                if done.load(SeqCst) {
                    fails.push(("C04", "the loop ended on a start notice".into()));
                }
            }
        } else if c < 88 {
            // a completion, sometimes of a task whose start notice was lost
            let pool = if !started.is_empty() && (taken.is_empty() || r.chance(4, 5)) { &started } else { &taken };
            if let Some(&i) = pool.first().map(|_| r.pick(pool)) {
                let ok = r.chance(4, 5);
                let st = if ok { ExitStatus::Code(0) } else { match r.below(4) { 0 => ExitStatus::Cancelled, 1 => ExitStatus::Disconnected, 2 => ExitStatus::Code(-9), _ => ExitStatus::Code(1 + r.below(200) as i32) } };
                let flag = AsyncFlag::new();
                trace.push(format!("finish {} ok={} {:?}", i, ok, m.st[i]));
                let was = m.st[i];
                let a = Instant::now();
                client
                    .send_finished(FinishedEvent { id: NodeIndex::new(i), status: st, stdout: String::new(), stderr: String::new(), values: vec![], flag: Some(flag.clone()) })
                    .await;
                if tokio::time::timeout(Duration::from_secs(20), flag.wait()).await.is_err() {
                    fails.push(("C04", "a completion is never processed".into()));
                    break;
                }
                settle().await;
                let b = Instant::now();
                m.order.push(i);
                let mut fizz = false;
                if !ok {
                    m.st[i] = T::Failed;
                    m.n_failed += 1;
                    if was == T::Started {
                        let (s0, s1) = m.started_at[i].unwrap();
                        let cut = execgraph::constants::FIZZLED_TIME_CUTOFF;
                        let (lo, hi) = (a.saturating_duration_since(s1), b.saturating_duration_since(s0));
                        if hi < cut {
                            fizz = true;
                        } else if lo < cut {
                            clean = false; // too close to tell
                            break;
                        }
                    }
                    if fizz {
                        m.n_fizzled += 1;
                    }
                } else {
                    m.st[i] = T::Ok;
                    if !m.soft {
                        for j in 0..s.n {
                            if m.st[j] == T::Waiting && m.parents[j].contains(&i) && m.parents[j].iter().all(|&p| m.st[p] == T::Ok) {
                                m.st[j] = T::Queued;
                                m.released += 1;
                            }
                        }
                    }
                }
                if m.n_fizzled >= s.limit {
                    let first = !m.limit_hit;
                    m.soft = true;
                    m.limit_hit = true;
                    match token.is_soft_cancelled() {
                        Some(CancellationState::CancelledAfterTime(t)) => {
                            let cut = execgraph::constants::FIZZLED_TIME_CUTOFF;
                            if !(t + cut <= b) {
                                fails.push(("C05", format!("cutoff of the cancellation is {:?} before the failure was processed", b.checked_duration_since(t))));
                            }
                            if fizz && first && !(t + cut >= a) {
                                fails.push(("C05", format!("cutoff of the cancellation is {:?} before the failure was processed", b.checked_duration_since(t))));
                            }
                        }
                        x => fails.push(("C05", format!("limit reached, token is {:?}", x))),
                    }
                } else if token.is_soft_cancelled().is_some() {
                    fails.push(("C05", format!("cancelled with {} early failures, limit {}", m.n_fizzled, s.limit)));
                }
                let running = (0..s.n).filter(|&i| m.st[i] == T::Started).count();
                let open = (0..s.n).filter(|&i| matches!(m.st[i], T::Queued | T::Taken | T::Started)).count();
                let want_done = open == 0 || (m.soft && running == 0);
                let is_done = done.load(SeqCst);
                if want_done {
                    m.soft = true;
                }
                if want_done != is_done {
                    // by what was misjudged: the limit, or the end itself
                    if is_done && m.limit_hit == false && running + open > 0 || !is_done {
                        fails.push(("C04", format!("loop ended: {}, expected: {} (open {}, running {}, shutting down {})", is_done, want_done, open, running, m.soft)));
                    }
                    if is_done {
                        fails.push(("C05", format!("loop ended while {} tasks run and {} are open", running, open)));
                    }
                    if !fails.is_empty() {
                        break;
                    }
                    break;
                }
            }
        } else if c < 92 {
            let d = *r.pick(&[4_700_000_000i64, 1_000_000_000, 2_500_000_000, 5_200_000_000, 9_000_000_000]);
            trace.push(format!("clock +{}ms", d / 1_000_000));
            clock::advance(d);
        } else if c < 94 && !queued && r.chance(1, 3) || c == 94 {
            if !m.soft && step > 4 {
                trace.push("soft shutdown".into());
                client.trigger_soft_shutdown();
                settle().await;
                m.soft = true;
                if done.load(SeqCst) && (0..s.n).any(|i| m.st[i] == T::Started) {
                    fails.push(("C04", "soft shutdown ended the loop while tasks run".into()));
                }
            }
        } else if c == 95 && r.chance(1, 2) && step > 4 {
            // a burst of notices followed at once by a hard cancellation
            trace.push("burst + hard cancel".into());
            for i in 0..s.n {
                if m.st[i] == T::Taken && r.chance(1, 2) {
                    client.send_started(NodeIndex::new(i), &cmds[i], "h", 1, String::new()).await;
                    m.st[i] = T::Started;
                    trace.push(format!("start {}", i));
                }
                if matches!(m.st[i], T::Taken | T::Started) && r.chance(1, 2) {
                    let ok = r.chance(1, 2);
                    trace.push(format!("finish {} ok={} {:?}", i, ok, m.st[i]));
                    client.send_finished(FinishedEvent { id: NodeIndex::new(i), status: ExitStatus::Code(if ok { 0 } else { 3 }), stdout: String::new(), stderr: String::new(), values: vec![], flag: None }).await;
                    m.order.push(i);
                    m.st[i] = if ok { T::Ok } else { T::Failed };
                    if !ok {
                        m.n_failed += 1;
                    }
                }
            }
            token.cancel(CancellationState::HardCancelled);
            for _ in 0..2000 {
                if done.load(SeqCst) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            if !done.load(SeqCst) {
                fails.push(("C04", "a hard cancellation does not end the loop".into()));
            }
            m.soft = true;
            clean = false;
            break;
        } else if c == 96 {
            if !matches!(client.recv(64 + r.below(5) as u32).await, Err(ReadyTrackerClientError::NoSuchRunnerType)) {
                fails.push(("C03", "an unknown runner type is not refused".into()));
            }
        }
        if !fails.is_empty() {
            break;
        }
        if client.get_num_total_tasks() as usize != s.n {
            fails.push(("C20", "total number of tasks is wrong".into()));
        }
        if !done.load(SeqCst) && client.get_num_unready_tasks() as usize != s.n - m.released {
            fails.push(("C20", format!("{} tasks reported not yet eligible, expected {}", client.get_num_unready_tasks(), s.n - m.released)));
        }
        if done.load(SeqCst) {
            // ended: everybody is told
            for q in [0u32, 2, 63] {
                if let Some(Ok(_)) = futures::FutureExt::now_or_never(client.recv(q)) {
                    fails.push(("C03", "work is handed out after the end".into()));
                }
            }
        }
    }
    if fails.is_empty() && !done.load(SeqCst) && clean {
        trace.push("final hard cancel".into());
        token.cancel(CancellationState::HardCancelled);
        for _ in 0..2000 {
            if done.load(SeqCst) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if !done.load(SeqCst) {
            fails.push(("C04", "a hard cancellation does not end the loop".into()));
        }
    } else if !done.load(SeqCst) {
        token.cancel(CancellationState::HardCancelled);
    }
    drop(pending);
    if fails.is_empty() && done.load(SeqCst) && clean {
        m.soft = true;
        compare_counts(s, &m, client, fails, true).await;
        for q in [0u32, 1, 2, 63] {
            if !matches!(futures::FutureExt::now_or_never(client.recv(q)), Some(Err(_))) {
                fails.push(("C03", "a runner is not told that the execution ended".into()));
            }
        }
    }
    (m, clean)
}

fn handle_recv(s: &Scn, m: &mut Model, q: u32, res: Option<Result<NodeIndex, ReadyTrackerClientError>>, fails: &mut Fails, trace: &mut Vec<String>, how: &str) {
    let avail: Vec<usize> = (0..s.n).filter(|&i| m.st[i] == T::Queued && s.aff[i] >> q & 1 == 1).collect();
    match res {
        Some(Ok(id)) => {
            let id = id.index();
            trace.push(format!("{} q{} -> {}", how, q, id));
            if m.soft {
                fails.push((if m.limit_hit { "C05" } else { "C03" }, format!("task {} handed out while shutting down", id)));
                fails.push(("C03", format!("task {} handed out while shutting down", id)));
                return;
            }
            if m.st[id] != T::Queued {
                let c = cause(m, id);
                fails.push((c, format!("task {} handed out on queue {} in state {:?}", id, q, m.st[id])));
                if c == "C02" {
                    // a task below a failure has, in particular, a dependency that did not succeed
                    fails.push(("C01", format!("task {} handed out on queue {} although not all its dependencies succeeded", id, q)));
                }
                return;
            }
            if s.aff[id] >> q & 1 == 0 {
                fails.push(("C03", format!("task {} with affinity {:x} handed out on queue {}", id, s.aff[id], q)));
            }
            if let Some(&b) = avail.iter().max_by_key(|&&i| s.prio[i]) {
                if s.prio[b] > s.prio[id] {
                    fails.push(("C03", format!("task {} (priority {}) handed out before {} (priority {})", id, s.prio[id], b, s.prio[b])));
                    fails.push(("C11", "priority".into()));
                }
            }
            m.st[id] = T::Taken;
        }
        Some(Err(e)) => {
            trace.push(format!("{} q{} -> {}", how, q, e));
            if !m.soft {
                fails.push(("C05", format!("runner on queue {} refused: {} with {} early failures of {}", q, e, m.n_fizzled, s.limit)));
                fails.push(("C03", format!("runner on queue {} refused: {}", q, e)));
            }
        }
        None => {
            if m.soft {
                fails.push(("C03", "a runner waits although the execution is shutting down".into()));
                if m.limit_hit {
                    fails.push(("C05", "a runner waits although the limit was reached".into()));
                }
            } else if let Some(&i) = avail.first() {
                fails.push(("C02", format!("task {} is eligible but not available on queue {}", i, q)));
                fails.push(("C03", format!("task {} is eligible but not available on queue {}", i, q)));
                if m.parents[i].is_empty() {
                    fails.push(("C01", format!("task {} has no dependencies but is not available", i)));
                }
            }
        }
    }
}

async fn compare_counts(s: &Scn, m: &Model, client: &ReadyTrackerClient, fails: &mut Fails, zero: bool) {
    let (_, q) = client.get_queuestate(0, Duration::ZERO, Duration::ZERO).await;
    let mut want: BTreeMap<u64, (u32, u32)> = BTreeMap::new();
    for i in 0..s.n {
        let e = want.entry(s.aff[i]).or_default();
        match m.st[i] {
            T::Queued => e.0 += 1,
            T::Taken | T::Started => e.1 += 1,
            _ => {}
        }
    }
    for (k, (mut r, i)) in want {
        let g = q.get(&k).map(|x| (x.num_ready, x.num_inflight)).unwrap_or((0, 0));
        if zero {
            r = 0;
        }
        if g.1 != i || (g.0 != r && (zero || !m.soft)) {
            fails.push(("C20", format!("affinity {:x}: reported ready {} in flight {}, expected {} and {}", k, g.0, g.1, r, i)));
        }
    }
}

fn run_one(s: &Scn, dir: &std::path::Path) -> (Fails, Vec<String>, bool) {
    let mut fails: Fails = vec![];
    let mut trace = vec![];
    let path = dir.join(format!("log-{:x}", s.seed));
    let cmds: Vec<Cmd> = (0..s.n)
        .map(|i| {
            let mut c = cmd(&["true"], &format!("k{}", i), s.aff[i], s.prio[i]);
            c.runcount = i as u32;
            c
        })
        .collect();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut interesting = false;
    {
        let mut logfile = LogFile::<LogFileRW>::new(&path).unwrap();
        logfile.write(LogEntry::new_header("wk", vec![]).unwrap()).unwrap();
        let mut g: DiGraph<&Cmd, ()> = DiGraph::new();
        for c in &cmds {
            g.add_node(c);
        }
        for &(a, b) in &s.edges {
            g.add_edge(NodeIndex::new(a), NodeIndex::new(b), ());
        }
        let token = CancellationToken::new();
        let (mut server, client) = new_ready_tracker(Arc::new(g), &mut logfile, 0, s.limit, 0);
        let done = AtomicBool::new(false);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = rt.enter();
            rt.block_on(async {
                let (a, b) = tokio::join!(
                    async {
                        let r = server.background_serve(token.clone()).await;
                        done.store(true, SeqCst);
                        r
                    },
                    drive(s, client, &cmds, token.clone(), &done, &mut fails, &mut trace)
                );
                if let Err(e) = a {
                    panic!("background_serve: {:#}", e);
                }
                let (mut m, clean) = b;
                let order: Vec<usize> = server.finished_order.iter().map(|x| x.index()).collect();
                let before = server.n_failed;
                if clean {
                    if order != m.order {
                        let t = format!("finished list {:?}, completions were {:?}", order, m.order);
                        return (m, clean, Some(t));
                    }
                    if before != m.n_failed {
                        let t = format!("{} failures counted, {} happened", before, m.n_failed);
                        return (m, clean, Some(t));
                    }
                } else if !m.order.starts_with(&order) {
                    let t = format!("finished list {:?}, completions were {:?}", order, m.order);
                    return (m, clean, Some(t));
                }
                server.drain().unwrap();
                let running = m.st.iter().filter(|x| **x == T::Started).count() as u32;
                m.n_failed += running;
                let t = if server.n_failed != m.n_failed { Some(format!("after draining {} failures counted, {} happened ({} cut off)", server.n_failed, m.n_failed, running)) } else { None };
                (m, clean, t)
            })
        }));
        let model = match res {
            Ok((m, _clean, t)) => {
                if fails.is_empty() {
                    if let Some(t) = t {
                        fails.push(("C04", t));
                    }
                }
                Some(m)
            }
            Err(e) => {
                let t = panic_text(e);
                if fails.is_empty() {
                    if t.contains("nderflow") || t.contains("arithmetic overflow") || t.contains("subtract with overflow") || t.contains("No such queue") || t.contains("race") {
                        fails.push(("C20", format!("panic: {}", t)));
                    }
                    if t.contains("I see a") || t.contains("Malformed") || t.contains("is_none()") {
                        fails.push(("C06", format!("panic: {}", t)));
                    }
                    fails.push(("C04", format!("panic: {}", t)));
                }
                None
            }
        };
        drop(server);
        let _ = logfile.flush();
        if let (Some(m), true) = (model, fails.is_empty()) {
            let entries = LogFileSnapshotReader::open(path.clone()).unwrap().read().unwrap();
            match log_grammar(&entries) {
                Err(e) => fails.push(("C06", e)),
                Ok(st) => {
                    for i in 0..s.n {
                        let got = st.get(&format!("k{}", i)).copied().unwrap_or('-');
                        let want = match m.st[i] {
                            T::Waiting => "-",
                            T::Queued | T::Taken => "r",
                            T::Started | T::Ok | T::Failed => "f",
                        };
                        // after a burst the loop may have released more than the model knows
                        if !want.contains(got) && !(m.st[i] == T::Waiting && got == 'r' && trace.last().map_or(false, |_| trace.iter().any(|t| t.starts_with("burst")))) {
                            fails.push(("C06", format!("task {} ({:?}): last log entry is {:?}", i, m.st[i], got)));
                        }
                    }
                    // no task twice, and the recorded outcome is the reported one
                    let mut seen: HashMap<&str, u32> = HashMap::new();
                    for e in &entries {
                        if let LogEntry::Ready(r) = e {
                            *seen.entry(&r.key).or_default() += 1;
                        }
                        if let LogEntry::Finished(f) = e {
                            let i: usize = f.key[1..].parse().unwrap();
                            let ok = m.st[i] == T::Ok;
                            if ok != (f.status == 0) {
                                fails.push(("C06", format!("task {} recorded with status {}, model {:?}", i, f.status, m.st[i])));
                            }
                        }
                    }
                    if seen.values().any(|&c| c > 1) {
                        fails.push(("C01", "a task was made available twice".into()));
                    }
                }
            }
            interesting = m.order.len() > 1;
        }
    }
    let _ = std::fs::remove_file(&path);
    (fails, trace, interesting)
}

/// Many runners polling several queues at once on several threads: no task may be handed out twice, none lost.
fn race(run: &mut Run, r: &mut Rng, dir: &std::path::Path) {
    let n = *r.pick(&[2usize, 4, 8, 30, 120]);
    let seed = r.next();
    let cmds: Vec<Cmd> = (0..n).map(|i| cmd(&["true"], &format!("k{}", i), *r.pick(&[3u64, 7, 6, 5, 7, 7]), 0)).collect();
    let path = dir.join(format!("race-{:x}", seed));
    let mut logfile = LogFile::<LogFileRW>::new(&path).unwrap();
    let mut g: DiGraph<&'static Cmd, ()> = DiGraph::new();
    let cmds: &'static Vec<Cmd> = Box::leak(Box::new(cmds));
    for c in cmds {
        g.add_node(c);
    }
    let token = CancellationToken::new();
    let (mut server, client) = new_ready_tracker(Arc::new(g), &mut logfile, 0, u32::MAX, 0);
    let client = Arc::new(client);
    let got: Arc<Vec<AtomicUsize>> = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    let mut fail = vec![];
    rt.block_on(async {
        let mut hs = vec![];
        for w in 0..6u32 {
            let (client, got) = (client.clone(), got.clone());
            hs.push(tokio::spawn(async move {
                let mut bad = None;
                while let Ok(id) = client.recv(w % 3).await {
                    if cmds[id.index()].affinity.data >> (w % 3) & 1 == 0 {
                        bad = Some(format!("task {} handed out on queue {}", id.index(), w % 3));
                    }
                    let before = got[id.index()].fetch_add(1, SeqCst);
                    if before == 0 {
                        client.send_started(id, &cmds[id.index()], "h", 1, String::new()).await;
                        client.send_finished(FinishedEvent { id, status: ExitStatus::Code(0), stdout: String::new(), stderr: String::new(), values: vec![], flag: None }).await;
                    }
                }
                bad
            }));
        }
        let t2 = token.clone();
        let r = tokio::time::timeout(Duration::from_secs(30), std::panic::AssertUnwindSafe(futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(server.background_serve(t2)))).0).await;
        match r {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(e))) => fail.push(("C04", format!("background_serve: {:#}", e))),
            Ok(Err(e)) => {
                let t = panic_text(e);
                fail.push((if t.contains("nderflow") { "C20" } else { "C03" }, format!("panic under concurrent runners: {}", t)));
            }
            Err(_) => fail.push(("C04", "the execution does not end under concurrent runners".into())),
        }
        drop(server);
        for h in hs {
            match tokio::time::timeout(Duration::from_secs(20), h).await {
                Ok(Ok(None)) => {}
                Ok(Ok(Some(b))) => fail.push(("C03", b)),
                Ok(Err(e)) => fail.push(("C20", format!("a runner panicked: {}", e))),
                Err(_) => fail.push(("C03", "a runner is not told that the execution ended".into())),
            }
        }
    });
    for i in 0..n {
        let c = got[i].load(SeqCst);
        if c > 1 {
            fail.push(("C03", format!("task {} handed out {} times to concurrent runners", i, c)));
        } else if c == 0 && fail.is_empty() {
            fail.push(("C03", format!("task {} never handed out", i)));
            fail.push(("C04", format!("the execution ended without running task {}", i)));
        }
    }
    drop(logfile);
    let _ = std::fs::remove_file(&path);
    run.eval();
    let me = std::env::args().nth(1).unwrap_or_default();
    for (p, t) in fail {
        if p == me {
            run.fail("concurrent", t);
        }
    }
}

fn main() {
    own_group();
    silence();
    let me = std::env::args().nth(1).unwrap_or("C01".into());
    let dir = Scratch::new();
    let mut run = Run::new(
        "a run counts as non-trivial when at least two completions were processed",
        "random graphs of up to 8 tasks with duplicate edges, 9 affinity masks, limits 1..3 or none, up to 200 actions (hand-out, start, finish, lost start, clock jump, soft shutdown, burst with hard cancellation), one thread; hand-out races with 6 threads over 120 tasks",
        40.,
    );
    let mut r = Rng::new(seed());
    let conc = matches!(me.as_str(), "C03" | "C20" | "C04");
    let mut k = 0u64;
    while run.time_left() {
        k += 1;
        if conc && k % 40 == 1 {
            for _ in 0..if std::env::var("VH_RACE").is_ok() { 4000 } else { 4 } {
                race(&mut run, &mut r, &dir.0);
            }
        }
        let s = scenario(&mut r);
        let (f, trace, interesting) = run_one(&s, &dir.0);
        run.eval();
        if interesting {
            run.nontrivial(&(s.edges.clone(), trace.clone()));
            run.sample(|| format!("{:?}: {:?}", s.edges, trace));
        }
        for (p, t) in f {
            if p == me || std::env::var("VH_ALL").is_ok() {
                run.fail(&format!("sched-{}", p), format!("{}; tasks {}, edges {:?}, affinities {:?}, limit {}, seed {:#x}, actions {:?}", t, s.n, s.edges, s.aff, s.limit, s.seed, trace));
            }
        }
    }
    drop(dir);
    run.finish();
}
