//! C17: outcomes of real child processes, run locally and by the remote runner, against what the processes did.
//! C19: the remote runner's deadline and accepting decision, as functions and with real children and a stand-in controller.
use execgraph::execgraph::Cmd;
use execgraph::localrunner::*;
use execgraph::logfile2::{LogEntry, LogFile, LogFileRW, LogFileSnapshotReader};
use execgraph::sync::*;
use execgraph::verif::*;
use petgraph::graph::{DiGraph, NodeIndex};
use std::collections::HashMap;
use std::os::unix::process::ExitStatusExt;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::*;

#[allow(dead_code, unused_imports)]
mod remote {
    include!(concat!(env!("EXECGRAPH_VERIF_REPO"), "/src/bin/execgraph-remote.rs"));

    pub mod api {
        use super::*;
        pub fn run_main() {
            let r = super::main();
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        pub struct Opt(super::CommandLineArguments);
        pub fn opt(url: &str, accept: Option<u64>, duration: Option<u64>) -> Opt {
            let mut v = vec!["execgraph-remote".to_string(), url.to_string(), "3".into()];
            if let Some(x) = accept {
                v.push(format!("--max-time-accepting-tasks={}", x));
            }
            if let Some(x) = duration {
                v.push(format!("--duration={}", x));
            }
            Opt(super::CommandLineArguments::try_parse_from(v).unwrap_or_else(|e| panic!("{}", e)))
        }
        pub fn begin() -> std::time::Instant {
            lazy_static::initialize(&super::START_TIME);
            *super::START_TIME
        }
        pub fn usr1(on: bool) {
            super::SIGUSR1_RECEIVED.store(on, std::sync::atomic::Ordering::SeqCst);
        }
        pub fn accepting(o: &Opt) -> bool {
            super::still_accepting_tasks(&o.0)
        }
        pub fn deadline(o: &Opt) -> std::time::Instant {
            super::SigtermChildBeforeSchedulerDeadline::new(&o.0).deadline.into_std()
        }
        /// one task run by the real run_command
        pub async fn one(o: &Opt, start: StartResponse) -> Result<Option<StartResponse>, String> {
            let mut headers = HeaderMap::new();
            headers.insert("Authorization", HeaderValue::from_str("Bearer t").unwrap());
            let client = reqwest::Client::builder().default_headers(headers).http2_prior_knowledge().build().unwrap();
            let base = reqwest::Url::parse(&o.0.url).unwrap();
            let (_tx, mut rx) = tokio::sync::mpsc::channel(1);
            let x = super::run_command(&o.0, &base, &client, &mut rx, Some(start), super::SigtermChildBeforeSchedulerDeadline::new(&o.0)).await;
            x.map(|x| x.1).map_err(|e| format!("{:#?}", e))
        }
    }
}
use execgraph::httpinterface::*;

/// A line of the values channel together with what has to be recorded from it (None: the line is malformed).
fn line(r: &mut Rng) -> (Vec<u8>, Option<HashMap<String, String>>) {
    let mut out = String::new();
    let mut m = HashMap::new();
    let n = r.below(4);
    for k in 0..n {
        if k > 0 {
            out.push_str(*r.pick(&[" ", "  ", "\t"]));
        }
        let key: String = (0..1 + r.below(4)).map(|_| *r.pick(&['a', 'b', 'k', '_', 'é', '9'])).collect();
        let val: String = (0..r.below(6)).map(|_| *r.pick(&['x', 'y', '=', ' ', '"', '\\', 'ß', '#', '1', '$'])).collect();
        let plain = val.chars().all(|c| matches!(c, 'x' | 'y' | '=' | 'ß' | '1' | '$'));
        let word = match r.below(3) {
            0 if plain => format!("{}={}", key, val),
            1 => format!("'{}={}'", key, val),
            _ => format!("{}=\"{}\"", key, val.replace('\\', "\\\\").replace('"', "\\\"").replace('$', "\\$")),
        };
        if r.chance(1, 6) {
            out.push_str(*r.pick(&["word", "'two words'", "x"]));
        } else {
            out.push_str(&word);
            m.insert(key, val);
        }
    }
    if r.chance(1, 8) {
        out.push_str(*r.pick(&[" \"unclosed", " it's", " c=\"x"]));
        return (out.into_bytes(), None);
    }
    (out.into_bytes(), Some(m))
}
fn channel(r: &mut Rng) -> (Vec<u8>, Vec<HashMap<String, String>>) {
    let mut b = vec![];
    let mut want = vec![];
    let n = r.below(5);
    for i in 0..n {
        let (l, m) = line(r);
        let skip = l.is_empty() && i + 1 == n;
        b.extend(l);
        if !(i + 1 == n && r.chance(1, 3)) || skip {
            b.extend(if r.chance(1, 6) { &b"\r\n"[..] } else { &b"\n"[..] });
        }
        want.extend(m);
    }
    if r.chance(1, 10) {
        // a line that is not text takes nothing else with it
        let l = [&b"\n\xff\xfe\n"[..], &b"\n\xc3 \n"[..]];
        let l = *r.pick(&l);
        b.extend(l);
    }
    (b, want)
}
/// maps without entries (lines without words) carry nothing
fn full(v: &[HashMap<String, String>]) -> Vec<HashMap<String, String>> {
    v.iter().filter(|m| !m.is_empty()).cloned().collect()
}
fn output_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        7 => 60_000 + r.below(100_000),
        _ => r.below(40),
    };
    let style = r.below(3);
    (0..n).map(|_| match style { 0 => b'a' + r.below(26) as u8, 1 => r.next() as u8, _ => *r.pick(b"\n a\xc3\xa9\0") }).collect()
}

#[derive(Clone, Copy, Debug)]
enum Exit {
    Code(i32),
    Sig(i32),
}
impl Exit {
    fn any(r: &mut Rng) -> Exit {
        match r.below(5) {
            0 | 1 => Exit::Code(0),
            2 => Exit::Code(1 + r.below(255) as i32),
            _ => Exit::Sig(*r.pick(&[9, 15, 11, 6, 2, 1])),
        }
    }
    fn status(&self) -> i32 {
        match self {
            Exit::Code(c) => *c,
            Exit::Sig(s) => -s,
        }
    }
    fn raw(&self) -> i32 {
        match self {
            Exit::Code(c) => c << 8,
            Exit::Sig(s) => *s,
        }
    }
    fn script(&self) -> String {
        match self {
            Exit::Code(c) => format!("exit {}", c),
            Exit::Sig(s) => format!("kill -{} $$; sleep 5; exit 77", s),
        }
    }
}
struct Job {
    out: Vec<u8>,
    err: Vec<u8>,
    fd3: Vec<u8>,
    vals: Vec<HashMap<String, String>>,
    exit: Exit,
    script: String,
}
fn job(r: &mut Rng, dir: &std::path::Path) -> Job {
    let (fd3, vals) = channel(r);
    let j = Job { out: output_bytes(r), err: output_bytes(r), fd3, vals, exit: Exit::any(r), script: String::new() };
    let id = r.next();
    let f = |n: &str, b: &[u8]| {
        let p = dir.join(format!("{:x}.{}", id, n));
        std::fs::write(&p, b).unwrap();
        p.display().to_string()
    };
    let (a, b, c) = (f("out", &j.out), f("err", &j.err), f("fd3", &j.fd3));
    let cat = match r.below(2) {
        0 => format!("cat {}; cat {} >&2; cat {} >&3", a, b, c),
        _ => format!("cat {} >&3; cat {} >&2 & cat {}; wait", c, b, a),
    };
    Job { script: format!("ulimit -c 0; {}; {}", cat, j.exit.script()), ..j }
}

fn check_event(run: &mut Run, what: &str, j: &Job, status: i32, out: &str, err: &str, vals: &[HashMap<String, String>]) {
    let d = |s: &str| format!("{} ({:?}): {}", what, j.exit, s);
    if status != j.exit.status() {
        run.fail("status", d(&format!("reported status {}", status)));
    }
    if out != String::from_utf8_lossy(&j.out) || err != String::from_utf8_lossy(&j.err) {
        run.fail("output", d(&format!("{} bytes of output and {} of errors reported as {:?} and {:?}", j.out.len(), j.err.len(), out.chars().take(80).collect::<String>(), err.chars().take(80).collect::<String>())));
    }
    if full(vals) != full(&j.vals) {
        run.fail("values", d(&format!("values {:?} recorded from {:?}, expected {:?}", vals, String::from_utf8_lossy(&j.fd3), j.vals)));
    }
}

fn functions(run: &mut Run, r: &mut Rng) {
    for _ in 0..300 {
        run.eval();
        let (fd3, vals) = channel(r);
        let j = Job { out: output_bytes(r), err: output_bytes(r), fd3, vals, exit: Exit::any(r), script: String::new() };
        if j.fd3.len() > 5 {
            run.nontrivial(&j.fd3);
            run.sample(|| format!("{:?}", String::from_utf8_lossy(&j.fd3)));
        }
        let o = ChildOutput { status: std::process::ExitStatus::from_raw(j.exit.raw()), stdout: j.out.clone(), stderr: j.err.clone(), fd3bytes: j.fd3.clone() };
        check_event(run, "ChildOutput", &j, o.code().as_i32(), &o.stdout_str(), &o.stderr_str(), &o.fd3_values());
        let id = NodeIndex::new(r.below(1000));
        let e = o.to_event(id);
        if e.id != id {
            run.fail("event", format!("event of {:?} for {:?}", e.id, id));
        }
        check_event(run, "to_event", &j, e.status.as_i32(), &e.stdout, &e.stderr, &e.values);
        let (c, d, x) = (FinishedEvent::new_cancelled(id), FinishedEvent::new_disconnected(id, "m".into()), FinishedEvent::new_error(id, 41, "n".into()));
        if c.status.as_i32() != -10 || d.status.as_i32() != -1 || d.stderr != "m" || x.status.as_i32() != 41 || x.stderr != "n" || c.id != id || d.id != id || x.id != id {
            run.fail("fixed-codes", "cancelled, disconnected or error events carry other codes");
        }
    }
}

/// a child run under wait_with_output
async fn wait_one(run: &mut Run, r: &mut Rng, dir: &std::path::Path) {
    use std::os::fd::AsRawFd;
    use tokio_command_fds::{CommandFdExt, FdMapping};
    let j = job(r, dir);
    let (rd, wr) = tokio_pipe::pipe().unwrap();
    let child = tokio::process::Command::new("sh")
        .args(["-c", &j.script])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .fd_mappings(vec![FdMapping { parent_fd: wr.as_raw_fd(), child_fd: 3 }])
        .unwrap()
        .spawn()
        .unwrap();
    drop(wr);
    run.eval();
    match tokio::time::timeout(Duration::from_secs(30), wait_with_output(child, rd)).await {
        Ok(Ok(o)) => {
            let e = o.to_event(NodeIndex::new(1));
            check_event(run, "child", &j, e.status.as_i32(), &e.stdout, &e.stderr, &e.values);
        }
        Ok(Err(e)) => run.fail("wait", format!("{:?}: {}", j.exit, e)),
        Err(_) => run.fail("wait", "waiting for a finished child does not end".to_string()),
    }
}

/// a small execution with the local runner; the log tells the outcomes
fn local(run: &mut Run, r: &mut Rng, dir: &std::path::Path) {
    let n = 3 + r.below(6);
    let mut jobs: Vec<Option<Job>> = (0..n).map(|_| Some(job(r, dir))).collect();
    let console = r.chance(1, 4);
    let aff = if console { 2 } else { 1 };
    let mut cmds: Vec<Cmd> = jobs.iter().enumerate().map(|(i, j)| cmd(&["sh", "-c", &j.as_ref().unwrap().script], &format!("k{}", i), aff, 0)).collect();
    // one that cannot be started, one that reads its input
    jobs[0] = None;
    cmds[0] = cmd(&["/nonexistent/program"], "k0", aff, 0);
    let mut input = output_bytes(r);
    input.truncate(60_000);
    let copy = dir.join("copy");
    cmds[1] = cmd(&["sh", "-c", &format!("sleep 0.2; cat <&5 >{}", copy.display())], "k1", aff, 0);
    cmds[1].fd_input = Some((5, input.clone()));
    jobs[1] = None;
    // ones that leave their input alone, whatever its size, with more output than fits a pipe
    for i in [2, n - 1] {
        cmds[i].fd_input = Some((6, vec![b'x'; *r.pick(&[10, 30_000, 200_000])]));
    }
    // a soft or hard cancellation while one runs
    let cancel = r.below(3);
    let slow = n;
    cmds.push(cmd(&["sh", "-c", if cancel > 0 { "sleep 20" } else { "exit 0" }], &format!("k{}", n), aff, 0));
    cmds[slow].priority = 0;
    for c in cmds.iter_mut().take(slow) {
        c.priority = 5;
    }
    let path = dir.join("llog");
    let _ = std::fs::remove_file(&path);
    let mut logfile = LogFile::<LogFileRW>::new(&path).unwrap();
    logfile.write(LogEntry::new_header("wk", vec![]).unwrap()).unwrap();
    let mut g: DiGraph<&Cmd, ()> = DiGraph::new();
    for c in &cmds {
        g.add_node(c);
    }
    let g = Arc::new(g);
    let token = CancellationToken::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let (mut server, client) = new_ready_tracker(g.clone(), &mut logfile, 0, u32::MAX, 0);
    let res = rt.block_on(async {
        let ty = || if console { LocalQueueType::ConsoleQueue } else { LocalQueueType::NormalLocalQueue };
        tokio::time::timeout(Duration::from_secs(60), async {
            tokio::join!(
                server.background_serve(token.clone()),
                run_local_process_loop(g.clone(), &client, token.clone(), ty()),
                run_local_process_loop(g.clone(), &client, token.clone(), ty()),
                async {
                    if cancel > 0 {
                        // all others done
                        loop {
                            let (_, q) = client.get_queuestate(0, Duration::ZERO, Duration::ZERO).await;
                            let s = q.get(&aff).map(|x| (x.num_ready, x.num_inflight)).unwrap_or((0, 0));
                            if s == (0, 1) {
                                break;
                            }
                            tokio::time::sleep(Duration::from_millis(3)).await;
                        }
                        tokio::time::sleep(Duration::from_millis(30)).await;
                        token.cancel(if cancel == 1 { CancellationState::CancelledAfterTime(Instant::now() - Duration::from_secs(600)) } else { CancellationState::HardCancelled });
                        if cancel == 1 {
                            // begun after the cutoff: released
                        }
                    }
                }
            )
        })
        .await
        .map(|x| x.0.map(|_| ()).map_err(|e| e.to_string()))
    });
    match res {
        Err(_) => run.fail("local", "an execution of terminating tasks does not end".to_string()),
        Ok(Err(e)) => run.fail("local", e),
        Ok(Ok(())) => {}
    }
    {
        let _g = rt.enter();
        server.drain().unwrap();
    }
    let n_failed = server.n_failed;
    drop(server);
    let _ = logfile.flush();
    run.eval();
    let mut want_failed = 0;
    let entries = LogFileSnapshotReader::open(path.clone()).unwrap().read().unwrap();
    for i in 0..cmds.len() {
        let key = format!("k{}", i);
        let f: Vec<_> = entries.iter().filter_map(|e| match e { LogEntry::Finished(f) if f.key == key => Some(f), _ => None }).collect();
        if f.len() != 1 {
            run.fail("local", format!("task {} has {} completions", i, f.len()));
            continue;
        }
        let f = f[0];
        let want = match &jobs.get(i) {
            Some(Some(j)) => Some(j.exit.status()),
            _ if i == 1 => Some(0),
            _ if i == slow => Some(match cancel { 0 => 0, 1 => -10, _ => -1 }),
            _ => None, // not startable
        };
        if want.map_or(f.status == 0, |w| w != f.status) {
            run.fail("status", format!("{} task {} recorded with status {}, expected {:?}", if console { "console" } else { "local" }, i, f.status, want));
        }
        if want != Some(0) {
            want_failed += 1;
        }
        if let Some(Some(j)) = jobs.get(i) {
            if full(&f.values) != full(&j.vals) {
                run.fail("values", format!("values {:?} recorded from {:?}, expected {:?}", f.values, String::from_utf8_lossy(&j.fd3), j.vals));
            }
        }
    }
    if n_failed != want_failed {
        run.fail("status", format!("{} tasks counted as failed, {} failed", n_failed, want_failed));
    }
    if std::fs::read(&copy).ok().as_ref() != Some(&input) {
        run.fail("input", "a task did not receive its input".to_string());
    }
    drop(logfile);
    let _ = std::fs::remove_file(&path);
}

/// a controller that records what it is told and answers with the prepared tasks
#[derive(Default)]
struct Ctl {
    got: Vec<(&'static str, Instant)>,
    begun: Vec<BegunRequest>,
    end: Vec<(EndRequest, Instant)>,
    next: Vec<StartResponse>,
}
type Shared = Arc<std::sync::Mutex<Ctl>>;

async fn controller() -> (String, Shared) {
    use axum::routing::{get, post};
    use execgraph::http_extensions::axum::Postcard;
    let ctl: Shared = Default::default();
    let (a, b, c) = (ctl.clone(), ctl.clone(), ctl.clone());
    let app = axum::Router::new()
        .route("/start", get(move |Postcard(_q): Postcard<StartRequest>| async move {
            let mut l = a.lock().unwrap();
            l.got.push(("start", Instant::now()));
            match l.next.pop() {
                Some(s) => Ok(Postcard(s)),
                None => Err(hyper::StatusCode::GONE),
            }
        }))
        .route("/begun", post(move |Postcard(q): Postcard<BegunRequest>| async move {
            let mut l = b.lock().unwrap();
            l.got.push(("begun", Instant::now()));
            l.begun.push(q);
            ""
        }))
        .route("/end", post(move |Postcard(q): Postcard<EndRequest>| async move {
            let mut l = c.lock().unwrap();
            let next = if q.start_request.is_some() { l.next.pop() } else { None };
            l.end.push((q, Instant::now()));
            Postcard(EndResponse { start_response: next })
        }))
        .route("/ping", post(|| async { "" }))
        .layer(axum::extract::DefaultBodyLimit::disable());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    tokio::spawn(axum::Server::from_tcp(l).unwrap().serve(app.into_make_service()));
    (url, ctl)
}
fn resp(tid: u32, script: &str) -> StartResponse {
    StartResponse { transaction_id: tid, cmdline: ["sh", "-c", script].iter().map(|s| s.into()).collect(), fd_input: None, ping_interval_msecs: 15_000 }
}

/// the remote runner reports what its child did
async fn remote_outcome(run: &mut Run, r: &mut Rng, dir: &std::path::Path) {
    let (url, ctl) = controller().await;
    let o = remote::api::opt(&url, None, None);
    for _ in 0..4 {
        run.eval();
        let j = job(r, dir);
        let tid = r.next() as u32;
        match tokio::time::timeout(Duration::from_secs(30), remote::api::one(&o, resp(tid, &j.script))).await {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => {
                run.fail("remote", format!("running a task: {}", e));
                continue;
            }
            Err(_) => {
                run.fail("remote", "a finished task is not reported".to_string());
                continue;
            }
        }
        let mut l = ctl.lock().unwrap();
        if l.begun.len() != 1 || l.end.len() != 1 || l.begun[0].transaction_id != tid || l.end[0].0.transaction_id != tid {
            run.fail("remote", format!("{} start and {} end notices for one task", l.begun.len(), l.end.len()));
        } else {
            let e = &l.end[0].0;
            check_event(run, "remote", &j, e.status, &e.stdout, &e.stderr, &e.values);
        }
        l.begun.clear();
        l.end.clear();
    }
    let mut s = resp(5, "");
    s.cmdline = vec!["/nonexistent/program".into()];
    let _ = tokio::time::timeout(Duration::from_secs(30), remote::api::one(&o, s)).await;
    {
        let mut l = ctl.lock().unwrap();
        if l.end.len() != 1 || l.end[0].0.status == 0 {
            run.fail("status", format!("a program that cannot be started: {:?}", l.end.iter().map(|e| e.0.status).collect::<Vec<_>>()));
        }
        l.end.clear();
    }
    // input that nobody reads
    let mut s = resp(6, "head -c 150000 /dev/zero; exit 4");
    s.fd_input = Some((6, vec![b'x'; *r.pick(&[10, 30_000, 200_000])]));
    let x = tokio::time::timeout(Duration::from_secs(20), remote::api::one(&o, s)).await;
    let l = ctl.lock().unwrap();
    if x.is_err() || l.end.len() != 1 || l.end[0].0.status != 4 {
        run.fail("status", format!("a task that does not read its input: {:?}", l.end.iter().map(|e| e.0.status).collect::<Vec<_>>()));
    }
}

fn want_deadline(begin: Instant, duration: Option<u64>) -> Instant {
    const YEAR: u64 = 365 * 86400;
    let d = duration.unwrap_or(YEAR).min(YEAR);
    begin + Duration::from_secs(if d > 120 { d - 60 } else { d })
}

fn limits(run: &mut Run, r: &mut Rng) {
    let begin = remote::api::begin();
    for _ in 0..400 {
        run.eval();
        if r.chance(1, 4) {
            clock::advance(r.range(1, 3_000_000_000) as i64);
        }
        let el = begin.elapsed().as_secs();
        let dur = match r.below(7) {
            0 => None,
            1 => Some(r.range(0, 300)),
            2 => Some(r.range(118, 123)),
            3 => Some(31_536_000 - 70 + r.range(0, 140)),
            4 => Some(*r.pick(&[0, 1, 59, 60, 61, 119, 120, 121, 179, 180, 181, 31_535_999, 31_536_000, 31_536_001, u64::MAX, u64::MAX / 2])),
            _ => Some(r.next() >> r.below(60)),
        };
        let got = remote::api::deadline(&remote::api::opt("http://x/", None, dur));
        if got != want_deadline(begin, dur) {
            run.fail("deadline", format!("duration {:?}: the child is asked to stop {:?} after the start of the runner", dur, got.checked_duration_since(begin)));
        }
        run.nontrivial(&dur);
        let acc = match r.below(4) {
            0 => None,
            1 => Some(el + r.range(0, 3)),
            2 => Some(el.saturating_sub(r.range(0, 3))),
            _ => Some(r.next() >> r.below(62)),
        };
        let usr1 = r.chance(1, 4);
        let o = remote::api::opt("http://x/", acc, dur);
        remote::api::usr1(usr1);
        let a = begin.elapsed();
        let got = remote::api::accepting(&o);
        let b = begin.elapsed();
        remote::api::usr1(false);
        let w = |e: Duration| !usr1 && acc.map_or(true, |l| e < Duration::from_secs(l));
        if w(a) == w(b) && got != w(a) {
            run.fail("accepting", format!("after {:?} with limit {:?}, told to stop: {}: accepting is {}", a, acc, usr1, got));
        }
    }
}

/// real children under a deadline, and the request for another task
async fn limits_running(run: &mut Run, r: &mut Rng) {
    let begin = remote::api::begin();
    let (url, ctl) = controller().await;
    // the end of the duration
    let el = begin.elapsed();
    if el.as_secs() > 60 && el.as_secs() < 125 {
        clock::advance(70_000_000_000);
    }
    // the next full second but one is the deadline
    let e = begin.elapsed().as_secs() + 2;
    let d = if e <= 120 { e } else { e + 60 };
    let want = want_deadline(begin, Some(d));
    let o = remote::api::opt(&url, None, Some(d));
    let sent = Instant::now();
    let res = tokio::time::timeout(Duration::from_secs(30), remote::api::one(&o, resp(1, "trap 'exit 7' TERM; i=0; while [ $i -lt 800 ]; do sleep 0.02; i=$((i+1)); done; exit 3"))).await;
    run.eval();
    {
        let mut l = ctl.lock().unwrap();
        match (&res, l.end.first()) {
            (Ok(Ok(_)), Some((e, at))) => {
                if e.status != 7 {
                    run.fail("deadline", format!("duration {} s, task sent {:?} after the start: it was not asked to stop (status {})", d, sent.duration_since(begin), e.status));
                } else if *at + Duration::from_millis(20) < want {
                    run.fail("deadline", format!("duration {} s: the task was stopped {:?} too early", d, want.duration_since(*at)));
                }
            }
            (r, e) => run.fail("deadline", format!("{:?} {:?}", r.as_ref().map(|x| x.is_ok()), e.map(|e| e.0.status))),
        }
        l.end.clear();
    }
    // asking for another task
    for k in 0..6 {
        run.eval();
        let e0 = begin.elapsed();
        let acc = match k % 3 {
            0 => None,
            1 => Some(e0.as_secs() + 1 + r.range(0, 3)),
            _ => Some(e0.as_secs().saturating_sub(r.range(0, 2))),
        };
        let o = remote::api::opt(&url, acc, None);
        let usr1 = r.chance(1, 4);
        remote::api::usr1(usr1);
        let mut s = resp(2, "exit 0");
        if r.chance(1, 2) {
            s.cmdline = vec!["/nonexistent/program".into()];
        }
        let _ = tokio::time::timeout(Duration::from_secs(30), remote::api::one(&o, s)).await;
        remote::api::usr1(false);
        let mut l = ctl.lock().unwrap();
        if let Some((e, _)) = l.end.first() {
            let w = |e: Duration| !usr1 && acc.map_or(true, |l| e < Duration::from_secs(l));
            let e1 = begin.elapsed();
            if w(e0) == w(e1) && e.start_request.is_some() != w(e0) {
                run.fail("accepting", format!("after {:?} with limit {:?}, told to stop: {}: the runner asks for another task: {}", e0, acc, usr1, e.start_request.is_some()));
            }
        } else {
            run.fail("accepting", "no end notice".to_string());
        }
        l.end.clear();
        l.begun.clear();
    }
}

/// the whole program, told to stop accepting by SIGUSR1 (or not)
async fn program(run: &mut Run, stop: bool) {
    let (url, ctl) = controller().await;
    {
        let mut l = ctl.lock().unwrap();
        for k in 0..3 {
            l.next.push(resp(10 + k, "sleep 0.4"));
        }
    }
    run.eval();
    let mut child = tokio::process::Command::new(std::env::current_exe().unwrap())
        .args([&url, "3"])
        .env("VH_REMOTE", "1")
        .env("EXECGRAPH_AUTHORIZATION_TOKEN", "t")
        .stdin(std::process::Stdio::null())
        .kill_on_drop(true)
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    while ctl.lock().unwrap().begun.is_empty() && t0.elapsed() < Duration::from_secs(20) {
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    if stop {
        unsafe { libc::kill(child.id().unwrap() as i32, libc::SIGUSR1) };
    }
    if tokio::time::timeout(Duration::from_secs(25), child.wait()).await.is_err() {
        run.fail("program", "the remote runner does not end".to_string());
    }
    let l = ctl.lock().unwrap();
    let asked: Vec<bool> = l.end.iter().map(|e| e.0.start_request.is_some()).collect();
    let want: &[bool] = if stop { &[false] } else { &[true, true, true] };
    if asked != want {
        run.fail("accepting", format!("the remote runner {} asks for another task after its tasks: {:?}, expected {:?}", if stop { "told to stop by SIGUSR1" } else { "" }, asked, want));
    }
}

fn main() {
    if std::env::var("VH_REMOTE").is_ok() {
        std::env::remove_var("VH_REMOTE");
        return remote::api::run_main();
    }
    own_group();
    silence();
    let me = std::env::args().nth(1).unwrap_or("C17".into());
    let dir = Scratch::new();
    let mut run = if me == "C17" {
        Run::new("non-trivial: a values channel of more than five bytes", "random exit codes and signals, output of up to 160 kB of text and arbitrary bytes, values channels of up to 6 lines with quoting, malformed and non-text lines; real children run by wait_with_output, the local loop (both kinds, cancellations) and the remote runner", 30.)
    } else {
        Run::new("non-trivial: a distinct total duration", "durations and accepting limits up to u64::MAX seconds around the thresholds, elapsed time shifted by a virtual clock; real children of the remote runner under a deadline; the whole program with SIGUSR1", 30.)
    };
    let mut r = Rng::new(seed());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    remote::api::begin();
    let mut k = 0;
    while run.time_left() {
        if me == "C17" {
            functions(&mut run, &mut r);
            rt.block_on(async {
                for _ in 0..8 {
                    wait_one(&mut run, &mut r, &dir.0).await;
                }
                remote_outcome(&mut run, &mut r, &dir.0).await;
            });
            local(&mut run, &mut r, &dir.0);
        } else {
            limits(&mut run, &mut r);
            rt.block_on(async {
                if k % 4 == 0 {
                    program(&mut run, k % 8 == 0).await;
                } else {
                    limits_running(&mut run, &mut r).await;
                }
            });
            // thresholds are passed by time too
            if k == 0 {
                // stays below two minutes at first
            }
        }
        k += 1;
    }
    drop(dir);
    run.finish();
}
