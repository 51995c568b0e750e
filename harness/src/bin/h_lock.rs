//! C22: two executions never write the same log at once.  The system calls that open, lock, write and remove files are intercepted;
//! at each of them other executions (further open file descriptions, which is what the lock distinguishes) may take whole steps.
use execgraph::logfile2::*;
use std::cell::RefCell;
use std::path::PathBuf;
use vh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    No,
    Opening,
    Open,
    Closing,
}
struct Slot {
    ph: Ph,
    log: Option<LogFile<LogFileRW>>,
    sent: u32,
}
struct World {
    on: bool,
    rng: Rng,
    depth: usize,
    /// whose call is running, innermost last
    stack: Vec<usize>,
    slots: Vec<Slot>,
    path: PathBuf,
    trace: Vec<String>,
    bad: Vec<String>,
    written: Vec<String>,
    next: u32,
    steps: usize,
    /// how often anything else than the innermost step has changed
    stirred: u64,
}
thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    W.try_with(|w| w.try_borrow_mut().ok().and_then(|mut w| w.as_mut().map(f))).ok().flatten()
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: libc::c_int, op: libc::c_int) -> libc::c_int {
    point("flock");
    let r = libc::syscall(libc::SYS_flock, fd, op) as libc::c_int;
    let e = *libc::__errno_location();
    point("flocked");
    *libc::__errno_location() = e;
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> libc::c_int {
    point("unlink");
    let r = libc::syscall(libc::SYS_unlink, p) as libc::c_int;
    let e = *libc::__errno_location();
    point("unlinked");
    *libc::__errno_location() = e;
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let busy = fd > 2 && with(|w| w.on && !w.stack.is_empty()).unwrap_or(false);
    if busy {
        point("write");
        with(|w| {
            w.on = false;
        });
        let name = std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok();
        with(|w| {
            w.on = true;
            let me = *w.stack.last().unwrap();
            if name.as_deref() == Some(w.path.as_path()) {
                w.trace.push(format!("[{} writes {} bytes to the log]", me, n));
                for (i, s) in w.slots.iter().enumerate() {
                    if i != me && s.ph == Ph::Open {
                        w.bad.push(format!("execution {} wrote to the log while {} has it open", me, i));
                    }
                }
            }
        });
    }
    libc::syscall(libc::SYS_write, fd, b, n) as libc::ssize_t
}

fn point(what: &str) {
    if !with(|w| w.on && !w.stack.is_empty()).unwrap_or(false) {
        return;
    }
    let go = with(|w| {
        w.trace.push(format!("({}:{})", w.stack.last().unwrap(), what));
        w.depth < 3 && w.steps > 0 && w.rng.chance(1, 4)
    });
    if go == Some(true) {
        with(|w| w.depth += 1);
        let n = with(|w| 1 + w.rng.below(3)).unwrap();
        for _ in 0..n {
            action();
        }
        with(|w| w.depth -= 1);
    }
}

/// one whole step of an execution that is not in the middle of one
fn action() {
    let Some((i, kind)) = with(|w| {
        if w.steps == 0 {
            return (0, 9);
        }
        w.steps -= 1;
        let i = w.rng.below(w.slots.len());
        let kind = match w.slots[i].ph {
            Ph::No => 0,
            Ph::Open if w.slots[i].log.is_none() => 9,
            Ph::Open if w.rng.chance(1, 3) => 1,
            Ph::Open if w.rng.chance(1, 4) => 3,
            Ph::Open => 2,
            _ => 9,
        };
        (i, kind)
    }) else {
        return;
    };
    match kind {
        0 => {
            let (path, free, st) = with(|w| {
                w.slots[i].ph = Ph::Opening;
                w.stack.push(i);
                w.trace.push(format!("{}:open{{", i));
                w.stirred += 1;
                (w.path.clone(), w.slots.iter().all(|s| s.ph == Ph::No || s.ph == Ph::Opening) && w.slots.iter().filter(|s| s.ph == Ph::Opening).count() == 1, w.stirred)
            })
            .unwrap();
            let r = LogFile::<LogFileRW>::new(&path);
            with(|w| {
                w.stack.pop();
                match r {
                    Ok(l) => {
                        w.trace.push(format!("}}{}:ok", i));
                        for (j, s) in w.slots.iter().enumerate() {
                            if s.ph == Ph::Open {
                                w.bad.push(format!("execution {} opened the log while {} has it open", i, j));
                            }
                        }
                        w.slots[i].log = Some(l);
                        w.slots[i].ph = Ph::Open;
                    }
                    Err(e) => {
                        w.trace.push(format!("}}{}:{}", i, if matches!(e, LogfileError::AlreadyLocked) { "locked".to_string() } else { e.to_string() }));
                        if !matches!(e, LogfileError::AlreadyLocked) {
                            w.bad.push(format!("execution {} could not open the log: {}", i, e));
                        } else if free && st == w.stirred {
                            w.bad.push(format!("execution {} was refused although no other has the log", i));
                        }
                        w.slots[i].ph = Ph::No;
                    }
                }
                w.stirred += 1;
            });
        }
        1 => {
            let l = with(|w| {
                w.slots[i].ph = Ph::Closing;
                w.stack.push(i);
                w.trace.push(format!("{}:close{{", i));
                w.stirred += 1;
                w.slots[i].log.take()
            });
            drop(l);
            with(|w| {
                w.stack.pop();
                w.trace.push(format!("}}{}:closed", i));
                w.slots[i].ph = Ph::No;
                w.stirred += 1;
            });
        }
        2 | 3 => {
            let (l, n) = with(|w| {
                w.next += 1;
                w.stack.push(i);
                w.trace.push(format!("{}:{}{{", i, if kind == 2 { "write" } else { "flush" }));
                (w.slots[i].log.take(), w.next)
            })
            .unwrap();
            let mut l = l.unwrap();
            // it stays open meanwhile
            let key = format!("k{}", n);
            let ok = if kind == 2 { l.write(LogEntry::new_ready(&key, 0, &"x".repeat(if n % 5 == 0 { 9000 } else { 10 }), 0)).is_ok() } else { l.flush().is_ok() };
            with(|w| {
                w.stack.pop();
                w.trace.push("}".to_string());
                w.slots[i].log = Some(l);
                w.slots[i].sent += 1;
                if ok && kind == 2 {
                    w.written.push(key);
                }
            });
        }
        _ => {}
    }
}

fn one(run: &mut Run, seed: u64, dir: &PathBuf) {
    run.eval();
    let path = dir.join("wrk.log");
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(dir.join(".wrk.lock"));
    let mut rng = Rng::new(seed);
    {
        let mut l = LogFile::<LogFileRW>::new(&path).unwrap();
        l.write(LogEntry::new_header("wk", vec![]).unwrap()).unwrap();
    }
    let left = rng.chance(1, 4);
    if left {
        // as a killed process leaves it
        std::fs::write(dir.join(".wrk.lock"), b"x").unwrap();
    }
    let n = 2 + rng.below(2);
    W.with(|w| {
        *w.borrow_mut() = Some(World {
            on: true,
            rng,
            depth: 0,
            stack: vec![],
            slots: (0..n).map(|_| Slot { ph: Ph::No, log: None, sent: 0 }).collect(),
            path: path.clone(),
            trace: vec![],
            bad: vec![],
            written: vec![],
            next: 0,
            steps: 30,
            stirred: 0,
        })
    });
    while with(|w| w.steps > 0 && w.bad.is_empty()) == Some(true) {
        action();
    }
    let mut w = W.with(|w| w.borrow_mut().take()).unwrap();
    for s in w.slots.iter_mut() {
        drop(s.log.take());
    }
    if w.bad.is_empty() {
        match LogFileSnapshotReader::open(path.clone()).and_then(|mut r| r.read_current_and_outdated()) {
            Ok((cur, old)) => {
                let got: Vec<String> = cur.iter().chain(old.iter()).filter_map(|e| if let LogEntry::Ready(r) = e { Some(r.key.clone()) } else { None }).collect();
                if got != w.written {
                    w.bad.push(format!("the log holds {:?}, written were {:?}", got, w.written));
                }
            }
            Err(e) => w.bad.push(format!("the log cannot be read: {}", e)),
        }
    }
    if w.trace.iter().filter(|t| t.contains(":open{")).count() > 1 {
        run.nontrivial(&w.trace.join(" "));
        run.sample(|| w.trace.join(" ").chars().take(300).collect());
    }
    if let Some(b) = w.bad.first() {
        let t = w.trace.join(" ");
        run.fail("two-writers", format!("seed {}: {}; steps (execution:call, nested where one interrupts another): {}", seed, b, &t[..t.len().min(1500)]));
    }
}

fn main() {
    let mut run = Run::new("random interleavings of 2..3 executions that open, write, flush and close one log, at the granularity of its system calls", "2..3 executions, 30 steps, nesting 3", 15.);
    let s = Scratch::new();
    let dir = s.0.canonicalize().unwrap();
    let mut i = 0;
    while run.time_left() && i < 200_000 {
        i += 1;
        one(&mut run, seed().wrapping_mul(1_000_003).wrapping_add(i), &dir);
    }
    drop(s);
    run.finish();
}
