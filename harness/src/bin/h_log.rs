//! C07: a log written through LogFile::write and reopened has the same state.  C09: the split into current and outdated.
use execgraph::logfile2::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use vh::*;

fn show(s: &Option<RuncountStatus>) -> String {
    format!("{:?}", s)
}
fn entry_id(e: &LogEntry) -> String {
    serde_json::to_string(e).unwrap()
}
const KEYS: [&str; 6] = ["a", "b", "key with \"quotes\" \\ and \n newline", "ünïcode\u{2028}x", "", "e"];

/// One well-ordered random step of a session: Some(entry)
fn step(r: &mut Rng, st: &mut BTreeMap<String, char>, settled: &mut HashSet<String>, uid: &mut u32, nroots: u32) -> Option<LogEntry> {
    let k = KEYS[r.below(KEYS.len())].to_string();
    *uid += 1;
    match st.get(&k) {
        None => {
            if settled.contains(&k) {
                return None;
            }
            st.insert(k.clone(), 'r');
            Some(LogEntry::new_ready(&k, r.below(5) as u32, &format!("cmd {} \"x\" \\n", uid), if nroots > 0 { r.below(nroots as usize) as u32 } else { r.below(3) as u32 }))
        }
        Some('r') => {
            st.insert(k.clone(), 's');
            Some(LogEntry::new_started(&k, &format!("host{}", uid), *uid, if r.chance(1, 2) { String::new() } else { format!("{}", uid) }))
        }
        Some('s') => {
            st.insert(k.clone(), 'f');
            let mut m = HashMap::new();
            m.insert(format!("v{}", uid), "=x".to_string());
            Some(LogEntry::new_finished(&k, *r.pick(&[0, 0, 1, -9, -10, 137]), if r.chance(1, 2) { vec![m] } else { vec![] }))
        }
        _ => None,
    }
}

fn c07(run: &mut Run, r: &mut Rng, dir: &PathBuf) {
    run.eval();
    let path = dir.join("wrk.log");
    let _ = std::fs::remove_file(&path);
    let mut uid = 0;
    let mut trace: Vec<String> = vec![];
    let mut model: BTreeMap<String, (char, u32, u32, bool)> = BTreeMap::new();
    let wk = if r.chance(1, 2) { "wk" } else { "" };
    let nsess = 1 + r.below(3);
    let mut roots: Vec<PathBuf> = vec![];
    let mut had_header = false;
    let fail = |run: &mut Run, t: &str, trace: &Vec<String>| run.fail("reopen", format!("{}; entries {:?}", t, trace));
    let mut nwritten = 0;
    for _ in 0..nsess {
        let mut lf = match LogFile::<LogFileRW>::new(&path) {
            Ok(l) => l,
            Err(e) => return fail(run, &format!("reopening failed: {}", e), &trace),
        };
        let check = |lf: &LogFile<LogFileRW>, model: &BTreeMap<String, (char, u32, u32, bool)>, roots: &Vec<PathBuf>, had_header: bool, when: &str| -> Option<String> {
            for k in KEYS {
                let want = model.get(k).map(|&(c, runcount, storage_root, success)| match c {
                    'r' => RuncountStatus::Ready { runcount, storage_root },
                    's' => RuncountStatus::Started { runcount, storage_root },
                    _ => RuncountStatus::Finished { runcount, storage_root, success },
                });
                let got = lf.runcount(k);
                if show(&got) != show(&want) {
                    return Some(format!("{}: key {:?} has {:?}, expected {:?}", when, k, got, want));
                }
                let (s, f) = (matches!(want, Some(RuncountStatus::Finished { success: true, .. })), matches!(want, Some(RuncountStatus::Finished { success: false, .. })));
                if lf.has_success(k) != s || lf.has_failure(k) != f {
                    return Some(format!("{}: key {:?}: has_success {} has_failure {}, state {:?}", when, k, lf.has_success(k), lf.has_failure(k), want));
                }
            }
            if lf.workflow_key() != if had_header { Some(wk.to_string()) } else { None } {
                return Some(format!("{}: workflow key {:?}", when, lf.workflow_key()));
            }
            if lf.header_version() != if had_header { Some(LOGFILE_VERSION) } else { None } {
                return Some(format!("{}: version {:?}", when, lf.header_version()));
            }
            let base = std::fs::canonicalize(&path).unwrap().parent().unwrap().to_path_buf();
            let want: Vec<PathBuf> = roots.iter().map(|p| if p.is_absolute() { p.clone() } else { base.join(p) }).collect();
            if lf.storage_roots() != want {
                return Some(format!("{}: storage roots {:?}, expected {:?}", when, lf.storage_roots(), want));
            }
            for i in 0..4u32 {
                if lf.storage_root(i) != want.get(i as usize).cloned() {
                    return Some(format!("{}: storage root {} is {:?}", when, i, lf.storage_root(i)));
                }
            }
            None
        };
        if let Some(t) = check(&lf, &model, &roots, had_header, "after reopening") {
            return fail(run, &t, &trace);
        }
        if r.chance(3, 4) || !had_header {
            roots = (0..r.below(3)).map(|i| PathBuf::from(if r.chance(1, 2) { format!("/abs/{}", i) } else { format!("rel {}", i) })).collect();
            lf.write(LogEntry::new_header(wk, roots.clone()).unwrap()).unwrap();
            had_header = true;
            trace.push(format!("header {:?}", roots));
        }
        // a new session may run finished and interrupted tasks again
        let mut st: BTreeMap<String, char> = BTreeMap::new();
        let mut settled = HashSet::new();
        for k in model.keys() {
            if r.chance(1, 3) {
                settled.insert(k.clone());
                if r.chance(1, 2) {
                    lf.write(LogEntry::new_backref(k)).unwrap();
                    trace.push(format!("backref {}", k));
                }
            }
        }
        for _ in 0..r.below(40) {
            if let Some(e) = step(r, &mut st, &mut settled, &mut uid, roots.len() as u32) {
                match &e {
                    LogEntry::Ready(x) => {
                        model.insert(x.key.clone(), ('r', x.runcount, x.storage_root, false));
                    }
                    LogEntry::Started(x) => model.get_mut(&x.key).unwrap().0 = 's',
                    LogEntry::Finished(x) => {
                        let m = model.get_mut(&x.key).unwrap();
                        m.0 = 'f';
                        m.3 = x.status == 0;
                        if r.chance(1, 4) {
                            st.remove(&x.key); // run again within the session
                        }
                    }
                    _ => {}
                }
                trace.push(entry_id(&e));
                nwritten += 1;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lf.write(e)));
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return fail(run, &format!("write failed: {}", e), &trace),
                    Err(e) => return fail(run, &format!("write panicked: {}", panic_text(e)), &trace),
                }
            }
        }
        if let Some(t) = check(&lf, &model, &roots, had_header, "before closing") {
            return fail(run, &t, &trace);
        }
        lf.flush().unwrap();
        drop(lf);
    }
    if nwritten > 3 {
        run.nontrivial(&trace);
        run.sample(|| format!("{} entries in {} sessions, {:?}", nwritten, nsess, &trace[..trace.len().min(6)]));
    }
    match std::panic::catch_unwind(|| LogFile::<LogFileRW>::new(&path).map(|l| KEYS.iter().map(|k| show(&l.runcount(k))).collect::<Vec<_>>())) {
        Ok(Ok(v)) => {
            let want: Vec<String> = KEYS
                .iter()
                .map(|k| {
                    show(&model.get(*k).map(|&(c, runcount, storage_root, success)| match c {
                        'r' => RuncountStatus::Ready { runcount, storage_root },
                        's' => RuncountStatus::Started { runcount, storage_root },
                        _ => RuncountStatus::Finished { runcount, storage_root, success },
                    }))
                })
                .collect();
            if v != want {
                return fail(run, &format!("after reopening {:?}, expected {:?}", v, want), &trace);
            }
        }
        Ok(Err(e)) => return fail(run, &format!("reopening failed: {}", e), &trace),
        Err(e) => return fail(run, &format!("reopening panicked: {}", panic_text(e)), &trace),
    }
    // refusals
    let text = std::fs::read_to_string(&path).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let headers: Vec<usize> = lines.iter().enumerate().filter(|(_, l)| l.starts_with("{\"Header\"")).map(|(i, _)| i).collect();
    if headers.is_empty() {
        return;
    }
    let pick = *r.pick(&headers);
    let kind = r.below(2);
    if kind == 1 && headers.len() < 2 {
        return;
    }
    let bad: Vec<String> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            if i != pick {
                return l.to_string();
            }
            let mut v: serde_json::Value = serde_json::from_str(l).unwrap();
            if kind == 0 {
                v["Header"]["version"] = serde_json::json!(*r.pick(&[0u32, 1, 2, 3, 5, 6, 400, u32::MAX]));
            } else {
                v["Header"]["workflow_key"] = serde_json::json!(*r.pick(&["w", "wk2", "WK", " "]));
            }
            v.to_string()
        })
        .collect();
    std::fs::write(&path, bad.join("\n") + "\n").unwrap();
    match (std::panic::catch_unwind(|| LogFile::<LogFileRW>::new(&path).map(|_| ())), kind) {
        (Ok(Err(LogfileError::MismatchedVersion { .. })), 0) | (Ok(Err(LogfileError::WorkflowKeyMismatch)), 1) => {}
        (x, _) => run.fail("refuse", format!("log with {} in header line {} gives {:?}", if kind == 0 { "another version" } else { "another workflow key" }, pick, x.map(|y| y.map_err(|e| e.to_string())).map_err(|_| "panic"))),
    }
}

fn c09(run: &mut Run, r: &mut Rng, dir: &PathBuf) {
    run.eval();
    let path = dir.join("wrk.log");
    let _ = std::fs::remove_file(&path);
    let mut lf = LogFile::<LogFileRW>::new(&path).unwrap();
    let mut uid = 0;
    let nsess = 1 + r.below(4);
    let mut known: BTreeMap<String, char> = BTreeMap::new();
    for s in 0..nsess {
        lf.write(LogEntry::new_header("wk", vec![PathBuf::from(format!("root{}", s))]).unwrap()).unwrap();
        let mut settled = HashSet::new();
        let mut st = BTreeMap::new();
        let mut backrefs: Vec<String> = known.iter().filter(|(_, c)| **c == 'f').map(|(k, _)| k.clone()).filter(|_| r.chance(1, 2)).collect();
        r.shuffle(&mut backrefs);
        settled.extend(backrefs.iter().cloned());
        let late = r.chance(1, 3); // back-references need not come first
        if !late {
            for b in backrefs.drain(..) {
                lf.write(LogEntry::new_backref(&b)).unwrap();
            }
        }
        for _ in 0..r.below(24) {
            if !backrefs.is_empty() && r.chance(1, 4) {
                lf.write(LogEntry::new_backref(&backrefs.pop().unwrap())).unwrap();
            }
            if let Some(e) = step(r, &mut st, &mut settled, &mut uid, 1) {
                lf.write(e).unwrap();
            }
        }
        for b in backrefs.drain(..) {
            lf.write(LogEntry::new_backref(&b)).unwrap();
        }
        for (k, c) in st {
            known.insert(k, c);
        }
    }
    lf.flush().unwrap();
    drop(lf);
    let all = LogFileSnapshotReader::open(path.clone()).unwrap().read().unwrap();
    let raw: Vec<LogEntry> = std::fs::read_to_string(&path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let ids = |v: &[LogEntry]| v.iter().map(entry_id).collect::<Vec<_>>();
    if ids(&all) != ids(&raw) {
        run.fail("read", format!("read() returns {:?}, the file has {:?}", ids(&all), ids(&raw)));
        return;
    }
    // oracle: indices
    let key = |e: &LogEntry| match e {
        LogEntry::Header(_) => None,
        LogEntry::Ready(x) => Some(x.key.clone()),
        LogEntry::Started(x) => Some(x.key.clone()),
        LogEntry::Finished(x) => Some(x.key.clone()),
        LogEntry::Backref(x) => Some(x.key.clone()),
    };
    let h = (0..all.len()).rev().find(|&i| all[i].is_header()).unwrap();
    let refs: HashSet<String> = all[h..].iter().filter(|e| e.is_backref()).filter_map(|e| key(e)).collect();
    let mut cur: Vec<usize> = vec![];
    for k in &refs {
        let start = (0..h).rev().find(|&i| all[i].is_ready() && key(&all[i]).as_ref() == Some(k)).unwrap();
        cur.extend((start..h).filter(|&i| key(&all[i]).as_ref() == Some(k) && !all[i].is_backref()));
    }
    cur.sort();
    let older: HashSet<usize> = cur.iter().copied().collect();
    cur.push(h);
    cur.extend((h + 1..all.len()).filter(|&i| !all[i].is_backref()));
    let cur_keys: HashSet<String> = cur.iter().filter_map(|&i| key(&all[i])).collect();
    let out: Vec<usize> = (0..h).filter(|i| !older.contains(i) && key(&all[*i]).map_or(true, |k| !cur_keys.contains(&k))).collect();
    let (gc, go) = match std::panic::catch_unwind(|| LogFileSnapshotReader::open(path.clone()).unwrap().read_current_and_outdated()) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return run.fail("split", format!("error {} on {:?}", e, ids(&all))),
        Err(e) => return run.fail("split", format!("panic {} on {:?}", panic_text(e), ids(&all))),
    };
    // the header comes first in the current part
    let mut want_c: Vec<String> = cur.iter().filter(|&&i| i != h).map(|&i| entry_id(&all[i])).collect();
    want_c.insert(0, entry_id(&all[h]));
    let want_o: Vec<String> = out.iter().map(|&i| entry_id(&all[i])).collect();
    let got_c = ids(&gc);
    if got_c != want_c || ids(&go) != want_o {
        run.fail("split", format!("log {:?}: current {:?}, expected {:?}; outdated {:?}, expected {:?}", ids(&all), got_c, want_c, ids(&go), want_o));
    }
    if !refs.is_empty() && nsess > 1 {
        run.nontrivial(&ids(&all));
        run.sample(|| format!("{} entries, {} sessions, {} back-references in the last", all.len(), nsess, refs.len()));
    }
}

type Model = BTreeMap<String, (char, u32, u32, bool)>;
fn apply(m: &mut Model, e: &LogEntry) {
    match e {
        LogEntry::Ready(x) => {
            m.insert(x.key.clone(), ('r', x.runcount, x.storage_root, false));
        }
        LogEntry::Started(x) => m.get_mut(&x.key).unwrap().0 = 's',
        LogEntry::Finished(x) => {
            let v = m.get_mut(&x.key).unwrap();
            v.0 = 'f';
            v.3 = x.status == 0;
        }
        _ => {}
    }
}
fn states(m: &Model) -> Vec<String> {
    KEYS.iter()
        .map(|k| {
            show(&m.get(*k).map(|&(c, runcount, storage_root, success)| match c {
                'r' => RuncountStatus::Ready { runcount, storage_root },
                's' => RuncountStatus::Started { runcount, storage_root },
                _ => RuncountStatus::Finished { runcount, storage_root, success },
            }))
        })
        .collect()
}

/// C25: what a kill leaves on disk is a prefix of what was written, and contains all that was flushed
fn c25(run: &mut Run, r: &mut Rng, dir: &PathBuf) {
    run.eval();
    let (live, dead) = (dir.join("live"), dir.join("dead"));
    std::fs::create_dir_all(&live).unwrap();
    std::fs::create_dir_all(&dead).unwrap();
    let (path, copy) = (live.join("wrk.log"), dead.join("wrk.log"));
    let _ = std::fs::remove_file(&path);
    let mut lf = LogFile::<LogFileRW>::new(&path).unwrap();
    let mut uid = 0;
    let mut lens: Vec<(usize, usize)> = vec![]; // where the text of each entry, and its line, end
    let mut models: Vec<Model> = vec![Model::new()];
    let mut flushed = 0;
    // a process that is killed leaves its lock file
    std::fs::write(dead.join(".wrk.lock"), std::fs::read(live.join(".wrk.lock")).unwrap_or_default()).unwrap();
    let mut crashes: Vec<(Vec<u8>, usize)> = vec![];
    let mut st: BTreeMap<String, char> = BTreeMap::new();
    let mut settled = HashSet::new();
    let mut at = 0;
    let long = r.chance(1, 3);
    for i in 0..2 + r.below(30) {
        let e = if i == 0 {
            LogEntry::new_header("wk", vec![PathBuf::from("root")]).unwrap()
        } else {
            match step(r, &mut st, &mut settled, &mut uid, 1) {
                None => continue,
                Some(LogEntry::Ready(mut x)) => {
                    if long && r.chance(1, 2) {
                        x.command = "ö".repeat(100 + r.below(6000));
                    }
                    LogEntry::Ready(x)
                }
                Some(LogEntry::Finished(x)) => {
                    if r.chance(1, 3) {
                        st.remove(&x.key);
                    }
                    LogEntry::Finished(x)
                }
                Some(e) => e,
            }
        };
        let mut m = models.last().unwrap().clone();
        apply(&mut m, &e);
        models.push(m);
        let n = serde_json::to_string(&e).unwrap().len();
        lens.push((at + n, at + n + 1));
        at += n + 1;
        lf.write(e).unwrap();
        if r.chance(1, 6) {
            lf.flush().unwrap();
            flushed = lens.len();
        }
        if r.chance(1, 4) {
            crashes.push((std::fs::read(&path).unwrap(), flushed));
        }
    }
    lf.flush().unwrap();
    drop(lf);
    let all = std::fs::read(&path).unwrap();
    if all.len() != at {
        return run.fail("write", format!("{} entries with {} bytes make a log of {} bytes", lens.len(), at, all.len()));
    }
    for _ in 0..6 {
        let k = r.below(lens.len() + 1);
        let lo = if k == 0 { 0 } else { lens[k - 1].1 };
        let span = if r.chance(1, 2) { (at - lo).min(300) } else { at - lo };
        crashes.push((all[..lo + r.below(span + 1)].to_vec(), k));
    }
    for (bytes, flushed) in crashes {
        let _ = std::fs::remove_file(&copy);
        std::fs::write(&copy, &bytes).unwrap();
        std::fs::write(dead.join(".wrk.lock"), "{").unwrap();
        let what = |t: String| format!("{}; killed with {} of {} bytes on disk, {} entries flushed; the end is {:?}", t, bytes.len(), at, flushed, String::from_utf8_lossy(&bytes[bytes.len().saturating_sub(60)..]));
        let m = lens.iter().take_while(|l| l.0 <= bytes.len()).count();
        if m < flushed {
            return run.fail("flush", what(format!("only {} entries are on disk", m)));
        }
        let mut want = models[m].clone();
        if !bytes.is_empty() && !bytes.ends_with(b"\n") {
            run.nontrivial(&(bytes.len(), flushed));
            run.sample(|| what("cut in mid-line".into()));
        }
        for round in 0..2 {
            let lf = std::panic::catch_unwind(|| LogFile::<LogFileRW>::new(&copy));
            let mut lf = match lf {
                Ok(Ok(l)) => l,
                Ok(Err(e)) => return run.fail("crash", what(format!("reopening {} fails: {}", if round == 0 { "" } else { "a second time" }, e))),
                Err(e) => return run.fail("crash", what(format!("reopening panics: {}", panic_text(e)))),
            };
            let got: Vec<String> = KEYS.iter().map(|k| show(&lf.runcount(k))).collect();
            if got != states(&want) {
                return run.fail("crash", what(format!("reopening {} gives {:?}, expected {:?}", if round == 0 { "" } else { "a second time" }, got, states(&want))));
            }
            if round == 0 {
                // the next session goes on after what is left
                for e in [LogEntry::new_header("wk", vec![]).unwrap(), LogEntry::new_ready("a", 7, "x", 0), LogEntry::new_started("a", "h", 1, String::new()), LogEntry::new_finished("a", 0, vec![])] {
                    apply(&mut want, &e);
                    lf.write(e).unwrap();
                }
                lf.flush().unwrap();
                drop(lf);
                let n = std::fs::read(&copy).unwrap().split(|b| *b == b'\n').filter(|l| serde_json::from_slice::<LogEntry>(l).is_ok()).count();
                if n != m + 4 {
                    return run.fail("crash", what(format!("{} entries after the next session, expected {}", n, m + 4)));
                }
            }
        }
    }
}

fn main() {
    silence();
    let me = std::env::args().nth(1).unwrap_or("C07".into());
    let dir = Scratch::new();
    let mut run = Run::new("C07: more than three entries written; C09: more than one session and a back-reference in the last; C25: the log ends in mid-line", "logs of up to 4 sessions over 6 keys, 24 to 40 entries per session, re-runs, interrupted runs, back-references before or between other entries; header version and key changed; C25: logs of up to 32 entries (lines up to 12 kB) cut where the operating system had them at some moment, or at a random byte after what was flushed", 12.);
    let mut r = Rng::new(seed());
    while run.time_left() {
        if me == "C07" {
            c07(&mut run, &mut r, &dir.0);
        } else if me == "C25" {
            c25(&mut run, &mut r, &dir.0);
        } else {
            c09(&mut run, &mut r, &dir.0);
        }
    }
    drop(dir);
    run.finish();
}
