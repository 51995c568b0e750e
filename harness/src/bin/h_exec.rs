//! C08: ExecGraph::execute over several sessions (targets, reused successes, skipped failures, interrupted runs) against a model.
use execgraph::execgraph::ExecGraph;
use execgraph::logfile2::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    None,
    Cut, // ready or started, never finished
    Ok,
    Fail,
}

fn main() {
    own_group();
    silence();
    let dir = Scratch::new();
    let me = std::env::args().nth(1).unwrap_or("C08".into());
    let mut run = Run::new("non-trivial: an execution that reuses, skips or excludes some task and runs another", "graphs of up to 7 tasks, up to 3 sessions of up to 3 executions each, random targets, outcomes and re-run policy, fabricated interrupted and failed histories; real processes (true, false)", 45.);
    let mut r = Rng::new(seed());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    while run.time_left() {
        run.eval();
        let deps = dag(&mut r, 7);
        let n = deps.len();
        let anc: Vec<_> = (0..n).map(|v| ancestors(&deps, v)).collect();
        let path = dir.0.join("wrk.log");
        let _ = std::fs::remove_file(&path);
        let mut hist = vec![H::None; n];
        let mut trace = vec![format!("deps {:?}", deps)];
        // a fabricated earlier session
        if r.chance(1, 2) {
            let mut lf = LogFile::<LogFileRW>::new(&path).unwrap();
            lf.write(LogEntry::new_header("wk", vec![]).unwrap()).unwrap();
            for v in 0..n {
                if !deps[v].iter().all(|&d| hist[d] == H::Ok) {
                    continue;
                }
                let k = format!("k{}", v);
                let h = match r.below(7) {
                    0 | 1 => H::None,
                    2 => H::Cut,
                    3 | 4 => H::Fail,
                    _ => H::Ok,
                };
                hist[v] = h;
                if h != H::None {
                    lf.write(LogEntry::new_ready(&k, 0, "c", 0)).unwrap();
                }
                if h == H::Cut && r.chance(1, 2) || h == H::Ok || h == H::Fail {
                    lf.write(LogEntry::new_started(&k, "h", 1, "".into())).unwrap();
                }
                if h == H::Ok || h == H::Fail {
                    lf.write(LogEntry::new_finished(&k, if h == H::Ok { 0 } else { *r.pick(&[1, -9, -1, -10]) }, vec![])).unwrap();
                }
            }
            trace.push(format!("earlier session {:?}", hist));
            lf.flush().unwrap();
        }
        'sess: for _ in 0..1 + r.below(3) {
            let lf = match LogFile::<LogFileRW>::new(&path) {
                Ok(l) => l,
                Err(e) => {
                    run.fail("exec", format!("reopening: {}; {:?}", e, trace));
                    break;
                }
            };
            let mut g = ExecGraph::new(lf);
            let mut completed: BTreeSet<usize> = BTreeSet::new();
            let outcome: Vec<bool> = (0..n).map(|_| r.chance(3, 4)).collect();
            for v in 0..n {
                let mut d: Vec<u32> = deps[v].iter().map(|&x| x as u32).collect();
                if !d.is_empty() && r.chance(1, 8) {
                    d.push(d[0]);
                }
                g.add_task(cmd(&[if outcome[v] { "true" } else { "false" }], &format!("k{}", v), 1, 0), d).unwrap();
            }
            trace.push(format!("session, outcomes {:?}", outcome));
            let mut owed: BTreeSet<usize> = BTreeSet::new();
            let mut bad = false;
            let mut mark = std::fs::read_to_string(&path).unwrap().lines().count();
            for _ in 0..1 + r.below(3) {
                let target = if r.chance(1, 2) { Some(r.below(n)) } else { None };
                let rerun = r.chance(1, 2);
                trace.push(format!("execute target {:?} rerun {}", target, rerun));
                // model
                let scope: Vec<usize> = (0..n).filter(|v| target.map_or(true, |t| t == *v || anc[t].contains(v))).collect();
                let failed_here = |u: usize| completed.contains(&u) && hist[u] != H::Ok;
                let mut refs = BTreeSet::new();
                let mut sched = vec![];
                let skipped: BTreeSet<usize> = scope.iter().copied().filter(|v| !completed.contains(v) && hist[*v] == H::Fail && !rerun).collect();
                for &v in &scope {
                    if completed.contains(&v) {
                        continue;
                    }
                    if hist[v] == H::Ok || skipped.contains(&v) {
                        refs.insert(v);
                        continue;
                    }
                    if anc[v].iter().any(|&u| failed_here(u) || skipped.contains(&u)) {
                        continue;
                    }
                    sched.push(v);
                }
                let mut ran: BTreeMap<usize, bool> = BTreeMap::new();
                for &v in &sched {
                    if deps[v].iter().all(|d| !sched.contains(d) || ran.get(d) == Some(&true)) {
                        ran.insert(v, outcome[v]);
                    }
                }
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(30), g.execute(target.map(|t| t as u32), 2, u32::MAX, rerun, None, 0)).await })));
                let (nf, order) = match res {
                    Ok(Ok(Ok(x))) => x,
                    Ok(Ok(Err(e))) => {
                        run.fail("exec", format!("error {}; {:?}", e, trace));
                        break 'sess;
                    }
                    Ok(Err(_)) => {
                        run.fail("exec", format!("execution does not end; {:?}", trace));
                        run.finish();
                    }
                    Err(e) => {
                        run.fail("exec", format!("panic {}; {:?}", panic_text(e), trace));
                        break 'sess;
                    }
                };
                let want: BTreeSet<String> = ran.keys().map(|v| format!("k{}", v)).collect();
                let got: BTreeSet<String> = order.iter().cloned().collect();
                let want_f = ran.values().filter(|x| !**x).count() as u32;
                // an execution with nothing to run leaves its back-references in the buffer
                owed.extend(refs.iter().copied());
                let empty = order.is_empty() && want.is_empty();
                if empty && nf == 0 {
                    completed.extend(refs);
                    continue;
                }
                let text = std::fs::read_to_string(&path).unwrap();
                let new: Vec<LogEntry> = text.lines().skip(mark).map(|l| serde_json::from_str(l).unwrap()).collect();
                mark = text.lines().count();
                let mut pos: HashMap<(char, String), Vec<usize>> = HashMap::new();
                for (i, e) in new.iter().enumerate() {
                    let k = match e {
                        LogEntry::Ready(x) => ('r', x.key.clone()),
                        LogEntry::Started(x) => ('s', x.key.clone()),
                        LogEntry::Finished(x) => ('f', x.key.clone()),
                        LogEntry::Backref(x) => ('b', x.key.clone()),
                        _ => continue,
                    };
                    pos.entry(k).or_default().push(i);
                }
                let mut errs = vec![];
                if got != want || order.len() != want.len() {
                    errs.push(format!("ran {:?}, expected {:?}", order, want));
                }
                if nf != want_f {
                    errs.push(format!("{} failures reported, expected {}", nf, want_f));
                }
                for v in 0..n {
                    let k = format!("k{}", v);
                    let c = |x: char| pos.get(&(x, k.clone())).map_or(0, |p| p.len());
                    let w = ran.contains_key(&v) as usize;
                    if (c('r'), c('s'), c('f')) != (w, w, w) {
                        errs.push(format!("task {}: {} ready, {} started, {} finished entries, expected {} each", v, c('r'), c('s'), c('f'), w));
                    }
                    if c('b') != owed.contains(&v) as usize {
                        errs.push(format!("task {}: {} back-references, expected {}", v, c('b'), owed.contains(&v) as usize));
                    }
                    if w == 1 && c('s') == 1 {
                        for d in &deps[v] {
                            if ran.contains_key(d) && c('s') == 1 {
                                let f = pos.get(&('f', format!("k{}", d))).map_or(usize::MAX, |p| p[0]);
                                if pos[&('s', k.clone())][0] < f {
                                    errs.push(format!("task {} started before its dependency {} finished", v, d));
                                }
                            }
                        }
                    }
                }
                owed.clear();
                if !errs.is_empty() {
                    run.fail("exec", format!("{:?}; {:?}", errs, trace));
                    bad = true;
                    break;
                }
                if !ran.is_empty() && ran.len() < n {
                    run.nontrivial(&(deps.clone(), hist.iter().map(|h| *h as u8).collect::<Vec<_>>(), target, rerun));
                    run.sample(|| format!("{:?}", trace));
                }
                for (&v, &ok) in &ran {
                    hist[v] = if ok { H::Ok } else { H::Fail };
                    completed.insert(v);
                }
                completed.extend(refs);
            }
            drop(g);
            if bad {
                break;
            }
            let text = std::fs::read_to_string(&path).unwrap();
            let mut rest: Vec<String> = text.lines().skip(mark).map(|l| match serde_json::from_str(l).unwrap() { LogEntry::Backref(b) => b.key, e => format!("{:?}", e) }).collect();
            rest.sort();
            let want: Vec<String> = owed.iter().map(|v| format!("k{}", v)).collect();
            if rest != want {
                run.fail("exec", format!("back-references {:?}, expected {:?}; {:?}", rest, want, trace));
                break;
            }
        }
    }
    let _ = me;
    drop(dir);
    run.finish();
}
