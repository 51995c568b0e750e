//! C16: PyExecGraph.logfile_runcount (through an embedded interpreter) over histories of sessions, against a model.
use execgraph::logfile2::*;
use execgraph::pylib::PyExecGraph;
use pyo3::prelude::*;
use pyo3::types::PyDict;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    New,
    Ready(u32, u32),
    Started(u32, u32),
    Done(u32, u32, bool),
}

fn main() {
    own_group();
    silence();
    let dir = Scratch::new();
    let mut run = Run::new("non-trivial: a history with a started unsuccessful run and a later proposal for the same key", "histories of up to 6 sessions over 4 keys with interrupted, failed and successful runs, fabricated or really executed; absolute, relative and $KEY storage roots", 25.);
    let mut r = Rng::new(seed());
    pyo3::prepare_freethreaded_python();
    // keep SIGINT handling of the embedded interpreter out of the way
    let keys = ["a", "key.1", "b c", "z"];
    let mut case = 0u64;
    while run.time_left() {
        run.eval();
        case += 1;
        let d = dir.0.join(format!("c{}", case));
        std::fs::create_dir_all(&d).unwrap();
        let path = d.join("wrk.log");
        let mut model: BTreeMap<&str, S> = keys.iter().map(|k| (*k, S::New)).collect();
        let mut highest: BTreeMap<&str, Option<u32>> = keys.iter().map(|k| (*k, None)).collect();
        let mut trace: Vec<String> = vec![];
        let nroots = 1 + r.below(3);
        let roots: Vec<String> = (0..nroots).map(|i| match r.below(4) { 0 => format!("/abs/r{}", i), 1 => format!("rel{}/$KEY", i), 2 => String::new(), _ => format!("r{}", i) }).collect();
        let mut nontriv = false;
        for _sess in 0..1 + r.below(6) {
            let err: core::result::Result<(), String> = Python::with_gil(|py| {
                let e = |x: PyErr| format!("python error {}", x);
                let kw = PyDict::new(py);
                kw.set_item("num_parallel", 2).unwrap();
                kw.set_item("logfile", path.to_string_lossy().to_string()).unwrap();
                kw.set_item("storage_roots", roots.clone()).unwrap();
                kw.set_item("failures_allowed", 0).unwrap();
                kw.set_item("rerun_failures", true).unwrap();
                let g = py.get_type::<PyExecGraph>().call((), Some(kw)).map_err(e)?;
                let wk: String = g.call_method0("key").map_err(e)?.extract().map_err(e)?;
                let base = std::fs::canonicalize(&d).unwrap();
                let want_roots: Vec<PathBuf> = roots.iter().map(|x| { let p = PathBuf::from(x.replace("$KEY", &wk)); if p.is_absolute() { p } else { base.join(p) } }).collect();
                let got_roots: Vec<PathBuf> = g.call_method0("all_storage_roots").map_err(e)?.extract().map_err(e)?;
                if got_roots != want_roots {
                    return Err(format!("storage roots {:?}, expected {:?}", got_roots, want_roots));
                }
                for k in keys {
                    let (rc, p): (u32, Option<PathBuf>) = g.call_method1("logfile_runcount", (k,)).map_err(e)?.extract().map_err(e)?;
                    let (wrc, wp) = match model[k] {
                        S::New => (0, None),
                        S::Ready(c, _) => (c, None),
                        S::Started(c, _) | S::Done(c, _, false) => {
                            nontriv = true;
                            (c + 1, None)
                        }
                        S::Done(c, sr, true) => (c, Some(want_roots[sr as usize].join(format!("{}.{}", k, c)))),
                    };
                    // larger than every started unsuccessful run is what matters
                    if let (Some(h), false) = (highest[k], matches!(model[k], S::Done(_, _, true))) {
                        if rc <= h {
                            return Err(format!("key {:?}: run count {} proposed, but run {} was started and did not succeed", k, rc, h));
                        }
                    }
                    let exact = !matches!(model[k], S::Started(..) | S::Done(_, _, false));
                    if (exact && rc != wrc) || p != wp {
                        return Err(format!("key {:?} in state {:?}: proposed {} in {:?}, expected {} in {:?}", k, model[k], rc, p, wrc, wp));
                    }
                }
                // this session
                if r.chance(1, 12) {
                    // really executed
                    let mut line = vec![];
                    for k in keys {
                        let ok = r.chance(1, 2);
                        let sr = r.below(nroots) as u32;
                        let (rc, _): (u32, Option<PathBuf>) = g.call_method1("logfile_runcount", (k,)).map_err(e)?.extract().map_err(e)?;
                        let kw = PyDict::new(py);
                        kw.set_item("cmdline", vec![if ok { "true" } else { "false" }]).unwrap();
                        kw.set_item("key", k).unwrap();
                        kw.set_item("storage_root", sr).unwrap();
                        g.call_method("add_task", (), Some(kw)).map_err(e)?;
                        if !matches!(model[k], S::Done(_, _, true)) {
                            model.insert(k, S::Done(rc, sr, ok));
                            if !ok {
                                let h = highest.get_mut(k).unwrap();
                                *h = (*h).max(Some(rc));
                            }
                            line.push(format!("{} rc {} ok {}", k, rc, ok));
                        }
                    }
                    g.call_method0("execute").map_err(e)?;
                    trace.push(format!("executed {:?}", line));
                } else {
                    // proposals taken, then written by hand after closing
                }
                Ok(())
            });
            if let Err(t) = err {
                run.fail("runcount", format!("{}; roots {:?}, history {:?}", t, roots, trace));
                break;
            }
            if trace.last().map_or(false, |t| t.starts_with("executed")) && r.chance(1, 2) {
                continue;
            }
            let mut lf = LogFile::<LogFileRW>::new(&path).unwrap();
            for k in keys {
                let (c, fresh) = match model[k] {
                    S::New => (0, true),
                    S::Ready(c, _) => (c, true),
                    S::Started(c, _) | S::Done(c, _, false) => (c + 1, true),
                    S::Done(..) => (0, false),
                };
                if !fresh || r.chance(1, 4) {
                    continue;
                }
                // what the real code proposes may be larger than the smallest allowed
                let sr = r.below(nroots) as u32;
                let depth = r.below(3);
                lf.write(LogEntry::new_ready(k, c, "c", sr)).unwrap();
                let mut s = S::Ready(c, sr);
                if depth > 0 {
                    lf.write(LogEntry::new_started(k, "h", 1, "".into())).unwrap();
                    s = S::Started(c, sr);
                }
                if depth > 1 {
                    let ok = r.chance(1, 3);
                    lf.write(LogEntry::new_finished(k, if ok { 0 } else { *r.pick(&[1, -1, -10]) }, vec![])).unwrap();
                    s = S::Done(c, sr, ok);
                }
                if depth > 0 && !matches!(s, S::Done(_, _, true)) {
                    let h = highest.get_mut(k).unwrap();
                    *h = (*h).max(Some(c));
                }
                trace.push(format!("{}: {:?}", k, s));
                model.insert(k, s);
            }
            lf.flush().unwrap();
        }
        if nontriv {
            run.nontrivial(&trace);
            run.sample(|| format!("{:?}", trace));
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    drop(dir);
    run.finish();
}
