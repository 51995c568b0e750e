//! C10: add_task against a model, every sequence of valid and invalid additions.
use execgraph::execgraph::ExecGraph;
use execgraph::logfile2::{LogFile, LogFileRW};
use std::collections::BTreeMap;
use vh::*;

fn main() {
    silence();
    let dir = Scratch::new();
    let mut run = Run::new("non-trivial: at least one rejected addition followed by a successful one", "sequences of up to 14 additions with new, duplicate, self, unknown, repeated and huge dependencies and empty commands", 12.);
    let mut r = Rng::new(seed());
    while run.time_left() {
        run.eval();
        let lf = LogFile::<LogFileRW>::new(dir.0.join("log")).unwrap();
        let mut g = ExecGraph::new(lf);
        let mut keys: Vec<String> = vec![];
        let mut cmds: Vec<Vec<String>> = vec![];
        let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut trace = vec![];
        let (mut rejected, mut after) = (false, false);
        for step in 0..1 + r.below(14) {
            let key = format!("k{}", r.below(9));
            let n = keys.len();
            let empty = r.chance(1, 8);
            let nd = r.below(4);
            let deps: Vec<u32> = (0..nd)
                .map(|_| match r.below(14) {
                    0 => n as u32,
                    1 => n as u32 + 1 + r.below(3) as u32,
                    2 => u32::MAX - r.below(2) as u32,
                    _ if n > 0 => r.below(n) as u32,
                    _ => 0,
                })
                .collect();
            let line: Vec<String> = if empty { vec![] } else { vec!["c".into(), format!("{}", step)] };
            let l: Vec<&str> = line.iter().map(|s| s.as_str()).collect();
            let c = cmd(&l, &key, 1, 0);
            trace.push(format!("add {} {:?} {:?}", key, line, deps));
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.add_task(c, deps.clone())));
            let got = match got {
                Ok(g) => g.map_err(|e| e.to_string()),
                Err(e) => {
                    run.fail("add", format!("{:?}: panic {}", trace, panic_text(e)));
                    break;
                }
            };
            let want: Result<u32, ()> = if let Some(i) = keys.iter().position(|k| *k == key) {
                Ok(i as u32)
            } else if empty || deps.iter().any(|&d| d as usize >= n) {
                rejected = true;
                Err(())
            } else {
                if rejected {
                    after = true;
                }
                for &d in &deps {
                    *edges.entry((d as usize, n)).or_default() += 1;
                }
                keys.push(key);
                cmds.push(line);
                Ok(n as u32)
            };
            if got.clone().map_err(|_| ()) != want {
                run.fail("add", format!("{:?}: returned {:?}, expected {:?}", trace, got, want));
                break;
            }
            // the graph as seen from outside
            let mut e: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            for x in g.verif_edges() {
                *e.entry(x).or_default() += 1;
            }
            let mut k: Vec<(String, usize)> = g.verif_keys();
            k.sort();
            let mut wk: Vec<(String, usize)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
            wk.sort();
            let same_edges = e.keys().eq(edges.keys());
            let tasks: Vec<Option<Vec<String>>> = (0..keys.len() + 2).map(|i| g.get_task(i as u32).map(|c| c.cmdline.iter().map(|s| s.to_string_lossy().to_string()).collect())).collect();
            let mut wt: Vec<Option<Vec<String>>> = cmds.iter().cloned().map(Some).collect();
            wt.push(None);
            wt.push(None);
            if g.ntasks() != keys.len() || g.task_keys() != keys || !same_edges || k != wk || tasks != wt {
                run.fail("add", format!("{:?}: graph has {} tasks, keys {:?}, edges {:?}, index {:?}; expected keys {:?}, edges {:?}", trace, g.ntasks(), g.task_keys(), e, k, keys, edges));
                break;
            }
        }
        if after {
            run.nontrivial(&trace);
            run.sample(|| format!("{:?}", trace));
        }
        drop(g);
        let _ = std::fs::remove_file(dir.0.join("log"));
    }
    drop(dir);
    run.finish();
}
