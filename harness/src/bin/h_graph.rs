//! C11: closure and levels against brute force on random and all small graphs.
use execgraph::verif::*;
use petgraph::graph::{DiGraph, NodeIndex};
use std::collections::HashSet;
use vh::*;

fn reach(n: usize, e: &[(usize, usize)]) -> Vec<Vec<bool>> {
    let mut r = vec![vec![false; n]; n];
    for &(a, b) in e {
        r[a][b] = true;
    }
    for k in 0..n {
        for i in 0..n {
            if r[i][k] {
                for j in 0..n {
                    if r[k][j] {
                        r[i][j] = true;
                    }
                }
            }
        }
    }
    r
}
fn longest(n: usize, e: &[(usize, usize)], fwd: bool) -> Vec<u32> {
    let mut l = vec![0u32; n];
    for _ in 0..n {
        for &(a, b) in e {
            let (x, y) = if fwd { (b, a) } else { (a, b) };
            l[x] = l[x].max(l[y] + 1);
        }
    }
    l
}

fn check(run: &mut Run, n: usize, e: &[(usize, usize)]) {
    run.eval();
    let mut g: DiGraph<u64, u8> = DiGraph::new();
    for i in 0..n {
        g.add_node(1000 + 7 * i as u64);
    }
    for &(a, b) in e {
        g.add_edge(NodeIndex::new(a), NodeIndex::new(b), 3);
    }
    let r = reach(n, e);
    let cyc = (0..n).any(|i| r[i][i]);
    let d = || format!("nodes {} edges {:?}", n, e);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (transitive_closure_dag(&g), tlevel_dag(&g), blevel_dag(&g))));
    let (tc, tl, bl) = match res {
        Ok(x) => x,
        Err(_) => return run.fail("graph-panic", d()),
    };
    if cyc {
        if tc.is_ok() || tl.is_ok() || bl.is_ok() {
            run.fail("cycle-accepted", d());
        }
        return;
    }
    if e.len() > 1 {
        run.nontrivial(&(n, e));
        run.sample(d);
    }
    match tc {
        Err(_) => run.fail("dag-refused", d()),
        Ok(tc) => {
            let got: HashSet<(usize, usize)> = tc.edge_indices().map(|x| tc.edge_endpoints(x).unwrap()).map(|(a, b)| (a.index(), b.index())).collect();
            let want: HashSet<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| r[i][j]).collect();
            if got != want {
                run.fail("closure-edges", format!("{}: got {:?} want {:?}", d(), got, want));
            }
            if tc.node_count() != n || (0..n).any(|i| tc[NodeIndex::new(i)] != 1000 + 7 * i as u64) {
                run.fail("closure-nodes", d());
            }
        }
    }
    match tl {
        Ok(v) if v == longest(n, e, true) => {}
        x => run.fail("tlevel", format!("{}: got {:?} want {:?}", d(), x, longest(n, e, true))),
    }
    match bl {
        Ok(v) if v == longest(n, e, false) => {}
        x => run.fail("blevel", format!("{}: got {:?} want {:?}", d(), x, longest(n, e, false))),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut run = Run::new("all digraphs with at most 3 nodes, all DAGs on 4 nodes in every node order, random (multi)graphs with up to 14 nodes, a quarter of them possibly cyclic", "14 nodes", 12.);
    for n in 0..=3usize {
        let pairs: Vec<_> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        for m in 0..1u32 << pairs.len() {
            let e: Vec<_> = (0..pairs.len()).filter(|b| m >> b & 1 == 1).map(|b| pairs[b]).collect();
            check(&mut run, n, &e);
        }
    }
    {
        let pairs: Vec<_> = (0..4usize).flat_map(|i| (0..4usize).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
        for m in 0..1u32 << pairs.len() {
            let e: Vec<_> = (0..pairs.len()).filter(|b| m >> b & 1 == 1).map(|b| pairs[b]).collect();
            check(&mut run, 4, &e);
        }
    }
    let mut r = Rng::new(seed());
    while run.time_left() {
        let n = 1 + r.below(14);
        let p = 1 + r.below(6);
        let mut perm: Vec<usize> = (0..n).collect();
        r.shuffle(&mut perm);
        let mut e = vec![];
        for i in 0..n {
            for j in 0..n {
                if i < j && r.chance(p as u64, 8) {
                    e.push((perm[i], perm[j]));
                    if r.chance(1, 6) {
                        e.push((perm[i], perm[j]));
                    }
                }
            }
        }
        if r.chance(1, 4) && n > 1 {
            e.push((r.below(n), r.below(n)));
        }
        r.shuffle(&mut e);
        check(&mut run, n, &e);
    }
    run.finish()
}
