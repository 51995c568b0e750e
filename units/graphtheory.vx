@unit graphtheory
@include prelude.rs
@include iter.rs
@include collections.rs
@include petgraph.rs
@defattr #[verifier::loop_isolation(false)]
@source src/graphtheory.rs
@text
impl<N, E> DiGraph<N, E> {
    /// `map(|_, w| w.clone(), |_, _| ())`
    #[verifier::external_body] pub fn vx_map_clone(&self) -> (r: DiGraph<N, ()>) ensures r.nodes() == self.nodes(), r.edges() == self.edges() { unimplemented!() }
}
// ---- levels -------------------------------------------------------------------------------------
pub open spec fn maxlev<N, E>(g: &DiGraph<N, E>, out: bool, lev: Seq<u32>, v: nat) -> bool {
    &&& forall|b: nat| #[trigger] g.edges().contains(edge_of(v, out, b)) ==> lev[v as int] >= 1 + lev[b as int]
    &&& lev[v as int] > 0 ==> exists|b: nat| #[trigger] g.edges().contains(edge_of(v, out, b)) && lev[v as int] == 1 + lev[b as int]
}
/// p is a walk starting at v, followed along (out) or against (!out) the edges
pub open spec fn dwalk<N, E>(g: &DiGraph<N, E>, out: bool, p: Seq<nat>) -> bool {
    p.len() >= 1 && p[0] < g.n() && forall|i: int| 0 <= i < p.len() - 1 ==> g.edges().contains(edge_of(#[trigger] p[i], out, p[i + 1]))
}
/// lev[v] is the number of edges of a longest walk from v
pub open spec fn longest<N, E>(g: &DiGraph<N, E>, out: bool, lev: Seq<u32>, v: nat) -> bool {
    &&& forall|p: Seq<nat>| #[trigger] dwalk(g, out, p) && p[0] == v ==> p.len() - 1 <= lev[v as int]
    &&& exists|p: Seq<nat>| #[trigger] dwalk(g, out, p) && p[0] == v && p.len() - 1 == lev[v as int]
}
pub proof fn edge_in<N, E>(g: &DiGraph<N, E>, e: Edge) requires g.edges().contains(e) ensures e.0 < g.n(), e.1 < g.n() {
    let i = choose|i: int| 0 <= i < g.edges().len() && g.edges()[i] == e;
    graph_wf(g, i);
}
pub proof fn upper<N, E>(g: &DiGraph<N, E>, out: bool, lev: Seq<u32>, p: Seq<nat>)
    requires lev.len() == g.n(), forall|v: nat| v < g.n() ==> #[trigger] maxlev(g, out, lev, v), dwalk(g, out, p)
    ensures p.len() - 1 <= lev[p[0] as int]
    decreases p.len()
{
    if p.len() > 1 {
        let q = p.subrange(1, p.len() as int);
        assert(g.edges().contains(edge_of(p[0], out, p[1])));
        edge_in(g, edge_of(p[0], out, p[1]));
        assert forall|i: int| 0 <= i < q.len() - 1 implies g.edges().contains(edge_of(#[trigger] q[i], out, q[i + 1])) by {
            assert(q[i] == p[i + 1] && q[i + 1] == p[i + 2]);
        }
        assert(dwalk(g, out, q));
        upper(g, out, lev, q);
        assert(maxlev(g, out, lev, p[0]));
    }
}
pub proof fn witness<N, E>(g: &DiGraph<N, E>, out: bool, lev: Seq<u32>, v: nat) -> (p: Seq<nat>)
    requires lev.len() == g.n(), v < g.n(), forall|v: nat| v < g.n() ==> #[trigger] maxlev(g, out, lev, v)
    ensures dwalk(g, out, p), p[0] == v, p.len() - 1 == lev[v as int]
    decreases lev[v as int]
{
    if lev[v as int] == 0 { seq![v] } else {
        assert(maxlev(g, out, lev, v));
        let b = choose|b: nat| #[trigger] g.edges().contains(edge_of(v, out, b)) && lev[v as int] == 1 + lev[b as int];
        edge_in(g, edge_of(v, out, b));
        let q = witness(g, out, lev, b);
        let p = seq![v] + q;
        assert forall|i: int| 0 <= i < p.len() - 1 implies g.edges().contains(edge_of(#[trigger] p[i], out, p[i + 1])) by {
            if i == 0 { assert(p[1] == q[0]); } else { assert(p[i] == q[i - 1] && p[i + 1] == q[i]); }
        }
        p
    }
}
pub proof fn levels<N, E>(g: &DiGraph<N, E>, out: bool, lev: Seq<u32>)
    requires lev.len() == g.n(), forall|v: nat| v < g.n() ==> #[trigger] maxlev(g, out, lev, v)
    ensures forall|v: nat| v < g.n() ==> #[trigger] longest(g, out, lev, v)
{
    assert forall|v: nat| v < g.n() implies #[trigger] longest(g, out, lev, v) by {
        assert forall|p: Seq<nat>| #[trigger] dwalk(g, out, p) && p[0] == v implies p.len() - 1 <= lev[v as int] by { upper(g, out, lev, p); }
        let w = witness(g, out, lev, v);
    }
}
pub open spec fn later(o: Seq<NodeIndex>, k: int, v: nat) -> bool { exists|j: int| k < j < o.len() && (#[trigger] o[j]).ix == v }
pub open spec fn earlier(o: Seq<NodeIndex>, k: int, v: nat) -> bool { exists|j: int| 0 <= j < k && (#[trigger] o[j]).ix == v }
@fn blevel_dag
@shape L(L)
@locals graph toposort e blevel v downstream x
@letty vx_acc0 Option<u32>
@ret r
@spec
    ensures r is Err <==> cyclic(graph),
        r is Ok ==> r->Ok_0@.len() == graph.n() && forall|v: nat| v < graph.n() ==> #[trigger] longest(graph, true, r->Ok_0@, v)
@loop 0
    invariant blevel@.len() == graph.n(), vx_sq0.len() == graph.n(), is_topo(graph, toposort@), !cyclic(graph),
        forall|i: int| 0 <= i < vx_sq0.len() ==> *(#[trigger] vx_sq0[i]) == toposort@[toposort@.len() - 1 - i],
        forall|i: int| 0 <= i < toposort@.len() ==> i >= toposort@.len() - vx_it0.pos() ==> maxlev(graph, true, blevel@, (#[trigger] toposort@[i]).ix as nat),
        forall|i: int| 0 <= i < toposort@.len() ==> i >= toposort@.len() - vx_it0.pos() ==> blevel@[(#[trigger] toposort@[i]).ix as int] < vx_it0.pos(),
@hint loop-start 0
    let ghost k = toposort@.len() - vx_it0.pos();
    let ghost lev0 = blevel@;
    proof { graph_small(graph); assert(toposort@[k].ix < graph.n()); }
@loop 1
    invariant is_neighbors(graph, v@, true, vx_sq1), v == toposort@[k], blevel@ == lev0, k == toposort@.len() - vx_it0.pos(), 0 <= k < toposort@.len(),
        forall|i: int| 0 <= i < vx_sq1.len() ==> later(toposort@, k, (#[trigger] vx_sq1[i]).ix as nat),
        vx_acc0 is None <==> vx_it1.pos() == 0,
        vx_acc0 is Some ==> exists|i: int| 0 <= i < vx_it1.pos() && vx_acc0->0 == 1 + blevel@[(#[trigger] vx_sq1[i]).ix as int],
        vx_acc0 is Some ==> forall|i: int| 0 <= i < vx_it1.pos() ==> vx_acc0->0 >= 1 + blevel@[(#[trigger] vx_sq1[i]).ix as int],
        vx_acc0 is Some ==> vx_acc0->0 < vx_it0.pos(),
@hint before-loop 1
    proof {
        assert forall|i: int| 0 <= i < vx_sq1.len() implies later(toposort@, k, (#[trigger] vx_sq1[i]).ix as nat) by {
            let b = vx_sq1[i].ix as nat;
            assert(graph.edges().contains(edge_of(v@, true, b)));
            assert(topo_has(toposort@, b));
            let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
            assert(graph.has(toposort@[k].ix as nat, toposort@[j].ix as nat));
        }
    }
@hint loop-start 1
    proof { assert(vx_sq1[vx_it1.pos() - 1] == vx_sq1[vx_it1.pos() - 1]); }
@hint after-loop 1
    proof {
        assert(vx_acc0 is Some ==> exists|b: nat| #[trigger] graph.edges().contains(edge_of(v@, true, b)) && vx_acc0->0 == 1 + lev0[b as int]) by {
            if vx_acc0 is Some {
                let i = choose|i: int| 0 <= i < vx_it1.pos() && vx_acc0->0 == 1 + blevel@[(#[trigger] vx_sq1[i]).ix as int];
                assert(graph.edges().contains(edge_of(v@, true, vx_sq1[i].ix as nat)));
            }
        }
        assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(v@, true, b)) implies vx_acc0 is Some && vx_acc0->0 >= 1 + lev0[b as int] by {
            let i = choose|i: int| 0 <= i < vx_sq1.len() && (#[trigger] vx_sq1[i]).ix == b;
            assert(vx_sq1[i].ix == b);
        }
    }
@hint loop-end 0
    proof {
        assert(forall|b: nat| b != v@ && b < graph.n() ==> lev0[b as int] == blevel@[b as int]);
        assert(v@ == toposort@[k].ix);
        assert(maxlev(graph, true, blevel@, v@)) by {
            assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(v@, true, b)) implies blevel@[v@ as int] >= 1 + blevel@[b as int] by {
                edge_in(graph, edge_of(v@, true, b));
                assert(topo_has(toposort@, b));
                let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                assert(graph.has(toposort@[k].ix as nat, toposort@[j].ix as nat));
                assert(toposort@[j].ix != v.ix);
            }
            if blevel@[v@ as int] > 0 {
                let b = choose|b: nat| #[trigger] graph.edges().contains(edge_of(v@, true, b)) && blevel@[v@ as int] == 1 + lev0[b as int];
                edge_in(graph, edge_of(v@, true, b));
                assert(topo_has(toposort@, b));
                let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                assert(graph.has(toposort@[k].ix as nat, toposort@[j].ix as nat));
                assert(toposort@[j].ix != v.ix);
            }
        }
        assert forall|i: int| 0 <= i < toposort@.len() && i >= k implies maxlev(graph, true, blevel@, (#[trigger] toposort@[i]).ix as nat) by {
            if i > k {
                let w = toposort@[i].ix as nat;
                assert(w != v@);
                assert(maxlev(graph, true, lev0, w));
                assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(w, true, b)) implies lev0[b as int] == blevel@[b as int] by {
                    edge_in(graph, edge_of(w, true, b));
                    assert(topo_has(toposort@, b));
                    let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                    assert(graph.has(toposort@[i].ix as nat, toposort@[j].ix as nat));
                    assert(toposort@[j].ix != v.ix);
                }
            }
        }
        assert forall|i: int| 0 <= i < toposort@.len() && i >= k implies blevel@[(#[trigger] toposort@[i]).ix as int] < vx_it0.pos() by {
            if i > k { assert(toposort@[i].ix != v.ix); }
        }
    }
@hint fn-end
    proof {
        assert forall|v: nat| v < graph.n() implies #[trigger] maxlev(graph, true, blevel@, v) by {
            assert(topo_has(toposort@, v));
            let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == v;
            assert(toposort@[j].ix == v);
        }
        levels(graph, true, blevel@);
    }
@fn tlevel_dag
@shape L(L)
@locals graph toposort e tlevel v upstream x
@letty vx_acc0 Option<u32>
@ret r
@spec
    ensures r is Err <==> cyclic(graph),
        r is Ok ==> r->Ok_0@.len() == graph.n() && forall|v: nat| v < graph.n() ==> #[trigger] longest(graph, false, r->Ok_0@, v)
@loop 0
    invariant tlevel@.len() == graph.n(), vx_sq0.len() == graph.n(), is_topo(graph, toposort@), !cyclic(graph),
        forall|i: int| 0 <= i < vx_sq0.len() ==> *(#[trigger] vx_sq0[i]) == toposort@[i],
        forall|i: int| 0 <= i < toposort@.len() ==> i < vx_it0.pos() ==> maxlev(graph, false, tlevel@, (#[trigger] toposort@[i]).ix as nat),
        forall|i: int| 0 <= i < toposort@.len() ==> i < vx_it0.pos() ==> tlevel@[(#[trigger] toposort@[i]).ix as int] < vx_it0.pos(),
@hint loop-start 0
    let ghost k = vx_it0.pos() - 1;
    let ghost lev0 = tlevel@;
    proof { graph_small(graph); assert(toposort@[k].ix < graph.n()); }
@loop 1
    invariant is_neighbors(graph, v@, false, vx_sq1), v == toposort@[k], tlevel@ == lev0, k == vx_it0.pos() - 1, 0 <= k < toposort@.len(),
        forall|i: int| 0 <= i < vx_sq1.len() ==> earlier(toposort@, k, (#[trigger] vx_sq1[i]).ix as nat),
        vx_acc0 is None <==> vx_it1.pos() == 0,
        vx_acc0 is Some ==> exists|i: int| 0 <= i < vx_it1.pos() && vx_acc0->0 == 1 + tlevel@[(#[trigger] vx_sq1[i]).ix as int],
        vx_acc0 is Some ==> forall|i: int| 0 <= i < vx_it1.pos() ==> vx_acc0->0 >= 1 + tlevel@[(#[trigger] vx_sq1[i]).ix as int],
        vx_acc0 is Some ==> vx_acc0->0 < vx_it0.pos(),
@hint before-loop 1
    proof {
        assert forall|i: int| 0 <= i < vx_sq1.len() implies earlier(toposort@, k, (#[trigger] vx_sq1[i]).ix as nat) by {
            let b = vx_sq1[i].ix as nat;
            assert(graph.edges().contains(edge_of(v@, false, b)));
            assert(topo_has(toposort@, b));
            let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
            assert(graph.has(toposort@[j].ix as nat, toposort@[k].ix as nat));
        }
    }
@hint loop-start 1
    proof { assert(vx_sq1[vx_it1.pos() - 1] == vx_sq1[vx_it1.pos() - 1]); }
@hint after-loop 1
    proof {
        assert(vx_acc0 is Some ==> exists|b: nat| #[trigger] graph.edges().contains(edge_of(v@, false, b)) && vx_acc0->0 == 1 + lev0[b as int]) by {
            if vx_acc0 is Some {
                let i = choose|i: int| 0 <= i < vx_it1.pos() && vx_acc0->0 == 1 + tlevel@[(#[trigger] vx_sq1[i]).ix as int];
                assert(graph.edges().contains(edge_of(v@, false, vx_sq1[i].ix as nat)));
            }
        }
        assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(v@, false, b)) implies vx_acc0 is Some && vx_acc0->0 >= 1 + lev0[b as int] by {
            let i = choose|i: int| 0 <= i < vx_sq1.len() && (#[trigger] vx_sq1[i]).ix == b;
            assert(vx_sq1[i].ix == b);
        }
    }
@hint loop-end 0
    proof {
        assert(forall|b: nat| b != v@ && b < graph.n() ==> lev0[b as int] == tlevel@[b as int]);
        assert(v@ == toposort@[k].ix);
        assert(maxlev(graph, false, tlevel@, v@)) by {
            assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(v@, false, b)) implies tlevel@[v@ as int] >= 1 + tlevel@[b as int] by {
                edge_in(graph, edge_of(v@, false, b));
                assert(topo_has(toposort@, b));
                let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                assert(graph.has(toposort@[j].ix as nat, toposort@[k].ix as nat));
                assert(toposort@[j].ix != v.ix);
            }
            if tlevel@[v@ as int] > 0 {
                let b = choose|b: nat| #[trigger] graph.edges().contains(edge_of(v@, false, b)) && tlevel@[v@ as int] == 1 + lev0[b as int];
                edge_in(graph, edge_of(v@, false, b));
                assert(topo_has(toposort@, b));
                let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                assert(graph.has(toposort@[j].ix as nat, toposort@[k].ix as nat));
                assert(toposort@[j].ix != v.ix);
            }
        }
        assert forall|i: int| 0 <= i < toposort@.len() && i <= k implies maxlev(graph, false, tlevel@, (#[trigger] toposort@[i]).ix as nat) by {
            if i < k {
                let w = toposort@[i].ix as nat;
                assert(w != v@);
                assert(maxlev(graph, false, lev0, w));
                assert forall|b: nat| #[trigger] graph.edges().contains(edge_of(w, false, b)) implies lev0[b as int] == tlevel@[b as int] by {
                    edge_in(graph, edge_of(w, false, b));
                    assert(topo_has(toposort@, b));
                    let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == b;
                    assert(graph.has(toposort@[j].ix as nat, toposort@[i].ix as nat));
                    assert(toposort@[j].ix != v.ix);
                }
            }
        }
        assert forall|i: int| 0 <= i < toposort@.len() && i <= k implies tlevel@[(#[trigger] toposort@[i]).ix as int] < vx_it0.pos() by {
            if i < k { assert(toposort@[i].ix != v.ix); }
        }
    }
@hint fn-end
    proof {
        assert forall|v: nat| v < graph.n() implies #[trigger] maxlev(graph, false, tlevel@, v) by {
            assert(topo_has(toposort@, v));
            let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == v;
            assert(toposort@[j].ix == v);
        }
        levels(graph, false, tlevel@);
    }
@text
// ---- breadth-first layers and the transitive closure ----------------------------------------------
pub open spec fn at_dist<N, E>(g: &DiGraph<N, E>, s: nat, d: nat, c: nat) -> bool decreases d, 0nat {
    if d == 0 { c == s } else { !seen(g, s, (d - 1) as nat, c) && exists|v: nat| at_dist(g, s, (d - 1) as nat, v) && #[trigger] g.has(v, c) }
}
pub open spec fn seen<N, E>(g: &DiGraph<N, E>, s: nat, d: nat, c: nat) -> bool decreases d, 1nat {
    at_dist(g, s, d, c) || (d > 0 && seen(g, s, (d - 1) as nat, c))
}
pub open spec fn is_layer<N, E>(q: Set<nat>, g: &DiGraph<N, E>, s: nat, d: nat) -> bool { forall|c: nat| #![trigger q.contains(c)] #![trigger at_dist(g, s, d, c)] q.contains(c) <==> at_dist(g, s, d, c) }
pub open spec fn is_seen<N, E>(q: Set<nat>, g: &DiGraph<N, E>, s: nat, d: nat) -> bool { forall|c: nat| #![trigger q.contains(c)] #![trigger seen(g, s, d, c)] q.contains(c) <==> seen(g, s, d, c) }
pub proof fn empty_stays<N, E>(g: &DiGraph<N, E>, s: nat, d: nat, e: nat)
    requires d <= e, forall|c: nat| !at_dist(g, s, d, c) ensures forall|c: nat| !at_dist(g, s, e, c) decreases e - d
{
    if d < e {
        let d1 = d + 1;
        assert forall|c: nat| !#[trigger] at_dist(g, s, d1, c) by {
            if at_dist(g, s, d + 1, c) { let v = choose|v: nat| at_dist(g, s, d, v) && #[trigger] g.has(v, c); assert(!at_dist(g, s, d, v)); }
        }
        empty_stays(g, s, d + 1, e);
    }
}
/// a path from a to b starts with an edge
pub proof fn reach_first<N, E>(g: &DiGraph<N, E>, a: nat, b: nat)
    requires reach(g, a, b) ensures g.has(a, b) || exists|c: nat| #[trigger] g.has(a, c) && reach(g, c, b)
{
    let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b;
    assert(g.has(p[0], p[1]));
    if p.len() > 2 {
        let q = p.subrange(1, p.len() as int);
        edge_in(g, (p[0], p[1]));
        assert forall|i: int| 0 <= i < q.len() - 1 implies g.has(#[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i + 1] && q[i + 1] == p[i + 2]); }
        assert(is_walk(g, q));
        assert(reach(g, p[1], b));
    }
}
pub proof fn reach_edge<N, E>(g: &DiGraph<N, E>, a: nat, b: nat) requires g.has(a, b) ensures reach(g, a, b)
{ edge_in(g, (a, b)); assert(is_walk(g, seq![a, b])); }
pub proof fn reach_cons<N, E>(g: &DiGraph<N, E>, a: nat, c: nat, b: nat) requires g.has(a, c), reach(g, c, b) ensures reach(g, a, b)
{
    edge_in(g, (a, c));
    let q = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == c && p.last() == b;
    let p = seq![a] + q;
    assert forall|i: int| 0 <= i < p.len() - 1 implies g.has(#[trigger] p[i], p[i + 1]) by {
        if i > 0 { assert(p[i] == q[i - 1] && p[i + 1] == q[i]); } else { assert(p[1] == q[0]); }
    }
    assert(is_walk(g, p) && p.last() == b);
}
@fn descendants_at_distance
@shape L(L(L))
@locals graph source distance current_distance queue visited next_vertices vertex child
@letty queue HashSet<NodeIndex>
@letty visited HashSet<NodeIndex>
@letty next_vertices HashSet<NodeIndex>
@ret r
@spec
    requires distance >= 0
    ensures is_layer(r@, graph, source@, distance as nat)
@loop 0
    invariant 0 <= current_distance <= distance,
        is_layer(queue@, graph, source@, current_distance as nat),
        is_seen(visited@, graph, source@, current_distance as nat),
    decreases distance - current_distance
@hint before-loop 0
    proof { assert forall|c: nat| seen(graph, source@, 0, c) <==> c == source@ by { reveal_with_fuel(at_dist, 2); reveal_with_fuel(seen, 2); } }
@hint loop-start 0
    let ghost d0 = current_distance as nat;
    let ghost q0 = queue@;
@loop 1
    invariant current_distance == d0 + 1, current_distance <= distance,
        forall|c: nat| #[trigger] next_vertices@.contains(c) ==> at_dist(graph, source@, d0 + 1, c),
        forall|c: nat| #[trigger] visited@.contains(c) <==> seen(graph, source@, d0, c) || next_vertices@.contains(c),
        forall|i: int, c: nat| 0 <= i < vx_it0.pos() && #[trigger] graph.has((#[trigger] vx_sq0[i])@, c) ==> visited@.contains(c),
        forall|i: int| 0 <= i < vx_sq0.len() ==> at_dist(graph, source@, d0, (#[trigger] vx_sq0[i])@),
@loop 2
    invariant current_distance == d0 + 1, current_distance <= distance, is_neighbors(graph, vertex@, true, vx_sq1), at_dist(graph, source@, d0, vertex@),
        vx_it0.pos() >= 1, vertex == vx_sq0[vx_it0.pos() - 1],
        forall|c: nat| #[trigger] next_vertices@.contains(c) ==> at_dist(graph, source@, d0 + 1, c),
        forall|c: nat| #[trigger] visited@.contains(c) <==> seen(graph, source@, d0, c) || next_vertices@.contains(c),
        forall|i: int, c: nat| 0 <= i < vx_it0.pos() - 1 && #[trigger] graph.has((#[trigger] vx_sq0[i])@, c) ==> visited@.contains(c),
        forall|i: int| 0 <= i < vx_it1.pos() ==> visited@.contains((#[trigger] vx_sq1[i])@),
@hint loop-start 2
    proof { let e = vx_sq1[vx_it1.pos() - 1]; assert(graph.edges().contains(edge_of(vertex@, true, e@))); assert(graph.has(vertex@, e@)); }
@hint after-loop 2
    proof {
        assert forall|i: int, c: nat| 0 <= i < vx_it0.pos() && #[trigger] graph.has((#[trigger] vx_sq0[i])@, c) implies visited@.contains(c) by {
            if i == vx_it0.pos() - 1 {
                assert(graph.edges().contains(edge_of(vertex@, true, c)));
                let j = choose|j: int| 0 <= j < vx_sq1.len() && (#[trigger] vx_sq1[j]).ix == c;
                assert(visited@.contains(vx_sq1[j]@));
            }
        }
    }
@hint after-loop 1
    proof {
        assert forall|c: nat| at_dist(graph, source@, d0 + 1, c) implies #[trigger] next_vertices@.contains(c) by {
            let v = choose|v: nat| at_dist(graph, source@, d0, v) && #[trigger] graph.has(v, c);
            assert(q0.contains(v));
            let j = choose|j: int| 0 <= j < vx_sq0.len() && (#[trigger] vx_sq0[j])@ == v;
            assert(graph.has(vx_sq0[j]@, c));
        }
    }
@hint after-loop 0
    proof {
        let cd = current_distance as nat;
        assert forall|c: nat| !#[trigger] at_dist(graph, source@, cd, c) by { assert(!queue@.contains(c)); }
        empty_stays(graph, source@, current_distance as nat, distance as nat);
    }
@fn transitive_closure_dag
@shape L(L)
@locals graph tc toposort e u v
@subst graph.map(|_,w|w.clone(),|_,_|()) => graph.vx_map_clone()
@ret r
@spec
    ensures r is Err <==> cyclic(graph),
        r is Ok ==> r->Ok_0.nodes() == graph.nodes() && forall|a: nat, b: nat| #[trigger] r->Ok_0.has(a, b) <==> reach(graph, a, b)
@loop 0
    invariant vx_sq0.len() == graph.n(), is_topo(graph, toposort@), !cyclic(graph), tc.nodes() == graph.nodes(),
        forall|i: int| 0 <= i < vx_sq0.len() ==> *(#[trigger] vx_sq0[i]) == toposort@[toposort@.len() - 1 - i],
        forall|i: int, b: nat| 0 <= i < toposort@.len() && i >= toposort@.len() - vx_it0.pos() ==> (#[trigger] tc.has((#[trigger] toposort@[i])@, b) <==> reach(graph, toposort@[i]@, b)),
        forall|i: int, b: nat| 0 <= i < toposort@.len() && i < toposort@.len() - vx_it0.pos() ==> (#[trigger] tc.has((#[trigger] toposort@[i])@, b) <==> graph.has(toposort@[i]@, b)),
@hint loop-start 0
    let ghost k = toposort@.len() - vx_it0.pos();
    let ghost t0 = tc;
@loop 1
    invariant u == toposort@[k], k == toposort@.len() - vx_it0.pos(), 0 <= k < toposort@.len(), tc.nodes() == graph.nodes(), is_topo(graph, toposort@),
        forall|i: int| 0 <= i < vx_sq1.len() ==> at_dist(&t0, u@, 2, (#[trigger] vx_sq1[i])@),
        forall|a: nat, b: nat| #[trigger] tc.has(a, b) <==> t0.has(a, b) || (a == u@ && exists|i: int| 0 <= i < vx_it1.pos() && (#[trigger] vx_sq1[i])@ == b),
@hint loop-start 1
    let ghost t1 = tc;
    proof {
        let w = vx_sq1[vx_it1.pos() - 1]@;
        reveal_with_fuel(at_dist, 3);
        assert(at_dist(&t0, u@, 2, w));
        let c = choose|c: nat| at_dist(&t0, u@, 1, c) && #[trigger] t0.has(c, w);
        edge_in(&t0, (c, w));
    }
@hint loop-end 1
    proof {
        assert forall|a: nat, b: nat| #[trigger] tc.has(a, b) <==> t1.has(a, b) || (a == u@ && b == v@) by {
            let e = (a, b);
            if t1.edges().contains(e) { let j = choose|j: int| 0 <= j < t1.edges().len() && t1.edges()[j] == e; assert(tc.edges()[j] == e); }
            if tc.edges().contains(e) { let j = choose|j: int| 0 <= j < tc.edges().len() && tc.edges()[j] == e; if j < t1.edges().len() { assert(t1.edges()[j] == e); } }
            assert(tc.edges()[t1.edges().len() as int] == (u@, v@));
        }
    }
@hint after-loop 1
    proof {
        reveal_with_fuel(at_dist, 3); reveal_with_fuel(seen, 3);
        assert forall|b: nat| #[trigger] tc.has(u@, b) <==> reach(graph, u@, b) by {
            assert(u@ == toposort@[k]@);
            assert(!reach(graph, u@, u@));
            if tc.has(u@, b) {
                if t0.has(toposort@[k]@, b) { reach_edge(graph, u@, b); } else {
                    let i = choose|i: int| 0 <= i < vx_it1.pos() && (#[trigger] vx_sq1[i])@ == b;
                    assert(at_dist(&t0, u@, 2, b));
                    let c = choose|c: nat| at_dist(&t0, u@, 1, c) && #[trigger] t0.has(c, b);
                    let c0 = choose|c0: nat| at_dist(&t0, u@, 0, c0) && #[trigger] t0.has(c0, c);
                    assert(t0.has(toposort@[k]@, c));
                    edge_in(graph, (u@, c));
                    assert(topo_has(toposort@, c));
                    let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == c;
                    assert(graph.has(toposort@[k].ix as nat, toposort@[j].ix as nat));
                    assert(t0.has(toposort@[j]@, b));
                    reach_cons(graph, u@, c, b);
                }
            }
            if reach(graph, u@, b) {
                reach_first(graph, u@, b);
                if graph.has(u@, b) { assert(t0.has(toposort@[k]@, b)); } else {
                    let c = choose|c: nat| #[trigger] graph.has(u@, c) && reach(graph, c, b);
                    edge_in(graph, (u@, c));
                    assert(topo_has(toposort@, c));
                    let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == c;
                    assert(graph.has(toposort@[k].ix as nat, toposort@[j].ix as nat));
                    assert(t0.has(toposort@[k]@, c));
                    assert(t0.has(toposort@[j]@, b));
                    assert(at_dist(&t0, u@, 0, u@) && t0.has(u@, c));
                    reach_edge(graph, u@, c);
                    assert(c != u@);
                    assert(at_dist(&t0, u@, 1, c));
                    assert(b != u@);
                    if at_dist(&t0, u@, 1, b) {
                        let z = choose|z: nat| at_dist(&t0, u@, 0, z) && #[trigger] t0.has(z, b);
                        assert(t0.has(toposort@[k]@, b));
                        assert(false);
                    }
                    assert(!seen(&t0, u@, 1, b));
                    assert(at_dist(&t0, u@, 2, b));
                }
            }
        }
        assert forall|i: int, b: nat| 0 <= i < toposort@.len() && i != k implies (#[trigger] tc.has((#[trigger] toposort@[i])@, b) <==> t0.has(toposort@[i]@, b)) by {
            assert(toposort@[i].ix != toposort@[k].ix);
        }
    }
@hint fn-end
    proof {
        assert forall|a: nat, b: nat| #[trigger] tc.has(a, b) <==> reach(graph, a, b) by {
            if tc.has(a, b) { edge_in(&tc, (a, b)); }
            if a < graph.n() {
                assert(topo_has(toposort@, a));
                let j = choose|j: int| 0 <= j < toposort@.len() && (#[trigger] toposort@[j]).ix == a;
                assert(toposort@[j]@ == a);
            }
        }
    }
