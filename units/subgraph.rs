// Induced subgraphs: the nodes kept, in order, and all edges between them.
impl<N: Clone> Clone for DiGraph<N, ()> {
    /// the copies of the weights play no part here
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.n() == self.n(), r.edges() == self.edges() { unimplemented!() }
}
pub open spec fn flip(es: Seq<Edge>) -> Seq<Edge> { Seq::new(es.len(), |i: int| (es[i].1, es[i].0)) }
/// the indices with a value, in order
pub open spec fn kept_ix<M>(keep: Seq<Option<M>>) -> Seq<nat> decreases keep.len() {
    if keep.len() == 0 { Seq::empty() } else if keep.last() is Some { kept_ix(keep.drop_last()).push((keep.len() - 1) as nat) } else { kept_ix(keep.drop_last()) }
}
/// r is g restricted to the nodes emb, which keep their order
pub open spec fn sub_of<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, emb: Seq<nat>) -> bool {
    &&& r.n() == emb.len()
    &&& forall|i: int| 0 <= i < emb.len() ==> #[trigger] emb[i] < g.n()
    &&& forall|i: int, j: int| 0 <= i < j < emb.len() ==> #[trigger] emb[i] < #[trigger] emb[j]
    &&& forall|i: nat, j: nat| i < emb.len() && j < emb.len() ==> #[trigger] mult(r.edges(), (i, j)) == mult(g.edges(), (emb[i as int], emb[j as int]))
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body] pub fn vx_at_mut<'b>(&'b mut self, a: NodeIndex) -> (r: &'b mut N)
        requires a.ix < old(self).n()
        ensures *r == old(self).nodes()[a.ix as int], final(self).nodes() == old(self).nodes().update(a.ix as int, *final(r)), final(self).edges() == old(self).edges() { unimplemented!() }
    #[verifier::external_body] pub fn reverse(&mut self)
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == flip(old(self).edges()) { unimplemented!() }
    /// the edges, as their end points
    #[verifier::external_body] pub fn edge_indices(&self) -> (r: VIter<EdgeIndex>)
        ensures r.pos() == 0, r.seq().len() == self.edges().len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).ix == i { unimplemented!() }
    #[verifier::external_body] pub fn edge_endpoints(&self, e: EdgeIndex) -> (r: Option<(NodeIndex, NodeIndex)>)
        ensures r is Some <==> e.ix < self.edges().len(), r is Some ==> (r->0).0.ix == self.edges()[e.ix as int].0 && (r->0).1.ix == self.edges()[e.ix as int].1 { unimplemented!() }
    /// Graph::filter_map once the node closure has been evaluated for every node and the edge closure keeps every edge
    #[verifier::external_body] pub fn vx_filter_graph<M>(&self, keep: Vec<Option<M>>) -> (r: DiGraph<M, ()>)
        requires keep@.len() == self.n()
        ensures r.n() == kept_ix(keep@).len(),
            forall|k: int| 0 <= k < r.n() ==> #[trigger] r.nodes()[k] == keep@[kept_ix(keep@)[k] as int]->0,
            forall|i: nat, j: nat| i < r.n() && j < r.n() ==> #[trigger] mult(r.edges(), (i, j)) == mult(self.edges(), (kept_ix(keep@)[i as int], kept_ix(keep@)[j as int])) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct EdgeIndex { pub ix: usize }
pub proof fn kept_has<M>(keep: Seq<Option<M>>)
    ensures forall|i: nat| #[trigger] kept_ix(keep).contains(i) <==> i < keep.len() && keep[i as int] is Some,
        forall|i: int, j: int| 0 <= i < j < kept_ix(keep).len() ==> #[trigger] kept_ix(keep)[i] < #[trigger] kept_ix(keep)[j],
    decreases keep.len()
{
    if keep.len() > 0 {
        let p = keep.drop_last();
        kept_has(p);
        let q = kept_ix(p);
        let s = kept_ix(keep);
        assert forall|i: nat| #[trigger] s.contains(i) <==> i < keep.len() && keep[i as int] is Some by {
            if s.contains(i) { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; if k < q.len() { assert(q[k] == i); assert(q.contains(i)); } }
            if i < keep.len() && keep[i as int] is Some {
                if i < p.len() { assert(p[i as int] is Some); assert(q.contains(i)); let k = choose|k: int| 0 <= k < q.len() && q[k] == i; assert(s[k] == i); } else { assert(s[q.len() as int] == i); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] < #[trigger] s[j] by {
            if j == q.len() { assert(s[i] == q[i]); assert(q.contains(q[i])); } else { assert(s[i] == q[i] && s[j] == q[j]); }
        }
    }
}
pub proof fn mult_in(es: Seq<Edge>, e: Edge) ensures mult(es, e) > 0 <==> es.contains(e) decreases es.len()
{
    if es.len() > 0 {
        mult_in(es.drop_last(), e);
        if es.last() == e { assert(es[es.len() - 1] == e); }
        if es.drop_last().contains(e) { let i = choose|i: int| 0 <= i < es.len() - 1 && es.drop_last()[i] == e; assert(es[i] == e); }
        if es.contains(e) { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; if i < es.len() - 1 { assert(es.drop_last()[i] == e); } }
    }
}
pub proof fn flip_has(es: Seq<Edge>, a: nat, b: nat) ensures flip(es).contains((a, b)) <==> es.contains((b, a))
{
    if es.contains((b, a)) { let i = choose|i: int| 0 <= i < es.len() && es[i] == (b, a); assert(flip(es)[i] == (a, b)); }
    if flip(es).contains((a, b)) { let i = choose|i: int| 0 <= i < es.len() && flip(es)[i] == (a, b); assert(es[i] == (b, a)); }
}
pub proof fn sub_has<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, emb: Seq<nat>, a: nat, b: nat)
    requires sub_of(g, r, emb), a < emb.len(), b < emb.len()
    ensures r.has(a, b) <==> g.has(emb[a as int], emb[b as int])
{ mult_in(r.edges(), (a, b)); mult_in(g.edges(), (emb[a as int], emb[b as int])); }
pub open spec fn comp(e1: Seq<nat>, e2: Seq<nat>) -> Seq<nat> { Seq::new(e2.len(), |k: int| e1[e2[k] as int]) }
pub proof fn sub_comp<N, E, M, F, O, G>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, s: &DiGraph<O, G>, e1: Seq<nat>, e2: Seq<nat>)
    requires sub_of(g, r, e1), sub_of(r, s, e2)
    ensures sub_of(g, s, comp(e1, e2))
{
    let c = comp(e1, e2);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies #[trigger] c[i] < #[trigger] c[j] by { assert(e2[i] < e2[j]); assert(e2[j] < r.n()); assert(e1[e2[i] as int] < e1[e2[j] as int]); }
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < g.n() by { assert(e2[i] < r.n()); }
    assert forall|i: nat, j: nat| i < c.len() && j < c.len() implies #[trigger] mult(s.edges(), (i, j)) == mult(g.edges(), (c[i as int], c[j as int])) by {
        let x = e2[i as int]; let y = e2[j as int];
        assert(x < r.n() && y < r.n());
        assert(mult(r.edges(), (x, y)) == mult(g.edges(), (e1[x as int], e1[y as int])));
    }
}
/// walks that stay inside s
pub open spec fn walk_in<N, E>(g: &DiGraph<N, E>, s: spec_fn(nat) -> bool, p: Seq<nat>) -> bool { is_walk(g, p) && forall|i: int| 0 <= i < p.len() ==> s(#[trigger] p[i]) }
pub open spec fn reach_in<N, E>(g: &DiGraph<N, E>, s: spec_fn(nat) -> bool, a: nat, b: nat) -> bool {
    exists|p: Seq<nat>| #[trigger] walk_in(g, s, p) && p.len() >= 2 && p[0] == a && p.last() == b
}
pub proof fn walk_bound<N, E>(g: &DiGraph<N, E>, p: Seq<nat>) requires is_walk(g, p) ensures forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < g.n()
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < g.n() by {
        if i > 0 { assert(g.has(p[i - 1], p[i - 1 + 1])); let e = (p[i - 1], p[i]); let k = choose|k: int| 0 <= k < g.edges().len() && g.edges()[k] == e; graph_wf(g, k); }
    }
}
/// paths of the restriction are the paths that stay inside
pub proof fn sub_reach<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, emb: Seq<nat>, s: spec_fn(nat) -> bool, a: nat, b: nat)
    requires sub_of(g, r, emb), forall|i: nat| i < g.n() ==> (#[trigger] emb.contains(i) <==> s(i)), a < emb.len(), b < emb.len()
    ensures reach(r, a, b) <==> reach_in(g, s, emb[a as int], emb[b as int])
{
    if reach(r, a, b) {
        let p = choose|p: Seq<nat>| #[trigger] is_walk(r, p) && p.len() >= 2 && p[0] == a && p.last() == b;
        walk_bound(r, p);
        let q = Seq::new(p.len(), |i: int| emb[p[i] as int]);
        assert forall|i: int| 0 <= i < q.len() - 1 implies g.has(#[trigger] q[i], q[i + 1]) by { assert(r.has(p[i], p[i + 1])); sub_has(g, r, emb, p[i], p[i + 1]); }
        assert forall|i: int| 0 <= i < q.len() implies s(#[trigger] q[i]) by { assert(emb[p[i] as int] < g.n()); assert(emb.contains(q[i])); }
        assert(emb[p[0] as int] < g.n());
        assert(walk_in(g, s, q));
        assert(q[0] == emb[a as int] && q.last() == emb[b as int]);
    }
    if reach_in(g, s, emb[a as int], emb[b as int]) {
        let q = choose|q: Seq<nat>| #[trigger] walk_in(g, s, q) && q.len() >= 2 && q[0] == emb[a as int] && q.last() == emb[b as int];
        walk_bound(g, q);
        let p = Seq::new(q.len(), |i: int| (choose|k: int| 0 <= k < emb.len() && emb[k] == q[i]) as nat);
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) < emb.len() && emb[p[i] as int] == q[i] by {
            assert(s(q[i])); assert(emb.contains(q[i]));
            let k = choose|k: int| 0 <= k < emb.len() && emb[k] == q[i];
            assert(p[i] == k);
        }
        assert forall|i: int| 0 <= i < p.len() - 1 implies r.has(#[trigger] p[i], p[i + 1]) by { assert(g.has(q[i], q[i + 1])); let _ = p[i + 1]; sub_has(g, r, emb, p[i], p[i + 1]); }
        assert(p[0] == a) by { if p[0] < a { assert(emb[p[0] as int] < emb[a as int]); } if p[0] > a { assert(emb[a as int] < emb[p[0] as int]); } }
        let l = p[p.len() - 1];
        assert(q[q.len() - 1] == q.last());
        assert(l == b) by { if l < b { assert(emb[l as int] < emb[b as int]); } if l > b { assert(emb[b as int] < emb[l as int]); } }
        assert(is_walk(r, p));
    }
}
pub proof fn reach_in_all<N, E>(g: &DiGraph<N, E>, s: spec_fn(nat) -> bool, a: nat, b: nat) ensures reach_in(g, s, a, b) ==> reach(g, a, b)
{ if reach_in(g, s, a, b) { let p = choose|p: Seq<nat>| #[trigger] walk_in(g, s, p) && p.len() >= 2 && p[0] == a && p.last() == b; assert(is_walk(g, p)); } }
pub proof fn sub_acyclic<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, emb: Seq<nat>)
    requires sub_of(g, r, emb), !cyclic(g) ensures !cyclic(r)
{
    if cyclic(r) {
        let a = choose|a: nat| #[trigger] reach(r, a, a);
        let p = choose|p: Seq<nat>| #[trigger] is_walk(r, p) && p.len() >= 2 && p[0] == a && p.last() == a;
        walk_bound(r, p); assert(p[0] < r.n());
        let s = |i: nat| emb.contains(i);
        sub_reach(g, r, emb, s, a, a);
        reach_in_all(g, s, emb[a as int], emb[a as int]);
    }
}
/// part of a walk
pub proof fn walk_part<N, E>(g: &DiGraph<N, E>, p: Seq<nat>, i: int, j: int) requires is_walk(g, p), 0 <= i < j < p.len() ensures reach(g, p[i], p[j])
{
    walk_bound(g, p);
    let q = p.subrange(i, j + 1);
    assert forall|k: int| 0 <= k < q.len() - 1 implies g.has(#[trigger] q[k], q[k + 1]) by { assert(g.has(p[i + k], p[i + k + 1])); assert(q[k] == p[i + k] && q[k + 1] == p[i + k + 1]); }
    assert(q[0] == p[i]); assert(q.last() == p[j]); assert(p[i] < g.n());
    assert(is_walk(g, q));
}
pub proof fn reach_join<N, E>(g: &DiGraph<N, E>, a: nat, b: nat, c: nat) requires reach(g, a, b), reach(g, b, c) ensures reach(g, a, c)
{
    let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b;
    let q = choose|q: Seq<nat>| #[trigger] is_walk(g, q) && q.len() >= 2 && q[0] == b && q.last() == c;
    let r = p + q.subrange(1, q.len() as int);
    assert forall|k: int| 0 <= k < r.len() - 1 implies g.has(#[trigger] r[k], r[k + 1]) by {
        if k + 1 < p.len() { assert(g.has(p[k], p[k + 1])); } else { let m = k + 1 - p.len(); assert(r[k + 1] == q[m + 1]); assert(g.has(q[m], q[m + 1])); if m > 0 { assert(r[k] == q[m]); } else { assert(r[k] == p.last()); } }
    }
    assert(is_walk(g, r));
    assert(r[0] == a); assert(r.last() == c);
}
/// a set that holds whatever its members depend on
pub proof fn reach_closed<N, E>(g: &DiGraph<N, E>, s: spec_fn(nat) -> bool, a: nat, b: nat)
    requires s(b), forall|x: nat, y: nat| #[trigger] reach(g, x, y) && s(y) ==> s(x)
    ensures reach(g, a, b) <==> reach_in(g, s, a, b)
{
    reach_in_all(g, s, a, b);
    if reach(g, a, b) {
        let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b;
        assert forall|i: int| 0 <= i < p.len() implies s(#[trigger] p[i]) by { if i < p.len() - 1 { walk_part(g, p, i, p.len() - 1); assert(reach(g, p[i], p[p.len() - 1])); } }
        assert(walk_in(g, s, p));
    }
}
pub proof fn flip_reach<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>, a: nat, b: nat)
    requires r.n() == g.n(), r.edges() == flip(g.edges()) ensures reach(g, a, b) ==> reach(r, b, a)
{
    if reach(g, a, b) {
        let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b;
        walk_bound(g, p);
        let q = p.reverse();
        assert forall|k: int| 0 <= k < q.len() - 1 implies r.has(#[trigger] q[k], q[k + 1]) by {
            let m = p.len() - 2 - k;
            assert(g.has(p[m], p[m + 1])); flip_has(g.edges(), p[m + 1], p[m]);
            assert(q[k] == p[m + 1] && q[k + 1] == p[m]);
        }
        assert(q[0] == b); assert(q.last() == a); assert(p[p.len() - 1] < g.n());
        assert(is_walk(r, q));
    }
}
pub proof fn flip_flip(es: Seq<Edge>) ensures flip(flip(es)) =~= es {}
pub proof fn flip_reach2<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>)
    requires r.n() == g.n(), r.edges() == flip(g.edges())
    ensures forall|a: nat, b: nat| #[trigger] reach(r, b, a) <==> reach(g, a, b), cyclic(r) <==> cyclic(g)
{
    flip_flip(g.edges());
    assert forall|a: nat, b: nat| #[trigger] reach(r, b, a) <==> reach(g, a, b) by { flip_reach(g, r, a, b); flip_reach(r, g, b, a); }
    if cyclic(g) { let a = choose|a: nat| #[trigger] reach(g, a, a); assert(reach(r, a, a)); }
    if cyclic(r) { let a = choose|a: nat| #[trigger] reach(r, a, a); assert(reach(g, a, a)); }
}
pub proof fn occ_in(s: Seq<EdgeRef>, out: bool, b: nat) ensures occ(s, out, b) > 0 <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).far(out) == b decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        occ_in(p, out, b);
        if s.last().far(out) == b { assert(s[s.len() - 1].far(out) == b); }
        if exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).far(out) == b { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).far(out) == b; assert(s[i].far(out) == b); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).far(out) == b { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).far(out) == b; if i < p.len() { assert(p[i].far(out) == b); } }
    }
}
/// the far ends of the edges at a are its neighbours
pub proof fn edges_are<N, E>(g: &DiGraph<N, E>, a: nat, out: bool, s: Seq<EdgeRef>)
    requires is_edges(g, a, out, s)
    ensures forall|b: nat| g.edges().contains(#[trigger] edge_of(a, out, b)) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).far(out) == b
{
    assert forall|b: nat| g.edges().contains(#[trigger] edge_of(a, out, b)) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).far(out) == b by {
        occ_in(s, out, b); mult_in(g.edges(), edge_of(a, out, b));
        assert(occ(s, out, b) == mult(g.edges(), edge_of(a, out, b)));
    }
}

pub proof fn same_reach<N, E, M, F>(g: &DiGraph<N, E>, r: &DiGraph<M, F>)
    requires r.n() == g.n(), r.edges() == g.edges()
    ensures forall|a: nat, b: nat| #[trigger] reach(r, a, b) <==> reach(g, a, b), cyclic(r) <==> cyclic(g)
{
    assert forall|a: nat, b: nat| #[trigger] reach(r, a, b) <==> reach(g, a, b) by {
        if reach(g, a, b) { let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b; assert forall|i: int| 0 <= i < p.len() - 1 implies r.has(#[trigger] p[i], p[i + 1]) by { assert(g.has(p[i], p[i + 1])); } assert(is_walk(r, p)); }
        if reach(r, a, b) { let p = choose|p: Seq<nat>| #[trigger] is_walk(r, p) && p.len() >= 2 && p[0] == a && p.last() == b; assert forall|i: int| 0 <= i < p.len() - 1 implies g.has(#[trigger] p[i], p[i + 1]) by { assert(r.has(p[i], p[i + 1])); } assert(is_walk(g, p)); }
    }
    if cyclic(g) { let a = choose|a: nat| #[trigger] reach(g, a, a); assert(reach(r, a, a)); }
    if cyclic(r) { let a = choose|a: nat| #[trigger] reach(r, a, a); assert(reach(g, a, a)); }
}
