// petgraph: a directed multigraph is a sequence of node weights and a sequence of (source, target) pairs.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex { pub ix: usize }
impl View for NodeIndex { type V = nat; open spec fn view(&self) -> nat { self.ix as nat } }
impl NodeIndex {
    #[verifier::external_body] pub fn index(&self) -> (r: usize) ensures r == self.ix { unimplemented!() }
    #[verifier::external_body] pub fn new(n: usize) -> (r: NodeIndex) ensures r.ix == n { unimplemented!() }
    #[verifier::external_body] pub fn from(n: u32) -> (r: NodeIndex) ensures r.ix == n { unimplemented!() }
}
pub enum Direction { Outgoing, Incoming }
pub use Direction::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub struct DiGraph<N, E> { p: std::marker::PhantomData<(N, E)> }
pub type Edge = (nat, nat);
impl<N, E> DiGraph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    pub uninterp spec fn edges(&self) -> Seq<Edge>;
    pub open spec fn has(&self, a: nat, b: nat) -> bool { self.edges().contains((a, b)) }
    pub open spec fn n(&self) -> nat { self.nodes().len() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.nodes() == Seq::<N>::empty(), r.edges() == Seq::<Edge>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn node_count(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn edge_count(&self) -> (r: usize) ensures r == self.edges().len() { unimplemented!() }
    #[verifier::external_body] pub fn add_node(&mut self, w: N) -> (r: NodeIndex)
        ensures final(self).nodes() == old(self).nodes().push(w), final(self).edges() == old(self).edges(), r.ix == old(self).n() { unimplemented!() }
    #[verifier::external_body] pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E)
        requires a.ix < old(self).n(), b.ix < old(self).n()
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push((a.ix as nat, b.ix as nat)) { unimplemented!() }
    #[verifier::external_body] pub fn neighbors_directed(&self, a: NodeIndex, d: Direction) -> (r: VIter<NodeIndex>)
        ensures r.pos() == 0, is_neighbors(self, a.ix as nat, d == Direction::Outgoing, r.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn neighbors(&self, a: NodeIndex) -> (r: VIter<NodeIndex>)
        ensures r.pos() == 0, is_neighbors(self, a.ix as nat, true, r.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn node_indices(&self) -> (r: VIter<NodeIndex>)
        ensures r.pos() == 0, r.seq().len() == self.n(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).ix == i { unimplemented!() }
}
/// all edges join existing nodes (an invariant of petgraph graphs)
pub broadcast axiom fn graph_wf<N, E>(g: &DiGraph<N, E>, i: int) ensures 0 <= i < g.edges().len() ==> (#[trigger] g.edges()[i]).0 < g.n() && g.edges()[i].1 < g.n();
pub broadcast axiom fn graph_small<N, E>(g: &DiGraph<N, E>) ensures (#[trigger] g.nodes()).len() < 0xffff_ffff;
pub open spec fn edge_of(a: nat, out: bool, b: nat) -> Edge { if out { (a, b) } else { (b, a) } }
/// the neighbours of a, one per edge
pub open spec fn is_neighbors<N, E>(g: &DiGraph<N, E>, a: nat, out: bool, s: Seq<NodeIndex>) -> bool {
    &&& forall|b: nat| (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ix == b) <==> #[trigger] g.edges().contains(edge_of(a, out, b))
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ix < g.n()
    &&& s.len() == degree(g.edges(), a, out)
}
// ---- edges with their multiplicity ---------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct EdgeRef { pub a: NodeIndex, pub b: NodeIndex }
impl EdgeRef {
    pub fn source(&self) -> (r: NodeIndex) ensures r == self.a { self.a }
    pub fn target(&self) -> (r: NodeIndex) ensures r == self.b { self.b }
    pub open spec fn far(&self, out: bool) -> nat { if out { self.b.ix as nat } else { self.a.ix as nat } }
    pub open spec fn near(&self, out: bool) -> nat { if out { self.a.ix as nat } else { self.b.ix as nat } }
}
/// how often the edge e occurs
pub open spec fn mult(es: Seq<Edge>, e: Edge) -> nat decreases es.len() {
    if es.len() == 0 { 0 } else { mult(es.drop_last(), e) + if es.last() == e { 1nat } else { 0 } }
}
/// how many of the edges s lead to b
pub open spec fn occ(s: Seq<EdgeRef>, out: bool, b: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { occ(s.drop_last(), out, b) + if s.last().far(out) == b { 1nat } else { 0 } }
}
pub open spec fn is_edges<N, E>(g: &DiGraph<N, E>, a: nat, out: bool, s: Seq<EdgeRef>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).near(out) == a && s[i].far(out) < g.n()
    &&& forall|b: nat| #[trigger] occ(s, out, b) == mult(g.edges(), edge_of(a, out, b))
    &&& s.len() == degree(g.edges(), a, out)
}
pub open spec fn degree(es: Seq<Edge>, a: nat, out: bool) -> nat decreases es.len() {
    if es.len() == 0 { 0 } else { degree(es.drop_last(), a, out) + if (if out { es.last().0 } else { es.last().1 }) == a { 1nat } else { 0 } }
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body] pub fn edges_directed(&self, a: NodeIndex, d: Direction) -> (r: VIter<EdgeRef>)
        ensures r.pos() == 0, is_edges(self, a.ix as nat, d == Direction::Outgoing, r.seq()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_at<'b>(&self, a: NodeIndex) -> (r: &'b N)
        requires a.ix < self.n() ensures *r == self.nodes()[a.ix as int] { unimplemented!() }
}
/// petgraph::algo::toposort
#[verifier::external_body] pub struct Cycle { x: () }
pub open spec fn topo_has(o: Seq<NodeIndex>, v: nat) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).ix == v }
pub open spec fn is_topo<N, E>(g: &DiGraph<N, E>, o: Seq<NodeIndex>) -> bool {
    &&& o.len() == g.n()
    &&& forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).ix < g.n()
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).ix != (#[trigger] o[j]).ix
    &&& forall|v: nat| v < g.n() ==> #[trigger] topo_has(o, v)
    &&& forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && g.has((#[trigger] o[i]).ix as nat, (#[trigger] o[j]).ix as nat) ==> i < j
}
pub open spec fn is_walk<N, E>(g: &DiGraph<N, E>, p: Seq<nat>) -> bool {
    p.len() >= 1 && p[0] < g.n() && forall|i: int| 0 <= i < p.len() - 1 ==> g.has(#[trigger] p[i], p[i + 1])
}
/// a non-empty path from a to b
pub open spec fn reach<N, E>(g: &DiGraph<N, E>, a: nat, b: nat) -> bool {
    exists|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == b
}
pub open spec fn cyclic<N, E>(g: &DiGraph<N, E>) -> bool { exists|a: nat| #[trigger] reach(g, a, a) }
#[verifier::external_body]
pub fn toposort<N, E>(g: &DiGraph<N, E>, ws: Option<()>) -> (r: Result<Vec<NodeIndex>, Cycle>)
    ensures r is Ok ==> is_topo(g, r->Ok_0@), r is Err <==> cyclic(g) { unimplemented!() }
