@unit execgraph
@include prelude.rs
@include iter.rs
@include collections.rs
@include petgraph.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@source src/execgraph.rs
@typemap Graph DiGraph
@pathmap Graph::new DiGraph::new
@text
#[verifier::external_body] pub struct OsString { x: () }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LogFile<T> { x: core::marker::PhantomData<T> }
pub struct LogFileRW;
/// a command as the graph knows it; the other fields of Cmd play no part in these functions
@item struct Cmd
@dropfields display affinity runcount storage_root fd_input preamble postamble
@item struct ExecGraph
@field deps DiGraph<Cmd, ()>
@field key_to_nodeid HashMap<String, NodeIndex>
@field logfile LogFile<LogFileRW>
@text
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body] pub fn node_weight(&self, a: NodeIndex) -> (r: Option<&N>)
        ensures r is Some <==> a.ix < self.n(), r is Some ==> *(r->0) == self.nodes()[a.ix as int] { unimplemented!() }
    /// removing a node moves the last one into its place and drops the edges at it; here for the last node
    #[verifier::external_body] pub fn remove_node(&mut self, a: NodeIndex) -> (r: Option<N>)
        requires a.ix + 1 == old(self).n()
        ensures final(self).nodes() == old(self).nodes().drop_last(),
            forall|e: Edge| #[trigger] mult(final(self).edges(), e) == (if e.0 == a.ix || e.1 == a.ix { 0 } else { mult(old(self).edges(), e) }) { unimplemented!() }
}
pub proof fn mult_push(es: Seq<Edge>, x: Edge, e: Edge) ensures mult(es.push(x), e) == mult(es, e) + if x == e { 1nat } else { 0 }
{ assert(es.push(x).drop_last() =~= es); }
pub proof fn mult_zero(es: Seq<Edge>, e: Edge) requires !es.contains(e) ensures mult(es, e) == 0 decreases es.len()
{ if es.len() > 0 { assert forall|i: int| 0 <= i < es.len() - 1 implies es.drop_last()[i] != e by { assert(es[i] != e); } assert(es[es.len() - 1] != e); mult_zero(es.drop_last(), e); } }
/// the edges dep -> new, in the order given
pub open spec fn dep_edges(deps: Seq<u32>, new: nat, k: int) -> Seq<Edge> { Seq::new(k as nat, |i: int| (deps[i] as nat, new)) }
pub open spec fn dep_ok(d: u32, new: nat) -> bool { d < new }
impl ExecGraph {
    /// [C10] every node is keyed, every key names its node, and every edge leads from an earlier task to a later one
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.deps.n() ==> self.key_to_nodeid@.contains_key((#[trigger] self.deps.nodes()[i]).key@) && self.key_to_nodeid@[self.deps.nodes()[i].key@].ix == i
        &&& forall|k: Seq<char>| #[trigger] self.key_to_nodeid@.contains_key(k) ==> self.key_to_nodeid@[k].ix < self.deps.n() && self.deps.nodes()[self.key_to_nodeid@[k].ix as int].key@ == k
        &&& forall|i: int| 0 <= i < self.deps.edges().len() ==> (#[trigger] self.deps.edges()[i]).0 < self.deps.edges()[i].1
    }
    /// same tasks, same keys, same edges with the same multiplicity
    pub open spec fn same_as(&self, o: &ExecGraph) -> bool {
        &&& self.deps.nodes() == o.deps.nodes()
        &&& self.key_to_nodeid@ == o.key_to_nodeid@
        &&& forall|e: Edge| #[trigger] mult(self.deps.edges(), e) == mult(o.deps.edges(), e)
        &&& self.completed@ == o.completed@
    }
}
pub proof fn mult_has(es: Seq<Edge>, i: int) requires 0 <= i < es.len() ensures mult(es, es[i]) > 0 decreases es.len()
{ if i < es.len() - 1 { assert(es.drop_last()[i] == es[i]); mult_has(es.drop_last(), i); } }
pub proof fn mult_in(es: Seq<Edge>, e: Edge) requires mult(es, e) > 0 ensures es.contains(e)
{ if !es.contains(e) { mult_zero(es, e); } }
/// a graph whose edges all lead upwards has no cycle
pub proof fn walk_up<N, E>(g: &DiGraph<N, E>, p: Seq<nat>, k: int)
    requires is_walk(g, p), 1 <= k < p.len(), forall|i: int| 0 <= i < g.edges().len() ==> (#[trigger] g.edges()[i]).0 < g.edges()[i].1
    ensures p[0] < p[k] decreases k
{
    if k > 1 { walk_up(g, p, k - 1); }
    assert(g.has(p[k - 1], p[k - 1 + 1]));
    let e = (p[k - 1], p[k]);
    let i = choose|i: int| 0 <= i < g.edges().len() && g.edges()[i] == e;
}
pub proof fn c10_acyclic<N, E>(g: &DiGraph<N, E>)
    requires forall|i: int| 0 <= i < g.edges().len() ==> (#[trigger] g.edges()[i]).0 < g.edges()[i].1
    ensures !cyclic(g)
{
    if cyclic(g) {
        let a = choose|a: nat| #[trigger] reach(g, a, a);
        let p = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p[0] == a && p.last() == a;
        walk_up(g, p, p.len() - 1);
    }
}
pub proof fn c10_wf_acyclic(x: &ExecGraph) requires x.wf() ensures !cyclic(&x.deps) { c10_acyclic(&x.deps); }
pub proof fn mult_deps(es: Seq<Edge>, deps: Seq<u32>, new: nat, k: int, e: Edge)
    requires 0 <= k <= deps.len() ensures e.1 != new ==> mult(es + dep_edges(deps, new, k), e) == mult(es, e) decreases k
{
    let t = es + dep_edges(deps, new, k);
    if k > 0 { assert(t.drop_last() =~= es + dep_edges(deps, new, k - 1)); mult_deps(es, deps, new, k - 1, e); assert(t.last() == (deps[k - 1] as nat, new)); }
    else { assert(t =~= es); }
}
/// removing the node again undoes it and the edges added for it
pub proof fn undone(before: &DiGraph<Cmd, ()>, after: &DiGraph<Cmd, ()>, es: Seq<Edge>, deps: Seq<u32>, k: int)
    requires 0 <= k <= deps.len(), es == before.edges() + dep_edges(deps, before.n(), k),
        forall|e: Edge| #[trigger] mult(after.edges(), e) == (if e.0 == before.n() || e.1 == before.n() { 0 } else { mult(es, e) }),
        forall|i: int| 0 <= i < before.edges().len() ==> (#[trigger] before.edges()[i]).0 < before.edges()[i].1
    ensures forall|e: Edge| #[trigger] mult(after.edges(), e) == mult(before.edges(), e),
        forall|i: int| 0 <= i < after.edges().len() ==> (#[trigger] after.edges()[i]).0 < after.edges()[i].1
{
    assert forall|e: Edge| #[trigger] mult(after.edges(), e) == mult(before.edges(), e) by {
        mult_deps(before.edges(), deps, before.n(), k, e);
        if e.0 == before.n() || e.1 == before.n() {
            assert forall|i: int| 0 <= i < before.edges().len() implies before.edges()[i] != e by { graph_wf(before, i); }
            mult_zero(before.edges(), e);
        }
    }
    assert forall|i: int| 0 <= i < after.edges().len() implies (#[trigger] after.edges()[i]).0 < after.edges()[i].1 by {
        mult_has(after.edges(), i);
        mult_in(before.edges(), after.edges()[i]);
        let j = choose|j: int| 0 <= j < before.edges().len() && before.edges()[j] == after.edges()[i];
        assert(before.edges()[j].0 < before.edges()[j].1);
    }
}
@fn ExecGraph::new
@locals logfile
@prop C10
@ret r
@spec
    ensures r.wf(), r.deps.n() == 0, r.completed@ == Set::<Seq<char>>::empty(), // [C10]
@fn ExecGraph::add_task
@locals cmd dependencies index key new_node dep i
@prop C10
@ret r
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C10]
        // a task whose key exists: its index, and nothing changes
        old(self).key_to_nodeid@.contains_key(cmd.key@) ==> r == Ok::<u32, AnyhowError>(old(self).key_to_nodeid@[cmd.key@].ix as u32) && *final(self) == *old(self), // [C10]
        // rejected: as if the call had not happened
        r is Err ==> final(self).same_as(old(self)), // [C10]
        !old(self).key_to_nodeid@.contains_key(cmd.key@) ==> (r is Ok <==> cmd.cmdline@.len() > 0 && forall|i: int| 0 <= i < dependencies@.len() ==> dep_ok(#[trigger] dependencies@[i], old(self).deps.n())), // [C10]
        // added: one node, whose incoming edges are the given dependencies
        !old(self).key_to_nodeid@.contains_key(cmd.key@) && r is Ok ==> {
            &&& r->Ok_0 == old(self).deps.n()
            &&& final(self).deps.nodes() == old(self).deps.nodes().push(cmd)
            &&& final(self).deps.edges() == old(self).deps.edges() + dep_edges(dependencies@, old(self).deps.n(), dependencies@.len() as int)
            &&& final(self).key_to_nodeid@.dom() =~= old(self).key_to_nodeid@.dom().insert(cmd.key@)
            &&& final(self).completed@ == old(self).completed@
        }, // [C10]
@shape L
@loop 0
    invariant
        !old(self).key_to_nodeid@.contains_key(cmd.key@), cmd.cmdline@.len() > 0, key@ == cmd.key@,
        new_node.ix == old(self).deps.n(),
        self.deps.nodes() == old(self).deps.nodes().push(cmd),
        self.deps.edges() == old(self).deps.edges() + dep_edges(dependencies@, old(self).deps.n(), vx_it0.pos() as int),
        self.key_to_nodeid@ == old(self).key_to_nodeid@, self.completed@ == old(self).completed@,
        forall|i: int| 0 <= i < vx_it0.pos() ==> dep_ok(#[trigger] dependencies@[i], old(self).deps.n()),
@hint loop-start 0
    proof { graph_small(&old(self).deps); }
@hint after-call add_edge 0
    proof { assert(self.deps.edges() =~= old(self).deps.edges() + dep_edges(dependencies@, old(self).deps.n(), vx_it0.pos() as int)); }
@hint fn-start
    proof { graph_small(&self.deps); }
@hint after-call remove_node 0
    proof {
        undone(&old(self).deps, &self.deps, old(self).deps.edges() + dep_edges(dependencies@, old(self).deps.n(), vx_it0.pos() - 1), dependencies@, vx_it0.pos() - 1);
        assert(self.deps.nodes() =~= old(self).deps.nodes());
        assert(!dep_ok(dependencies@[vx_it0.pos() - 1], old(self).deps.n()));
    }
