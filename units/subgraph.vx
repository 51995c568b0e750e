@unit subgraph
@include prelude.rs
@include iter.rs
@include collections.rs
@include petgraph.rs
@include subgraph.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@source src/execgraph.rs
@index deps vx_at
@index tc vx_at
@text
#[verifier::external_body] pub struct OsString { x: () }
pub type Str = Seq<char>;
impl Clone for Cmd { #[verifier::external_body] fn clone(&self) -> (r: Cmd) ensures r == *self { unimplemented!() } }
/// the log: its entries, and what they say about a task (has_success and has_failure are proved in unit logfile)
pub enum Le { Backref { key: Str }, Other }
#[verifier::external_body] pub struct LogEntry { x: () }
impl LogEntry {
    pub uninterp spec fn le(&self) -> Le;
    #[verifier::external_body] pub fn new_backref(key: &String) -> (r: LogEntry) ensures r.le() == (Le::Backref { key: key@ }) { unimplemented!() }
}
pub struct LogFileRW;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LogFile<T> { x: core::marker::PhantomData<T> }
pub uninterp spec fn log_success(l: Seq<Le>, k: Str) -> bool;
pub uninterp spec fn log_failure(l: Seq<Le>, k: Str) -> bool;
impl<T> LogFile<T> {
    pub uninterp spec fn log(&self) -> Seq<Le>;
    pub uninterp spec fn io_error(&self) -> bool;
    pub open spec fn succ(&self, k: Str) -> bool { log_success(self.log(), k) }
    pub open spec fn fail(&self, k: Str) -> bool { log_failure(self.log(), k) }
    #[verifier::external_body] pub fn has_success(&self, key: &String) -> (r: bool) ensures r == self.succ(key@) { unimplemented!() }
    #[verifier::external_body] pub fn has_failure(&self, key: &String) -> (r: bool) ensures r == self.fail(key@) { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, e: LogEntry) -> (r: Result<(), AnyhowError>)
        ensures r is Ok ==> final(self).log() == old(self).log().push(e.le()) && final(self).io_error() == old(self).io_error(),
            r is Err ==> final(self).io_error() { unimplemented!() }
}
// ---- graphtheory, proved in unit graphtheory ---------------------------------------------------------------
#[verifier::external_body] pub fn transitive_closure_dag<N: Clone, E>(graph: &DiGraph<N, E>) -> (r: Result<DiGraph<N, ()>, AnyhowError>)
    ensures r is Err <==> cyclic(graph),
        r is Ok ==> r->Ok_0.nodes() == graph.nodes() && forall|a: nat, b: nat| #[trigger] r->Ok_0.has(a, b) <==> reach(graph, a, b) { unimplemented!() }
pub uninterp spec fn tlevel(n: nat, es: Seq<Edge>, v: nat) -> u32;
#[verifier::external_body] pub fn tlevel_dag<N, E>(graph: &DiGraph<N, E>) -> (r: Result<Vec<u32>, AnyhowError>)
    ensures r is Err <==> cyclic(graph),
        r is Ok ==> r->Ok_0@.len() == graph.n() && forall|v: int| 0 <= v < graph.n() ==> #[trigger] r->Ok_0@[v] == tlevel(graph.n(), graph.edges(), v as nat) { unimplemented!() }
@item struct Cmd
@dropfields display affinity runcount storage_root fd_input preamble postamble
@text
// ---- which tasks an execution is about ---------------------------------------------------------------------
/// what the tasks to run are chosen from: the graph, what this session settled, the log, the target, the policy
pub struct Ctx<'c> { pub d: &'c DiGraph<Cmd, ()>, pub c: Set<Str>, pub l: Seq<Le>, pub t: Option<u32>, pub rerun: bool }
impl<'c> Ctx<'c> {
    pub open spec fn key(&self, i: nat) -> Str { self.d.nodes()[i as int].key@ }
    /// the target and everything it directly or indirectly depends on, or everything
    pub open spec fn scope(&self, i: nat) -> bool { i < self.d.n() && (self.t is None || i == self.t->0 || reach(self.d, i, self.t->0 as nat)) }
    pub open spec fn done(&self, i: nat) -> bool { self.c.contains(self.key(i)) }
    pub open spec fn succ(&self, i: nat) -> bool { log_success(self.l, self.key(i)) }
    pub open spec fn fail(&self, i: nat) -> bool { log_failure(self.l, self.key(i)) }
    /// not run by this session, and without a success to reuse
    pub open spec fn open_(&self, i: nat) -> bool { self.scope(i) && !self.done(i) && !self.succ(i) }
    /// run (or skipped as failed) by this session, without success
    pub open spec fn hot(&self, i: nat) -> bool { self.scope(i) && self.done(i) && !self.succ(i) }
    pub open spec fn blocked(&self, i: nat) -> bool { exists|f: nat| #[trigger] self.hot(f) && reach(self.d, f, i) }
    pub open spec fn opens(&self) -> spec_fn(nat) -> bool { |i: nat| self.open_(i) }
    /// downstream of a task that failed in an earlier session, over tasks that are themselves not settled
    pub open spec fn after_failure(&self, i: nat) -> bool { exists|f: nat| #[trigger] self.open_(f) && self.fail(f) && reach_in(self.d, self.opens(), f, i) }
    pub open spec fn wanted(&self, i: nat) -> bool {
        self.open_(i) && !self.blocked(i) && (self.rerun || (!self.fail(i) && !self.after_failure(i)))
    }
    /// settled by an earlier session: reused success or skipped failure
    pub open spec fn reused(&self, i: nat) -> bool { self.scope(i) && !self.done(i) && (self.succ(i) || (!self.rerun && self.fail(i))) }
    pub open spec fn reused_key(&self, k: Str) -> bool { exists|i: nat| #[trigger] self.reused(i) && self.key(i) == k }
    pub open spec fn hotkey(&self, k: Str) -> bool { self.c.contains(k) && !log_success(self.l, k) }
    // the two filters of the code
    pub open spec fn ret1(&self, i: nat) -> bool { self.open_(i) && !(self.blocked(i) && (self.rerun || !self.fail(i))) }
    pub open spec fn ret1s(&self) -> spec_fn(nat) -> bool { |i: nat| self.ret1(i) }
    pub open spec fn after1(&self, i: nat) -> bool { exists|f: nat| #[trigger] self.ret1(f) && self.fail(f) && reach_in(self.d, self.ret1s(), f, i) }
    pub open spec fn ret2(&self, i: nat) -> bool { self.ret1(i) && !self.fail(i) && !self.after1(i) }
}
pub proof fn ret_wanted(x: &Ctx, i: nat) ensures x.rerun ==> (x.ret1(i) <==> x.wanted(i)), !x.rerun ==> (x.ret2(i) <==> x.wanted(i))
{
    if !x.rerun && x.open_(i) && !x.blocked(i) && !x.fail(i) {
        assert forall|f: nat| x.open_(f) && x.fail(f) && reach_in(x.d, x.opens(), f, i) implies #[trigger] x.ret1(f) && reach_in(x.d, x.ret1s(), f, i) by {
            let p = choose|p: Seq<nat>| #[trigger] walk_in(x.d, x.opens(), p) && p.len() >= 2 && p[0] == f && p.last() == i;
            assert forall|k: int| 0 <= k < p.len() implies x.ret1s()(#[trigger] p[k]) by {
                assert(x.opens()(p[k]));
                if x.blocked(p[k]) && k < p.len() - 1 {
                    let h = choose|h: nat| #[trigger] x.hot(h) && reach(x.d, h, p[k]);
                    walk_part(x.d, p, k, p.len() - 1);
                    reach_join(x.d, h, p[k], i);
                    assert(x.hot(h) && reach(x.d, h, i));
                }
            }
            assert(walk_in(x.d, x.ret1s(), p));
        }
        assert forall|f: nat| #[trigger] x.ret1(f) && x.fail(f) && reach_in(x.d, x.ret1s(), f, i) implies x.open_(f) && reach_in(x.d, x.opens(), f, i) by {
            let p = choose|p: Seq<nat>| #[trigger] walk_in(x.d, x.ret1s(), p) && p.len() >= 2 && p[0] == f && p.last() == i;
            assert forall|k: int| 0 <= k < p.len() implies x.opens()(#[trigger] p[k]) by { assert(x.ret1s()(p[k])); }
            assert(walk_in(x.d, x.opens(), p));
        }
        if x.after_failure(i) { let f = choose|f: nat| #[trigger] x.open_(f) && x.fail(f) && reach_in(x.d, x.opens(), f, i); assert(x.ret1(f)); }
    }
}
/// the graph to run: exactly the wanted tasks, in order, with the dependencies among them
pub open spec fn right_graph(x: &Ctx, d: &DiGraph<Cmd, ()>, r: &DiGraph<&Cmd, ()>, emb: Seq<nat>) -> bool {
    &&& sub_of(x.d, r, emb)
    &&& forall|i: nat| i < x.d.n() ==> (#[trigger] emb.contains(i) <==> x.wanted(i))
    &&& forall|k: int| 0 <= k < emb.len() ==> *(#[trigger] r.nodes()[k]) == d.nodes()[emb[k] as int]
}
pub open spec fn right_run(x: &Ctx, d: DiGraph<Cmd, ()>, r: DiGraph<&Cmd, ()>) -> bool { exists|emb: Seq<nat>| #[trigger] right_graph(x, &d, &r, emb) }
/// one back-reference for each key of ks
pub open spec fn backrefs(ks: Seq<Str>) -> Seq<Le> { Seq::new(ks.len(), |i: int| Le::Backref { key: ks[i] }) }
pub open spec fn right_reuse(x: &Ctx, l: Seq<Le>, c: Set<Str>, ks: Seq<Str>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|k: Str| #[trigger] ks.contains(k) <==> x.reused_key(k)
    &&& l == x.l + backrefs(ks)
    &&& forall|k: Str| #[trigger] c.contains(k) <==> x.c.contains(k) || x.reused_key(k)
}

pub open spec fn picks<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, emb: Seq<nat>, p: spec_fn(nat) -> bool) -> bool {
    sub_of(d, r, emb) && forall|i: nat| i < d.n() ==> (#[trigger] emb.contains(i) <==> p(i))
}
pub open spec fn all_nodes(n: nat) -> Seq<nat> { Seq::new(n, |i: int| i as nat) }
pub proof fn picks_all<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>)
    requires r.n() == d.n(), r.edges() == d.edges() ensures picks(d, r, all_nodes(d.n()), |i: nat| true)
{ assert forall|i: nat| i < d.n() implies #[trigger] all_nodes(d.n()).contains(i) by { assert(all_nodes(d.n())[i as int] == i); } }
/// one filter_map: of the nodes e1, those with q
pub proof fn refine<M, O>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, s: &DiGraph<O, ()>, e1: Seq<nat>, p: spec_fn(nat) -> bool, keep: Seq<Option<O>>, q: spec_fn(nat) -> bool)
    requires picks(d, r, e1, p), keep.len() == r.n(), sub_of(r, s, kept_ix(keep)),
        forall|i: int| 0 <= i < keep.len() ==> ((#[trigger] keep[i]) is Some <==> q(e1[i])),
        forall|i: nat| #[trigger] q(i) ==> p(i),
    ensures picks(d, s, comp(e1, kept_ix(keep)), q)
{
    let k = kept_ix(keep);
    let c = comp(e1, k);
    kept_has(keep);
    sub_comp(d, r, s, e1, k);
    assert forall|i: nat| i < d.n() implies (#[trigger] c.contains(i) <==> q(i)) by {
        if c.contains(i) { let m = choose|m: int| 0 <= m < c.len() && c[m] == i; assert(k.contains(k[m])); assert(keep[k[m] as int] is Some); assert(e1[k[m] as int] == i); }
        if q(i) { assert(e1.contains(i)); let j = choose|j: int| 0 <= j < e1.len() && e1[j] == i; assert(keep[j] is Some); assert(k.contains(j as nat)); let m = choose|m: int| 0 <= m < k.len() && k[m] == j; assert(c[m] == i); }
    }
}
pub proof fn kept_sub<M, O>(r: &DiGraph<M, ()>, s: &DiGraph<O, ()>, keep: Seq<Option<O>>)
    requires keep.len() == r.n(), s.n() == kept_ix(keep).len(),
        forall|i: nat, j: nat| i < s.n() && j < s.n() ==> #[trigger] mult(s.edges(), (i, j)) == mult(r.edges(), (kept_ix(keep)[i as int], kept_ix(keep)[j as int])),
    ensures sub_of(r, s, kept_ix(keep))
{
    kept_has(keep);
    assert forall|i: int| 0 <= i < kept_ix(keep).len() implies #[trigger] kept_ix(keep)[i] < r.n() by { assert(kept_ix(keep).contains(kept_ix(keep)[i])); }
}
pub open spec fn same_keys(a: &DiGraph<Cmd, ()>, b: &DiGraph<Cmd, ()>) -> bool {
    &&& a.n() == b.n() && a.edges() == b.edges()
    &&& forall|i: int| 0 <= i < a.n() ==> (#[trigger] b.nodes()[i]).key == a.nodes()[i].key && b.nodes()[i].cmdline == a.nodes()[i].cmdline
}
pub open spec fn named<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<&Cmd, M>, emb: Seq<nat>) -> bool {
    r.n() == emb.len() && forall|k: int| 0 <= k < emb.len() ==> *(#[trigger] r.nodes()[k]) == d.nodes()[emb[k] as int]
}

/// keys of reused successes among the first m of emb
pub open spec fn reuse1(x: &Ctx, emb: Seq<nat>, m: int, k: Str) -> bool { exists|i: int| 0 <= i < m && !x.done(#[trigger] emb[i]) && x.succ(emb[i]) && x.key(emb[i]) == k }
pub open spec fn reuse2(x: &Ctx, emb: Seq<nat>, m: int, k: Str) -> bool { exists|i: int| 0 <= i < m && x.fail(#[trigger] emb[i]) && x.key(emb[i]) == k }
pub proof fn reuse1_step(x: &Ctx, emb: Seq<nat>, m: int) requires 0 <= m < emb.len()
    ensures forall|k: Str| #[trigger] reuse1(x, emb, m + 1, k) <==> reuse1(x, emb, m, k) || (!x.done(emb[m]) && x.succ(emb[m]) && x.key(emb[m]) == k)
{
    assert forall|k: Str| reuse1(x, emb, m, k) || (!x.done(emb[m]) && x.succ(emb[m]) && x.key(emb[m]) == k) implies #[trigger] reuse1(x, emb, m + 1, k) by {
        if reuse1(x, emb, m, k) { let i = choose|i: int| 0 <= i < m && !x.done(#[trigger] emb[i]) && x.succ(emb[i]) && x.key(emb[i]) == k; assert(0 <= i < m + 1 && !x.done(emb[i])); } else { assert(0 <= m < m + 1 && !x.done(emb[m])); }
    }
}
pub proof fn reuse2_step(x: &Ctx, emb: Seq<nat>, m: int) requires 0 <= m < emb.len()
    ensures forall|k: Str| #[trigger] reuse2(x, emb, m + 1, k) <==> reuse2(x, emb, m, k) || (x.fail(emb[m]) && x.key(emb[m]) == k)
{
    assert forall|k: Str| reuse2(x, emb, m, k) || (x.fail(emb[m]) && x.key(emb[m]) == k) implies #[trigger] reuse2(x, emb, m + 1, k) by {
        if reuse2(x, emb, m, k) { let i = choose|i: int| 0 <= i < m && x.fail(#[trigger] emb[i]) && x.key(emb[i]) == k; assert(0 <= i < m + 1 && x.fail(emb[i])); } else { assert(0 <= m < m + 1 && x.fail(emb[m])); }
    }
}
pub proof fn sub_acyclic_all<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, emb: Seq<nat>) requires sub_of(d, r, emb) ensures cyclic(r) ==> cyclic(d)
{ if !cyclic(d) { sub_acyclic(d, r, emb); } }
/// what the closure of the scope says about tasks downstream of one that already ran without success
pub open spec fn blocked_in(x: &Ctx, tc: &DiGraph<&Cmd, ()>, m: int, j: nat) -> bool { exists|k: int| 0 <= k < m && (#[trigger] tc.edges()[k]).1 == j && x.hotkey(tc.nodes()[tc.edges()[k].0 as int].key@) }
pub proof fn scope_closed(x: &Ctx, a: nat, b: nat) requires reach(x.d, a, b), x.scope(b) ensures x.scope(a)
{
    let p = choose|p: Seq<nat>| #[trigger] is_walk(x.d, p) && p.len() >= 2 && p[0] == a && p.last() == b;
    if x.t is Some { if b != x.t->0 { reach_join(x.d, a, b, x.t->0 as nat); } }
}
pub proof fn blocked_is(x: &Ctx, d: &DiGraph<Cmd, ()>, r: &DiGraph<&Cmd, ()>, emb: Seq<nat>, tc: &DiGraph<&Cmd, ()>, j: nat)
    requires same_keys(x.d, d), picks(x.d, r, emb, |i: nat| x.scope(i)), named(d, r, emb), j < emb.len(), tc.nodes() == r.nodes(),
        forall|a: nat, b: nat| #[trigger] tc.has(a, b) <==> reach(r, a, b),
    ensures blocked_in(x, tc, tc.edges().len() as int, j) <==> x.blocked(emb[j as int])
{
    let s = |i: nat| x.scope(i);
    let b = emb[j as int];
    assert(emb.contains(b)); assert(b < x.d.n());
    if blocked_in(x, tc, tc.edges().len() as int, j) {
        let k = choose|k: int| 0 <= k < tc.edges().len() && (#[trigger] tc.edges()[k]).1 == j && x.hotkey(tc.nodes()[tc.edges()[k].0 as int].key@);
        let a = tc.edges()[k].0;
        graph_wf(tc, k);
        assert(tc.edges()[k] == (a, j)); assert(tc.has(a, j));
        sub_reach(x.d, r, emb, s, a, j);
        reach_in_all(x.d, s, emb[a as int], b);
        assert(emb.contains(emb[a as int])); assert(emb[a as int] < x.d.n()); assert(s(emb[a as int]));
        assert(*r.nodes()[a as int] == d.nodes()[emb[a as int] as int]);
        assert(x.hot(emb[a as int]));
    }
    if x.blocked(b) {
        let f = choose|f: nat| #[trigger] x.hot(f) && reach(x.d, f, b);
        assert(emb.contains(f));
        let a = choose|a: int| 0 <= a < emb.len() && emb[a] == f;
        assert(s(b));
        assert forall|u: nat, v: nat| #[trigger] reach(x.d, u, v) && s(v) implies s(u) by { scope_closed(x, u, v); }
        reach_closed(x.d, s, f, b);
        sub_reach(x.d, r, emb, s, a as nat, j);
        assert(tc.has(a as nat, j));
        let k = choose|k: int| 0 <= k < tc.edges().len() && tc.edges()[k] == (a as nat, j);
        assert(*r.nodes()[a] == d.nodes()[f as int]);
        assert(tc.edges()[k].1 == j);
    }
}
pub open spec fn fail_before(x: &Ctx, emb: Seq<nat>, tc: &DiGraph<&Cmd, ()>, j: nat) -> bool { exists|f: nat| #[trigger] tc.has(f, j) && x.fail(emb[f as int]) }
/// the second filter: downstream of a failure within what the first one left
pub proof fn after_is(x: &Ctx, r: &DiGraph<&Cmd, ()>, emb: Seq<nat>, tc: &DiGraph<&Cmd, ()>, j: nat)
    requires picks(x.d, r, emb, x.ret1s()), j < emb.len(), forall|a: nat, b: nat| #[trigger] tc.has(a, b) <==> reach(r, a, b), tc.n() == r.n(),
    ensures fail_before(x, emb, tc, j) <==> x.after1(emb[j as int])
{
    let s = x.ret1s();
    if exists|f: nat| #[trigger] tc.has(f, j) && x.fail(emb[f as int]) {
        let f = choose|f: nat| #[trigger] tc.has(f, j) && x.fail(emb[f as int]);
        let k = choose|k: int| 0 <= k < tc.edges().len() && tc.edges()[k] == (f, j);
        graph_wf(tc, k);
        sub_reach(x.d, r, emb, s, f, j);
        assert(emb.contains(emb[f as int])); assert(emb[f as int] < x.d.n()); assert(s(emb[f as int]));
        assert(x.ret1(emb[f as int]));
    }
    if exists|f: nat| #[trigger] x.ret1(f) && x.fail(f) && reach_in(x.d, x.ret1s(), f, emb[j as int]) {
        let f = choose|f: nat| #[trigger] x.ret1(f) && x.fail(f) && reach_in(x.d, x.ret1s(), f, emb[j as int]);
        assert(s(f)); assert(emb.contains(f));
        let a = choose|a: int| 0 <= a < emb.len() && emb[a] == f;
        sub_reach(x.d, r, emb, s, a as nat, j);
        assert(tc.has(a as nat, j));
    }
}

pub proof fn blocked_step(x: &Ctx, tc: &DiGraph<&Cmd, ()>, m: int)
    requires 0 <= m < tc.edges().len()
    ensures forall|j: nat| #[trigger] blocked_in(x, tc, m + 1, j) <==> blocked_in(x, tc, m, j) || (tc.edges()[m].1 == j && x.hotkey(tc.nodes()[tc.edges()[m].0 as int].key@)),
        tc.edges()[m].0 < tc.n(), tc.edges()[m].1 < tc.n(),
{
    graph_wf(tc, m);
    assert forall|j: nat| blocked_in(x, tc, m, j) || (tc.edges()[m].1 == j && x.hotkey(tc.nodes()[tc.edges()[m].0 as int].key@)) implies #[trigger] blocked_in(x, tc, m + 1, j) by {
        if blocked_in(x, tc, m, j) { let k = choose|k: int| 0 <= k < m && (#[trigger] tc.edges()[k]).1 == j && x.hotkey(tc.nodes()[tc.edges()[k].0 as int].key@); assert(0 <= k < m + 1 && tc.edges()[k].1 == j); } else { assert(0 <= m < m + 1 && tc.edges()[m].1 == j); }
    }
}
/// the far ends of the first m edges
pub open spec fn fars(s: Seq<EdgeRef>, out: bool, m: int, b: nat) -> bool { exists|i: int| 0 <= i < m && (#[trigger] s[i]).far(out) == b }
pub proof fn fars_step(s: Seq<EdgeRef>, out: bool, m: int) requires 0 <= m < s.len()
    ensures forall|b: nat| #[trigger] fars(s, out, m + 1, b) <==> fars(s, out, m, b) || s[m].far(out) == b
{
    assert forall|b: nat| fars(s, out, m, b) || s[m].far(out) == b implies #[trigger] fars(s, out, m + 1, b) by {
        if fars(s, out, m, b) { let i = choose|i: int| 0 <= i < m && (#[trigger] s[i]).far(out) == b; assert(0 <= i < m + 1 && s[i].far(out) == b); } else { assert(0 <= m < m + 1 && s[m].far(out) == b); }
    }
}
pub proof fn fars_is<N, E>(g: &DiGraph<N, E>, a: nat, out: bool, s: Seq<EdgeRef>)
    requires is_edges(g, a, out, s)
    ensures forall|b: nat| #[trigger] fars(s, out, s.len() as int, b) <==> if out { g.has(a, b) } else { g.has(b, a) }
{
    edges_are(g, a, out, s);
    assert forall|b: nat| #[trigger] fars(s, out, s.len() as int, b) <==> if out { g.has(a, b) } else { g.has(b, a) } by { assert(g.edges().contains(edge_of(a, out, b)) <==> fars(s, out, s.len() as int, b)); }
}
pub proof fn picked<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, emb: Seq<nat>, p: spec_fn(nat) -> bool, k: int)
    requires picks(d, r, emb, p), 0 <= k < emb.len() ensures emb[k] < d.n(), p(emb[k])
{ assert(emb.contains(emb[k])); }
pub proof fn named_at<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<&Cmd, M>, emb: Seq<nat>, k: int)
    requires named(d, r, emb), 0 <= k < emb.len() ensures *r.nodes()[k] == d.nodes()[emb[k] as int] {}
pub proof fn picks_n<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, emb: Seq<nat>, p: spec_fn(nat) -> bool) requires picks(d, r, emb, p) ensures emb.len() == r.n(), sub_of(d, r, emb) {}
/// one filter_map of the code
pub proof fn filtered<M>(d0: &DiGraph<Cmd, ()>, d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, s: &DiGraph<&Cmd, ()>, e1: Seq<nat>, p: spec_fn(nat) -> bool, keep: Seq<Option<&Cmd>>, q: spec_fn(nat) -> bool)
    requires picks(d0, r, e1, p), keep.len() == r.n(), s.n() == kept_ix(keep).len(),
        forall|k: int| 0 <= k < s.n() ==> #[trigger] s.nodes()[k] == keep[kept_ix(keep)[k] as int]->0,
        forall|i: nat, j: nat| i < s.n() && j < s.n() ==> #[trigger] mult(s.edges(), (i, j)) == mult(r.edges(), (kept_ix(keep)[i as int], kept_ix(keep)[j as int])),
        forall|i: int| 0 <= i < keep.len() ==> ((#[trigger] keep[i]) is Some <==> q(e1[i])),
        forall|i: int| 0 <= i < keep.len() && (#[trigger] keep[i]) is Some ==> *(keep[i]->0) == d.nodes()[e1[i] as int],
        forall|i: nat| #[trigger] q(i) ==> p(i),
    ensures picks(d0, s, comp(e1, kept_ix(keep)), q), named(d, s, comp(e1, kept_ix(keep))), cyclic(s) ==> cyclic(d0)
{
    kept_has(keep);
    kept_sub(r, s, keep);
    refine(d0, r, s, e1, p, keep, q);
    let c = comp(e1, kept_ix(keep));
    assert forall|k: int| 0 <= k < c.len() implies *(#[trigger] s.nodes()[k]) == d.nodes()[c[k] as int] by { assert(kept_ix(keep).contains(kept_ix(keep)[k])); }
    sub_acyclic_all(d0, s, c);
}

pub proof fn has_in<N, E>(g: &DiGraph<N, E>, a: nat, b: nat) requires g.has(a, b) ensures a < g.n(), b < g.n()
{ let k = choose|k: int| 0 <= k < g.edges().len() && g.edges()[k] == (a, b); graph_wf(g, k); }

pub proof fn nothing_yet(x: &Ctx)
    ensures forall|s: Seq<EdgeRef>, out: bool, b: nat| !#[trigger] fars(s, out, 0, b), forall|emb: Seq<nat>, k: Str| !#[trigger] reuse1(x, emb, 0, k),
        forall|emb: Seq<nat>, k: Str| !#[trigger] reuse2(x, emb, 0, k), forall|tc: &DiGraph<&Cmd, ()>, j: nat| !#[trigger] blocked_in(x, tc, 0, j) {}
pub proof fn fars_in<N, E>(g: &DiGraph<N, E>, a: nat, out: bool, s: Seq<EdgeRef>, m: int) requires is_edges(g, a, out, s), 0 <= m < s.len()
    ensures if out { g.has(a, s[m].far(out)) } else { g.has(s[m].far(out), a) }, fars(s, out, s.len() as int, s[m].far(out))
{ fars_is(g, a, out, s); assert(fars(s, out, s.len() as int, s[m].far(out))); }
pub proof fn reused_is<M, O>(x: &Ctx, r0: &DiGraph<M, ()>, e0: Seq<nat>, sc: spec_fn(nat) -> bool, r1: &DiGraph<O, ()>, e1: Seq<nat>)
    requires picks(x.d, r0, e0, sc), picks(x.d, r1, e1, x.ret1s()), forall|i: nat| #[trigger] sc(i) <==> x.scope(i)
    ensures forall|k: Str| #[trigger] x.reused_key(k) <==> reuse1(x, e0, e0.len() as int, k) || (!x.rerun && reuse2(x, e1, e1.len() as int, k))
{
    assert forall|k: Str| #[trigger] x.reused_key(k) <==> reuse1(x, e0, e0.len() as int, k) || (!x.rerun && reuse2(x, e1, e1.len() as int, k)) by {
        if x.reused_key(k) {
            let i = choose|i: nat| #[trigger] x.reused(i) && x.key(i) == k;
            if x.succ(i) {
                assert(sc(i)); assert(e0.contains(i));
                let m = choose|m: int| 0 <= m < e0.len() && e0[m] == i;
                assert(!x.done(e0[m]) && x.succ(e0[m]));
            } else {
                assert(x.ret1s()(i)); assert(e1.contains(i));
                let m = choose|m: int| 0 <= m < e1.len() && e1[m] == i;
                assert(x.fail(e1[m]));
            }
        }
        if reuse1(x, e0, e0.len() as int, k) {
            let m = choose|m: int| 0 <= m < e0.len() && !x.done(#[trigger] e0[m]) && x.succ(e0[m]) && x.key(e0[m]) == k;
            picked(x.d, r0, e0, sc, m); assert(sc(e0[m])); assert(x.reused(e0[m]));
        }
        if !x.rerun && reuse2(x, e1, e1.len() as int, k) {
            let m = choose|m: int| 0 <= m < e1.len() && x.fail(#[trigger] e1[m]) && x.key(e1[m]) == k;
            picked(x.d, r1, e1, x.ret1s(), m); assert(x.ret1s()(e1[m])); assert(x.ret1(e1[m])); assert(x.reused(e1[m]));
        }
    }
}
pub open spec fn views(s: Seq<String>) -> Seq<Str> { Seq::new(s.len(), |i: int| s[i]@) }

pub proof fn picks_at<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<M, ()>, emb: Seq<nat>, p: spec_fn(nat) -> bool, i: nat) requires picks(d, r, emb, p), i < d.n() ensures emb.contains(i) <==> p(i) {}
pub proof fn named_all<M>(d: &DiGraph<Cmd, ()>, r: &DiGraph<&Cmd, M>, emb: Seq<nat>) requires named(d, r, emb) ensures forall|k: int| 0 <= k < emb.len() ==> *(#[trigger] r.nodes()[k]) == d.nodes()[emb[k] as int] {}
@fn get_subgraph
@prop C08
@ret r
@spec
    ensures
        r is Err ==> cyclic(old(deps)) || final(logfile).io_error(), // [C08]
        final(deps).edges() == old(deps).edges(), final(deps).n() == old(deps).n(), // [C08]
        forall|i: int| 0 <= i < old(deps).n() ==> (#[trigger] final(deps).nodes()[i]).key == old(deps).nodes()[i].key && final(deps).nodes()[i].cmdline == old(deps).nodes()[i].cmdline, // [C08]
        r is Ok ==> forall|i: int| 0 <= i < old(deps).n() ==> (#[trigger] final(deps).nodes()[i]).priority == tlevel(old(deps).n(), old(deps).edges(), i as nat), // [C08]
        r is Ok ==> right_run(&Ctx { d: old(deps), c: old(completed)@, l: old(logfile).log(), t: target, rerun: rerun_failures }, *final(deps), r->Ok_0), // [C08]
        r is Ok ==> exists|ks: Seq<Str>| #[trigger] right_reuse(&Ctx { d: old(deps), c: old(completed)@, l: old(logfile).log(), t: target, rerun: rerun_failures }, final(logfile).log(), final(completed)@, ks), // [C08]
@shape LLLLLLLL(L)L
@letty vx_keep0 Vec<Option<&'a Cmd>>
@letty vx_keep1 Vec<Option<&'a Cmd>>
@letty vx_keep2 Vec<Option<&'a Cmd>>
@letty vx_keep3 Vec<Option<&'a Cmd>>
@locals deps completed logfile target rerun_failures priority i p i_u32 subgraph target_index reversed tc relevant e r n w _e _w _n w _e _w blocked tc e source w target reused_old_keys filtered_subgraph n w _e w tc failures n w n w e _e _w key
@hint fn-start
    hide(picks); hide(sub_of); hide(named); hide(reach); hide(Ctx::reused_key); hide(Ctx::wanted); hide(reach_in); hide(is_edges); hide(reuse1); hide(reuse2); hide(blocked_in); hide(fars); hide(Ctx::blocked); hide(Ctx::after1); hide(Ctx::after_failure); hide(fail_before); hide(cyclic); hide(Ctx::scope); hide(kept_ix); hide(comp);
    let ghost d0 = *deps;
    let ghost x = Ctx { d: &d0, c: completed@, l: logfile.log(), t: target, rerun: rerun_failures };
    let ghost n0 = d0.n();
    let ghost mut emb0: Seq<nat> = Seq::empty();
    let ghost mut keepg: Seq<Option<&'a Cmd>> = Seq::empty();
    let ghost mut emb1: Seq<nat> = Seq::empty();
    let ghost mut embf: Seq<nat> = Seq::empty();
    let ghost p0 = |i: nat| true;
    let ghost sc = |i: nat| x.scope(i);
    let ghost r1 = x.ret1s();
    let ghost r2 = |i: nat| x.ret2(i);
    proof { graph_small(&d0); nothing_yet(&x); }
@loop 0
    invariant same_keys(&d0, deps), vx_sq0.len() == n0, priority@.len() == n0,
        forall|i: int| 0 <= i < n0 ==> (#[trigger] vx_sq0[i]).0 == i && *vx_sq0[i].1 == tlevel(n0, d0.edges(), i as nat),
        forall|i: int| 0 <= i < vx_it0.pos() ==> (#[trigger] deps.nodes()[i]).priority == tlevel(n0, d0.edges(), i as nat),
@hint loop-start 0
    let ghost dl = *deps;
    proof { assert(vx_sq0[vx_it0.pos() - 1].0 == vx_it0.pos() - 1); }
@hint loop-end 0
    proof { assert forall|k: int| 0 <= k < n0 implies (#[trigger] deps.nodes()[k]).key == d0.nodes()[k].key && deps.nodes()[k].cmdline == d0.nodes()[k].cmdline by { assert(dl.nodes()[k].key == d0.nodes()[k].key); } }
@hint after-loop 0
    proof { same_reach(&d0, deps); picks_all(&d0, deps); assert(cyclic(deps) <==> cyclic(&d0)); }
@hint after-call reverse 0
    proof { flip_reach2(&d0, &reversed); }
@loop 1
    invariant forall|b: nat| #[trigger] vx_acc0@.contains(b) <==> fars(vx_sq1, true, vx_it1.pos() as int, b),
@hint loop-start 1
    proof { fars_step(vx_sq1, true, vx_it1.pos() - 1); }
@hint after-loop 1
    proof { fars_is(&tc, target_index as nat, true, vx_sq1); }
    assert(forall|b: nat| #[trigger] vx_acc0@.contains(b) <==> reach(&d0, b, target_index as nat));
@loop 2
    invariant vx_keep0@.len() == vx_it2.pos(), vx_sq2.len() == n0,
        forall|i: int| 0 <= i < vx_keep0@.len() ==> ((#[trigger] vx_keep0@[i]) is Some <==> relevant@.contains(i as nat)),
        forall|i: int| 0 <= i < vx_keep0@.len() && (#[trigger] vx_keep0@[i]) is Some ==> *(vx_keep0@[i]->0) == deps.nodes()[i],
@hint before-call vx_filter_graph 0
    proof {
        keepg = vx_keep0@; emb0 = comp(all_nodes(n0), kept_ix(keepg));
        assert forall|i: nat| i < n0 implies (#[trigger] relevant@.contains(i) <==> x.scope(i)) by { reveal(Ctx::scope); }
    }
@loop 3
    invariant vx_keep1@.len() == vx_it3.pos(), vx_sq3.len() == n0,
        forall|i: int| 0 <= i < vx_keep1@.len() ==> (#[trigger] vx_keep1@[i]) is Some && *(vx_keep1@[i]->0) == deps.nodes()[i],
@hint before-call vx_filter_graph 1
    proof {
        keepg = vx_keep1@; emb0 = comp(all_nodes(n0), kept_ix(keepg));
        assert forall|i: nat| i < n0 implies #[trigger] x.scope(i) by { reveal(Ctx::scope); }
    }
@hint after-let subgraph
    proof {
        filtered(&d0, deps, deps, &subgraph, all_nodes(n0), |i: nat| true, keepg, sc);
        picks_n(&d0, &subgraph, emb0, sc);
    }
@loop 4
    invariant forall|b: nat| #[trigger] vx_acc1@.contains(b) <==> blocked_in(&x, &tc, vx_it4.pos() as int, b),
@hint loop-start 4
    proof { blocked_step(&x, &tc, vx_it4.pos() - 1); assert(vx_sq4[vx_it4.pos() - 1].ix == vx_it4.pos() - 1); }
@hint after-loop 4
    proof {
        assert forall|j: nat| j < emb0.len() implies (#[trigger] vx_acc1@.contains(j) <==> x.blocked(emb0[j as int])) by { blocked_is(&x, deps, &subgraph, emb0, &tc, j); }
    }
@loop 5
    invariant vx_keep2@.len() == vx_it5.pos(), vx_sq5.len() == subgraph.n(),
        forall|i: int| 0 <= i < vx_keep2@.len() ==> ((#[trigger] vx_keep2@[i]) is Some <==> x.ret1(emb0[i])),
        forall|i: int| 0 <= i < vx_keep2@.len() && (#[trigger] vx_keep2@[i]) is Some ==> *(vx_keep2@[i]->0) == deps.nodes()[emb0[i] as int],
        forall|k: Str| #[trigger] reused_old_keys@.contains(k) <==> reuse1(&x, emb0, vx_it5.pos() as int, k),
@hint loop-start 5
    let ghost cur = emb0[vx_it5.pos() - 1];
    proof {
        assert(vx_sq5[vx_it5.pos() - 1].ix == vx_it5.pos() - 1);
        picked(&d0, &subgraph, emb0, sc, vx_it5.pos() - 1);
        named_at(deps, &subgraph, emb0, vx_it5.pos() - 1);
        assert(sc(cur));
        reuse1_step(&x, emb0, vx_it5.pos() - 1);
        assert(blocked@.contains((vx_it5.pos() - 1) as nat) <==> x.blocked(cur));
    }
@hint before-call vx_filter_graph 2
    proof { keepg = vx_keep2@; emb1 = comp(emb0, kept_ix(keepg)); embf = emb1; }
@hint after-let filtered_subgraph
    proof {
        filtered(&d0, deps, &subgraph, &filtered_subgraph, emb0, sc, keepg, r1);
        picks_n(&d0, &filtered_subgraph, emb1, r1);
    }
    let ghost reused1 = reused_old_keys@;
    let ghost fs1 = filtered_subgraph;
    let ghost mut reusedf = reused_old_keys@;
@loop 6
    invariant vx_sq6.len() == tc.n(),
        forall|b: nat| #[trigger] vx_acc2@.contains(b) <==> b < vx_it6.pos() && x.fail(emb1[b as int]),
@hint loop-start 6
    proof { let m = vx_it6.pos() - 1; assert(vx_sq6[m].ix == m); named_at(deps, &filtered_subgraph, emb1, m); picked(&d0, &filtered_subgraph, emb1, r1, m); }
@loop 7
    invariant vx_keep3@.len() == vx_it7.pos(), vx_sq7.len() == filtered_subgraph.n(),
        forall|i: int| 0 <= i < vx_keep3@.len() ==> ((#[trigger] vx_keep3@[i]) is Some <==> x.ret2(emb1[i])),
        forall|i: int| 0 <= i < vx_keep3@.len() && (#[trigger] vx_keep3@[i]) is Some ==> *(vx_keep3@[i]->0) == deps.nodes()[emb1[i] as int],
        forall|k: Str| #[trigger] reused_old_keys@.contains(k) <==> reused1.contains(k) || reuse2(&x, emb1, vx_it7.pos() as int, k),
@hint loop-start 7
    let ghost cur2 = emb1[vx_it7.pos() - 1];
    let ghost m7 = (vx_it7.pos() - 1) as nat;
    let ghost k3 = vx_keep3@;
    proof {
        assert(vx_sq7[m7 as int].ix == m7);
        picked(&d0, &filtered_subgraph, emb1, r1, m7 as int);
        named_at(deps, &filtered_subgraph, emb1, m7 as int);
        assert(x.ret1(cur2));
        reuse2_step(&x, emb1, m7 as int);
        after_is(&x, &filtered_subgraph, emb1, &tc, m7);
    }
@loop 8
    invariant vx_keep3@ == k3,
        forall|f: nat| #[trigger] fars(vx_sq8, false, vx_it8.pos() as int, f) ==> !failures@.contains(f),
@hint loop-start 8
    proof {
        fars_step(vx_sq8, false, vx_it8.pos() - 1);
        fars_is(&tc, m7, false, vx_sq8);
        let f8 = vx_sq8[vx_it8.pos() - 1].far(false);
        fars_in(&tc, m7, false, vx_sq8, vx_it8.pos() - 1);
        if failures@.contains(f8) { assert(fail_before(&x, emb1, &tc, m7)) by { reveal(fail_before); } }
    }
@hint after-loop 8
    proof {
        fars_is(&tc, m7, false, vx_sq8);
        assert(!fail_before(&x, emb1, &tc, m7)) by { reveal(fail_before);
            assert forall|f: nat| #[trigger] tc.has(f, m7) implies !x.fail(emb1[f as int]) by { has_in(&tc, f, m7); assert(fars(vx_sq8, false, vx_sq8.len() as int, f)); } }
    }
@hint before-call vx_filter_graph 3
    proof { reusedf = reused_old_keys@; keepg = vx_keep3@; embf = comp(emb1, kept_ix(keepg)); }
@hint before-loop 9
    proof {
        assert forall|k: Str| #[trigger] views(vx_sq9).contains(k) <==> reusedf.contains(k) by {
            if views(vx_sq9).contains(k) { let i = choose|i: int| 0 <= i < vx_sq9.len() && views(vx_sq9)[i] == k; assert(vx_sq9[i]@ == k); }
            if reusedf.contains(k) { let i = choose|i: int| 0 <= i < vx_sq9.len() && (#[trigger] vx_sq9[i])@ == k; assert(views(vx_sq9)[i] == k); }
        }
        reused_is(&x, &subgraph, emb0, sc, &fs1, emb1);
        if x.rerun { assert forall|i: nat| i < n0 implies (#[trigger] embf.contains(i) <==> x.wanted(i)) by { ret_wanted(&x, i); picks_at(&d0, &filtered_subgraph, embf, r1, i); assert(r1(i) <==> x.ret1(i)); } picks_n(&d0, &filtered_subgraph, embf, r1); }
        else {
            filtered(&d0, deps, &fs1, &filtered_subgraph, emb1, r1, keepg, r2);
            assert forall|i: nat| i < n0 implies (#[trigger] embf.contains(i) <==> x.wanted(i)) by { ret_wanted(&x, i); picks_at(&d0, &filtered_subgraph, embf, r2, i); assert(r2(i) <==> x.ret2(i)); } picks_n(&d0, &filtered_subgraph, embf, r2);
        }
        named_all(deps, &filtered_subgraph, embf);
        assert(right_graph(&x, deps, &filtered_subgraph, embf));
    }
@loop 9
    invariant
        right_graph(&x, deps, &filtered_subgraph, embf),
        forall|k: Str| #[trigger] views(vx_sq9).contains(k) <==> x.reused_key(k),
        views(vx_sq9).no_duplicates(), logfile.io_error() == old(logfile).io_error(),
        logfile.log() =~= x.l + backrefs(views(vx_sq9).take(vx_it9.pos() as int)),
        forall|k: Str| #[trigger] completed@.contains(k) <==> x.c.contains(k) || views(vx_sq9).take(vx_it9.pos() as int).contains(k),
@hint loop-start 9
    proof {
        let v = views(vx_sq9);
        let m = vx_it9.pos() - 1;
        assert(v.take(m + 1) =~= v.take(m).push(v[m]));
        assert(backrefs(v.take(m + 1)) =~= backrefs(v.take(m)).push(Le::Backref { key: v[m] }));
        assert forall|k: Str| #[trigger] v.take(m + 1).contains(k) <==> v.take(m).contains(k) || k == v[m] by {
            if v.take(m).contains(k) { let q = choose|q: int| 0 <= q < m && v.take(m)[q] == k; assert(v.take(m + 1)[q] == k); }
            assert(v.take(m + 1)[m] == v[m]);
        }
    }
@hint fn-end
    proof { assert(right_graph(&Ctx { d: old(deps), c: old(completed)@, l: old(logfile).log(), t: target, rerun: rerun_failures }, deps, &filtered_subgraph, embf)); assert(right_run(&Ctx { d: old(deps), c: old(completed)@, l: old(logfile).log(), t: target, rerun: rerun_failures }, *deps, filtered_subgraph)); }
@hint after-loop 9
    proof { assert(views(vx_sq9).take(vx_it9.pos() as int) =~= views(vx_sq9)); assert(right_reuse(&x, logfile.log(), completed@, views(vx_sq9))); }
