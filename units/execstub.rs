// ---- stand-ins of unit exec -------------------------------------------------------------------
#[verifier::external_body] pub struct OsString { x: () }
pub type Str = Seq<char>;
pub struct LogFileRW;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct LogFile<T> { x: core::marker::PhantomData<T> }
impl<T> LogFile<T> {
    pub uninterp spec fn flushed(&self) -> bool;
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), IoErr>) ensures r is Ok ==> final(self).flushed() { unimplemented!() }
}
#[verifier::external_body] #[derive(Debug)] pub struct IoErr { x: () }
impl From<IoErr> for AnyhowError { #[verifier::external_body] fn from(e: IoErr) -> AnyhowError { unimplemented!() } }
/// what one execution was asked to choose its tasks by
pub struct Ask { pub ran: Set<Str>, pub target: Option<u32>, pub rerun: bool }
/// what happened, in order: the tasks were chosen, the scheduler loop ran and returned, everybody was told, the runners ended,
/// what was left over was drained
#[verifier::external_body] pub struct Eff { x: () }
impl Eff {
    /// how the tasks of this execution were chosen, and what they are (unit subgraph: get_subgraph)
    pub uninterp spec fn ask(&self) -> Option<Ask>;
    /// the tasks chosen
    pub uninterp spec fn keys(&self) -> Seq<Str>;
    /// the tasks this session must not run again, right after the choice
    pub uninterp spec fn settled(&self) -> Set<Str>;
    /// the scheduler was made for the chosen tasks with this limit
    pub uninterp spec fn limit(&self) -> Option<u32>;
    /// the scheduler loop returned
    pub uninterp spec fn served(&self) -> bool;
    pub uninterp spec fn told(&self) -> bool;
    pub uninterp spec fn joined(&self) -> bool;
    /// what the scheduler counted and listed once it was drained
    pub uninterp spec fn drained(&self) -> Option<(u32, Seq<NodeIndex>)>;
    pub open spec fn begin(&self) -> bool { self.ask() is None && self.limit() is None && !self.served() && !self.told() && !self.joined() && self.drained() is None }
    pub open spec fn rest(&self, o: &Eff) -> bool { self.ask() == o.ask() && self.keys() == o.keys() && self.settled() == o.settled() && self.limit() == o.limit() }
}
pub open spec fn keys_of(g: &DiGraph<&Cmd, ()>) -> Seq<Str> { Seq::new(g.n(), |i: int| g.nodes()[i].key@) }
#[verifier::external_body] pub fn get_subgraph<'a, 'b: 'a>(deps: &'b mut DiGraph<Cmd, ()>, completed: &mut HashSet<String>, logfile: &mut LogFile<LogFileRW>, target: Option<u32>, rerun_failures: bool, eff: &mut Eff) -> (r: Result<DiGraph<&'a Cmd, ()>, AnyhowError>)
    ensures final(eff).ask() == Some(Ask { ran: old(completed)@, target, rerun: rerun_failures }),
        r is Ok ==> final(eff).keys() == keys_of(&r->Ok_0) && final(eff).settled() == final(completed)@,
        final(eff).limit() == old(eff).limit(), final(eff).served() == old(eff).served(), final(eff).told() == old(eff).told(), final(eff).joined() == old(eff).joined(), final(eff).drained() == old(eff).drained() { unimplemented!() }
pub enum CancellationState { NotCancelled, CancelledAfterTime(Instant), HardCancelled }
#[verifier::external_body] pub struct CancellationToken { x: () }
impl Clone for CancellationToken { #[verifier::external_body] fn clone(&self) -> (r: CancellationToken) { unimplemented!() } }
impl CancellationToken {
    #[verifier::external_body] pub fn new() -> CancellationToken { unimplemented!() }
    #[verifier::external_body] pub fn cancel(&self, s: CancellationState, eff: &mut Eff) ensures final(eff).rest(old(eff)), s is HardCancelled ==> final(eff).told(), final(eff).served() == old(eff).served(), final(eff).joined() == old(eff).joined(), final(eff).drained() == old(eff).drained() { unimplemented!() }
}
/// the scheduler (unit sync); while it exists it holds the log
pub struct ReadyTrackerServer<'a> { pub n_failed: u32, pub finished_order: Vec<NodeIndex>, pub g: VxSched<'a> }
#[verifier::external_body] pub struct VxSched<'a> { x: core::marker::PhantomData<&'a ()> }
impl<'a> VxSched<'a> { pub uninterp spec fn keys(&self) -> Seq<Str>; }
#[verifier::external_body] pub struct ReadyTrackerClient { x: () }
#[verifier::external_body] pub fn new_ready_tracker<'a>(g: VxArc<DiGraph<&'a Cmd, ()>>, logfile: &'a mut LogFile<LogFileRW>, count_offset: u32, failures_allowed: u32, ratelimit_per_second: u32, eff: &mut Eff) -> (r: (ReadyTrackerServer<'a>, ReadyTrackerClient))
    requires old(eff).limit() is None, keys_of(g.of()) == old(eff).keys(),
    ensures r.0.g.keys() == keys_of(g.of()), final(eff).limit() == Some(failures_allowed), final(eff).ask() == old(eff).ask(), final(eff).keys() == old(eff).keys(), final(eff).settled() == old(eff).settled(),
        final(eff).served() == old(eff).served(), final(eff).told() == old(eff).told(), final(eff).joined() == old(eff).joined(), final(eff).drained() == old(eff).drained() { unimplemented!() }
impl<'a> ReadyTrackerServer<'a> {
    pub open spec fn in_range(&self) -> bool { forall|i: int| 0 <= i < self.finished_order@.len() ==> (#[trigger] self.finished_order@[i]).ix < self.g.keys().len() }
    /// unit sync
    #[verifier::external_body] pub fn background_serve(&mut self, token: CancellationToken, eff: &mut Eff) -> (r: Result<(), AnyhowError>)
        requires !old(eff).served(), !old(eff).told(),
        ensures final(self).g == old(self).g, r is Ok ==> final(eff).served(), final(eff).rest(old(eff)), final(eff).joined() == old(eff).joined(), final(eff).drained() == old(eff).drained() { unimplemented!() }
    /// unit sync: takes what the runners have sent in the meantime and gives every task that is still running a finished entry.
    /// No runner may be left: what it reported later would be lost.
    #[verifier::external_body] pub fn drain(&mut self, eff: &mut Eff) -> (r: Result<(), AnyhowError>)
        requires old(eff).served(), old(eff).joined(), old(eff).drained() is None,
        ensures final(self).g == old(self).g, final(eff).rest(old(eff)), final(self).in_range(), r is Ok ==> final(eff).drained() == Some((final(self).n_failed, final(self).finished_order@)) { unimplemented!() }
}
/// Arc
pub struct VxArc<T> { pub x: Ghost<T> }
impl<T> VxArc<T> { pub open spec fn of(&self) -> &T { &self.x@ } }
impl<T> Clone for VxArc<T> { #[verifier::external_body] fn clone(&self) -> (r: VxArc<T>) ensures r.of() == self.of() { unimplemented!() } }
#[verifier::external_body] pub fn vx_arc_new<T>(x: T) -> (r: VxArc<T>) ensures *r.of() == x { unimplemented!() }
impl<'a> VxArc<DiGraph<&'a Cmd, ()>> {
    #[verifier::external_body] pub fn node_count(&self) -> (r: usize) ensures r == self.of().n() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at<'b>(&'b self, a: NodeIndex) -> (r: &'b Cmd) requires a.ix < self.of().n() ensures *r == *self.of().nodes()[a.ix as int] { unimplemented!() }
    #[verifier::external_body] pub fn raw_nodes(&self) -> (r: VxNodes) ensures r.len() == self.of().n() { unimplemented!() }
}
#[verifier::external_body] pub struct VxNodes { x: () }
impl VxNodes {
    pub uninterp spec fn len(&self) -> nat;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.len() == 0) { unimplemented!() }
}
/// the runners, the server and the provisioner end when they are told, and only then
#[verifier::external_body] pub fn vx_join(eff: &mut Eff)
    requires old(eff).served(), old(eff).told(),
    ensures final(eff).joined(), final(eff).rest(old(eff)), final(eff).served() == old(eff).served(), final(eff).told() == old(eff).told(), final(eff).drained() == old(eff).drained() { unimplemented!() }
/// as many tasks as are in the graph
#[verifier::external_body] pub fn vx_count(n: usize) -> u32 { unimplemented!() }
pub open spec fn listed(v: Seq<String>, o: Seq<NodeIndex>, keys: Seq<Str>) -> bool { v.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] v[i])@ == keys[o[i].ix as int] }
pub open spec fn names(v: Seq<String>) -> Set<Str> { v.map_values(|s: String| s@).to_set() }
pub proof fn lemma_names(v: Seq<String>, k: int)
    requires 0 <= k < v.len()
    ensures names(v.take(k + 1)) =~= names(v.take(k)).insert(v[k]@)
{
    let a = v.take(k).map_values(|s: String| s@); let b = v.take(k + 1).map_values(|s: String| s@);
    assert(b =~= a.push(v[k]@));
    assert forall|x: Str| b.to_set().contains(x) <==> a.to_set().insert(v[k]@).contains(x) by {
        if b.to_set().contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < k { assert(a[i] == x); } }
        if a.to_set().contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        if x == v[k]@ { assert(b[k] == x); }
    }
}
