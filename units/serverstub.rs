// ---- stand-ins of unit server -------------------------------------------------------------------
/// command lines and task input are passed on unread
#[verifier::external_body] pub struct OsVec { x: () }
impl Clone for OsVec { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct FdIn { x: () }
impl Clone for FdIn { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type ValueMaps = Vec<HashMap<String, String>>;
impl Clone for Cmd { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Cmd { #[verifier::external_body] pub fn call_preamble(&self) { unimplemented!() } }
// ---- HTTP -----------------------------------------------------------------------------------------
/// a bearer token
#[verifier::external_body] pub struct Tok { x: () }
impl View for Tok { type V = Str; uninterp spec fn view(&self) -> Str; }
impl PartialEqSpecImpl for Tok { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, b: &Tok) -> bool { self@ == b@ } }
impl PartialEq for Tok { #[verifier::external_body] fn eq(&self, b: &Tok) -> bool { unimplemented!() } }
pub struct Bearer;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Authorization<T> { p: std::marker::PhantomData<T> }
impl Authorization<Bearer> {
    pub uninterp spec fn tok(&self) -> Str;
    #[verifier::external_body] pub fn token(&self) -> (r: Tok) ensures r@ == self.tok() { unimplemented!() }
}
/// headers: the job id header is absent, unreadable, or a text
pub enum Hdr { Absent, Bad, Text(Str) }
#[verifier::external_body] pub struct HeaderMap { x: () }
#[verifier::external_body] pub struct HeaderValue { x: () }
#[verifier::external_body] pub struct ToStrError { x: () }
impl HeaderMap {
    pub uninterp spec fn h(&self, name: Str) -> Hdr;
    pub open spec fn job(&self) -> Hdr { self.h("X-EXECGRAPH-SLURM-JOB-ID"@) }
    #[verifier::external_body] pub fn get(&self, name: &str) -> (r: Option<&HeaderValue>) ensures r is None <==> self.h(name@) is Absent, r is Some ==> r->0.v() == self.h(name@) { unimplemented!() }
}
impl HeaderValue {
    pub uninterp spec fn v(&self) -> Hdr;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Result<&str, ToStrError>) ensures r is Ok <==> self.v() is Text, r is Ok ==> r->Ok_0@ == self.v()->Text_0 { unimplemented!() }
}
pub struct Postcard<T>(pub T);
pub struct Json<T>(pub T);
#[verifier::external_body] pub struct Response { x: () }
#[derive(Clone, Copy)] pub enum StatusCode { OK }
pub trait IntoResponse { fn into_response(self) -> Response; }
impl IntoResponse for (StatusCode, &str) { #[verifier::external_body] fn into_response(self) -> Response { unimplemented!() } }
// ---- time -----------------------------------------------------------------------------------------
#[verifier::external_body] pub struct Interval { x: () }
#[verifier::external_body] pub fn interval_at(t: Instant, d: Duration) -> Interval { unimplemented!() }
#[verifier::external_body] pub fn sleep(d: Duration) { unimplemented!() }
impl Interval { #[verifier::external_body] pub fn tick(&mut self) { unimplemented!() } #[verifier::external_body] pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { unimplemented!() } }
pub enum MissedTickBehavior { Delay, Burst, Skip }
pub struct Rx<T> { pub p: std::marker::PhantomData<T> }
/// the time wheel (unit timewheel): the timers that are set, and what they are about
#[derive(Clone, Copy)] #[verifier::external_body] pub struct TimerID { x: () }
impl View for TimerID { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body] pub struct DefaultKey { x: () }
#[verifier::external_body] pub struct TimeWheel { x: () }
impl TimeWheel {
    pub uninterp spec fn live(&self) -> Map<int, u32>;
    pub uninterp spec fn span(&self) -> int;
    #[verifier::external_body] pub fn new(d: Duration) -> (r: Self) requires d@ >= 256 ensures r.live() == Map::<int, u32>::empty(), r.span() == d@ { unimplemented!() }
    #[verifier::external_body] pub fn tick_duration(&self) -> Duration { unimplemented!() }
    /// a timer outlasts the interval between two heartbeats
    #[verifier::external_body] pub fn insert(&mut self, d: Duration, e: u32) -> (r: TimerID)
        requires d@ <= old(self).span(), d@ > PING_INTERVAL_MSECS * 1_000_000, // [C15]
        ensures final(self).span() == old(self).span(), !old(self).live().contains_key(r@), final(self).live() == old(self).live().insert(r@, e) { unimplemented!() }
    #[verifier::external_body] pub fn cancel(&mut self, k: TimerID) ensures final(self).span() == old(self).span(), final(self).live() == old(self).live().remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn tick(&mut self) -> (r: Option<Vec<(DefaultKey, u32)>>)
        ensures final(self).span() == old(self).span(), final(self).live().submap_of(old(self).live()),
            forall|i: int| old(self).live().contains_key(i) && !#[trigger] final(self).live().contains_key(i) ==> r is Some && exists|j: int| 0 <= j < r->0@.len() && (#[trigger] r->0@[j]).1 == old(self).live()[i],
            r is Some ==> forall|j: int| 0 <= j < r->0@.len() ==> fired(old(self).live(), final(self).live(), (#[trigger] r->0@[j]).1) { unimplemented!() }
}
/// a timer about transaction t went off between the wheels w0 and w1
pub open spec fn fired(w0: Map<int, u32>, w1: Map<int, u32>, t: u32) -> bool { exists|i: int| w0.contains_key(i) && !w1.contains_key(i) && #[trigger] w0[i] == t }
// ---- the table of open transactions ------------------------------------------------------------------
pub type Conns = Map<u32, ConnectionState>;
#[verifier::external_body] pub struct DashMap { x: () }
impl View for DashMap { type V = Conns; uninterp spec fn view(&self) -> Conns; }
pub struct VxRef<'a> { pub k: u32, pub v: &'a ConnectionState, pub slurm_jobid: &'a String, pub node_id: NodeIndex, pub start_time_approx: Instant }
impl<'a> VxRef<'a> {
    pub fn key(&self) -> (r: &u32) ensures *r == self.k { &self.k }
    pub fn value(&self) -> (r: &ConnectionState) ensures *r == *self.v { self.v }
}
pub struct VacantEntry<'a> { pub m: &'a mut DashMap, pub k: u32 }
pub enum Entry<'a> { Vacant(VacantEntry<'a>), Occupied(u32) }
impl<'a> VacantEntry<'a> {
    pub fn key(&self) -> (r: &u32) ensures *r == self.k { &self.k }
    #[verifier::external_body] pub fn insert(self, v: ConnectionState) ensures final(self.m)@ == old(self.m)@.insert(self.k, v) { unimplemented!() }
}
impl DashMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Conns::empty() { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: u32) -> (r: Entry<'a>)
        ensures old(self)@.contains_key(k) ==> r is Occupied && final(self)@ == old(self)@,
            !old(self)@.contains_key(k) ==> r is Vacant && r->Vacant_0.k == k && (*(r->Vacant_0.m))@ == old(self)@ && final(self)@ == (*final(r->Vacant_0.m))@ { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &u32) -> (r: Option<&'a mut ConnectionState>)
        ensures r is Some <==> old(self)@.contains_key(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &u32) -> (r: Option<&ConnectionState>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &u32) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u32, v: ConnectionState) -> (r: Option<ConnectionState>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &u32) -> (r: Option<(u32, ConnectionState)>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> (r->0).0 == *k && (r->0).1 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: VIter<VxRef<'_>>) ensures r.pos() == 0, lists_conns(r.seq(), self@) { unimplemented!() }
}
pub open spec fn lists_conns(s: Seq<VxRef>, m: Conns) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).k) && m[s[i].k] == *s[i].v && s[i].slurm_jobid == s[i].v.slurm_jobid && s[i].node_id == s[i].v.node_id && s[i].start_time_approx == s[i].v.start_time_approx
    &&& forall|k: u32| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).k != (#[trigger] s[j]).k
}
impl ConnectionState {
    pub fn value(&self) -> (r: &ConnectionState) ensures *r == *self { self }
    #[verifier::external_body] pub fn value_mut(&mut self) -> (r: &mut ConnectionState) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}
#[verifier::external_body] pub fn random<T>() -> T { unimplemented!() }
#[verifier::external_body] pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { unimplemented!() }
/// RwLock<HashSet<String>>
#[verifier::external_body] pub struct RwLock { x: () }
impl View for RwLock { type V = Set<Str>; uninterp spec fn view(&self) -> Set<Str>; }
#[derive(Debug)] #[verifier::external_body] pub struct PoisonError { x: () }
impl RwLock {
    #[verifier::external_body] pub fn new(s: HashSet<String>) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self) -> (r: Result<&mut HashSet<String>, PoisonError>) ensures r is Ok, r->Ok_0@ == old(self)@, final(self)@ == final(r->Ok_0)@ { unimplemented!() }
    #[verifier::external_body] pub fn read(&self) -> (r: Result<&HashSet<String>, PoisonError>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn drop<T>(x: T) ensures has_resolved::<T>(x) { unimplemented!() }
// ---- cancellation, flags -----------------------------------------------------------------------------
pub enum CancellationState { CancelledAfterTime(Instant), HardCancelled }
#[verifier::external_body] pub struct CancellationToken { x: () }
impl CancellationToken {
    #[verifier::external_body] pub fn hard_cancelled(&self) { unimplemented!() }
    pub uninterp spec fn soft(&self) -> Option<CancellationState>;
    #[verifier::external_body] pub fn is_soft_cancelled(&self) -> (r: Option<CancellationState>) ensures r == self.soft() { unimplemented!() }
}
#[verifier::external_body] pub struct AsyncFlag { x: () }
impl Clone for AsyncFlag { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl AsyncFlag {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn wait(&self) { unimplemented!() }
}
// ---- the tracker (unit sync): what this request asked of it --------------------------------------------
pub enum Ev { Take { v: nat }, Started { v: nat, host: Str, pid: u32, job: Str }, Done { v: nat, status: ExitStatus, stdout: Str, stderr: Str, values: ValueMaps } }
pub enum ReadyTrackerClientError { ChannelRecvError(RecvError), ChannelTryRecvError(RecvError), NoSuchRunnerType, SoftShutdown }
#[verifier::external_body] pub struct RecvError { x: () }
#[verifier::external_body] pub struct Tracker { x: () }
impl Tracker {
    pub uninterp spec fn hist(&self) -> Seq<Ev>;
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body] pub fn recv(&mut self, q: u32) -> (r: Result<NodeIndex, ReadyTrackerClientError>)
        ensures final(self).n() == old(self).n(), r is Ok ==> r->Ok_0.ix < old(self).n() && final(self).hist() == old(self).hist().push(Ev::Take { v: r->Ok_0.ix as nat }), r is Err ==> final(self).hist() == old(self).hist() && !(r->Err_0 is ChannelTryRecvError) { unimplemented!() }
    #[verifier::external_body] pub fn send_started(&mut self, v: NodeIndex, cmd: &Cmd, host: &str, pid: u32, job: String)
        ensures final(self).n() == old(self).n(), final(self).hist() == old(self).hist().push(Ev::Started { v: v.ix as nat, host: host@, pid, job: job@ }) { unimplemented!() }
    #[verifier::external_body] pub fn send_finished(&mut self, e: FinishedEvent)
        ensures final(self).n() == old(self).n(), final(self).hist() == old(self).hist().push(done_of(e)) { unimplemented!() }
}
pub open spec fn done_of(e: FinishedEvent) -> Ev { Ev::Done { v: e.id.ix as nat, status: e.status, stdout: e.stdout@, stderr: e.stderr@, values: e.values } }
impl<'a> State<'a> {
    /// what the other requests and the passing of time may do while a request waits
    #[verifier::external_body] pub fn vx_env(&mut self)
        requires old(self).wf() // [C15]
        ensures final(self).wf(), final(self).subgraph == old(self).subgraph, final(self).tracker == old(self).tracker, final(self).timeouts.span() == old(self).timeouts.span(), final(self).authorization_token == old(self).authorization_token, old(self).cancelled_slurm_jobids@.subset_of(final(self).cancelled_slurm_jobids@) { unimplemented!() }
}
