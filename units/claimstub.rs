// ---- stand-ins of unit claim --------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct BitArray<T> { pub data: T }
impl Cmd { #[verifier::external_body] pub fn call_preamble(&self) { unimplemented!() } }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
pub use Ordering::*;
/// what was received from a queue
pub struct Got { pub queue: int, pub id: nat, pub affinity: u64, pub flag: int }
/// what happened outside the objects: what this client received, the claim flags that are set, those won by anybody in order
#[verifier::external_body] pub struct Eff { x: () }
impl Eff {
    pub uninterp spec fn got(&self) -> Seq<Got>;
    pub uninterp spec fn set(&self) -> ISet<int>;
    /// the flags this client turned
    pub uninterp spec fn won(&self) -> Seq<int>;
    /// this client took an item from a queue, and neither found the queue open after that nor notified its other receivers again:
    /// one of them may have lost the race for the item and wait for another although the queue is closed and will not notify it
    pub uninterp spec fn owes(&self) -> bool;
    pub open spec fn wf(&self) -> bool { self.won().no_duplicates() && forall|i: int| 0 <= i < self.won().len() ==> self.set().contains(#[trigger] self.won()[i]) }
}
/// Arc<AtomicBool>: the claim flag of a queued task; clones share the identity.  Flags are created false (unit sync)
/// and only ever turned.
#[verifier::external_body] pub struct Flag { x: () }
impl View for Flag { type V = int; uninterp spec fn view(&self) -> int; }
impl Clone for Flag { #[verifier::external_body] fn clone(&self) -> (r: Flag) ensures r@ == self@ { unimplemented!() } }
impl Flag {
    /// the flag had the value that is returned, and others may have turned flags before
    #[verifier::external_body] pub fn fetch_or(&self, v: bool, o: Ordering, eff: &mut Eff) -> (r: bool)
        ensures final(eff).got() == old(eff).got(), final(eff).owes() == old(eff).owes(), forall|f: int| old(eff).set().contains(f) ==> #[trigger] final(eff).set().contains(f),
            old(eff).set().contains(self@) ==> r, v ==> final(eff).set().contains(self@),
            final(eff).owes() == old(eff).owes(), final(eff).won() == (if v && !r { old(eff).won().push(self@) } else { old(eff).won() }) { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> bool { unimplemented!() }
}
/// the receiving ends of the queues
#[verifier::external_body] pub struct Receivers { x: () }
#[verifier::external_body] pub struct QueueReceiver { x: () }
#[verifier::external_body] pub struct RecvError { x: () }
#[verifier::external_body] pub struct TryRecvError { x: () }
impl Receivers {
    /// the tracker closed the queue before the call
    pub uninterp spec fn closed(&self, q: int) -> bool;
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&QueueReceiver>) ensures r is Some <==> i < 64, r is Some ==> r->0.q() == i && r->0.closed() == self.closed(i as int) { unimplemented!() }
}
/// the counts of this affinity were published when a task with it was made available, and are never removed (unit sync)
pub uninterp spec fn published(a: u64) -> bool;
impl QueueReceiver {
    pub uninterp spec fn q(&self) -> int;
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body] pub fn is_closed(&self, eff: &mut Eff) -> (r: bool) ensures self.closed() ==> r, final(eff).owes() == (old(eff).owes() && r), final(eff).won() == old(eff).won(), final(eff).got() == old(eff).got(), final(eff).set() == old(eff).set() { unimplemented!() }
    /// closes the queue and notifies everybody who waits on it
    #[verifier::external_body] pub fn close(&self, eff: &mut Eff) -> bool ensures !final(eff).owes(), final(eff).won() == old(eff).won(), final(eff).got() == old(eff).got(), final(eff).set() == old(eff).set() { unimplemented!() }
    #[verifier::external_body] pub fn recv(&self, eff: &mut Eff) -> (r: Result<(TaskItem, u32), RecvError>)
        requires !old(eff).owes(),
        ensures final(eff).owes() == (r is Ok), final(eff).won() == old(eff).won(), forall|f: int| old(eff).set().contains(f) ==> #[trigger] final(eff).set().contains(f),
            r is Ok ==> final(eff).got() == old(eff).got().push(got_of(self.q(), r->Ok_0.0)) && published(r->Ok_0.0.affinity.data),
            r is Err ==> final(eff).got() == old(eff).got() { unimplemented!() }
}
pub open spec fn got_of(q: int, t: TaskItem) -> Got { Got { queue: q, id: t.id.ix as nat, affinity: t.affinity.data, flag: t.taken@ } }
pub struct Upd { pub key: u64, pub before: Snapshot, pub after: Snapshot }
/// the published counts, which others change as well, and the changes made through this reference
#[verifier::external_body] pub struct QueueState { x: () }
impl QueueState {
    pub uninterp spec fn upd(&self) -> Seq<Upd>;
    pub uninterp spec fn map(&self) -> Map<u64, Snapshot>;
    #[verifier::external_body] pub fn vx_env(&mut self) ensures final(self).upd() == old(self).upd() { unimplemented!() }
    /// fewer tasks than fit a u32 are in flight (new_ready_tracker checks the size of the graph)
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &u64) -> (r: Option<&'a mut Snapshot>)
        ensures published(*k) ==> r is Some, r is None ==> final(self).upd() == old(self).upd(),
           r is Some ==> r->0.num_inflight < u32::MAX && final(self).upd() == old(self).upd().push(Upd { key: *k, before: *(r->0), after: *final(r->0) }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: VIter<VxRef<'_>>) ensures r.pos() == 0, lists_counts(r.seq(), self.map()) { unimplemented!() }
}
pub struct VxRef<'a> { pub k: u64, pub v: &'a Snapshot }
impl<'a> VxRef<'a> {
    pub fn key(&self) -> (r: &u64) ensures *r == self.k { &self.k }
    pub fn value(&self) -> (r: &Snapshot) ensures *r == *self.v { self.v }
}
pub open spec fn lists_counts(s: Seq<VxRef>, m: Map<u64, Snapshot>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).k) && m[s[i].k] == *s[i].v
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).k != (#[trigger] s[j]).k
}
impl Clone for Snapshot { #[verifier::external_body] fn clone(&self) -> (r: Snapshot) ensures r == *self { unimplemented!() } }
/// the channel to the tracker; the events that were handed to it
#[verifier::external_body] pub struct EvSender { x: () }
#[verifier::external_body] pub struct SendError { x: () }
impl EvSender {
    pub uninterp spec fn sent(&self) -> Seq<Event>;
    #[verifier::external_body] pub fn send(&mut self, e: Event) -> (r: Result<(), SendError>) ensures final(self).sent() == old(self).sent().push(e) { unimplemented!() }
}
#[verifier::external_body] pub struct RateLimiter { x: () }
impl RateLimiter { #[verifier::external_body] pub fn until_ready(&self, eff: &mut Eff) ensures final(eff).won() == old(eff).won(), final(eff).got() == old(eff).got(), final(eff).owes() == old(eff).owes(), forall|f: int| old(eff).set().contains(f) ==> #[trigger] final(eff).set().contains(f) { unimplemented!() } }
#[verifier::external_body] pub struct RateCounter { x: () }
impl RateCounter { #[verifier::external_body] pub fn update(&self, t: Instant) { unimplemented!() } }
#[verifier::external_body] pub struct AsyncFlag { x: () }
/// counts what happened so far; grows
#[verifier::external_body] pub struct AsyncCounter { x: () }
pub type ValueMaps = Vec<HashMap<String, String>>;
pub broadcast axiom fn recv_from(e: RecvError, r: ReadyTrackerClientError) requires #[trigger] vstd::std_specs::control_flow::spec_from::<ReadyTrackerClientError, RecvError>(e, r) ensures r is ChannelRecvError;
impl From<RecvError> for ReadyTrackerClientError { #[verifier::external_body] fn from(e: RecvError) -> (r: ReadyTrackerClientError) { unimplemented!() } }
impl AsyncCounter {
    #[verifier::external_body] pub fn wait(&self, n: u64) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn load(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body] pub struct Elapsed { x: () }
#[verifier::external_body] pub fn vx_timeout<T>(d: Duration, x: T) -> (r: Result<T, Elapsed>) ensures r is Ok ==> r->Ok_0 == x { unimplemented!() }
#[verifier::external_body] pub fn sleep_until(t: Instant) { unimplemented!() }
// ---- the status endpoint ------------------------------------------------------------------------------------
/// a view of the counter of tasks that are not yet eligible; others change it (unit sync): the value is that of the moment it is read
#[verifier::external_body] pub struct VxUnready { x: () }
impl View for VxUnready { type V = u32; uninterp spec fn view(&self) -> u32; }
impl VxUnready { #[verifier::external_body] pub fn load(&self) -> (r: u32) ensures r == self@ { unimplemented!() } }
pub struct Json<T>(pub T);
impl ReadyTrackerClient {
    #[verifier::external_body] pub fn get_launch_rate(&self) -> f64 { unimplemented!() }
    #[verifier::external_body] pub fn get_launch_ratelimit(&self) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn get_average_recent_task_runtime(&self) -> Duration { unimplemented!() }
}
impl Duration { #[verifier::external_body] pub fn as_secs_f32(&self) -> f32 { unimplemented!() } }
#[verifier::external_body] pub fn collect_server_metrics() -> ServerMetrics { unimplemented!() }
#[verifier::external_body] pub struct VxProvisioner { x: () }
pub struct VxSpec { pub info: Option<String> }
#[verifier::external_body] #[derive(Debug)] pub struct PoisonError { x: () }
impl VxProvisioner { #[verifier::external_body] pub fn read(&self) -> (r: Result<VxSpec, PoisonError>) ensures r is Ok { unimplemented!() } }
pub open spec fn shown(q: StatusQueueReply, s: Snapshot) -> bool { q.num_ready == s.num_ready && q.num_inflight == s.num_inflight }
/// the reply contains the counts of every affinity, and no others
pub open spec fn shows(q: Map<u64, StatusQueueReply>, m: Map<u64, Snapshot>) -> bool { q.dom() =~= m.dom() && forall|k: u64| #[trigger] q.contains_key(k) ==> shown(q[k], m[k]) }
impl VxIter for HashMap<u64, Snapshot> { type It = (u64, Snapshot);
    open spec fn vx_iter_of(&self, r: VIter<(u64, Snapshot)>) -> bool { lists_map(r.seq(), self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(u64, Snapshot)>) { unimplemented!() }
}
pub open spec fn lists_map(s: Seq<(u64, Snapshot)>, m: Map<u64, Snapshot>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
