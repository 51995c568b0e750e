// ---- stand-ins of unit sync ---------------------------------------------------------------------
pub open spec fn bit(a: u64, i: u64) -> bool { (a >> i) & 1u64 == 1u64 }
#[derive(Clone, Copy)]
pub struct BitArray<T> { pub data: T }
impl BitArray<u64> {
    /// the positions of the ones
    #[verifier::external_body] pub fn iter_ones(&self) -> (r: VIter<usize>)
        ensures r.pos() == 0, lists_ones(r.seq(), self.data) { unimplemented!() }
}
pub open spec fn lists_ones(s: Seq<usize>, a: u64) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) < 64 && bit(a, s[j] as u64)
    &&& forall|i: u64| 0 <= i < 64 && bit(a, i) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]) == i
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) < (#[trigger] s[j])
}
impl Cmd {
    #[verifier::external_body] pub fn display(&self) -> String { unimplemented!() }
    #[verifier::external_body] pub fn call_preamble(&self) { unimplemented!() }
    #[verifier::external_body] pub fn call_postamble(&self, a: bool, b: u32, c: u64) { unimplemented!() }
}
/// what happened outside the objects: claim flags created, soft cancellations requested (with their cutoff)
#[verifier::external_body] pub struct Eff { x: () }
impl Eff {
    pub uninterp spec fn flags(&self) -> Seq<int>;
    pub uninterp spec fn cancels(&self) -> Seq<int>;
}
/// Arc<AtomicBool>: the claim flag of a queued task; clones share the identity
#[verifier::external_body] pub struct Flag { x: () }
impl View for Flag { type V = int; uninterp spec fn view(&self) -> int; }
impl Clone for Flag { #[verifier::external_body] fn clone(&self) -> (r: Flag) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_flag_new(b: bool, eff: &mut Eff) -> (r: Flag)
    requires !b // [C03]
    ensures !old(eff).flags().contains(r@), final(eff).flags() == old(eff).flags().push(r@), final(eff).cancels() == old(eff).cancels() { unimplemented!() }
pub fn vx_arc_new<T>(x: T) -> (r: T) ensures r == x { x }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
pub use Ordering::*;
/// an atomic that only the holder of the exclusive reference writes
#[verifier::external_body] pub struct AtomicU32 { x: u32 }
impl AtomicU32 { pub uninterp spec fn id(&self) -> int; }
impl View for AtomicU32 { type V = u32; uninterp spec fn view(&self) -> u32; }
impl AtomicU32 {
    #[verifier::external_body] pub fn new(v: u32) -> (r: Self) ensures r@ == v { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: u32) ensures r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: u32, o: Ordering) ensures final(self)@ == v { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, v: u32, o: Ordering) -> (r: u32) requires old(self)@ >= v ensures r == old(self)@, final(self)@ == old(self)@ - v { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&mut self, a: u32, b: u32, o: Ordering, p: Ordering) -> (r: Result<u32, u32>)
        ensures old(self)@ == a ==> r is Ok && final(self)@ == b, old(self)@ != a ==> r is Err && final(self)@ == old(self)@ { unimplemented!() }
}
/// what a queue is offered: the task, its affinity, the identity of its claim flag, its priority
pub struct Offer { pub id: nat, pub affinity: u64, pub flag: int, pub priority: u32 }
pub open spec fn offer_of(x: (TaskItem, u32)) -> Offer { Offer { id: x.0.id.ix as nat, affinity: x.0.affinity.data, flag: x.0.taken@, priority: x.1 } }
pub open spec fn offers_of(s: Seq<(TaskItem, u32)>) -> Seq<Offer> { s.map_values(|x: (TaskItem, u32)| offer_of(x)) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(P)]
pub struct Sender<T, P> { x: std::marker::PhantomData<(T, P)> }
impl Sender<TaskItem, u32> {
    /// everything offered so far
    pub uninterp spec fn offers(&self) -> Seq<Offer>;
    pub uninterp spec fn receivers_gone(&self) -> bool;
    /// which queue it is
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body] pub fn sendv(&mut self, it: VIter<(TaskItem, u32)>) -> (r: Result<(), SendError>)
        requires it.pos() == 0
        ensures final(self).receivers_gone() == old(self).receivers_gone(), final(self).chan() == old(self).chan(), r is Ok ==> final(self).offers() == old(self).offers() + offers_of(it.seq()),
            r is Err ==> old(self).receivers_gone() && final(self).offers() == old(self).offers() { unimplemented!() }
}
#[verifier::external_body] pub struct SendError { x: () }
#[verifier::external_body] pub struct Receiver { x: () }
impl Receiver { pub uninterp spec fn chan(&self) -> int; }
// ---- what a tracker and its client are made of ----------------------------------------------------
#[verifier::external_body] pub struct QueueReceiver { x: () }
impl QueueReceiver { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body] pub struct EvSender { x: () }
impl EvSender { pub uninterp spec fn chan(&self) -> int; }
/// a new queue: its two ends
#[verifier::external_body] pub fn vx_queue() -> (r: (Sender<TaskItem, u32>, QueueReceiver)) ensures r.0.offers().len() == 0, r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body] pub fn vx_events() -> (r: (EvSender, Receiver)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
#[verifier::external_body] pub fn vx_queuestate() -> (r: QueueState) ensures r.map() == Map::<u64, Snapshot>::empty(), forall|v: nat| !#[trigger] r.out().contains(v) { unimplemented!() }
impl Clone for QueueState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct ReadOnlyAtomicU32 { x: () }
impl ReadOnlyAtomicU32 { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] pub fn vx_read_only(x: &AtomicU32) -> (r: ReadOnlyAtomicU32) ensures r.id() == x.id() { unimplemented!() }
#[verifier::external_body] pub struct RateLimiter { x: () }
impl RateLimiter { #[verifier::external_body] pub fn new(n: u64) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct RateCounter { x: () }
impl RateCounter { #[verifier::external_body] pub fn new(n: f64) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct RingbufferView { x: () }
pub trait VxTryInto<U>: Sized { spec fn vx_fits(&self) -> bool; spec fn vx_as(&self, u: U) -> bool;
    fn vx_try_into(self) -> (r: Result<U, VxConvError>) ensures r is Ok <==> self.vx_fits(), r is Ok ==> self.vx_as(r->Ok_0);
}
#[derive(Debug)] #[verifier::external_body] pub struct VxConvError { x: () }
impl VxTryInto<u32> for usize { open spec fn vx_fits(&self) -> bool { *self <= u32::MAX } open spec fn vx_as(&self, u: u32) -> bool { u == *self }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<u32, VxConvError>) { unimplemented!() } }
impl<T> VxTryInto<[T; 64]> for Vec<T> { open spec fn vx_fits(&self) -> bool { self@.len() == 64 } open spec fn vx_as(&self, u: [T; 64]) -> bool { u@ == self@ }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[T; 64], VxConvError>) { unimplemented!() } }
pub trait VxInto<U> { fn vx_into(self) -> U; }
impl VxInto<u64> for u32 { #[verifier::external_body] fn vx_into(self) -> u64 { unimplemented!() } }

/// the counts published to provisioners (map), and the tasks handed out so far (out)
#[verifier::external_body] pub struct QueueState { x: () }
impl QueueState {
    pub uninterp spec fn map(&self) -> Map<u64, Snapshot>;
    pub uninterp spec fn out(&self) -> ISet<nat>;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn vx_entry_or_insert<'a>(&'a mut self, k: u64, v: Snapshot) -> (r: &'a mut Snapshot)
        ensures *r == (if old(self).map().contains_key(k) { old(self).map()[k] } else { v }), final(self).map() == old(self).map().insert(k, *final(r)), final(self).out() == old(self).out() { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self, k: &u64) -> (r: Option<&'a mut Snapshot>)
        ensures r is Some <==> old(self).map().contains_key(*k), r is None ==> final(self).map() == old(self).map(), final(self).out() == old(self).out(),
           r is Some ==> *(r->0) == old(self).map()[*k] && final(self).map() == old(self).map().insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_keys(&self) -> (r: VIter<u64>) ensures r.pos() == 0, lists_keys(r.seq(), self.map()) { unimplemented!() }
}
impl Snapshot {
    #[verifier::external_body] pub fn value_mut(&mut self) -> (r: &mut Snapshot) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
    pub fn value(&self) -> (r: &Snapshot) ensures *r == *self { self }
}
#[verifier::external_body] pub struct AsyncCounter { x: () }
impl Clone for AsyncCounter { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl Clone for AsyncFlag { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl AsyncCounter {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn incr(&self) { unimplemented!() }
}
#[verifier::external_body] pub struct AsyncFlag { x: () }
impl AsyncFlag {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn set(&self) { unimplemented!() }
    #[verifier::external_body] pub fn unset(&self) { unimplemented!() }
    #[verifier::external_body] pub fn wait(&self) ensures flag_was_set() { unimplemented!() }
}
#[verifier::external_body] pub struct RingbufferForDurationAverages { x: () }
impl RingbufferForDurationAverages {
    #[verifier::external_body] pub fn new(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn view(&self) -> RingbufferView { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, d: Duration) { unimplemented!() }
}
pub enum CancellationState { CancelledAfterTime(Instant), HardCancelled }
#[verifier::external_body] pub struct CancellationToken { x: () }
impl CancellationToken {
    pub uninterp spec fn is_hard(&self) -> bool;
    #[verifier::external_body] pub fn hard_cancelled(&self) ensures self.is_hard() { unimplemented!() }
    #[verifier::external_body] pub fn cancel(&self, s: CancellationState, eff: &mut Eff)
        requires s is CancelledAfterTime
        ensures final(eff).flags() == old(eff).flags(), final(eff).cancels() == old(eff).cancels().push(s->CancelledAfterTime_0@) { unimplemented!() }
}
#[verifier::external_body] #[derive(Debug)] pub struct RecvError { x: () }
pub trait VxContext { fn context(self, m: &str) -> (r: Self) where Self: Sized ensures r == self; }
impl<T> VxContext for Result<T, AnyhowError> { #[verifier::external_body] fn context(self, m: &str) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn ctrl_c_seen() -> bool;
pub uninterp spec fn flag_was_set() -> bool;
pub uninterp spec fn runners_gone() -> bool;
#[verifier::external_body] pub struct SignalKind { x: () }
impl SignalKind {
    #[verifier::external_body] pub fn interrupt() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn terminate() -> Self { unimplemented!() }
}
#[verifier::external_body] pub struct Signal { x: () }
#[verifier::external_body] pub fn signal(k: SignalKind) -> Result<Signal, AnyhowError> { unimplemented!() }
impl Signal { #[verifier::external_body] pub fn recv(&mut self) -> (r: Option<()>) ensures ctrl_c_seen() { unimplemented!() } }
#[verifier::external_body] pub struct Interval { x: () }
#[verifier::external_body] pub fn interval(d: Duration) -> Interval { unimplemented!() }
impl Interval { #[verifier::external_body] pub fn tick(&mut self) { unimplemented!() } }
#[verifier::external_body] pub fn flush_logging() -> Result<(), AnyhowError> { unimplemented!() }
#[verifier::external_body] pub fn vx_rawlog() -> Result<(), AnyhowError> { unimplemented!() }
#[verifier::external_body] pub fn killpg(p: i32, s: i32) -> i32 { unimplemented!() }
#[verifier::external_body] pub fn getpgrp() -> i32 { unimplemented!() }
pub const SIGTERM: i32 = 15;
impl<'a> ReadyTrackerServer<'a> {
    /// `self.completed.recv()`: while waiting, runners may take tasks that were made available; what they
    /// report is about tasks they were handed: started once (before finished), finished once
    #[verifier::external_body] pub fn vx_recv(&mut self) -> (r: Result<Event, RecvError>)
        ensures only_queue(old(self), final(self)), rely(old(self).g, old(self).logfile.log(), &old(self).queuestate, &final(self).queuestate),
            r matches Ok(Event::Started(e)) ==> final(self).queuestate.out().contains(e.id.ix as nat) && st(old(self).g, old(self).logfile.log(), e.id.ix as nat) == Some(Ls::Ready),
            r matches Ok(Event::Finished(e)) ==> final(self).queuestate.out().contains(e.id.ix as nat) && !fin(old(self).g, old(self).logfile.log()).contains(e.id.ix as nat),
            r is Err ==> runners_gone() { unimplemented!() }
    /// `self.completed.try_recv()`: an event that was sent, as above
    #[verifier::external_body] pub fn vx_try_recv(&mut self) -> (r: Result<Event, RecvError>)
        ensures only_queue(old(self), final(self)), rely(old(self).g, old(self).logfile.log(), &old(self).queuestate, &final(self).queuestate),
            r matches Ok(Event::Started(e)) ==> final(self).queuestate.out().contains(e.id.ix as nat) && st(old(self).g, old(self).logfile.log(), e.id.ix as nat) == Some(Ls::Ready),
            r matches Ok(Event::Finished(e)) ==> final(self).queuestate.out().contains(e.id.ix as nat) && !fin(old(self).g, old(self).logfile.log()).contains(e.id.ix as nat) { unimplemented!() }
}
#[verifier::external_body] pub fn drop<T>(x: T) ensures has_resolved::<T>(x) { unimplemented!() }
impl NodeIndex { pub fn vx_to_owned(&self) -> (r: NodeIndex) ensures r == *self { *self } }
pub trait VxToOwned { spec fn vx_text(&self) -> Seq<char>; fn vx_to_owned(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl VxToOwned for str { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl<K: View, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
