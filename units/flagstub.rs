// ---- stand-ins of unit flag: an atomic, an event-listener Event -----------------------------------------------
// Every operation is one step of the thread's history; what it sees is arbitrary here (lemma not_left_asleep
// puts the histories of all threads together).
#[verifier::external_body] pub struct Eff { x: () }
impl Eff { pub uninterp spec fn hist(&self) -> Seq<Ev>; }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
#[verifier::external_body] pub struct AtomicBool { x: () }
#[verifier::external_body] pub struct AtomicU64 { x: () }
pub open spec fn num(b: bool) -> int { if b { 1 } else { 0 } }
impl AtomicBool {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body] pub fn new(v: bool) -> (r: Self) ensures r.init() == num(v) { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering, eff: &mut Eff) -> (r: bool) ensures final(eff).hist() == old(eff).hist().push(Ev::Load { v: num(r) }) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: bool, o: Ordering, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Write { add: false, v: num(v) }) { unimplemented!() }
    #[verifier::external_body] pub fn swap(&self, v: bool, o: Ordering, eff: &mut Eff) -> (r: bool) ensures final(eff).hist() == old(eff).hist().push(Ev::Write { add: false, v: num(v) }) { unimplemented!() }
}
impl AtomicU64 {
    pub uninterp spec fn init(&self) -> int;
    #[verifier::external_body] pub fn new(v: u64) -> (r: Self) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering, eff: &mut Eff) -> (r: u64) ensures final(eff).hist() == old(eff).hist().push(Ev::Load { v: r as int }) { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, v: u64, o: Ordering, eff: &mut Eff) -> (r: u64) ensures final(eff).hist() == old(eff).hist().push(Ev::Write { add: true, v: v as int }) { unimplemented!() }
}
#[verifier::external_body] pub struct Event { x: () }
#[verifier::external_body] pub struct EventListener { x: () }
impl EventListener { pub uninterp spec fn id(&self) -> int; }
impl Event {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn listen(&self, eff: &mut Eff) -> (r: EventListener) ensures final(eff).hist() == old(eff).hist().push(Ev::Listen { l: r.id() }) { unimplemented!() }
    #[verifier::external_body] pub fn notify(&self, n: usize, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Notify { n: n as int }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_await(l: EventListener, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Await { l: l.id() }) { unimplemented!() }
