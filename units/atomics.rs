// Atomics.  Other threads may change the value between any two operations, so the contracts record
// which operations took place (as facts about the object) and promise of the value only the
// invariant I, which every write under contract has to establish.
pub trait AtInv { spec fn ok(v: int) -> bool; }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct AtomicU64<I> { x: std::marker::PhantomData<I> }
impl<I: AtInv> AtomicU64<I> {
    pub uninterp spec fn init(&self) -> u64;
    pub uninterp spec fn stored(&self, v: u64) -> bool;
    pub uninterp spec fn loaded(&self, v: u64) -> bool;
    pub uninterp spec fn cas_done(&self, a: u64, b: u64) -> bool;
    #[verifier::external_body] pub fn new(v: u64) -> (r: Self) requires I::ok(v as int) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body] pub fn from(v: u64) -> (r: Self) requires I::ok(v as int) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: u64) ensures self.loaded(r), I::ok(r as int) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, v: u64, o: Ordering) requires I::ok(v as int) ensures self.stored(v) { unimplemented!() }
    #[verifier::external_body] pub fn compare_exchange(&self, a: u64, b: u64, o: Ordering, p: Ordering) -> (r: Result<u64, u64>)
        requires I::ok(b as int) ensures r is Ok ==> self.cas_done(a, b) { unimplemented!() }
}
