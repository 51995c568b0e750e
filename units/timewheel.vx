@unit timewheel
@include prelude.rs
@include iter.rs
@include time.rs
@defattr #[verifier::loop_isolation(false)]
@source src/time/timewheel.rs
@item const NUM_SLOTS
@text
// ---- stand-ins: slotmap, Mutex, AtomicU8 --------------------------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct DefaultKey { x: u64 }
impl View for DefaultKey { type V = int; uninterp spec fn view(&self) -> int; }
/// live entries, and every key ever given out (a SlotMap never gives out a key twice)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct SlotMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K: View<V = int>, V> SlotMap<K, V> {
    pub uninterp spec fn live(&self) -> Map<int, V>;
    pub uninterp spec fn used(&self) -> Set<int>;
    #[verifier::external_body] pub fn with_key() -> (r: Self) ensures r.live() == Map::<int, V>::empty(), r.used() == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: V) -> (r: K)
        ensures !old(self).used().contains(r@), final(self).used() == old(self).used().insert(r@), final(self).live() == old(self).live().insert(r@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: K) -> (r: Option<V>)
        ensures final(self).used() == old(self).used(), final(self).live() == old(self).live().remove(k@), r is Some <==> old(self).live().contains_key(k@) { unimplemented!() }
    #[verifier::external_body] pub fn drain(&mut self) -> (r: VIter<(K, V)>)
        ensures final(self).used() == old(self).used(), final(self).live() == Map::<int, V>::empty(), r.pos() == 0, lists(r.seq(), old(self).live()) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self)
        ensures final(self).used() == old(self).used(), final(self).live() == Map::<int, V>::empty() { unimplemented!() }
}
/// s contains exactly the pairs of m, each once
pub open spec fn lists<K: View<V = int>, V>(s: Seq<(K, V)>, m: Map<int, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1
    &&& forall|k: int| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0@ == (#[trigger] s[j]).0@ ==> i == j
}
pub struct Mutex<T> { pub v: T }
#[derive(Debug)]
pub struct PoisonError { }
impl<T> Mutex<T> {
    /// The guard of a lock is the exclusive reference to what it protects.
    #[verifier::external_body] pub fn lock(&mut self) -> (r: Result<&mut T, PoisonError>)
        ensures r is Ok, *(r->Ok_0) == old(self).v, final(self).v == *final(r->Ok_0) { unimplemented!() }
}
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
#[verifier::external_body]
pub struct AtomicU8 { x: u8 }
impl View for AtomicU8 { type V = u8; uninterp spec fn view(&self) -> u8; }
impl AtomicU8 {
    #[verifier::external_body] pub fn new(v: u8) -> (r: Self) ensures r@ == v { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: u8) ensures r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: u8, o: Ordering) ensures final(self)@ == v { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, v: u8, o: Ordering) -> (r: u8) ensures r == old(self)@, final(self)@ == (old(self)@ as int + v) % 256 { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, v: u8, o: Ordering) -> (r: u8) ensures r == old(self)@, final(self)@ == (old(self)@ as int - v) % 256 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_new_slots<T>() -> (r: Vec<Mutex<Option<T>>>) ensures r@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] r@[i]).v is None { unimplemented!() }
#[verifier::external_body]
pub fn vx_gt(a: Duration, b: Duration) -> (r: bool) ensures r == (a@ > b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_div(a: Duration, b: u32) -> (r: Duration) requires b > 0 ensures r@ == a@ / b as int { unimplemented!() }
@item struct TimerID
@itemattr #[derive(Clone, Copy)]
@item struct TimeWheel
@itemattr #[verifier::reject_recursive_types(Entry)]
@text
// ---- C13 ----------------------------------------------------------------------------------------
pub struct WS<E> { pub live: Map<int, E>, pub used: Set<int> }
/// The abstract wheel: position, and per slot the live timers and the keys given out so far.
pub struct W<E> { pub cur: int, pub slots: Seq<WS<E>> }
impl<Entry> TimeWheel<Entry> {
    pub open spec fn slot(&self, i: int) -> WS<Entry> {
        match self.slots@[i].v { Some(b) => WS { live: b.live(), used: b.used() }, None => WS { live: Map::empty(), used: Set::empty() } }
    }
    pub open spec fn w(&self) -> W<Entry> { W { cur: self.current@ as int, slots: Seq::new(256, |i: int| self.slot(i)) } }
    pub open spec fn wf(&self) -> bool { self.slots@.len() == 256 && wf(self.w()) }
}
pub open spec fn wf<E>(w: W<E>) -> bool {
    0 <= w.cur < 256 && w.slots.len() == 256 && forall|i: int, k: int| 0 <= i < 256 && #[trigger] w.slots[i].live.contains_key(k) ==> w.slots[i].used.contains(k)
}
pub struct Id { pub slot: int, pub key: int }
pub open spec fn alive<E>(w: W<E>, id: Id) -> bool { w.slots[id.slot].live.contains_key(id.key) }
pub open spec fn given<E>(w: W<E>, id: Id) -> bool { 0 <= id.slot < 256 && w.slots[id.slot].used.contains(id.key) }
pub open spec fn others<E>(a: W<E>, b: W<E>, s: int) -> bool {
    a.slots.len() == 256 && b.slots.len() == 256 && forall|j: int| 0 <= j < 256 && j != s ==> #[trigger] b.slots[j] == a.slots[j]
}
pub open spec fn insert_step<E>(a: W<E>, b: W<E>, id: Id, steps: int, e: E) -> bool {
    &&& id.slot == (a.cur + steps) % 256
    &&& !a.slots[id.slot].used.contains(id.key)
    &&& b.cur == a.cur && others(a, b, id.slot)
    &&& b.slots[id.slot].live =~= a.slots[id.slot].live.insert(id.key, e)
    &&& b.slots[id.slot].used =~= a.slots[id.slot].used.insert(id.key)
}
pub open spec fn cancel_step<E>(a: W<E>, b: W<E>, id: Id) -> bool {
    &&& b.cur == a.cur && others(a, b, id.slot)
    &&& b.slots[id.slot].live =~= a.slots[id.slot].live.remove(id.key)
    &&& b.slots[id.slot].used =~= a.slots[id.slot].used
}
/// the tick gives back the live timers of the next slot and empties it
pub open spec fn tick_step<E>(a: W<E>, b: W<E>) -> bool {
    let s = (a.cur + 1) % 256;
    &&& b.cur == s && others(a, b, s)
    &&& b.slots[s].live =~= Map::<int, E>::empty()
    &&& b.slots[s].used =~= a.slots[s].used
}
/// what the tick from state a returns
pub open spec fn fired<E>(a: W<E>) -> Map<int, E> { a.slots[(a.cur + 1) % 256].live }
/// number of ticks a duration corresponds to (spans of 256 ticks)
pub open spec fn ticks_of(d: int, span: int) -> int { 256 * d / span }

pub enum Op<E> { Insert { id: Id, steps: int, e: E }, Cancel { id: Id }, Tick }
pub open spec fn step<E>(a: W<E>, b: W<E>, o: Op<E>) -> bool {
    match o {
        Op::Insert { id, steps, e } => 0 <= id.slot < 256 && insert_step(a, b, id, steps, e),
        Op::Cancel { id } => given(a, id) && cancel_step(a, b, id),
        Op::Tick => tick_step(a, b),
    }
}
pub open spec fn history<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>) -> bool {
    ws.len() == ops.len() + 1 && wf(ws[0]) && forall|i: int| 0 <= i < ops.len() ==> step(ws[i], ws[i + 1], #[trigger] ops[i])
}
pub open spec fn nticks<E>(ops: Seq<Op<E>>, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { nticks(ops, a, b - 1) + if ops[b - 1] is Tick { 1int } else { 0 } }
}
pub open spec fn no_cancel<E>(ops: Seq<Op<E>>, a: int, b: int, id: Id) -> bool { forall|i: int| a <= i < b ==> #[trigger] ops[i] != (Op::<E>::Cancel { id }) }
pub proof fn wf_all<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, n: int)
    requires history(ws, ops), 0 <= n <= ops.len()
    ensures wf(ws[n])
    decreases n
{
    if n > 0 {
        wf_all(ws, ops, n - 1);
        let (a, b) = (ws[n - 1], ws[n]);
        assert(step(a, b, ops[n - 1]));
        assert forall|i: int, k: int| 0 <= i < 256 && #[trigger] b.slots[i].live.contains_key(k) implies b.slots[i].used.contains(k) by {
            assert(a.slots[i].live.contains_key(k) ==> a.slots[i].used.contains(k));
        }
    }
}
/// Keys given out are never given out again, so an id that is not alive stays so.
pub proof fn dead_stays<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, a: int, n: int, id: Id)
    requires history(ws, ops), 0 <= a <= n <= ops.len(), given(ws[a], id), !alive(ws[a], id)
    ensures given(ws[n], id), !alive(ws[n], id)
    decreases n - a
{
    if n > a {
        dead_stays(ws, ops, a, n - 1, id);
        wf_all(ws, ops, n - 1);
        assert(step(ws[n - 1], ws[n], ops[n - 1]));
    }
}
/// A timer set at operation t for `steps` ticks is still set until that many ticks have happened ...
pub proof fn c13_not_early<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, t: int, n: int, id: Id, steps: int, e: E)
    requires history(ws, ops), 0 <= t < n <= ops.len(), ops[t] == (Op::Insert { id, steps, e }), 1 <= steps <= 256,
        no_cancel(ops, t + 1, n, id), nticks(ops, t + 1, n) < steps
    ensures alive(ws[n], id), given(ws[n], id), ws[n].slots[id.slot].live[id.key] == e, ws[n].cur == (ws[t].cur + nticks(ops, t + 1, n)) % 256, nticks(ops, t + 1, n) >= 0,
        id.slot == (ws[t].cur + steps) % 256, 0 <= id.slot < 256
    decreases n
{
    wf_all(ws, ops, n - 1);
    assert(step(ws[n - 1], ws[n], ops[n - 1]));
    if n == t + 1 { } else {
        assert(nticks(ops, t + 1, n) == nticks(ops, t + 1, n - 1) + if ops[n - 1] is Tick { 1int } else { 0 });
        c13_not_early(ws, ops, t, n - 1, id, steps, e);
        assert(ops[n - 1] != (Op::<E>::Cancel { id }));
        match ops[n - 1] {
            Op::Tick => {
                let (c, k) = (ws[t].cur, nticks(ops, t + 1, n - 1));
                mods(c, k, steps);
            }
            Op::Insert { id: i2, .. } => { assert(i2 != id); }
            Op::Cancel { id: i2 } => { assert(i2.slot != id.slot || i2.key != id.key); }
        }
    }
}
pub proof fn mods(c: int, k: int, s: int)
    requires 0 <= k, 1 <= s <= 256
    ensures ((c + k) % 256 + 1) % 256 == (c + k + 1) % 256, k + 1 < s ==> (c + k + 1) % 256 != (c + s) % 256, k + 1 == s ==> (c + k + 1) % 256 == (c + s) % 256
{ }
/// ... the tick that completes the number returns it with the entry it was set with, and nothing ever returns it afterwards.
pub proof fn c13_fires_once<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, t: int, n: int, m: int, id: Id, steps: int, e: E)
    requires history(ws, ops), 0 <= t < n < m <= ops.len(), ops[t] == (Op::Insert { id, steps, e }), 1 <= steps <= 256,
        no_cancel(ops, t + 1, n, id), nticks(ops, t + 1, n) == steps - 1, ops[n] is Tick
    ensures fired(ws[n]).contains_key(id.key), fired(ws[n])[id.key] == e, (ws[n].cur + 1) % 256 == id.slot, !alive(ws[m], id)
{
    c13_not_early(ws, ops, t, n, id, steps, e);
    mods(ws[t].cur, nticks(ops, t + 1, n), steps);
    wf_all(ws, ops, n);
    assert(step(ws[n], ws[n + 1], ops[n]));
    dead_stays(ws, ops, n + 1, m, id);
}
/// No tick before returns it: the slot it empties is another one.
pub proof fn c13_not_returned_before<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, t: int, n: int, id: Id, steps: int, e: E)
    requires history(ws, ops), 0 <= t < n < ops.len(), ops[t] == (Op::Insert { id, steps, e }), 1 <= steps <= 256,
        no_cancel(ops, t + 1, n, id), nticks(ops, t + 1, n) < steps - 1, ops[n] is Tick
    ensures (ws[n].cur + 1) % 256 != id.slot
{
    c13_not_early(ws, ops, t, n, id, steps, e);
    mods(ws[t].cur, nticks(ops, t + 1, n), steps);
}
/// A cancelled timer is never returned.
pub proof fn c13_cancelled<E>(ws: Seq<W<E>>, ops: Seq<Op<E>>, c: int, m: int, id: Id)
    requires history(ws, ops), 0 <= c < m <= ops.len(), ops[c] == (Op::<E>::Cancel { id })
    ensures !alive(ws[m], id)
{
    wf_all(ws, ops, c);
    assert(step(ws[c], ws[c + 1], ops[c]));
    dead_stays(ws, ops, c + 1, m, id);
}
/// Cancelling one timer (live or not) leaves every other timer as it was.
pub proof fn c13_cancel_frame<E>(a: W<E>, b: W<E>, id: Id, other: Id)
    requires wf(a), given(a, id), cancel_step(a, b, id), 0 <= other.slot < 256, other != id
    ensures alive(a, other) <==> alive(b, other), alive(a, other) ==> b.slots[other.slot].live[other.key] == a.slots[other.slot].live[other.key]
{ }
/// the step count of a duration between one tick and the span is between 1 and 256
pub proof fn c13_steps(d: int, span: int)
    requires span >= 256, d * 256 >= span, d <= span
    ensures 1 <= ticks_of(d, span) <= 256
{
    assert(1 <= 256 * d / span <= 256) by (nonlinear_arith) requires span >= 256, d * 256 >= span, d <= span;
}
pub proof fn wf_insert<E>(a: W<E>, b: W<E>, id: Id, steps: int, e: E) requires wf(a), insert_step(a, b, id, steps, e) ensures wf(b) {
    assert forall|i: int, k: int| 0 <= i < 256 && #[trigger] b.slots[i].live.contains_key(k) implies b.slots[i].used.contains(k) by { assert(a.slots[i].live.contains_key(k) ==> a.slots[i].used.contains(k)); }
}
pub proof fn wf_cancel<E>(a: W<E>, b: W<E>, id: Id) requires wf(a), 0 <= id.slot < 256, cancel_step(a, b, id) ensures wf(b) {
    assert forall|i: int, k: int| 0 <= i < 256 && #[trigger] b.slots[i].live.contains_key(k) implies b.slots[i].used.contains(k) by { assert(a.slots[i].live.contains_key(k) ==> a.slots[i].used.contains(k)); }
}
pub proof fn wf_tick<E>(a: W<E>, b: W<E>) requires wf(a), tick_step(a, b) ensures wf(b) {
    assert forall|i: int, k: int| 0 <= i < 256 && #[trigger] b.slots[i].live.contains_key(k) implies b.slots[i].used.contains(k) by { assert(a.slots[i].live.contains_key(k) ==> a.slots[i].used.contains(k)); }
}
pub proof fn steps_u8(d: int, span: int, cur: u8, t: u64)
    requires span >= 256, 0 <= d <= span, t == 256 * d / span
    ensures 0 <= t <= 256, 0 <= d * 256 <= span * 256, (cur + (#[verifier::truncate] (t as u8))) % 256 == (cur + t) % 256
{
    assert(0 <= 256 * d / span <= 256) by (nonlinear_arith) requires span >= 256, 0 <= d <= span;
    assert(256u64 as u8 == 0u8) by (bit_vector);
}
@fn TimeWheel::new
@locals duration
@subst std::iter::from_fn(|| Some(Mutex::new(None))).take(NUM_SLOTS).collect() => vx_new_slots()
@ret r
@spec
    requires duration@ >= 256
    ensures r.wf(), r.duration@ == duration@, forall|i: int| 0 <= i < 256 ==> (#[trigger] r.slot(i)).live == Map::<int, Entry>::empty()
@fn TimeWheel::tick_duration
@opcalls self.duration
@ret r
@spec
    ensures r@ == self.duration@ / 256
@fn TimeWheel::tick selfmut
@locals old index guard bucket
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).duration == old(self).duration, tick_step(old(self).w(), final(self).w()),
        r is None ==> fired(old(self).w()) == Map::<int, Entry>::empty(),
        r is Some ==> lists(r->0@, fired(old(self).w()))
@hint fn-start
    let ghost w0 = self.w();
@hint fn-end
    proof { if tick_step(w0, self.w()) { wf_tick(w0, self.w()); } }
@fn TimeWheel::insert selfmut panics-ok
@locals dur e step pos index guard bucket bucket
@opcalls dur
@ret r
@spec
    requires old(self).wf(), old(self).duration@ >= 256, old(self).duration@ * 256 < 0x1_0000_0000_0000_0000
    ensures final(self).wf(), final(self).duration == old(self).duration, dur@ <= old(self).duration@,
        insert_step(old(self).w(), final(self).w(), Id { slot: r.slot as int, key: r.key@ }, ticks_of(dur@, old(self).duration@), e)
@hint fn-start
    proof {
        broadcast use duration_nonneg;
        if dur@ <= self.duration@ {
            assert(256 * dur@ / self.duration@ >= 0 && 256 * dur@ / self.duration@ <= 256) by (nonlinear_arith) requires 0 <= dur@ <= self.duration@, self.duration@ >= 256;
            steps_u8(dur@, self.duration@, self.current@, (256 * dur@ / self.duration@) as u64);
        }
    }
@hint fn-end
    proof {
        let (a, b, id, n) = (old(self).w(), self.w(), Id { slot: vx_ret.slot as int, key: vx_ret.key@ }, ticks_of(dur@, self.duration@));
        if insert_step(a, b, id, n, e) { wf_insert(a, b, id, n, e); }
    }
@fn TimeWheel::cancel selfmut
@locals k key slot index guard bucket
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).duration == old(self).duration, cancel_step(old(self).w(), final(self).w(), Id { slot: k.slot as int, key: k.key@ })
@hint fn-end
    proof { let id = Id { slot: k.slot as int, key: k.key@ }; if cancel_step(old(self).w(), self.w(), id) { wf_cancel(old(self).w(), self.w(), id); } }
