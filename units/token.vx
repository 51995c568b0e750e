@unit token
@include prelude.rs
@include time.rs
@include timeops.rs
@pathmap std::sync::Arc Arc
@source src/fancy_cancellation_token.rs
@text
use std::sync::Arc;
pub mod watch {
use vstd::prelude::*;
/// value v was read from the cell of channel c; the cell went from a to b in one indivisible step
pub uninterp spec fn observed<T>(c: int, v: T) -> bool;
pub uninterp spec fn modified<T>(c: int, a: T, b: T) -> bool;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Receiver<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] #[derive(Debug)] pub struct RecvError { x: u8 }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// send_if_modified: the closure runs on the cell under the channel's lock
    #[verifier::external_body] pub fn vx_send_if_modified(&self) -> (r: &mut T) ensures modified(self.chan(), *r, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn send_replace(&self, v: T) -> (r: T) ensures modified(self.chan(), r, v) { unimplemented!() }
    #[verifier::external_body] pub fn send(&self, v: T) -> (r: Result<(), RecvError>) ensures exists|a: T| modified(self.chan(), a, v) { unimplemented!() }
    #[verifier::external_body] pub fn borrow(&self) -> (r: &T) ensures observed(self.chan(), *r) { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> int;
    /// the value this receiver last marked as seen, if any; changed() sleeps until another one is stored
    pub uninterp spec fn seen(&self) -> Option<T>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Receiver<T>) ensures r.chan() == self.chan(), r.seen() is None { unimplemented!() }
    #[verifier::external_body] pub fn borrow(&self) -> (r: &T) ensures observed(self.chan(), *r) { unimplemented!() }
    #[verifier::external_body] pub fn borrow_and_update(&mut self) -> (r: &T)
        ensures observed(final(self).chan(), *r), final(self).chan() == old(self).chan(), final(self).seen() == Some(*r) { unimplemented!() }
    #[verifier::external_body] pub fn changed(&mut self) -> (r: Result<(), RecvError>)
        ensures r is Ok, final(self).chan() == old(self).chan() { unimplemented!() }
}
#[verifier::external_body] pub fn channel<T>(v: T) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.chan() == r.1.chan(), observed(r.0.chan(), v) { unimplemented!() }
}
use watch::*;
@item enum CancellationState
@item struct CancellationTokenState
@item struct CancellationToken
@text
impl Clone for CancellationState { #[verifier::external_body] fn clone(&self) -> (r: CancellationState) ensures r == *self { unimplemented!() } }
pub type TokState = Option<CancellationState>;
/// [C14] the effect of one request on the state of the token
pub open spec fn join(a: TokState, s: CancellationState) -> TokState {
    match s {
        CancellationState::HardCancelled => Some(s),
        CancellationState::CancelledAfterTime(n) => match a {
            None => Some(s),
            Some(CancellationState::HardCancelled) => a,
            Some(CancellationState::CancelledAfterTime(e)) => if n@ > e@ { a } else { Some(s) },
        },
    }
}
/// work begun at t is to stop
pub open spec fn covers(a: TokState, t: int) -> bool {
    match a { None => false, Some(CancellationState::HardCancelled) => true, Some(CancellationState::CancelledAfterTime(c)) => t > c@ }
}
impl CancellationToken {
    pub open spec fn ch(&self) -> int { self.inner.receiver.chan() }
    pub open spec fn wf(&self) -> bool { self.inner.sender.chan() == self.inner.receiver.chan() }
}
// ---- over histories: any sequence of requests, in the order the channel's lock gave them -----------------
pub open spec fn run(a: TokState, h: Seq<CancellationState>) -> TokState decreases h.len() {
    if h.len() == 0 { a } else { join(run(a, h.drop_last()), h.last()) }
}
/// once covered, always covered: cancellation only ever tightens
pub proof fn c14_tightens(a: TokState, s: CancellationState, t: int) requires covers(a, t) ensures covers(join(a, s), t) { }
pub proof fn c14_monotone(a: TokState, h: Seq<CancellationState>, t: int) requires covers(a, t) ensures covers(run(a, h), t) decreases h.len()
{ if h.len() > 0 { c14_monotone(a, h.drop_last(), t); } }
pub proof fn c14_hard_stays(a: TokState, h: Seq<CancellationState>)
    requires a == Some(CancellationState::HardCancelled) ensures run(a, h) == a decreases h.len()
{ if h.len() > 0 { c14_hard_stays(a, h.drop_last()); } }
/// the order in which racing requests get the lock does not matter for what they cover, and the result covers
/// exactly what one of the requests covers
pub proof fn c14_exact(h: Seq<CancellationState>, t: int)
    ensures covers(run(None, h), t) <==> exists|i: int| 0 <= i < h.len() && covers(Some(#[trigger] h[i]), t)
    decreases h.len()
{
    if h.len() > 0 {
        c14_exact(h.drop_last(), t);
        let g = h.drop_last();
        if covers(run(None, h), t) {
            if covers(run(None, g), t) { let i = choose|i: int| 0 <= i < g.len() && covers(Some(#[trigger] g[i]), t); assert(h[i] == g[i]); } else { assert(covers(Some(h[h.len() - 1]), t)); }
        }
        if exists|i: int| 0 <= i < h.len() && covers(Some(#[trigger] h[i]), t) {
            let i = choose|i: int| 0 <= i < h.len() && covers(Some(#[trigger] h[i]), t);
            if i < g.len() { assert(g[i] == h[i]); }
        }
    }
}
@lift send_if_modified vx_cancel_update fn(existing: &mut TokState, state: CancellationState) -> bool
@fn vx_cancel_update free
@locals existing state new_time existing_time
@prop C14
@ret r
@spec
    ensures
        *final(existing) == join(*old(existing), state), // [C14]
        *final(existing) != *old(existing) ==> r, // [C14] everyone waiting is told
@fn CancellationToken::new
@locals s r
@prop C14
@ret r
@spec
    ensures r.wf(), observed(r.ch(), None::<CancellationState>), // [C14]
@fn CancellationToken::is_soft_cancelled
@locals r x
@prop C14
@ret r
@spec
    ensures observed(self.ch(), r), // [C14]
@fn CancellationToken::soft_cancelled
@locals time r s cancel_time
@prop C14
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@ret ret
@spec
    ensures observed(self.ch(), Some(ret)), covers(Some(ret), time@), // [C14]
@loop 0
    invariant r.chan() == self.ch(),
@hint before-call changed 0
    proof { assert(r.seen() is Some && !covers(r.seen()->0, time@)); /* [C14] sleeps only after looking, and not when covered */ }
@fn CancellationToken::hard_cancelled
@locals r s
@prop C14
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@spec
    ensures observed(self.ch(), Some(CancellationState::HardCancelled)), // [C14]
@loop 0
    invariant r.chan() == self.ch(),
@hint before-call changed 0
    proof { assert(r.seen() is Some && r.seen()->0 != Some(CancellationState::HardCancelled)); /* [C14] */ }
@fn CancellationToken::cancel
@locals state vx_cell
@prop C14
@spec
    requires self.wf(),
    ensures exists|a: TokState, b: TokState| #[trigger] modified(self.inner.sender.chan(), a, b) && b == join(a, state), // [C14] one indivisible step
