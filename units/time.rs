// std::time stand-ins: a duration is a number of nanoseconds, an instant a point on a line of nanoseconds.
pub mod vxtime {
use vstd::prelude::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
impl View for Duration { type V = int; uninterp spec fn view(&self) -> int; }
pub broadcast axiom fn duration_nonneg(d: Duration) ensures #[trigger] d@ >= 0;
impl Duration {
    #[verifier::external_body] pub fn from_nanos(n: u64) -> (r: Duration) ensures r@ == n { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: Duration) ensures r@ == n * 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures r@ == n * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> (r: Duration) ensures r@ == s * 1_000_000_000 + n { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r == self@ / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self@ / 1_000_000_000 { unimplemented!() }
}
impl Default for Duration { #[verifier::external_body] fn default() -> Duration { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u64 }
impl View for Instant { type V = int; uninterp spec fn view(&self) -> int; }
/// t was read off the clock
pub uninterp spec fn clock_read(t: int) -> bool;
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) ensures clock_read(r@) { unimplemented!() }
}
pub uninterp spec fn mkdur(i: int) -> Duration;
pub uninterp spec fn mkinst(i: int) -> Instant;
pub broadcast axiom fn mkdur_ax(i: int) requires i >= 0 ensures (#[trigger] mkdur(i))@ == i;
pub broadcast axiom fn mkinst_ax(i: int) ensures (#[trigger] mkinst(i))@ == i;
}
pub use vxtime::*;
