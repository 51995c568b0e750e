// operators on std::time values
pub mod timeops_use { pub use vstd::std_specs::ops::*; pub use vstd::std_specs::cmp::*; }
use timeops_use::*;
broadcast use {vxtime::mkdur_ax, vxtime::mkinst_ax, vxtime::duration_nonneg};
/// Duration - Duration panics below zero
impl SubSpecImpl<Duration> for Duration { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, b: Duration) -> bool { self@ >= b@ } open spec fn sub_spec(self, b: Duration) -> Duration { mkdur(self@ - b@) } }
impl core::ops::Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, b: Duration) -> Duration { unimplemented!() } }
impl AddSpecImpl<Duration> for Duration { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, b: Duration) -> bool { true } open spec fn add_spec(self, b: Duration) -> Duration { mkdur(self@ + b@) } }
impl core::ops::Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, b: Duration) -> Duration { unimplemented!() } }
/// Instant - Instant is zero when the second is later
impl SubSpecImpl<Instant> for Instant { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, b: Instant) -> bool { true } open spec fn sub_spec(self, b: Instant) -> Duration { mkdur(if self@ >= b@ { self@ - b@ } else { 0 }) } }
impl core::ops::Sub<Instant> for Instant { type Output = Duration; #[verifier::external_body] fn sub(self, b: Instant) -> Duration { unimplemented!() } }
impl SubSpecImpl<Duration> for Instant { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, b: Duration) -> bool { true } open spec fn sub_spec(self, b: Duration) -> Instant { mkinst(self@ - b@) } }
impl core::ops::Sub<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn sub(self, b: Duration) -> Instant { unimplemented!() } }
impl AddSpecImpl<Duration> for Instant { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, b: Duration) -> bool { true } open spec fn add_spec(self, b: Duration) -> Instant { mkinst(self@ + b@) } }
impl core::ops::Add<Duration> for Instant { type Output = Instant; #[verifier::external_body] fn add(self, b: Duration) -> Instant { unimplemented!() } }
pub open spec fn cmp_int(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, b: &Duration) -> bool { self@ == b@ } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, b: &Duration) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, b: &Duration) -> Option<core::cmp::Ordering> { Some(cmp_int(self@, b@)) } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, b: &Duration) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialEqSpecImpl for Instant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, b: &Instant) -> bool { self@ == b@ } }
impl PartialEq for Instant { #[verifier::external_body] fn eq(&self, b: &Instant) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for Instant { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, b: &Instant) -> Option<core::cmp::Ordering> { Some(cmp_int(self@, b@)) } }
impl PartialOrd for Instant { #[verifier::external_body] fn partial_cmp(&self, b: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() } }
