@unit remote
@include prelude.rs
@include time.rs
@include timeops.rs
@erase trace debug warn error
@statics START_TIME SIGUSR1_RECEIVED
@source src/bin/execgraph-remote.rs
@text
/// the runner's own start, read once when it began
pub uninterp spec fn start_time() -> int;
#[verifier::external_body] pub fn START_TIME() -> (r: Instant) ensures r@ == start_time() { unimplemented!() }
/// whether the flag set by SIGUSR1 was seen set
pub uninterp spec fn told_to_stop(b: bool) -> bool;
#[verifier::external_body] pub struct AtomicBool { x: () }
pub enum Ordering { SeqCst, Relaxed, Acquire, Release, AcqRel }
impl AtomicBool {
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: bool) ensures told_to_stop(r) { unimplemented!() }
}
#[verifier::external_body] pub fn SIGUSR1_RECEIVED() -> AtomicBool { unimplemented!() }
impl Duration {
    #[verifier::external_body] pub fn min(self, b: Duration) -> (r: Duration) ensures r@ == (if self@ <= b@ { self@ } else { b@ }) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, b: Duration) -> (r: Duration) ensures r@ == (if self@ >= b@ { self@ } else { b@ }) { unimplemented!() }
    #[verifier::external_body] pub fn saturating_sub(self, b: Duration) -> (r: Duration) ensures r@ == (if self@ >= b@ { self@ - b@ } else { 0 }) { unimplemented!() }
}
impl MulSpecImpl<u32> for Duration { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, b: u32) -> bool { true } open spec fn mul_spec(self, b: u32) -> Duration { mkdur(self@ * b) } }
impl core::ops::Mul<u32> for Duration { type Output = Duration; #[verifier::external_body] fn mul(self, b: u32) -> Duration { unimplemented!() } }
impl Instant { pub fn into(self) -> (r: Instant) ensures r == self { self } }
pub open spec fn SEC() -> int { 1_000_000_000 }
pub open spec fn YEAR() -> int { 365 * 24 * 3600 * SEC() }
/// [C19] when the child is asked to stop
pub open spec fn stop_at(d: Option<Duration>) -> int {
    let t = if d is Some && d->0@ <= YEAR() { d->0@ } else { YEAR() };
    start_time() + if t > 120 * SEC() { t - 60 * SEC() } else { t }
}
/// [C19] asks for another task
pub open spec fn accepts(limit: Option<Duration>, now: int, told: bool) -> bool {
    !told && (limit is Some ==> (if now >= start_time() { now - start_time() } else { 0 }) < limit->0@)
}
@constfn ONE_YEAR
    ensures r@ == YEAR(), // [C19]
@constfn SEND_SIGTERM_BEFORE_DEADLINE
    ensures r@ == 60 * SEC(), // [C19]
@item struct CommandLineArguments
@dropfields url runnertypeid slurm_error_logfile disconnect_error_message
@item struct SigtermChildBeforeSchedulerDeadline
@fn still_accepting_tasks
@locals opt t
@prop C19
@ret r
@spec
    ensures
        r ==> told_to_stop(false) && (opt.max_time_accepting_tasks is Some ==> exists|now: int| #[trigger] clock_read(now) && accepts(opt.max_time_accepting_tasks, now, false)), // [C19]
        !r ==> told_to_stop(true) || (opt.max_time_accepting_tasks is Some && exists|now: int| #[trigger] clock_read(now) && !accepts(opt.max_time_accepting_tasks, now, false)), // [C19]
@fn SigtermChildBeforeSchedulerDeadline::new
@locals opt duration time_allocated_for_upload_and_stuff
@prop C19
@ret r
@spec
    ensures
        r.deadline@ == stop_at(opt.duration), // [C19]
        opt.duration is Some && opt.duration->0@ > 120 * SEC() ==> r.deadline@ <= start_time() + opt.duration->0@ - 60 * SEC(), // [C19] a minute before the end
        r.deadline@ <= start_time() + YEAR(), // [C19]
@hint fn-start
    proof { assert(YEAR() == 31_536_000 * 1_000_000_000) by (compute); }
