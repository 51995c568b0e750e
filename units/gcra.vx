@unit gcra
@include prelude.rs
@include time.rs
@include atomics.rs
@defattr #[verifier::loop_isolation(false)]
@source src/time/gcra.rs
@item const NANOS_PER_SEC
@item const PERIOD
@item struct RateLimiter
@field tau AtomicU64<TauInv>
@field tat AtomicU64<TatInv>
@text
pub open spec fn spec_tau(r: int) -> int { if r == 0 { 0 } else { PERIOD as int / r } }
pub open spec fn smax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// one step of the limiter: (new tat, waiting time), waiting time 0 = admitted
pub open spec fn gcra_step(now: int, tat: int, tau: int, cost: int) -> (int, int) {
    if tau == 0 { (tat, 0) } else {
        let t = smax(tat, now);
        let n = t + tau * cost;
        if n - PERIOD > now { (t, n - PERIOD - now) } else { (n, 0) }
    }
}
/// the values the clock is assumed to give: at least one second, less than 2^62 ns (146 years) after boot
pub open spec fn clock_ok(n: int) -> bool { PERIOD <= n < 0x4000_0000_0000_0000 }
pub open spec fn tat_ok(t: int) -> bool { 0 <= t < 0x4000_0000_0000_0000 + PERIOD + PERIOD }
/// what compute returned for one claim of `cost` at some clock reading
pub open spec fn step_done(l: &RateLimiter, now: int, tat: u64, tau: u64, cost: int, new: u64, wait: int) -> bool {
    clock_ok(now) && (new as int, wait) == gcra_step(now, tat as int, tau as int, cost) && l.tat.cas_done(tat, new)
}
pub open spec fn admitted(l: &RateLimiter) -> bool {
    exists|now: int, tat: u64, tau: u64, new: u64| step_done(l, now, tat, tau, 1, new, 0)
}
pub struct TauInv; impl AtInv for TauInv { open spec fn ok(v: int) -> bool { 0 <= v <= PERIOD } }
pub struct TatInv; impl AtInv for TatInv { open spec fn ok(v: int) -> bool { tat_ok(v) } }
// ---- C12 over histories -------------------------------------------------------------------------
// A history is a sequence of claims; claim i reads the clock at now[i] and moves tat[i] to tat[i+1].
pub struct Claim { pub now: int, pub ok: bool }
pub open spec fn hist_ok(h: Seq<Claim>, tat: Seq<int>, tau: int) -> bool {
    &&& tat.len() == h.len() + 1
    &&& forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i].now >= 0 && {
        let s = gcra_step(h[i].now, tat[i], tau, 1);
        tat[i + 1] == s.0 && h[i].ok == (s.1 == 0)
    }
}
pub open spec fn count_ok(h: Seq<Claim>) -> int decreases h.len() {
    if h.len() == 0 { 0 } else { count_ok(h.drop_last()) + if h.last().ok { 1int } else { 0 } }
}
pub proof fn rate_bound_aux(h: Seq<Claim>, tat: Seq<int>, tau: int, a: int, b: int)
    requires hist_ok(h, tat, tau), tau > 0, tau <= PERIOD, forall|i: int| 0 <= i < h.len() ==> a <= (#[trigger] h[i]).now <= b,
    ensures count_ok(h) > 0 ==> tat[h.len() as int] >= a + count_ok(h) * tau,
        count_ok(h) * tau <= (b - a) + PERIOD || count_ok(h) == 0, count_ok(h) >= 0,
    decreases h.len()
{
    reveal_with_fuel(count_ok, 2);
    if h.len() > 0 {
        let h2 = h.drop_last();
        let t2 = tat.drop_last();
        assert(hist_ok(h2, t2, tau)) by {
            assert forall|i: int| 0 <= i < h2.len() implies #[trigger] h2[i].now >= 0 && ({
                let s = gcra_step(h2[i].now, t2[i], tau, 1);
                t2[i + 1] == s.0 && h2[i].ok == (s.1 == 0) }) by { assert(h2[i] == h[i]); }
        }
        assert(forall|i: int| 0 <= i < h2.len() ==> h2[i] == h[i]);
        rate_bound_aux(h2, t2, tau, a, b);
        let n = h.len() - 1;
        assert(h[n].now >= 0);
        let c2 = count_ok(h2);
        assert((c2 + 1) * tau == c2 * tau + tau) by (nonlinear_arith);
        assert(t2[h2.len() as int] == tat[n]);
        assert(0 * tau == 0);
    }
}
/// Any number of claims made between clock readings a and b: the admitted ones are at most
/// ((b - a) + one second) / tau, i.e. T/tau plus a burst of one second's worth.
pub proof fn c12_rate_bound(h: Seq<Claim>, tat: Seq<int>, r: int, a: int, b: int)
    requires 1 <= r <= PERIOD, hist_ok(h, tat, spec_tau(r)), a <= b, forall|i: int| 0 <= i < h.len() ==> a <= (#[trigger] h[i]).now <= b,
    ensures count_ok(h) * spec_tau(r) <= (b - a) + PERIOD
{
    let tau = PERIOD as int / r;
    assert(tau >= 1 && tau <= PERIOD) by (nonlinear_arith) requires tau == 1_000_000_000int / r, 1 <= r <= 1_000_000_000;
    rate_bound_aux(h, tat, tau, a, b);
    assert(count_ok(h) == 0 ==> count_ok(h) * tau == 0) by (nonlinear_arith);
}
/// A refused claim is admitted after the returned waiting time when nothing was admitted meanwhile.
pub proof fn c12_retry(now: int, tat: int, tau: int)
    requires 0 < tau <= PERIOD, gcra_step(now, tat, tau, 1).1 > 0,
    ensures ({ let (t, w) = gcra_step(now, tat, tau, 1); gcra_step(now + w, t, tau, 1).1 == 0 })
{ }
/// Right after a change of rate to r the bucket is empty (to r ns).
pub proof fn c12_reset(now: int, r: int)
    requires 1 <= r <= PERIOD
    ensures spec_tau(r) * r <= PERIOD, spec_tau(r) * r > PERIOD - r
{
    let tau = PERIOD as int / r;
    assert(tau * r <= 1_000_000_000 && tau * r > 1_000_000_000 - r) by (nonlinear_arith) requires tau == 1_000_000_000int / r, 1 <= r;
}
@fn now trusted free
@ret r
@spec
    ensures clock_ok(r as int)
@fn RateLimiter::new
@locals rate_per_second tau tat
@ret r
@spec
    requires rate_per_second <= PERIOD
    ensures r.tau.init() == spec_tau(rate_per_second as int), clock_ok(r.tat.init() - spec_tau(rate_per_second as int) * rate_per_second), tat_ok(r.tat.init() as int)
@hint fn-start
    proof { if rate_per_second > 0 { c12_reset(0, rate_per_second as int); } else { assert(0 * rate_per_second == 0); } }
@fn RateLimiter::reset
@locals rate_per_second tau tat
@spec
    requires rate_per_second <= PERIOD
    ensures self.tau.stored(spec_tau(rate_per_second as int) as u64),
        exists|t: u64| #[trigger] self.tat.stored(t) && clock_ok(t - spec_tau(rate_per_second as int) * rate_per_second)
@hint fn-start
    proof { if rate_per_second > 0 { c12_reset(0, rate_per_second as int); } else { assert(0 * rate_per_second == 0); } }
@fn RateLimiter::rate_per_second
@locals tau
@ret r
@spec
    ensures exists|tau: u64| self.tau.loaded(tau) && r == (if tau == 0 { 0int } else { PERIOD as int / tau as int })
@fn RateLimiter::compute_raw
@locals now tat tau cost increment burst_offset tat new_tat allow_at
@ret r
@spec
    requires clock_ok(now as int), tat_ok(tat as int), tau * cost <= PERIOD
    ensures (r.0 as int, r.1@) == gcra_step(now as int, tat as int, tau as int, cost as int)
@fn RateLimiter::compute
@locals cost now tau tat new_tat retry_in
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires cost == 1
    ensures exists|now: int, tat: u64, tau: u64, new: u64| step_done(self, now, tat, tau, cost as int, new, r@)
@hint before-return 0
    proof { assert(step_done(self, now as int, tat, tau, cost as int, new_tat, vx_ret@)); }
@fn RateLimiter::until_ready
@locals retry_in
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    ensures admitted(self)
@text
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
