// ---- stand-ins of unit local ---------------------------------------------------------------------
/// what the runner does, in order
pub ghost enum Ev {
    Take { q: u32, v: nat },
    Spawn { how: How, child: Option<Proc> },
    Input { pipe: int, bytes: Seq<u8> },
    Clock { t: int },
    Started { v: nat, host: Str, pid: u32, job: Str },
    Told { since: int, state: CancellationState },
    Done { v: nat, status: ExitStatus, stdout: Str, stderr: Str, values: Seq<HashMap<String, String>> },
}
impl Cmd { #[verifier::external_body] pub fn call_preamble(&self) { unimplemented!() } }
// ---- the token, the tracker, the clock ------------------------------------------------------------------
pub enum CancellationState { CancelledAfterTime(Instant), HardCancelled }
#[verifier::external_body] pub struct CancellationToken { x: () }
impl CancellationToken {
    /// returns when work begun at t is to stop (unit token)
    #[verifier::external_body] pub fn soft_cancelled(&self, t: Instant, eff: &mut Eff) -> (r: CancellationState)
        ensures final(eff).hist() == old(eff).hist().push(Ev::Told { since: t@, state: r }), r is CancelledAfterTime ==> t@ > r->CancelledAfterTime_0@ { unimplemented!() }
    #[verifier::external_body] pub fn hard_cancelled(&self, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Told { since: 0, state: CancellationState::HardCancelled }) { unimplemented!() }
}
#[verifier::external_body] pub struct ReadyTrackerClientError { x: () }
#[verifier::external_body] pub struct ReadyTrackerClient { x: () }
/// unit claim
impl ReadyTrackerClient {
    /// the number of tasks
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body] pub fn recv(&self, q: u32, eff: &mut Eff) -> (r: Result<NodeIndex, ReadyTrackerClientError>)
        ensures r is Ok ==> r->Ok_0.ix < self.n() && final(eff).hist() == old(eff).hist().push(Ev::Take { q, v: r->Ok_0.ix as nat }), r is Err ==> final(eff).hist() == old(eff).hist() { unimplemented!() }
    #[verifier::external_body] pub fn send_started(&self, v: NodeIndex, cmd: &Cmd, host: &String, pid: u32, job: String, eff: &mut Eff)
        ensures final(eff).hist() == old(eff).hist().push(Ev::Started { v: v.ix as nat, host: host@, pid, job: job@ }) { unimplemented!() }
    #[verifier::external_body] pub fn send_finished(&self, e: FinishedEvent, eff: &mut Eff)
        ensures final(eff).hist() == old(eff).hist().push(Ev::Done { v: e.id.ix as nat, status: e.status, stdout: e.stdout@, stderr: e.stderr@, values: e.values@ }) { unimplemented!() }
}
