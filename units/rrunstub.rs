// ---- stand-ins of unit rrun: the controller, as the remote runner sees it ---------------------------
pub ghost enum Msg { Start(StartRequest), Begun(BegunRequest), End(EndRequest), Ping(Ping), StartR(StartResponse), EndR(EndResponse) }
/// what the runner does, in order
pub ghost enum Ev {
    Spawn { how: How, child: Option<Proc> },
    Input { pipe: int, bytes: Seq<u8> },
    Clock { t: int },
    Sent { route: Str, msg: Msg },
    Heard { msg: Msg },
    Waited,
    /// from here on the runner waits for the clock to reach t, next to whatever else it waits for
    Armed { t: int },
    Slept { t: int },
    Slurm,
    Kill { pid: int, sig: int },
    Asked { yes: bool },
}
/// when the child is asked to stop: verified in unit remote
pub uninterp spec fn stop_at(opt: CommandLineArguments) -> int;
/// what the controller sends: a task has a command line (unit execgraph: add_task refuses an empty one; unit server: it is sent as it is)
pub open spec fn sane(m: Msg) -> bool { match m { Msg::StartR(r) => r.cmdline@.len() > 0, Msg::EndR(r) => r.start_response is Some ==> r.start_response->0.cmdline@.len() > 0, _ => true } }
pub trait VxMsg: Sized { spec fn msg(self) -> Msg; }
impl VxMsg for StartRequest { open spec fn msg(self) -> Msg { Msg::Start(self) } }
impl VxMsg for BegunRequest { open spec fn msg(self) -> Msg { Msg::Begun(self) } }
impl VxMsg for EndRequest { open spec fn msg(self) -> Msg { Msg::End(self) } }
impl VxMsg for Ping { open spec fn msg(self) -> Msg { Msg::Ping(self) } }
impl VxMsg for StartResponse { open spec fn msg(self) -> Msg { Msg::StartR(self) } }
impl VxMsg for EndResponse { open spec fn msg(self) -> Msg { Msg::EndR(self) } }
#[verifier::external_body] pub struct Url { x: () }
impl View for Url { type V = Str; uninterp spec fn view(&self) -> Str; }
impl Url { #[verifier::external_body] pub fn join(&self, s: &str) -> (r: Result<Url, UrlError>) ensures r is Ok ==> r->Ok_0@ == s@ { unimplemented!() } }
#[verifier::external_body] pub struct UrlError { x: () }
#[verifier::external_body] pub struct ReqwestError { x: () }
pub enum RemoteError { PingTimeout(String), Sigterm, Other }
impl From<UrlError> for RemoteError { #[verifier::external_body] fn from(e: UrlError) -> (r: RemoteError) { unimplemented!() } }
impl From<ReqwestError> for RemoteError { #[verifier::external_body] fn from(e: ReqwestError) -> (r: RemoteError) { unimplemented!() } }
impl From<AnyhowError> for RemoteError { #[verifier::external_body] fn from(e: AnyhowError) -> (r: RemoteError) { unimplemented!() } }
impl From<ChildProcessError> for RemoteError { #[verifier::external_body] fn from(e: ChildProcessError) -> (r: RemoteError) { unimplemented!() } }
#[verifier::external_body] pub struct Client { x: () }
pub struct RequestBuilder { pub route: Ghost<Str>, pub body: Ghost<Option<Msg>> }
#[verifier::external_body] pub struct Response { x: () }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum StatusCode { OK, Other }
impl Client {
    #[verifier::external_body] pub fn get(&self, u: Url) -> (r: RequestBuilder) ensures r.route@ == u@, r.body@ is None { unimplemented!() }
    #[verifier::external_body] pub fn post(&self, u: Url) -> (r: RequestBuilder) ensures r.route@ == u@, r.body@ is None { unimplemented!() }
}
impl RequestBuilder {
    #[verifier::external_body] pub fn postcard<T: VxMsg>(self, m: &T, eff: &mut Eff) -> (r: Result<RequestBuilder, AnyhowError>) ensures *final(eff) == *old(eff), r is Ok ==> r->Ok_0.route == self.route && r->Ok_0.body@ == Some((*m).msg()) { unimplemented!() }
    /// it may have arrived also when no answer came
    #[verifier::external_body] pub fn send(self, eff: &mut Eff) -> (r: Result<Response, ReqwestError>)
        requires self.body@ is Some
        ensures final(eff).hist() == old(eff).hist().push(Ev::Sent { route: self.route@, msg: self.body@->0 }) { unimplemented!() }
}
impl Response {
    #[verifier::external_body] pub fn status(&self) -> StatusCode { unimplemented!() }
    #[verifier::external_body] pub fn error_for_status(self) -> Result<Response, ReqwestError> { unimplemented!() }
    #[verifier::external_body] pub fn postcard<T: VxMsg>(self, eff: &mut Eff) -> (r: Result<T, AnyhowError>)
        ensures r is Ok ==> sane(r->Ok_0.msg()) && final(eff).hist() == old(eff).hist().push(Ev::Heard { msg: r->Ok_0.msg() }), r is Err ==> final(eff).hist() == old(eff).hist() { unimplemented!() }
}
pub trait VxCtx { type O; spec fn good(&self) -> bool; spec fn got(&self) -> Self::O;
    fn context(self, s: &str) -> (r: Result<Self::O, AnyhowError>) where Self: Sized ensures r is Ok <==> self.good(), r is Ok ==> r->Ok_0 == self.got(); }
impl<T, E> VxCtx for Result<T, E> { type O = T; open spec fn good(&self) -> bool { self is Ok } open spec fn got(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn context(self, s: &str) -> (r: Result<T, AnyhowError>) { unimplemented!() } }
#[verifier::external_body] pub struct CancellationToken { x: () }
#[verifier::external_body] pub struct DropGuard { x: () }
impl CancellationToken {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn drop_guard(self) -> DropGuard { unimplemented!() }
    #[verifier::external_body] pub fn cancel(&self) { unimplemented!() }
    #[verifier::external_body] pub fn cancelled(&self) { unimplemented!() }
}
#[verifier::external_body] pub struct PongSender { x: () }
#[verifier::external_body] pub struct PongReceiver { x: () }
#[verifier::external_body] #[derive(Debug)] pub struct SendError { x: u8 }
#[verifier::external_body] pub fn bounded<T>(n: usize) -> (PongSender, PongReceiver) { unimplemented!() }
impl PongSender { #[verifier::external_body] pub fn send(&self, x: (), eff: &mut Eff) -> (r: Result<(), SendError>) ensures *final(eff) == *old(eff) { unimplemented!() } }
impl PongReceiver { #[verifier::external_body] pub fn recv(&self, eff: &mut Eff) -> (r: Result<(), SendError>) ensures *final(eff) == *old(eff) { unimplemented!() } }
/// the file in which the cluster says why it ends the job
#[verifier::external_body] pub struct SlurmReceiver { x: () }
impl SlurmReceiver { #[verifier::external_body] pub fn recv(&mut self, eff: &mut Eff) -> (r: Option<String>) ensures final(eff).hist() == old(eff).hist().push(Ev::Slurm) { unimplemented!() } }
#[verifier::external_body] pub struct Interval { x: () }
#[verifier::external_body] pub fn interval_at(t: Instant, d: Duration) -> Interval { unimplemented!() }
impl Interval { #[verifier::external_body] pub fn tick(&mut self) { unimplemented!() } #[verifier::external_body] pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) { unimplemented!() } }
pub enum MissedTickBehavior { Delay, Burst, Skip }
#[verifier::external_body] pub struct Elapsed { x: () }
#[verifier::external_body] pub fn vx_timeout<T>(d: Duration, x: T) -> (r: Result<T, Elapsed>) ensures r is Ok ==> r->Ok_0 == x { unimplemented!() }
#[verifier::external_body] pub fn sleep_until(t: Instant, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Slept { t: t@ }) { unimplemented!() }
pub const SIGTERM: i32 = 15;
pub const SIGKILL: i32 = 9;
#[verifier::external_body] pub fn kill(pid: i32, sig: i32, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Kill { pid: pid as int, sig: sig as int }) { unimplemented!() }
pub trait VxInto { fn vx_try_into(self) -> (r: Result<i32, IoError>) where Self: Sized; }
impl VxInto for u32 { #[verifier::external_body] fn vx_try_into(self) -> (r: Result<i32, IoError>) ensures r is Ok ==> r->Ok_0 == self { unimplemented!() } }
impl VxClone for Url { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for Client { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for CancellationToken { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for PongSender { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for String { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl MulSpecImpl<Duration> for u32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, b: Duration) -> bool { true } open spec fn mul_spec(self, b: Duration) -> Duration { mkdur(self * b@) } }
impl core::ops::Mul<Duration> for u32 { type Output = Duration; #[verifier::external_body] fn mul(self, b: Duration) -> Duration { unimplemented!() } }
impl Default for TimingInfo { #[verifier::external_body] fn default() -> TimingInfo { unimplemented!() } }
/// what format! makes of two texts and no more is the one after the other
pub broadcast axiom fn fmt2_is_concat(f: Str, a: Seq<Str>) requires f == "{}{}"@, a.len() == 2 ensures #[trigger] vx_fmt(f, a) == a[0] + a[1];
impl VxShow for OsString { open spec fn vx_show(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn vx_armed_sleep_until(t: Instant, eff: &mut Eff) ensures final(eff).hist() == old(eff).hist().push(Ev::Armed { t: t@ }) { unimplemented!() }
impl AddAssignSpecImpl<TimingInfo> for TimingInfo { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: TimingInfo) -> bool { true } open spec fn add_assign_spec(&self, o: TimingInfo) -> &TimingInfo { self } }
impl core::ops::AddAssign for TimingInfo { #[verifier::external_body] fn add_assign(&mut self, o: TimingInfo) { unimplemented!() } }
