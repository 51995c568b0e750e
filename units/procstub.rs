// ---- stand-ins of units local and rrun: processes, pipes, what a runner does ----------------------------
#[verifier::external_body] pub struct OsString { x: () }
impl View for OsString { type V = Str; uninterp spec fn view(&self) -> Str; }
impl OsString { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: VxText) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct VxText { x: () }
impl View for VxText { type V = Str; uninterp spec fn view(&self) -> Str; }
impl VxText { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
/// the name of this machine
pub uninterp spec fn this_host() -> Str;
#[verifier::external_body] pub fn gethostname() -> (r: OsString) ensures r@ == this_host() { unimplemented!() }
pub trait VxSl<T> { spec fn sl(&self) -> Seq<T>; fn vx_slice_from(&self, a: usize) -> (r: &[T]) requires a <= self.sl().len() ensures r@ == self.sl().skip(a as int); }
impl<T> VxSl<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_slice_from(&self, a: usize) -> (r: &[T]) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for Option<(i32, Vec<u8>)> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// ---- pipes ------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct IoError { x: () }
/// an end of a pipe: which pipe, and whether the writing end
pub struct End { pub pipe: int, pub write: bool }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct RawFd { x: () }
impl View for RawFd { type V = End; uninterp spec fn view(&self) -> End; }
/// the reading end of a pipe (the streams of a child as well)
#[verifier::external_body] pub struct PipeRead { x: () }
#[verifier::external_body] pub struct PipeWrite { x: () }
/// everything written to the pipe until its last writing end was closed
pub uninterp spec fn written(pipe: int) -> Seq<u8>;
impl PipeRead {
    pub uninterp spec fn pipe(&self) -> int;
    #[verifier::external_body] pub fn as_raw_fd(&self) -> (r: RawFd) ensures r@ == (End { pipe: self.pipe(), write: false }) { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(self).pipe() == old(self).pipe(), r is Ok ==> final(b)@ == old(b)@ + written(old(self).pipe()) { unimplemented!() }
}
impl PipeWrite {
    pub uninterp spec fn pipe(&self) -> int;
    #[verifier::external_body] pub fn as_raw_fd(&self) -> (r: RawFd) ensures r@ == (End { pipe: self.pipe(), write: true }) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &Vec<u8>, eff: &mut Eff) -> (r: Result<(), IoError>)
        ensures final(self).pipe() == old(self).pipe(), final(eff).hist() == old(eff).hist().push(Ev::Input { pipe: old(self).pipe(), bytes: b@ }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_pipe() -> (r: Result<(PipeRead, PipeWrite), IoError>) ensures r is Ok ==> (r->Ok_0).0.pipe() == (r->Ok_0).1.pipe() { unimplemented!() }
// ---- processes ----------------------------------------------------------------------------------------
#[derive(Clone, Copy)] pub enum Stdio { Inherit, Piped, Null }
impl Stdio {
    pub fn inherit() -> (r: Self) ensures r is Inherit { Stdio::Inherit }
    pub fn piped() -> (r: Self) ensures r is Piped { Stdio::Piped }
    pub fn null() -> (r: Self) ensures r is Null { Stdio::Null }
}
pub struct FdMapping { pub parent_fd: RawFd, pub child_fd: i32 }
pub type Fds = Map<int, End>;
pub open spec fn map_of(s: Seq<FdMapping>) -> Fds decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().child_fd as int, s.last().parent_fd@) } }
pub open spec fn distinct(s: Seq<FdMapping>) -> bool decreases s.len() { s.len() == 0 || (distinct(s.drop_last()) && !map_of(s.drop_last()).contains_key(s.last().child_fd as int)) }
pub broadcast proof fn map_of_push(s: Seq<FdMapping>, x: FdMapping)
    ensures #[trigger] map_of(s.push(x)) == map_of(s).insert(x.child_fd as int, x.parent_fd@), distinct(s.push(x)) == (distinct(s) && !map_of(s).contains_key(x.child_fd as int))
{ assert(s.push(x).drop_last() =~= s); }
/// what a process is started with: program, arguments, standard streams, further descriptors, whether it dies with its handle
pub ghost struct How { pub prog: Str, pub args: Seq<OsString>, pub stdin: Stdio, pub stdout: Stdio, pub stderr: Stdio, pub fds: Fds, pub dies: bool }
/// a started process: its id, how it ends, what it prints (nothing where the stream is not captured)
#[verifier::external_body] pub struct Proc { x: () }
impl Proc {
    pub uninterp spec fn pid(&self) -> u32;
    pub uninterp spec fn exit(&self) -> ProcStatus;
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn err(&self) -> Seq<u8>;
}
#[verifier::external_body] pub struct Command { x: () }
pub trait VxArgs { spec fn list(&self) -> Seq<OsString>; }
impl VxArgs for &[OsString] { open spec fn list(&self) -> Seq<OsString> { (**self)@ } }
impl VxArgs for &Vec<OsString> { open spec fn list(&self) -> Seq<OsString> { (**self)@ } }
impl Command {
    pub uninterp spec fn how(&self) -> How;
    /// no two mappings are for the same descriptor
    pub uninterp spec fn bound(&self) -> bool;
    #[verifier::external_body] pub fn new(p: &OsString) -> (r: Command) ensures r.how() == (How { prog: p@, args: Seq::empty(), stdin: Stdio::Inherit, stdout: Stdio::Inherit, stderr: Stdio::Inherit, fds: Map::empty(), dies: false }) { unimplemented!() }
    #[verifier::external_body] pub fn args<A: VxArgs>(&mut self, a: A) -> (r: &mut Command) ensures r.how() == (How { args: old(self).how().args + a.list(), ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn arg(&mut self, a: &OsString) -> (r: &mut Command) ensures r.how() == (How { args: old(self).how().args.push(*a), ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn kill_on_drop(&mut self, b: bool) -> (r: &mut Command) ensures r.how() == (How { dies: b, ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command) ensures r.how() == (How { stdin: s, ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command) ensures r.how() == (How { stdout: s, ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command) ensures r.how() == (How { stderr: s, ..old(self).how() }), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn fd_mappings(&mut self, m: Vec<FdMapping>) -> (r: Result<&mut Command, FdMappingCollision>)
        ensures r is Ok ==> distinct(m@) && r->Ok_0.how() == (How { fds: map_of(m@), ..old(self).how() }) && *final(self) == *final(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn spawn(&mut self, eff: &mut Eff) -> (r: Result<Child, IoError>)
        ensures final(self).how() == old(self).how(),
            r is Ok ==> final(eff).hist() == old(eff).hist().push(Ev::Spawn { how: old(self).how(), child: Some(r->Ok_0.p) }) && child_wf(r->Ok_0, old(self).how()),
            r is Err ==> final(eff).hist() == old(eff).hist().push(Ev::Spawn { how: old(self).how(), child: None }) { unimplemented!() }
}
#[verifier::external_body] pub struct FdMappingCollision { x: () }
pub struct Child { pub stdin: Option<PipeWrite>, pub stdout: Option<PipeRead>, pub stderr: Option<PipeRead>, pub p: Proc }
pub open spec fn child_wf(c: Child, how: How) -> bool {
    &&& c.stdout is Some <==> how.stdout is Piped
    &&& c.stderr is Some <==> how.stderr is Piped
    &&& captured(c.stdout) == c.p.out() && captured(c.stderr) == c.p.err()
}
/// the bytes that come out of a stream, none if there is none
pub open spec fn captured(s: Option<PipeRead>) -> Seq<u8> { match s { Some(r) => written(r.pipe()), None => Seq::empty() } }
impl Child {
    #[verifier::external_body] pub fn id(&self) -> (r: Option<u32>) ensures r is Some ==> r->0 == self.p.pid() { unimplemented!() }
    #[verifier::external_body] pub fn wait(&mut self) -> (r: Result<ProcStatus, IoError>) ensures r is Ok ==> r->Ok_0 == old(self).p.exit(), *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] pub fn try_join4<A, B, C, D, E>(a: Result<A, E>, b: Result<B, E>, c: Result<C, E>, d: Result<D, E>) -> (r: Result<(A, B, C, D), E>)
    ensures r is Ok <==> a is Ok && b is Ok && c is Ok && d is Ok, r is Ok ==> r->Ok_0 == (a->Ok_0, b->Ok_0, c->Ok_0, d->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn vx_spawn<T>(x: T) { unimplemented!() }
#[verifier::external_body] pub fn drop<T>(x: T) ensures has_resolved::<T>(x) { unimplemented!() }
#[verifier::external_body] pub struct ChildProcessError { x: () }
impl From<IoError> for ChildProcessError { #[verifier::external_body] fn from(e: IoError) -> (r: ChildProcessError) { unimplemented!() } }
#[verifier::external_body] pub fn vx_now(eff: &mut Eff) -> (r: Instant) ensures final(eff).hist() == old(eff).hist().push(Ev::Clock { t: r@ }) { unimplemented!() }
#[verifier::external_body] pub struct Eff { x: () }
impl Eff { pub uninterp spec fn hist(&self) -> Seq<Ev>; }
