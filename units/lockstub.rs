// ---- stand-ins of unit lock: files as the kernel knows them, their names and their locks --------------------
pub use std::marker::PhantomData;
pub type Str = Seq<char>;
pub type Fid = (u64, u64);
/// the name .wrk.lock beside the log, and who has locked which file; a lock belongs to one opening of the file
pub struct World { pub linked: Option<Fid>, pub held: Map<Fid, int> }
impl World {
    pub open spec fn locked(&self, f: Fid, id: int) -> bool { self.held.contains_key(f) && self.held[f] == id }
    /// the opening id holds the lock of the file that has the name now
    pub open spec fn owner(&self, id: int) -> bool { self.linked is Some && self.locked(self.linked->0, id) }
}
// ---- what one system call of anybody does -------------------------------------------------------------------
pub open spec fn s_open(w: World, v: World) -> bool { v.held == w.held && (if w.linked is Some { v.linked == w.linked } else { v.linked is Some && !w.held.contains_key(v.linked->0) }) }
pub open spec fn s_lock(w: World, v: World, f: Fid, id: int) -> bool { v.linked == w.linked && !w.held.contains_key(f) && v.held == w.held.insert(f, id) }
pub open spec fn s_close(w: World, v: World, f: Fid, id: int) -> bool { v.linked == w.linked && (if w.locked(f, id) { v.held == w.held.remove(f) } else { v.held == w.held }) }
/// the name is removed; the contract of remove_file: only who holds its lock does that
pub open spec fn s_unlink(w: World, v: World, id: int) -> bool { w.owner(id) && v.linked is None && v.held == w.held }
pub open spec fn step(w: World, v: World, id: int) -> bool { s_open(w, v) || (exists|f: Fid| s_lock(w, v, f, id)) || (exists|f: Fid| s_close(w, v, f, id)) || s_unlink(w, v, id) || v == w }
/// what the others may have done in the meantime, for one who holds `mine`
pub open spec fn rely(w: World, v: World, mine: int) -> bool { (forall|f: Fid| w.locked(f, mine) ==> #[trigger] v.locked(f, mine)) && (w.owner(mine) ==> v.linked == w.linked) }
/// what anybody does under these contracts is what the others rely on
pub proof fn c22_guarantee(w: World, v: World, id: int, other: int) requires step(w, v, id), id != other ensures rely(w, v, other) {}
pub proof fn c22_rely_goes_on(w: World, v: World, u: World, id: int) requires rely(w, v, id), rely(v, u, id) ensures rely(w, u, id), w.owner(id) ==> u.owner(id) {
    assert(forall|f: Fid| w.locked(f, id) ==> v.locked(f, id));
}
/// so of two executions that both may write, there is only one
pub proof fn c22_exclusive(w: World, a: int, b: int) requires w.owner(a), w.owner(b) ensures a == b {}
/// and while one has the log open, no other gets it (new gives it only to an owner)
pub proof fn c22_refused(w: World, v: World, a: int, b: int) requires w.owner(a), rely(w, v, a), v.owner(b) ensures a == b {
    assert(v.locked(w.linked->0, a));
}
#[verifier::external_body] pub struct Eff { x: () }
impl Eff {
    pub uninterp spec fn w(&self) -> World;
    /// nothing of this process's log is left to write
    pub uninterp spec fn quiet(&self) -> bool;
    pub open spec fn goes(&self, o: &Eff) -> bool { (forall|id: int| #[trigger] mine(id) ==> rely(o.w(), self.w(), id)) && (o.quiet() ==> self.quiet()) }
    /// this process may write the log
    pub open spec fn may_write(&self) -> bool { exists|id: int| #[trigger] mine(id) && self.w().owner(id) }
}
pub uninterp spec fn mine(id: int) -> bool;
// ---- errors -------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ErrorKind { NotFound, Other }
#[verifier::external_body] pub struct Error { x: () }
impl Error {
    #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() }
}
#[verifier::external_body] pub struct FileLockError { x: () }
impl From<Error> for LogfileError { #[verifier::external_body] fn from(e: Error) -> (r: LogfileError) { unimplemented!() } }
impl From<FileLockError> for LogfileError { #[verifier::external_body] fn from(e: FileLockError) -> (r: LogfileError) { unimplemented!() } }
// ---- paths --------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct PathBuf { x: () }
pub uninterp spec fn p_named(p: PathBuf, s: Str) -> PathBuf;
/// it is the name of the lock file
pub open spec fn is_lock(p: PathBuf) -> bool { exists|q: PathBuf| p == #[trigger] p_named(q, ".wrk.lock"@) }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &PathBuf) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, Error>) { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name(&self, s: &str) -> (r: PathBuf) ensures r == p_named(*self, s@) { unimplemented!() }
}
// ---- files --------------------------------------------------------------------------------------------------
pub enum FileLockMode { Exclusive, Shared }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body] pub struct Metadata { x: () }
impl Metadata {
    pub uninterp spec fn fid(&self) -> Fid;
    #[verifier::external_body] pub fn dev(&self) -> (r: u64) ensures r == self.fid().0 { unimplemented!() }
    #[verifier::external_body] pub fn ino(&self) -> (r: u64) ensures r == self.fid().1 { unimplemented!() }
}
#[verifier::external_body] pub struct File { x: () }
impl File {
    /// this opening of the file
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn fid(&self) -> Fid;
    #[verifier::external_body] pub fn try_lock(&self, m: FileLockMode, eff: &mut Eff) -> (r: Result<(), FileLockError>) ensures final(eff).goes(old(eff)), r is Ok && m is Exclusive ==> final(eff).w().locked(self.fid(), self.id()) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self, eff: &mut Eff) -> (r: Result<Metadata, Error>) ensures final(eff).goes(old(eff)), r is Ok ==> r->Ok_0.fid() == self.fid() { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, m: SeekFrom, eff: &mut Eff) -> (r: Result<u64, Error>) ensures final(eff).goes(old(eff)), final(self).id() == old(self).id(), final(self).fid() == old(self).fid() { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&mut self, n: u64, eff: &mut Eff) -> (r: Result<(), Error>) requires old(eff).may_write() ensures final(eff).goes(old(eff)), final(self).id() == old(self).id(), final(self).fid() == old(self).fid() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8; 1], eff: &mut Eff) -> (r: Result<(), Error>) requires old(eff).may_write() ensures final(eff).goes(old(eff)), final(self).id() == old(self).id(), final(self).fid() == old(self).fid() { unimplemented!() }
}
#[verifier::external_body] pub fn metadata(p: &PathBuf, eff: &mut Eff) -> (r: Result<Metadata, Error>) ensures final(eff).goes(old(eff)), r is Ok && is_lock(*p) ==> final(eff).w().linked == Some(r->Ok_0.fid()) { unimplemented!() }
/// only who holds the lock of the file that has the name removes it, and only when it has nothing left to write
#[verifier::external_body] pub fn remove_file(p: &PathBuf, eff: &mut Eff) -> (r: Result<(), Error>)
    requires is_lock(*p) ==> old(eff).may_write() && old(eff).quiet(), { unimplemented!() }
#[verifier::external_body] pub struct OpenOptions { x: () }
impl OpenOptions {
    pub uninterp spec fn writes(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: OpenOptions) ensures !r.writes() { unimplemented!() }
    #[verifier::external_body] pub fn read(self, b: bool) -> (r: OpenOptions) ensures r.writes() == self.writes() { unimplemented!() }
    #[verifier::external_body] pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.writes() == (self.writes() || b) { unimplemented!() }
    #[verifier::external_body] pub fn append(self, b: bool) -> (r: OpenOptions) ensures r.writes() == (self.writes() || b) { unimplemented!() }
    #[verifier::external_body] pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.writes() == self.writes() { unimplemented!() }
    #[verifier::external_body] pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r.writes() == self.writes() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.writes() == self.writes() { unimplemented!() }
    /// the log is opened for writing only by an owner
    #[verifier::external_body] pub fn open(self, p: &PathBuf, eff: &mut Eff) -> (r: Result<File, Error>)
        requires self.writes() && !is_lock(*p) ==> old(eff).may_write(),
        ensures final(eff).goes(old(eff)), r is Ok ==> mine(r->Ok_0.id()) { unimplemented!() }
}
#[verifier::external_body] pub struct LogStream { x: () }
impl LogStream {
    #[verifier::external_body] pub fn new_reader(f: File) -> (r: LogStream) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self, eff: &mut Eff) -> (r: Result<(), Error>) requires old(eff).may_write() ensures final(eff).goes(old(eff)), r is Ok ==> final(eff).quiet() { unimplemented!() }
}
#[verifier::external_body] pub struct LockFile { x: () }
impl LockFile {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn fid(&self) -> Fid;
    #[verifier::external_body] pub fn flush(&mut self, eff: &mut Eff) -> (r: Result<(), Error>) ensures final(eff).goes(old(eff)), final(self).id() == old(self).id(), final(self).fid() == old(self).fid() { unimplemented!() }
}
pub struct BufWriter { x: () }
impl BufWriter { #[verifier::external_body] pub fn new(f: File) -> (r: LockFile) ensures r.id() == f.id(), r.fid() == f.fid() { unimplemented!() } }
#[verifier::external_body] pub fn to_writer(w: &mut LockFile, e: &LogEntry) -> (r: Result<(), Error>) ensures final(w).id() == old(w).id(), final(w).fid() == old(w).fid() { unimplemented!() }
/// an explicit drop of the lock gives it up
pub trait VxDrop { spec fn gives_up(&self) -> bool; }
impl VxDrop for LockFile { open spec fn gives_up(&self) -> bool { true } }
impl VxDrop for File { open spec fn gives_up(&self) -> bool { true } }
impl VxDrop for Option<(LockFile, PathBuf)> { open spec fn gives_up(&self) -> bool { true } }
impl<T, E> VxDrop for Result<T, E> { open spec fn gives_up(&self) -> bool { false } }
#[verifier::external_body] pub fn drop<T: VxDrop>(x: T, eff: &mut Eff) ensures !x.gives_up() ==> final(eff).w() == old(eff).w() && final(eff).quiet() == old(eff).quiet() { unimplemented!() }
