// The log file: entries, their lines, and the state they stand for; files and readers are stand-ins.
pub use std::marker::PhantomData;
pub type Str = Seq<char>;
pub type ValueMaps = Vec<std::collections::HashMap<String, String>>;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SystemTime { x: () }
#[verifier::external_body] pub struct Error { x: () }
impl Error {
    /// it tells of a fault outside the program: of the disk, of a permission
    pub uninterp spec fn io(&self) -> bool;
    /// the parser met the end of its input
    pub uninterp spec fn eof(&self) -> bool;
    #[verifier::external_body] pub fn is_data(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() }
    #[verifier::external_body] pub fn is_eof(&self) -> (r: bool) ensures r == self.eof() { unimplemented!() }
}
#[verifier::external_body] pub struct FileLockError { x: () }
/// how `?` converts an error (the derived From implementations of LogfileError)
pub broadcast axiom fn err_from(e: Error, r: LogfileError) requires #[trigger] vstd::std_specs::control_flow::spec_from::<LogfileError, Error>(e, r) ensures e.io() ==> r is IoError, !e.io() ==> r is JsonError;
pub broadcast axiom fn lock_from(e: FileLockError, r: LogfileError) requires #[trigger] vstd::std_specs::control_flow::spec_from::<LogfileError, FileLockError>(e, r) ensures r is IoError || r is AlreadyLocked;
impl From<Error> for LogfileError { #[verifier::external_body] fn from(e: Error) -> (r: LogfileError) { unimplemented!() } }
impl From<FileLockError> for LogfileError { #[verifier::external_body] fn from(e: FileLockError) -> (r: LogfileError) ensures r is IoError || r is AlreadyLocked { unimplemented!() } }
// ---- paths -----------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct PathBuf { x: () }
pub uninterp spec fn p_abs(p: PathBuf) -> bool;
pub uninterp spec fn p_parent(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn p_join(p: PathBuf, q: PathBuf) -> PathBuf;
pub uninterp spec fn p_named(p: PathBuf, s: Str) -> PathBuf;
pub uninterp spec fn p_canon(p: PathBuf) -> PathBuf;
pub uninterp spec fn p_leaf(s: Str) -> PathBuf;
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
pub trait VxPathLike { spec fn as_path(&self) -> PathBuf; }
impl VxPathLike for PathBuf { open spec fn as_path(&self) -> PathBuf { *self } }
impl<'a> VxPathLike for &'a PathBuf { open spec fn as_path(&self) -> PathBuf { **self } }
impl PathBuf {
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == p_abs(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>) ensures r is Some <==> p_parent(*self) is Some, r is Some ==> *(r->0) == p_parent(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn join<Q: VxPathLike>(&self, q: Q) -> (r: PathBuf) ensures r == p_join(*self, q.as_path()) { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &PathBuf) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, Error>) ensures r is Ok ==> r->Ok_0 == p_canon(*self), r is Err ==> r->Err_0.io() { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name(&self, s: &str) -> (r: PathBuf) { unimplemented!() }
}
// ---- entries and their lines -----------------------------------------------------------------------------
impl Clone for HeaderEntry { #[verifier::external_body] fn clone(&self) -> (r: HeaderEntry) ensures r == *self { unimplemented!() } }
impl Clone for RuncountStatus { #[verifier::external_body] fn clone(&self) -> (r: RuncountStatus) ensures r == *self { unimplemented!() } }
pub type Bytes = Seq<u8>;
pub const NL: u8 = 10;
pub uninterp spec fn json(e: LogEntry) -> Bytes;
pub uninterp spec fn parse(s: Bytes) -> Option<LogEntry>;
/// the parser met the end of s in the middle of a value
pub uninterp spec fn torn(s: Bytes) -> bool;
/// the serializer writes an entry as one line, from which the parser reads the same entry, with or without the line's end
pub axiom fn json_back(e: LogEntry) ensures parse(line(e)) == Some(e), parse(json(e)) == Some(e), json(e).len() > 0, !json(e).contains(NL);
/// from a part of the line, it reads no entry
pub axiom fn json_part(e: LogEntry, n: int) requires 0 <= n < json(e).len() ensures parse(json(e).take(n)) is None, torn(json(e).take(n));
pub open spec fn line(e: LogEntry) -> Bytes { json(e).push(NL) }
/// the length of the first line, its end included
pub open spec fn line_len(t: Bytes) -> nat decreases t.len() { if t.len() == 0 { 0 } else if t[0] == NL { 1 } else { 1 + line_len(t.skip(1)) } }
/// the first line of t, and what follows
pub open spec fn first(t: Bytes) -> Bytes { t.take(line_len(t) as int) }
pub open spec fn rest(t: Bytes) -> Bytes { t.skip(line_len(t) as int) }
pub open spec fn ended(l: Bytes) -> bool { l.len() > 0 && l.last() == NL }
pub open spec fn body(es: Seq<LogEntry>) -> Bytes decreases es.len() { if es.len() == 0 { Seq::empty() } else { line(es[0]) + body(es.skip(1)) } }

// ---- the state a sequence of entries stands for ----------------------------------------------------------
#[verifier::ext_equal]
pub struct St { pub rc: Map<Str, RuncountStatus>, pub header: Option<HeaderEntry> }
pub open spec fn st0() -> St { St { rc: Map::empty(), header: None } }
pub open spec fn step(st: St, e: LogEntry) -> St {
    match e {
        LogEntry::Header(h) => St { header: Some(h), ..st },
        LogEntry::Ready(r) => St { rc: st.rc.insert(r.key@, RuncountStatus::Ready { runcount: r.runcount, storage_root: r.storage_root }), ..st },
        LogEntry::Started(s) => St { rc: st.rc.insert(s.key@, RuncountStatus::Started { runcount: rc_of(st.rc[s.key@]), storage_root: root_of(st.rc[s.key@]) }), ..st },
        LogEntry::Finished(f) => St { rc: st.rc.insert(f.key@, RuncountStatus::Finished { runcount: rc_of(st.rc[f.key@]), storage_root: root_of(st.rc[f.key@]), success: f.status == 0 }), ..st },
        LogEntry::Backref(_) => st,
    }
}
pub open spec fn rc_of(s: RuncountStatus) -> u32 { match s { RuncountStatus::Ready { runcount, .. } => runcount, RuncountStatus::Started { runcount, .. } => runcount, RuncountStatus::Finished { runcount, .. } => runcount } }
pub open spec fn root_of(s: RuncountStatus) -> u32 { match s { RuncountStatus::Ready { storage_root, .. } => storage_root, RuncountStatus::Started { storage_root, .. } => storage_root, RuncountStatus::Finished { storage_root, .. } => storage_root } }
/// ready, started, finished
pub open spec fn step_ok(st: St, e: LogEntry) -> bool {
    match e {
        LogEntry::Started(s) => st.rc.contains_key(s.key@) && st.rc[s.key@] is Ready,
        LogEntry::Finished(f) => st.rc.contains_key(f.key@) && st.rc[f.key@] is Started,
        _ => true,
    }
}
pub open spec fn fold(es: Seq<LogEntry>, st: St) -> St decreases es.len() { if es.len() == 0 { st } else { fold(es.skip(1), step(st, es[0])) } }
pub open spec fn ordered(es: Seq<LogEntry>, st: St) -> bool decreases es.len() { es.len() == 0 || step_ok(st, es[0]) && ordered(es.skip(1), step(st, es[0])) }
/// `Both`: a header of another workflow that is also of another version: either may be reported
pub enum Rep { Ok(St), KeyMismatch, Version(u32), Both(u32), Unreadable, Disordered }
pub open spec fn refused(r: Rep) -> bool { r is KeyMismatch || r is Version || r is Both }
/// whether a header may follow headers with the workflow key wk, and the workflow key from then on
pub open spec fn refuse(e: LogEntry, wk: Option<Str>) -> Option<Rep> {
    match e {
        LogEntry::Header(h) => if wk is Some && wk->0 != h.workflow_key@ && h.version != 4 { Some(Rep::Both(h.version)) } else if wk is Some && wk->0 != h.workflow_key@ { Some(Rep::KeyMismatch) } else if h.version != 4 { Some(Rep::Version(h.version)) } else { None },
        _ => None,
    }
}
pub open spec fn next_wk(e: LogEntry, wk: Option<Str>) -> Option<Str> { match (e, wk) { (LogEntry::Header(h), None) => Some(h.workflow_key@), _ => wk } }
/// an incomplete line at the end of the log: no entry
pub open spec fn cut(l: Bytes) -> bool { parse(l) is None && torn(l) && !ended(l) }
/// reading the log text line by line
pub open spec fn replay(t: Bytes, st: St, wk: Option<Str>) -> Rep decreases t.len() {
    if t.len() == 0 || line_len(t) < 1 || line_len(t) > t.len() || cut(first(t)) { Rep::Ok(st) } else {
        match parse(first(t)) {
            None => Rep::Unreadable,
            Some(e) => match refuse(e, wk) {
                Some(r) => r,
                None => if !step_ok(st, e) { Rep::Disordered } else { replay(rest(t), step(st, e), next_wk(e, wk)) },
            },
        }
    }
}
/// what becomes of a sequence of entries
pub open spec fn verdict(es: Seq<LogEntry>, st: St, wk: Option<Str>) -> Rep decreases es.len() {
    if es.len() == 0 { Rep::Ok(st) } else {
        match refuse(es[0], wk) {
            Some(r) => r,
            None => if !step_ok(st, es[0]) { Rep::Disordered } else { verdict(es.skip(1), step(st, es[0]), next_wk(es[0], wk)) },
        }
    }
}
pub proof fn line_len_range(t: Bytes) ensures t.len() > 0 ==> 1 <= line_len(t) <= t.len(), t.len() == 0 ==> line_len(t) == 0, t.len() > 0 && !ended(first(t)) ==> line_len(t) == t.len() decreases t.len()
{ if t.len() > 0 { line_len_range(t.skip(1)); if t.len() > 1 && t[0] != NL { assert(first(t).last() == first(t.skip(1)).last()); } } }
pub proof fn line_len_of(s: Bytes, u: Bytes) requires !s.contains(NL) ensures line_len(s.push(NL) + u) == s.len() + 1, line_len(s) == s.len() decreases s.len()
{
    let t = s.push(NL) + u;
    if s.len() > 0 {
        assert(s.contains(s[0]));
        assert(t.skip(1) =~= s.skip(1).push(NL) + u);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != NL by { assert(s.contains(s[i + 1])); }
        line_len_of(s.skip(1), u);
    }
}
pub proof fn first_of(e: LogEntry, u: Bytes) ensures first(line(e) + u) == line(e), rest(line(e) + u) == u, line_len(line(e) + u) == line(e).len()
{
    json_back(e);
    line_len_of(json(e), u);
    assert((line(e) + u).take(line(e).len() as int) =~= line(e));
    assert((line(e) + u).skip(line(e).len() as int) =~= u);
}
/// [C07] the text of a sequence of entries is read back as these entries
pub proof fn c07_read_back(es: Seq<LogEntry>, st: St, wk: Option<Str>) ensures replay(body(es), st, wk) == verdict(es, st, wk) decreases es.len()
{
    if es.len() > 0 {
        first_of(es[0], body(es.skip(1)));
        json_back(es[0]);
        let t = body(es);
        assert(t.len() > 0);
        c07_read_back(es.skip(1), step(st, es[0]), next_wk(es[0], wk));
    }
}
/// the headers all have this version and one workflow key
pub open spec fn consistent(es: Seq<LogEntry>, wk: Option<Str>) -> bool decreases es.len() {
    es.len() == 0 || refuse(es[0], wk) is None && consistent(es.skip(1), next_wk(es[0], wk))
}
/// [C07] a well-ordered log reopens with the state its entries stand for exactly when its headers agree
pub proof fn c07_reopen(es: Seq<LogEntry>, st: St, wk: Option<Str>)
    requires ordered(es, st)
    ensures consistent(es, wk) ==> replay(body(es), st, wk) == Rep::Ok(fold(es, st)),
        !consistent(es, wk) ==> refused(replay(body(es), st, wk))
{ c07_read_back(es, st, wk); c07_verdict(es, st, wk); }
pub proof fn c07_verdict(es: Seq<LogEntry>, st: St, wk: Option<Str>)
    requires ordered(es, st)
    ensures consistent(es, wk) ==> verdict(es, st, wk) == Rep::Ok(fold(es, st)), !consistent(es, wk) ==> refused(verdict(es, st, wk))
    decreases es.len()
{ if es.len() > 0 { c07_verdict(es.skip(1), step(st, es[0]), next_wk(es[0], wk)); } }
/// [C07] headers that disagree, in version or key, make a log inconsistent
pub proof fn c07_mixed(es: Seq<LogEntry>, wk: Option<Str>, i: int, j: int)
    requires 0 <= i <= j < es.len(), es[i] is Header, es[j] is Header, es[j]->Header_0.version != 4 || es[i]->Header_0.workflow_key@ != es[j]->Header_0.workflow_key@
    ensures !consistent(es, wk) decreases es.len()
{
    if i > 0 { assert(es.skip(1)[i - 1] == es[i]); assert(es.skip(1)[j - 1] == es[j]); c07_mixed(es.skip(1), next_wk(es[0], wk), i - 1, j - 1); }
    else if j > 0 && refuse(es[0], wk) is None { c07_keyed(es.skip(1), next_wk(es[0], wk), j - 1); assert(es.skip(1)[j - 1] == es[j]); }
}
pub proof fn c07_keyed(es: Seq<LogEntry>, wk: Option<Str>, j: int)
    requires 0 <= j < es.len(), es[j] is Header, wk is Some, es[j]->Header_0.version != 4 || es[j]->Header_0.workflow_key@ != wk->0
    ensures !consistent(es, wk) decreases es.len()
{ if j > 0 { assert(es.skip(1)[j - 1] == es[j]); c07_keyed(es.skip(1), next_wk(es[0], wk), j - 1); } }
pub proof fn fold_push(es: Seq<LogEntry>, st: St, e: LogEntry)
    ensures fold(es.push(e), st) == step(fold(es, st), e), ordered(es.push(e), st) <==> ordered(es, st) && step_ok(fold(es, st), e), body(es.push(e)) == body(es) + line(e)
    decreases es.len()
{
    let q = es.push(e);
    if es.len() == 0 {
        assert(q.skip(1) =~= Seq::<LogEntry>::empty());
        assert(fold(q.skip(1), step(st, e)) == step(st, e));
        assert(ordered(q.skip(1), step(st, e)));
        assert(body(q.skip(1)) =~= Seq::<u8>::empty());
        assert(body(q) =~= line(e));
        assert(body(es) + line(e) =~= line(e));
    } else {
        assert(q.skip(1) =~= es.skip(1).push(e));
        assert(q[0] == es[0]);
        fold_push(es.skip(1), step(st, es[0]), e);
        assert(body(q) =~= body(es) + line(e));
    }
}
// ---- files and readers -----------------------------------------------------------------------------------
/// what the file of this name contains when it is opened
pub uninterp spec fn on_disk(p: PathBuf) -> Bytes;
#[verifier::external_body] pub struct LockFile { x: () }
#[verifier::external_body] pub struct File { x: () }
impl File {
    pub uninterp spec fn text(&self) -> Bytes;
    /// where the next read or write begins; it is unknown once the file has been handed to a reader
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn try_lock(&self, m: FileLockMode) -> (r: Result<(), FileLockError>) { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, m: SeekFrom) -> (r: Result<u64, Error>) ensures final(self).text() == old(self).text(), r is Ok && m is Start ==> final(self).pos() == m->Start_0, r is Err ==> r->Err_0.io() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self).text() == old(self).text(), final(self).pos() == old(self).pos(), r is Err ==> r->Err_0.io() { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&mut self, n: u64) -> (r: Result<(), Error>) ensures r is Ok && n <= old(self).text().len() ==> final(self).text() == old(self).text().take(n as int) && final(self).pos() == old(self).pos(), r is Err ==> r->Err_0.io() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8; 1]) -> (r: Result<(), Error>) ensures r is Ok && old(self).pos() == old(self).text().len() ==> final(self).text() == old(self).text().push(b@[0]) && final(self).pos() == final(self).text().len(), r is Err ==> r->Err_0.io() { unimplemented!() }
}
/// the name and the lock of the lock file: unit lock
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ErrorKind { NotFound, Other }
#[verifier::external_body] pub struct Metadata { x: () }
impl Metadata {
    #[verifier::external_body] pub fn dev(&self) -> u64 { unimplemented!() }
    #[verifier::external_body] pub fn ino(&self) -> u64 { unimplemented!() }
}
impl File { #[verifier::external_body] pub fn metadata(&self) -> (r: Result<Metadata, Error>) ensures r is Err ==> r->Err_0.io() { unimplemented!() } }
#[verifier::external_body] pub fn metadata(p: &PathBuf) -> (r: Result<Metadata, Error>) ensures r is Err ==> r->Err_0.io() { unimplemented!() }
pub enum FileLockMode { Exclusive, Shared }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// how a file is opened: strict - only if there is none yet; wipes - emptied first
#[verifier::external_body] pub struct OpenOptions { x: () }
impl OpenOptions {
    pub uninterp spec fn strict(&self) -> bool;
    pub uninterp spec fn wipes(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: OpenOptions) ensures !r.strict(), !r.wipes() { unimplemented!() }
    #[verifier::external_body] pub fn read(self, b: bool) -> (r: OpenOptions) ensures r.strict() == self.strict(), r.wipes() == self.wipes() { unimplemented!() }
    #[verifier::external_body] pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.strict() == self.strict(), r.wipes() == self.wipes() { unimplemented!() }
    #[verifier::external_body] pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.strict() == self.strict(), r.wipes() == self.wipes() { unimplemented!() }
    #[verifier::external_body] pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r.strict() == (self.strict() || b), r.wipes() == self.wipes() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.strict() == self.strict(), r.wipes() == (self.wipes() || b) { unimplemented!() }
    #[verifier::external_body] pub fn open(self, p: &PathBuf) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.text() == (if self.wipes() { Seq::empty() } else { on_disk(*p) }) && r->Ok_0.pos() == 0, r is Err ==> r->Err_0.io() || self.strict() { unimplemented!() }
}
/// the log as it is written: text() is what was there and all that has been written since, on disk or still in memory
#[verifier::external_body] pub struct LogStream { x: () }
impl LogStream {
    pub uninterp spec fn text(&self) -> Bytes;
    /// what is written goes to its end
    pub uninterp spec fn at_end(&self) -> bool;
    /// this much of it is on disk; a process that is killed leaves text().take(n) for some n not below this
    pub uninterp spec fn flushed(&self) -> int;
    #[verifier::external_body] pub fn new_reader(f: File) -> (r: LogStream) ensures r.text() == f.text(), r.at_end() == (f.pos() == f.text().len()), r.flushed() == f.text().len() { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8; 1]) -> (r: Result<(), Error>) ensures r is Ok && old(self).at_end() ==> final(self).text() == old(self).text().push(b@[0]) && final(self).at_end(), final(self).flushed() >= old(self).flushed() { unimplemented!() }
    /// the file behind the buffer
    #[verifier::external_body] pub fn get_mut<'a>(&'a mut self) -> (r: &'a mut File) ensures final(r).text() == r.text() ==> final(self).text() == old(self).text() && final(self).at_end() == old(self).at_end() && final(self).flushed() == old(self).flushed() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self).text() == old(self).text(), final(self).at_end() == old(self).at_end(), r is Ok ==> final(self).flushed() == final(self).text().len(), final(self).flushed() >= old(self).flushed() { unimplemented!() }
}
impl LockFile {
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures r is Err ==> r->Err_0.io() { unimplemented!() }
}
pub struct BufWriter { x: () }
impl BufWriter { #[verifier::external_body] pub fn new(f: File) -> LockFile { unimplemented!() } }
pub trait VxWrite { spec fn wtext(&self) -> Bytes; spec fn wend(&self) -> bool; spec fn wflushed(&self) -> int; }
impl VxWrite for LogStream { open spec fn wtext(&self) -> Bytes { self.text() } open spec fn wend(&self) -> bool { self.at_end() } open spec fn wflushed(&self) -> int { self.flushed() } }
impl VxWrite for LockFile { uninterp spec fn wtext(&self) -> Bytes; uninterp spec fn wend(&self) -> bool; uninterp spec fn wflushed(&self) -> int; }
#[verifier::external_body] pub fn to_writer<W: VxWrite>(w: &mut W, e: &LogEntry) -> (r: Result<(), Error>) ensures r is Ok && old(w).wend() ==> final(w).wtext() == old(w).wtext() + json(*e) && final(w).wend(), final(w).wflushed() >= old(w).wflushed(), r is Err ==> r->Err_0.io() { unimplemented!() }
#[verifier::external_body] pub struct BufReader { x: () }
impl BufReader {
    pub uninterp spec fn rest(&self) -> Bytes;
    #[verifier::external_body] pub fn new<F: VxFile>(f: F) -> (r: BufReader) requires f.fpos() == 0 ensures r.rest() == f.ftext(), f.kept() { unimplemented!() }
    /// the first line, as a string if it is one
    #[verifier::external_body] pub fn read_line(&mut self, s: &mut String) -> (r: Result<usize, Error>)
        ensures r is Err ==> r->Err_0.io(), r is Ok ==> (r->Ok_0 == 0 <==> old(self).rest().len() == 0) && final(s)@ == old(s)@ + utf8(first(old(self).rest())) && final(self).rest() == rest(old(self).rest()) { unimplemented!() }
    #[verifier::external_body] pub fn read_until(&mut self, b: u8, s: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures r is Err ==> r->Err_0.io(), r is Ok && b == NL ==> r->Ok_0 == first(old(self).rest()).len() && final(s)@ == old(s)@ + first(old(self).rest()) && final(self).rest() == rest(old(self).rest()) { unimplemented!() }
}
/// the characters these bytes encode
pub uninterp spec fn utf8(b: Bytes) -> Str;
/// a file to read from, which reading leaves as it is
pub trait VxFile { spec fn ftext(&self) -> Bytes; spec fn fpos(&self) -> int; #[verifier::prophetic] spec fn kept(&self) -> bool; }
impl<'a> VxFile for &'a mut File { open spec fn ftext(&self) -> Bytes { (**self).text() } open spec fn fpos(&self) -> int { (**self).pos() } #[verifier::prophetic] open spec fn kept(&self) -> bool { final(*self).text() == (**self).text() } }
impl<'a> VxFile for &'a File { open spec fn ftext(&self) -> Bytes { (**self).text() } open spec fn fpos(&self) -> int { (**self).pos() } #[verifier::prophetic] open spec fn kept(&self) -> bool { true } }
pub uninterp spec fn parse_text(s: Str) -> Option<LogEntry>;
#[verifier::external_body] pub fn from_str(s: &String) -> (r: Result<LogEntry, Error>) ensures r is Ok <==> parse_text(s@) is Some, r is Ok ==> r->Ok_0 == parse_text(s@)->0, r is Err ==> !r->Err_0.io() { unimplemented!() }
#[verifier::external_body] pub fn from_slice(s: &Vec<u8>) -> (r: Result<LogEntry, Error>) ensures r is Ok <==> parse(s@) is Some, r is Ok ==> r->Ok_0 == parse(s@)->0, r is Err ==> !r->Err_0.io() && r->Err_0.eof() == torn(s@) { unimplemented!() }
pub open spec fn chomp(s: Str) -> Str decreases s.len() { if s.len() > 0 && (s.last() == '\r' || s.last() == '\n') { chomp(s.drop_last()) } else { s } }
/// a string without some of its last characters; `len` is where it ends in that string
#[verifier::external_body] pub struct Trimmed { x: () }
impl Trimmed {
    pub uninterp spec fn whole(&self) -> Str;
    pub uninterp spec fn part(&self) -> Str;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures off(self.whole(), r) == self.part().len() { unimplemented!() }
}
/// the number of characters before byte offset b of s
pub uninterp spec fn off(s: Str, b: usize) -> int;
pub open spec fn ends_trimmed(s: Str, cs: Seq<char>) -> Str decreases s.len() { if s.len() > 0 && cs.contains(s.last()) { ends_trimmed(s.drop_last(), cs) } else { s } }
pub trait VxFull<T> { fn vx_slice_full(&self) -> (r: &[T]); }
impl<T, const N: usize> VxFull<T> for [T; N] { #[verifier::external_body] fn vx_slice_full(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() } }
pub trait VxBytes { fn vx_clear(&mut self); fn vx_ends_with(&self, b: &[u8; 1]) -> bool; }
impl VxBytes for Vec<u8> {
    #[verifier::external_body] fn vx_clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, b: &[u8; 1]) -> (r: bool) ensures r == (self@.len() > 0 && self@.last() == b@[0]) { unimplemented!() }
}
pub trait VxText {
    fn vx_clear(&mut self);
    fn vx_truncate(&mut self, n: usize);
    fn vx_trim_end_matches(&self, cs: &[char]) -> Trimmed;
}
impl VxText for String {
    #[verifier::external_body] fn vx_clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn vx_truncate(&mut self, n: usize) ensures final(self)@ == old(self)@.take(off(old(self)@, n)) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches(&self, cs: &[char]) -> (r: Trimmed) ensures r.whole() == self@, r.part() == ends_trimmed(self@, cs@) { unimplemented!() }
}
pub proof fn trim_chomp(s: Str, cs: Seq<char>) requires forall|c: char| #[trigger] cs.contains(c) <==> c == '\r' || c == '\n'
    ensures ends_trimmed(s, cs) == chomp(s), chomp(s).len() <= s.len(), chomp(s) == s.take(chomp(s).len() as int) decreases s.len()
{
    if s.len() > 0 {
        trim_chomp(s.drop_last(), cs);
        if s.last() == '\r' || s.last() == '\n' { assert(cs.contains(s.last())); let k = chomp(s).len(); assert(s.drop_last().take(k as int) =~= s.take(k as int)); }
        else { assert(!cs.contains(s.last())); assert(s.take(s.len() as int) =~= s); }
    } else { assert(s.take(0) =~= s); }
}
pub proof fn trim2(s: Str) ensures forall|cs: Seq<char>| cs.len() == 2 && (cs[0] == '\r' && cs[1] == '\n' || cs[0] == '\n' && cs[1] == '\r') ==> #[trigger] ends_trimmed(s, cs) == chomp(s), chomp(s).len() <= s.len(), chomp(s) == s.take(chomp(s).len() as int)
{
    { let q = seq!['\r', '\n']; assert(q[0] == '\r' && q[1] == '\n'); assert forall|c: char| c == '\r' || c == '\n' implies #[trigger] q.contains(c) by { assert(q.contains(q[0])); assert(q.contains(q[1])); } trim_chomp(s, q); }
    assert forall|cs: Seq<char>| cs.len() == 2 && (cs[0] == '\r' && cs[1] == '\n' || cs[0] == '\n' && cs[1] == '\r') implies #[trigger] ends_trimmed(s, cs) == chomp(s) by {
        assert forall|c: char| #[trigger] cs.contains(c) <==> c == '\r' || c == '\n' by { assert(cs.contains(cs[0])); assert(cs.contains(cs[1])); }
        trim_chomp(s, cs);
    }
}
