@unit lock
@include prelude.rs
@include iter.rs
@include collections.rs
@include lockstub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@source src/logfile2.rs
@pathmap BufReaderWriter::new_reader LogStream::new_reader
@typemap std::fs::File File
@typemap std::path::PathBuf PathBuf
@effcalls try_lock metadata remove_file open set_len write_all flush seek drop
@text
pub struct LogFileRO;
pub struct LogFileRW;
#[verifier::external_body] pub struct LogEntry { x: () }
#[verifier::external_body] pub struct HeaderEntry { x: () }
#[verifier::external_body] pub struct RuncountStatus { x: () }
impl LogEntry { #[verifier::external_body] pub fn new_header(k: &str, roots: Vec<PathBuf>) -> Result<LogEntry, LogfileError> { unimplemented!() } }
@item enum LogfileError
@item struct LogFile
@field f LogStream
@field lockf Option<(LockFile, PathBuf)>
@text
impl<T> LogFile<T> {
    /// the log is open for writing: it holds the lock of the file that has the name
    pub open spec fn owns(&self, w: World) -> bool { self.lockf is Some && is_lock((self.lockf->0).1) && mine((self.lockf->0).0.id()) && w.owner((self.lockf->0).0.id()) }
    #[verifier::external_body] pub fn load_runcounts(f: &mut File) -> (r: Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, u64, bool), LogfileError>) ensures final(f).id() == old(f).id(), final(f).fid() == old(f).fid() { unimplemented!() }
}
@fn LogFile<LogFileRW>::new eff panics-ok
@prop C22
@ret r
@retty Result<Self, LogfileError>
@generics
@locals path lockf_path lockf lockf held named e e lockf f runcounts header nbytes terminated
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@paramty path PathBuf
@spec
    ensures r is Ok ==> r->Ok_0.owns(final(eff).w()), // [C22]
@letty vx_lv0 File
@loop 0
    ensures mine(vx_lv0.id()) && eff.w().owner(vx_lv0.id()), // [C22]
@fn LogFile::drop eff
@prop C22
@locals _f lockf_path
@spec
    requires old(self).lockf is Some ==> old(self).owns(old(eff).w())
