@unit logfile
@include prelude.rs
@include iter.rs
@include collections.rs
@include logfile.rs
@include crash.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@source src/logfile2.rs
@pathmap BufReaderWriter::new_reader LogStream::new_reader
@typemap std::fs::File File
@typemap std::path::PathBuf PathBuf
@methodmap clear vx_clear
@methodmap ends_with vx_ends_with
@item const LOGFILE_VERSION
@item enum LogEntry
@item struct HeaderEntry
@item struct ReadyEntry
@item struct StartedEntry
@item struct FinishedEntry
@item struct BackrefEntry
@item enum RuncountStatus
@item enum LogfileError
@text
pub struct LogFileRO;
pub struct LogFileRW;
@item struct LogFile
@dropfields lockf
@field f LogStream
@text
impl<T> LogFile<T> {
    pub open spec fn st(&self) -> St { St { rc: self.runcounts@, header: self.header } }
    /// [C07] the log contains exactly the lines of es, and the state is what they stand for
    pub open spec fn holds(&self, es: Seq<LogEntry>) -> bool { self.f.text() == body(es) && ordered(es, st0()) && self.st() == fold(es, st0()) }
    /// ... and goes on with what is written next
    pub open spec fn logs(&self, es: Seq<LogEntry>) -> bool { self.holds(es) && self.f.at_end() }
}
@text
impl SystemTime { #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() } }
#[verifier::external_body] pub struct OsString { x: () }
#[verifier::external_body] pub struct Args { x: () }
impl Args { #[verifier::external_body] pub fn collect(self) -> Vec<String> { unimplemented!() } }
impl OsString { #[verifier::external_body] pub fn to_string_lossy(&self) -> &str { unimplemented!() } }
impl PathBuf { #[verifier::external_body] pub fn to_string_lossy(&self) -> &str { unimplemented!() } }
#[verifier::external_body] pub fn username() -> String { unimplemented!() }
#[verifier::external_body] pub fn gethostname() -> OsString { unimplemented!() }
#[verifier::external_body] pub fn args() -> Args { unimplemented!() }
#[verifier::external_body] pub fn current_dir() -> (r: Result<PathBuf, Error>) ensures r is Err ==> r->Err_0.io() { unimplemented!() }
#[verifier::external_body] pub fn id() -> u32 { unimplemented!() }
@fn LogEntry::new_header
@locals workflow_key storage_roots
@prop C07
@ret r
@retty Result<LogEntry, LogfileError>
@spec
    ensures r is Ok ==> (r->Ok_0) is Header && (r->Ok_0)->Header_0.version == 4 && (r->Ok_0)->Header_0.workflow_key@ == workflow_key@ && (r->Ok_0)->Header_0.storage_roots@ == storage_roots@, // [C07]
        r is Err ==> r->Err_0 is IoError,
@hint fn-start
    broadcast use err_from;
@fn LogEntry::new_ready
@locals key runcount command storage_root
@prop C06 C07
@ret r
@spec
    ensures r is Ready && r->Ready_0.key@ == key@ && r->Ready_0.runcount == runcount && r->Ready_0.storage_root == storage_root && r->Ready_0.command@ == command@, // [C06] [C07]
@fn LogEntry::new_started
@locals key host pid slurm_jobid
@prop C06 C07
@ret r
@spec
    ensures r is Started && r->Started_0.key@ == key@ && r->Started_0.host@ == host@ && r->Started_0.pid == pid && r->Started_0.slurm_jobid == slurm_jobid, // [C06] [C07]
@fn LogEntry::new_finished
@locals key status values
@prop C06 C07
@ret r
@spec
    ensures r is Finished && r->Finished_0.key@ == key@ && r->Finished_0.status == status && r->Finished_0.values == values, // [C06] [C07]
@fn LogEntry::new_backref
@locals key
@prop C07
@ret r
@spec
    ensures r is Backref && r->Backref_0.key@ == key@, // [C07]
@fn LogEntry::is_header
@locals _x
@prop C07
@ret r
@spec
    ensures r == (*self is Header), // [C07]
@fn LogEntry::is_ready
@locals _x
@prop C07
@ret r
@spec
    ensures r == (*self is Ready), // [C07]
@fn LogEntry::is_started
@locals _x
@prop C07
@ret r
@spec
    ensures r == (*self is Started), // [C07]
@fn LogEntry::is_finished
@locals _x
@prop C07
@ret r
@spec
    ensures r == (*self is Finished), // [C07]
@fn LogEntry::is_backref
@locals _x
@prop C07
@ret r
@spec
    ensures r == (*self is Backref), // [C07]
@fn LogFile<LogFileRW>::write panics-ok
@locals e h r s r c srt f r c srt
@prop C07 C25
@ret r
@retty Result<(), LogfileError>
@spec
    ensures
        final(self).st() == step(old(self).st(), e), // [C07]
        step_ok(old(self).st(), e), // [C07]
        final(self).path == old(self).path, // [C07]
        forall|es: Seq<LogEntry>| #[trigger] old(self).logs(es) && r is Ok ==> final(self).logs(es.push(e)), // [C07] [C25]
        final(self).f.flushed() >= old(self).f.flushed(), // [C25]
@hint fn-end
    proof {
        assert(self.st() =~= step(old(self).st(), e));
        assert forall|es: Seq<LogEntry>| #[trigger] old(self).logs(es) implies self.logs(es.push(e)) by { fold_push(es, st0(), e); assert(self.f.text() =~= body(es) + line(e)); }
    }
@fn LogFile::load_runcounts panics-ok
@locals f runcounts header workflow_key reader line iline nbytes terminated len whole value value e e h existing r s r c srt f r c srt
@prop C07 C25
@ret r
@retty Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, u64, bool), LogfileError>
@spec
    requires old(f).text().len() < 0x7fff_ffff, old(f).pos() == 0,
    ensures
        r is Ok ==> replay(old(f).text(), st0(), None) == Rep::Ok(St { rc: r->Ok_0.0@, header: r->Ok_0.1 }), // [C07]
        r is Err && r->Err_0 is WorkflowKeyMismatch ==> replay(old(f).text(), st0(), None) is KeyMismatch || replay(old(f).text(), st0(), None) is Both, // [C07]
        r is Err && r->Err_0 is MismatchedVersion ==> (replay(old(f).text(), st0(), None) == Rep::Version(r->Err_0->found) || replay(old(f).text(), st0(), None) == Rep::Both(r->Err_0->found)) && r->Err_0->current == 4, // [C07]
        final(f).text() == old(f).text(), // [C07]
        r is Ok ==> r->Ok_0.2 <= old(f).text().len() && mended(old(f).text()) == (if r->Ok_0.3 { old(f).text().take(r->Ok_0.2 as int) } else { old(f).text().take(r->Ok_0.2 as int).push(NL) }), // [C25]
        r is Err ==> r->Err_0 is IoError || !(replay(old(f).text(), st0(), None) is Ok), // [C07]
@letty workflow_key Option<String>
@letty header Option<HeaderEntry>
@letty runcounts HashMap<String, RuncountStatus>
@hint fn-start
    broadcast use err_from;
@hint after-let iline
    let ghost vx_t0 = f.text();
@hint loop-start 0
    let ghost vx_r = reader.rest();
    let ghost vx_s0 = St { rc: runcounts@, header };
    proof { line_len_range(vx_r); }
@hint after-call read_until 0
    proof { assert(line@ =~= first(vx_r)); }
@hint loop-start 0
    let ghost vx_n0 = nbytes;
@hint loop-end 0
    proof {
        let e = parse(first(vx_r))->0;
        assert(St { rc: runcounts@, header } =~= step(vx_s0, e));
        assert(vx_t0.take(vx_n0 as int) + vx_r =~= vx_t0);
        assert(vx_t0.take(vx_n0 as int) + first(vx_r) =~= vx_t0.take(nbytes as int));
        if terminated { assert(vx_t0.take(vx_n0 as int) + mended(vx_r) =~= vx_t0.take(nbytes as int) + mended(reader.rest())); }
        else { assert(reader.rest().len() == 0); assert(vx_t0.take(vx_n0 as int) + mended(vx_r) =~= vx_t0.take(nbytes as int).push(NL) + mended(reader.rest())); }
    }
@loop 0
    invariant
        replay(vx_t0, st0(), None) == replay(reader.rest(), St { rc: runcounts@, header }, match workflow_key { Some(k) => Some(k@), None => None }),
        reader.rest().len() + iline <= vx_t0.len() < 0x7fff_ffff, iline >= 0,
        nbytes + reader.rest().len() == vx_t0.len(), reader.rest() == vx_t0.skip(nbytes as int), !terminated ==> reader.rest().len() == 0 && nbytes > 0, // [C25]
        mended(vx_t0) == (if terminated { vx_t0.take(nbytes as int) } else { vx_t0.take(nbytes as int).push(NL) }) + mended(reader.rest()), // [C25]
    decreases reader.rest().len()
@fn LogFile<LogFileRO>::new panics-ok
@locals path f runcounts header
@prop C07 C25
@ret r
@retty Result<Self, LogfileError>
@generics
@paramty path PathBuf
@spec
    requires on_disk(path).len() < 0x7fff_ffff,
    ensures
        r is Ok ==> replay(on_disk(path), st0(), None) == Rep::Ok(r->Ok_0.st()) && r->Ok_0.path == p_canon(path), // [C07]
        r is Err && !(r->Err_0 is IoError) ==> !(replay(on_disk(path), st0(), None) is Ok), // [C07]
        forall|es: Seq<LogEntry>| on_disk(path) == body(es) && #[trigger] ordered(es, st0()) && r is Ok ==> r->Ok_0.holds(es) && consistent(es, None), // [C07]
@hint fn-start
    broadcast use {err_from, lock_from};
    proof { assert forall|es: Seq<LogEntry>| #[trigger] ordered(es, st0()) implies (consistent(es, None) ==> replay(body(es), st0(), None) == Rep::Ok(fold(es, st0()))) && (!consistent(es, None) ==> !(replay(body(es), st0(), None) is Ok)) by { c07_reopen(es, st0(), None); } }
@fn LogFile<LogFileRW>::new panics-ok
@locals path lockf_path lockf lockf held named e e lockf f runcounts header nbytes terminated
@attr #[verifier::exec_allows_no_decreases_clause]
@prop C07 C25
@ret r
@retty Result<Self, LogfileError>
@generics
@paramty path PathBuf
@spec
    requires on_disk(path).len() < 0x7fff_ffff,
    ensures
        r is Ok ==> replay(on_disk(path), st0(), None) == Rep::Ok(r->Ok_0.st()) && r->Ok_0.path == p_canon(path), // [C07]
        r is Err && !(r->Err_0 is IoError) && !(r->Err_0 is AlreadyLocked) ==> !(replay(on_disk(path), st0(), None) is Ok), // [C07]
        forall|es: Seq<LogEntry>| on_disk(path) == body(es) && #[trigger] ordered(es, st0()) && r is Ok ==> r->Ok_0.logs(es) && consistent(es, None), // [C07]
        r is Ok ==> r->Ok_0.f.text() == mended(on_disk(path)) && r->Ok_0.f.at_end() && r->Ok_0.f.flushed() == r->Ok_0.f.text().len(), // [C25]
        // whatever a kill has left of a log: it opens, with the state of the entries that are left, and goes on after them
        forall|es: Seq<LogEntry>, n: int| ordered(es, st0()) && consistent(es, None) && 0 <= n <= body(es).len() && on_disk(path) == #[trigger] body(es).take(n) ==>
            match r { Ok(l) => l.logs(es.take(left(es, n) as int)), Err(e) => e is IoError || e is AlreadyLocked }, // [C25]
@hint fn-start
    proof { assert forall|es: Seq<LogEntry>, n: int| ordered(es, st0()) && consistent(es, None) && 0 <= n <= body(es).len() implies reopens(es, n, #[trigger] body(es).take(n)) by { assert(body(es.take(0)).len() == 0); c25_reopen(es, 0, n); } }
    proof { assert forall|es: Seq<LogEntry>| #[trigger] ordered(es, st0()) implies mended(body(es)) == body(es) by { mended_body(es); } }
    broadcast use {err_from, lock_from};
    proof { assert forall|es: Seq<LogEntry>| #[trigger] ordered(es, st0()) implies (consistent(es, None) ==> replay(body(es), st0(), None) == Rep::Ok(fold(es, st0()))) && (!consistent(es, None) ==> !(replay(body(es), st0(), None) is Ok)) by { c07_reopen(es, st0(), None); } }
@fn LogFile::runcount
@locals key
@prop C07 C16
@ret r
@spec
    ensures r == (if self.st().rc.contains_key(key@) { Some(self.st().rc[key@]) } else { None }), // [C07] [C16]
@fn LogFile::has_success
@locals key status success
@prop C07
@ret r
@spec
    ensures r == (self.st().rc.contains_key(key@) && self.st().rc[key@] is Finished && self.st().rc[key@]->success), // [C07]
@fn LogFile::has_failure
@locals key status success
@prop C07
@ret r
@spec
    ensures r == (self.st().rc.contains_key(key@) && self.st().rc[key@] is Finished && !self.st().rc[key@]->success), // [C07]
@fn LogFile::workflow_key
@locals h
@prop C07
@ret r
@spec
    ensures r is Some <==> self.st().header is Some, r is Some ==> r->0@ == self.st().header->0.workflow_key@, // [C07]
@fn LogFile::header_version
@locals h
@prop C07
@ret r
@spec
    ensures r == (match self.st().header { Some(h) => Some(h.version), None => None }), // [C07]
@fn LogFile::flush
@prop C07 C25
@ret r
@retty Result<(), Error>
@spec
    ensures final(self).st() == old(self).st(), final(self).f.text() == old(self).f.text(), // [C07]
        final(self).f.at_end() == old(self).f.at_end(), final(self).f.flushed() >= old(self).f.flushed(), r is Ok ==> final(self).f.flushed() == final(self).f.text().len(), // [C25]
@text
/// [C16] the storage root a task ran under: relative ones lie in the directory of the log
pub open spec fn root_at<T>(l: &LogFile<T>, id: int) -> Option<PathBuf> {
    match l.header {
        Some(h) => if 0 <= id < h.storage_roots@.len() { Some(if p_abs(h.storage_roots@[id]) { h.storage_roots@[id] } else { p_join(p_parent(l.path)->0, h.storage_roots@[id]) }) } else { None },
        None => None,
    }
}
@fn LogFile::storage_root panics-ok
@locals id h p
@prop C07 C16
@ret r
@spec
    ensures r == root_at(self, id as int), // [C07] [C16]
@fn LogFile::storage_roots panics-ok
@locals n h id
@prop C07 C16
@ret r
@spec
    ensures self.header is None ==> r@.len() == 0, // [C07] [C16]
        self.header is Some && self.header->0.storage_roots@.len() <= u32::MAX ==> r@.len() == self.header->0.storage_roots@.len() && forall|i: int| 0 <= i < r@.len() ==> Some(#[trigger] r@[i]) == root_at(self, i), // [C07] [C16]
@loop 0
    invariant
        n == (match self.header { Some(h) => h.storage_roots@.len() as u32, None => 0 }),
        vx_acc0s is None ==> vx_acc0@.len() == vx_it0.pos() && forall|i: int| 0 <= i < vx_acc0@.len() ==> Some(#[trigger] vx_acc0@[i]) == root_at(self, i),
@source src/execgraph.rs
@item struct ExecGraph
@dropfields deps key_to_nodeid completed
@source src/pylib.rs
@item struct PyExecGraph
@dropfields num_parallel failures_allowed key rerun_failures
@text
/// [C16] the run count a task should use next
pub open spec fn next_run(s: Option<RuncountStatus>) -> int {
    match s {
        None => 0,
        Some(RuncountStatus::Ready { runcount, .. }) => runcount as int,
        Some(RuncountStatus::Started { runcount, .. }) => runcount + 1,
        Some(RuncountStatus::Finished { runcount, success, .. }) => if success { runcount as int } else { runcount + 1 },
    }
}
pub open spec fn at_key(st: St, k: Str) -> Option<RuncountStatus> { if st.rc.contains_key(k) { Some(st.rc[k]) } else { None } }
pub open spec fn run_dir(k: Str, n: u32) -> PathBuf { p_leaf(vx_fmt("{}.{}"@, seq![k, vx_fmt_u32(n)])) }
/// what a client that asks for run counts writes: the proposed run count at every ready, and no run of a task that succeeded
pub open spec fn proper(es: Seq<LogEntry>, st: St) -> bool decreases es.len() {
    es.len() == 0 || {
        &&& step_ok(st, es[0])
        &&& es[0] is Ready ==> es[0]->Ready_0.runcount >= next_run(at_key(st, es[0]->Ready_0.key@)) && !done(st, es[0]->Ready_0.key@)
        &&& proper(es.skip(1), step(st, es[0]))
    }
}
/// k succeeded
pub open spec fn done(st: St, k: Str) -> bool { match at_key(st, k) { Some(RuncountStatus::Finished { success, .. }) => success, _ => false } }
/// run count c was started for k and is not the successful one
pub open spec fn spent(st: St, k: Str, c: int) -> bool { c < next_run(at_key(st, k)) || done(st, k) }
/// [C16] a started run's count stays below every later proposal, unless the task succeeded for good
pub proof fn c16_grows(es: Seq<LogEntry>, st: St, k: Str, c: int)
    requires proper(es, st), spent(st, k, c)
    ensures spent(fold(es, st), k, c) decreases es.len()
{ if es.len() > 0 { c16_grows(es.skip(1), step(st, es[0]), k, c); } }
/// [C16] for every history: after a started run of k (entry i), what is proposed next is larger than that run's count, or the task succeeded
pub proof fn c16_new_directory(es: Seq<LogEntry>, st: St, k: Str, i: int)
    requires proper(es, st), 0 <= i < es.len(), es[i] is Started, es[i]->Started_0.key@ == k
    ensures spent(fold(es, st), k, rc_of(fold(es.take(i), st).rc[k]) as int) decreases es.len()
{
    if i == 0 {
        assert(es.take(0) =~= Seq::<LogEntry>::empty());
        let s1 = step(st, es[0]);
        assert(spent(s1, k, rc_of(st.rc[k]) as int));
        c16_grows(es.skip(1), s1, k, rc_of(st.rc[k]) as int);
    } else {
        assert(es.skip(1)[i - 1] == es[i]);
        assert(es.take(i).skip(1) =~= es.skip(1).take(i - 1));
        assert(es.take(i)[0] == es[0]);
        c16_new_directory(es.skip(1), step(st, es[0]), k, i - 1);
    }
}
impl VxPathLike for String { open spec fn as_path(&self) -> PathBuf { p_leaf(self@) } }
@fn PyExecGraph::logfile_runcount panics-ok formats
@locals key runcount runcount runcount storage_root success runcount
@prop C16
@ret r
@spec
    requires self.g.logfile.st().rc.contains_key(key@) ==> rc_of(self.g.logfile.st().rc[key@]) < u32::MAX,
    ensures
        r.0 == next_run(at_key(self.g.logfile.st(), key@)), // [C16]
        // a succeeded task: the directory of the successful run; any other: to be chosen
        match at_key(self.g.logfile.st(), key@) {
            Some(RuncountStatus::Finished { runcount, storage_root, success }) => if success { r.1 == Some(p_join(root_at(&self.g.logfile, storage_root as int)->0, run_dir(key@, runcount))) } else { r.1 is None },
            _ => r.1 is None,
        }, // [C16]
