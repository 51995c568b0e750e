// The log as the writer sees it: what this execution recorded last for every key.  The contracts of the
// entry constructors and of write are proved of the real functions in unit logfile.
#[verifier::external_body] pub struct LogfileError { x: () }
pub enum Le { Header, Ready { key: Seq<char>, runcount: u32, storage_root: u32 }, Started { key: Seq<char> }, Finished { key: Seq<char>, status: int }, Backref { key: Seq<char> } }
pub enum Ls { Ready, Started, Finished { status: int } }
#[verifier::external_body] pub struct LogEntry { x: () }
pub type ValueMaps = Vec<()>;
impl LogEntry {
    pub uninterp spec fn le(&self) -> Le;
    #[verifier::external_body] pub fn new_ready(key: &str, runcount: u32, command: &str, storage_root: u32) -> (r: LogEntry)
        ensures r.le() == (Le::Ready { key: key@, runcount, storage_root }) { unimplemented!() }
    #[verifier::external_body] pub fn new_started(key: &str, host: &str, pid: u32, slurm_jobid: String) -> (r: LogEntry)
        ensures r.le() == (Le::Started { key: key@ }) { unimplemented!() }
    #[verifier::external_body] pub fn new_finished(key: &str, status: i32, values: ValueMaps) -> (r: LogEntry)
        ensures r.le() == (Le::Finished { key: key@, status: status as int }) { unimplemented!() }
}
pub type Log = Map<Seq<char>, Ls>;
/// ready, started, finished, in this order
pub open spec fn may_write(l: Log, e: Le) -> bool {
    match e {
        Le::Ready { key, .. } => !l.contains_key(key) || l[key] is Finished,
        Le::Started { key } => l.contains_key(key) && l[key] is Ready,
        Le::Finished { key, .. } => l.contains_key(key) && l[key] is Started,
        _ => true,
    }
}
pub open spec fn wrote(l: Log, e: Le) -> Log {
    match e {
        Le::Ready { key, .. } => l.insert(key, Ls::Ready),
        Le::Started { key } => l.insert(key, Ls::Started),
        Le::Finished { key, status } => l.insert(key, Ls::Finished { status }),
        _ => l,
    }
}
#[verifier::external_body] pub struct LogFile { x: () }
impl LogFile {
    pub uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub fn write(&mut self, e: LogEntry) -> (r: Result<(), AnyhowError>)
        requires may_write(old(self).log(), e.le()), // [C06]
        ensures r is Ok ==> final(self).log() == wrote(old(self).log(), e.le()) { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), AnyhowError>) ensures final(self).log() == old(self).log() { unimplemented!() }
}
