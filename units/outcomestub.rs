// ---- stand-ins and spec functions of units outcome and local -------------------------------------
pub type ValueMaps = Vec<HashMap<String, String>>;
/// what a byte string reads as, with invalid text replaced
pub uninterp spec fn lossy(b: Seq<u8>) -> Str;
/// the lines of a text, the words of a line in shell syntax (none when malformed)
pub uninterp spec fn lines_of(s: Str) -> Seq<Str>;
pub uninterp spec fn words_of(s: Str) -> Option<Seq<Str>>;
#[verifier::external_body] pub struct VxCow { x: () }
impl View for VxCow { type V = Str; uninterp spec fn view(&self) -> Str; }
#[verifier::external_body] pub fn vx_lossy(b: &Vec<u8>) -> (r: VxCow) ensures r@ == lossy(b@) { unimplemented!() }
impl VxCow {
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn lines<'a>(&self) -> (r: VIter<&'a str>) ensures r.pos() == 0, r.seq().len() == lines_of(self@).len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == lines_of(self@)[i] { unimplemented!() }
}
#[verifier::external_body] pub struct ParseError { x: () }
#[verifier::external_body] pub fn vx_shell_split(s: &str) -> (r: Result<Vec<String>, ParseError>)
    ensures r is Ok <==> words_of(s@) is Some, r is Ok ==> r->Ok_0@.len() == words_of(s@)->0.len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@ == words_of(s@)->0[i] { unimplemented!() }
/// the status of a process that has been waited for: an exit code, or the signal that killed it
#[verifier::external_body] pub struct ProcStatus { x: () }
impl ProcStatus {
    pub uninterp spec fn exit(&self) -> Option<i32>;
    pub uninterp spec fn sig(&self) -> int;
    #[verifier::external_body] pub fn code(&self) -> (r: Option<i32>) ensures r == self.exit() { unimplemented!() }
    #[verifier::external_body] pub fn signal(&self) -> (r: Option<i32>) ensures r is Some <==> self.exit() is None, r is Some ==> r->0 == self.sig() && 1 <= self.sig() <= 127 { unimplemented!() }
    #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == (self.exit() == Some(0i32)) { unimplemented!() }
}
#[verifier::external_body] pub struct AsyncFlag { x: () }
// ---- the values channel -----------------------------------------------------------------------------------
/// [C17] a word key=value, split at the first '='
pub open spec fn kv(w: Str) -> Option<(Str, Str)> {
    if !w.contains('=') { None } else { let k = choose|k: int| first_at(w, '=', k); Some((w.take(k), w.skip(k + 1))) }
}
pub proof fn first_unique(w: Str, c: char, j: int, k: int) requires first_at(w, c, j), first_at(w, c, k) ensures j == k { if j < k { assert(w[j] != c); } else if k < j { assert(w[k] != c); } }
pub broadcast proof fn kv_at(w: Str, k: int) requires #[trigger] first_at(w, '=', k) ensures kv(w) == Some((w.take(k), w.skip(k + 1)))
{ assert(w.contains('=')) by { assert(w[k] == '='); } let j = choose|j: int| first_at(w, '=', j); first_unique(w, '=', j, k); }
pub open spec fn line_map(ws: Seq<Str>, k: int) -> Map<Str, Str> decreases k {
    if k <= 0 { Map::empty() } else { let m = line_map(ws, k - 1); match kv(ws[k - 1]) { Some(p) => m.insert(p.0, p.1), None => m } }
}
pub open spec fn recorded(ls: Seq<Str>, k: int) -> Seq<Map<Str, Str>> decreases k {
    if k <= 0 { Seq::empty() } else { let s = recorded(ls, k - 1); match words_of(ls[k - 1]) { Some(ws) => s.push(line_map(ws, ws.len() as int)), None => s } }
}
pub open spec fn same_map(m: Map<Str, String>, s: Map<Str, Str>) -> bool { m.dom() =~= s.dom() && forall|k: Str| #[trigger] m.contains_key(k) ==> m[k]@ == s[k] }
pub open spec fn same_maps(v: Seq<HashMap<String, String>>, s: Seq<Map<Str, Str>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> same_map((#[trigger] v[i])@, s[i]) }
/// [C17] what the process's end counts as
pub open spec fn code_of(s: ProcStatus) -> int { match s.exit() { Some(c) => c as int, None => -s.sig() } }
pub open spec fn success_of(s: ExitStatus) -> bool { s is Code && s->Code_0 == 0 }
