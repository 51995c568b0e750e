@unit outcome
@include prelude.rs
@include iter.rs
@include collections.rs
@include petgraph.rs
@include strings.rs
@include outcomestub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@methodmap find vx_find
@methodmap rfind vx_rfind
@methodmap split_once vx_split_once
@methodmap to_string vx_to_string
@methodmap to_owned vx_to_string
@pathmap String::from_utf8_lossy vx_lossy
@pathmap shell_words::split vx_shell_split
@resultfns vx_shell_split split
@source src/sync.rs
@item enum ExitStatus
@item struct FinishedEvent
@fn ExitStatus::as_i32
@locals c
@prop C17
@ret r
@spec
    ensures r == (match *self { ExitStatus::Code(c) => c as int, ExitStatus::Cancelled => -10, ExitStatus::Disconnected => -1 }), // [C17]
@fn ExitStatus::is_success
@prop C17
@ret r
@spec
    ensures r == success_of(*self), // [C17]
@fn FinishedEvent::new_cancelled
@locals id
@prop C17
@ret r
@spec
    ensures r.id == id, r.status is Cancelled, r.stdout@ == ""@, r.stderr@ == ""@, r.values@.len() == 0, // [C17]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn FinishedEvent::new_disconnected
@locals id stderr
@prop C17
@ret r
@spec
    ensures r.id == id, r.status is Disconnected, r.stdout@ == ""@, r.stderr == stderr, r.values@.len() == 0, // [C17]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn FinishedEvent::new_error
@locals id code stderr
@prop C17
@ret r
@spec
    ensures r.id == id, r.status == ExitStatus::Code(code), r.stdout@ == ""@, r.stderr == stderr, r.values@.len() == 0, // [C17]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@source src/localrunner.rs
@item struct ChildOutput
@field status ProcStatus
@fn ChildOutput::code
@locals code code
@prop C17
@ret r
@spec
    ensures r is Code, r->Code_0 == code_of(self.status), success_of(r) <==> self.status.exit() == Some(0i32), // [C17]
@fn ChildOutput::stdout_str
@prop C17
@ret r
@spec
    ensures r@ == lossy(self.stdout@), // [C17]
@fn ChildOutput::stderr_str
@prop C17
@ret r
@spec
    ensures r@ == lossy(self.stderr@), // [C17]
@fn ChildOutput::fd3_values::parse_line free
@locals line fields s pos
@prop C17
@shape L
@ret r
@spec
    ensures
        r is Ok <==> words_of(line@) is Some, // [C17]
        r is Ok ==> same_map(r->Ok_0@, line_map(words_of(line@)->0, words_of(line@)->0.len() as int)), // [C17]
@loop 0
    invariant same_map(vx_acc0@, line_map(words_of(line@)->0, vx_it0.pos() as int)),
@hint fn-start
    broadcast use kv_at;
    proof { reveal_with_fuel(line_map, 2); }
@fn ChildOutput::fd3_values
@locals line
@prop C17
@shape L
@ret r
@spec
    ensures same_maps(r@, recorded(lines_of(lossy(self.fd3bytes@)), lines_of(lossy(self.fd3bytes@)).len() as int)), // [C17]
@loop 0
    invariant same_maps(vx_acc0@, recorded(lines_of(lossy(self.fd3bytes@)), vx_it0.pos() as int)),
@hint fn-start
    proof { reveal_with_fuel(recorded, 2); }
@fn ChildOutput::to_event
@locals id
@prop C17
@ret r
@spec
    ensures
        r.id == id, r.status is Code, r.status->Code_0 == code_of(self.status), // [C17]
        r.stdout@ == lossy(self.stdout@), r.stderr@ == lossy(self.stderr@), // [C17]
        same_maps(r.values@, recorded(lines_of(lossy(self.fd3bytes@)), lines_of(lossy(self.fd3bytes@)).len() as int)), // [C17]
