@unit rrun
@include prelude.rs
@include iter.rs
@include time.rs
@include timeops.rs
@include collections.rs
@include petgraph.rs
@include strings.rs
@include outcomestub.rs
@include procstub.rs
@include rrunstub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error info
@methodmap to_string vx_to_string
@methodmap to_owned vx_to_string
@methodmap clone vx_clone
@methodmap try_into vx_try_into
@pathmap tokio_pipe::pipe vx_pipe
@pathmap tokio::spawn vx_spawn
@pathmap tokio::time::timeout vx_timeout
@armed sleep_until vx_armed_sleep_until
@effcalls run_command vx_armed_sleep_until send recv postcard wait_with_output spawn write_all sleep_until kill still_accepting_tasks
@source src/sync.rs
@item enum ExitStatus
@fn ExitStatus::as_i32 trusted
@ret r
@spec
    ensures r == (match *self { ExitStatus::Code(c) => c as int, ExitStatus::Cancelled => -10, ExitStatus::Disconnected => -1 }),
@source src/httpinterface.rs
@item struct Ping
@item struct StartRequest
@item struct StartResponse
@item struct BegunRequest
@item struct EndRequest
@item struct EndResponse
@source src/localrunner.rs
@item struct ChildOutput
@field status ProcStatus
@fn ChildOutput::code trusted
@ret r
@spec
    ensures r is Code, r->Code_0 == code_of(self.status),
@fn ChildOutput::stdout_str trusted
@ret r
@spec
    ensures r@ == lossy(self.stdout@),
@fn ChildOutput::stderr_str trusted
@ret r
@spec
    ensures r@ == lossy(self.stderr@),
@fn ChildOutput::fd3_values trusted
@ret r
@spec
    ensures same_maps(r@, recorded(lines_of(lossy(self.fd3bytes@)), lines_of(lossy(self.fd3bytes@)).len() as int)),
@fn wait_with_output free trusted eff
@ret r
@spec
    ensures
        final(eff).hist() == old(eff).hist().push(Ev::Waited),
        r is Ok ==> r->Ok_0.status == child.p.exit() && r->Ok_0.stdout@ == captured(child.stdout) && r->Ok_0.stderr@ == captured(child.stderr) && r->Ok_0.fd3bytes@ == written(fd.pipe()),
@source src/bin/execgraph-remote.rs
@item struct CommandLineArguments
@dropfields url slurm_error_logfile
@item struct SigtermChildBeforeSchedulerDeadline
@item struct TimingInfo
@fn SigtermChildBeforeSchedulerDeadline::message trusted
@fn SigtermChildBeforeSchedulerDeadline::new trusted
@ret r
@spec
    ensures r.deadline@ == stop_at(*opt), // unit remote says when that is
@fn still_accepting_tasks free trusted eff
@ret r
@spec
    ensures final(eff).hist() == old(eff).hist().push(Ev::Asked { yes: r }),
@text
// ---- one task of a remote runner ------------------------------------------------------------------------
pub ghost struct Rp { pub cur: Option<StartResponse>, pub asked: bool, pub proc: Option<Proc>, pub fds: Fds, pub fed: bool, pub begun: bool, pub ended: bool,
    pub wants: Option<bool>, pub armed: bool, pub slept: bool, pub due: bool, pub slurm: bool, pub b15: bool, pub b17: bool, pub b19: bool }
pub open spec fn fresh(start: Option<StartResponse>) -> Rp { Rp { cur: start, asked: false, proc: None, fds: Map::empty(), fed: false, begun: false, ended: false, wants: None, armed: false, slept: false, due: false, slurm: false, b15: false, b17: false, b19: false } }
#[verifier::opaque] pub open spec fn right_how(how: How, c: StartResponse) -> bool {
    &&& how.prog == c.cmdline@[0]@ && how.args =~= c.cmdline@.skip(1)
    &&& how.stdin is Null && how.stdout is Piped && how.stderr is Piped
    &&& how.fds.contains_key(3) && how.fds[3].write
    &&& c.fd_input is Some ==> how.fds.contains_key((c.fd_input->0).0 as int) && !how.fds[(c.fd_input->0).0 as int].write
}
pub open spec fn ends_with(a: Str, b: Str) -> bool { a.len() >= b.len() && a.skip(a.len() - b.len()) =~= b }
/// the outcome is that of the process: how it ended, what it printed, the values it sent, after it was sent its input
#[verifier::opaque] pub open spec fn right_end(s: Rp, c: StartResponse, e: EndRequest) -> bool {
    s.asked && match s.proc {
        None => e.status != 0,
        Some(p) => if s.slurm { e.status != 0 } else {
            &&& e.status == code_of(p.exit()) && e.stdout@ == lossy(p.out()) && ends_with(e.stderr@, lossy(p.err())) && (!s.slept ==> e.stderr@ =~= lossy(p.err()))
            &&& s.fed == c.fd_input is Some
            &&& same_maps(e.values@, recorded(lines_of(lossy(written(s.fds[3].pipe))), lines_of(lossy(written(s.fds[3].pipe))).len() as int))
        },
    }
}
pub broadcast proof fn easy_end(s: Rp, c: StartResponse, e: EndRequest) requires s.asked, s.proc is None || s.slurm, e.status != 0 ensures #[trigger] right_end(s, c, e) { reveal(right_end); }
pub open spec fn own(q: StartRequest, opt: &CommandLineArguments) -> bool { q.runnertypeid == opt.runnertypeid && q.disconnect_error_message == opt.disconnect_error_message }
pub open spec fn start_sent(opt: &CommandLineArguments, s: Rp, route: Str, q: StartRequest) -> Rp { Rp { b15: s.b15 || s.cur is Some || route != "start"@ || !own(q, opt), ..s } }
pub open spec fn ping_sent(s: Rp, route: Str, p: Ping) -> Rp { Rp { b15: s.b15 || s.cur is None || route != "ping"@ || p.transaction_id != s.cur->0.transaction_id, ..s } }
pub open spec fn begun_sent(s: Rp, route: Str, b: BegunRequest) -> Rp { Rp { begun: true,
    b15: s.b15 || s.cur is None || route != "begun"@ || b.transaction_id != s.cur->0.transaction_id || s.begun || s.ended,
    b17: s.b17 || !s.asked || b.host@ != this_host() || b.pid != (match s.proc { Some(p) => p.pid(), None => 0u32 }), ..s } }
pub open spec fn end_sent(opt: &CommandLineArguments, s: Rp, route: Str, e: EndRequest) -> Rp { Rp { ended: true,
    b15: s.b15 || s.cur is None || route != "end"@ || e.transaction_id != s.cur->0.transaction_id || !s.begun || s.ended || (e.start_request is Some && !own(e.start_request->0, opt)),
    b17: s.b17 || !right_end(s, s.cur->0, e),
    b19: s.b19 || s.due || (s.proc is Some && !s.armed) || e.start_request is Some != (s.wants == Some(true)) || (s.wants is None && !s.slurm), ..s } }
/// the answer to the report of an end brings the next task, or none
pub open spec fn next(s: Rp, r: EndResponse) -> Rp { Rp { b15: s.b15 || !s.ended, b17: s.b17, b19: s.b19, ..fresh(r.start_response) } }
pub open spec fn heard(s: Rp, msg: Msg) -> Rp { match msg {
    Msg::StartR(r) => if s.cur is Some { Rp { b15: true, ..s } } else { Rp { cur: Some(r), ..s } },
    Msg::EndR(r) => next(s, r),
    _ => s,
} }
pub open spec fn spawned(s: Rp, how: How, child: Option<Proc>) -> Rp { Rp { asked: true, proc: child, fds: how.fds, wants: None, b17: s.b17 || s.cur is None || s.asked || !right_how(how, s.cur->0), ..s } }
pub open spec fn input(s: Rp, pipe: int, bytes: Seq<u8>) -> Rp { Rp { fed: true, b17: s.b17 || s.cur is None || s.fed || !(s.proc is Some && s.cur->0.fd_input is Some && s.fds[(s.cur->0.fd_input->0).0 as int].pipe == pipe && bytes == (s.cur->0.fd_input->0).1@), ..s } }
pub open spec fn sent(opt: &CommandLineArguments, s: Rp, route: Str, msg: Msg) -> Rp { match msg {
    Msg::Start(q) => start_sent(opt, s, route, q),
    Msg::Ping(p) => ping_sent(s, route, p),
    Msg::Begun(b) => begun_sent(s, route, b),
    Msg::End(e) => end_sent(opt, s, route, e),
    _ => Rp { b15: true, ..s },
} }
pub open spec fn step(opt: &CommandLineArguments, deadline: int, s: Rp, e: Ev) -> Rp {
    match e {
        Ev::Clock { t } => s,
        Ev::Spawn { how, child } => spawned(s, how, child),
        Ev::Input { pipe, bytes } => input(s, pipe, bytes),
        Ev::Waited => Rp { wants: None, ..s },
        Ev::Armed { t } => Rp { armed: true, b19: s.b19 || t != deadline, ..s },
        Ev::Slept { t } => Rp { slept: true, due: true, b19: s.b19 || t != deadline || s.due, ..s },
        Ev::Slurm => Rp { slurm: true, due: true, ..s },
        Ev::Kill { pid, sig } => Rp { due: false, b19: s.b19 || sig != 15 || s.proc is None || pid != s.proc->0.pid() || !s.due, ..s },
        Ev::Asked { yes } => Rp { wants: Some(yes), ..s },
        Ev::Heard { msg } => heard(s, msg),
        Ev::Sent { route, msg } => sent(opt, s, route, msg),
    }
}
pub open spec fn phase(opt: &CommandLineArguments, h: Seq<Ev>) -> Rp decreases h.len() { if h.len() == 0 { fresh(None) } else { step(opt, stop_at(*opt), phase(opt, h.drop_last()), h.last()) } }
pub broadcast proof fn phase_push(opt: &CommandLineArguments, h: Seq<Ev>, e: Ev) ensures #[trigger] phase(opt, h.push(e)) == step(opt, stop_at(*opt), phase(opt, h), e) { assert(h.push(e).drop_last() =~= h); }
pub broadcast proof fn push_sp(opt: &CommandLineArguments, h: Seq<Ev>, how: How, child: Option<Proc>) ensures #[trigger] phase(opt, h.push(Ev::Spawn { how, child })) == spawned(phase(opt, h), how, child) { phase_push(opt, h, Ev::Spawn { how, child }); }
pub broadcast proof fn push_inp(opt: &CommandLineArguments, h: Seq<Ev>, pipe: int, bytes: Seq<u8>) ensures #[trigger] phase(opt, h.push(Ev::Input { pipe, bytes })) == input(phase(opt, h), pipe, bytes) { phase_push(opt, h, Ev::Input { pipe, bytes }); }
pub broadcast proof fn push_w(opt: &CommandLineArguments, h: Seq<Ev>) ensures #[trigger] phase(opt, h.push(Ev::Waited)) == (Rp { wants: None, ..phase(opt, h) }) { phase_push(opt, h, Ev::Waited); }
pub broadcast proof fn push_ar(opt: &CommandLineArguments, h: Seq<Ev>, t: int) ensures #[trigger] phase(opt, h.push(Ev::Armed { t })) == (Rp { armed: true, b19: phase(opt, h).b19 || t != stop_at(*opt), ..phase(opt, h) }) { phase_push(opt, h, Ev::Armed { t }); }
pub broadcast proof fn push_sl(opt: &CommandLineArguments, h: Seq<Ev>, t: int) ensures #[trigger] phase(opt, h.push(Ev::Slept { t })) == (Rp { slept: true, due: true, b19: phase(opt, h).b19 || t != stop_at(*opt) || phase(opt, h).due, ..phase(opt, h) }) { phase_push(opt, h, Ev::Slept { t }); }
pub broadcast proof fn push_slurm(opt: &CommandLineArguments, h: Seq<Ev>) ensures #[trigger] phase(opt, h.push(Ev::Slurm)) == (Rp { slurm: true, due: true, ..phase(opt, h) }) { phase_push(opt, h, Ev::Slurm); }
pub broadcast proof fn push_k(opt: &CommandLineArguments, h: Seq<Ev>, pid: int, sig: int) ensures #[trigger] phase(opt, h.push(Ev::Kill { pid, sig })) == (Rp { due: false, b19: phase(opt, h).b19 || sig != 15 || phase(opt, h).proc is None || pid != phase(opt, h).proc->0.pid() || !phase(opt, h).due, ..phase(opt, h) }) { phase_push(opt, h, Ev::Kill { pid, sig }); }
pub broadcast proof fn push_as(opt: &CommandLineArguments, h: Seq<Ev>, yes: bool) ensures #[trigger] phase(opt, h.push(Ev::Asked { yes })) == (Rp { wants: Some(yes), ..phase(opt, h) }) { phase_push(opt, h, Ev::Asked { yes }); }
pub broadcast proof fn push_sr(opt: &CommandLineArguments, h: Seq<Ev>, r: StartResponse) ensures #[trigger] phase(opt, h.push(Ev::Heard { msg: Msg::StartR(r) })) == heard(phase(opt, h), Msg::StartR(r)) { phase_push(opt, h, Ev::Heard { msg: Msg::StartR(r) }); }
pub broadcast proof fn push_er(opt: &CommandLineArguments, h: Seq<Ev>, r: EndResponse) ensures #[trigger] phase(opt, h.push(Ev::Heard { msg: Msg::EndR(r) })) == next(phase(opt, h), r) { phase_push(opt, h, Ev::Heard { msg: Msg::EndR(r) }); }
pub broadcast proof fn push_s1(opt: &CommandLineArguments, h: Seq<Ev>, route: Str, q: StartRequest) ensures #[trigger] phase(opt, h.push(Ev::Sent { route, msg: Msg::Start(q) })) == start_sent(opt, phase(opt, h), route, q) { phase_push(opt, h, Ev::Sent { route, msg: Msg::Start(q) }); }
pub broadcast proof fn push_s2(opt: &CommandLineArguments, h: Seq<Ev>, route: Str, q: BegunRequest) ensures #[trigger] phase(opt, h.push(Ev::Sent { route, msg: Msg::Begun(q) })) == begun_sent(phase(opt, h), route, q) { phase_push(opt, h, Ev::Sent { route, msg: Msg::Begun(q) }); }
pub broadcast proof fn push_s3(opt: &CommandLineArguments, h: Seq<Ev>, route: Str, q: EndRequest) ensures #[trigger] phase(opt, h.push(Ev::Sent { route, msg: Msg::End(q) })) == end_sent(opt, phase(opt, h), route, q) { phase_push(opt, h, Ev::Sent { route, msg: Msg::End(q) }); }
pub broadcast proof fn push_s4(opt: &CommandLineArguments, h: Seq<Ev>, route: Str, q: Ping) ensures #[trigger] phase(opt, h.push(Ev::Sent { route, msg: Msg::Ping(q) })) == ping_sent(phase(opt, h), route, q) { phase_push(opt, h, Ev::Sent { route, msg: Msg::Ping(q) }); }
pub broadcast group pushes { push_sp, push_inp, push_w, push_ar, push_sl, push_slurm, push_k, push_as, push_sr, push_er, push_s1, push_s2, push_s3, push_s4 }
@fn run_command free eff panics-ok formats
@locals opt base client notify_rx start time_to_sigterm_child eff start_route ping_route begun_route end_route t_before_start_request start s start_time_request_elapsed ping_interval transaction_id ping_timeout token token1 token2 token3 _drop_guard pongs_tx pongs_rx client1 interval pongs_tx token2 _vx request r e _vx to _vx read_fd3 write_fd3 fd4_read_pipe fd4_write_pipe read write fd_mapping vx_v command t_before_spawn maybe_child child child value _vx value r _vx p _fd buf pid value _vx child_futures stderr_prefix output output maybe_output _vx maybe_slurm_error_message slurm_error_message e _vx t_finished time_executing_command t_before_end_request end_request value r end_request_elapsed _vx
@prop C15 C17 C19
@paramty base &Url
@paramty client &Client
@paramty notify_rx &mut SlurmReceiver
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires
        phase(opt, old(eff).hist()) == fresh(start), // [C15] the task it was given, nothing done for it yet
        start is Some ==> start->0.cmdline@.len() > 0, // [C15]
        time_to_sigterm_child.deadline@ == stop_at(*opt), // [C19]
    ensures
        !phase(opt, final(eff).hist()).b15, // [C15]
        !phase(opt, final(eff).hist()).b17, // [C17]
        !phase(opt, final(eff).hist()).b19, // [C19]
        r is Ok ==> phase(opt, final(eff).hist()) == fresh((r->Ok_0).1), // [C15]
        r is Ok && (r->Ok_0).1 is Some ==> (r->Ok_0).1->0.cmdline@.len() > 0, // [C15]
        !phase(opt, final(eff).hist()).due, // [C19]
@hint fn-start
    hide(phase); hide(step);
    broadcast use pushes, easy_end, fmt2_is_concat;
    proof { reveal_strlit(""); }
@hint after-let t_before_spawn
    let ghost how: How = How { prog: start.cmdline@[0]@, args: start.cmdline@.skip(1), stdin: Stdio::Null, stdout: Stdio::Piped, stderr: Stdio::Piped, fds: map_of(fd_mapping@), dies: false };
    let ghost fdm = fd_mapping@;
@hint after-let maybe_child
    assert(eff.hist().last()->how.args =~= how.args); // [C17]
    assert(eff.hist().last()->how == how); // [C17]
    assert(right_how(how, start)) by { // [C17]
        reveal(right_how);
        broadcast use map_of_push;
        assert(distinct(fdm)); // [C17]
        if start.fd_input is Some {
            assert(fdm =~= seq![fdm[0], fdm[1]]);
            assert(fdm =~= seq![fdm[0]].push(fdm[1]));
        } 
        assert(fdm[0] == seq![fdm[0]][0]);
        assert(seq![fdm[0]] =~= Seq::<FdMapping>::empty().push(fdm[0]));
    }
@hint before-loop 0
    let ghost ph0 = phase(opt, eff.hist());
@loop 0
    invariant phase(opt, eff.hist()) == ph0, // [C15]
@hint before-loop 1
    let ghost ph1 = phase(opt, eff.hist());
@loop 1
    invariant phase(opt, eff.hist()) == ph1, // [C15]
@hint before-loop 2
    let ghost ph2 = phase(opt, eff.hist());
@loop 2
    invariant
        phase(opt, eff.hist()) == (Rp { slept: stderr_prefix is Some, armed: phase(opt, eff.hist()).armed, ..ph2 }), // [C19]
        stderr_prefix is Some ==> phase(opt, eff.hist()).armed, // [C19]
@hint after-let end_request
    assert(right_end(phase(opt, eff.hist()), start, end_request)) by { reveal(right_end); } // [C17]
@fn main free eff panics-ok formats
@locals opt base client rx eff timing_info start_response e this_timing_info this_start_response
@prop C15 C19
@keepfrom let mut start_response
@keepfrom let mut timing_info
@keepto loop
@addparam opt: CommandLineArguments
@addparam base: Url
@addparam client: Client
@addparam mut rx: SlurmReceiver
@retty -
@renameto main_loop
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires old(eff).hist().len() == 0,
@hint fn-start
    assert(phase(&opt, eff.hist()) == fresh(None));
@loop 0
    invariant
        phase(&opt, eff.hist()) == fresh(start_response), // [C15] what the last answer brought is what is run next
        start_response is Some ==> start_response->0.cmdline@.len() > 0, // [C15]
