@unit local
@include prelude.rs
@include iter.rs
@include time.rs
@include timeops.rs
@include collections.rs
@include petgraph.rs
@include strings.rs
@include outcomestub.rs
@include procstub.rs
@include localstub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@typemap Graph DiGraph
@index subgraph vx_at
@methodmap to_string vx_to_string
@methodmap to_owned vx_to_string
@methodmap clone vx_clone
@pathmap tokio_pipe::pipe vx_pipe
@pathmap tokio::spawn vx_spawn
@pathmap Instant::now vx_now
@pathmap std::time::Instant::now vx_now
@pathmap std::time::SystemTime::now vx_now
@effcalls recv send_started send_finished spawn soft_cancelled hard_cancelled write_all vx_now
@source src/execgraph.rs
@item struct Cmd
@dropfields display preamble postamble affinity
@source src/sync.rs
@item enum ExitStatus
@item struct FinishedEvent
@fn FinishedEvent::new_cancelled
@locals id
@prop C17
@ret r
@spec
    ensures r.id == id, r.status is Cancelled, r.stdout@ == ""@, r.stderr@ == ""@, r.values@.len() == 0, // [C17]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn FinishedEvent::new_error
@locals id code stderr
@prop C17
@ret r
@spec
    ensures r.id == id, r.status == ExitStatus::Code(code), r.stdout@ == ""@, r.stderr == stderr, r.values@.len() == 0, // [C17]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@source src/localrunner.rs
@item struct ChildOutput
@field status ProcStatus
@item enum LocalQueueType
@fn ChildOutput::to_event trusted
@ret r
@spec
    ensures
        r.id == id, r.status is Code, r.status->Code_0 == code_of(self.status),
        r.stdout@ == lossy(self.stdout@), r.stderr@ == lossy(self.stderr@),
        same_maps(r.values@, recorded(lines_of(lossy(self.fd3bytes@)), lines_of(lossy(self.fd3bytes@)).len() as int)),
@fn wait_with_output::read_to_end free
@locals pipe buf pipe
@prop C17
@paramty pipe &mut Option<PipeRead>
@retty Result<Vec<u8>, IoError>
@ret r
@spec
    ensures r is Ok ==> r->Ok_0@ =~= captured(*old(pipe)), // [C17]
@fn wait_with_output free
@locals child fd stdout_pipe stderr_pipe fd f1 f2 f3 status stdout stderr fd3bytes
@prop C17
@ret r
@spec
    ensures r is Ok ==> r->Ok_0.status == child.p.exit() && r->Ok_0.stdout@ == captured(child.stdout) && r->Ok_0.stderr@ == captured(child.stderr) && r->Ok_0.fd3bytes@ == written(fd.pipe()), // [C17]
@text
// ---- one task after the other -----------------------------------------------------------------------
/// where a runner is: the task it has, the times read since it has it, its process, what was said about it; and which property it broke
pub ghost struct Ph { pub task: Option<nat>, pub clocks: ISet<int>, pub asked: bool, pub proc: Option<Proc>, pub fds: Fds, pub fed: bool, pub started: bool, pub told: Option<CancellationState>, pub b06: bool, pub b14: bool, pub b17: bool }
pub open spec fn idle() -> Ph { Ph { task: None, clocks: ISet::empty(), asked: false, proc: None, fds: Map::empty(), fed: false, started: false, told: None, b06: false, b14: false, b17: false } }
pub open spec fn q_of(console: bool) -> u32 { if console { 1 } else { 0 } }
/// the process of a task is started from that task's command line, its streams captured unless on the console, a pipe on its descriptor 3
pub open spec fn right_how(how: How, c: Cmd, console: bool) -> bool {
    &&& how.prog == c.cmdline@[0]@ && how.args =~= c.cmdline@.skip(1)
    &&& how.dies
    &&& if console { how.stdin is Inherit && how.stdout is Inherit && how.stderr is Inherit } else { how.stdin is Null && how.stdout is Piped && how.stderr is Piped }
    &&& how.fds.contains_key(3) && how.fds[3].write
    &&& c.fd_input is Some ==> how.fds.contains_key((c.fd_input->0).0 as int) && !how.fds[(c.fd_input->0).0 as int].write
}
/// the outcome is that of the process: how it ended, what it printed, the values it sent, after it was sent its input
pub open spec fn right_done(s: Ph, c: Cmd, status: ExitStatus, stdout: Str, stderr: Str, values: Seq<HashMap<String, String>>) -> bool {
    s.asked && status is Code && match s.proc {
        None => status->Code_0 == -1,
        Some(p) => status->Code_0 == code_of(p.exit()) && stdout == lossy(p.out()) && stderr == lossy(p.err()) && s.fed == c.fd_input is Some
            && same_maps(values, recorded(lines_of(lossy(written(s.fds[3].pipe))), lines_of(lossy(written(s.fds[3].pipe))).len() as int)),
    }
}
pub open spec fn step(cmds: Seq<&Cmd>, console: bool, s: Ph, e: Ev) -> Ph {
    let c = *cmds[s.task->0 as int];
    match e {
        Ev::Clock { t } => Ph { clocks: s.clocks.insert(t), ..s },
        Ev::Take { q, v } => Ph { task: Some(v), b06: s.b06 || s.task is Some, b14: s.b14, b17: s.b17 || q != q_of(console), ..idle() },
        Ev::Spawn { how, child } => Ph { asked: true, proc: child, fds: how.fds, b17: s.b17 || s.task is None || s.asked || !right_how(how, c, console), ..s },
        Ev::Input { pipe, bytes } => Ph { fed: true, b17: s.b17 || s.task is None || s.fed || !(s.proc is Some && c.fd_input is Some && s.fds[(c.fd_input->0).0 as int].pipe == pipe && bytes == (c.fd_input->0).1@), ..s },
        Ev::Started { v, host, pid, job } => Ph { started: true, b06: s.b06 || s.task != Some(v) || s.started, b17: s.b17 || !(s.asked && host == this_host() && job == ""@ && pid == (match s.proc { Some(p) => p.pid(), None => 0u32 })), ..s },
        Ev::Told { since, state } => Ph { told: Some(state), b14: s.b14 || s.task is None || (state is CancelledAfterTime && !s.clocks.contains(since)), ..s },
        Ev::Done { v, status, stdout, stderr, values } => Ph {
            b06: s.b06 || s.task != Some(v) || !s.started,
            b14: s.b14 || s.told is Some != status is Cancelled,
            b17: s.b17 || (s.told is None && !right_done(s, c, status, stdout, stderr, values)),
            ..idle() },
    }
}
pub open spec fn phase(cmds: Seq<&Cmd>, console: bool, h: Seq<Ev>) -> Ph decreases h.len() { if h.len() == 0 { idle() } else { step(cmds, console, phase(cmds, console, h.drop_last()), h.last()) } }
pub broadcast proof fn phase_push(cmds: Seq<&Cmd>, console: bool, h: Seq<Ev>, e: Ev) ensures #[trigger] phase(cmds, console, h.push(e)) == step(cmds, console, phase(cmds, console, h), e) { assert(h.push(e).drop_last() =~= h); }
@fn run_local_process_loop free eff panics-ok
@locals subgraph tracker token local_queue_type eff hostname runnertypeid subgraph_node_id cmd fd3_read_pipe fd3_write_pipe fd4_read_pipe fd4_write_pipe read write fd_mapping vx_v command maybe_child start_time child child e p _fd buf pid output cancel output
@prop C04 C06 C14 C17
@paramty subgraph &DiGraph<&Cmd, ()>
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires
        old(eff).hist().len() == 0, tracker.n() == subgraph.n(), forall|i: int| 0 <= i < subgraph.n() ==> (#[trigger] subgraph.nodes()[i]).cmdline@.len() > 0,
    ensures
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, final(eff).hist()).b06, // [C06] taken, started, done: each task once, in this order
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, final(eff).hist()).b14, // [C14] cancelled if and only if the token says so of a time read since the task was taken
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, final(eff).hist()).b17, // [C17] the task's own process and its outcome
        phase(subgraph.nodes(), local_queue_type is ConsoleQueue, final(eff).hist()).task is None || phase(subgraph.nodes(), local_queue_type is ConsoleQueue, final(eff).hist()).told == Some(CancellationState::HardCancelled), // [C04] no task is left unreported, short of a hard cancellation
@loop 0
    invariant
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, eff.hist()).b06, // [C06]
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, eff.hist()).b14, // [C14]
        !phase(subgraph.nodes(), local_queue_type is ConsoleQueue, eff.hist()).b17, // [C17]
        phase(subgraph.nodes(), local_queue_type is ConsoleQueue, eff.hist()).task is None, // [C04]
@hint fn-start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
    broadcast use phase_push, map_of_push;
