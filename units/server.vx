@unit server
@include prelude.rs
@include iter.rs
@include time.rs
@include timeops.rs
@include collections.rs
@include petgraph.rs
@include strings.rs
@include serverstub.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@typemap Graph DiGraph
@index subgraph vx_at
@methodmap to_owned vx_to_string
@source src/constants.rs
@item const PING_INTERVAL_MSECS
@item const PING_TIMEOUT_MSECS
@constfn HOLD_RATETIMITED_TIME
@source src/execgraph.rs
@item struct Cmd
@field cmdline OsVec
@field fd_input FdIn
@dropfields display preamble postamble affinity
@source src/httpinterface.rs
@item struct Ping
@item struct MarkSlurmJobCancelationRequest
@item struct MarkSlurmJobCancelationReply
@item struct StartRequest
@item struct StartResponse
@field cmdline OsVec
@field fd_input FdIn
@item struct BegunRequest
@item struct EndRequest
@item struct EndResponse
@source src/sync.rs
@item enum ExitStatus
@item struct FinishedEvent
@fn FinishedEvent::new_disconnected
@locals id stderr
@prop C15
@ret r
@spec
    ensures r.id == id, r.status is Disconnected, r.stderr == stderr, // [C15]
@source src/server.rs
@item struct ConnectionState
@item enum AppError
@item struct State
@field connections DashMap
@field subgraph &'a DiGraph<Cmd, ()>
@field tracker Tracker
@field timeouts TimeWheel
@field token CancellationToken
@field authorization_token Tok
@field cancelled_slurm_jobids RwLock
@dropfields provisioner
@item const TIMEWHEEL_DURATION_MSECS
@text
impl<'a> State<'a> {
    /// every open transaction has its timer, which is set and about it
    pub open spec fn wf(&self) -> bool {
        &&& self.timeouts.span() >= PING_TIMEOUT_MSECS * 1_000_000
        &&& self.tracker.n() == self.subgraph.n()
        &&& forall|t: u32| #[trigger] self.connections@.contains_key(t) ==> self.timeouts.live().contains_key(self.connections@[t].timer_id@) && self.timeouts.live()[self.connections@[t].timer_id@] == t && self.connections@[t].node_id.ix < self.subgraph.n()
    }
    pub open spec fn may(&self, a: Authorization<Bearer>) -> bool { a.tok() == self.authorization_token@ }
    pub open spec fn banned(&self, job: Str) -> bool { self.cancelled_slurm_jobids@.contains(job) }
}
/// nothing changed
pub open spec fn same(a: &State, b: &State) -> bool { rest(a, b) && b.connections@ =~= a.connections@ && b.timeouts.live() =~= a.timeouts.live() && b.tracker.hist() =~= a.tracker.hist() && b.cancelled_slurm_jobids@ =~= a.cancelled_slurm_jobids@ }
/// the transaction k got a new timer instead of the one it had
pub open spec fn renewed(a: &State, b: &State, k: u32) -> bool {
    let (ca, cb) = (a.connections@, b.connections@);
    &&& rest(a, b) && b.tracker.hist() == a.tracker.hist() && b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@
    &&& cb.dom() =~= ca.dom() && (forall|t: u32| t != k && #[trigger] ca.contains_key(t) ==> cb[t] == ca[t]) && same_but_timer(ca[k], cb[k])
    &&& !a.timeouts.live().remove(ca[k].timer_id@).contains_key(cb[k].timer_id@) && b.timeouts.live() == a.timeouts.live().remove(ca[k].timer_id@).insert(cb[k].timer_id@, k)
}
pub open spec fn same_but_timer(a: ConnectionState, b: ConnectionState) -> bool { b == ConnectionState { timer_id: b.timer_id, ..a } }
/// only transactions and timers may differ
pub open spec fn rest(a: &State, b: &State) -> bool { b.subgraph == a.subgraph && b.authorization_token == a.authorization_token && b.tracker.n() == a.tracker.n() && b.timeouts.span() == a.timeouts.span() }
@fn State::new
@locals subgraph tracker token authorization_token
@prop C15 C21
@paramty subgraph &'a DiGraph<Cmd, ()>
@paramty tracker Tracker
@paramty provisioner -
@paramty authorization_token Tok
@paramty token CancellationToken
@ret r
@spec
    requires tracker.n() == subgraph.n()
    ensures r.wf(), r.connections@ == Conns::empty(), r.cancelled_slurm_jobids@ =~= Set::<Str>::empty(), // [C15]
        r.authorization_token == authorization_token, // [C21]
@fn ping_handler
@locals authorization state request cstate cstate
@prop C15 C21
@paramty state &mut State
@ret r
@spec
    requires old(state).wf()
    ensures
        !old(state).may(authorization) ==> r == Err::<Response, AppError>(AppError::Unauthorized) && same(old(state), final(state)), // [C21]
        old(state).may(authorization) && !old(state).connections@.contains_key(request.transaction_id) ==> same(old(state), final(state)), // [C15]
        old(state).may(authorization) && old(state).connections@.contains_key(request.transaction_id) ==> r is Ok && renewed(old(state), final(state), request.transaction_id), // [C15]
        final(state).wf(), // [C15]
@text
/// the text of the job header
pub open spec fn job_of(h: HeaderMap) -> Option<Str> { match h.job() { Hdr::Text(j) => Some(j), _ => None } }
/// a task was taken and is held by a new transaction
pub open spec fn handed(c: Conns, live: Map<int, u32>, b: &State, q: StartRequest, job: Str, p: StartResponse) -> bool {
    let t = p.transaction_id; let x = b.connections@[t]; let cmd = b.subgraph.nodes()[x.node_id.ix as int];
    &&& !c.contains_key(t) && b.connections@ =~= c.insert(t, x) // [C15]
    &&& !live.contains_key(x.timer_id@) && b.timeouts.live() =~= live.insert(x.timer_id@, t) // [C15]
    &&& x.slurm_jobid@ == job && !x.begun && x.disconnect_error_message == q.disconnect_error_message && x.cmd == cmd // [C15]
    &&& p.cmdline == cmd.cmdline && p.fd_input == cmd.fd_input // [C15]
}
pub open spec fn start_post(a: &State, b: &State, h0: Seq<Ev>, q: StartRequest, job: Str, r: Result<StartResponse, AppError>) -> bool {
    &&& rest(a, b) && b.wf() // [C15]
    &&& r is Err ==> b.tracker.hist() == h0 // [C15] [C21]
    &&& r is Ok ==> b.tracker.hist() == h0.push(Ev::Take { v: b.connections@[r->Ok_0.transaction_id].node_id.ix as nat }) && exists|c: Conns, live: Map<int, u32>| #[trigger] handed(c, live, b, q, job, r->Ok_0) // [C15]
}
@fn start_request_impl
@locals state request runner_slurm_jobid cancelled_slurm_jobids node_id _vx _vx r e cmd slot slot transaction_id timer_id
@prop C15 C21
@paramty state &mut State
@letty vx_lv0 VacantEntry
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@ret r
@spec
    requires old(state).wf()
    ensures
        start_post(old(state), final(state), old(state).tracker.hist(), request, runner_slurm_jobid@, r), // [C15]
        old(state).banned(runner_slurm_jobid@) ==> r == Err::<StartResponse, AppError>(AppError::Shutdown) && same(old(state), final(state)), // [C21]
@hint before-call vx_select 0
    state.vx_env();
@hint before-loop 0
    let ghost c0 = state.connections@;
    let ghost l0 = state.timeouts.live();
@loop 0
    invariant_except_break
        state.connections@ == c0,
    ensures
        !c0.contains_key(vx_lv0.k), (*vx_lv0.m)@ == c0,
@hint fn-end
    proof { if vx_ret is Ok { assert(handed(c0, l0, state, request, runner_slurm_jobid@, vx_ret->Ok_0)); } }
@fn start_handler
@locals authorization headers state request runner_slurm_jobid headervalue jobid
@prop C15 C21
@paramty state &mut State
@ret r
@spec
    requires old(state).wf()
    ensures
        !old(state).may(authorization) ==> r == Err::<Postcard<StartResponse>, AppError>(AppError::Unauthorized) && same(old(state), final(state)), // [C21]
        old(state).may(authorization) && job_of(headers) is None ==> r is Err && same(old(state), final(state)), // [C15] [C21]
        old(state).may(authorization) && job_of(headers) is Some && old(state).banned(job_of(headers)->0) ==> r is Err && same(old(state), final(state)), // [C21]
        old(state).may(authorization) && job_of(headers) is Some ==> (r is Ok ==> start_post(old(state), final(state), old(state).tracker.hist(), request, job_of(headers)->0, Ok(r->Ok_0.0))) && (r is Err ==> start_post(old(state), final(state), old(state).tracker.hist(), request, job_of(headers)->0, Err(r->Err_0))), // [C15]
@text
/// the transaction k is marked as begun
pub open spec fn marked(a: &State, b: &State, k: u32, host: Str, pid: u32, job: Str) -> bool {
    let (ca, cb) = (a.connections@, b.connections@);
    &&& rest(a, b) && b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@ && b.timeouts.live() == a.timeouts.live()
    &&& cb =~= ca.insert(k, ConnectionState { begun: true, ..ca[k] })
    &&& b.tracker.hist() == a.tracker.hist().push(Ev::Started { v: ca[k].node_id.ix as nat, host, pid, job })
}
@fn begun_handler
@locals authorization headers state request cstate runner_slurm_jobid headervalue jobid
@prop C15 C21
@paramty state &mut State
@ret r
@spec
    requires old(state).wf()
    ensures
        final(state).wf(), // [C15]
        !old(state).may(authorization) ==> r == Err::<Response, AppError>(AppError::Unauthorized) && same(old(state), final(state)), // [C21]
        old(state).may(authorization) && !old(state).connections@.contains_key(request.transaction_id) ==> r == Err::<Response, AppError>(AppError::NoSuchTransaction) && same(old(state), final(state)), // [C15]
        old(state).may(authorization) && old(state).connections@.contains_key(request.transaction_id) ==> {
            &&& job_of(headers) is None ==> r is Err && same(old(state), final(state)) // [C15]
            &&& job_of(headers) is Some ==> r is Ok
            &&& job_of(headers) is Some && old(state).connections@[request.transaction_id].begun ==> same(old(state), final(state)) // [C15]
            &&& job_of(headers) is Some && !old(state).connections@[request.transaction_id].begun ==> marked(old(state), final(state), request.transaction_id, request.host@, request.pid, job_of(headers)->0) // [C15]
        },
@text
/// the transaction k ended with the outcome in q
pub open spec fn ended(a: &State, b: &State, q: EndRequest) -> bool {
    let k = q.transaction_id; let x = a.connections@[k];
    &&& rest(a, b) && b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@
    &&& b.connections@ =~= a.connections@.remove(k) && b.timeouts.live() =~= a.timeouts.live().remove(x.timer_id@)
    &&& b.tracker.hist() == done_hist(a, q)
}
pub open spec fn done_hist(a: &State, q: EndRequest) -> Seq<Ev> {
    a.tracker.hist().push(Ev::Done { v: a.connections@[q.transaction_id].node_id.ix as nat, status: ExitStatus::Code(q.status), stdout: q.stdout@, stderr: q.stderr@, values: q.values })
}
/// the job j holds the transaction k
pub open spec fn holds(a: &State, k: u32, j: Option<Str>) -> bool { j is Some && a.connections@.contains_key(k) && a.connections@[k].slurm_jobid@ == j->0 }
@fn end_handler
@locals authorization headers state request runner_slurm_jobid headervalue jobid cstate _transaction_id cstate cstate flag start_request _vx _vx resp
@prop C15 C21
@paramty state &mut State
@ret r
@spec
    requires old(state).wf()
    ensures
        final(state).wf(), // [C15]
        !old(state).may(authorization) ==> r == Err::<Postcard<EndResponse>, AppError>(AppError::Unauthorized) && same(old(state), final(state)), // [C21]
        old(state).may(authorization) && !holds(old(state), request.transaction_id, job_of(headers)) ==> r is Err && same(old(state), final(state)), // [C15]
        old(state).may(authorization) && holds(old(state), request.transaction_id, job_of(headers)) && request.start_request is None ==> r is Ok && r->Ok_0.0.start_response is None && ended(old(state), final(state), request), // [C15]
        old(state).may(authorization) && holds(old(state), request.transaction_id, job_of(headers)) && request.start_request is Some ==> {
            &&& r is Ok ==> r->Ok_0.0.start_response is Some && start_post(old(state), final(state), done_hist(old(state), request), request.start_request->0, job_of(headers)->0, Ok(r->Ok_0.0.start_response->0)) // [C15]
            &&& r is Err ==> start_post(old(state), final(state), done_hist(old(state), request), request.start_request->0, job_of(headers)->0, Err(r->Err_0)) // [C15]
        },
@hint fn-start
    let ghost vx_q = request;
@hint before-call vx_select 0
    assert(ended(old(state), state, vx_q)); // [C15]
    state.vx_env();
@text
pub open spec fn held(c: Conns, j: Str) -> bool { exists|t: u32| #[trigger] c.contains_key(t) && c[t].slurm_jobid@ == j }
pub open spec fn among(s: Seq<String>, p: int, j: Str) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i])@ == j }
pub proof fn among_step(s: Seq<String>, p: int, j: Str) requires 0 <= p < s.len() ensures among(s, p + 1, j) <==> among(s, p, j) || s[p]@ == j
{ if among(s, p + 1, j) { let i = choose|i: int| 0 <= i < p + 1 && (#[trigger] s[i])@ == j; if i < p { assert(among(s, p, j)); } } if among(s, p, j) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i])@ == j; assert(s[i]@ == j); } }
pub proof fn among_ext(s: Seq<String>, t: Seq<String>, p: int, j: Str) requires p <= s.len(), p <= t.len(), s.take(p) =~= t.take(p) ensures among(s, p, j) <==> among(t, p, j)
{ assert forall|i: int| 0 <= i < p implies s[i] == t[i] by { assert(s.take(p)[i] == t.take(p)[i]); } if among(s, p, j) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i])@ == j; assert(t[i]@ == j); } if among(t, p, j) { let i = choose|i: int| 0 <= i < p && (#[trigger] t[i])@ == j; assert(s[i]@ == j); } }
pub open spec fn jobs_upto(s: Seq<VxRef>, p: int, j: Str) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i]).slurm_jobid@ == j }
pub proof fn jobs_step(s: Seq<VxRef>, p: int, j: Str) requires 0 <= p < s.len() ensures jobs_upto(s, p + 1, j) <==> jobs_upto(s, p, j) || s[p].slurm_jobid@ == j
{ if jobs_upto(s, p + 1, j) { let i = choose|i: int| 0 <= i < p + 1 && (#[trigger] s[i]).slurm_jobid@ == j; if i < p { assert(jobs_upto(s, p, j)); } } if jobs_upto(s, p, j) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).slurm_jobid@ == j; assert(s[i].slurm_jobid@ == j); } }
pub proof fn jobs_all(s: Seq<VxRef>, m: Conns, j: Str) requires lists_conns(s, m) ensures jobs_upto(s, s.len() as int, j) <==> held(m, j)
{
    if jobs_upto(s, s.len() as int, j) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).slurm_jobid@ == j; assert(m.contains_key(s[i].k)); }
    if held(m, j) { let t = choose|t: u32| #[trigger] m.contains_key(t) && m[t].slurm_jobid@ == j; let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == t; assert(s[i].slurm_jobid@ == j); }
}
@fn mark_slurm_job_cancelation
@locals authorization state request reply_jobids cancelled_slurm_jobids running_jobids c jobid
@prop C21
@paramty state &mut State
@ret r
@spec
    requires old(state).wf()
    ensures
        final(state).wf(),
        !old(state).may(authorization) ==> r == Err::<Json<MarkSlurmJobCancelationReply>, AppError>(AppError::Unauthorized) && same(old(state), final(state)), // [C21]
        old(state).may(authorization) ==> r is Ok && rest(old(state), final(state)) && final(state).connections@ == old(state).connections@ && final(state).timeouts.live() == old(state).timeouts.live() && final(state).tracker.hist() == old(state).tracker.hist(),
        old(state).may(authorization) ==> (forall|j: Str| #[trigger] among(r->Ok_0.0.jobids@, r->Ok_0.0.jobids@.len() as int, j) <==> among(request.jobids@, request.jobids@.len() as int, j) && !held(old(state).connections@, j)), // [C21]
        old(state).may(authorization) ==> (forall|j: Str| final(state).banned(j) <==> old(state).banned(j) || #[trigger] among(r->Ok_0.0.jobids@, r->Ok_0.0.jobids@.len() as int, j)), // [C21]
@hint fn-start
    let ghost st0 = *state;
    let ghost cl0 = state.cancelled_slurm_jobids@;
@loop 0
    invariant forall|j: Str| #[trigger] vx_acc0@.contains(j) <==> jobs_upto(vx_sq0, vx_it0.pos() as int, j),
@hint loop-start 0
    proof { assert forall|j: Str| #[trigger] jobs_upto(vx_sq0, vx_it0.pos() as int, j) <==> jobs_upto(vx_sq0, vx_it0.pos() as int - 1, j) || vx_sq0[vx_it0.pos() as int - 1].slurm_jobid@ == j by { jobs_step(vx_sq0, vx_it0.pos() as int - 1, j); } }
@hint after-loop 0
    proof { assert forall|j: Str| #[trigger] jobs_upto(vx_sq0, vx_sq0.len() as int, j) <==> held(st0.connections@, j) by { jobs_all(vx_sq0, st0.connections@, j); } }
@loop 1
    invariant
        vx_sq1 == request.jobids@,
        forall|j: Str| #[trigger] among(reply_jobids@, reply_jobids@.len() as int, j) <==> among(vx_sq1, vx_it1.pos() as int, j) && !held(st0.connections@, j),
        forall|j: Str| #[trigger] cancelled_slurm_jobids@.contains(j) <==> cl0.contains(j) || among(reply_jobids@, reply_jobids@.len() as int, j),
@hint loop-start 1
    let ghost rp = reply_jobids@;
    proof { assert forall|j: Str| #[trigger] among(vx_sq1, vx_it1.pos() as int, j) <==> among(vx_sq1, vx_it1.pos() as int - 1, j) || vx_sq1[vx_it1.pos() as int - 1]@ == j by { among_step(vx_sq1, vx_it1.pos() as int - 1, j); } }
@hint loop-end 1
    proof { if reply_jobids@.len() > rp.len() { assert forall|j: Str| #[trigger] among(reply_jobids@, reply_jobids@.len() as int, j) <==> among(rp, rp.len() as int, j) || reply_jobids@[rp.len() as int]@ == j by { among_step(reply_jobids@, rp.len() as int, j); among_ext(rp, reply_jobids@, rp.len() as int, j); } } else { assert(reply_jobids@ =~= rp); } }
@text
/// t is to be cut off: its timer went off, or it started after the cutoff of a soft cancellation
pub open spec fn due(a: &State, b: &State, t: u32) -> bool {
    a.connections@.contains_key(t) && (fired(a.timeouts.live(), b.timeouts.live(), t) || (a.token.soft() matches Some(CancellationState::CancelledAfterTime(c)) && a.connections@[t].start_time_approx@ > c@))
}
pub open spec fn in_ids(ids: Seq<u32>, t: u32) -> bool { exists|i: int| 0 <= i < ids.len() && #[trigger] ids[i] == t }
pub open spec fn cut_of(x: ConnectionState) -> Ev { Ev::Done { v: x.node_id.ix as nat, status: ExitStatus::Disconnected, stdout: Seq::empty(), stderr: x.disconnect_error_message@, values: choose|v: ValueMaps| v@.len() == 0 } }
pub open spec fn is_cut(e: Ev, x: ConnectionState) -> bool { e matches Ev::Done { v, status, stderr, .. } && v == x.node_id.ix && status is Disconnected && stderr == x.disconnect_error_message@ }
/// the transactions removed, and one disconnect for each of them
pub open spec fn cut(a: &State, b: &State, ids: Seq<u32>, gone: Seq<ConnectionState>) -> bool {
    &&& gone.len() == ids.len() && ids.no_duplicates()
    &&& forall|i: int| 0 <= i < ids.len() ==> a.connections@.contains_key(#[trigger] ids[i]) && gone[i] == a.connections@[ids[i]] && !b.connections@.contains_key(ids[i])
    &&& forall|t: u32| #[trigger] b.connections@.contains_key(t) <==> a.connections@.contains_key(t) && !in_ids(ids, t)
    &&& forall|t: u32| #[trigger] b.connections@.contains_key(t) ==> b.connections@[t] == a.connections@[t]
}
pub open spec fn reported(a: &State, b: &State, ids: Seq<u32>, n: int) -> bool {
    &&& b.tracker.hist().len() == a.tracker.hist().len() + n && b.tracker.hist().take(a.tracker.hist().len() as int) =~= a.tracker.hist()
    &&& forall|i: int| 0 <= i < n ==> is_cut(#[trigger] b.tracker.hist()[a.tracker.hist().len() + i], a.connections@[ids[i]])
}
/// one round: every transaction that is due, and no other, was removed and reported as disconnected exactly once
pub open spec fn reaped(a: &State, b: &State) -> bool {
    &&& rest(a, b) && b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@
    &&& forall|t: u32| #[trigger] b.connections@.contains_key(t) <==> a.connections@.contains_key(t) && !due(a, b, t)
    &&& forall|t: u32| #[trigger] b.connections@.contains_key(t) ==> b.connections@[t] == a.connections@[t]
    &&& exists|ids: Seq<u32>| ids.no_duplicates() && (forall|t: u32| #[trigger] in_ids(ids, t) <==> due(a, b, t)) && #[trigger] reported(a, b, ids, ids.len() as int)
}
pub broadcast proof fn in_ids_push(s: Seq<u32>, x: u32, t: u32) ensures #[trigger] in_ids(s.push(x), t) <==> in_ids(s, t) || x == t
{ if in_ids(s.push(x), t) { let i = choose|i: int| 0 <= i < s.push(x).len() && #[trigger] s.push(x)[i] == t; if i < s.len() { assert(s[i] == t); } } if in_ids(s, t) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == t; assert(s.push(x)[i] == t); } if x == t { assert(s.push(x)[s.len() as int] == t); } }
pub broadcast proof fn in_ids_take(s: Seq<u32>, p: int, t: u32) requires 0 <= p < s.len() ensures #[trigger] in_ids(s.take(p + 1), t) <==> in_ids(s.take(p), t) || s[p] == t
{ assert(s.take(p + 1) =~= s.take(p).push(s[p])); in_ids_push(s.take(p), s[p], t); }
pub proof fn in_ids_at(s: Seq<u32>, i: int) requires 0 <= i < s.len() ensures in_ids(s, s[i]) {}
pub open spec fn ticks(s: Seq<(DefaultKey, u32)>, p: int, t: u32) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i]).1 == t }
pub proof fn ticks_step(s: Seq<(DefaultKey, u32)>, p: int, t: u32) requires 0 <= p < s.len() ensures ticks(s, p + 1, t) <==> ticks(s, p, t) || s[p].1 == t
{ if ticks(s, p + 1, t) { let i = choose|i: int| 0 <= i < p + 1 && (#[trigger] s[i]).1 == t; if i < p { assert(ticks(s, p, t)); } } if ticks(s, p, t) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).1 == t; assert(s[i].1 == t); } }
pub proof fn ticks_all(w0: Map<int, u32>, w1: Map<int, u32>, s: Seq<(DefaultKey, u32)>, t: u32)
    requires forall|i: int| w0.contains_key(i) && !#[trigger] w1.contains_key(i) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == w0[i],
        forall|j: int| 0 <= j < s.len() ==> fired(w0, w1, (#[trigger] s[j]).1)
    ensures ticks(s, s.len() as int, t) <==> fired(w0, w1, t)
{ if fired(w0, w1, t) { let i = choose|i: int| w0.contains_key(i) && !w1.contains_key(i) && #[trigger] w0[i] == t; let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == w0[i]; assert(s[j].1 == t); } if ticks(s, s.len() as int, t) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == t; } }
pub open spec fn late(x: ConnectionState, c: int) -> bool { x.start_time_approx@ > c }
pub open spec fn lates(s: Seq<VxRef>, p: int, c: int, t: u32) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i]).k == t && late(*s[i].v, c) }
pub proof fn lates_step(s: Seq<VxRef>, p: int, c: int, t: u32) requires 0 <= p < s.len() ensures lates(s, p + 1, c, t) <==> lates(s, p, c, t) || s[p].k == t && late(*s[p].v, c)
{ if lates(s, p + 1, c, t) { let i = choose|i: int| 0 <= i < p + 1 && (#[trigger] s[i]).k == t && late(*s[i].v, c); if i < p { assert(lates(s, p, c, t)); } } if lates(s, p, c, t) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).k == t && late(*s[i].v, c); assert(s[i].k == t); } }
pub proof fn lates_all(s: Seq<VxRef>, m: Conns, c: int, t: u32) requires lists_conns(s, m) ensures lates(s, s.len() as int, c, t) <==> m.contains_key(t) && late(m[t], c)
{ if m.contains_key(t) && late(m[t], c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == t; assert(late(*s[i].v, c)); } }
pub open spec fn frame(a: &State, b: &State) -> bool { rest(a, b) && b.tracker == a.tracker && b.token == a.token && b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@ && b.timeouts.live().submap_of(a.timeouts.live()) }
pub proof fn due_late(a: &State, b: &State, c: Instant, i2: Seq<u32>, ids: Seq<u32>, c2: Conns, keys: Seq<u32>, w1: Map<int, u32>)
    requires
        a.token.soft() == Some(CancellationState::CancelledAfterTime(c)), b.timeouts.live() == w1,
        forall|x: u32| #[trigger] in_ids(i2, x) <==> a.connections@.contains_key(x) && fired(a.timeouts.live(), w1, x),
        forall|x: u32| #[trigger] c2.contains_key(x) <==> a.connections@.contains_key(x) && !in_ids(i2, x),
        forall|x: u32| #[trigger] c2.contains_key(x) ==> c2[x] == a.connections@[x],
        forall|x: u32| #[trigger] in_ids(keys, x) <==> c2.contains_key(x) && late(c2[x], c@),
        forall|x: u32| #[trigger] in_ids(ids, x) <==> in_ids(i2, x) || c2.contains_key(x) && in_ids(keys, x),
    ensures forall|x: u32| #[trigger] in_ids(ids, x) <==> due(a, b, x)
{ assert forall|x: u32| #[trigger] in_ids(ids, x) <==> due(a, b, x) by { assert(in_ids(i2, x) || !in_ids(i2, x)); assert(in_ids(keys, x) || !in_ids(keys, x)); assert(c2.contains_key(x) || !c2.contains_key(x)); } }
pub proof fn due_ticked(a: &State, b: &State, ids: Seq<u32>, w1: Map<int, u32>)
    requires
        !(a.token.soft() matches Some(CancellationState::CancelledAfterTime(c))), b.timeouts.live() == w1,
        forall|x: u32| #[trigger] in_ids(ids, x) <==> a.connections@.contains_key(x) && fired(a.timeouts.live(), w1, x),
    ensures forall|x: u32| #[trigger] in_ids(ids, x) <==> due(a, b, x)
{ }
pub proof fn reaped_is(a: &State, d: &State, b: &State, ids: Seq<u32>, gone: Seq<ConnectionState>)
    requires
        cut(a, d, ids, gone), frame(a, d), (forall|x: u32| #[trigger] in_ids(ids, x) <==> due(a, d, x)), rest(a, b), b.cancelled_slurm_jobids@ == a.cancelled_slurm_jobids@,
        b.connections == d.connections, b.timeouts == d.timeouts, reported(a, b, ids, ids.len() as int),
    ensures reaped(a, b)
{ assert forall|x: u32| #[trigger] in_ids(ids, x) <==> due(a, b, x) by {} assert(forall|t: u32| #[trigger] b.connections@.contains_key(t) <==> a.connections@.contains_key(t) && !in_ids(ids, t)); }
@fn State::reap_pings_forever selfmut
@locals stop tick_time interval ticked expired ticked transaction_id cstate t keys_to_remove entry cstate key cstate cstate _vx _vx
@prop C15
@paramty stop Rx<()>
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@spec
    requires old(self).wf()
    ensures final(self).wf(), // [C15]
@loop 0
    invariant self.wf(),
@hint loop-start 0
    let ghost a = *self;
    let ghost mut ids: Seq<u32> = Seq::empty();
@hint after-call tick 0
    let ghost w1 = self.timeouts.live();
    proof { if ticked is None { assert forall|t: u32| !#[trigger] fired(a.timeouts.live(), w1, t) by {} } }
@loop 1
    invariant
        frame(&a, self), self.timeouts.live() == w1, cut(&a, self, ids, expired@),
        forall|t: u32| #[trigger] in_ids(ids, t) <==> a.connections@.contains_key(t) && ticks(vx_sq0, vx_it0.pos() as int, t),
@hint loop-start 1
    let ghost g1 = ids;
    let ghost m1 = self.connections@;
    proof { assert forall|t: u32| #[trigger] ticks(vx_sq0, vx_it0.pos() as int, t) <==> ticks(vx_sq0, vx_it0.pos() as int - 1, t) || transaction_id == t by { ticks_step(vx_sq0, vx_it0.pos() as int - 1, t); } }
@hint after-call push 0
    proof { ids = ids.push(transaction_id); assert forall|t: u32| #[trigger] in_ids(ids, t) <==> in_ids(g1, t) || transaction_id == t by { in_ids_push(g1, transaction_id, t); }
        assert(!in_ids(g1, transaction_id)); assert forall|i: int| 0 <= i < g1.len() implies g1[i] != transaction_id by { in_ids_at(g1, i); } assert(a.connections@.contains_key(transaction_id)); }
@hint after-loop 1
    proof { assert forall|t: u32| #[trigger] ticks(vx_sq0, vx_sq0.len() as int, t) <==> fired(a.timeouts.live(), w1, t) by { ticks_all(a.timeouts.live(), w1, vx_sq0, t); } }
@hint before-call is_soft_cancelled 0
    proof { assert forall|t: u32| #[trigger] in_ids(ids, t) <==> a.connections@.contains_key(t) && fired(a.timeouts.live(), w1, t) by {} }
@hint after-let keys_to_remove
    let ghost c2 = self.connections@;
    let ghost i2 = ids;
@loop 2
    invariant forall|x: u32| #[trigger] in_ids(keys_to_remove@, x) <==> lates(vx_sq1, vx_it1.pos() as int, t@, x),
@hint loop-start 2
    let ghost kp = keys_to_remove@;
    proof { assert forall|x: u32| #[trigger] lates(vx_sq1, vx_it1.pos() as int, t@, x) <==> lates(vx_sq1, vx_it1.pos() as int - 1, t@, x) || entry.k == x && late(*entry.v, t@) by { lates_step(vx_sq1, vx_it1.pos() as int - 1, t@, x); } }
@hint after-call push 1
    proof { assert forall|x: u32| #[trigger] in_ids(keys_to_remove@, x) <==> in_ids(kp, x) || entry.k == x by { in_ids_push(kp, entry.k, x); } }
@hint after-loop 2
    proof { assert forall|x: u32| #[trigger] lates(vx_sq1, vx_sq1.len() as int, t@, x) <==> c2.contains_key(x) && late(c2[x], t@) by { lates_all(vx_sq1, c2, t@, x); } }
@loop 3
    invariant
        frame(&a, self), self.timeouts.live() == w1, cut(&a, self, ids, expired@),
        forall|x: u32| #[trigger] in_ids(ids, x) <==> in_ids(i2, x) || c2.contains_key(x) && in_ids(vx_sq2.take(vx_it2.pos() as int), x),
@hint loop-start 3
    let ghost g3 = ids;
    proof { assert forall|x: u32| #[trigger] in_ids(vx_sq2.take(vx_it2.pos() as int), x) <==> in_ids(vx_sq2.take(vx_it2.pos() as int - 1), x) || key == x by { in_ids_take(vx_sq2, vx_it2.pos() as int - 1, x); } }
@hint after-call push 2
    proof { ids = ids.push(key); assert forall|t: u32| #[trigger] in_ids(ids, t) <==> in_ids(g3, t) || key == t by { in_ids_push(g3, key, t); }
        assert(!in_ids(g3, key)); assert forall|i: int| 0 <= i < g3.len() implies g3[i] != key by { in_ids_at(g3, i); } }
@hint after-loop 3
    proof { assert(vx_sq2.take(vx_sq2.len() as int) =~= vx_sq2); due_late(&a, self, t, i2, ids, c2, vx_sq2, w1); }
@hint before-loop 4
    let ghost gone = expired@;
    let ghost d = *self;
    proof { if !(a.token.soft() matches Some(CancellationState::CancelledAfterTime(c))) { due_ticked(&a, self, ids, w1); } }
@loop 4
    invariant
        frame(&d, &State { tracker: d.tracker, ..*self }), self.tracker.n() == d.tracker.n(), self.connections == d.connections, self.timeouts == d.timeouts,
        vx_sq3 == gone, reported(&a, self, ids, vx_it3.pos() as int),
@hint after-loop 4
    proof { reaped_is(&a, &d, self, ids, gone); }
@hint before-call vx_select 0
    assert(reaped(&a, self)); // [C15]
    self.vx_env();
