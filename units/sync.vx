@unit sync
@include prelude.rs
@include iter.rs
@include time.rs
@include timeops.rs
@include collections.rs
@include petgraph.rs
@include logentry.rs
@include syncstub.rs
@defattr #[verifier::loop_isolation(false)]
@typemap Graph DiGraph
@typemap Arc VxArc
@index g vx_at
@effcalls vx_flag_new cancel add_to_ready_queue _finished_bookkeeping _finished_bookkeeping_2
@mutarg checked_sub 0
@pathmap Arc::new vx_arc_new
@pathmap AtomicBool::new vx_flag_new
@pathmap async_priority_channel::unbounded vx_queue
@pathmap async_channel::unbounded vx_events
@methodmap try_into vx_try_into
@methodmap into vx_into
@methodmap to_owned vx_to_owned
@pathmap DashMap::new vx_queuestate
@pathmap ReadOnlyAtomicU32::new vx_read_only
@source src/constants.rs
@item const DEFAULT_RATE_COUNTER_TIMESCALE
@constfn FIZZLED_TIME_CUTOFF
    ensures r@ == 5_000_000_000 // [C05]
@source src/execgraph.rs
@item struct Cmd
@dropfields cmdline display fd_input preamble postamble
@source src/sync.rs
@item const NUM_RUNNER_TYPES
@item struct Snapshot
@item struct TaskItem
@field taken Flag
@item struct TaskStatus
@item struct StartedEvent
@item struct FinishedEvent
@dropfields flag
@item enum Event
@item enum ExitStatus
@item enum ShutdownState
@itemattr #[derive(PartialEq, Eq, Structural)]
@item struct ReadyTrackerServer
@field g &'a DiGraph<Cmd, ()>
@field logfile LogFile
@field ready Option<[Sender<TaskItem, u32>; 64]>
@field completed Receiver
@field queuestate QueueState
@field n_unready_tasks_approximate_for_eta_purposes_only AtomicU32
@field inflight HashMap<NodeIndex, Instant>
@dropfields soft_shutdown_trigger_
@item struct ReadyTrackerClient
@field queuestate QueueState
@field s EvSender
@field r [QueueReceiver; 64]
@field n_unready_tasks ReadOnlyAtomicU32
@field recently_inflight_elapsed_time RingbufferView
@text
pub type G = DiGraph<Cmd, ()>;
impl ExitStatus {
    pub open spec fn ok(&self) -> bool { self.code() == 0 }
    pub open spec fn code(&self) -> int { match self { ExitStatus::Code(c) => *c as int, ExitStatus::Cancelled => -10, ExitStatus::Disconnected => -1 } }
}
// ---- sets of tasks ------------------------------------------------------------------------------
pub open spec fn key(g: &G, v: nat) -> Seq<char> { g.nodes()[v as int].key@ }
pub open spec fn aff(g: &G, v: nat) -> u64 { g.nodes()[v as int].affinity.data }
pub open spec fn st(g: &G, l: Log, v: nat) -> Option<Ls> { if v < g.n() && l.contains_key(key(g, v)) { Some(l[key(g, v)]) } else { None } }
pub open spec fn made(g: &G, l: Log) -> ISet<nat> { ISet::new(|v: nat| st(g, l, v) is Some) }
pub open spec fn started(g: &G, l: Log) -> ISet<nat> { ISet::new(|v: nat| st(g, l, v) == Some(Ls::Started)) }
pub open spec fn fin(g: &G, l: Log) -> ISet<nat> { ISet::new(|v: nat| st(g, l, v) matches Some(Ls::Finished { .. })) }
pub open spec fn good(g: &G, l: Log) -> ISet<nat> { ISet::new(|v: nat| st(g, l, v) == Some(Ls::Finished { status: 0 })) }
pub open spec fn bad(g: &G, l: Log) -> ISet<nat> { fin(g, l).difference(good(g, l)) }
pub open spec fn affs(g: &G, a: u64) -> ISet<nat> { ISet::new(|v: nat| v < g.n() && aff(g, v) == a) }
pub open spec fn keys_distinct(g: &G) -> bool { forall|u: nat, v: nat| u < g.n() && v < g.n() && #[trigger] key(g, u) == #[trigger] key(g, v) ==> u == v }
/// number of v < n in s
pub open spec fn cnt(n: nat, s: ISet<nat>) -> nat decreases n { if n == 0 { 0 } else { cnt((n - 1) as nat, s) + if s.contains((n - 1) as nat) { 1nat } else { 0 } } }
pub proof fn cnt_ext(n: nat, s: ISet<nat>, t: ISet<nat>) requires forall|v: nat| v < n ==> (s.contains(v) <==> t.contains(v)) ensures cnt(n, s) == cnt(n, t) decreases n
{ if n > 0 { cnt_ext((n - 1) as nat, s, t); } }
/// t is s and one more
pub proof fn cnt_one(n: nat, s: ISet<nat>, t: ISet<nat>, x: nat)
    requires x < n, !s.contains(x), t.contains(x), forall|v: nat| v < n && v != x ==> (s.contains(v) <==> t.contains(v))
    ensures cnt(n, t) == cnt(n, s) + 1 decreases n
{ if n > 0 { if n - 1 == x { cnt_ext((n - 1) as nat, s, t); } else { cnt_one((n - 1) as nat, s, t, x); } } }
pub proof fn cnt_split(n: nat, s: ISet<nat>, t: ISet<nat>)
    ensures cnt(n, s) == cnt(n, s.intersect(t)) + cnt(n, s.difference(t)) decreases n
{ if n > 0 { cnt_split((n - 1) as nat, s, t); } }
pub proof fn cnt_zero(n: nat, s: ISet<nat>) ensures cnt(n, s) == 0 <==> (forall|v: nat| v < n ==> !s.contains(v)), cnt(n, s) <= n decreases n
{ if n > 0 { cnt_zero((n - 1) as nat, s); } }
/// edges to v from outside f
pub open spec fn pend(es: Seq<Edge>, v: nat, f: ISet<nat>) -> nat decreases es.len() {
    if es.len() == 0 { 0 } else { pend(es.drop_last(), v, f) + if es.last().1 == v && !f.contains(es.last().0) { 1nat } else { 0 } }
}
pub proof fn pend_insert(es: Seq<Edge>, v: nat, f: ISet<nat>, u: nat)
    requires !f.contains(u) ensures pend(es, v, f) == pend(es, v, f.insert(u)) + mult(es, (u, v)) decreases es.len()
{ if es.len() > 0 { pend_insert(es.drop_last(), v, f, u); } }
pub proof fn pend_ext(es: Seq<Edge>, v: nat, f: ISet<nat>, h: ISet<nat>)
    requires forall|i: int| 0 <= i < es.len() ==> (f.contains((#[trigger] es[i]).0) <==> h.contains(es[i].0)) ensures pend(es, v, f) == pend(es, v, h) decreases es.len()
{ if es.len() > 0 { assert(es.last() == es[es.len() - 1]); assert forall|i: int| 0 <= i < es.drop_last().len() implies (f.contains((#[trigger] es.drop_last()[i]).0) <==> h.contains(es.drop_last()[i].0)) by { assert(es.drop_last()[i] == es[i]); } pend_ext(es.drop_last(), v, f, h); } }
pub proof fn pend_zero(es: Seq<Edge>, v: nat, f: ISet<nat>)
    ensures pend(es, v, f) == 0 <==> (forall|u: nat| #[trigger] es.contains((u, v)) ==> f.contains(u)) decreases es.len()
{
    if es.len() > 0 {
        pend_zero(es.drop_last(), v, f);
        let d = es.drop_last();
        assert forall|u: nat| #[trigger] es.contains((u, v)) <==> d.contains((u, v)) || es.last() == (u, v) by {
            if es.contains((u, v)) { let i = choose|i: int| 0 <= i < es.len() && es[i] == (u, v); if i < d.len() { assert(d[i] == (u, v)); } }
            if d.contains((u, v)) { let i = choose|i: int| 0 <= i < d.len() && d[i] == (u, v); assert(es[i] == (u, v)); }
            if es.last() == (u, v) { assert(es[es.len() - 1] == (u, v)); }
        }
        if es.last().1 == v { assert(es.last() == (es.last().0, v)); assert(es.contains((es.last().0, v))); }
        if forall|u: nat| #[trigger] es.contains((u, v)) ==> f.contains(u) {
            assert forall|u: nat| #[trigger] d.contains((u, v)) implies f.contains(u) by { assert(es.contains((u, v))); }
        }
        if pend(es, v, f) == 0 { assert forall|u: nat| #[trigger] es.contains((u, v)) implies f.contains(u) by { assert(d.contains((u, v)) || es.last() == (u, v)); } }
    }
}
pub proof fn pend_degree(es: Seq<Edge>, v: nat) ensures pend(es, v, ISet::empty()) == degree(es, v, false) decreases es.len()
{ if es.len() > 0 { pend_degree(es.drop_last(), v); } }
pub proof fn mult_pos(es: Seq<Edge>, e: Edge) ensures mult(es, e) > 0 <==> es.contains(e) decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last();
        mult_pos(d, e);
        if es.contains(e) { let i = choose|i: int| 0 <= i < es.len() && es[i] == e; if i < d.len() { assert(d[i] == e); } }
        if d.contains(e) { let i = choose|i: int| 0 <= i < d.len() && d[i] == e; assert(es[i] == e); }
        if es.last() == e { assert(es[es.len() - 1] == e); }
    }
}
// ---- what making tasks available does -----------------------------------------------------------
pub open spec fn has_bit(a: u64, i: int) -> bool { 0 <= i < 64 && bit(a, i as u64) }
/// what queue i is offered of the tasks r, whose claim flags are fl
pub open spec fn offers(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int) -> Seq<Offer> decreases r.len() {
    if r.len() == 0 { Seq::empty() } else {
        let v = r.last().ix as nat;
        let o = offers(g, r.drop_last(), fl.drop_last(), i);
        if has_bit(aff(g, v), i) { o.push(Offer { id: v, affinity: aff(g, v), flag: fl.last(), priority: g.nodes()[v as int].priority }) } else { o }
    }
}
pub open spec fn n_aff(g: &G, r: Seq<NodeIndex>, a: u64) -> nat decreases r.len() {
    if r.len() == 0 { 0 } else { n_aff(g, r.drop_last(), a) + if aff(g, r.last().ix as nat) == a { 1nat } else { 0 } }
}
pub open spec fn in_list(r: Seq<NodeIndex>, v: nat) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ix == v }
pub open spec fn list_ok(g: &G, r: Seq<NodeIndex>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).ix < g.n()
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).ix != (#[trigger] r[j]).ix
}
pub open spec fn log_ready(g: &G, l0: Log, l1: Log, r: Seq<NodeIndex>) -> bool {
    &&& forall|k: Seq<char>| l0.contains_key(k) ==> #[trigger] l1.contains_key(k) && l1[k] == l0[k]
    &&& forall|v: nat| v < g.n() && !l0.contains_key(key(g, v)) ==> #[trigger] st(g, l1, v) == (if in_list(r, v) { Some(Ls::Ready) } else { None::<Ls> })
}
pub open spec fn qs_ready(g: &G, q0: Map<u64, Snapshot>, q1: Map<u64, Snapshot>, r: Seq<NodeIndex>) -> bool {
    &&& forall|a: u64| #[trigger] q1.contains_key(a) <==> q0.contains_key(a) || n_aff(g, r, a) > 0
    &&& forall|a: u64| #[trigger] q1.contains_key(a) ==> q1[a].num_ready == (if q0.contains_key(a) { q0[a].num_ready as int } else { 0 }) + n_aff(g, r, a)
           && q1[a].num_inflight == (if q0.contains_key(a) { q0[a].num_inflight } else { 0 })
}
/// queue i received o more, unless nobody can receive from it
pub open spec fn offered(c0: Sender<TaskItem, u32>, c1: Sender<TaskItem, u32>, o: Seq<Offer>) -> bool {
    c1.receivers_gone() == c0.receivers_gone() && (c1.offers() =~= c0.offers() + o || c1.receivers_gone() && c1.offers() == c0.offers())
}
pub open spec fn released(a: &ReadyTrackerServer, b: &ReadyTrackerServer, e0: Eff, e1: Eff, r: Seq<NodeIndex>) -> bool {
    &&& b.g == a.g
    &&& log_ready(a.g, a.logfile.log(), b.logfile.log(), r) // [C01]
    &&& qs_ready(a.g, a.queuestate.map(), b.queuestate.map(), r) && b.queuestate.out() == a.queuestate.out() // [C20]
    &&& b.n_ready_or_inflight == a.n_ready_or_inflight + r.len() // [C04]
    &&& b.n_unready_tasks_approximate_for_eta_purposes_only@ == a.n_unready_tasks_approximate_for_eta_purposes_only@ - r.len() // [C20]
    &&& e1.cancels() == e0.cancels()
    &&& exists|fl: Seq<int>| fl.len() == r.len() && e1.flags() =~= #[trigger] (e0.flags() + fl) && fl.no_duplicates() && (forall|j: int| 0 <= j < fl.len() ==> !e0.flags().contains(#[trigger] fl[j]))
          && (b.ready is Some <==> a.ready is Some)
          && (r.len() > 0 ==> a.ready is Some && forall|i: int| 0 <= i < 64 ==> offered(#[trigger] a.ready->0@[i], b.ready->0@[i], offers(a.g, r, fl, i))) // [C03]
          && (r.len() == 0 ==> b.ready == a.ready)
    &&& b.inflight == a.inflight && b.finished_order == a.finished_order && b.n_failed == a.n_failed && b.n_fizzled == a.n_fizzled
    &&& b.n_success == a.n_success && b.fizzles_allowed == a.fizzles_allowed && b.shutdown_state == a.shutdown_state && b.count_offset == a.count_offset
}
@fn checked_sub
@locals x other old_value other_32 new_value
@paramty x &mut AtomicU32
@spec
    requires old(x)@ >= other, other <= u32::MAX // [C20]
    ensures final(x)@ == old(x)@ - other // [C20]
@fn ExitStatus::as_i32
@locals c
@ret r
@spec
    ensures r == self.code()
@fn ExitStatus::is_success
@ret r
@spec
    ensures r == (self.code() == 0)
@text
pub proof fn n_aff_le(g: &G, r: Seq<NodeIndex>, a: u64) ensures n_aff(g, r, a) <= r.len() decreases r.len()
{ if r.len() > 0 { n_aff_le(g, r.drop_last(), a); } }
pub open spec fn offer1(g: &G, v: nat, f: int) -> Offer { Offer { id: v, affinity: aff(g, v), flag: f, priority: g.nodes()[v as int].priority } }
pub proof fn offers_of_push(s: Seq<(TaskItem, u32)>, x: (TaskItem, u32)) ensures offers_of(s.push(x)) =~= offers_of(s).push(offer_of(x)) {}
pub open spec fn given(s: Seq<usize>, p: int, i: int) -> bool { exists|j: int| 0 <= j < p && (#[trigger] s[j]) == i }
pub proof fn given_step(s: Seq<usize>, p: int, i: int) requires 0 <= p < s.len() ensures given(s, p + 1, i) <==> given(s, p, i) || s[p] == i
{ if given(s, p + 1, i) { let j = choose|j: int| 0 <= j < p + 1 && (#[trigger] s[j]) == i; if j < p { assert(given(s, p, i)); } } if given(s, p, i) { let j = choose|j: int| 0 <= j < p && (#[trigger] s[j]) == i; assert(s[j] == i); } }
pub open spec fn unoffered(g: &G, c0: Option<[Sender<TaskItem, u32>; 64]>, c: &[Sender<TaskItem, u32>; 64], rr: Seq<NodeIndex>, fl: Seq<int>, p: int) -> bool {
    forall|i: int| 0 <= i < 64 ==> if i < p { offered(c0->0@[i], #[trigger] c@[i], offers(g, rr, fl, i)) } else { c@[i] == c0->0@[i] }
}
pub proof fn in_list_step(r: Seq<NodeIndex>, p: int, u: nat) requires 0 <= p < r.len() ensures in_list(r.take(p + 1), u) <==> in_list(r.take(p), u) || r[p].ix == u
{
    let a = r.take(p + 1); let b = r.take(p);
    if in_list(a, u) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).ix == u; if j < p { assert(b[j].ix == u); } }
    if in_list(b, u) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).ix == u; assert(a[j].ix == u); }
    if r[p].ix == u { assert(a[p].ix == u); }
}
pub proof fn in_list_push(r: Seq<NodeIndex>, x: NodeIndex, u: nat) ensures in_list(r.push(x), u) <==> in_list(r, u) || x.ix == u
{ in_list_step(r.push(x), r.len() as int, u); assert(r.push(x).take(r.len() as int + 1) =~= r.push(x)); assert(r.push(x).take(r.len() as int) =~= r); }
@fn ReadyTrackerServer::add_to_ready_queue eff
@locals ready eff inserts index cmd priority taken i channels i ready e
@prop C01 C03 C04 C20
@ret r
@spec
    requires list_ok(old(self).g, ready@), // [C01]
        keys_distinct(old(self).g),
        forall|j: int| 0 <= j < ready@.len() ==> !old(self).logfile.log().contains_key(#[trigger] key(old(self).g, ready@[j].ix as nat)), // [C01]
        forall|a: u64| #[trigger] old(self).queuestate.map().contains_key(a) ==> old(self).queuestate.map()[a].num_ready + ready@.len() <= u32::MAX,
        old(self).n_ready_or_inflight + ready@.len() <= u32::MAX,
        old(self).n_unready_tasks_approximate_for_eta_purposes_only@ >= ready@.len(), // [C20]
        ready@.len() > 0 ==> old(self).ready is Some, // [C04]
    ensures r is Ok ==> released(old(self), final(self), *old(eff), *final(eff), ready@) && final(self).statuses == old(self).statuses
@hint fn-start
    let ghost g = self.g;
    let ghost rr = ready@;
    let ghost ef0 = eff.flags();
    let ghost l0 = self.logfile.log();
    let ghost q0 = self.queuestate.map();
    let ghost mut fl: Seq<int> = Seq::empty();
    let ghost c0 = self.ready;
    let ghost mut prev: Seq<Vec<(TaskItem, u32)>> = Seq::empty();
    let ghost nu0 = self.n_unready_tasks_approximate_for_eta_purposes_only@;
    assert(ef0 =~= ef0 + fl);
@loop 0
    invariant
        self.g == g, list_ok(g, rr), keys_distinct(g), vx_sq0 == rr,
        fl.len() == vx_it0.pos(), eff.flags() =~= ef0 + fl, eff.cancels() == old(eff).cancels(),
        fl.no_duplicates(), forall|j: int| 0 <= j < fl.len() ==> !ef0.contains(#[trigger] fl[j]),
        log_ready(g, l0, self.logfile.log(), rr.take(vx_it0.pos() as int)),
        qs_ready(g, q0, self.queuestate.map(), rr.take(vx_it0.pos() as int)), self.queuestate.out() == old(self).queuestate.out(),
        forall|a: u64| #[trigger] q0.contains_key(a) ==> q0[a].num_ready + rr.len() <= u32::MAX,
        forall|j: int| 0 <= j < rr.len() ==> !l0.contains_key(#[trigger] key(g, rr[j].ix as nat)),
        inserts@.len() == 64, rr.len() <= u32::MAX,
        forall|i: int| 0 <= i < 64 ==> offers_of((#[trigger] inserts@[i])@) =~= offers(g, rr.take(vx_it0.pos() as int), fl, i),
        self.ready == c0, self.n_ready_or_inflight == old(self).n_ready_or_inflight + rr.len(),
        self.n_unready_tasks_approximate_for_eta_purposes_only@ == nu0 - rr.len(),
        self.statuses == old(self).statuses, self.inflight == old(self).inflight, self.finished_order == old(self).finished_order, self.n_failed == old(self).n_failed,
        self.n_fizzled == old(self).n_fizzled, self.n_success == old(self).n_success, self.fizzles_allowed == old(self).fizzles_allowed,
        self.shutdown_state == old(self).shutdown_state, self.count_offset == old(self).count_offset,
@hint loop-start 0
    let ghost p = vx_it0.pos() as int - 1;
    let ghost flp = fl;
    let ghost lp = self.logfile.log();
    let ghost qp = self.queuestate.map();
    let ghost v = index.ix as nat;
    proof {
        assert(index == rr[p]);
        assert(rr.take(p + 1).drop_last() =~= rr.take(p));
        assert(rr.take(p + 1).last() == rr[p]);
        n_aff_le(g, rr.take(p), aff(g, v));
        assert(!lp.contains_key(key(g, v))) by {
            assert(key(g, rr[p].ix as nat) == key(g, v));
            if lp.contains_key(key(g, v)) {
                assert(st(g, lp, v) is Some);
                assert(in_list(rr.take(p), v));
                let j = choose|j: int| 0 <= j < p && (#[trigger] rr.take(p)[j]).ix == v;
                assert(rr[j].ix == rr[p].ix);
            }
        }
    }
@hint after-let taken
    proof {
        fl = fl.push(taken@); assert(fl[p] == taken@); assert(eff.flags() =~= ef0 + fl); assert(fl.drop_last() =~= flp);
        assert forall|i: int, j: int| 0 <= i < j < fl.len() implies fl[i] != fl[j] by { assert((ef0 + flp)[ef0.len() + i] == flp[i]); }
        assert forall|j: int| 0 <= j < fl.len() implies !ef0.contains(#[trigger] fl[j]) by { if j == p && ef0.contains(fl[j]) { let x = choose|x: int| 0 <= x < ef0.len() && ef0[x] == fl[j]; assert((ef0 + flp)[x] == fl[j]); } }
    }
@hint before-loop 1
    proof {
        prev = inserts@;
        assert(self.logfile.log() == lp.insert(key(g, v), Ls::Ready));
        assert forall|u: nat| u < g.n() && !l0.contains_key(key(g, u)) implies #[trigger] st(g, self.logfile.log(), u) == (if in_list(rr.take(p + 1), u) { Some(Ls::Ready) } else { None::<Ls> }) by {
            in_list_step(rr, p, u); assert(st(g, lp, u) == (if in_list(rr.take(p), u) { Some(Ls::Ready) } else { None::<Ls> }));
            if u != v { assert(key(g, u) != key(g, v)); }
        }
    }
@loop 1
    invariant
        lists_ones(vx_sq1, cmd.affinity.data), inserts@.len() == 64, prev.len() == 64, v == index.ix, v < g.n(), cmd == g.nodes()[v as int], priority == cmd.priority,
        forall|i: int| 0 <= i < 64 ==> offers_of((#[trigger] inserts@[i])@) =~= (if given(vx_sq1, vx_it1.pos() as int, i) { offers_of(prev[i]@).push(offer1(g, v, taken@)) } else { offers_of(prev[i]@) }),
@hint loop-start 1
    let ghost before = inserts@;
    proof { assert(vx_sq1[vx_it1.pos() as int - 1] == i); assert forall|k: int| #[trigger] given(vx_sq1, vx_it1.pos() as int, k) <==> given(vx_sq1, vx_it1.pos() as int - 1, k) || i == k by { given_step(vx_sq1, vx_it1.pos() as int - 1, k); } 
      if given(vx_sq1, vx_it1.pos() as int - 1, i as int) { let j = choose|j: int| 0 <= j < vx_it1.pos() as int - 1 && (#[trigger] vx_sq1[j]) == i; } }
@hint loop-end 1
    proof { let x = inserts@[i as int]@.last(); assert(inserts@[i as int]@ =~= before[i as int]@.push(x)); offers_of_push(before[i as int]@, x); assert(offer_of(x) == offer1(g, v, taken@)); }
@hint after-loop 1
    proof {
        assert forall|i: int| 0 <= i < 64 implies (given(vx_sq1, vx_sq1.len() as int, i) <==> has_bit(aff(g, v), i)) by {
            if has_bit(aff(g, v), i) { let j = choose|j: int| 0 <= j < vx_sq1.len() && (#[trigger] vx_sq1[j]) == i as u64; assert(vx_sq1[j] == i); }
        }
    }
@loop 2
    invariant
        vx_sq2.len() == 64, forall|i: int| 0 <= i < 64 ==> (#[trigger] vx_sq2[i]).0 == i && offers_of(vx_sq2[i].1@) =~= offers(g, rr, fl, i),
        c0 is Some, unoffered(g, c0, channels, rr, fl, vx_it2.pos() as int),
@hint loop-start 2
    let ghost chp = channels@;
@hint before-let channels
    let ghost ins = inserts@;
    proof { assert(rr.take(rr.len() as int) =~= rr); }
@hint before-loop 2
    proof { assert forall|i: int| 0 <= i < 64 implies (#[trigger] vx_sq2[i]).0 == i && offers_of(vx_sq2[i].1@) =~= offers(g, rr, fl, i) by { assert(vx_sq2[i].1 == ins[i]); } }
@hint after-loop 2
    proof { assert(unoffered(g, c0, channels, rr, fl, 64)); }
@hint fn-end
    proof { if vx_ret is Ok { assert(old(eff).flags() + fl == ef0 + fl); assert(log_ready(g, l0, self.logfile.log(), rr)); assert(qs_ready(g, q0, self.queuestate.map(), rr));
       assert forall|i: int| 0 <= i < 64 implies offered(#[trigger] c0->0@[i], self.ready->0@[i], offers(g, rr, fl, i)) by {}
      } }
@text
/// the accounting of one completion (id with exit code)
pub open spec fn booked(a: &ReadyTrackerServer, b: &ReadyTrackerServer, id: nat, code: int) -> bool {
    &&& b.g == a.g && b.logfile == a.logfile && b.ready == a.ready && b.statuses == a.statuses && b.inflight == a.inflight && b.finished_order == a.finished_order
    &&& b.fizzles_allowed == a.fizzles_allowed && b.shutdown_state == a.shutdown_state && b.count_offset == a.count_offset
    &&& b.n_unready_tasks_approximate_for_eta_purposes_only == a.n_unready_tasks_approximate_for_eta_purposes_only
    &&& b.n_ready_or_inflight == (if a.n_ready_or_inflight == 0 { 0 } else { a.n_ready_or_inflight - 1 }) // [C04]
    &&& b.n_success == a.n_success + (if code == 0 { 1int } else { 0 }) // [C04]
    &&& b.n_failed == a.n_failed + (if code == 0 { 0int } else { 1 }) // [C04] [C05]
    &&& exists|t: int| #[trigger] clock_read(t) && b.n_fizzled == a.n_fizzled + (if code != 0 && a.inflight@.contains_key(id) && t - a.inflight@[id]@ < 5_000_000_000 { 1int } else { 0 }) // [C05]
    &&& b.queuestate.out() == a.queuestate.out()
    &&& b.queuestate.map() =~= a.queuestate.map().insert(aff(a.g, id), Snapshot { num_ready: a.queuestate.map()[aff(a.g, id)].num_ready, num_inflight: (a.queuestate.map()[aff(a.g, id)].num_inflight - 1) as u32 }) // [C20]
}
@fn ReadyTrackerServer::_finished_bookkeeping_1
@locals e is_success total cmd now elapsed started elapsed v fizzled elapsed
@prop C04 C05 C20
@ret r
@spec
    requires e.id.ix < old(self).g.n(),
        old(self).queuestate.map().contains_key(aff(old(self).g, e.id.ix as nat)) && old(self).queuestate.map()[aff(old(self).g, e.id.ix as nat)].num_inflight > 0, // [C20]
        old(self).n_success + old(self).n_failed < u32::MAX, old(self).n_fizzled < u32::MAX,
        old(self).statuses@.dom().len() <= u32::MAX,
    ensures r is Ok ==> booked(old(self), final(self), e.id.ix as nat, e.status.code()),
@text
pub proof fn occ_take(s: Seq<EdgeRef>, p: int, b: nat) requires 0 <= p < s.len()
    ensures occ(s.take(p + 1), true, b) == occ(s.take(p), true, b) + if s[p].b.ix == b { 1nat } else { 0 }, occ(s.take(p + 1), true, b) <= occ(s, true, b) decreases s.len()
{
    assert(s.take(p + 1).drop_last() =~= s.take(p));
    if p + 1 < s.len() { occ_take(s.drop_last(), p, b); assert(s.drop_last().take(p + 1) =~= s.take(p + 1)); assert(s.drop_last().take(p) =~= s.take(p)); } else { assert(s.take(p + 1) =~= s); }
}
/// every v < n of s is in r, and only those: r is as long as s is large
pub proof fn list_cnt(g: &G, r: Seq<NodeIndex>, n: nat, s: ISet<nat>)
    requires list_ok(g, r), forall|v: nat| in_list(r, v) <==> v < n && s.contains(v), n <= g.n()
    ensures r.len() == cnt(n, s) decreases r.len()
{
    if r.len() == 0 { cnt_zero(n, s); assert forall|v: nat| v < n implies !s.contains(v) by { assert(!in_list(r, v)); } }
    else {
        let x = r.last().ix as nat; let d = r.drop_last(); let t = s.remove(x);
        assert(r[r.len() - 1].ix == x); assert(in_list(r, x));
        assert forall|v: nat| in_list(d, v) <==> v < n && t.contains(v) by {
            if in_list(d, v) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).ix == v; assert(r[j].ix == v); assert(r[j].ix != r[r.len() - 1].ix); assert(in_list(r, v)); }
            if v < n && t.contains(v) { assert(in_list(r, v)); let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ix == v; assert(d[j].ix == v); }
        }
        assert(list_ok(g, d)) by { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).ix < g.n() by { assert(r[j].ix < g.n()); }
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).ix != (#[trigger] d[j]).ix by { assert(r[i].ix != r[j].ix); } }
        list_cnt(g, d, n, t); cnt_one(n, t, s, x);
    }
}
/// the tasks for which the success of u was the last dependency missing
pub open spec fn newset(g: &G, t: Map<nat, TaskStatus>, u: nat, ok: bool) -> ISet<nat> {
    ISet::new(|v: nat| ok && v < g.n() && mult(g.edges(), (u, v)) > 0 && !t[v].poisoned && t[v].n_unmet_deps == mult(g.edges(), (u, v)))
}
pub open spec fn status_after(t: TaskStatus, ok: bool, m: nat) -> TaskStatus {
    if ok { TaskStatus { n_unmet_deps: if t.poisoned { t.n_unmet_deps } else { (t.n_unmet_deps - m) as usize }, poisoned: t.poisoned } }
    else { TaskStatus { n_unmet_deps: t.n_unmet_deps, poisoned: t.poisoned || m > 0 } }
}
pub open spec fn resolved(a: &ReadyTrackerServer, b: &ReadyTrackerServer, e0: Eff, e1: Eff, u: nat, ok: bool) -> bool {
    if a.shutdown_state == ShutdownState::SoftShutdown { e1 == e0 && *b == *a } // [C04]
    else {
        &&& exists|r: Seq<NodeIndex>| list_ok(a.g, r) && (forall|v: nat| in_list(r, v) <==> newset(a.g, a.statuses@, u, ok).contains(v)) && #[trigger] released(a, b, e0, e1, r) // [C01] [C04]
        &&& b.statuses@.dom() == a.statuses@.dom()
        &&& forall|v: nat| v < a.g.n() ==> #[trigger] b.statuses@[v] == status_after(a.statuses@[v], ok, mult(a.g.edges(), (u, v))) // [C01] [C02]
    }
}
@fn ReadyTrackerServer::_finished_bookkeeping_2 eff
@locals e eff is_success statuses ready edge downstream_id status
@prop C01 C02 C03 C04 C20
@ret r
@spec
    requires e.id.ix < old(self).g.n(),
        old(self).shutdown_state == ShutdownState::SoftShutdown <==> old(self).ready is None, // [C04]
        forall|v: nat| v < old(self).g.n() ==> #[trigger] old(self).statuses@.contains_key(v),
        old(self).shutdown_state == ShutdownState::Normal && e.status.ok() ==> forall|v: nat| v < old(self).g.n() && !(#[trigger] old(self).statuses@[v]).poisoned ==> mult(old(self).g.edges(), (e.id.ix as nat, v)) <= old(self).statuses@[v].n_unmet_deps, // [C01]
        keys_distinct(old(self).g),
        old(self).shutdown_state == ShutdownState::Normal ==> {
            let ns = newset(old(self).g, old(self).statuses@, e.id.ix as nat, e.status.ok()); let k = cnt(old(self).g.n(), ns);
            &&& forall|v: nat| #[trigger] ns.contains(v) ==> !old(self).logfile.log().contains_key(key(old(self).g, v)) // [C01]
            &&& forall|a: u64| #[trigger] old(self).queuestate.map().contains_key(a) ==> old(self).queuestate.map()[a].num_ready + k <= u32::MAX
            &&& old(self).n_ready_or_inflight + k <= u32::MAX
            &&& old(self).n_unready_tasks_approximate_for_eta_purposes_only@ >= k }, // [C20]
    ensures r is Ok ==> resolved(old(self), final(self), *old(eff), *final(eff), e.id.ix as nat, e.status.ok())
@hint fn-start
    let ghost g = self.g;
    let ghost u = e.id.ix as nat;
    let ghost ok = e.status.ok();
    let ghost t0 = self.statuses@;
    let ghost a0 = *self;
    let ghost ns = newset(g, t0, u, ok);
    let ghost bounded = forall|v: nat| v < g.n() && !(#[trigger] t0[v]).poisoned ==> mult(g.edges(), (u, v)) <= t0[v].n_unmet_deps;
    proof { if ok && self.shutdown_state == ShutdownState::Normal { assert(bounded); } }
@loop 0
    invariant
        ok ==> bounded,
        is_edges(g, u, true, vx_sq0),
        statuses@.dom() == t0.dom(),
        list_ok(g, vx_acc0@),
        forall|v: nat| v < g.n() ==> #[trigger] statuses@[v] == status_after(t0[v], ok, occ(vx_sq0.take(vx_it0.pos() as int), true, v)),
        forall|v: nat| in_list(vx_acc0@, v) <==> ok && v < g.n() && occ(vx_sq0.take(vx_it0.pos() as int), true, v) > 0 && !t0[v].poisoned && t0[v].n_unmet_deps == occ(vx_sq0.take(vx_it0.pos() as int), true, v),
@hint loop-start 0
    let ghost p = vx_it0.pos() as int - 1;
    let ghost acc = vx_acc0@;
    let ghost d = vx_sq0[p].b.ix as nat;
    proof {
        assert forall|v: nat| #[trigger] occ(vx_sq0.take(p + 1), true, v) == occ(vx_sq0.take(p), true, v) + (if d == v { 1nat } else { 0 }) && occ(vx_sq0.take(p + 1), true, v) <= mult(g.edges(), (u, v)) by { occ_take(vx_sq0, p, v); assert(occ(vx_sq0, true, v) == mult(g.edges(), edge_of(u, true, v))); }
        assert(vx_sq0[p].far(true) < g.n());
        assert forall|v: nat| in_list(acc.push(vx_sq0[p].b), v) <==> in_list(acc, v) || v == d by { in_list_push(acc, vx_sq0[p].b, v); }
        assert(d < g.n());
        assert(occ(vx_sq0.take(p + 1), true, d) == occ(vx_sq0.take(p), true, d) + 1 && occ(vx_sq0.take(p + 1), true, d) <= mult(g.edges(), (u, d)));
        assert(statuses@[d] == status_after(t0[d], ok, occ(vx_sq0.take(p), true, d)));
        assert(p + 1 == vx_it0.pos() as int);
        assert(!t0[d].poisoned && ok ==> !in_list(acc, d));
        assert(list_ok(g, acc) && !in_list(acc, d) ==> list_ok(g, acc.push(vx_sq0[p].b)));
    }
@hint after-call push 0
    proof { assert(vx_acc0@ == acc.push(vx_sq0[p].b)); 
      assert(t0[d].n_unmet_deps == occ(vx_sq0.take(p), true, d) + 1);
      assert forall|v: nat| in_list(vx_acc0@, v) <==> ok && v < g.n() && occ(vx_sq0.take(p + 1), true, v) > 0 && !t0[v].poisoned && t0[v].n_unmet_deps == occ(vx_sq0.take(p + 1), true, v) by {
         assert(in_list(vx_acc0@, v) <==> in_list(acc, v) || v == d); } }
@hint before-call add_to_ready_queue 0
    let ghost r0 = ready@;
    let ghost a1 = *self;
    proof {
        assert forall|j: int| 0 <= j < r0.len() implies !self.logfile.log().contains_key(#[trigger] key(g, r0[j].ix as nat)) by { assert(in_list(r0, r0[j].ix as nat)); assert(ns.contains(r0[j].ix as nat)); }
    }
@hint fn-end
    proof { if vx_ret is Ok { assert(released(&a0, self, *old(eff), *eff, r0)); } }
@hint after-loop 0
    proof { assert(vx_sq0.take(vx_sq0.len() as int) =~= vx_sq0); assert forall|v: nat| #[trigger] occ(vx_sq0, true, v) == mult(g.edges(), (u, v)) by { assert(occ(vx_sq0, true, v) == mult(g.edges(), edge_of(u, true, v))); }
       assert forall|v: nat| in_list(vx_acc0@, v) <==> ns.contains(v) by { assert(occ(vx_sq0, true, v) == mult(g.edges(), (u, v))); }
       list_cnt(g, vx_acc0@, g.n(), ns); }
@text
// ---- the invariant ------------------------------------------------------------------------------
pub open spec fn only_queue(a: &ReadyTrackerServer, b: &ReadyTrackerServer) -> bool {
    b.g == a.g && b.logfile == a.logfile && b.ready == a.ready && b.statuses == a.statuses && b.inflight == a.inflight && b.finished_order == a.finished_order
    && b.fizzles_allowed == a.fizzles_allowed && b.shutdown_state == a.shutdown_state && b.n_unready_tasks_approximate_for_eta_purposes_only == a.n_unready_tasks_approximate_for_eta_purposes_only
    && b.n_ready_or_inflight == a.n_ready_or_inflight && b.n_success == a.n_success && b.n_failed == a.n_failed && b.n_fizzled == a.n_fizzled
}
/// tasks may be handed out by ReadyTrackerClient::recv (see its contract), any number of them
pub open spec fn rely(g: &G, l: Log, q0: &QueueState, q1: &QueueState) -> bool {
    let w = q1.out().difference(q0.out());
    &&& forall|v: nat| #[trigger] q0.out().contains(v) ==> q1.out().contains(v)
    &&& forall|v: nat| #[trigger] q1.out().contains(v) ==> q0.out().contains(v) || made(g, l).contains(v)
    &&& q1.map().dom() == q0.map().dom()
    &&& forall|a: u64| #[trigger] q1.map().contains_key(a) ==> q1.map()[a].num_inflight == q0.map()[a].num_inflight + cnt(g.n(), w.intersect(affs(g, a)))
           && q1.map()[a].num_ready == (if q0.map()[a].num_ready >= cnt(g.n(), w.intersect(affs(g, a))) { q0.map()[a].num_ready - cnt(g.n(), w.intersect(affs(g, a))) } else { 0 })
}
/// what one hand-out of the task v does (unit claim: ReadyTrackerClient::recv)
pub open spec fn claimed(g: &G, l: Log, q0: &QueueState, q1: &QueueState, v: nat) -> bool {
    let a = aff(g, v);
    &&& made(g, l).contains(v) && !q0.out().contains(v) && q1.out() =~= q0.out().insert(v)
    &&& q0.map().contains_key(a) && q1.map() =~= q0.map().insert(a, q1.map()[a])
    &&& q1.map()[a].num_inflight == q0.map()[a].num_inflight + 1 && q1.map()[a].num_ready == (if q0.map()[a].num_ready == 0 { 0 } else { q0.map()[a].num_ready - 1 })
}
/// what the tracker relies on while it waits is what any number of hand-outs does, one after the other
pub proof fn rely_none(g: &G, l: Log, q: &QueueState) ensures rely(g, l, q, q) // [C20]
{ assert forall|a: u64| cnt(g.n(), #[trigger] q.out().difference(q.out()).intersect(affs(g, a))) == 0 by { cnt_zero(g.n(), q.out().difference(q.out()).intersect(affs(g, a))); } }
pub proof fn rely_more(g: &G, l: Log, q0: &QueueState, q1: &QueueState, q2: &QueueState, v: nat)
    requires rely(g, l, q0, q1), claimed(g, l, q1, q2, v) ensures rely(g, l, q0, q2) // [C03] [C20]
{
    let w1 = q1.out().difference(q0.out()); let w2 = q2.out().difference(q0.out());
    assert(!q0.out().contains(v));
    assert(q2.map().dom() =~= q0.map().dom());
    assert forall|a: u64| #[trigger] q2.map().contains_key(a) implies q2.map()[a].num_inflight == q0.map()[a].num_inflight + cnt(g.n(), w2.intersect(affs(g, a)))
           && q2.map()[a].num_ready == (if q0.map()[a].num_ready >= cnt(g.n(), w2.intersect(affs(g, a))) { q0.map()[a].num_ready - cnt(g.n(), w2.intersect(affs(g, a))) } else { 0 }) by {
        assert(q1.map().contains_key(a));
        if aff(g, v) == a { cnt_one(g.n(), w1.intersect(affs(g, a)), w2.intersect(affs(g, a)), v); } else { cnt_ext(g.n(), w1.intersect(affs(g, a)), w2.intersect(affs(g, a))); }
    }
}
pub open spec fn to_run(g: &G, l: Log, out: ISet<nat>, a: u64) -> ISet<nat> { made(g, l).difference(out).intersect(affs(g, a)) }
pub open spec fn running(g: &G, l: Log, out: ISet<nat>, a: u64) -> ISet<nat> { out.difference(fin(g, l)).intersect(affs(g, a)) }
/// holds from the start to the end, between two events
pub open spec fn inv_all(s: &ReadyTrackerServer) -> bool {
    let g = s.g; let n = g.n(); let l = s.logfile.log(); let out = s.queuestate.out();
    &&& keys_distinct(g)
    &&& forall|v: nat| #[trigger] s.statuses@.contains_key(v) <==> v < n
    &&& s.statuses@.dom().len() == n
    &&& forall|v: nat| #[trigger] out.contains(v) ==> made(g, l).contains(v)
    &&& forall|v: nat| #[trigger] fin(g, l).contains(v) || started(g, l).contains(v) ==> out.contains(v)
    &&& forall|v: nat| #[trigger] s.inflight@.contains_key(v) <==> started(g, l).contains(v)
    &&& forall|v: nat| #[trigger] made(g, l).contains(v) ==> pend(g.edges(), v, good(g, l)) == 0 // [C01] [C02]
    &&& s.n_ready_or_inflight == cnt(n, made(g, l).difference(fin(g, l))) // [C04]
    &&& s.n_success == cnt(n, good(g, l)) // [C04]
    &&& s.n_failed == cnt(n, bad(g, l)) // [C04] [C05]
    &&& s.n_fizzled <= s.n_failed // [C05]
    &&& s.n_unready_tasks_approximate_for_eta_purposes_only@ == n - cnt(n, made(g, l)) // [C20]
    &&& forall|v: nat| #[trigger] made(g, l).contains(v) ==> s.queuestate.map().contains_key(aff(g, v)) // [C20]
    &&& forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) ==> s.queuestate.map()[a].num_inflight == cnt(n, running(g, l, out, a)) // [C20]
    &&& list_ok(g, s.finished_order@) // [C04]
    &&& forall|v: nat| in_list(s.finished_order@, v) <==> #[trigger] fin(g, l).contains(v) // [C04]
}
/// what failed, and what must not run because of it
pub open spec fn blocked(g: &G, l: Log, v: nat) -> bool { exists|u: nat| #[trigger] g.edges().contains((u, v)) && bad(g, l).contains(u) }
/// as long as nothing asked for a shutdown
pub open spec fn inv_normal(s: &ReadyTrackerServer) -> bool {
    let g = s.g; let n = g.n(); let l = s.logfile.log();
    &&& forall|v: nat| v < n ==> (#[trigger] s.statuses@[v]).poisoned == blocked(g, l, v) // [C02]
    &&& forall|v: nat| v < n && !(#[trigger] s.statuses@[v]).poisoned ==> s.statuses@[v].n_unmet_deps == pend(g.edges(), v, good(g, l)) // [C01]
    &&& forall|v: nat| v < n && !(#[trigger] s.statuses@[v]).poisoned && s.statuses@[v].n_unmet_deps == 0 ==> made(g, l).contains(v) // [C04]
}
pub open spec fn inv_ready(s: &ReadyTrackerServer) -> bool {
    forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) ==> s.queuestate.map()[a].num_ready == cnt(s.g.n(), to_run(s.g, s.logfile.log(), s.queuestate.out(), a)) // [C20]
}
/// without what the invariant does not speak about
pub open spec fn norm<'a>(s: &ReadyTrackerServer<'a>) -> ReadyTrackerServer<'a> { ReadyTrackerServer { ready: None, shutdown_state: ShutdownState::SoftShutdown, ..*s } }
#[verifier::opaque]
pub open spec fn inv_a(s: ReadyTrackerServer) -> bool { inv_all(&s) }
#[verifier::opaque]
pub open spec fn inv_b(s: ReadyTrackerServer) -> bool { inv_normal(&s) && inv_ready(&s) }
pub open spec fn inv(s: &ReadyTrackerServer) -> bool { inv_a(norm(s)) && (s.shutdown_state == ShutdownState::Normal ==> inv_b(norm(s))) }
pub proof fn norm_same(s: &ReadyTrackerServer)
    ensures ({ let t = norm(s); t.g == s.g && t.logfile == s.logfile && t.queuestate == s.queuestate && t.inflight == s.inflight && t.statuses == s.statuses && t.finished_order == s.finished_order
       && t.n_ready_or_inflight == s.n_ready_or_inflight && t.n_success == s.n_success && t.n_failed == s.n_failed && t.n_fizzled == s.n_fizzled
       && t.n_unready_tasks_approximate_for_eta_purposes_only == s.n_unready_tasks_approximate_for_eta_purposes_only }) {}
pub proof fn inv_open(s: &ReadyTrackerServer) requires inv(s) ensures inv_all(s), s.shutdown_state == ShutdownState::Normal ==> inv_normal(s) && inv_ready(s)
{ reveal(inv_a); reveal(inv_b); norm_same(s); let t = norm(s); assert(inv_all(&t)); }
pub proof fn inv_close(s: &ReadyTrackerServer) requires inv_all(s), s.shutdown_state == ShutdownState::Normal ==> inv_normal(s) && inv_ready(s) ensures inv(s)
{ reveal(inv_a); reveal(inv_b); norm_same(s); let t = norm(s); assert(inv_all(&t)); }
pub proof fn cnt_sub(n: nat, s: ISet<nat>, t: ISet<nat>) requires forall|v: nat| v < n && s.contains(v) ==> t.contains(v) ensures cnt(n, s) <= cnt(n, t) decreases n
{ if n > 0 { cnt_sub((n - 1) as nat, s, t); } }
/// t is s and, apart from it, d
pub proof fn cnt_add(n: nat, s: ISet<nat>, d: ISet<nat>, t: ISet<nat>)
    requires forall|v: nat| v < n ==> (t.contains(v) <==> s.contains(v) || d.contains(v)) && !(s.contains(v) && d.contains(v))
    ensures cnt(n, t) == cnt(n, s) + cnt(n, d) decreases n
{ if n > 0 { cnt_add((n - 1) as nat, s, d, t); } }
pub proof fn cnt_all(n: nat, s: ISet<nat>) ensures cnt(n, s) + cnt(n, s.complement()) == n decreases n
{ if n > 0 { cnt_all((n - 1) as nat, s); } }
pub proof fn n_aff_cnt(g: &G, r: Seq<NodeIndex>, s: ISet<nat>, a: u64)
    requires list_ok(g, r), forall|v: nat| in_list(r, v) <==> v < g.n() && s.contains(v)
    ensures n_aff(g, r, a) == cnt(g.n(), s.intersect(affs(g, a))) decreases r.len()
{
    let n = g.n();
    if r.len() == 0 { cnt_zero(n, s.intersect(affs(g, a))); assert forall|v: nat| v < n implies !s.contains(v) by { assert(!in_list(r, v)); } }
    else {
        let x = r.last().ix as nat; let d = r.drop_last(); let t = s.remove(x);
        assert(r[r.len() - 1].ix == x); assert(in_list(r, x));
        assert forall|v: nat| in_list(d, v) <==> v < n && t.contains(v) by {
            if in_list(d, v) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).ix == v; assert(r[j].ix == v); assert(r[j].ix != r[r.len() - 1].ix); assert(in_list(r, v)); }
            if v < n && t.contains(v) { assert(in_list(r, v)); let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ix == v; assert(d[j].ix == v); }
        }
        assert(list_ok(g, d)) by { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).ix < g.n() by { assert(r[j].ix < g.n()); }
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).ix != (#[trigger] d[j]).ix by { assert(r[i].ix != r[j].ix); } }
        n_aff_cnt(g, d, t, a);
        if aff(g, x) == a { cnt_one(n, t.intersect(affs(g, a)), s.intersect(affs(g, a)), x); } else { cnt_ext(n, t.intersect(affs(g, a)), s.intersect(affs(g, a))); }
    }
}
/// tasks were handed out
pub proof fn rely_step(a: &ReadyTrackerServer, b: &ReadyTrackerServer)
    requires inv(a), only_queue(a, b), rely(a.g, a.logfile.log(), &a.queuestate, &b.queuestate) ensures inv(b)
{
    inv_open(a);
    let g = a.g; let n = g.n(); let l = a.logfile.log(); let o0 = a.queuestate.out(); let o1 = b.queuestate.out(); let w = o1.difference(o0);
    assert forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) implies b.queuestate.map()[k].num_inflight == cnt(n, running(g, l, o1, k)) by {
        assert(a.queuestate.map().contains_key(k));
        assert forall|v: nat| v < n && w.contains(v) implies !fin(g, l).contains(v) by {}
        cnt_add(n, running(g, l, o0, k), w.intersect(affs(g, k)), running(g, l, o1, k));
    }
    if a.shutdown_state == ShutdownState::Normal {
        assert forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) implies b.queuestate.map()[k].num_ready == cnt(n, to_run(g, l, o1, k)) by {
            assert(a.queuestate.map().contains_key(k));
            cnt_add(n, to_run(g, l, o1, k), w.intersect(affs(g, k)), to_run(g, l, o0, k));
        }
    }
    inv_close(b);
}
@text
/// apart from the log and the tasks in flight
pub open spec fn same_counts(a: &ReadyTrackerServer, b: &ReadyTrackerServer) -> bool {
    b.g == a.g && b.statuses == a.statuses && b.finished_order == a.finished_order && b.fizzles_allowed == a.fizzles_allowed && b.shutdown_state == a.shutdown_state
    && b.n_unready_tasks_approximate_for_eta_purposes_only == a.n_unready_tasks_approximate_for_eta_purposes_only && b.queuestate == a.queuestate
    && b.n_ready_or_inflight == a.n_ready_or_inflight && b.n_success == a.n_success && b.n_failed == a.n_failed && b.n_fizzled == a.n_fizzled && b.ready == a.ready
}
pub open spec fn is_log_step(g: &G, l0: Log, l1: Log, u: nat, s: Ls) -> bool { l1 == l0.insert(key(g, u), s) }
pub proof fn st_step(g: &G, l0: Log, l1: Log, u: nat, s: Ls)
    requires keys_distinct(g), u < g.n(), is_log_step(g, l0, l1, u, s)
    ensures forall|v: nat| #[trigger] st(g, l1, v) == (if v == u { Some(s) } else { st(g, l0, v) })
{ assert forall|v: nat| #[trigger] st(g, l1, v) == (if v == u { Some(s) } else { st(g, l0, v) }) by { if v < g.n() && v != u { assert(key(g, v) != key(g, u)); } } }
/// a task was started
pub proof fn started_step(a: &ReadyTrackerServer, b: &ReadyTrackerServer, u: nat)
    requires inv(a), same_counts(a, b), u < a.g.n(), a.queuestate.out().contains(u), st(a.g, a.logfile.log(), u) == Some(Ls::Ready),
        is_log_step(a.g, a.logfile.log(), b.logfile.log(), u, Ls::Started), b.inflight@.dom() =~= a.inflight@.dom().insert(u)
    ensures inv(b)
{
    inv_open(a);
    let g = a.g; let l0 = a.logfile.log(); let l1 = b.logfile.log();
    st_step(g, l0, l1, u, Ls::Started);
    assert(made(g, l1) =~= made(g, l0)); assert(fin(g, l1) =~= fin(g, l0)); assert(good(g, l1) =~= good(g, l0)); assert(bad(g, l1) =~= bad(g, l0));
    assert forall|v: nat| #[trigger] fin(g, l1).contains(v) || started(g, l1).contains(v) implies b.queuestate.out().contains(v) by { assert(fin(g, l0).contains(v) || started(g, l0).contains(v) || v == u); }
    assert forall|v: nat| #[trigger] b.inflight@.contains_key(v) <==> started(g, l1).contains(v) by { assert(a.inflight@.contains_key(v) <==> started(g, l0).contains(v)); assert(b.inflight@.dom().contains(v) <==> a.inflight@.dom().contains(v) || v == u); }
    assert forall|v: nat| #[trigger] made(g, l1).contains(v) implies pend(g.edges(), v, good(g, l1)) == 0 by { assert(made(g, l0).contains(v)); }
    if a.shutdown_state == ShutdownState::Normal {
        assert forall|v: nat| blocked(g, l1, v) == blocked(g, l0, v) by {}
    }
    inv_close(b);
}
/// what the accounting of a completion may rely on
pub proof fn finish_pre(s: &ReadyTrackerServer, u: nat, ok: bool)
    requires inv(s), u < s.g.n(), s.queuestate.out().contains(u), !fin(s.g, s.logfile.log()).contains(u)
    ensures
        s.queuestate.map().contains_key(aff(s.g, u)) && s.queuestate.map()[aff(s.g, u)].num_inflight > 0,
        s.n_ready_or_inflight > 0,
        s.n_success + s.n_failed < u32::MAX, s.n_fizzled < u32::MAX, s.statuses@.dom().len() <= u32::MAX,
        s.shutdown_state == ShutdownState::Normal && ok ==> forall|v: nat| v < s.g.n() && !(#[trigger] s.statuses@[v]).poisoned ==> mult(s.g.edges(), (u, v)) <= s.statuses@[v].n_unmet_deps,
        s.shutdown_state == ShutdownState::Normal ==> {
            let ns = newset(s.g, s.statuses@, u, ok); let k = cnt(s.g.n(), ns);
            &&& forall|v: nat| #[trigger] ns.contains(v) ==> !made(s.g, s.logfile.log()).contains(v) && !s.logfile.log().contains_key(key(s.g, v))
            &&& forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) ==> s.queuestate.map()[a].num_ready + k <= u32::MAX
            &&& s.n_ready_or_inflight - 1 + k <= u32::MAX
            &&& s.n_unready_tasks_approximate_for_eta_purposes_only@ >= k },
{
    inv_open(s);
    let g = s.g; let n = g.n(); let l = s.logfile.log(); let es = g.edges(); let gd = good(g, l); let m = made(g, l); let a0 = aff(g, u);
    assert(n < 0xffff_ffff) by { graph_small(g); }
    assert(m.contains(u));
    cnt_zero(n, running(g, l, s.queuestate.out(), a0));
    assert(running(g, l, s.queuestate.out(), a0).contains(u));
    cnt_zero(n, m.difference(fin(g, l))); assert(m.difference(fin(g, l)).contains(u));
    cnt_add(n, gd, bad(g, l), fin(g, l)); cnt_zero(n, fin(g, l));
    cnt_zero(n, fin(g, l).complement()); cnt_all(n, fin(g, l)); assert(fin(g, l).complement().contains(u));
    if s.shutdown_state == ShutdownState::Normal {
        if ok {
            assert forall|v: nat| v < n && !(#[trigger] s.statuses@[v]).poisoned implies mult(es, (u, v)) <= s.statuses@[v].n_unmet_deps by { pend_insert(es, v, gd, u); }
        }
        let ns = newset(g, s.statuses@, u, ok);
        assert forall|v: nat| #[trigger] ns.contains(v) implies !m.contains(v) && !l.contains_key(key(g, v)) by { assert(s.statuses@[v].n_unmet_deps == pend(es, v, gd)); }
        cnt_sub(n, ns, m.complement()); cnt_all(n, m);
        cnt_sub(n, m.difference(fin(g, l)), m);
        assert forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) implies s.queuestate.map()[a].num_ready + cnt(n, ns) <= u32::MAX by { cnt_sub(n, to_run(g, l, s.queuestate.out(), a), m); }
    }
}
@text
/// u finished: a before it, p with u noted, m after the accounting, b after resolving what waited for it, c with it in the log
pub proof fn finish_step(a: &ReadyTrackerServer, p: &ReadyTrackerServer, m: &ReadyTrackerServer, b: &ReadyTrackerServer, c: &ReadyTrackerServer, e0: Eff, e1: Eff, x: NodeIndex, code: int)
    requires inv(a), x.ix < a.g.n(), a.queuestate.out().contains(x.ix as nat), !fin(a.g, a.logfile.log()).contains(x.ix as nat),
        p.finished_order@ == a.finished_order@.push(x), p.g == a.g && p.logfile == a.logfile && p.ready == a.ready && p.statuses == a.statuses && p.inflight == a.inflight
          && p.fizzles_allowed == a.fizzles_allowed && p.shutdown_state == a.shutdown_state && p.n_unready_tasks_approximate_for_eta_purposes_only == a.n_unready_tasks_approximate_for_eta_purposes_only
          && p.queuestate == a.queuestate && p.n_ready_or_inflight == a.n_ready_or_inflight && p.n_success == a.n_success && p.n_failed == a.n_failed && p.n_fizzled == a.n_fizzled,
        booked(p, m, x.ix as nat, code), resolved(m, b, e0, e1, x.ix as nat, code == 0), same_counts(b, c),
        c.inflight@.dom() =~= a.inflight@.dom().remove(x.ix as nat),
        is_log_step(a.g, b.logfile.log(), c.logfile.log(), x.ix as nat, Ls::Finished { status: code }),
    ensures inv(c)
{
    inv_open(a);
    let u = x.ix as nat; let ok = code == 0;
    let g = a.g; let n = g.n(); let es = g.edges(); let l0 = a.logfile.log(); let lb = b.logfile.log(); let l2 = c.logfile.log(); let out = a.queuestate.out();
    let soft = a.shutdown_state == ShutdownState::SoftShutdown;
    let ns = if soft { ISet::new(|v: nat| false) } else { newset(g, a.statuses@, u, ok) };
    finish_pre(a, u, ok);
    assert(made(g, l0).contains(u));
    let r = if soft { Seq::<NodeIndex>::empty() } else { choose|r: Seq<NodeIndex>| list_ok(m.g, r) && (forall|v: nat| in_list(r, v) <==> newset(m.g, m.statuses@, u, ok).contains(v)) && #[trigger] released(m, b, e0, e1, r) };
    assert forall|v: nat| in_list(r, v) <==> v < n && ns.contains(v) by {}
    assert(list_ok(g, r));
    list_cnt(g, r, n, ns);
    assert forall|v: nat| #[trigger] st(g, lb, v) == (if ns.contains(v) { Some(Ls::Ready) } else { st(g, l0, v) }) by {
        if !soft && v < n { if l0.contains_key(key(g, v)) { assert(lb.contains_key(key(g, v))); assert(!ns.contains(v)); } else { assert(in_list(r, v) <==> ns.contains(v)); } }
    }
    st_step(g, lb, l2, u, Ls::Finished { status: code });
    let m0 = made(g, l0); let m2 = made(g, l2); let f0 = fin(g, l0); let f2 = fin(g, l2);
    assert forall|v: nat| m2.contains(v) <==> m0.contains(v) || ns.contains(v) by { assert(st(g, l2, v) == st(g, l2, v)); assert(st(g, lb, v) == st(g, lb, v)); }
    assert forall|v: nat| f2.contains(v) <==> f0.contains(v) || v == u by { assert(st(g, l2, v) == st(g, l2, v)); assert(st(g, lb, v) == st(g, lb, v)); }
    assert forall|v: nat| started(g, l2).contains(v) <==> started(g, l0).contains(v) && v != u by { assert(st(g, l2, v) == st(g, l2, v)); assert(st(g, lb, v) == st(g, lb, v)); }
    assert forall|v: nat| good(g, l2).contains(v) <==> good(g, l0).contains(v) || v == u && ok by { assert(st(g, l2, v) == st(g, l2, v)); assert(st(g, lb, v) == st(g, lb, v)); }
    assert forall|v: nat| bad(g, l2).contains(v) <==> bad(g, l0).contains(v) || v == u && !ok by {}
    assert(ok ==> good(g, l2) =~= good(g, l0).insert(u)); assert(!ok ==> good(g, l2) =~= good(g, l0));
    assert(!ns.contains(u)) by { assert(made(g, l0).contains(u)); }
    let q0 = a.queuestate.map(); let q1 = m.queuestate.map(); let q2 = c.queuestate.map();
    assert forall|v: nat| #[trigger] c.statuses@.contains_key(v) <==> v < n by { assert(c.statuses@.dom().contains(v) <==> a.statuses@.dom().contains(v)); }
    // counters
    cnt_add(n, m0, ns, m2);
    cnt_one(n, m0.difference(f2), m0.difference(f0), u);
    cnt_add(n, m0.difference(f2), ns, m2.difference(f2));
    if ok { cnt_one(n, good(g, l0), good(g, l2), u); cnt_ext(n, bad(g, l0), bad(g, l2)); } else { cnt_one(n, bad(g, l0), bad(g, l2), u); }
    // what waits
    assert forall|v: nat| #[trigger] m2.contains(v) implies pend(es, v, good(g, l2)) == 0 by {
        if m0.contains(v) { pend_zero(es, v, good(g, l0)); pend_zero(es, v, good(g, l2)); assert(pend(es, v, good(g, l0)) == 0); }
        else { assert(ns.contains(v)); pend_insert(es, v, good(g, l0), u); }
    }
    assert forall|v: nat| #[trigger] f2.contains(v) || started(g, l2).contains(v) implies out.contains(v) by { assert(f0.contains(v) || started(g, l0).contains(v) || v == u); }
    assert forall|v: nat| #[trigger] c.inflight@.contains_key(v) <==> started(g, l2).contains(v) by { assert(a.inflight@.contains_key(v) <==> started(g, l0).contains(v)); assert(c.inflight@.dom().contains(v) <==> a.inflight@.dom().contains(v) && v != u); }
    // the published counts
    assert forall|v: nat| #[trigger] m2.contains(v) implies q2.contains_key(aff(g, v)) by {
        if m0.contains(v) { assert(q0.contains_key(aff(g, v))); assert(q1.contains_key(aff(g, v))); }
        else { assert(ns.contains(v)); n_aff_cnt(g, r, ns, aff(g, v)); cnt_zero(n, ns.intersect(affs(g, aff(g, v)))); assert(ns.intersect(affs(g, aff(g, v))).contains(v)); }
    }
    assert forall|k: u64| #[trigger] q2.contains_key(k) implies q2[k].num_inflight == cnt(n, running(g, l2, out, k)) by {
        if aff(g, u) == k { cnt_one(n, running(g, l2, out, k), running(g, l0, out, k), u); assert(q0.contains_key(k)); assert(q1.contains_key(k)); }
        else { cnt_ext(n, running(g, l2, out, k), running(g, l0, out, k)); if !q0.contains_key(k) { assert(!q1.contains_key(k)); cnt_zero(n, running(g, l0, out, k)); assert forall|v: nat| v < n implies !running(g, l0, out, k).contains(v) by { if running(g, l0, out, k).contains(v) { assert(m0.contains(v)); assert(q0.contains_key(aff(g, v))); } } } }
    }
    // the order of completion
    assert forall|v: nat| in_list(c.finished_order@, v) <==> #[trigger] f2.contains(v) by { in_list_push(a.finished_order@, x, v); assert(in_list(a.finished_order@, v) <==> f0.contains(v)); }
    assert(list_ok(g, c.finished_order@)) by {
        let o = a.finished_order@;
        assert forall|i: int, j: int| 0 <= i < j < o.push(x).len() implies (#[trigger] o.push(x)[i]).ix != (#[trigger] o.push(x)[j]).ix by {
            if j == o.len() { if o[i].ix == x.ix { assert(in_list(o, u)); assert(f0.contains(u)); } } else { assert(o[i].ix != o[j].ix); } }
        assert forall|i: int| 0 <= i < o.push(x).len() implies (#[trigger] o.push(x)[i]).ix < n by { if i < o.len() { assert(o[i].ix < n); } }
    }
    if !soft {
        assert forall|v: nat| v < n implies (#[trigger] c.statuses@[v]).poisoned == blocked(g, l2, v) by {
            mult_pos(es, (u, v)); assert(c.statuses@[v] == status_after(a.statuses@[v], ok, mult(es, (u, v)))); assert(a.statuses@[v].poisoned == blocked(g, l0, v));
            if blocked(g, l0, v) { let y = choose|y: nat| #[trigger] es.contains((y, v)) && bad(g, l0).contains(y); assert(bad(g, l2).contains(y)); assert(es.contains((y, v))); }
            if blocked(g, l2, v) { let y = choose|y: nat| #[trigger] es.contains((y, v)) && bad(g, l2).contains(y); if y != u { assert(bad(g, l0).contains(y)); assert(blocked(g, l0, v)); } }
            if !ok && es.contains((u, v)) { assert(bad(g, l2).contains(u)); }
        }
        assert forall|v: nat| v < n && !(#[trigger] c.statuses@[v]).poisoned implies c.statuses@[v].n_unmet_deps == pend(es, v, good(g, l2)) by {
            assert(c.statuses@[v] == status_after(a.statuses@[v], ok, mult(es, (u, v)))); assert(!a.statuses@[v].poisoned); pend_insert(es, v, good(g, l0), u);
        }
        assert forall|v: nat| v < n && !(#[trigger] c.statuses@[v]).poisoned && c.statuses@[v].n_unmet_deps == 0 implies m2.contains(v) by {
            assert(c.statuses@[v] == status_after(a.statuses@[v], ok, mult(es, (u, v)))); assert(!a.statuses@[v].poisoned);
            if a.statuses@[v].n_unmet_deps == 0 { assert(m0.contains(v)); } else { pend_insert(es, v, good(g, l0), u); assert(mult(es, (u, v)) > 0); assert(ns.contains(v)); }
        }
        assert forall|k: u64| #[trigger] q2.contains_key(k) implies q2[k].num_ready == cnt(n, to_run(g, l2, out, k)) by {
            n_aff_cnt(g, r, ns, k);
            assert forall|v: nat| out.contains(v) implies !ns.contains(v) by { if out.contains(v) { assert(m0.contains(v)); } }
            cnt_add(n, to_run(g, l0, out, k), ns.intersect(affs(g, k)), to_run(g, l2, out, k));
            if !q0.contains_key(k) { assert(k != aff(g, u)); assert(!q1.contains_key(k)); cnt_zero(n, to_run(g, l0, out, k)); assert forall|v: nat| v < n implies !to_run(g, l0, out, k).contains(v) by { if to_run(g, l0, out, k).contains(v) { assert(m0.contains(v)); assert(q0.contains_key(aff(g, v))); } } }
            else { assert(q1.contains_key(k)); }
        }
    }
    inv_close(c);
}
@text
/// what resolving a completion may rely on
pub open spec fn can_resolve(s: &ReadyTrackerServer, u: nat, ok: bool) -> bool {
    let ns = newset(s.g, s.statuses@, u, ok); let k = cnt(s.g.n(), ns);
    &&& s.shutdown_state == ShutdownState::SoftShutdown <==> s.ready is None
    &&& forall|v: nat| v < s.g.n() ==> #[trigger] s.statuses@.contains_key(v)
    &&& s.shutdown_state == ShutdownState::Normal && ok ==> forall|v: nat| v < s.g.n() && !(#[trigger] s.statuses@[v]).poisoned ==> mult(s.g.edges(), (u, v)) <= s.statuses@[v].n_unmet_deps // [C01]
    &&& keys_distinct(s.g)
    &&& s.shutdown_state == ShutdownState::Normal ==> {
        &&& forall|v: nat| #[trigger] ns.contains(v) ==> !s.logfile.log().contains_key(key(s.g, v)) // [C01]
        &&& forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) ==> s.queuestate.map()[a].num_ready + k <= u32::MAX
        &&& s.n_ready_or_inflight - 1 + k <= u32::MAX
        &&& s.n_unready_tasks_approximate_for_eta_purposes_only@ >= k } // [C20]
}
@fn ReadyTrackerServer::_finished_bookkeeping eff
@locals e eff out
@prop C01 C02 C03 C04 C05 C20
@dropstmt if let Some(ref mut flag)
@ret r
@spec
    requires old(e).id.ix < old(self).g.n(), can_resolve(old(self), old(e).id.ix as nat, old(e).status.ok()), old(self).n_ready_or_inflight > 0,
        old(self).queuestate.map().contains_key(aff(old(self).g, old(e).id.ix as nat)) && old(self).queuestate.map()[aff(old(self).g, old(e).id.ix as nat)].num_inflight > 0, // [C20]
        old(self).n_success + old(self).n_failed < u32::MAX, old(self).n_fizzled < u32::MAX, old(self).statuses@.dom().len() <= u32::MAX,
    ensures final(e).id == old(e).id && final(e).status == old(e).status,
        r is Ok ==> exists|m: ReadyTrackerServer| #[trigger] booked(old(self), &m, old(e).id.ix as nat, old(e).status.code()) && resolved(&m, final(self), *old(eff), *final(eff), old(e).id.ix as nat, old(e).status.ok()),
@hint after-call _finished_bookkeeping_1 0
    let ghost mid = *self;
@hint fn-end
    proof { if vx_ret is Ok { assert(booked(old(self), &mid, old(e).id.ix as nat, old(e).status.code())); } }
@text
/// the state before anything was done
pub open spec fn fresh(s: &ReadyTrackerServer) -> bool {
    let g = s.g; let n = g.n();
    &&& keys_distinct(g)
    &&& forall|v: nat| #[trigger] s.statuses@.contains_key(v) <==> v < n
    &&& s.statuses@.dom().len() == n
    &&& forall|v: nat| v < n ==> !(#[trigger] s.statuses@[v]).poisoned && s.statuses@[v].n_unmet_deps == pend(g.edges(), v, ISet::empty()) // [C01]
    &&& forall|v: nat| v < n ==> !s.logfile.log().contains_key(#[trigger] key(g, v))
    &&& forall|v: nat| !#[trigger] s.inflight@.contains_key(v)
    &&& s.n_ready_or_inflight == 0 && s.n_success == 0 && s.n_failed == 0 && s.n_fizzled == 0
    &&& forall|a: u64| !#[trigger] s.queuestate.map().contains_key(a)
    &&& forall|v: nat| !#[trigger] s.queuestate.out().contains(v)
    &&& s.finished_order@.len() == 0 && s.ready is Some && s.shutdown_state == ShutdownState::Normal
    &&& forall|i: int| 0 <= i < 64 ==> (#[trigger] s.ready->0@[i]).offers().len() == 0
}
/// runners receive from a queue what the tracker offers on it
pub open spec fn wired(r: &ReadyTrackerServer, c: &ReadyTrackerClient) -> bool {
    &&& r.ready is Some && forall|i: int| 0 <= i < 64 ==> (#[trigger] r.ready->0@[i]).chan() == c.r@[i].chan() // [C03]
    &&& r.completed.chan() == c.s.chan() // [C06]
    &&& c.queuestate.id() == r.queuestate.id() && c.n_unready_tasks.id() == r.n_unready_tasks_approximate_for_eta_purposes_only.id() // [C20]
}
@fn new_ready_tracker
@locals g logfile count_offset fizzles_allowed ratelimit_per_second ready_s ready_r sender receiver queuestate finished_s finished_r statuses i n_total_tasks ready_or_inflight_increased_event soft_shutdown_trigger server client
@letty ready_s Vec<Sender<TaskItem, u32>>
@letty ready_r Vec<QueueReceiver>
@letty vx_acc0 HashMap<NodeIndex, TaskStatus>
@prop C01 C03 C04 C05 C20
@paramty g &'a DiGraph<Cmd, ()>
@paramty logfile LogFile
@ret r
@spec
    requires keys_distinct(g), forall|v: nat| v < g.n() ==> !logfile.log().contains_key(#[trigger] key(g, v))
    ensures fresh(&r.0), r.0.g == g, // [C01] [C04]
        r.0.fizzles_allowed == fizzles_allowed, // [C05]
        r.0.count_offset == count_offset,
        wired(&r.0, &r.1), // [C03] [C20]
        r.1.n_total_tasks == g.n(), // [C20]
@loop 0
    invariant
        ready_s@.len() == vx_it0.pos(), ready_r@.len() == vx_it0.pos(),
        forall|i: int| 0 <= i < ready_s@.len() ==> (#[trigger] ready_s@[i]).offers().len() == 0,
        forall|i: int| 0 <= i < ready_s@.len() ==> (#[trigger] ready_s@[i]).chan() == ready_r@[i].chan(),
@loop 1
    invariant
        forall|v: nat| #[trigger] vx_acc0@.contains_key(v) <==> v < vx_it1.pos(),
        vx_acc0@.dom().len() == vx_it1.pos(),
        forall|v: nat| v < vx_it1.pos() ==> !(#[trigger] vx_acc0@[v]).poisoned && vx_acc0@[v].n_unmet_deps == pend(g.edges(), v, ISet::empty()), // [C01]
@hint loop-start 1
    proof { pend_degree(g.edges(), (vx_it1.pos() - 1) as nat); graph_small(g); }
@hint after-loop 1
    proof { graph_small(g); }
@text
pub open spec fn roots(g: &G) -> ISet<nat> { ISet::new(|v: nat| v < g.n() && pend(g.edges(), v, ISet::empty()) == 0) }
/// the tasks without dependencies were made available
pub proof fn init_step(a: &ReadyTrackerServer, p: &ReadyTrackerServer, b: &ReadyTrackerServer, e0: Eff, e1: Eff, r: Seq<NodeIndex>)
    requires fresh(a), only_queue(a, &ReadyTrackerServer { n_unready_tasks_approximate_for_eta_purposes_only: a.n_unready_tasks_approximate_for_eta_purposes_only, ..*p }), p.queuestate == a.queuestate, p.n_unready_tasks_approximate_for_eta_purposes_only@ == a.g.n(),
        list_ok(a.g, r), forall|v: nat| in_list(r, v) <==> roots(a.g).contains(v), released(p, b, e0, e1, r), b.statuses == p.statuses,
    ensures inv(b), cnt(a.g.n(), made(a.g, b.logfile.log())) == r.len()
{
    
    let g = a.g; let n = g.n(); let es = g.edges(); let l0 = a.logfile.log(); let l = b.logfile.log(); let rs = roots(g);
    list_cnt(g, r, n, rs);
    assert forall|v: nat| #[trigger] st(g, l, v) == (if rs.contains(v) { Some(Ls::Ready) } else { None::<Ls> }) by { if v < n { assert(!l0.contains_key(key(g, v))); assert(in_list(r, v) <==> rs.contains(v)); } }
    assert forall|v: nat| made(g, l).contains(v) <==> rs.contains(v) by { assert(st(g, l, v) == st(g, l, v)); }
    assert forall|v: nat| !fin(g, l).contains(v) && !started(g, l).contains(v) && !good(g, l).contains(v) by { assert(st(g, l, v) == st(g, l, v)); }
    assert(good(g, l) =~= ISet::empty());
    cnt_ext(n, made(g, l), rs); cnt_ext(n, made(g, l).difference(fin(g, l)), rs); cnt_zero(n, good(g, l)); cnt_zero(n, bad(g, l));
    let q = b.queuestate.map(); let out = b.queuestate.out();
    assert forall|v: nat| #[trigger] made(g, l).contains(v) implies q.contains_key(aff(g, v)) by {
        n_aff_cnt(g, r, rs, aff(g, v)); cnt_zero(n, rs.intersect(affs(g, aff(g, v)))); assert(rs.intersect(affs(g, aff(g, v))).contains(v)); }
    assert forall|k: u64| #[trigger] q.contains_key(k) implies q[k].num_inflight == cnt(n, running(g, l, out, k)) by { assert(!a.queuestate.map().contains_key(k)); cnt_zero(n, running(g, l, out, k)); }
    assert forall|k: u64| #[trigger] q.contains_key(k) implies q[k].num_ready == cnt(n, to_run(g, l, out, k)) by { assert(!a.queuestate.map().contains_key(k)); n_aff_cnt(g, r, rs, k); cnt_ext(n, to_run(g, l, out, k), rs.intersect(affs(g, k))); }
    assert forall|v: nat| !in_list(b.finished_order@, v) by {}
    assert forall|v: nat| !blocked(g, l, v) by {}
    assert forall|v: nat| #[trigger] b.inflight@.contains_key(v) <==> started(g, l).contains(v) by { assert(!a.inflight@.contains_key(v)); }
    inv_close(b);
}
/// dependencies come first in some order
pub open spec fn acyclic(g: &G, rk: spec_fn(nat) -> nat) -> bool { forall|u: nat, v: nat| #[trigger] g.edges().contains((u, v)) ==> u < g.n() && rk(u) < rk(v) }
pub proof fn root_exists(g: &G, rk: spec_fn(nat) -> nat, v: nat) requires acyclic(g, rk), v < g.n() ensures cnt(g.n(), roots(g)) > 0 decreases rk(v)
{
    if pend(g.edges(), v, ISet::empty()) == 0 { cnt_zero(g.n(), roots(g)); assert(roots(g).contains(v)); }
    else { pend_zero(g.edges(), v, ISet::empty()); let u = choose|u: nat| #[trigger] g.edges().contains((u, v)) && !ISet::<nat>::empty().contains(u); root_exists(g, rk, u); }
}
@text
/// why serving may end
pub open spec fn may_stop(s: &ReadyTrackerServer, t: &CancellationToken) -> bool {
    s.n_ready_or_inflight == 0 || (s.shutdown_state == ShutdownState::SoftShutdown && forall|v: nat| !#[trigger] s.inflight@.contains_key(v)) || t.is_hard() || ctrl_c_seen() || runners_gone()
}
pub open spec fn cutoff_ok(c: int) -> bool { exists|t: int| #[trigger] clock_read(t) && c == t - 5_000_000_000 }
/// fizzled tasks and the requests to stop
pub open spec fn fizzle_ok(s: &ReadyTrackerServer, e0: Eff, e: Eff) -> bool {
    &&& s.shutdown_state == ShutdownState::Normal && s.finished_order@.len() > 0 ==> s.n_fizzled < s.fizzles_allowed
    &&& s.shutdown_state == ShutdownState::SoftShutdown ==> s.n_fizzled >= s.fizzles_allowed || flag_was_set()
    &&& e.cancels().len() > e0.cancels().len() ==> s.shutdown_state == ShutdownState::SoftShutdown && s.n_fizzled >= s.fizzles_allowed
    &&& e.cancels().len() >= e0.cancels().len() && forall|i: int| e0.cancels().len() <= i < e.cancels().len() ==> cutoff_ok(#[trigger] e.cancels()[i])
}
pub open spec fn zeroed(q0: Map<u64, Snapshot>, q1: Map<u64, Snapshot>, ks: Seq<u64>, p: int) -> bool {
    &&& q1.dom() =~= q0.dom()
    &&& forall|a: u64| #[trigger] q1.contains_key(a) ==> q1[a].num_inflight == q0[a].num_inflight
    &&& forall|j: int| 0 <= j < p ==> q1[#[trigger] ks[j]].num_ready == 0
}
pub proof fn zero_done(q0: Map<u64, Snapshot>, q1: Map<u64, Snapshot>, ks: Seq<u64>)
    requires lists_keys(ks, q0), zeroed(q0, q1, ks, ks.len() as int) ensures forall|a: u64| #[trigger] q1.contains_key(a) ==> q1[a].num_ready == 0
{ assert forall|a: u64| #[trigger] q1.contains_key(a) implies q1[a].num_ready == 0 by { assert(q0.dom().contains(a)); assert(q0.contains_key(a)); let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == a; assert(q1[ks[i]].num_ready == 0); } }
/// keys listed so far whose task has no dependency
pub open spec fn root_list(s: Seq<(&NodeIndex, &TaskStatus)>, p: int, v: nat) -> bool { exists|i: int| 0 <= i < p && (#[trigger] s[i]).0.ix == v && s[i].1.n_unmet_deps == 0 }
pub proof fn root_list_step(s: Seq<(&NodeIndex, &TaskStatus)>, p: int, v: nat) requires 0 <= p < s.len() ensures root_list(s, p + 1, v) <==> root_list(s, p, v) || s[p].0.ix == v && s[p].1.n_unmet_deps == 0
{ if root_list(s, p + 1, v) { let i = choose|i: int| 0 <= i < p + 1 && (#[trigger] s[i]).0.ix == v && s[i].1.n_unmet_deps == 0; if i < p { assert(root_list(s, p, v)); } }
  if root_list(s, p, v) { let i = choose|i: int| 0 <= i < p && (#[trigger] s[i]).0.ix == v && s[i].1.n_unmet_deps == 0; assert(s[i].0.ix == v); } }
/// everything a task made available depends on, directly or not, succeeded
pub proof fn ancestors_good(s: &ReadyTrackerServer, p: Seq<nat>)
    requires inv_all(s), is_walk(s.g, p), p.len() >= 2, made(s.g, s.logfile.log()).contains(p.last())
    ensures good(s.g, s.logfile.log()).contains(p[0]) decreases p.len()
{
    let g = s.g; let l = s.logfile.log(); let k = p.len() as int;
    assert(g.has(p[k - 2], p[k - 1])); pend_zero(g.edges(), p.last(), good(g, l)); assert(g.edges().contains((p[k - 2], p.last())));
    assert(good(g, l).contains(p[k - 2]));
    if k > 2 {
        let d = p.drop_last();
        assert forall|i: int| 0 <= i < d.len() - 1 implies g.has(#[trigger] d[i], d[i + 1]) by { assert(g.has(p[i], p[i + 1])); }
        assert(made(g, l).contains(d.last()));
        ancestors_good(s, d);
    }
}
/// with nothing open, whatever did not finish is behind a failure
pub proof fn settled(s: &ReadyTrackerServer, rk: spec_fn(nat) -> nat, v: nat)
    requires inv_all(s), inv_normal(s), acyclic(s.g, rk), s.n_ready_or_inflight == 0, v < s.g.n(), !fin(s.g, s.logfile.log()).contains(v)
    ensures exists|p: Seq<nat>| #[trigger] is_walk(s.g, p) && p.len() >= 2 && p.last() == v && bad(s.g, s.logfile.log()).contains(p[0]) decreases rk(v)
{
    let g = s.g; let l = s.logfile.log(); let es = g.edges();
    cnt_zero(g.n(), made(g, l).difference(fin(g, l)));
    assert(!made(g, l).difference(fin(g, l)).contains(v));
    if s.statuses@[v].poisoned {
        let u = choose|u: nat| #[trigger] es.contains((u, v)) && bad(g, l).contains(u);
        assert(es.contains((u, v)));
        let p = seq![u, v]; assert(g.has(p[0], p[1])); assert(is_walk(g, p));
    } else {
        pend_zero(es, v, good(g, l));
        let u = choose|u: nat| #[trigger] es.contains((u, v)) && !good(g, l).contains(u);
        assert(!blocked(g, l, v)); assert(!bad(g, l).contains(u));
        assert(u < g.n() && rk(u) < rk(v));
        settled(s, rk, u);
        let q = choose|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p.last() == u && bad(g, l).contains(p[0]);
        let p = q.push(v);
        assert forall|i: int| 0 <= i < p.len() - 1 implies g.has(#[trigger] p[i], p[i + 1]) by { if i < q.len() - 1 { assert(g.has(q[i], q[i + 1])); } else { assert(g.has(u, v)); } }
        assert(is_walk(g, p));
    }
}
pub open spec fn all_settled(s: &ReadyTrackerServer) -> bool {
    forall|v: nat| v < s.g.n() && !#[trigger] fin(s.g, s.logfile.log()).contains(v) ==> exists|p: Seq<nat>| #[trigger] is_walk(s.g, p) && p.len() >= 2 && p.last() == v && bad(s.g, s.logfile.log()).contains(p[0])
}
pub open spec fn no_descendants(s: &ReadyTrackerServer) -> bool {
    forall|p: Seq<nat>| #[trigger] is_walk(s.g, p) && p.len() >= 2 && made(s.g, s.logfile.log()).contains(p.last()) ==> good(s.g, s.logfile.log()).contains(p[0])
}
// ---- the queues -----------------------------------------------------------------------------------
pub open spec fn from_list(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int, o: Offer) -> bool { exists|j: int| 0 <= j < r.len() && o == offer1(g, (#[trigger] r[j]).ix as nat, fl[j]) && has_bit(o.affinity, i) }
pub proof fn list_prefix(g: &G, r: Seq<NodeIndex>) requires list_ok(g, r), r.len() > 0 ensures list_ok(g, r.drop_last())
{ let d = r.drop_last(); assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).ix < g.n() by { assert(r[j].ix < g.n()); }
  assert forall|a: int, b: int| 0 <= a < b < d.len() implies (#[trigger] d[a]).ix != (#[trigger] d[b]).ix by { assert(r[a].ix != r[b].ix); } }
pub proof fn list_offer(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int, o: Offer) -> (j: int) requires from_list(g, r, fl, i, o) ensures 0 <= j < r.len(), o == offer1(g, r[j].ix as nat, fl[j]), has_bit(o.affinity, i)
{ choose|j: int| 0 <= j < r.len() && o == offer1(g, (#[trigger] r[j]).ix as nat, fl[j]) && has_bit(o.affinity, i) }
pub proof fn offers_one(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int) requires r.len() > 0, r.len() == fl.len()
    ensures offers(g, r, fl, i) == (if has_bit(aff(g, r.last().ix as nat), i) { offers(g, r.drop_last(), fl.drop_last(), i).push(offer1(g, r.last().ix as nat, fl.last())) } else { offers(g, r.drop_last(), fl.drop_last(), i) }) {}
pub proof fn src1(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int, x: int)
    requires r.len() == fl.len(), 0 <= x < offers(g, r, fl, i).len() ensures from_list(g, r, fl, i, offers(g, r, fl, i)[x]) decreases r.len()
{
    if r.len() == 0 { assert(false); }
    let d = r.drop_last(); let df = fl.drop_last(); let od = offers(g, d, df, i); let o = offers(g, r, fl, i);
    offers_one(g, r, fl, i);
    if x < od.len() { src1(g, d, df, i, x); let j = list_offer(g, d, df, i, od[x]); assert(r[j] == d[j] && fl[j] == df[j]); assert(o[x] == od[x]); }
    else { assert(r[r.len() - 1] == r.last() && fl[r.len() - 1] == fl.last()); assert(o[x] == offer1(g, r[r.len() - 1].ix as nat, fl[r.len() - 1])); }
}
pub proof fn src2(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int, x: int, y: int)
    requires r.len() == fl.len(), list_ok(g, r), 0 <= x < y < offers(g, r, fl, i).len() ensures offers(g, r, fl, i)[x].id != offers(g, r, fl, i)[y].id decreases r.len()
{
    if r.len() == 0 { assert(false); }
    let d = r.drop_last(); let df = fl.drop_last(); let od = offers(g, d, df, i); let o = offers(g, r, fl, i);
    offers_one(g, r, fl, i); list_prefix(g, r);
    if y < od.len() { src2(g, d, df, i, x, y); assert(o[x] == od[x] && o[y] == od[y]); }
    else { src1(g, d, df, i, x); let j = list_offer(g, d, df, i, od[x]); assert(o[x] == od[x]); assert(d[j] == r[j]); assert(r[j].ix != r[r.len() - 1].ix); }
}
pub proof fn src3(g: &G, r: Seq<NodeIndex>, fl: Seq<int>, i: int, j: int) -> (x: int)
    requires r.len() == fl.len(), 0 <= j < r.len(), has_bit(aff(g, r[j].ix as nat), i) ensures 0 <= x < offers(g, r, fl, i).len(), offers(g, r, fl, i)[x].id == r[j].ix decreases r.len()
{
    let d = r.drop_last(); let df = fl.drop_last(); let od = offers(g, d, df, i); let o = offers(g, r, fl, i);
    offers_one(g, r, fl, i);
    if j < d.len() { let x = src3(g, d, df, i, j); assert(o[x] == od[x]); x } else { od.len() as int }
}
pub open spec fn offer_ok(g: &G, m: ISet<nat>, fs: Seq<int>, i: int, o: Offer) -> bool { o.id < g.n() && m.contains(o.id) && o.affinity == aff(g, o.id) && has_bit(o.affinity, i) && o.priority == g.nodes()[o.id as int].priority && fs.contains(o.flag) }
/// one task, one claim flag: whichever queues it is offered in
pub open spec fn same_claim(o: Offer, p: Offer) -> bool { o.id == p.id <==> o.flag == p.flag }
/// m: tasks made available; cs: the queues; fs: claim flags created
#[verifier::opaque]
pub open spec fn queues_ok(g: &G, m: ISet<nat>, cs: Seq<Sender<TaskItem, u32>>, fs: Seq<int>) -> bool {
    &&& forall|i: int, x: int| 0 <= i < 64 && 0 <= x < cs[i].offers().len() ==> offer_ok(g, m, fs, i, #[trigger] cs[i].offers()[x]) // [C03] [C01]
    &&& forall|i: int, x: int, j: int, y: int| 0 <= i < 64 && 0 <= j < 64 && 0 <= x < cs[i].offers().len() && 0 <= y < cs[j].offers().len() ==> same_claim(#[trigger] cs[i].offers()[x], #[trigger] cs[j].offers()[y]) // [C03]
    &&& forall|i: int, x: int, y: int| 0 <= i < 64 && 0 <= x < y < cs[i].offers().len() ==> (#[trigger] cs[i].offers()[x]).id != (#[trigger] cs[i].offers()[y]).id // [C03]
    &&& forall|i: int, v: nat| 0 <= i < 64 && #[trigger] m.contains(v) && #[trigger] has_bit(aff(g, v), i) && !cs[i].receivers_gone() ==> is_offered(cs[i], v) // [C04]
}
pub open spec fn is_offered(c: Sender<TaskItem, u32>, v: nat) -> bool { exists|x: int| 0 <= x < c.offers().len() && (#[trigger] c.offers()[x]).id == v }
pub proof fn queues_init(g: &G, m: ISet<nat>, cs: Seq<Sender<TaskItem, u32>>, fs: Seq<int>)
    requires forall|v: nat| !m.contains(v), forall|i: int| 0 <= i < 64 ==> (#[trigger] cs[i]).offers().len() == 0 ensures queues_ok(g, m, cs, fs) { reveal(queues_ok); }
/// the offers of a queue are the old ones and those of the list
pub open spec fn grown(g: &G, c0: Sender<TaskItem, u32>, c1: Sender<TaskItem, u32>, r: Seq<NodeIndex>, fl: Seq<int>, i: int) -> bool { offered(c0, c1, offers(g, r, fl, i)) }
pub proof fn offer_old_new(g: &G, c0: Sender<TaskItem, u32>, c1: Sender<TaskItem, u32>, r: Seq<NodeIndex>, fl: Seq<int>, i: int, x: int) -> (j: int)
    requires r.len() == fl.len(), list_ok(g, r), grown(g, c0, c1, r, fl, i), 0 <= x < c1.offers().len()
    ensures if x < c0.offers().len() { c1.offers()[x] == c0.offers()[x] } else { 0 <= j < r.len() && c1.offers()[x] == offer1(g, r[j].ix as nat, fl[j]) && has_bit(c1.offers()[x].affinity, i) }
{
    let k = c0.offers().len() as int;
    if x >= k { src1(g, r, fl, i, x - k); assert(c1.offers()[x] == offers(g, r, fl, i)[x - k]); list_offer(g, r, fl, i, c1.offers()[x]) } else { 0 }
}
pub open spec fn step_pre(g: &G, m0: ISet<nat>, m1: ISet<nat>, c0: Seq<Sender<TaskItem, u32>>, c1: Seq<Sender<TaskItem, u32>>, f0: Seq<int>, f1: Seq<int>, r: Seq<NodeIndex>, fl: Seq<int>) -> bool {
    &&& queues_ok(g, m0, c0, f0) && list_ok(g, r) && fl.len() == r.len() && f1 =~= f0 + fl && fl.no_duplicates()
    &&& forall|j: int| 0 <= j < fl.len() ==> !f0.contains(#[trigger] fl[j])
    &&& forall|v: nat| #[trigger] m1.contains(v) <==> m0.contains(v) || in_list(r, v)
    &&& forall|v: nat| in_list(r, v) ==> !#[trigger] m0.contains(v)
    &&& forall|i: int| 0 <= i < 64 ==> grown(g, #[trigger] c0[i], c1[i], r, fl, i)
}
/// an offer of c1[i]: either old, or about a task of the list and with its flag
pub proof fn offer_kind(g: &G, m0: ISet<nat>, m1: ISet<nat>, c0: Seq<Sender<TaskItem, u32>>, c1: Seq<Sender<TaskItem, u32>>, f0: Seq<int>, f1: Seq<int>, r: Seq<NodeIndex>, fl: Seq<int>, i: int, x: int) -> (j: int)
    requires step_pre(g, m0, m1, c0, c1, f0, f1, r, fl), 0 <= i < 64, 0 <= x < c1[i].offers().len()
    ensures offer_ok(g, m1, f1, i, c1[i].offers()[x]),
        if x < c0[i].offers().len() { c1[i].offers()[x] == c0[i].offers()[x] && offer_ok(g, m0, f0, i, c1[i].offers()[x]) }
        else { 0 <= j < r.len() && c1[i].offers()[x] == offer1(g, r[j].ix as nat, fl[j]) && !m0.contains(c1[i].offers()[x].id) && !f0.contains(c1[i].offers()[x].flag) }
{
    assert(grown(g, c0[i], c1[i], r, fl, i));
    let j = offer_old_new(g, c0[i], c1[i], r, fl, i, x);
    if x < c0[i].offers().len() {
        assert(offer_ok(g, m0, f0, i, c0[i].offers()[x])) by { reveal(queues_ok); }
        let f = c0[i].offers()[x].flag; let k = choose|k: int| 0 <= k < f0.len() && f0[k] == f; assert(f1[k] == f);
    } else { assert(in_list(r, r[j].ix as nat)); assert(f1[f0.len() + j] == fl[j]); assert(m1.contains(r[j].ix as nat)); }
    j
}
pub proof fn queues_step(g: &G, m0: ISet<nat>, m1: ISet<nat>, c0: Seq<Sender<TaskItem, u32>>, c1: Seq<Sender<TaskItem, u32>>, f0: Seq<int>, f1: Seq<int>, r: Seq<NodeIndex>, fl: Seq<int>)
    requires step_pre(g, m0, m1, c0, c1, f0, f1, r, fl) ensures queues_ok(g, m1, c1, f1)
{
    assert forall|i: int, x: int| 0 <= i < 64 && 0 <= x < c1[i].offers().len() implies offer_ok(g, m1, f1, i, #[trigger] c1[i].offers()[x]) by { offer_kind(g, m0, m1, c0, c1, f0, f1, r, fl, i, x); }
    assert forall|i: int, x: int, j: int, y: int| 0 <= i < 64 && 0 <= j < 64 && 0 <= x < c1[i].offers().len() && 0 <= y < c1[j].offers().len() implies same_claim(#[trigger] c1[i].offers()[x], #[trigger] c1[j].offers()[y]) by {
        let a = offer_kind(g, m0, m1, c0, c1, f0, f1, r, fl, i, x); let b = offer_kind(g, m0, m1, c0, c1, f0, f1, r, fl, j, y);
        if x < c0[i].offers().len() && y < c0[j].offers().len() { assert(same_claim(c0[i].offers()[x], c0[j].offers()[y])) by { reveal(queues_ok); } }
        else if x >= c0[i].offers().len() && y >= c0[j].offers().len() { if a < b { assert(r[a].ix != r[b].ix); } if b < a { assert(r[b].ix != r[a].ix); } if a != b { assert(fl[a] != fl[b]); } }
    }
    assert forall|i: int, x: int, y: int| 0 <= i < 64 && 0 <= x < y < c1[i].offers().len() implies (#[trigger] c1[i].offers()[x]).id != (#[trigger] c1[i].offers()[y]).id by {
        offer_kind(g, m0, m1, c0, c1, f0, f1, r, fl, i, x); offer_kind(g, m0, m1, c0, c1, f0, f1, r, fl, i, y);
        let k = c0[i].offers().len();
        if y < k { assert(c0[i].offers()[x].id != c0[i].offers()[y].id) by { reveal(queues_ok); } }
        else if x >= k { assert(grown(g, c0[i], c1[i], r, fl, i)); src2(g, r, fl, i, x - k, y - k); assert(c1[i].offers()[x] == offers(g, r, fl, i)[x - k] && c1[i].offers()[y] == offers(g, r, fl, i)[y - k]); }
    }
    assert forall|i: int, v: nat| 0 <= i < 64 && #[trigger] m1.contains(v) && #[trigger] has_bit(aff(g, v), i) && !c1[i].receivers_gone() implies is_offered(c1[i], v) by {
        assert(grown(g, c0[i], c1[i], r, fl, i));
        let k = c0[i].offers().len() as int;
        if m0.contains(v) { assert(is_offered(c0[i], v)) by { reveal(queues_ok); } let x = choose|x: int| 0 <= x < c0[i].offers().len() && (#[trigger] c0[i].offers()[x]).id == v; assert(c1[i].offers()[x].id == v); }
        else { assert(in_list(r, v)); let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ix == v; let x = src3(g, r, fl, i, j); assert(c1[i].offers()[k + x].id == v); }
    }
    reveal(queues_ok);
}
pub open spec fn q_inv(s: &ReadyTrackerServer, e: Eff) -> bool { s.ready is Some ==> queues_ok(s.g, made(s.g, s.logfile.log()), s.ready->0@, e.flags()) }
pub proof fn release_queues(a: &ReadyTrackerServer, b: &ReadyTrackerServer, e0: Eff, e1: Eff, r: Seq<NodeIndex>)
    requires q_inv(a, e0), a.ready is Some, released(a, b, e0, e1, r), list_ok(a.g, r), keys_distinct(a.g), forall|v: nat| in_list(r, v) ==> !made(a.g, a.logfile.log()).contains(v)
    ensures q_inv(b, e1)
{
    let g = a.g; let l0 = a.logfile.log(); let l1 = b.logfile.log();
    let fl = choose|fl: Seq<int>| fl.len() == r.len() && e1.flags() =~= #[trigger] (e0.flags() + fl) && fl.no_duplicates() && (forall|j: int| 0 <= j < fl.len() ==> !e0.flags().contains(#[trigger] fl[j]))
          && (b.ready is Some <==> a.ready is Some)
          && (r.len() > 0 ==> a.ready is Some && forall|i: int| 0 <= i < 64 ==> offered(#[trigger] a.ready->0@[i], b.ready->0@[i], offers(a.g, r, fl, i)))
          && (r.len() == 0 ==> b.ready == a.ready);
    assert forall|v: nat| #[trigger] made(g, l1).contains(v) <==> made(g, l0).contains(v) || in_list(r, v) by {
        if v < g.n() { if l0.contains_key(key(g, v)) { assert(l1.contains_key(key(g, v))); } else { assert(st(g, l1, v) == (if in_list(r, v) { Some(Ls::Ready) } else { None::<Ls> })); } }
        else if in_list(r, v) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).ix == v; }
    }
    if r.len() == 0 {
        assert(made(g, l1) =~= made(g, l0)) by { assert forall|v: nat| !in_list(r, v) by {} }
        assert(e1.flags() =~= e0.flags());
    } else {
        assert forall|i: int| 0 <= i < 64 implies grown(g, #[trigger] a.ready->0@[i], b.ready->0@[i], r, fl, i) by {}
        queues_step(g, made(g, l0), made(g, l1), a.ready->0@, b.ready->0@, e0.flags(), e1.flags(), r, fl);
    }
}
pub proof fn finish_queues(a: &ReadyTrackerServer, p: &ReadyTrackerServer, m: &ReadyTrackerServer, b: &ReadyTrackerServer, c: &ReadyTrackerServer, e0: Eff, e1: Eff, u: nat, code: int)
    requires inv(a), q_inv(a, e0), u < a.g.n(), a.ready is Some <==> a.shutdown_state == ShutdownState::Normal, p.g == a.g && p.logfile == a.logfile && p.ready == a.ready && p.shutdown_state == a.shutdown_state && p.statuses == a.statuses,
        a.queuestate.out().contains(u), !fin(a.g, a.logfile.log()).contains(u),
        booked(p, m, u, code), resolved(m, b, e0, e1, u, code == 0), same_counts(b, c), is_log_step(a.g, b.logfile.log(), c.logfile.log(), u, Ls::Finished { status: code }),
    ensures q_inv(c, e1)
{
    let g = a.g; let lb = b.logfile.log();
    inv_open(a);
    finish_pre(a, u, code == 0);
    assert(made(g, a.logfile.log()).contains(u));
    if a.ready is Some {
        let r = choose|r: Seq<NodeIndex>| list_ok(m.g, r) && (forall|v: nat| in_list(r, v) <==> newset(m.g, m.statuses@, u, code == 0).contains(v)) && #[trigger] released(m, b, e0, e1, r);
        assert(q_inv(m, e0));
        release_queues(m, b, e0, e1, r);
        st_step(g, lb, c.logfile.log(), u, Ls::Finished { status: code });
        assert(made(g, lb).contains(u));
        assert(made(g, c.logfile.log()) =~= made(g, lb));
    }
}
pub proof fn started_queues(a: &ReadyTrackerServer, b: &ReadyTrackerServer, e: Eff, u: nat)
    requires q_inv(a, e), same_counts(a, b), u < a.g.n(), keys_distinct(a.g), made(a.g, a.logfile.log()).contains(u), is_log_step(a.g, a.logfile.log(), b.logfile.log(), u, Ls::Started)
    ensures q_inv(b, e)
{ st_step(a.g, a.logfile.log(), b.logfile.log(), u, Ls::Started); assert(made(a.g, b.logfile.log()) =~= made(a.g, a.logfile.log())); }
/// what the invariant says about a task reported started or finished
pub proof fn event_facts(s: &ReadyTrackerServer, u: nat)
    requires inv(s), s.queuestate.out().contains(u), !fin(s.g, s.logfile.log()).contains(u)
    ensures u < s.g.n(), keys_distinct(s.g), made(s.g, s.logfile.log()).contains(u), s.logfile.log().contains_key(key(s.g, u)), s.inflight@.contains_key(u) <==> s.logfile.log()[key(s.g, u)] is Started,
        s.logfile.log()[key(s.g, u)] is Ready || s.logfile.log()[key(s.g, u)] is Started, s.inflight@.contains_key(u) <==> st(s.g, s.logfile.log(), u) == Some(Ls::Started), forall|v: nat| v < s.g.n() ==> #[trigger] s.statuses@.contains_key(v)
{ inv_open(s); assert(made(s.g, s.logfile.log()).contains(u)); assert(s.inflight@.contains_key(u) <==> started(s.g, s.logfile.log()).contains(u)); }
/// the accounting leaves what the log says about u as it is
pub proof fn mid_log(p: &ReadyTrackerServer, m: &ReadyTrackerServer, b: &ReadyTrackerServer, e0: Eff, e1: Eff, u: nat, code: int)
    requires booked(p, m, u, code), resolved(m, b, e0, e1, u, code == 0), p.logfile.log().contains_key(key(p.g, u))
    ensures b.logfile.log().contains_key(key(p.g, u)) && b.logfile.log()[key(p.g, u)] == p.logfile.log()[key(p.g, u)],
        b.g == p.g, b.inflight == p.inflight, e1.cancels() == e0.cancels(), b.finished_order == p.finished_order, b.shutdown_state == p.shutdown_state, b.fizzles_allowed == p.fizzles_allowed, b.n_fizzled >= p.n_fizzled,
        b.ready is Some <==> p.ready is Some
{}
pub proof fn flush_step(a: &ReadyTrackerServer, b: &ReadyTrackerServer)
    requires inv(a), same_counts(a, b), b.inflight == a.inflight, b.logfile.log() == a.logfile.log() ensures inv(b)
{ inv_open(a); inv_close(b); }
pub proof fn soft_step(a: &ReadyTrackerServer, b: &ReadyTrackerServer)
    requires inv(a), only_queue(&ReadyTrackerServer { ready: b.ready, shutdown_state: b.shutdown_state, ..*a }, b), b.queuestate.out() == a.queuestate.out(),
        b.queuestate.map().dom() =~= a.queuestate.map().dom(), forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) ==> b.queuestate.map()[k].num_inflight == a.queuestate.map()[k].num_inflight,
    ensures b.shutdown_state == ShutdownState::SoftShutdown ==> inv(b), inv_all(b), b.shutdown_state == ShutdownState::Normal && a.shutdown_state == b.shutdown_state ==> inv_normal(b)
{ inv_open(a); assert forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) implies b.queuestate.map()[k].num_inflight == cnt(b.g.n(), running(b.g, b.logfile.log(), b.queuestate.out(), k)) by { assert(a.queuestate.map().contains_key(k)); }
  if b.shutdown_state == ShutdownState::SoftShutdown { inv_close(b); } }
@fn ReadyTrackerServer::background_serve eff
@locals token eff k v ctrl_c flush_ticker _vx event e cmd e cmd _vx item _vx _vx item
@prop C01 C02 C03 C04 C05 C06 C20
@subst self.completed.recv() => self.vx_recv()
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires fresh(old(self)), old(self).g.n() > 0, exists|rk: spec_fn(nat) -> nat| acyclic(old(self).g, rk),
    ensures r is Ok ==> {
        &&& inv_all(final(self)) && (final(self).shutdown_state == ShutdownState::Normal ==> inv_normal(final(self)))
        &&& may_stop(final(self), &token) // [C04]
        &&& final(self).n_ready_or_inflight == 0 && final(self).shutdown_state == ShutdownState::Normal ==> all_settled(final(self)) // [C04]
        &&& no_descendants(final(self)) // [C02]
        &&& final(self).ready is None // [C04]
        &&& forall|a: u64| #[trigger] final(self).queuestate.map().contains_key(a) ==> final(self).queuestate.map()[a].num_ready == 0 // [C20]
        &&& fizzle_ok(final(self), *old(eff), *final(eff)) // [C05]
    },
@hint fn-start
    let ghost s0 = *self;
    let ghost g = self.g;
    let ghost n = g.n();
    let ghost e0 = *eff;
    let ghost mut rsq: Seq<NodeIndex> = Seq::empty();
    proof { graph_small(g); }
@hint after-call store 0
    let ghost s1 = *self;
@loop 0
    invariant
        self.g == g, lists_pairs(vx_sq0, s0.statuses@), self.statuses == s0.statuses,
        list_ok(g, vx_acc0@), forall|v: nat| in_list(vx_acc0@, v) <==> root_list(vx_sq0, vx_it0.pos() as int, v),
@hint loop-start 0
    let ghost acc = vx_acc0@;
    let ghost p = vx_it0.pos() as int - 1;
    proof {
        let x = *vx_sq0[p].0;
        assert forall|v: nat| #[trigger] root_list(vx_sq0, p + 1, v) <==> root_list(vx_sq0, p, v) || x.ix == v && vx_sq0[p].1.n_unmet_deps == 0 by { root_list_step(vx_sq0, p, v); }
        assert forall|v: nat| in_list(acc.push(x), v) <==> in_list(acc, v) || v == x.ix by { in_list_push(acc, x, v); }
        if root_list(vx_sq0, p, x.ix as nat) { let i = choose|i: int| 0 <= i < p && (#[trigger] vx_sq0[i]).0.ix == x.ix && vx_sq0[i].1.n_unmet_deps == 0; assert(vx_sq0[i].0@ != vx_sq0[p].0@); assert(false); }
        assert(!in_list(acc, x.ix as nat));
        assert(s0.statuses@.contains_key(vx_sq0[p].0@)); assert(vx_sq0[p].0@ == x.ix as nat);
        assert(list_ok(g, acc.push(x)));
    }
@hint loop-end 0
    proof { assert(vx_acc0@ == (if vx_sq0[p].1.n_unmet_deps == 0 { acc.push(*vx_sq0[p].0) } else { acc }));
       assert forall|v: nat| in_list(vx_acc0@, v) <==> root_list(vx_sq0, vx_it0.pos() as int, v) by { assert(p + 1 == vx_it0.pos() as int); root_list_step(vx_sq0, p, v); in_list_push(acc, *vx_sq0[p].0, v); assert(in_list(acc, v) <==> root_list(vx_sq0, p, v)); } }
@loop 1
    invariant_except_break
        inv(self), self.ready is Some <==> self.shutdown_state == ShutdownState::Normal, self.n_ready_or_inflight > 0,
    invariant
        self.g == g, fizzle_ok(self, e0, *eff), q_inv(self, *eff),
    ensures
        inv(self), self.ready is None, may_stop(self, &token),
@hint loop-start 1
    let ghost top = *self;
@hint after-call vx_recv 0
    let ghost a = *self;
    proof { rely_step(&top, &a); }
@hint after-loop 0
    proof {
        rsq = vx_acc0@;
        assert forall|v: nat| in_list(rsq, v) <==> roots(g).contains(v) by {
            if root_list(vx_sq0, vx_sq0.len() as int, v) { let i = choose|i: int| 0 <= i < vx_sq0.len() && (#[trigger] vx_sq0[i]).0.ix == v && vx_sq0[i].1.n_unmet_deps == 0; assert(s0.statuses@[vx_sq0[i].0@] == *vx_sq0[i].1); assert(vx_sq0[i].0@ == v); assert(s0.statuses@.contains_key(v)); }
            if roots(g).contains(v) { assert(s0.statuses@.contains_key(v)); let i = choose|i: int| 0 <= i < vx_sq0.len() && (#[trigger] vx_sq0[i]).0@ == v; assert(s0.statuses@[vx_sq0[i].0@] == *vx_sq0[i].1); assert(root_list(vx_sq0, vx_sq0.len() as int, v)); }
        }
        list_cnt(g, rsq, n, roots(g)); cnt_zero(n, roots(g));
        assert forall|j: int| 0 <= j < rsq.len() implies !self.logfile.log().contains_key(#[trigger] key(g, rsq[j].ix as nat)) by {}
    }
@hint after-call add_to_ready_queue 0
    proof {
        assert forall|v: nat| !made(g, s1.logfile.log()).contains(v) by { if v < n { assert(!s0.logfile.log().contains_key(key(g, v))); } }
        queues_init(g, made(g, s1.logfile.log()), s1.ready->0@, e0.flags());
        release_queues(&s1, self, e0, *eff, rsq);
        init_step(&s0, &s1, self, e0, *eff, rsq);
        let rk = choose|rk: spec_fn(nat) -> nat| acyclic(g, rk); root_exists(g, rk, 0); list_cnt(g, rsq, n, roots(g));
    }
@hint before-let cmd
    let ghost u = e.id.ix as nat;
    proof { event_facts(&a, u); }
@hint after-call insert 0
    proof { started_step(&a, self, u); started_queues(&a, self, *eff, u); }
@hint before-call push 1
    let ghost x = e.id;
    let ghost code = e.status.code();
    let ghost ea = *eff;
    proof { finish_pre(&a, u, code == 0); }
@hint after-call push 1
    let ghost pp = *self;
@hint after-call _finished_bookkeeping 0
    let ghost b = *self;
    let ghost eb = *eff;
    let ghost m = choose|m: ReadyTrackerServer| #[trigger] booked(&pp, &m, u, code) && resolved(&m, &b, ea, eb, u, code == 0);
    proof { mid_log(&pp, &m, &b, ea, eb, u, code); }
@hint after-call write 2
    proof { assert(self.logfile.log() =~= b.logfile.log().insert(key(g, u), Ls::Finished { status: code })); finish_step(&a, &pp, &m, &b, self, ea, eb, x, code); finish_queues(&a, &pp, &m, &b, self, ea, eb, u, code); }
@loop 2
    invariant
        lists_keys(vx_sq1, a2.queuestate.map()), zeroed(a2.queuestate.map(), self.queuestate.map(), vx_sq1, vx_it1.pos() as int), self.queuestate.out() == a2.queuestate.out(),
        only_queue(&ReadyTrackerServer { ready: None, ..a2 }, self),
@hint after-call wait 0
    let ghost a2 = *self;
@hint after-loop 2
    proof { zero_done(a2.queuestate.map(), self.queuestate.map(), vx_sq1); }
@hint after-call unset 0
    proof { soft_step(&top, self); }
@loop 3
    invariant
        lists_keys(vx_sq2, a3.queuestate.map()), zeroed(a3.queuestate.map(), self.queuestate.map(), vx_sq2, vx_it2.pos() as int), self.queuestate.out() == a3.queuestate.out(),
        only_queue(&a3, self),
@hint after-loop 1
    let ghost a3 = *self;
@hint after-loop 3
    proof { zero_done(a3.queuestate.map(), self.queuestate.map(), vx_sq2); }
@hint fn-end
    proof { if vx_ret is Ok { soft_step(&a3, self);
        assert forall|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && made(g, self.logfile.log()).contains(p.last()) implies good(g, self.logfile.log()).contains(p[0]) by { ancestors_good(self, p); }
        if self.n_ready_or_inflight == 0 && self.shutdown_state == ShutdownState::Normal {
            let rk = choose|rk: spec_fn(nat) -> nat| acyclic(g, rk);
            assert forall|v: nat| v < g.n() && !#[trigger] fin(g, self.logfile.log()).contains(v) implies exists|p: Seq<nat>| #[trigger] is_walk(g, p) && p.len() >= 2 && p.last() == v && bad(g, self.logfile.log()).contains(p[0]) by { settled(self, rk, v); }
        }
      } }
@hint after-call flush 0
    proof { flush_step(&top, self); }
@fn FinishedEvent::new_disconnected
@locals id stderr
@prop C06
@ret r
@spec
    ensures r.id == id, r.status is Disconnected, // [C06]
@text
// ---- the end: what is left is drained ---------------------------------------------------------------
/// what holds while the tracker is drained; infl are the tasks recorded as started
pub open spec fn inv_drain(s: &ReadyTrackerServer, infl: ISet<nat>) -> bool {
    let g = s.g; let n = g.n(); let l = s.logfile.log(); let out = s.queuestate.out();
    &&& keys_distinct(g) && s.statuses@.dom().len() == n
    &&& forall|v: nat| #[trigger] out.contains(v) ==> made(g, l).contains(v)
    &&& forall|v: nat| #[trigger] fin(g, l).contains(v) || started(g, l).contains(v) ==> out.contains(v)
    &&& forall|v: nat| #[trigger] infl.contains(v) <==> started(g, l).contains(v) // [C06]
    &&& s.n_success == cnt(n, good(g, l)) && s.n_failed == cnt(n, bad(g, l)) && s.n_fizzled <= s.n_failed // [C05]
    &&& forall|v: nat| #[trigger] made(g, l).contains(v) ==> s.queuestate.map().contains_key(aff(g, v))
    &&& forall|a: u64| #[trigger] s.queuestate.map().contains_key(a) ==> s.queuestate.map()[a].num_inflight == cnt(n, running(g, l, out, a)) // [C20]
}
pub proof fn drain_recv(a: &ReadyTrackerServer, b: &ReadyTrackerServer, infl: ISet<nat>)
    requires inv_drain(a, infl), only_queue(a, b), rely(a.g, a.logfile.log(), &a.queuestate, &b.queuestate) ensures inv_drain(b, infl)
{
    let g = a.g; let n = g.n(); let l = a.logfile.log(); let o0 = a.queuestate.out(); let o1 = b.queuestate.out(); let w = o1.difference(o0);
    assert forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) implies b.queuestate.map()[k].num_inflight == cnt(n, running(g, l, o1, k)) by {
        assert(a.queuestate.map().contains_key(k));
        assert forall|v: nat| v < n && w.contains(v) implies !fin(g, l).contains(v) by {}
        cnt_add(n, running(g, l, o0, k), w.intersect(affs(g, k)), running(g, l, o1, k));
    }
    assert forall|v: nat| #[trigger] made(g, l).contains(v) implies b.queuestate.map().contains_key(aff(g, v)) by { assert(a.queuestate.map().contains_key(aff(g, v))); }
}
pub proof fn drain_pre(s: &ReadyTrackerServer, infl: ISet<nat>, u: nat)
    requires inv_drain(s, infl), s.queuestate.out().contains(u), !fin(s.g, s.logfile.log()).contains(u)
    ensures u < s.g.n(), s.queuestate.map().contains_key(aff(s.g, u)) && s.queuestate.map()[aff(s.g, u)].num_inflight > 0,
        s.n_success + s.n_failed < u32::MAX, s.n_fizzled < u32::MAX, s.statuses@.dom().len() <= u32::MAX,
        s.logfile.log().contains_key(key(s.g, u)), s.logfile.log()[key(s.g, u)] == (if infl.contains(u) { Ls::Started } else { Ls::Ready }),
{
    let g = s.g; let n = g.n(); let l = s.logfile.log(); let gd = good(g, l); let a0 = aff(g, u);
    graph_small(g);
    assert(made(g, l).contains(u));
    cnt_zero(n, running(g, l, s.queuestate.out(), a0));
    assert(running(g, l, s.queuestate.out(), a0).contains(u));
    cnt_add(n, gd, bad(g, l), fin(g, l)); cnt_zero(n, fin(g, l));
    cnt_zero(n, fin(g, l).complement()); cnt_all(n, fin(g, l)); assert(fin(g, l).complement().contains(u));
    assert(infl.contains(u) <==> started(g, l).contains(u));
}
pub open spec fn after_drained(l0: Log, l1: Log, g: &G) -> bool {
    forall|v: nat| v < g.n() && (fin(g, l0).contains(v) || st(g, l0, v) is None) ==> #[trigger] st(g, l1, v) == st(g, l0, v)
}
pub proof fn drain_started(a: &ReadyTrackerServer, b: &ReadyTrackerServer, i0: ISet<nat>, i1: ISet<nat>, u: nat)
    requires inv_drain(a, i0), same_counts(a, b), u < a.g.n(), a.queuestate.out().contains(u), st(a.g, a.logfile.log(), u) == Some(Ls::Ready),
        is_log_step(a.g, a.logfile.log(), b.logfile.log(), u, Ls::Started), i1 =~= i0.insert(u)
    ensures inv_drain(b, i1), after_drained(a.logfile.log(), b.logfile.log(), a.g)
{
    let g = a.g; let l0 = a.logfile.log(); let l1 = b.logfile.log();
    st_step(g, l0, l1, u, Ls::Started);
    assert(made(g, l1) =~= made(g, l0)); assert(fin(g, l1) =~= fin(g, l0)); assert(good(g, l1) =~= good(g, l0)); assert(bad(g, l1) =~= bad(g, l0));
    assert forall|v: nat| #[trigger] fin(g, l1).contains(v) || started(g, l1).contains(v) implies b.queuestate.out().contains(v) by { assert(fin(g, l0).contains(v) || started(g, l0).contains(v) || v == u); }
    assert forall|v: nat| #[trigger] i1.contains(v) <==> started(g, l1).contains(v) by { assert(i0.contains(v) <==> started(g, l0).contains(v)); }
}
/// m: after the accounting; b: after the entries were written
pub proof fn drain_finished(a: &ReadyTrackerServer, m: &ReadyTrackerServer, b: &ReadyTrackerServer, i0: ISet<nat>, i1: ISet<nat>, u: nat, code: int)
    requires inv_drain(a, i0), booked(a, m, u, code), same_counts(m, b), a.queuestate.out().contains(u), !fin(a.g, a.logfile.log()).contains(u),
        is_log_step(a.g, a.logfile.log(), b.logfile.log(), u, Ls::Finished { status: code }), i1 =~= i0.remove(u)
    ensures inv_drain(b, i1), after_drained(a.logfile.log(), b.logfile.log(), a.g)
{
    let g = a.g; let n = g.n(); let l0 = a.logfile.log(); let l1 = b.logfile.log(); let out = a.queuestate.out(); let ok = code == 0;
    drain_pre(a, i0, u);
    st_step(g, l0, l1, u, Ls::Finished { status: code });
    assert(made(g, l1) =~= made(g, l0));
    assert forall|v: nat| fin(g, l1).contains(v) <==> fin(g, l0).contains(v) || v == u by { assert(st(g, l1, v) == st(g, l1, v)); }
    assert forall|v: nat| started(g, l1).contains(v) <==> started(g, l0).contains(v) && v != u by { assert(st(g, l1, v) == st(g, l1, v)); }
    assert forall|v: nat| good(g, l1).contains(v) <==> good(g, l0).contains(v) || v == u && ok by { assert(st(g, l1, v) == st(g, l1, v)); }
    assert forall|v: nat| #[trigger] fin(g, l1).contains(v) || started(g, l1).contains(v) implies out.contains(v) by { assert(fin(g, l0).contains(v) || started(g, l0).contains(v) || v == u); }
    assert forall|v: nat| #[trigger] i1.contains(v) <==> started(g, l1).contains(v) by { assert(i0.contains(v) <==> started(g, l0).contains(v)); }
    if ok { cnt_one(n, good(g, l0), good(g, l1), u); cnt_ext(n, bad(g, l0), bad(g, l1)); } else { cnt_one(n, bad(g, l0), bad(g, l1), u); cnt_ext(n, good(g, l0), good(g, l1)); }
    assert forall|k: u64| #[trigger] b.queuestate.map().contains_key(k) implies b.queuestate.map()[k].num_inflight == cnt(n, running(g, l1, out, k)) by {
        assert(a.queuestate.map().contains_key(k));
        if k == aff(g, u) { cnt_one(n, running(g, l1, out, k), running(g, l0, out, k), u); } else { cnt_ext(n, running(g, l1, out, k), running(g, l0, out, k)); }
    }
    assert forall|v: nat| #[trigger] made(g, l1).contains(v) implies b.queuestate.map().contains_key(aff(g, v)) by { assert(made(g, l0).contains(v)); }
}
pub open spec fn left(s: Seq<(&NodeIndex, &Instant)>, p: int) -> ISet<nat> { ISet::new(|v: nat| exists|i: int| p <= i < s.len() && (#[trigger] s[i]).0.ix == v) }
pub proof fn left_step(s: Seq<(&NodeIndex, &Instant)>, p: int, m: Map<nat, Instant>)
    requires lists_pairs(s, m), 0 <= p < s.len()
    ensures left(s, p).contains(s[p].0.ix as nat), left(s, p + 1) =~= left(s, p).remove(s[p].0.ix as nat)
{
    assert(s[p].0.ix == s[p].0.ix);
    assert forall|v: nat| left(s, p + 1).contains(v) <==> left(s, p).remove(s[p].0.ix as nat).contains(v) by {
        if left(s, p + 1).contains(v) { let i = choose|i: int| p + 1 <= i < s.len() && (#[trigger] s[i]).0.ix == v; assert(s[i].0@ != s[p].0@); }
        if left(s, p).contains(v) && v != s[p].0.ix { let i = choose|i: int| p <= i < s.len() && (#[trigger] s[i]).0.ix == v; assert(i != p); }
    }
}
pub proof fn left_all(s: Seq<(&NodeIndex, &Instant)>, m: Map<nat, Instant>)
    requires lists_pairs(s, m) ensures forall|v: nat| #[trigger] left(s, 0).contains(v) <==> m.contains_key(v), left(s, s.len() as int) =~= ISet::<nat>::empty()
{
    assert forall|v: nat| #[trigger] left(s, 0).contains(v) <==> m.contains_key(v) by {
        if left(s, 0).contains(v) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.ix == v; assert(m.contains_key(s[i].0@)); }
        if m.contains_key(v) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == v; assert(s[i].0.ix == v); }
    }
}
pub proof fn drain_left(s: &ReadyTrackerServer, infl: ISet<nat>, u: nat) requires inv_drain(s, infl), infl.contains(u) ensures s.queuestate.out().contains(u), !fin(s.g, s.logfile.log()).contains(u)
{ let g = s.g; let l = s.logfile.log(); assert(started(g, l).contains(u)); assert(!fin(g, l).contains(u)); }
pub open spec fn doms(m: Map<nat, Instant>) -> ISet<nat> { ISet::new(|v: nat| m.contains_key(v)) }
pub proof fn drain_start(s: &ReadyTrackerServer) requires inv_all(s) ensures inv_drain(s, doms(s.inflight@)) {}
pub proof fn after_trans(g: &G, l0: Log, l1: Log, l2: Log) requires after_drained(l0, l1, g), after_drained(l1, l2, g) ensures after_drained(l0, l2, g)
{ assert forall|v: nat| v < g.n() && (fin(g, l0).contains(v) || st(g, l0, v) is None) implies #[trigger] st(g, l2, v) == st(g, l0, v) by { assert(st(g, l1, v) == st(g, l0, v)); } }
@fn ReadyTrackerServer::drain
@locals inflight e cmd e cmd k cmd e sigterm_channel
@prop C06 C20
@subst self.completed.try_recv() => self.vx_try_recv()
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires inv_all(old(self))
    ensures
        r is Ok ==> inv_drain(final(self), ISet::empty()), // [C06]
        r is Ok ==> after_drained(old(self).logfile.log(), final(self).logfile.log(), final(self).g), // [C06]
@hint fn-start
    let ghost g = self.g;
    let ghost l00 = self.logfile.log();
@hint before-loop 0
    proof { drain_start(self); }
@loop 0
    invariant
        self.g == g, inv_drain(self, doms(inflight@)), after_drained(l00, self.logfile.log(), g), // [C06]
@hint loop-start 0
    let ghost top = *self;
    let ghost i0 = doms(inflight@);
@hint before-let cmd 0
    let ghost a = *self;
    let ghost u = e.id.ix as nat;
    proof { drain_recv(&top, &a, i0); drain_pre(&a, i0, u); }
@hint before-break 0
    proof { drain_recv(&top, self, i0); }
@hint after-call insert 0
    proof { drain_started(&a, self, i0, doms(inflight@), u); after_trans(g, l00, a.logfile.log(), self.logfile.log()); }
@hint before-let cmd 1
    let ghost a = *self;
    let ghost u = e.id.ix as nat;
    let ghost code = e.status.code();
    proof { drain_recv(&top, &a, i0); drain_pre(&a, i0, u); }
@hint after-call _finished_bookkeeping_1 0
    let ghost m = *self;
@hint after-call write 2
    proof {
        assert(self.logfile.log() =~= a.logfile.log().insert(key(g, u), Ls::Finished { status: code }));
        drain_finished(&a, &m, self, i0, doms(inflight@), u, code); after_trans(g, l00, a.logfile.log(), self.logfile.log());
    }
@loop 1
    invariant
        self.g == g, inv_drain(self, left(vx_sq0, vx_it0.pos() as int)), after_drained(l00, self.logfile.log(), g), // [C06]
        lists_pairs(vx_sq0, inflight@),
@hint before-loop 1
    proof { left_all(vx_sq0, inflight@); assert(left(vx_sq0, 0) =~= doms(inflight@)); }
@hint loop-start 1
    let ghost a = *self;
    let ghost p = vx_it0.pos() as int - 1;
    let ghost u = k.ix as nat;
    proof { left_step(vx_sq0, p, inflight@); drain_left(&a, left(vx_sq0, p), u); drain_pre(&a, left(vx_sq0, p), u); }
@hint after-call _finished_bookkeeping_1 1
    let ghost m = *self;
@hint after-call write 3
    proof {
        drain_finished(&a, &m, self, left(vx_sq0, p), left(vx_sq0, p + 1), u, -1); after_trans(g, l00, a.logfile.log(), self.logfile.log());
    }
@hint after-loop 1
    proof { left_all(vx_sq0, inflight@); }
