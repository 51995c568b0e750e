@unit flag
@include prelude.rs
@include flagstub.rs
@awaits
@effcalls load store fetch_add swap notify listen vx_await
@defattr #[verifier::loop_isolation(false)]
@pathmap std::sync::Arc Arc
@source src/async_flag.rs
@text
use std::sync::Arc;
// ---- what one thread does to a flag or counter ------------------------------------------------------------
pub ghost enum Ev { Load { v: int }, Write { add: bool, v: int }, Listen { l: int }, Notify { n: int }, Await { l: int } }
/// what is waited for: the value is more than `from` (a flag that is set is 1, and waited for from 0)
pub open spec fn high(v: int, from: int) -> bool { v > from }
/// one thread: the listener it has made, whether it saw the value low since, the last value it saw,
/// whether it changed the value and did not tell yet, and whether it slept without having looked first
pub ghost struct Th { pub l: Option<int>, pub seen: bool, pub last: Option<int>, pub untold: bool, pub writes: Seq<(bool, int)>, pub bad: bool }
pub open spec fn calm() -> Th { Th { l: None, seen: false, last: None, untold: false, writes: Seq::empty(), bad: false } }
pub open spec fn step(from: int, s: Th, e: Ev) -> Th {
    match e {
        Ev::Load { v } => Th { seen: s.l is Some && !high(v, from), last: Some(v), ..s },
        Ev::Write { add, v } => Th { untold: true, writes: s.writes.push((add, v)), ..s },
        Ev::Listen { l } => Th { l: Some(l), seen: false, ..s },
        Ev::Notify { n } => Th { untold: s.untold && n != usize::MAX, ..s },
        Ev::Await { l } => Th { l: None, seen: false, bad: s.bad || s.l != Some(l) || !s.seen || s.untold, ..s },
    }
}
pub open spec fn th(from: int, h: Seq<Ev>) -> Th decreases h.len() { if h.len() == 0 { calm() } else { step(from, th(from, h.drop_last()), h.last()) } }
pub broadcast proof fn th_push(from: int, h: Seq<Ev>, e: Ev) ensures #[trigger] th(from, h.push(e)) == step(from, th(from, h), e) { assert(h.push(e).drop_last() =~= h); }
// ---- all threads together ---------------------------------------------------------------------------------
/// who did what, in the order in which it took effect
pub type Trace = Seq<(int, Ev)>;
pub open spec fn val(t: Trace) -> int decreases t.len() { if t.len() == 0 { 0 } else { match t.last().1 { Ev::Write { add, v } => if add { val(t.drop_last()) + v } else { v }, _ => val(t.drop_last()) } } }
/// every load returns what was written last
pub open spec fn sound(t: Trace) -> bool { forall|k: nat| #![trigger t[k as int]] k < t.len() ==> (t[k as int].1 matches Ev::Load { v } ==> v == val(t.take(k as int))) }
/// what thread w did
pub open spec fn of(t: Trace, w: int) -> Seq<Ev> decreases t.len() { if t.len() == 0 { Seq::empty() } else if t.last().0 == w { of(t.drop_last(), w).push(t.last().1) } else { of(t.drop_last(), w) } }
pub open spec fn tells(t: Trace, i: int, w: int) -> bool { 0 <= i < t.len() && t[i].0 == w && t[i].1 == (Ev::Notify { n: usize::MAX as int }) }
pub open spec fn listens(t: Trace, i: int, w: int, l: int) -> bool { 0 <= i < t.len() && t[i] == (w, Ev::Listen { l }) }
pub open spec fn looks(t: Trace, k: int, w: int, from: int) -> bool { 0 <= k < t.len() && t[k].0 == w && (t[k].1 matches Ev::Load { v } && !high(v, from)) }
/// a thread that saw the value low after making a listener did so at some k after some i
proof fn seen_when(t: Trace, w: int, from: int) -> (r: (int, int))
    requires th(from, of(t, w)).seen
    ensures th(from, of(t, w)).l is Some, r.0 < r.1, listens(t, r.0, w, th(from, of(t, w)).l->0), looks(t, r.1, w, from)
    decreases t.len()
{
    let p = t.drop_last();
    if t.last().0 == w {
        th_push(from, of(p, w), t.last().1);
        match t.last().1 {
            Ev::Load { v } => { let i = heard_when(p, w, from); (i, t.len() - 1) }
            _ => { let r = seen_when(p, w, from); (r.0, r.1) }
        }
    } else { let r = seen_when(p, w, from); (r.0, r.1) }
}
proof fn heard_when(t: Trace, w: int, from: int) -> (i: int)
    requires th(from, of(t, w)).l is Some
    ensures listens(t, i, w, th(from, of(t, w)).l->0)
    decreases t.len()
{
    let p = t.drop_last();
    if t.last().0 == w {
        th_push(from, of(p, w), t.last().1);
        match t.last().1 { Ev::Listen { l } => t.len() - 1, _ => heard_when(p, w, from) }
    } else { heard_when(p, w, from) }
}
/// whoever changed the value and has told since
proof fn told_when(t: Trace, m: int, u: int, from: int) -> (j: int)
    requires 0 <= m < t.len(), t[m].0 == u, t[m].1 is Write, !th(from, of(t, u)).untold
    ensures j > m, tells(t, j, u)
    decreases t.len()
{
    let p = t.drop_last();
    if t.last().0 == u { th_push(from, of(p, u), t.last().1); }
    if m == t.len() - 1 { 0 }
    else if tells(t, t.len() - 1, u) { t.len() - 1 }
    else { assert(p[m] == t[m]); let j = told_when(p, m, u, from); j }
}
/// where the value rose
proof fn rose_when(t: Trace, k: int, from: int) -> (m: int)
    requires 0 <= k <= t.len(), !high(val(t.take(k)), from), high(val(t), from)
    ensures k <= m < t.len(), t[m].1 is Write
    decreases t.len()
{
    if k == t.len() { assert(t.take(k) =~= t); 0 }
    else if t.last().1 is Write { t.len() - 1 }
    else { let p = t.drop_last(); assert(p.take(k) =~= t.take(k)); rose_when(p, k, from) }
}
/// [C24] No thread is left asleep: when thread w sleeps on listener l, the value is high, and nobody is between
/// changing the value and telling, somebody told everybody after w had made l - so l has been woken.
pub proof fn not_left_asleep(t: Trace, w: int, from: int) -> (r: (int, int))
    requires
        sound(t), t.len() > 0, t.last().0 == w, t.last().1 is Await,
        forall|u: int| #![trigger of(t, u)] !th(from, of(t, u)).untold && !th(from, of(t, u)).bad,
        high(val(t), from),
    ensures
        r.0 < r.1, listens(t, r.0, w, t.last().1->Await_l), exists|u: int| tells(t, r.1, u), // [C24]
{
    let p = t.drop_last();
    th_push(from, of(p, w), t.last().1);
    assert(!th(from, of(t, w)).bad);
    let r = seen_when(p, w, from);
    let k = r.1;
    assert(t[k] == p[k]); assert(t[r.0] == p[r.0]);
    let v = t[k].1->Load_v;
    let kn = k as nat;
    assert(t[kn as int].1 == (Ev::Load { v }));
    assert(v == val(t.take(k)));
    let m = rose_when(t, k, from);
    let u = t[m].0;
    assert(!th(from, of(t, u)).untold);
    let j = told_when(t, m, u, from);
    (r.0, j)
}
@item struct AsyncFlag
@item struct AsyncCounter
@item struct Inner
@fn AsyncFlag::new
@prop C24
@ret r
@spec
    ensures r.inner.value.init() == 0, // [C24]
@fn AsyncCounter::new
@prop C24
@ret r
@spec
    ensures r.inner.value.init() == 0, // [C24]
@fn AsyncFlag::set eff
@locals eff
@prop C24
@spec
    ensures
        forall|f: int| #![trigger th(f, old(eff).hist())] (th(f, final(eff).hist()).untold ==> th(f, old(eff).hist()).untold) && th(f, final(eff).hist()).bad == th(f, old(eff).hist()).bad, // [C24]
        th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes.push((false, 1int)) // [C24]
            || (th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes && th(0, final(eff).hist()).last == Some(1int)), // [C24]
@hint fn-start
    broadcast use th_push;
@fn AsyncFlag::unset eff
@locals eff
@prop C24
@spec
    ensures
        forall|f: int| #![trigger th(f, old(eff).hist())] (th(f, final(eff).hist()).untold ==> th(f, old(eff).hist()).untold) && th(f, final(eff).hist()).bad == th(f, old(eff).hist()).bad, // [C24]
        th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes.push((false, 0int)) // [C24]
            || (th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes && th(0, final(eff).hist()).last == Some(0int)), // [C24]
@hint fn-start
    broadcast use th_push;
@fn AsyncFlag::wait eff
@locals eff listener
@prop C24
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
    requires !th(0, old(eff).hist()).untold, !th(0, old(eff).hist()).bad,
    ensures
        !th(0, final(eff).hist()).untold && !th(0, final(eff).hist()).bad, // [C24]
        th(0, final(eff).hist()).last == Some(1int), // [C24]
        th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes, // [C24]
@hint fn-start
    broadcast use th_push;
    let ghost h0 = eff.hist();
@loop 0
    invariant
        !th(0, eff.hist()).untold && !th(0, eff.hist()).bad, // [C24]
        th(0, eff.hist()).writes == th(0, h0).writes, // [C24]
@fn AsyncCounter::incr eff
@locals eff
@prop C24
@spec
    ensures
        forall|f: int| #![trigger th(f, old(eff).hist())] (th(f, final(eff).hist()).untold ==> th(f, old(eff).hist()).untold) && th(f, final(eff).hist()).bad == th(f, old(eff).hist()).bad, // [C24]
        th(0, final(eff).hist()).writes == th(0, old(eff).hist()).writes.push((true, 1int)), // [C24]
@hint fn-start
    broadcast use th_push;
@fn AsyncCounter::load eff
@locals eff
@prop C24
@ret r
@spec
    ensures final(eff).hist() == old(eff).hist().push(Ev::Load { v: r as int }), // [C24]
@fn AsyncCounter::wait eff
@locals from eff value listener value
@prop C24
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
    requires !th(from as int, old(eff).hist()).untold, !th(from as int, old(eff).hist()).bad,
    ensures
        !th(from as int, final(eff).hist()).untold && !th(from as int, final(eff).hist()).bad, // [C24]
        th(from as int, final(eff).hist()).last == Some(r as int) && r > from, // [C24]
        th(from as int, final(eff).hist()).writes == th(from as int, old(eff).hist()).writes, // [C24]
@hint fn-start
    broadcast use th_push;
    let ghost h0 = eff.hist();
@loop 0
    invariant
        !th(from as int, eff.hist()).untold && !th(from as int, eff.hist()).bad, // [C24]
        th(from as int, eff.hist()).writes == th(from as int, h0).writes, // [C24]
