@unit logsplit
@include prelude.rs
@include iter.rs
@include collections.rs
@include logfile.rs
@defattr #[verifier::loop_isolation(false)]
@erase trace debug warn error
@source src/logfile2.rs
@typemap std::fs::File File
@typemap std::path::PathBuf PathBuf
@methodmap clear vx_clear
@methodmap truncate vx_truncate
@methodmap trim_end_matches vx_trim_end_matches
@item enum LogEntry
@item struct HeaderEntry
@item struct ReadyEntry
@item struct StartedEntry
@item struct FinishedEntry
@item struct BackrefEntry
@item enum RuncountStatus
@item enum LogfileError
@item struct LogFileSnapshotReader
@text
/// the entries that can be read from the text, line by line
pub open spec fn readable(t: Bytes) -> Seq<LogEntry> decreases t.len() {
    if t.len() == 0 || line_len(t) < 1 || line_len(t) > t.len() { Seq::empty() } else {
        match parse_text(chomp(utf8(first(t)))) { None => readable(rest(t)), Some(e) => seq![e] + readable(rest(t)) }
    }
}
pub open spec fn key_of(e: LogEntry) -> Option<Str> {
    match e { LogEntry::Header(_) => None, LogEntry::Ready(v) => Some(v.key@), LogEntry::Started(v) => Some(v.key@), LogEntry::Finished(v) => Some(v.key@), LogEntry::Backref(v) => Some(v.key@) }
}
/// an entry of a run of a task
pub open spec fn of_run(e: LogEntry) -> bool { e is Ready || e is Started || e is Finished }
/// where the last header among the first n entries is, or -1
pub open spec fn hdr(e: Seq<LogEntry>, n: int) -> int decreases n { if n <= 0 { -1 } else if e[n - 1] is Header { n - 1 } else { hdr(e, n - 1) } }
pub proof fn hdr_range(e: Seq<LogEntry>, n: int) requires 0 <= n <= e.len() ensures -1 <= hdr(e, n) < n || n == 0 && hdr(e, n) == -1, hdr(e, n) >= 0 ==> e[hdr(e, n)] is Header, forall|i: int| hdr(e, n) < i < n ==> !(#[trigger] e[i] is Header) decreases n
{ if n > 0 && !(e[n - 1] is Header) { hdr_range(e, n - 1); } }
/// the session after entry h refers back to the task k
#[verifier::opaque] pub open spec fn refd_from(e: Seq<LogEntry>, lo: int, k: Str) -> bool { exists|j: int| lo <= j < e.len() && 0 <= j && (#[trigger] e[j]) is Backref && key_of(e[j]) == Some(k) }
/// a run of k begins at or after lo and before h
#[verifier::opaque] pub open spec fn begins(e: Seq<LogEntry>, lo: int, h: int, k: Str) -> bool { exists|j: int| lo <= j < h && 0 <= j && (#[trigger] e[j]) is Ready && key_of(e[j]) == Some(k) }
/// [C09] which entries are current, besides the header h: those after it except back-references, and the last earlier run of each task referred back to
pub open spec fn cur(e: Seq<LogEntry>, h: int, i: int) -> bool {
    if i > h { !(e[i] is Backref) } else if i == h { false } else { of_run(e[i]) && refd_from(e, h + 1, key_of(e[i])->0) && !begins(e, i + 1, h, key_of(e[i])->0) }
}
/// the current entries from lo on, in log order, and in reverse
pub open spec fn pick(e: Seq<LogEntry>, h: int, lo: int) -> Seq<LogEntry> decreases e.len() - lo { if lo >= e.len() { Seq::empty() } else { (if cur(e, h, lo) { seq![e[lo]] } else { Seq::empty() }) + pick(e, h, lo + 1) } }
pub open spec fn rpick(e: Seq<LogEntry>, h: int, lo: int) -> Seq<LogEntry> decreases e.len() - lo { if lo >= e.len() { Seq::empty() } else if cur(e, h, lo) { rpick(e, h, lo + 1).push(e[lo]) } else { rpick(e, h, lo + 1) } }
/// the entries before h that are not current
pub open spec fn old_pick(e: Seq<LogEntry>, h: int, lo: int) -> Seq<LogEntry> decreases h - lo { if lo >= h { Seq::empty() } else { (if cur(e, h, lo) { Seq::empty() } else { seq![e[lo]] }) + old_pick(e, h, lo + 1) } }
pub open spec fn rold(e: Seq<LogEntry>, h: int, lo: int) -> Seq<LogEntry> decreases h - lo { if lo >= h { Seq::empty() } else if cur(e, h, lo) { rold(e, h, lo + 1) } else { rold(e, h, lo + 1).push(e[lo]) } }
pub open spec fn nback(e: Seq<LogEntry>, h: int, lo: int) -> nat decreases e.len() - lo { if lo >= e.len() { 0 } else { nback(e, h, lo + 1) + if lo > h && e[lo] is Backref { 1nat } else { 0 } } }
pub proof fn turned(e: Seq<LogEntry>, h: int, lo: int) requires 0 <= lo ensures pick(e, h, lo) =~= rpick(e, h, lo).reverse() decreases e.len() - lo { if lo < e.len() { turned(e, h, lo + 1); } }
pub proof fn turned_old(e: Seq<LogEntry>, h: int, lo: int) requires 0 <= lo ensures old_pick(e, h, lo) =~= rold(e, h, lo).reverse() decreases h - lo { if lo < h { turned_old(e, h, lo + 1); } }
/// [C09] every entry is the header, current, earlier, or a back-reference of the last session
pub proof fn c09_count(e: Seq<LogEntry>, h: int, lo: int)
    requires 0 <= lo <= e.len(), -1 <= h < e.len()
    ensures rpick(e, h, lo).len() + rold(e, h, lo).len() + nback(e, h, lo) + (if lo <= h { 1int } else { 0 }) == e.len() - lo decreases e.len() - lo
{ if lo < e.len() { c09_count(e, h, lo + 1); if lo >= h { assert(rold(e, h, lo).len() == 0); assert(rold(e, h, lo + 1).len() == 0); } } }
pub proof fn none_below(e: Seq<LogEntry>, h: int, lo: int, m: int)
    requires 0 <= m <= lo <= h < e.len(), forall|k: Str| #[trigger] refd_from(e, h + 1, k) ==> begins(e, lo, h, k)
    ensures rpick(e, h, m) == rpick(e, h, lo), forall|i: int| m <= i < lo ==> !#[trigger] cur(e, h, i) decreases lo - m
{
    if m < lo {
        none_below(e, h, lo, m + 1);
        if cur(e, h, m) {
            reveal(begins);
            let k = key_of(e[m])->0;
            let j = choose|j: int| lo <= j < h && 0 <= j && (#[trigger] e[j]) is Ready && key_of(e[j]) == Some(k);
            assert(begins(e, m + 1, h, k));
        }
    }
}
pub proof fn nback_low(e: Seq<LogEntry>, h: int, lo: int, m: int) requires 0 <= m <= lo <= e.len(), lo <= h + 1 || lo == 0 ensures nback(e, h, m) == nback(e, h, lo) decreases lo - m { if m < lo { nback_low(e, h, lo, m + 1); } }
pub proof fn refd_step(e: Seq<LogEntry>, lo: int) requires 0 <= lo < e.len() ensures forall|k: Str| #[trigger] refd_from(e, lo, k) <==> refd_from(e, lo + 1, k) || e[lo] is Backref && key_of(e[lo]) == Some(k)
{
    reveal(refd_from);
    assert forall|k: Str| #[trigger] refd_from(e, lo, k) <==> refd_from(e, lo + 1, k) || e[lo] is Backref && key_of(e[lo]) == Some(k) by {
        if refd_from(e, lo, k) { let j = choose|j: int| lo <= j < e.len() && 0 <= j && (#[trigger] e[j]) is Backref && key_of(e[j]) == Some(k); if j > lo { assert(refd_from(e, lo + 1, k)); } }
        if refd_from(e, lo + 1, k) { let j = choose|j: int| lo + 1 <= j < e.len() && 0 <= j && (#[trigger] e[j]) is Backref && key_of(e[j]) == Some(k); assert(refd_from(e, lo, k)); }
        if e[lo] is Backref && key_of(e[lo]) == Some(k) { assert(refd_from(e, lo, k)); }
    }
}
pub proof fn begins_step(e: Seq<LogEntry>, lo: int, h: int) requires 0 <= lo < h ensures forall|k: Str| #[trigger] begins(e, lo, h, k) <==> begins(e, lo + 1, h, k) || e[lo] is Ready && key_of(e[lo]) == Some(k)
{
    reveal(begins);
    assert forall|k: Str| #[trigger] begins(e, lo, h, k) <==> begins(e, lo + 1, h, k) || e[lo] is Ready && key_of(e[lo]) == Some(k) by {
        if begins(e, lo, h, k) { let j = choose|j: int| lo <= j < h && 0 <= j && (#[trigger] e[j]) is Ready && key_of(e[j]) == Some(k); if j > lo { assert(begins(e, lo + 1, h, k)); } }
        if begins(e, lo + 1, h, k) { let j = choose|j: int| lo + 1 <= j < h && 0 <= j && (#[trigger] e[j]) is Ready && key_of(e[j]) == Some(k); assert(begins(e, lo, h, k)); }
        if e[lo] is Ready && key_of(e[lo]) == Some(k) { assert(begins(e, lo, h, k)); }
    }
}
/// the last session does not refer to the task of entry i again later
pub proof fn refd_once(e: Seq<LogEntry>, i: int) requires refs_once(e), hdr(e, e.len() as int) < i < e.len(), 0 <= i, e[i] is Backref ensures !refd_from(e, i + 1, key_of(e[i])->0)
{ reveal(refd_from); let k = key_of(e[i])->0; if refd_from(e, i + 1, k) { let j = choose|j: int| i + 1 <= j < e.len() && 0 <= j && (#[trigger] e[j]) is Backref && key_of(e[j]) == Some(k); assert(key_of(e[i]) != key_of(e[j])); } }
pub proof fn has_key_step(c: Seq<LogEntry>, p: int) requires 0 <= p < c.len() ensures forall|k: Str| #[trigger] has_key(c.take(p + 1), k) <==> has_key(c.take(p), k) || key_of(c[p]) == Some(k)
{
    reveal(has_key);
    assert forall|k: Str| #[trigger] has_key(c.take(p + 1), k) <==> has_key(c.take(p), k) || key_of(c[p]) == Some(k) by {
        if has_key(c.take(p + 1), k) { let j = choose|j: int| 0 <= j < c.take(p + 1).len() && key_of(#[trigger] c.take(p + 1)[j]) == Some(k); if j < p { assert(c.take(p)[j] == c[j]); } }
        if has_key(c.take(p), k) { let j = choose|j: int| 0 <= j < c.take(p).len() && key_of(#[trigger] c.take(p)[j]) == Some(k); assert(c.take(p + 1)[j] == c[j]); }
        if key_of(c[p]) == Some(k) { assert(c.take(p + 1)[p] == c[p]); }
    }
}
pub proof fn empties(e: Seq<LogEntry>) ensures forall|k: Str| !#[trigger] refd_from(e, e.len() as int, k), forall|lo: int, h: int, k: Str| lo >= h ==> !#[trigger] begins(e, lo, h, k), forall|k: Str| !#[trigger] has_key(e.take(0), k)
{ reveal(refd_from); reveal(begins); reveal(has_key); }
pub proof fn picks(e: Seq<LogEntry>, h: int, lo: int) requires 0 <= lo < e.len()
    ensures rpick(e, h, lo) == (if cur(e, h, lo) { rpick(e, h, lo + 1).push(e[lo]) } else { rpick(e, h, lo + 1) }),
        rold(e, h, lo) == (if lo >= h { Seq::empty() } else if cur(e, h, lo) { rold(e, h, lo + 1) } else { rold(e, h, lo + 1).push(e[lo]) }),
        nback(e, h, lo) == nback(e, h, lo + 1) + (if lo > h && e[lo] is Backref { 1nat } else { 0 }),
        hdr(e, lo + 1) == (if e[lo] is Header { lo } else { hdr(e, lo) }), lo > h ==> cur(e, h, lo) == !(e[lo] is Backref), lo == h ==> !cur(e, h, lo),
{}
pub proof fn picked(e: Seq<LogEntry>, h: int) ensures rpick(e, h, e.len() as int) == Seq::<LogEntry>::empty(), nback(e, h, e.len() as int) == 0, hdr(e, 0) == -1, forall|lo: int| lo >= h ==> #[trigger] rold(e, h, lo) == Seq::<LogEntry>::empty() {}
/// s: the tasks referred back to whose last earlier run has not begun at or after lo
#[verifier::opaque] pub open spec fn owed(s: Set<Str>, e: Seq<LogEntry>, h: int, lo: int) -> bool { forall|k: Str| s.contains(k) <==> #[trigger] refd_from(e, h + 1, k) && !begins(e, lo, h, k) }
pub proof fn owed_start(s: Set<Str>, e: Seq<LogEntry>, h: int, lo: int)
    requires -1 <= h < e.len(), h >= 0 ==> lo == h && !(e[h] is Backref), h < 0 ==> lo == 0, forall|k: Str| s.contains(k) <==> #[trigger] refd_from(e, lo, k) ensures owed(s, e, h, lo)
{
    reveal(owed); empties(e);
    if h >= 0 { refd_step(e, h); }
    assert forall|k: Str| s.contains(k) <==> #[trigger] refd_from(e, h + 1, k) && !begins(e, lo, h, k) by { assert(refd_from(e, lo, k) <==> refd_from(e, h + 1, k)); }
}
pub proof fn owed_step(s: Set<Str>, e: Seq<LogEntry>, h: int, lo: int)
    requires 0 <= lo < h < e.len(), owed(s, e, h, lo + 1)
    ensures e[lo] is Ready ==> owed(s.remove(key_of(e[lo])->0), e, h, lo), !(e[lo] is Ready) ==> owed(s, e, h, lo), key_of(e[lo]) is Some ==> cur(e, h, lo) == (of_run(e[lo]) && s.contains(key_of(e[lo])->0)), key_of(e[lo]) is None ==> !cur(e, h, lo)
{
    reveal(owed);
    assert(forall|k: Str| s.contains(k) <==> #[trigger] refd_from(e, h + 1, k) && !begins(e, lo + 1, h, k));
    begins_step(e, lo, h);
    if key_of(e[lo]) is Some { let k = key_of(e[lo])->0; assert(s.contains(k) <==> refd_from(e, h + 1, k) && !begins(e, lo + 1, h, k)); }
    let t = if e[lo] is Ready { s.remove(key_of(e[lo])->0) } else { s };
    assert forall|k: Str| t.contains(k) <==> #[trigger] refd_from(e, h + 1, k) && !begins(e, lo, h, k) by { assert(s.contains(k) <==> refd_from(e, h + 1, k) && !begins(e, lo + 1, h, k)); }
}
pub proof fn owed_none(s: Set<Str>, e: Seq<LogEntry>, h: int, lo: int) requires owed(s, e, h, lo), s =~= Set::<Str>::empty() ensures forall|k: Str| #[trigger] refd_from(e, h + 1, k) ==> begins(e, lo, h, k)
{ reveal(owed); assert forall|k: Str| #[trigger] refd_from(e, h + 1, k) implies begins(e, lo, h, k) by { assert(!s.contains(k)); } }
/// what the split returns
pub open spec fn current_of(e: Seq<LogEntry>) -> Seq<LogEntry> { let h = hdr(e, e.len() as int); (if h >= 0 { seq![e[h]] } else { Seq::empty() }) + pick(e, h, 0) }
pub open spec fn earlier_of(e: Seq<LogEntry>) -> Seq<LogEntry> { old_pick(e, hdr(e, e.len() as int), 0) }
#[verifier::opaque] pub open spec fn has_key(c: Seq<LogEntry>, k: Str) -> bool { exists|i: int| 0 <= i < c.len() && key_of(#[trigger] c[i]) == Some(k) }
/// the first n entries of o without those of tasks that occur in c
pub open spec fn kept(o: Seq<LogEntry>, c: Seq<LogEntry>, n: int) -> Seq<LogEntry> decreases n {
    if n <= 0 { Seq::empty() } else if o[n - 1] is Header || !has_key(c, key_of(o[n - 1])->0) { kept(o, c, n - 1).push(o[n - 1]) } else { kept(o, c, n - 1) }
}
pub open spec fn outdated_of(e: Seq<LogEntry>) -> Seq<LogEntry> { kept(earlier_of(e), current_of(e), earlier_of(e).len() as int) }
/// [C09] nothing of a current task is outdated
pub proof fn c09_safe(o: Seq<LogEntry>, c: Seq<LogEntry>, n: int, i: int)
    requires 0 <= n <= o.len(), 0 <= i < kept(o, c, n).len()
    ensures kept(o, c, n)[i] is Header || !has_key(c, key_of(kept(o, c, n)[i])->0) decreases n
{ if n > 0 { if i < kept(o, c, n - 1).len() { c09_safe(o, c, n - 1, i); } } }
/// the last session refers back to a task at most once
pub open spec fn refs_once(e: Seq<LogEntry>) -> bool { forall|i: int, j: int| hdr(e, e.len() as int) < i < j < e.len() && (#[trigger] e[i]) is Backref && (#[trigger] e[j]) is Backref ==> key_of(e[i]) != key_of(e[j]) }
@fn LogFileSnapshotReader::read
@locals reader v line nbytes len value e e
@prop C09
@ret r
@retty Result<Vec<LogEntry>, LogfileError>
@spec
    ensures final(self).f.text() == old(self).f.text(), // [C09]
        r is Ok ==> r->Ok_0@ == readable(old(self).f.text()), // [C09]
@letty v Vec<LogEntry>
@hint after-let line
    let ghost vx_t0 = self.f.text();
@hint loop-start 0
    let ghost vx_r = reader.rest();
    let ghost vx_v0 = v@;
    proof { line_len_range(vx_r); }
@hint after-call read_line 0
    proof { trim2(line@); assert(line@ =~= utf8(first(vx_r))); }
@hint after-call vx_truncate 0
    proof { assert(line@ == chomp(utf8(first(vx_r)))); }
@hint loop-end 0
    proof { if parse_text(chomp(utf8(first(vx_r)))) is Some { assert(vx_v0 + (seq![parse_text(chomp(utf8(first(vx_r))))->0] + readable(rest(vx_r))) =~= vx_v0.push(parse_text(chomp(utf8(first(vx_r))))->0) + readable(rest(vx_r))); } }
@loop 0
    invariant readable(vx_t0) =~= v@ + readable(reader.rest()),
    decreases reader.rest().len()
@fn LogFileSnapshotReader::read_current_and_outdated
@locals all_entries count result_current rev_iter pending_backrefs header item b nbackrefs result_outdated item v v v header current outdated current_keys x _v v v v v outdated_filtered x _v v v v v
@attr #[verifier::allow_complex_invariants]
@prop C09
@ret r
@retty Result<(Vec<LogEntry>, Vec<LogEntry>), LogfileError>
@spec
    requires refs_once(readable(old(self).f.text())),
    ensures
        r is Ok ==> r->Ok_0.0@ == current_of(readable(old(self).f.text())), // [C09]
        r is Ok ==> r->Ok_0.1@ == outdated_of(readable(old(self).f.text())), // [C09]
@letty rev_iter VIter<LogEntry>
@letty pending_backrefs HashSet<String>
@letty header Option<LogEntry>
@letty result_current Vec<LogEntry>
@hint fn-start
    hide(replay); hide(verdict); hide(fold); hide(ordered); hide(consistent); hide(body); hide(chomp); hide(line_len); hide(readable); hide(ends_trimmed); hide(rpick); hide(rold); hide(nback); hide(pick); hide(old_pick); hide(hdr); hide(cur);
@hint after-let all_entries
    let ghost vx_E = all_entries@;
    let ghost vx_n = vx_E.len() as int;
    let ghost vx_h = hdr(vx_E, vx_n);
    let ghost mut vx_lo: int = 0;
    proof { hdr_range(vx_E, vx_n); empties(vx_E); picked(vx_E, vx_h); }
@hint loop-start 0
    proof { hdr_range(vx_E, vx_n - rev_iter.pos() + 1); let lo = vx_n - rev_iter.pos(); assert(item == vx_E[lo]); picks(vx_E, vx_h, lo); refd_step(vx_E, lo); if item is Backref { refd_once(vx_E, lo); } }
    let ghost vx_p0 = pending_backrefs@;
@loop 0
    invariant_except_break header is None,
    invariant
        rev_iter.seq() == vx_E.reverse(), rev_iter.pos() <= vx_n,
        header is None ==> vx_h == hdr(vx_E, vx_n - rev_iter.pos()),
        header is Some ==> vx_h == vx_n - rev_iter.pos() && header->0 == vx_E[vx_h],
        result_current@ == rpick(vx_E, vx_h, vx_n - rev_iter.pos()),
        forall|k: Str| pending_backrefs@.contains(k) <==> #[trigger] refd_from(vx_E, vx_n - rev_iter.pos(), k),
        pending_backrefs@.len() == nback(vx_E, vx_h, vx_n - rev_iter.pos()),
    ensures header is None ==> rev_iter.pos() == vx_n,
    decreases vx_n - rev_iter.pos()
@hint after-let result_outdated
    proof { assert(result_outdated@ =~= rold(vx_E, vx_h, vx_n - rev_iter.pos())); owed_start(pending_backrefs@, vx_E, vx_h, vx_n - rev_iter.pos()); if vx_h >= 0 { picks(vx_E, vx_h, vx_h); } assert(nbackrefs == nback(vx_E, vx_h, 0)) by { nback_low(vx_E, vx_h, vx_n - rev_iter.pos(), 0); } }
@hint loop-start 1
    let ghost vx_q0 = pending_backrefs@;
    proof { let lo = vx_n - rev_iter.pos(); assert(item == vx_E[lo]); picks(vx_E, vx_h, lo); owed_step(vx_q0, vx_E, vx_h, lo); }
@hint before-call is_empty 0
    proof {
        let lo = vx_n - rev_iter.pos();
        let e = vx_E[lo];
        if e is Ready { assert(pending_backrefs@ =~= vx_q0.remove(key_of(e)->0)); } else { assert(pending_backrefs@ == vx_q0); }
        assert(owed(pending_backrefs@, vx_E, vx_h, lo));
    }
@hint after-loop 1
    proof {
        vx_lo = vx_n - rev_iter.pos();
        if vx_lo > 0 { owed_none(pending_backrefs@, vx_E, vx_h, vx_lo); none_below(vx_E, vx_h, vx_lo, 0); }
        assert(result_current@ == rpick(vx_E, vx_h, 0));
    }
@hint after-let current
    proof { turned(vx_E, vx_h, 0); assert(current@ =~= current_of(vx_E)); empties(current@); }
@hint after-let outdated
    let ghost vx_out = outdated@;
    proof { turned_old(vx_E, vx_h, 0); assert(outdated@ =~= earlier_of(vx_E)); c09_count(vx_E, vx_h, 0); }
@loop 2
    invariant vx_it0.seq() == vx_E.reverse(), vx_lo - (vx_n - vx_it0.pos()) >= 0, result_outdated@ == rold(vx_E, vx_h, vx_n - vx_it0.pos()),
@hint loop-start 2
    proof { assert(vx_x == vx_E[vx_n - vx_it0.pos()]); picks(vx_E, vx_h, vx_n - vx_it0.pos()); }
@loop 3
    invariant forall|k: Str| vx_acc0@.contains(k) <==> #[trigger] has_key(current@.take(vx_it1.pos() as int), k),
@hint loop-start 3
    proof { has_key_step(current@, vx_it1.pos() - 1); }
@hint after-loop 3
    proof { assert(current@.take(current@.len() as int) =~= current@); }
@loop 4
    invariant vx_it2.seq() == vx_out, vx_acc1@ == kept(vx_out, current@, vx_it2.pos() as int),
        forall|k: Str| current_keys@.contains(k) <==> #[trigger] has_key(current@, k),
@loop 1
    invariant
        rev_iter.seq() == vx_E.reverse(), rev_iter.pos() <= vx_n,
        vx_n - rev_iter.pos() <= (if vx_h >= 0 { vx_h } else { 0 }),
        result_current@ == rpick(vx_E, vx_h, vx_n - rev_iter.pos()),
        result_outdated@ == rold(vx_E, vx_h, vx_n - rev_iter.pos()),
        owed(pending_backrefs@, vx_E, vx_h, vx_n - rev_iter.pos()),
    ensures rev_iter.pos() == vx_n || pending_backrefs@ =~= Set::<Str>::empty(),
    decreases vx_n - rev_iter.pos()
