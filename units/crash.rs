// What a kill leaves of a log, and that it reopens (C25).
/// the text whose lines are the entries of t
pub open spec fn mended(t: Bytes) -> Bytes decreases t.len() {
    if t.len() == 0 || line_len(t) < 1 || line_len(t) > t.len() || cut(first(t)) { Seq::empty() } else if ended(first(t)) { first(t) + mended(rest(t)) } else { first(t).push(NL) }
}
pub proof fn mended_body(es: Seq<LogEntry>) ensures mended(body(es)) == body(es) decreases es.len()
{ if es.len() > 0 { first_of(es[0], body(es.skip(1))); mended_body(es.skip(1)); json_back(es[0]); } }
/// how many entries are left of the first n bytes of a log
pub open spec fn left(es: Seq<LogEntry>, n: int) -> nat decreases es.len() {
    if es.len() == 0 || n < json(es[0]).len() { 0 } else if n <= json(es[0]).len() { 1 } else { 1 + left(es.skip(1), n - line(es[0]).len()) }
}
/// [C25] wherever a log is cut, what is left of it is the text of its first entries, except perhaps for the end of the last of them, and a part of a line after them that is no entry
pub proof fn c25_cut(es: Seq<LogEntry>, n: int, st: St, wk: Option<Str>)
    requires 0 <= n <= body(es).len()
    ensures left(es, n) <= es.len(), replay(body(es).take(n), st, wk) == verdict(es.take(left(es, n) as int), st, wk), mended(body(es).take(n)) == body(es.take(left(es, n) as int)) decreases es.len()
{
    let t = body(es).take(n);
    let m = left(es, n) as int;
    assert(es.take(0) =~= Seq::<LogEntry>::empty());
    if es.len() == 0 || n == 0 {
        assert(t.len() == 0);
        if es.len() > 0 { json_back(es[0]); }
    } else {
        let e = es[0];
        let js = json(e);
        json_back(e);
        if n <= js.len() {
            assert(t =~= js.take(n));
            assert forall|i: int| 0 <= i < n implies js.take(n)[i] != NL by { assert(js.contains(js[i])); }
            line_len_of(t, Seq::empty());
            assert(first(t) =~= t);
            assert(!ended(t));
            if n < js.len() { json_part(e, n); } else {
                assert(t =~= js);
                assert(m == 1);
                assert(rest(t).len() == 0);
                let o = es.take(1);
                assert(o[0] == e && o.len() == 1);
                assert(o.skip(1) =~= Seq::<LogEntry>::empty());
                assert(body(o.skip(1)).len() == 0);
                assert(body(o) =~= line(e));
                assert(mended(t) == line(e));
                assert(replay(rest(t), step(st, e), next_wk(e, wk)) == Rep::Ok(step(st, e)));
                assert(verdict(o.skip(1), step(st, e), next_wk(e, wk)) == Rep::Ok(step(st, e)));
            }
        } else {
            let q = es.skip(1);
            let k = n - line(e).len();
            let u = body(q).take(k);
            assert(t =~= line(e) + u);
            first_of(e, u);
            c25_cut(q, k, step(st, e), next_wk(e, wk));
            assert(es.take(m)[0] == e);
            assert(es.take(m).skip(1) =~= q.take(m - 1));
            assert(ended(line(e)));
        }
    }
}
/// [C25] the entries that were flushed before the cut are left
pub proof fn c25_flushed(es: Seq<LogEntry>, k: int, n: int)
    requires 0 <= k <= es.len(), body(es.take(k)).len() <= n <= body(es).len() ensures left(es, n) >= k decreases k
{
    if k > 0 {
        json_back(es[0]);
        assert(es.take(k)[0] == es[0]);
        assert(es.take(k).skip(1) =~= es.skip(1).take(k - 1));
        c25_flushed(es.skip(1), k - 1, n - line(es[0]).len());
    }
}
pub proof fn ordered_take(es: Seq<LogEntry>, st: St, m: int) requires ordered(es, st), 0 <= m <= es.len() ensures ordered(es.take(m), st) decreases m
{ if m > 0 { assert(es.take(m)[0] == es[0]); assert(es.take(m).skip(1) =~= es.skip(1).take(m - 1)); ordered_take(es.skip(1), step(st, es[0]), m - 1); } }
pub proof fn consistent_take(es: Seq<LogEntry>, wk: Option<Str>, m: int) requires consistent(es, wk), 0 <= m <= es.len() ensures consistent(es.take(m), wk) decreases m
{ if m > 0 { assert(es.take(m)[0] == es[0]); assert(es.take(m).skip(1) =~= es.skip(1).take(m - 1)); consistent_take(es.skip(1), next_wk(es[0], wk), m - 1); } }
/// [C25] for every log and every place where it is cut after the first k entries: it reopens, and its state is that of its first m >= k entries
pub proof fn c25_reopen(es: Seq<LogEntry>, k: int, n: int)
    requires ordered(es, st0()), consistent(es, None), 0 <= k <= es.len(), body(es.take(k)).len() <= n <= body(es).len()
    ensures k <= left(es, n) <= es.len(), replay(body(es).take(n), st0(), None) == Rep::Ok(fold(es.take(left(es, n) as int), st0())), mended(body(es).take(n)) == body(es.take(left(es, n) as int)),
        ordered(es.take(left(es, n) as int), st0()), consistent(es.take(left(es, n) as int), None)
{
    c25_cut(es, n, st0(), None);
    c25_flushed(es, k, n);
    let m = left(es, n) as int;
    ordered_take(es, st0(), m);
    consistent_take(es, None, m);
    c07_verdict(es.take(m), st0(), None);
}
pub open spec fn reopens(es: Seq<LogEntry>, n: int, t: Bytes) -> bool {
    let q = es.take(left(es, n) as int);
    0 <= left(es, n) <= es.len() && replay(t, st0(), None) == Rep::Ok(fold(q, st0())) && mended(t) == body(q) && ordered(q, st0()) && consistent(q, None)
}
/// [C25] a finished task whose entry is among those is remembered, with how it ended, unless it was begun again after it
pub proof fn c25_remembered(es: Seq<LogEntry>, st: St, m: int, i: int)
    requires ordered(es, st), 0 <= i < m <= es.len(), es[i] is Finished, forall|j: int| i < j < m && (#[trigger] es[j]) is Ready ==> es[j]->Ready_0.key@ != es[i]->Finished_0.key@
    ensures ({ let s = fold(es.take(m), st).rc; let k = es[i]->Finished_0.key@; s.contains_key(k) && s[k] is Finished && s[k]->success == (es[i]->Finished_0.status == 0) }) decreases m
{
    assert(es.take(m)[0] == es[0]);
    assert(es.take(m).skip(1) =~= es.skip(1).take(m - 1));
    if i > 0 {
        assert forall|j: int| i - 1 < j < m - 1 && (#[trigger] es.skip(1)[j]) is Ready implies es.skip(1)[j]->Ready_0.key@ != es[i]->Finished_0.key@ by { assert(es.skip(1)[j] == es[j + 1]); }
        assert(es.skip(1)[i - 1] == es[i]);
        c25_remembered(es.skip(1), step(st, es[0]), m - 1, i - 1);
    } else {
        assert forall|j: int| 0 <= j < m - 1 && (#[trigger] es.skip(1)[j]) is Ready implies es.skip(1)[j]->Ready_0.key@ != es[0]->Finished_0.key@ by { assert(es.skip(1)[j] == es[j + 1]); }
        c25_stays(es.skip(1), step(st, es[0]), m - 1, es[0]->Finished_0.key@, es[0]->Finished_0.status == 0);
    }
}
pub proof fn c25_stays(es: Seq<LogEntry>, st: St, m: int, k: Str, success: bool)
    requires ordered(es, st), 0 <= m <= es.len(), st.rc.contains_key(k), st.rc[k] is Finished, st.rc[k]->success == success, forall|j: int| 0 <= j < m && (#[trigger] es[j]) is Ready ==> es[j]->Ready_0.key@ != k
    ensures ({ let s = fold(es.take(m), st).rc; s.contains_key(k) && s[k] is Finished && s[k]->success == success }) decreases m
{
    if m > 0 {
        assert(es.take(m)[0] == es[0]);
        assert(es.take(m).skip(1) =~= es.skip(1).take(m - 1));
        assert forall|j: int| 0 <= j < m - 1 && (#[trigger] es.skip(1)[j]) is Ready implies es.skip(1)[j]->Ready_0.key@ != k by { assert(es.skip(1)[j] == es[j + 1]); }
        c25_stays(es.skip(1), step(st, es[0]), m - 1, k, success);
    }
}
