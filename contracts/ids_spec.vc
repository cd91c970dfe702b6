//@module ids_spec
//@deps log_id
//@raw
/// Representation invariant of the key-log-id list.
pub open spec fn ids_wf(s: Seq<LogId>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).index < (#[trigger] s[j]).index && leader_le(s[i].leader_id, s[j].leader_id)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && j < s.len() - 1 ==> (#[trigger] s[i]).leader_id != (#[trigger] s[j]).leader_id
}
/// Position of the key log id that covers `idx`: the greatest i with s[i].index <= idx (-1 if none).
pub open spec fn cover(s: Seq<LogId>, idx: int) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s.last().index <= idx { s.len() - 1 } else { cover(s.drop_last(), idx) }
}
/// The log id stored for `idx`.
pub open spec fn ids_at(s: Seq<LogId>, idx: int) -> Option<LogId> {
    if s.len() == 0 || idx < s[0].index || idx > s.last().index { None }
    else { Some(LogId { leader_id: s[cover(s, idx)].leader_id, index: idx as u64 }) }
}
pub proof fn lemma_cover(s: Seq<LogId>, idx: int)
    requires ids_wf(s), s.len() > 0, s[0].index <= idx,
    ensures 0 <= cover(s, idx) < s.len(), s[cover(s, idx)].index <= idx,
            forall|j: int| cover(s, idx) < j < s.len() ==> idx < (#[trigger] s[j]).index,
    decreases s.len()
{
    if s.last().index <= idx { } else {
        let d = s.drop_last();
        assert(ids_wf(d));
        assert(d[0] == s[0]);
        lemma_cover(d, idx);
        assert forall|j: int| cover(s, idx) < j < s.len() implies idx < (#[trigger] s[j]).index by {
            if j < d.len() { assert(d[j] == s[j]); }
        }
    }
}
/// The position that covers `idx` is unique.
pub broadcast proof fn lemma_cover_is(s: Seq<LogId>, idx: int, i: int)
    requires ids_wf(s), 0 <= i < s.len(), s[i].index <= idx, i + 1 < s.len() ==> idx < s[i + 1].index,
    ensures #![trigger ids_at(s, idx), s[i]] cover(s, idx) == i,
{
    assert(s[0].index <= s[i].index);
    lemma_cover(s, idx);
    if cover(s, idx) < i { } 
    if cover(s, idx) > i { assert(s[i + 1].index <= s[cover(s, idx)].index); }
}
/// Appending a log id at the end of the key list.
pub broadcast proof fn lemma_ids_push(s: Seq<LogId>, n: LogId)
    requires ids_wf(s), s.len() > 0, s.last().index < n.index, leader_le(s.last().leader_id, n.leader_id),
        s.len() >= 2 ==> s[s.len() - 2].leader_id != s.last().leader_id,
    ensures ids_wf(#[trigger] s.push(n)),
        forall|i: int| i <= s.last().index ==> #[trigger] ids_at(s.push(n), i) == ids_at(s, i),
        forall|i: int| s.last().index < i < n.index ==> #[trigger] ids_at(s.push(n), i) == Some(LogId { leader_id: s.last().leader_id, index: i as u64 }),
{
    let t = s.push(n);
    assert(ids_wf(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by {
            if j == t.len() - 1 && i < j { if i < s.len() - 1 { assert(s[i].index < s.last().index); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && j < t.len() - 1 implies (#[trigger] t[i]).leader_id != (#[trigger] t[j]).leader_id by {
            if j == s.len() - 1 { assert(leader_le(s[i].leader_id, s[s.len() - 2].leader_id)) by { if i < s.len() - 2 { } }
                assert(leader_le(s[s.len() - 2].leader_id, s[j].leader_id)); }
        }
    }
    assert forall|i: int| i <= s.last().index implies #[trigger] ids_at(t, i) == ids_at(s, i) by {
        if s[0].index <= i {
            lemma_cover(s, i);
            let c = cover(s, i);
            assert(t[c] == s[c]);
            if c + 1 < s.len() { assert(t[c + 1] == s[c + 1]); }
            lemma_cover_is(t, i, c);
        }
    }
    assert forall|i: int| s.last().index < i < n.index implies #[trigger] ids_at(t, i) == Some(LogId { leader_id: s.last().leader_id, index: i as u64 }) by {
        assert(s[0].index <= s.last().index);
        lemma_cover_is(t, i, s.len() - 1);
    }
}
/// Replacing the last key log id by a later one, when it is not the first of its leader.
pub broadcast proof fn lemma_ids_replace(s: Seq<LogId>, k: int, n: LogId)
    requires ids_wf(s), s.len() >= 2, k == s.len() - 1, s.last().index < n.index, leader_le(s.last().leader_id, n.leader_id),
        s[s.len() - 2].leader_id == s.last().leader_id,
    ensures ids_wf(#[trigger] s.update(k, n)),
        forall|i: int| i <= s.last().index ==> #[trigger] ids_at(s.update(k, n), i) == ids_at(s, i),
        forall|i: int| s.last().index < i < n.index ==> #[trigger] ids_at(s.update(k, n), i) == Some(LogId { leader_id: s.last().leader_id, index: i as u64 }),
{
    let t = s.update(k, n);
    assert(ids_wf(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by {
            assert(s[i].index < s[j].index);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && j < t.len() - 1 implies (#[trigger] t[i]).leader_id != (#[trigger] t[j]).leader_id by {
            assert(s[i].leader_id != s[j].leader_id);
        }
    }
    assert(s[k - 1].index < s[k].index);
    assert(t[k - 1] == s[k - 1]);
    assert forall|i: int| i <= s.last().index implies #[trigger] ids_at(t, i) == ids_at(s, i) by {
        if s[0].index <= i {
            lemma_cover(s, i);
            let c = cover(s, i);
            if c < k { assert(t[c] == s[c]); if c + 1 < k { assert(t[c + 1] == s[c + 1]); } lemma_cover_is(t, i, c); }
            else { lemma_cover_is(t, i, k - 1); }
        }
    }
    assert forall|i: int| s.last().index < i < n.index implies #[trigger] ids_at(t, i) == Some(LogId { leader_id: s.last().leader_id, index: i as u64 }) by {
        assert(s[0].index < s.last().index);
        lemma_cover_is(t, i, k - 1);
    }
}
pub broadcast group group_ids { lemma_ids_first, lemma_cover_is, lemma_ids_push, lemma_ids_replace, lemma_ids_take, lemma_ids_skip, lemma_ids_bump }
pub open spec fn first_log(s: Seq<LogId>) -> Option<LogId> { if s.len() == 0 { None } else { Some(s[0]) } }
pub open spec fn last_log(s: Seq<LogId>) -> Option<LogId> { if s.len() == 0 { None } else { Some(s.last()) } }
pub proof fn lemma_ids_key(s: Seq<LogId>, k: int)
    requires ids_wf(s), 0 <= k < s.len(),
    ensures ids_at(s, s[k].index as int) == Some(s[k]),
{
    lemma_cover_is(s, s[k].index as int, k);
    if k > 0 { assert(s[0].index < s[k].index); }
    if k < s.len() - 1 { assert(s[k].index < s.last().index); }
}
/// Truncating the key list.
pub broadcast proof fn lemma_ids_take(s: Seq<LogId>, k: int)
    requires ids_wf(s), 0 <= k <= s.len(),
    ensures ids_wf(#[trigger] s.subrange(0, k)),
        k > 0 ==> s.subrange(0, k)[0] == s[0] && s.subrange(0, k).last() == s[k - 1],
        forall|i: int| k > 0 && i <= s[k - 1].index ==> #[trigger] ids_at(s.subrange(0, k), i) == ids_at(s, i),
        forall|i: int| k > 0 && s[k - 1].index < i && (k < s.len() ==> i < s[k].index) && i <= s.last().index
            ==> #[trigger] ids_at(s, i) == Some(LogId { leader_id: s[k - 1].leader_id, index: i as u64 }),
        1 < k < s.len() ==> s[k - 1].leader_id != s[k - 2].leader_id,
        k > 0 ==> ids_at(s, s[k - 1].index as int) == Some(s[k - 1]),
{
    if k > 0 { lemma_ids_key(s, k - 1); }
    let t = s.subrange(0, k);
    assert(ids_wf(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by { assert(s[i].index < s[j].index); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && j < t.len() - 1 implies (#[trigger] t[i]).leader_id != (#[trigger] t[j]).leader_id by { assert(s[i].leader_id != s[j].leader_id); }
    }
    if k > 0 {
        assert(s[k - 1].index <= s.last().index);
        assert forall|i: int| i <= s[k - 1].index implies #[trigger] ids_at(t, i) == ids_at(s, i) by {
            if s[0].index <= i {
                lemma_cover(s, i);
                let c = cover(s, i);
                if c >= k { }
                assert(t[c] == s[c]);
                if c + 1 < k { assert(t[c + 1] == s[c + 1]); }
                lemma_cover_is(t, i, c);
            }
        }
        assert forall|i: int| s[k - 1].index < i && (k < s.len() ==> i < s[k].index) && i <= s.last().index
            implies #[trigger] ids_at(s, i) == Some(LogId { leader_id: s[k - 1].leader_id, index: i as u64 }) by {
            assert(s[0].index <= s[k - 1].index);
            lemma_cover_is(s, i, k - 1);
        }
    }
    if 1 < k < s.len() { assert(s[k - 2].leader_id != s[k - 1].leader_id); }
}
/// Dropping the front of the key list.
pub broadcast proof fn lemma_ids_skip(s: Seq<LogId>, k: int)
    requires ids_wf(s), 0 <= k < s.len(),
    ensures ids_wf(#[trigger] s.subrange(k, s.len() as int)),
        s.subrange(k, s.len() as int)[0] == s[k],
        s.subrange(k, s.len() as int).last() == s.last(),
        ids_at(s, s[k].index as int) == Some(s[k]),
        forall|i: int| s[k].index <= i ==> #[trigger] ids_at(s.subrange(k, s.len() as int), i) == ids_at(s, i),
{
    lemma_ids_key(s, k);
    let t = s.subrange(k, s.len() as int);
    assert(ids_wf(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by { assert(s[k + i].index < s[k + j].index); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && j < t.len() - 1 implies (#[trigger] t[i]).leader_id != (#[trigger] t[j]).leader_id by { assert(s[k + i].leader_id != s[k + j].leader_id); }
    }
    assert forall|i: int| s[k].index <= i implies #[trigger] ids_at(t, i) == ids_at(s, i) by {
        assert(s[0].index <= s[k].index);
        lemma_cover(s, i);
        let c = cover(s, i);
        assert(c >= k);
        assert(t[c - k] == s[c]);
        if c + 1 < s.len() { assert(t[c - k + 1] == s[c + 1]); }
        lemma_cover_is(t, i, c - k);
    }
}
/// Moving the first key log id forward, without reaching the second.
pub broadcast proof fn lemma_ids_bump(s: Seq<LogId>, n: LogId)
    requires ids_wf(s), s.len() > 0, n.leader_id == s[0].leader_id, s[0].index <= n.index, s.len() >= 2 ==> n.index < s[1].index,
    ensures ids_wf(#[trigger] s.update(0, n)),
        s.update(0, n)[0] == n,
        n.index <= s.last().index ==> ids_at(s, n.index as int) == Some(n),
        s.len() >= 2 ==> s.update(0, n).last() == s.last(),
        forall|i: int| s.len() >= 2 && n.index <= i ==> #[trigger] ids_at(s.update(0, n), i) == ids_at(s, i),
{
    lemma_cover_is(s, n.index as int, 0);
    let t = s.update(0, n);
    assert(ids_wf(t)) by {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by {
            assert(s[i].index < s[j].index);
            if i == 0 && j > 1 { assert(s[1].index < s[j].index); }
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() && j < t.len() - 1 implies (#[trigger] t[i]).leader_id != (#[trigger] t[j]).leader_id by { assert(s[i].leader_id != s[j].leader_id); }
    }
    if s.len() >= 2 {
        assert forall|i: int| n.index <= i implies #[trigger] ids_at(t, i) == ids_at(s, i) by {
            lemma_cover(s, i);
            let c = cover(s, i);
            if c > 0 { assert(t[c] == s[c]); }
            if c + 1 < s.len() { assert(t[c + 1] == s[c + 1]); }
            lemma_cover_is(t, i, c);
        }
    }
}
pub open spec fn ids_singleton_at(n: LogId, i: int) -> Option<LogId> { if i == n.index { Some(n) } else { None } }
pub proof fn lemma_ids_singleton(n: LogId)
    ensures ids_wf(seq![n]), forall|i: int| #[trigger] ids_at(seq![n], i) == ids_singleton_at(n, i),
{
    assert forall|i: int| #[trigger] ids_at(seq![n], i) == ids_singleton_at(n, i) by {
        if i == n.index { lemma_cover_is(seq![n], i, 0); }
    }
}
/// Two lists that agree on a run of indexes.
pub open spec fn ids_agree(s: Seq<LogId>, t: Seq<LogId>, lo: int, hi: int) -> bool {
    forall|i: int| lo <= i < hi ==> #[trigger] ids_at(s, i) == ids_at(t, i)
}

/// A list with one element.
pub broadcast proof fn lemma_ids_first(s: Seq<LogId>, i: int)
    requires s.len() == 1,
    ensures #[trigger] ids_at(s, i) == ids_singleton_at(s[0], i),
{
}

pub broadcast proof fn lemma_ids_head(s: Seq<LogId>, i: int)
    requires ids_wf(s), s.len() > 0, i == s[0].index,
    ensures #[trigger] ids_at(s, i) == Some(s[0]),
{
    lemma_ids_key(s, 0);
}
