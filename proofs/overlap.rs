use vstd::prelude::*;
verus! {
use vstd::multiset::*;
use vstd::seq_lib::*;
//@include prelude/ordering.rs
//@include prelude/match_action_types.rs
impl MatchAction {
/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction::is_mutating"
ret = "r"
contract = "ensures r == mutating(*self),"
@*/
}

// `Box<dyn CompiledRuleDyn>` is opaque here: a rule has one fixed match action.
#[verifier::external_body]
pub struct VpRule { x: usize }
impl VpRule {
    pub uninterp spec fn action(&self) -> MatchAction;
    #[verifier::external_body]
    pub fn get_match_action(&self) -> (r: &MatchAction) ensures *r == self.action() { unimplemented!() }
}
pub trait Encoding: Sized { type Index: Sized; type IndexShift: Sized; }
/*@extract
file = "sds/src/rule_match.rs"
item = "InternalRuleMatch"
kind = "struct"
@*/
pub open spec fn wf<E: Encoding>(m: InternalRuleMatch<E>) -> bool { m.utf8_start < m.utf8_end }
impl<E: Encoding> InternalRuleMatch<E> {
/*@extract
file = "sds/src/rule_match.rs"
item = "InternalRuleMatch::len"
ret = "r"
contract = "requires wf(*self), ensures r == self.utf8_end - self.utf8_start,"
@*/
}
pub struct Scanner { pub rules: Vec<VpRule> }

pub open spec fn mut_of<E: Encoding>(s: Scanner, m: InternalRuleMatch<E>) -> bool { mutating(s.rules@[m.rule_index as int].action()) }
// priority order of the documentation: mutating first, then earlier start, then longer, then rule order
pub open spec fn prio<E: Encoding>(s: Scanner, a: InternalRuleMatch<E>, b: InternalRuleMatch<E>) -> Ordering {
    ord_then(ord_then(ord_then(
        ord_rev(int_cmp(b2i(mut_of(s, a)), b2i(mut_of(s, b)))),
        int_cmp(a.utf8_start as int, b.utf8_start as int)),
        ord_rev(int_cmp(a.utf8_end - a.utf8_start, b.utf8_end - b.utf8_start))),
        int_cmp(a.rule_index as int, b.rule_index as int))
}
pub open spec fn rprio<E: Encoding>(s: Scanner) -> spec_fn(InternalRuleMatch<E>, InternalRuleMatch<E>) -> Ordering {
    |a: InternalRuleMatch<E>, b: InternalRuleMatch<E>| ord_rev(prio(s, a, b))
}
pub open spec fn overlap<E: Encoding>(a: InternalRuleMatch<E>, b: InternalRuleMatch<E>) -> bool {
    a.utf8_start < b.utf8_end && b.utf8_start < a.utf8_end
}
pub open spec fn disjoint_sorted<E: Encoding>(s: Seq<InternalRuleMatch<E>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).utf8_end <= (#[trigger] s[j]).utf8_start
}
// `m` is accounted for by `kept`: it overlaps a kept match of no lower priority
pub open spec fn beaten<E: Encoding>(s: Scanner, m: InternalRuleMatch<E>, kept: Seq<InternalRuleMatch<E>>) -> bool {
    exists|k: int| 0 <= k < kept.len() && overlap(#[trigger] kept[k], m) && prio(s, kept[k], m) != Ordering::Greater
}
pub open spec fn resolved<E: Encoding>(s: Scanner, input: Seq<InternalRuleMatch<E>>, kept: Seq<InternalRuleMatch<E>>) -> bool {
    &&& disjoint_sorted(kept)
    &&& exists|dropped: Seq<InternalRuleMatch<E>>| #[trigger] kept.to_multiset().add(dropped.to_multiset()) == input.to_multiset()
            && forall|i: int| 0 <= i < dropped.len() ==> beaten(s, #[trigger] dropped[i], kept)
}

proof fn lemma_rprio_total<E: Encoding>(s: Scanner)
    ensures total_preorder(rprio::<E>(s)),
{ }

proof fn lemma_final<E: Encoding>(s: Scanner, kept: Seq<InternalRuleMatch<E>>, fin: Seq<InternalRuleMatch<E>>, dropped: Seq<InternalRuleMatch<E>>)
    requires
        kept.to_multiset() == fin.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < kept.len() ==> !overlap(#[trigger] kept[i], #[trigger] kept[j]),
        forall|k: int| 0 <= k < kept.len() ==> wf(#[trigger] kept[k]),
        forall|i: int, j: int| 0 <= i < j < fin.len() ==> (#[trigger] fin[i]).utf8_start <= (#[trigger] fin[j]).utf8_start,
        forall|i: int| 0 <= i < dropped.len() ==> beaten(s, #[trigger] dropped[i], kept),
    ensures
        disjoint_sorted(fin),
        forall|i: int| 0 <= i < dropped.len() ==> beaten(s, #[trigger] dropped[i], fin),
{
    assert forall|i: int, j: int| 0 <= i < j < fin.len() implies (#[trigger] fin[i]).utf8_end <= (#[trigger] fin[j]).utf8_start by {
        lemma_in_perm(fin, kept, i);
        lemma_in_perm(fin, kept, j);
        let a = choose|a: int| 0 <= a < kept.len() && kept[a] == fin[i];
        let b = choose|b: int| 0 <= b < kept.len() && kept[b] == fin[j];
        if a == b {
            lemma_count2(fin, i, j);
            lemma_two(kept, fin[i]);
            let (c, d) = choose|c: int, d: int| 0 <= c < d < kept.len() && #[trigger] kept[c] == fin[i] && #[trigger] kept[d] == fin[i];
            assert(!overlap(kept[c], kept[d]));
            assert(wf(kept[c]));
        } else if a < b { assert(!overlap(kept[a], kept[b])); assert(wf(kept[a]) && wf(kept[b])); }
        else { assert(!overlap(kept[b], kept[a])); assert(wf(kept[a]) && wf(kept[b])); }
    }
    assert forall|i: int| 0 <= i < dropped.len() implies beaten(s, #[trigger] dropped[i], fin) by {
        assert(beaten(s, dropped[i], kept));
        let k = choose|k: int| 0 <= k < kept.len() && overlap(#[trigger] kept[k], dropped[i]) && prio(s, kept[k], dropped[i]) != Ordering::Greater;
        lemma_in_perm(kept, fin, k);
        let j = choose|j: int| 0 <= j < fin.len() && fin[j] == kept[k];
        assert(overlap(fin[j], dropped[i]));
    }
}
pub open spec fn all_mut<E: Encoding>(s: Scanner, q: Seq<InternalRuleMatch<E>>) -> bool { forall|k: int| 0 <= k < q.len() ==> mut_of(s, #[trigger] q[k]) }

impl Scanner {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner::sort_and_remove_overlapping_rules"
contract = '''
    requires
        forall|i: int| 0 <= i < old(rule_matches)@.len() ==> wf(#[trigger] old(rule_matches)@[i]) && old(rule_matches)@[i].rule_index < self.rules@.len(),
    ensures
        resolved(*self, old(rule_matches)@, final(rule_matches)@),
'''
start = '''
let ghost input = rule_matches@;
proof { lemma_rprio_total::<E>(*self); }
'''
[[rewrite]]
from = "rule_matches.sort_unstable_by(|a, b| {"
to = '''vp_sort_unstable_by(rule_matches, |a: &InternalRuleMatch<E>, b: &InternalRuleMatch<E>| -> (vp_o: Ordering)
    requires wf(*a), wf(*b), a.rule_index < self.rules@.len(), b.rule_index < self.rules@.len(),
    ensures vp_o == ord_rev(prio(*self, *a, *b)),
{'''
[[rewrite]]
from = '''ord.reverse()
        });'''
to = '''ord.reverse()
        }, Ghost(rprio::<E>(*self)));'''
[[rewrite]]
from = ".cmp("
to = ".vp_cmp("
all = true
[[rewrite]]
from = "for retained_rule in &retained_rules"
to = "for vp_j in 0..retained_rules.len()"
[[rewrite]]
from = "retained_rules.sort_unstable_by_key(|rule_match| rule_match.utf8_start)"
to = "vp_sort_unstable_by_key(&mut retained_rules, |rule_match: &InternalRuleMatch<E>| -> (vp_k: usize) ensures vp_k == rule_match.utf8_start { rule_match.utf8_start })"
[[loop]]
n = 0
kind = "while"
before = '''
let ghost sorted = rule_matches@;
let ghost mut dropped: Seq<InternalRuleMatch<E>> = seq![];
let ghost mut src: Seq<int> = seq![];
proof {
    assert forall|i: int| 0 <= i < sorted.len() implies wf(#[trigger] sorted[i]) && sorted[i].rule_index < self.rules@.len() by { lemma_in_perm(sorted, input, i); }
    broadcast use group_to_multiset_ensures;
    assert(retained_rules@.to_multiset().add(dropped.to_multiset()).add(rule_matches@.to_multiset()) =~= input.to_multiset());
}
'''
spec = '''
    invariant
        rule_matches@.len() <= sorted.len(),
        rule_matches@ =~= sorted.take(rule_matches@.len() as int),
        sorted_by(sorted, rprio::<E>(*self)),
        forall|i: int| 0 <= i < sorted.len() ==> wf(#[trigger] sorted[i]) && sorted[i].rule_index < self.rules@.len(),
        src.len() == retained_rules@.len(),
        forall|k: int| 0 <= k < src.len() ==> rule_matches@.len() <= #[trigger] src[k] < sorted.len() && retained_rules@[k] == sorted[src[k]],
        forall|k: int| 0 <= k < retained_rules@.len() ==> wf(#[trigger] retained_rules@[k]),
        // while only mutating matches have been seen they are disjoint and in order
        all_mut(*self, retained_rules@) ==> disjoint_sorted(retained_rules@),
        forall|i: int, j: int| 0 <= i < j < retained_rules@.len() ==> !overlap(#[trigger] retained_rules@[i], #[trigger] retained_rules@[j]),
        retained_rules@.to_multiset().add(dropped.to_multiset()).add(rule_matches@.to_multiset()) =~= input.to_multiset(),
        forall|i: int| 0 <= i < dropped.len() ==> beaten(*self, #[trigger] dropped[i], retained_rules@),
    ensures rule_matches@.len() == 0,
    decreases rule_matches@.len(),
'''
start = '''
let ghost n = rule_matches@.len() as int;
let ghost kept0 = retained_rules@;
let ghost dropped0 = dropped;
proof {
    broadcast use group_to_multiset_ensures;
    assert(sorted[n] == rule_match);
    assert(sorted.take(n + 1) =~= rule_matches@.push(rule_match));
    assert(sorted.take(n + 1).to_multiset() =~= rule_matches@.to_multiset().insert(rule_match));
    // every kept match comes earlier in the priority order
    assert forall|k: int| 0 <= k < kept0.len() implies prio(*self, #[trigger] kept0[k], rule_match) != Ordering::Greater by {
        let i = src[k];
        assert(rprio::<E>(*self)(sorted[n], sorted[i]) != Ordering::Greater);
        assert(prio(*self, sorted[n], sorted[i]) == ord_rev(prio(*self, sorted[i], sorted[n])));
    }
    if mut_of(*self, rule_match) {
        assert forall|k: int| 0 <= k < kept0.len() implies mut_of(*self, #[trigger] kept0[k]) && kept0[k].utf8_start <= rule_match.utf8_start by {
            assert(prio(*self, kept0[k], rule_match) != Ordering::Greater);
        }
        if kept0.len() > 0 {
            let last = kept0.last();
            assert(kept0[kept0.len() - 1] == last);
            assert(all_mut(*self, kept0));
        }
    }
    dropped = dropped.push(rule_match);
    assert(kept0.to_multiset().add(dropped.to_multiset()).add(rule_matches@.to_multiset()) =~= input.to_multiset());
    assert forall|i: int| 0 <= i < dropped0.len() implies beaten(*self, #[trigger] dropped[i], retained_rules@) by { assert(dropped[i] == dropped0[i]); }
}
'''
after = '''
proof {
    broadcast use group_to_multiset_ensures;
    assert(rule_matches@ =~= seq![]);
    assert(rule_matches@.to_multiset() =~= Multiset::empty());
    assert(retained_rules@.to_multiset().add(dropped.to_multiset()) =~= input.to_multiset());
}
let ghost kept = retained_rules@;
'''
[[before]]
pattern = "retained_rules.push(rule_match);"
text = '''
proof {
    dropped = dropped0;
    src = src.push(n);
}
'''
[[after]]
pattern = "retained_rules.push(rule_match);"
text = '''
proof {
    broadcast use group_to_multiset_ensures;
    assert(retained_rules@ =~= kept0.push(rule_match));
    assert(retained_rules@.to_multiset() =~= kept0.to_multiset().insert(rule_match));
    assert(retained_rules@.to_multiset().add(dropped.to_multiset()).add(rule_matches@.to_multiset()) =~= input.to_multiset());
    assert forall|i: int| 0 <= i < dropped.len() implies beaten(*self, #[trigger] dropped[i], retained_rules@) by {
        let k = choose|k: int| 0 <= k < kept0.len() && overlap(#[trigger] kept0[k], dropped[i]) && prio(*self, kept0[k], dropped[i]) != Ordering::Greater;
        assert(beaten(*self, dropped0[i], kept0));
        assert(retained_rules@[k] == kept0[k]);
    }
    assert forall|k: int| 0 <= k < kept0.len() implies !overlap(#[trigger] kept0[k], rule_match) by { }
    if all_mut(*self, retained_rules@) {
        assert(retained_rules@[kept0.len() as int] == rule_match);
        assert(mut_of(*self, rule_match));
        assert forall|k: int| 0 <= k < kept0.len() implies mut_of(*self, #[trigger] kept0[k]) by { assert(retained_rules@[k] == kept0[k]); }
        assert(all_mut(*self, kept0));
        assert(disjoint_sorted(kept0));
        assert forall|i: int, j: int| 0 <= i < j < retained_rules@.len() implies (#[trigger] retained_rules@[i]).utf8_end <= (#[trigger] retained_rules@[j]).utf8_start by {
            if j == kept0.len() {
                assert(kept0[i].utf8_end <= kept0.last().utf8_end) by { if i < kept0.len() - 1 { assert(kept0[i].utf8_end <= kept0[kept0.len() - 1].utf8_start); assert(wf(kept0[kept0.len() - 1])); } }
            } else { assert(retained_rules@[i] == kept0[i] && retained_rules@[j] == kept0[j]); }
        }
    }
}
'''
[[before]]
pattern = "*rule_matches = retained_rules;"
text = "proof { lemma_final(*self, kept, retained_rules@, dropped); }"
[[loop]]
n = 1
kind = "for"
before = "#[verifier::loop_isolation(false)]"
spec = '''
    invariant
        retained_rules@ == kept0,
        forall|k: int| 0 <= k < vp_j ==> !overlap(#[trigger] retained_rules@[k], rule_match),
'''
start = "let retained_rule = &retained_rules[vp_j];"
@*/
}
} // verus!
fn main() {}
