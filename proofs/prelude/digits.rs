// ---- specification vocabulary: the decimal digits of a text, in order ---------------------
pub open spec fn digits(s: Seq<char>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { seq![] }
    else {
        let r = digits(s.drop_last());
        if is_dec_digit(s.last()) { r.push(dec_val(s.last())) } else { r }
    }
}
pub proof fn lemma_digits_range(s: Seq<char>)
    ensures forall|i: int| 0 <= i < digits(s).len() ==> 0 <= #[trigger] digits(s)[i] <= 9,
            digits(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_digits_range(s.drop_last()); } }
pub proof fn lemma_digits_first(s: Seq<char>)
    requires s.len() > 0,
    ensures digits(s) == (if is_dec_digit(s[0]) { seq![dec_val(s[0])] + digits(s.drop_first()) } else { digits(s.drop_first()) }),
    decreases s.len(),
{
    if s.len() == 1 {
        assert(s.drop_first() =~= seq![]);
        assert(s.drop_last() =~= seq![]);
        assert(digits(s.drop_last()) =~= seq![]);
        assert(digits(s.drop_first()) =~= seq![]);
        assert(digits(s) =~= (if is_dec_digit(s[0]) { seq![dec_val(s[0])] + digits(s.drop_first()) } else { digits(s.drop_first()) }));
    } else {
        lemma_digits_first(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
        assert(digits(s) =~= (if is_dec_digit(s[0]) { seq![dec_val(s[0])] + digits(s.drop_first()) } else { digits(s.drop_first()) }));
    }
}

/*@extract
file = "sds/src/secondary_validation/mod.rs"
item = "get_previous_digit"
ret = "r"
contract = '''
    ensures
        r is None ==> digits(old(chars)@).len() == 0 && final(chars)@.len() == 0,
        r is Some ==> digits(old(chars)@) == digits(final(chars)@).push(r->0 as int) && 0 <= r->0 <= 9,
        final(chars)@.len() <= old(chars)@.len(),
        r is Some ==> final(chars)@.len() < old(chars)@.len(),
'''
[[loop]]
n = 0
spec = '''
    invariant digits(old(chars)@) == digits(chars@), chars@.len() <= old(chars)@.len(),
    ensures digits(old(chars)@).len() == 0 && chars@.len() == 0,
    decreases chars@.len(),
'''
@*/

/*@extract
file = "sds/src/secondary_validation/mod.rs"
item = "get_next_digit"
ret = "r"
contract = '''
    ensures
        r is None ==> digits(old(chars)@).len() == 0 && final(chars)@.len() == 0,
        r is Some ==> digits(old(chars)@) == seq![r->0 as int] + digits(final(chars)@) && 0 <= r->0 <= 9,
        final(chars)@.len() <= old(chars)@.len(),
        r is Some ==> final(chars)@.len() < old(chars)@.len(),
'''
[[rewrite]]
from = "for $c in chars.by_ref()"
to = "while let Some($c) = chars.next()"
[[loop]]
n = 0
before = "proof { if chars@.len() > 0 { lemma_digits_first(chars@); } }"
spec = '''
    invariant digits(old(chars)@) == digits(chars@), chars@.len() <= old(chars)@.len(),
        chars@.len() > 0 ==> digits(chars@) == (if is_dec_digit(chars@[0]) { seq![dec_val(chars@[0])] + digits(chars@.drop_first()) } else { digits(chars@.drop_first()) }),
    ensures digits(old(chars)@).len() == 0 && chars@.len() == 0,
    decreases chars@.len(),
'''
end = "proof { if chars@.len() > 0 { lemma_digits_first(chars@); } }"
@*/
