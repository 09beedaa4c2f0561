// ---- assumed: UTF-8 lengths (Unicode standard, and the documentation of str::len) ----------
pub open spec fn c_len(c: char) -> nat {
    let v = c as u32;
    if v < 0x80 { 1 } else if v < 0x800 { 2 } else if v < 0x10000 { 3 } else { 4 }
}
pub open spec fn u8len(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { u8len(s.drop_last()) + c_len(s.last()) } }
#[verifier::external_body]
pub fn vp_str_len(s: &str) -> (r: usize) ensures r == u8len(s@) { s.len() }
pub proof fn lemma_u8len_ge(s: Seq<char>)
    ensures u8len(s) >= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_u8len_ge(s.drop_last()); } }
pub proof fn lemma_u8len_add(a: Seq<char>, b: Seq<char>)
    ensures u8len(a + b) == u8len(a) + u8len(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_u8len_add(a, b.drop_last());
    }
}
pub proof fn lemma_u8len_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80,
    ensures u8len(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_u8len_ascii(s.drop_last()); } }
