// ---- assumed contracts on std: &str as a sequence of characters, byte offsets by UTF-8 length -----
// (needs prelude/chars.rs and prelude/utf8len.rs)
// the pieces of s between the separators
pub open spec fn pieces(s: Seq<char>, sep: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![seq![]] }
    else if s.last() == sep { pieces(s.drop_last(), sep).push(seq![]) }
    else { let p = pieces(s.drop_last(), sep); p.drop_last().push(p.last().push(s.last())) }
}
pub proof fn lemma_pieces_nonempty(s: Seq<char>, sep: char)
    ensures pieces(s, sep).len() >= 1,
    decreases s.len(),
{ if s.len() > 0 { lemma_pieces_nonempty(s.drop_last(), sep); } }
// index of the last separator, -1 if there is none
pub open spec fn last_sep(s: Seq<char>, sep: char) -> int
    decreases s.len(),
{ if s.len() == 0 { -1 } else if s.last() == sep { s.len() - 1 } else { last_sep(s.drop_last(), sep) } }
pub proof fn lemma_last_piece(s: Seq<char>, sep: char)
    ensures
        -1 <= last_sep(s, sep) < s.len(),
        last_sep(s, sep) >= 0 ==> s[last_sep(s, sep)] == sep,
        forall|i: int| last_sep(s, sep) < i < s.len() ==> s[i] != sep,
        pieces(s, sep).len() >= 1,
        pieces(s, sep).len() == 1 <==> last_sep(s, sep) == -1,
        pieces(s, sep).last() == s.skip(last_sep(s, sep) + 1),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_last_piece(d, sep);
        assert forall|i: int| last_sep(s, sep) < i < s.len() implies s[i] != sep by { if i < d.len() { assert(d[i] == s[i]); } }
        if s.last() == sep { assert(s.skip(s.len() as int) =~= seq![]); }
        else { assert(s.drop_last().skip(last_sep(s, sep) + 1).push(s.last()) =~= s.skip(last_sep(s, sep) + 1)); }
    } else { assert(s.skip(0) =~= seq![]); }
}
#[verifier::external_body]
pub fn vp_split<'a>(s: &'a str, sep: char) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(s@, sep).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, sep)[i],
{ s.split(sep).collect() }
#[verifier::external_body]
pub fn vp_last<'a>(v: &Vec<&'a str>) -> (r: &'a str)
    requires v@.len() > 0,
    ensures r@ == v@.last()@,
{ v.last().unwrap() }
impl<'a> Chars<'a> {
    #[verifier::external_body]
    pub fn all<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
}
// byte offset n of s is where character number k starts
pub open spec fn at_byte(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && u8len(s.take(k)) == n }
// s[..n]
#[verifier::external_body]
pub fn vp_to<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|k: int| at_byte(s@, n as int, k),
    ensures forall|k: int| #[trigger] at_byte(s@, n as int, k) ==> r@ == s@.take(k),
{ &s[..n] }
// s[n..]
#[verifier::external_body]
pub fn vp_from<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|k: int| at_byte(s@, n as int, k),
    ensures forall|k: int| #[trigger] at_byte(s@, n as int, k) ==> r@ == s@.skip(k),
{ &s[n..] }
#[verifier::external_body]
pub fn vp_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub assume_specification [ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == alnum(*c);
