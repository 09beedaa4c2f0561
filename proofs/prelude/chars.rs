// ---- assumed contracts on std: char iteration -------------------------------------------
// `Chars` shadows core::str::Chars: same operations, bodies delegate to std, contracts are the
// documented behaviour (view = the characters still to be yielded, in order).
#[verifier::external_body]
pub struct Chars<'a> { it: core::str::Chars<'a> }
impl<'a> View for Chars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Chars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.it.next() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { self.it.next_back() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len(),
    { self.it.count() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Chars<'a>)
        ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }),
    { unimplemented!() }
}
pub trait VpStr {
    spec fn vp_view(&self) -> Seq<char>;
    fn vp_chars<'a>(&'a self) -> (r: Chars<'a>) ensures r@ == self.vp_view();
}
impl VpStr for str {
    open spec fn vp_view(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vp_chars<'a>(&'a self) -> (r: Chars<'a>) { Chars { it: self.chars() } }
}
pub open spec fn is_dec_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dec_val(c: char) -> int { c as int - '0' as int }
pub assume_specification [ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    requires radix == 10,
    ensures r == (if is_dec_digit(c) { Some(dec_val(c) as u32) } else { None::<u32> });
pub assume_specification [ char::to_ascii_uppercase ](c: &char) -> (r: char)
    ensures r == (if 'a' <= *c && *c <= 'z' { (*c as u32 - 32) as char } else { *c });
