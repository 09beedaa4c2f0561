#[verifier::external_body]
pub struct EnumChars<'a> { it: core::iter::Enumerate<core::str::Chars<'a>> }
impl<'a> View for EnumChars<'a> { type V = (int, Seq<char>); uninterp spec fn view(&self) -> (int, Seq<char>); }
impl<'a> EnumChars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            old(self)@.1.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.1.len() > 0 ==> r == Some((old(self)@.0 as usize, old(self)@.1[0]))
                && final(self)@ == (old(self)@.0 + 1, old(self)@.1.drop_first()),
    { self.it.next() }
}
impl<'a> Chars<'a> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: EnumChars<'a>) ensures r@ == (0int, self@) { EnumChars { it: self.it.enumerate() } }
}
