// ---- text model ------------------------------------------------------------------------------
// str, String and Cow<str> are represented by one type whose view is the UTF-8 byte sequence.
// A boundary is what str::is_char_boundary documents: start, end, or a byte that is not a
// continuation byte. Operations carry the documented std contracts (panics = preconditions).
#[verifier::external_body]
pub struct VpText { s: String }
impl View for VpText { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn cont(b: u8) -> bool { 0x80 <= b && b < 0xC0 }
pub open spec fn bdry(t: Seq<u8>, i: int) -> bool { i == 0 || i == t.len() || (0 < i < t.len() && !cont(t[i])) }
// the only consequence of "valid UTF-8" that is used: a text does not start inside a character
pub open spec fn text_ok(t: Seq<u8>) -> bool { t.len() > 0 ==> !cont(t[0]) }
// number of characters that start in the first n bytes
pub open spec fn nchars(t: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { nchars(t, n - 1) + (if cont(t[n - 1]) { 0int } else { 1int }) } }
// byte offset p is where character number k (from 0) starts
pub open spec fn char_at(t: Seq<u8>, p: int, k: int) -> bool { 0 <= p < t.len() && !cont(t[p]) && nchars(t, p) == k }
pub open spec fn splice(t: Seq<u8>, a: int, b: int, s: Seq<u8>) -> Seq<u8> { t.subrange(0, a) + s + t.subrange(b, t.len() as int) }
impl VpText {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { self.s.len() }
    #[verifier::external_body]
    pub fn vp_slice(&self, a: usize, b: usize) -> (r: &VpText)
        requires a <= b <= self@.len(), bdry(self@, a as int), bdry(self@, b as int),
        ensures r@ == self@.subrange(a as int, b as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpText) ensures r@ == self@ { VpText { s: self.s.clone() } }
    #[verifier::external_body]
    pub fn vp_replace_range(&mut self, a: usize, b: usize, with: &VpText)
        requires a <= b <= old(self)@.len(), bdry(old(self)@, a as int), bdry(old(self)@, b as int),
        ensures final(self)@ == splice(old(self)@, a as int, b as int, with@),
    { self.s.replace_range(a..b, &with.s) }
    #[verifier::external_body]
    pub fn vp_char_count(&self) -> (r: usize) ensures r == nchars(self@, self@.len() as int) { self.s.chars().count() }
    // char_indices().nth(k).unwrap().0
    #[verifier::external_body]
    pub fn vp_char_offset(&self, k: usize) -> (r: usize)
        requires k < nchars(self@, self@.len() as int),
        ensures char_at(self@, r as int, k as int),
    { self.s.char_indices().nth(k).unwrap().0 }
    // char_indices().nth_back(k).unwrap().0
    #[verifier::external_body]
    pub fn vp_char_offset_back(&self, k: usize) -> (r: usize)
        requires k < nchars(self@, self@.len() as int),
        ensures char_at(self@, r as int, nchars(self@, self@.len() as int) - 1 - k),
    { self.s.char_indices().nth_back(k).unwrap().0 }
    #[verifier::external_body]
    pub fn from(c: char) -> (r: VpText) requires (c as u32) < 0x80, ensures r@ == seq![c as u8] { VpText { s: String::from(c) } }
    #[verifier::external_body]
    pub fn repeat(&self, n: usize) -> (r: VpText) ensures r@ == rep(self@, n as nat), { VpText { s: self.s.repeat(n) } }
    #[verifier::external_body]
    pub fn vp_same(&self) -> (r: VpText) ensures r@ == self@ { VpText { s: self.s.clone() } }
}
pub open spec fn rep(s: Seq<u8>, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { rep(s, (n - 1) as nat) + s } }
