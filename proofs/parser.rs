use vstd::prelude::*;
// What a nom 7 combinator applied to an input does, written out. Parser expressions keep their text: `vp_run!(input; P)` is `P(input)`.
macro_rules! vec { () => { Vec::new() }; ($x:expr) => { vp_one($x) }; }
macro_rules! vp_run {
    ($i:expr; map($f:ident $a:tt, |$p:ident : $t:ty| $e:expr $(,)?)) => { match vp_run!($i; $f $a) { Ok((j, $p)) => Ok((j, $e)), Err(e) => Err(e) } };
    ($i:expr; map($f:ident $a:tt, |$p:pat_param| $e:expr $(,)?)) => { match vp_run!($i; $f $a) { Ok((j, $p)) => Ok((j, $e)), Err(e) => Err(e) } };
    ($i:expr; map($f:ident $a:tt, $c:path $(,)?)) => { match vp_run!($i; $f $a) { Ok((j, x)) => Ok((j, $c(x))), Err(e) => Err(e) } };
    ($i:expr; map($f:ident, |$p:pat_param| $e:expr $(,)?)) => { match vp_run!($i; $f) { Ok((j, $p)) => Ok((j, $e)), Err(e) => Err(e) } };
    ($i:expr; map($f:ident, $c:path $(,)?)) => { match vp_run!($i; $f) { Ok((j, x)) => Ok((j, $c(x))), Err(e) => Err(e) } };
    ($i:expr; alt(($($x:tt)*))) => { vp_run!(@alt $i; $($x)*) };
    (@alt $i:expr; $f:ident $(,)?) => { vp_run!($i; $f) };
    (@alt $i:expr; $f:ident , $($r:tt)+) => { match vp_run!($i; $f) { Err(nom::Err::Error(_)) => vp_run!(@alt $i; $($r)+), x => x } };
    (@alt $i:expr; $f:ident $a:tt $(,)?) => { vp_run!($i; $f $a) };
    (@alt $i:expr; $f:ident $a:tt , $($r:tt)+) => { match vp_run!($i; $f $a) { Err(nom::Err::Error(_)) => vp_run!(@alt $i; $($r)+), x => x } };
    ($i:expr; opt($($x:tt)*)) => { match vp_run!($i; $($x)*) { Ok((j, x)) => Ok((j, Some(x))), Err(nom::Err::Error(_)) => Ok(($i, None)), Err(e) => Err(e) } };
    ($i:expr; not($($x:tt)*)) => { match vp_run!($i; $($x)*) { Ok(_) => Err(nom::Err::Error(ParseError::InvalidSyntax)), Err(nom::Err::Error(_)) => Ok(($i, ())), Err(e) => Err(e) } };
    ($i:expr; recognize($($x:tt)*)) => { match vp_run!($i; $($x)*) { Ok((j, _)) => Ok((j, vp_between($i, j))), Err(e) => Err(e) } };
    ($i:expr; delimited($f:ident $a:tt, $g:ident, $h:ident $b:tt $(,)?)) => { match vp_run!($i; $f $a) { Ok((j, _)) => match vp_run!(j; $g) { Ok((k, x)) => match vp_run!(k; $h $b) { Ok((l, _)) => Ok((l, x)), Err(e) => Err(e) }, Err(e) => Err(e) }, Err(e) => Err(e) } };
    ($i:expr; tuple(($($x:tt)*))) => { vp_run!(@tuple $i; []; $($x)*) };
    (@tuple $i:expr; [$($v:ident)*]; $f:ident $(,)?) => { match vp_run!($i; $f) { Ok((j, x)) => Ok((j, ($($v,)* x))), Err(e) => Err(e) } };
    (@tuple $i:expr; [$($v:ident)*]; $f:ident , $($r:tt)+) => { match vp_run!($i; $f) { Ok((j, x)) => vp_run!(@tuple j; [$($v)* x]; $($r)+), Err(e) => Err(e) } };
    (@tuple $i:expr; [$($v:ident)*]; $f:ident $a:tt $(,)?) => { match vp_run!($i; $f $a) { Ok((j, x)) => Ok((j, ($($v,)* x))), Err(e) => Err(e) } };
    (@tuple $i:expr; [$($v:ident)*]; $f:ident $a:tt , $($r:tt)+) => { match vp_run!($i; $f $a) { Ok((j, x)) => vp_run!(@tuple j; [$($v)* x]; $($r)+), Err(e) => Err(e) } };
    ($i:expr; tag($t:expr)) => { vp_tag($t, $i) };
    ($i:expr; one_of($t:expr)) => { vp_one_of($t, $i) };
    ($i:expr; none_of($t:expr)) => { vp_none_of($t, $i) };
    ($i:expr; take_until($t:expr)) => { vp_take_until($t, $i) };
    ($i:expr; literal($k:expr)) => { vp_literal($k, $i) };
    ($i:expr; many0(one_of($t:expr))) => { vp_many_of($t, $i) };
    ($i:expr; many0($f:ident)) => { vp_many0($f, $i) };
    ($i:expr; many1($f:ident)) => { vp_many1($f, $i) };
    ($i:expr; many_m_n($m:expr, $n:expr, $f:ident)) => { vp_many_m_n($m, $n, $f, $i) };
    ($i:expr; separated_list1(tag($t:expr), opt($f:ident))) => { vp_separated_opt($t, $f, $i) };
    ($i:expr; expression) => { vp_expression($i) };
    ($i:expr; $f:ident) => { $f($i) };
}
verus! {
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
global size_of usize == 8;
pub mod nom { pub enum Err<E> { Incomplete(u8), Error(E), Failure(E) } }
pub type ParseResult<'a, T> = Result<(Input<'a>, T), nom::Err<ParseError>>;
pub struct Rc; // an Rc is its content
impl Rc { pub fn new<T>(x: T) -> (r: Box<T>) ensures *r == x { Box::new(x) } }
pub fn vp_one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
// ---- the SDS syntax trees ------------------------------------------------------------------------------
/*@extract
file = "sds/src/parser/ast.rs"
item = "Ast"
kind = "enum"
[[rewrite]]
from = "Rc<Group>"
to = "Box<Group>"
@*/
#[derive(Copy, Clone)]
/*@extract
file = "sds/src/parser/ast.rs"
item = "Literal"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Group"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "CaptureGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "NonCapturingGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "NamedCapturingGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "CharacterClass"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "UnicodePropertyClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "QuantifierKind"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Quantifier"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "PerlCharacterClass"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "BracketCharacterClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "BracketCharacterClassItem"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AsciiClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AsciiClassKind"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Repetition"
kind = "struct"
[[rewrite]]
from = "Rc<Ast>"
to = "Box<Ast>"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AssertionType"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Flags"
kind = "struct"
@*/
#[derive(Copy, Clone)]
/*@extract
file = "sds/src/parser/ast.rs"
item = "Flag"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/error.rs"
item = "ParseError"
kind = "enum"
@*/
#[derive(Copy, Clone)]
/*@extract
file = "sds/src/parser/input.rs"
item = "Input"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "ASCII_LETTERS"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_ascii_letters() ensures chars(ASCII_LETTERS@) == c_letters() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_letters().contains(c) implies #[trigger] x.contains(c) by { let i: int = if 'a' <= c <= 'z' { c as int - 97 } else { c as int - 65 + 26 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_letters().contains(#[trigger] x[i]) by { } assert(chars(ASCII_LETTERS@) =~= c_letters()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "ASCII_LETTERS_WITH_UNDERSCORE"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_ascii_letters_with_underscore() ensures chars(ASCII_LETTERS_WITH_UNDERSCORE@) == c_letters_() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_letters_().contains(c) implies #[trigger] x.contains(c) by { let i: int = if 'a' <= c <= 'z' { c as int - 97 } else if c == '_' { 52 } else { c as int - 65 + 26 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_letters_().contains(#[trigger] x[i]) by { } assert(chars(ASCII_LETTERS_WITH_UNDERSCORE@) =~= c_letters_()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "ASCII_ALPHANUMERIC_WITH_UNDERSCORE"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_ascii_alphanumeric_with_underscore() ensures chars(ASCII_ALPHANUMERIC_WITH_UNDERSCORE@) == c_alnum_() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_alnum_().contains(c) implies #[trigger] x.contains(c) by { let i: int = if 'a' <= c <= 'z' { c as int - 97 } else if c == '_' { 62 } else if c <= '9' { c as int - 48 + 52 } else { c as int - 65 + 26 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_alnum_().contains(#[trigger] x[i]) by { } assert(chars(ASCII_ALPHANUMERIC_WITH_UNDERSCORE@) =~= c_alnum_()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "CHARACTER_CLASS_ESCAPES"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_character_class_escapes() ensures chars(CHARACTER_CLASS_ESCAPES@) == c_classes() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_classes().contains(c) implies #[trigger] x.contains(c) by { let i: int = if c == 'd' { 0 } else if c == 's' { 1 } else if c == 'w' { 2 } else if c == 'h' { 3 } else if c == 'v' { 4 } else if c == 'D' { 5 } else if c == 'S' { 6 } else if c == 'W' { 7 } else if c == 'H' { 8 } else if c == 'V' { 9 } else { 0 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_classes().contains(#[trigger] x[i]) by { } assert(chars(CHARACTER_CLASS_ESCAPES@) =~= c_classes()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "HEX_DIGIT"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_hex_digit() ensures chars(HEX_DIGIT@) == c_hex() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_hex().contains(c) implies #[trigger] x.contains(c) by { let i: int = if 'a' <= c <= 'f' { c as int - 97 + 16 } else if c <= '9' { c as int - 48 } else { c as int - 65 + 10 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_hex().contains(#[trigger] x[i]) by { } assert(chars(HEX_DIGIT@) =~= c_hex()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "ESCAPED_LITERAL_DENY_LIST"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_escaped_literal_deny_list() ensures chars(ESCAPED_LITERAL_DENY_LIST@) == c_no_escape() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_no_escape().contains(c) implies #[trigger] x.contains(c) by { let i: int = if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 } else if c == 'c' { 10 } else if c == 'g' { 11 } else if c == 'k' { 12 } else if c == 'l' { 13 } else if c == 'o' { 14 } else if c == 'p' { 15 } else if c == 'u' { 16 } else if c == 'x' { 17 } else if c == 'z' { 18 } else if c == 'A' { 19 } else if c == 'B' { 20 } else if c == 'C' { 21 } else if c == 'E' { 22 } else if c == 'G' { 23 } else if c == 'K' { 24 } else if c == 'L' { 25 } else if c == 'N' { 26 } else if c == 'P' { 27 } else if c == 'Q' { 28 } else if c == 'R' { 29 } else if c == 'U' { 30 } else if c == 'X' { 31 } else if c == 'Z' { 32 } else { 0 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_no_escape().contains(#[trigger] x[i]) by { } assert(chars(ESCAPED_LITERAL_DENY_LIST@) =~= c_no_escape()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "BRACKETED_CHARACTER_CLASS_DENY_LIST"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_bracketed_character_class_deny_list() ensures chars(BRACKETED_CHARACTER_CLASS_DENY_LIST@) == c_no_bracket() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_no_bracket().contains(c) implies #[trigger] x.contains(c) by { let i: int = if c == ']' { 0 } else { 0 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_no_bracket().contains(#[trigger] x[i]) by { } assert(chars(BRACKETED_CHARACTER_CLASS_DENY_LIST@) =~= c_no_bracket()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "LITERAL_DENY_LIST"
kind = "const"
[[rewrite]]
from = "&str = $l;"
to = '''&'static str = $l; proof fn lemma_literal_deny_list() ensures chars(LITERAL_DENY_LIST@) == c_no_literal() { reveal_strlit($l); let x = $l@; assert forall|c: char| c_no_literal().contains(c) implies #[trigger] x.contains(c) by { let i: int = if c == '|' { 0 } else if c == '[' { 1 } else if c == '(' { 2 } else if c == ')' { 3 } else if c == '.' { 4 } else if c == '+' { 5 } else if c == '?' { 6 } else if c == '*' { 7 } else if c == '^' { 8 } else if c == '$' { 9 } else { 0 }; assert(x[i] == c); } assert forall|i: int| 0 <= i < x.len() implies c_no_literal().contains(#[trigger] x[i]) by { } assert(chars(LITERAL_DENY_LIST@) =~= c_no_literal()); }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "RECURSION_LIMIT"
kind = "const"
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "LiteralKind"
kind = "enum"
@*/
// ---- specification: the grammar ------------------------------------------------------------------------
// What a parser makes of a text: a tree and the rest of the text; "no", so that an alternative may be tried; or the end of it all.
pub enum Out<T> { Ok(Seq<char>, T), No, Fatal(ParseError) }
pub enum SItem { Lit(char), Range(char, char), Perl(PerlCharacterClass), Prop(bool, Seq<char>), Ascii(bool, AsciiClassKind), H, NotH, V, NotV }
pub enum SClass { Bracket(bool, Seq<SItem>), Perl(PerlCharacterClass), Dot, H, NotH, V, NotV, Prop(bool, Seq<char>) }
pub struct SFlags { pub add: Seq<Flag>, pub remove: Seq<Flag> }
pub enum SGroup { Capturing(Box<SAst>), NonCapturing(SFlags, Box<SAst>), Named(Seq<char>, Box<SAst>) }
pub enum SAst { Empty, Lit(char, bool), Concat(Seq<SAst>), Group(SGroup), Class(SClass), Alt(Seq<SAst>), Rep(Quantifier, Box<SAst>), Assert(AssertionType), Flags(SFlags) }
// the tree a value of the real types stands for
pub trait Tree { type V; spec fn tv(self) -> Self::V; }
pub open spec fn prop_v(p: UnicodePropertyClass) -> (bool, Seq<char>) { (p.negate, p.name@) }
pub open spec fn item_v(i: BracketCharacterClassItem) -> SItem {
    match i {
        BracketCharacterClassItem::Literal(c) => SItem::Lit(c), BracketCharacterClassItem::Range(a, b) => SItem::Range(a, b),
        BracketCharacterClassItem::PerlCharacterClass(p) => SItem::Perl(p), BracketCharacterClassItem::UnicodeProperty(p) => SItem::Prop(p.negate, p.name@),
        BracketCharacterClassItem::AsciiClass(a) => SItem::Ascii(a.negated, a.kind), BracketCharacterClassItem::HorizontalWhitespace => SItem::H, BracketCharacterClassItem::NotHorizontalWhitespace => SItem::NotH,
        BracketCharacterClassItem::VerticalWhitespace => SItem::V, BracketCharacterClassItem::NotVerticalWhitespace => SItem::NotV,
    }
}
pub open spec fn items_v(v: Seq<BracketCharacterClassItem>) -> Seq<SItem> { v.map_values(|i: BracketCharacterClassItem| item_v(i)) }
pub open spec fn class_v(c: CharacterClass) -> SClass {
    match c {
        CharacterClass::Bracket(b) => SClass::Bracket(b.negated, items_v(b.items@)), CharacterClass::Perl(p) => SClass::Perl(p), CharacterClass::Dot => SClass::Dot,
        CharacterClass::HorizontalWhitespace => SClass::H, CharacterClass::NotHorizontalWhitespace => SClass::NotH, CharacterClass::VerticalWhitespace => SClass::V, CharacterClass::NotVerticalWhitespace => SClass::NotV,
        CharacterClass::UnicodeProperty(p) => SClass::Prop(p.negate, p.name@),
    }
}
pub open spec fn flags_v(f: Flags) -> SFlags { SFlags { add: f.add@, remove: f.remove@ } }
pub open spec fn group_v(g: Group) -> SGroup decreases g {
    match g { Group::Capturing(c) => SGroup::Capturing(Box::new(ast_v(c.inner))), Group::NonCapturing(c) => SGroup::NonCapturing(flags_v(c.flags), Box::new(ast_v(c.inner))), Group::NamedCapturing(c) => SGroup::Named(c.name@, Box::new(ast_v(c.inner))) }
}
pub open spec fn ast_v(a: Ast) -> SAst decreases a {
    match a {
        Ast::Empty => SAst::Empty, Ast::Literal(l) => SAst::Lit(l.c, l.escaped),
        Ast::Concat(v) => SAst::Concat(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { ast_v(v@[i]) } else { SAst::Empty })),
        Ast::Alternation(v) => SAst::Alt(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { ast_v(v@[i]) } else { SAst::Empty })),
        Ast::Group(g) => SAst::Group(group_v(*g)), Ast::CharacterClass(c) => SAst::Class(class_v(c)), Ast::Repetition(r) => SAst::Rep(r.quantifier, Box::new(ast_v(*r.inner))),
        Ast::Assertion(k) => SAst::Assert(k), Ast::Flags(f) => SAst::Flags(flags_v(f)),
    }
}
impl Tree for Ast { type V = SAst; open spec fn tv(self) -> SAst { ast_v(self) } }
impl Tree for Group { type V = SGroup; open spec fn tv(self) -> SGroup { group_v(self) } }
impl Tree for CaptureGroup { type V = SGroup; open spec fn tv(self) -> SGroup { SGroup::Capturing(Box::new(ast_v(self.inner))) } }
impl Tree for NonCapturingGroup { type V = SGroup; open spec fn tv(self) -> SGroup { SGroup::NonCapturing(flags_v(self.flags), Box::new(ast_v(self.inner))) } }
impl Tree for NamedCapturingGroup { type V = SGroup; open spec fn tv(self) -> SGroup { SGroup::Named(self.name@, Box::new(ast_v(self.inner))) } }
impl Tree for CharacterClass { type V = SClass; open spec fn tv(self) -> SClass { class_v(self) } }
impl Tree for BracketCharacterClass { type V = SClass; open spec fn tv(self) -> SClass { SClass::Bracket(self.negated, items_v(self.items@)) } }
impl Tree for BracketCharacterClassItem { type V = SItem; open spec fn tv(self) -> SItem { item_v(self) } }
impl Tree for UnicodePropertyClass { type V = (bool, Seq<char>); open spec fn tv(self) -> (bool, Seq<char>) { (self.negate, self.name@) } }
impl Tree for Flags { type V = SFlags; open spec fn tv(self) -> SFlags { flags_v(self) } }
impl Tree for Flag { type V = Flag; open spec fn tv(self) -> Flag { self } }
impl Tree for Quantifier { type V = Quantifier; open spec fn tv(self) -> Quantifier { self } }
impl Tree for QuantifierKind { type V = QuantifierKind; open spec fn tv(self) -> QuantifierKind { self } }
impl Tree for AssertionType { type V = AssertionType; open spec fn tv(self) -> AssertionType { self } }
impl Tree for PerlCharacterClass { type V = PerlCharacterClass; open spec fn tv(self) -> PerlCharacterClass { self } }
impl Tree for Literal { type V = (char, bool); open spec fn tv(self) -> (char, bool) { (self.c, self.escaped) } }
impl Tree for u32 { type V = u32; open spec fn tv(self) -> u32 { self } }
impl Tree for char { type V = char; open spec fn tv(self) -> char { self } }
impl Tree for () { type V = (); open spec fn tv(self) -> () { () } }
impl<'a> Tree for Input<'a> { type V = Seq<char>; open spec fn tv(self) -> Seq<char> { self.value@ } }
impl<'a> Tree for &'a str { type V = Seq<char>; open spec fn tv(self) -> Seq<char> { self@ } }
impl<T: Tree> Tree for Option<T> { type V = Option<T::V>; open spec fn tv(self) -> Option<T::V> { match self { Some(x) => Some(x.tv()), None => None } } }
impl<T: Tree> Tree for Vec<T> { type V = Seq<T::V>; open spec fn tv(self) -> Seq<T::V> { self@.map_values(|x: T| x.tv()) } }

// the answer r of a parser is o, and the nesting depth is as before
pub open spec fn ok<T: Tree>(r: ParseResult<T>, d: usize, o: Out<T::V>) -> bool {
    match r {
        Ok((i, t)) => i.depth == d && o == Out::Ok(i.value@, t.tv()),
        Err(nom::Err::Error(e)) => o is No && e is InvalidSyntax,
        Err(nom::Err::Failure(e)) => o == Out::<T::V>::Fatal(e),
        Err(nom::Err::Incomplete(_)) => false,
    }
}
pub open spec fn agrees<'a, T: Tree, F: Fn(Input<'a>) -> ParseResult<'a, T>>(f: F, g: spec_fn(Seq<char>) -> Out<T::V>, d: usize) -> bool {
    forall|i: Input<'a>, r: ParseResult<'a, T>| i.depth == d && #[trigger] f.ensures((i,), r) ==> ok(r, d, g(i.value@))
}
pub open spec fn pre(t: Seq<char>, s: Seq<char>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) == t }
pub open spec fn rest(t: Seq<char>, s: Seq<char>) -> Seq<char> { s.subrange(t.len() as int, s.len() as int) }
pub open spec fn tail(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() as int) }
pub open spec fn p_tag(t: Seq<char>, s: Seq<char>) -> Out<Seq<char>> { if pre(t, s) { Out::Ok(rest(t, s), t) } else { Out::No } }
pub open spec fn p_one_of(t: ISet<char>, s: Seq<char>) -> Out<char> { if s.len() > 0 && t.contains(s[0]) { Out::Ok(tail(s), s[0]) } else { Out::No } }
pub open spec fn p_none_of(t: ISet<char>, s: Seq<char>) -> Out<char> { if s.len() > 0 && !t.contains(s[0]) { Out::Ok(tail(s), s[0]) } else { Out::No } }
// the number of characters before the first occurrence of t
pub open spec fn find(t: Seq<char>, s: Seq<char>) -> Option<nat> decreases s.len() {
    if pre(t, s) { Some(0) } else if s.len() == 0 { None } else { match find(t, tail(s)) { Some(n) => Some(n + 1), None => None } }
}
pub open spec fn p_until(t: Seq<char>, s: Seq<char>) -> Out<Seq<char>> {
    match find(t, s) { Some(n) => Out::Ok(s.subrange(n as int, s.len() as int), s.subrange(0, n as int)), None => Out::No }
}
// the longest beginning of s that consists of characters of t
pub open spec fn run(t: ISet<char>, s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && t.contains(s[0]) { 1 + run(t, tail(s)) } else { 0 } }
pub open spec fn p_many_of(t: ISet<char>, s: Seq<char>) -> Out<Seq<char>> { Out::Ok(s.subrange(run(t, s) as int, s.len() as int), s.subrange(0, run(t, s) as int)) }
// as often as possible
pub open spec fn many0<V>(g: spec_fn(Seq<char>) -> Out<V>, s: Seq<char>) -> Out<Seq<V>> decreases s.len() {
    match g(s) {
        Out::No => Out::Ok(s, seq![]), Out::Fatal(e) => Out::Fatal(e),
        Out::Ok(s1, v) => if s1.len() >= s.len() { Out::No } else { match many0(g, s1) { Out::Ok(s2, w) => Out::Ok(s2, seq![v] + w), o => o } },
    }
}
pub open spec fn many1<V>(g: spec_fn(Seq<char>) -> Out<V>, s: Seq<char>) -> Out<Seq<V>> {
    match g(s) { Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e), Out::Ok(s1, v) => match many0(g, s1) { Out::Ok(s2, w) => Out::Ok(s2, seq![v] + w), o => o } }
}
pub open spec fn up_to<V>(n: nat, g: spec_fn(Seq<char>) -> Out<V>, s: Seq<char>) -> Out<Seq<V>> decreases n {
    if n == 0 { Out::Ok(s, seq![]) } else {
        match g(s) {
            Out::No => Out::Ok(s, seq![]), Out::Fatal(e) => Out::Fatal(e),
            Out::Ok(s1, v) => if s1.len() >= s.len() { Out::No } else { match up_to((n - 1) as nat, g, s1) { Out::Ok(s2, w) => Out::Ok(s2, seq![v] + w), o => o } },
        }
    }
}
// g, possibly absent, between separators
pub open spec fn maybe<V>(o: Out<V>, s: Seq<char>) -> Out<Option<V>> { match o { Out::Ok(s1, v) => Out::Ok(s1, Some(v)), Out::No => Out::Ok(s, None), Out::Fatal(e) => Out::Fatal(e) } }
pub open spec fn sep_rest<V>(t: Seq<char>, g: spec_fn(Seq<char>) -> Out<V>, s: Seq<char>) -> Out<Seq<Option<V>>> decreases s.len() {
    if !pre(t, s) { Out::Ok(s, seq![]) } else {
        match maybe(g(rest(t, s)), rest(t, s)) {
            Out::Ok(s1, v) => if s1.len() >= s.len() { Out::No } else { match sep_rest(t, g, s1) { Out::Ok(s2, w) => Out::Ok(s2, seq![v] + w), o => o } },
            Out::No => Out::Ok(s, seq![]), Out::Fatal(e) => Out::Fatal(e),
        }
    }
}
pub open spec fn separated<V>(t: Seq<char>, g: spec_fn(Seq<char>) -> Out<V>, s: Seq<char>) -> Out<Seq<Option<V>>> {
    match maybe(g(s), s) { Out::Ok(s1, v) => match sep_rest(t, g, s1) { Out::Ok(s2, w) => Out::Ok(s2, seq![v] + w), o => o }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }
}
// -- sets of characters
pub open spec fn c_letters_() -> ISet<char> { ISet::new(|c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_') }
pub open spec fn c_alnum_() -> ISet<char> { ISet::new(|c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_') }
pub open spec fn c_letters() -> ISet<char> { ISet::new(|c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z') }
pub open spec fn c_classes() -> ISet<char> { ISet::new(|c: char| c == 'd' || c == 's' || c == 'w' || c == 'h' || c == 'v' || c == 'D' || c == 'S' || c == 'W' || c == 'H' || c == 'V') }
pub open spec fn c_hex() -> ISet<char> { ISet::new(|c: char| '0' <= c <= '9' || 'A' <= c <= 'F' || 'a' <= c <= 'f') }
pub open spec fn c_no_escape() -> ISet<char> { ISet::new(|c: char| '0' <= c <= '9' || c == 'c' || c == 'g' || c == 'k' || c == 'l' || c == 'o' || c == 'p' || c == 'u' || c == 'x' || c == 'z' || c == 'A' || c == 'B' || c == 'C' || c == 'E' || c == 'G' || c == 'K' || c == 'L' || c == 'N' || c == 'P' || c == 'Q' || c == 'R' || c == 'U' || c == 'X' || c == 'Z') }
pub open spec fn c_no_bracket() -> ISet<char> { ISet::new(|c: char| c == ']') }
pub open spec fn c_no_literal() -> ISet<char> { ISet::new(|c: char| c == '|' || c == '[' || c == '(' || c == ')' || c == '.' || c == '+' || c == '?' || c == '*' || c == '^' || c == '$') }
pub open spec fn chars(t: Seq<char>) -> ISet<char> { ISet::new(|c: char| t.contains(c)) }
pub broadcast proof fn lemma_pre(t: Seq<char>, s: Seq<char>)
    ensures #[trigger] pre(t, s) ==> (t.len() > 0 ==> s[0] == t[0]) && (t.len() > 1 ==> s[1] == t[1]) && (t.len() > 2 ==> s[2] == t[2]) && (t.len() > 3 ==> s[3] == t[3]) && (t.len() > 4 ==> s[4] == t[4]),
{
    if pre(t, s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] s[i] == t[i] by { assert(s.subrange(0, t.len() as int)[i] == s[i]); } }
}
pub broadcast proof fn lemma_run(t: ISet<char>, s: Seq<char>) ensures #[trigger] run(t, s) <= s.len() decreases s.len() { if s.len() > 0 && t.contains(s[0]) { lemma_run(t, tail(s)); } }
pub proof fn lemma_dec_run(s: Seq<char>) ensures dec_run(s) <= s.len(), all_dec(s.subrange(0, dec_run(s) as int)) decreases s.len() {
    if s.len() > 0 && dec(s[0]) {
        lemma_dec_run(tail(s));
        assert forall|i: int| 0 <= i < dec_run(s) implies dec(#[trigger] s.subrange(0, dec_run(s) as int)[i]) by {
            if i > 0 { assert(tail(s).subrange(0, dec_run(tail(s)) as int)[i - 1] == s[i]); }
        }
    }
}
pub broadcast proof fn lemma_tv_flags(v: Vec<Flag>) ensures #[trigger] v.tv() == v@ { assert(v.tv() =~= v@); }
pub broadcast proof fn lemma_tv_chars(v: Vec<char>) ensures #[trigger] v.tv() == v@ { assert(v.tv() =~= v@); }
pub broadcast proof fn lemma_tv_items(v: Vec<BracketCharacterClassItem>) ensures #[trigger] v.tv() == items_v(v@) { assert(v.tv() =~= items_v(v@)); }
pub open spec fn asts_v(v: Seq<Ast>) -> Seq<SAst> { Seq::new(v.len(), |i: int| if 0 <= i < v.len() { ast_v(v[i]) } else { SAst::Empty }) }
pub broadcast proof fn lemma_tv_asts(v: Vec<Ast>) ensures #[trigger] v.tv() == asts_v(v@) { assert(v.tv() =~= asts_v(v@)); }
pub broadcast proof fn lemma_concat(v: Vec<Ast>) ensures #[trigger] ast_v(Ast::Concat(v)) == SAst::Concat(v.tv()) { assert(v.tv() =~= asts_v(v@)); assert(ast_v(Ast::Concat(v))->Concat_0 =~= v.tv()); }
pub broadcast proof fn lemma_alternation(v: Vec<Ast>) ensures #[trigger] ast_v(Ast::Alternation(v)) == SAst::Alt(v.tv()) { assert(v.tv() =~= asts_v(v@)); assert(ast_v(Ast::Alternation(v))->Alt_0 =~= v.tv()); }
// `find` answers with a place in the text
pub broadcast proof fn lemma_find(t: Seq<char>, s: Seq<char>) ensures (#[trigger] find(t, s)) is Some ==> find(t, s)->0 + t.len() <= s.len() && pre(t, s.subrange(find(t, s)->0 as int, s.len() as int)) decreases s.len() {
    if pre(t, s) { assert(s.subrange(0, s.len() as int) =~= s); }
    else if s.len() > 0 { lemma_find(t, tail(s)); if find(t, s) is Some { let n = find(t, s)->0; assert(tail(s).subrange(n - 1, s.len() - 1) =~= s.subrange(n as int, s.len() as int)); } }
}
pub broadcast proof fn lemma_one(x: BracketCharacterClassItem) ensures #[trigger] items_v(seq![x]) == seq![item_v(x)] { assert(items_v(seq![x]) =~= seq![item_v(x)]); }
pub broadcast proof fn lemma_insert(x: BracketCharacterClassItem, v: Seq<BracketCharacterClassItem>) ensures #[trigger] items_v(v.insert(0, x)) == seq![item_v(x)] + items_v(v) { assert(items_v(v.insert(0, x)) =~= seq![item_v(x)] + items_v(v)); }
pub open spec fn hex_n(r: Seq<char>) -> int { if r.len() > 0 && hex(r[0]) { if r.len() > 1 && hex(r[1]) { 2int } else { 1int } } else { 0int } }
pub proof fn lemma_hex2(r: Seq<char>)
    ensures up_to(2, g_hex_digit(), r) == Out::Ok(r.subrange(hex_n(r), r.len() as int), r.subrange(0, hex_n(r))), hex_val(r.subrange(0, hex_n(r))) < 256, all_hex(r.subrange(0, hex_n(r))),
        hex_n(r) == 0 ==> hex_val(r.subrange(0, 0)) == 0, 0 <= hex_n(r) <= r.len(),
{
    reveal_with_fuel(up_to, 3); reveal_with_fuel(hex_val, 3);
    let n = hex_n(r);
    let h = r.subrange(0, n);
    assert(up_to(0, g_hex_digit(), tail(tail(r)))  == Out::Ok(tail(tail(r)), Seq::<char>::empty()));
    if n == 0 { assert(r.subrange(0, r.len() as int) =~= r); assert(h =~= seq![]); }
    else if n == 1 { assert(tail(r) =~= r.subrange(1, r.len() as int)); assert(h =~= seq![r[0]]); assert(h.drop_last() =~= seq![]); if r.len() > 1 { assert(tail(r)[0] == r[1]); } assert(seq![r[0]] + Seq::<char>::empty() =~= h); }
    else { assert(tail(r)[0] == r[1]); assert(tail(tail(r)) =~= r.subrange(2, r.len() as int)); assert(h =~= seq![r[0], r[1]]); assert(h.drop_last() =~= seq![r[0]]); assert(h.drop_last().drop_last() =~= seq![]); assert(seq![r[0]] + (seq![r[1]] + Seq::<char>::empty()) =~= h); }
}
pub proof fn lemma_name(s: Seq<char>) ensures s.len() > 0 ==> tail(s).subrange(run(c_alnum_(), tail(s)) as int, tail(s).len() as int) == s.subrange((1 + run(c_alnum_(), tail(s))) as int, s.len() as int) {
    if s.len() > 0 { lemma_run(c_alnum_(), tail(s)); assert(tail(s).subrange(run(c_alnum_(), tail(s)) as int, tail(s).len() as int) =~= s.subrange((1 + run(c_alnum_(), tail(s))) as int, s.len() as int)); }
}
pub proof fn lemma_consts()
    ensures chars(ASCII_LETTERS@) == c_letters(), chars(ASCII_LETTERS_WITH_UNDERSCORE@) == c_letters_(), chars(ASCII_ALPHANUMERIC_WITH_UNDERSCORE@) == c_alnum_(), chars(CHARACTER_CLASS_ESCAPES@) == c_classes(),
        chars(HEX_DIGIT@) == c_hex(), chars(ESCAPED_LITERAL_DENY_LIST@) == c_no_escape(), chars(BRACKETED_CHARACTER_CLASS_DENY_LIST@) == c_no_bracket(), chars(LITERAL_DENY_LIST@) == c_no_literal(),
{
    lemma_ascii_letters(); lemma_ascii_letters_with_underscore(); lemma_ascii_alphanumeric_with_underscore(); lemma_character_class_escapes(); lemma_hex_digit(); lemma_escaped_literal_deny_list(); lemma_bracketed_character_class_deny_list(); lemma_literal_deny_list();
}
// -- small items
pub open spec fn p_perl(s: Seq<char>) -> Out<PerlCharacterClass> {
    if pre("\\d"@, s) { Out::Ok(rest("\\d"@, s), PerlCharacterClass::Digit) } else if pre("\\D"@, s) { Out::Ok(rest("\\D"@, s), PerlCharacterClass::NonDigit) }
    else if pre("\\s"@, s) { Out::Ok(rest("\\s"@, s), PerlCharacterClass::Space) } else if pre("\\S"@, s) { Out::Ok(rest("\\S"@, s), PerlCharacterClass::NonSpace) }
    else if pre("\\w"@, s) { Out::Ok(rest("\\w"@, s), PerlCharacterClass::Word) } else if pre("\\W"@, s) { Out::Ok(rest("\\W"@, s), PerlCharacterClass::NonWord) } else { Out::No }
}
pub open spec fn p_assertion(s: Seq<char>) -> Out<AssertionType> {
    if pre("^"@, s) { Out::Ok(rest("^"@, s), AssertionType::StartLine) } else if pre("$"@, s) { Out::Ok(rest("$"@, s), AssertionType::EndLine) }
    else if pre("\\b"@, s) { Out::Ok(rest("\\b"@, s), AssertionType::WordBoundary) } else if pre("\\B"@, s) { Out::Ok(rest("\\B"@, s), AssertionType::NotWordBoundary) }
    else if pre("\\A"@, s) { Out::Ok(rest("\\A"@, s), AssertionType::StartText) } else if pre("\\z"@, s) { Out::Ok(rest("\\z"@, s), AssertionType::EndText) }
    else if pre("\\Z"@, s) { Out::Ok(rest("\\Z"@, s), AssertionType::EndTextOptionalNewline) } else { Out::No }
}
pub open spec fn p_flag(s: Seq<char>) -> Out<Flag> {
    if pre("i"@, s) { Out::Ok(rest("i"@, s), Flag::CaseInsensitive) } else if pre("m"@, s) { Out::Ok(rest("m"@, s), Flag::MultiLine) }
    else if pre("s"@, s) { Out::Ok(rest("s"@, s), Flag::DotMatchesNewLine) } else if pre("x"@, s) { Out::Ok(rest("x"@, s), Flag::IgnoreWhitespace) } else { Out::No }
}
pub open spec fn g_flag() -> spec_fn(Seq<char>) -> Out<Flag> { |s: Seq<char>| p_flag(s) }
// "im-sx": flags set and, after a hyphen, flags cleared
pub open spec fn p_flags(s: Seq<char>) -> Out<SFlags> {
    match many0(g_flag(), s) {
        Out::Ok(s1, add) => if pre("-"@, s1) { match many0(g_flag(), rest("-"@, s1)) { Out::Ok(s2, remove) => Out::Ok(s2, SFlags { add, remove }), Out::No => Out::Ok(s1, SFlags { add, remove: seq![] }), Out::Fatal(e) => Out::Fatal(e) } } else { Out::Ok(s1, SFlags { add, remove: seq![] }) },
        Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
    }
}
pub open spec fn p_flags_expression(s: Seq<char>) -> Out<SFlags> {
    if !pre("(?"@, s) { Out::No } else { match p_flags(rest("(?"@, s)) { Out::Ok(s1, f) => if pre(")"@, s1) { Out::Ok(rest(")"@, s1), f) } else { Out::No }, o => o } }
}
// -- quantifiers
pub open spec fn dec(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn dec_run(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && dec(s[0]) { 1 + dec_run(tail(s)) } else { 0 } }
pub open spec fn dec_val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat } }
pub open spec fn all_dec(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> dec(#[trigger] s[i]) }
pub open spec fn capped(n: nat) -> u32 { if n <= 0xffff_ffff { n as u32 } else { 0xffff_ffff } }
pub open spec fn p_integer(s: Seq<char>) -> Out<u32> {
    if dec_run(s) == 0 { Out::No } else { Out::Ok(s.subrange(dec_run(s) as int, s.len() as int), capped(dec_val(s.subrange(0, dec_run(s) as int)))) }
}
pub open spec fn p_range_exact(s: Seq<char>) -> Out<QuantifierKind> {
    if !pre("{"@, s) { Out::No } else { match p_integer(rest("{"@, s)) { Out::Ok(s1, n) => if pre("}"@, s1) { Out::Ok(rest("}"@, s1), QuantifierKind::RangeExact(n)) } else { Out::No }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
}
pub open spec fn p_range_min(s: Seq<char>) -> Out<QuantifierKind> {
    if !pre("{"@, s) { Out::No } else { match p_integer(rest("{"@, s)) { Out::Ok(s1, n) => if pre(","@, s1) && pre("}"@, rest(","@, s1)) { Out::Ok(rest("}"@, rest(","@, s1)), QuantifierKind::RangeMin(n)) } else { Out::No }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
}
pub open spec fn p_range_min_max(s: Seq<char>) -> Out<QuantifierKind> {
    if !pre("{"@, s) { Out::No } else {
        match p_integer(rest("{"@, s)) {
            Out::Ok(s1, n) => if !pre(","@, s1) { Out::No } else {
                match p_integer(rest(","@, s1)) { Out::Ok(s2, m) => if pre("}"@, s2) { Out::Ok(rest("}"@, s2), QuantifierKind::RangeMinMax(n, m)) } else { Out::No }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }
            },
            Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
        }
    }
}
pub open spec fn p_quantifier_kind(s: Seq<char>) -> Out<QuantifierKind> {
    if pre("*"@, s) { Out::Ok(rest("*"@, s), QuantifierKind::ZeroOrMore) } else if pre("+"@, s) { Out::Ok(rest("+"@, s), QuantifierKind::OneOrMore) } else if pre("?"@, s) { Out::Ok(rest("?"@, s), QuantifierKind::ZeroOrOne) }
    else { match p_range_exact(s) { Out::No => match p_range_min_max(s) { Out::No => p_range_min(s), o => o }, o => o } }
}
pub open spec fn p_quantifier(s: Seq<char>) -> Out<Quantifier> {
    match p_quantifier_kind(s) { Out::Ok(s1, kind) => if pre("?"@, s1) { Out::Ok(rest("?"@, s1), Quantifier { lazy: true, kind }) } else { Out::Ok(s1, Quantifier { lazy: false, kind }) }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }
}
// -- properties
pub uninterp spec fn is_property(name: Seq<char>) -> bool;                                                 // member of UNICODE_PROPERTY_NAMES
pub open spec fn p_prop_name(s: Seq<char>) -> Out<Seq<char>> {
    match p_many_of(c_letters_(), s) { Out::Ok(s1, name) => if is_property(name) { Out::Ok(s1, name) } else { Out::No }, o => o }
}
pub open spec fn p_prop_of(open: Seq<char>, negate: bool, s: Seq<char>) -> Out<(bool, Seq<char>)> {
    if !pre(open, s) { Out::No } else { match p_prop_name(rest(open, s)) { Out::Ok(s1, name) => if pre("}"@, s1) { Out::Ok(rest("}"@, s1), (negate, name)) } else { Out::No }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
}
pub open spec fn p_prop(s: Seq<char>) -> Out<(bool, Seq<char>)> { match p_prop_of("\\p{"@, false, s) { Out::No => p_prop_of("\\P{"@, true, s), o => o } }
// -- literals
pub open spec fn hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hex_digit_val(c: char) -> nat { if '0' <= c <= '9' { (c as u32 - '0' as u32) as nat } else if 'a' <= c <= 'f' { (c as u32 - 'a' as u32 + 10) as nat } else { (c as u32 - 'A' as u32 + 10) as nat } }
pub open spec fn hex_val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { hex_val(s.drop_last()) * 16 + hex_digit_val(s.last()) } }
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hex(#[trigger] s[i]) }
// a number in hexadecimal digits that is a character
pub open spec fn scalar(n: nat) -> bool { n < 0xd800 || 0xdfff < n <= 0x10ffff }
pub open spec fn is_letter(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn p_hex_digit(s: Seq<char>) -> Out<char> { p_one_of(c_hex(), s) }
pub open spec fn g_hex_digit() -> spec_fn(Seq<char>) -> Out<char> { |s: Seq<char>| p_hex_digit(s) }
// \x{h..}: that character, a mistake in the braces being final; \xhh with up to two digits
pub open spec fn p_hex(s: Seq<char>) -> Out<char> {
    if pre("x{"@, s) && find("}"@, rest("x{"@, s)) is Some {
        let n = find("}"@, rest("x{"@, s))->0;
        let h = rest("x{"@, s).subrange(0, n as int);
        let s1 = rest("}"@, rest("x{"@, s).subrange(n as int, rest("x{"@, s).len() as int));
        if h.len() > 0 && all_hex(h) && scalar(hex_val(h)) { Out::Ok(s1, hex_val(h) as u32 as char) } else { Out::Fatal(ParseError::InvalidSyntax) }
    } else if pre("x"@, s) {
        let r = rest("x"@, s);
        let n = hex_n(r);
        Out::Ok(r.subrange(n, r.len() as int), hex_val(r.subrange(0, n)) as u32 as char)
    } else { Out::No }
}
// \cX: control characters
pub open spec fn control(c: char) -> char { if 'a' <= c <= 'z' { (c as u32 - 'a' as u32 + 1) as u32 as char } else { (c as u32 - 'A' as u32 + 1) as u32 as char } }
pub open spec fn p_control(s: Seq<char>) -> Out<char> { if pre("c"@, s) && rest("c"@, s).len() > 0 && is_letter(rest("c"@, s)[0]) { Out::Ok(tail(rest("c"@, s)), control(rest("c"@, s)[0])) } else { Out::No } }
pub open spec fn lit(o: Out<char>, escaped: bool) -> Out<(char, bool)> { match o { Out::Ok(s, c) => Out::Ok(s, (c, escaped)), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
// what follows a backslash
pub open spec fn p_escaped(s: Seq<char>) -> Out<(char, bool)> {
    if pre("a"@, s) { Out::Ok(rest("a"@, s), ('\u{7}', true)) } else if pre("b"@, s) { Out::Ok(rest("b"@, s), ('\u{8}', true)) } else if pre("e"@, s) { Out::Ok(rest("e"@, s), ('\u{1b}', true)) }
    else if pre("f"@, s) { Out::Ok(rest("f"@, s), ('\u{c}', true)) } else if pre("n"@, s) { Out::Ok(rest("n"@, s), ('\u{a}', true)) } else if pre("r"@, s) { Out::Ok(rest("r"@, s), ('\u{d}', true)) }
    else if pre("t"@, s) { Out::Ok(rest("t"@, s), ('\u{9}', true)) } else if pre("v"@, s) { Out::Ok(rest("v"@, s), ('\u{b}', true)) }
    else if pre("c"@, s) { lit(p_control(s), true) } else { lit(p_hex(s), true) }
}
pub open spec fn deny(k: LiteralKind) -> ISet<char> { match k { LiteralKind::Normal => c_no_literal(), LiteralKind::BracketedCharacterClass => c_no_bracket() } }
pub open spec fn p_literal(k: LiteralKind, s: Seq<char>) -> Out<(char, bool)> {
    if pre("\\"@, s) { match p_escaped(rest("\\"@, s)) { Out::No => lit(p_none_of(c_no_escape(), rest("\\"@, s)), true), o => o } } else { lit(p_none_of(deny(k), s), false) }
}
// \Q .. \E
pub open spec fn p_quoted(s: Seq<char>) -> Out<Seq<char>> {
    if !pre("\\Q"@, s) { Out::No } else { match p_until("\\E"@, rest("\\Q"@, s)) { Out::Ok(s1, v) => Out::Ok(rest("\\E"@, s1), v), o => o } }
}
pub open spec fn p_quote(s: Seq<char>) -> Out<SAst> {
    match p_quoted(s) {
        Out::Ok(s1, v) => Out::Ok(s1, if v.len() == 0 { SAst::Empty } else if v.len() == 1 { SAst::Lit(v[0], true) } else { SAst::Concat(v.map_values(|c: char| SAst::Lit(c, true))) }),
        Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
    }
}
// -- bracket classes
pub open spec fn p_ascii_kind(s: Seq<char>) -> Out<AsciiClassKind> {
    if pre("alnum"@, s) { Out::Ok(rest("alnum"@, s), AsciiClassKind::Alnum) } else if pre("alpha"@, s) { Out::Ok(rest("alpha"@, s), AsciiClassKind::Alpha) } else if pre("ascii"@, s) { Out::Ok(rest("ascii"@, s), AsciiClassKind::Ascii) }
    else if pre("blank"@, s) { Out::Ok(rest("blank"@, s), AsciiClassKind::Blank) } else if pre("cntrl"@, s) { Out::Ok(rest("cntrl"@, s), AsciiClassKind::Cntrl) } else if pre("digit"@, s) { Out::Ok(rest("digit"@, s), AsciiClassKind::Digit) }
    else if pre("graph"@, s) { Out::Ok(rest("graph"@, s), AsciiClassKind::Graph) } else if pre("lower"@, s) { Out::Ok(rest("lower"@, s), AsciiClassKind::Lower) } else if pre("print"@, s) { Out::Ok(rest("print"@, s), AsciiClassKind::Print) }
    else if pre("punct"@, s) { Out::Ok(rest("punct"@, s), AsciiClassKind::Punct) } else if pre("space"@, s) { Out::Ok(rest("space"@, s), AsciiClassKind::Space) } else if pre("upper"@, s) { Out::Ok(rest("upper"@, s), AsciiClassKind::Upper) }
    else if pre("word"@, s) { Out::Ok(rest("word"@, s), AsciiClassKind::Word) } else if pre("xdigit"@, s) { Out::Ok(rest("xdigit"@, s), AsciiClassKind::Xdigit) } else { Out::No }
}
pub open spec fn after(t: Seq<char>, s: Seq<char>) -> Seq<char> { if pre(t, s) { rest(t, s) } else { s } }
pub open spec fn p_ascii(s: Seq<char>) -> Out<SItem> {
    if !pre("[:"@, s) { Out::No } else {
        match p_ascii_kind(after("^"@, rest("[:"@, s))) { Out::Ok(s1, k) => if pre(":]"@, s1) { Out::Ok(rest(":]"@, s1), SItem::Ascii(pre("^"@, rest("[:"@, s)), k)) } else { Out::No }, Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }
    }
}
// "[:" letters ":]" with any other name is a mistake
pub open spec fn p_unknown_ascii(s: Seq<char>) -> Out<Seq<SItem>> {
    if !pre("[:"@, s) { Out::No } else { let s1 = after("^"@, rest("[:"@, s)); if pre(":]"@, s1.subrange(run(c_letters(), s1) as int, s1.len() as int)) { Out::Fatal(ParseError::InvalidSyntax) } else { Out::No } }
}
pub open spec fn p_quoted_items(s: Seq<char>) -> Out<Seq<SItem>> { match p_quoted(s) { Out::Ok(s1, v) => Out::Ok(s1, v.map_values(|c: char| SItem::Lit(c))), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
pub open spec fn class_escape(s: Seq<char>) -> bool { pre("\\"@, s) && rest("\\"@, s).len() > 0 && c_classes().contains(rest("\\"@, s)[0]) }
pub open spec fn p_range_end(s: Seq<char>) -> Out<(char, bool)> {
    if !pre("-"@, s) || class_escape(rest("-"@, s)) || p_ascii(rest("-"@, s)) is Ok { Out::No } else { p_literal(LiteralKind::BracketedCharacterClass, rest("-"@, s)) }
}
pub open spec fn p_item_range(s: Seq<char>) -> Out<SItem> {
    match p_literal(LiteralKind::BracketedCharacterClass, s) {
        Out::Ok(s1, a) => match p_range_end(s1) { Out::Ok(s2, b) => Out::Ok(s2, SItem::Range(a.0, b.0)), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) },
        Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
    }
}
pub open spec fn perl_item(s: Seq<char>) -> Out<SItem> { match p_perl(s) { Out::Ok(s1, p) => Out::Ok(s1, SItem::Perl(p)), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
pub open spec fn p_item_literal(s: Seq<char>) -> Out<SItem> {
    match p_literal(LiteralKind::BracketedCharacterClass, s) {
        Out::Ok(s1, l) => Out::Ok(s1, SItem::Lit(l.0)), Out::Fatal(e) => Out::Fatal(e),
        Out::No => match perl_item(s) { Out::No => match p_prop(s) { Out::Ok(s1, p) => Out::Ok(s1, SItem::Prop(p.0, p.1)), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }, o => o },
    }
}
pub open spec fn one(o: Out<SItem>) -> Out<Seq<SItem>> { match o { Out::Ok(s, i) => Out::Ok(s, seq![i]), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
// an item of a bracket class: class escapes first, then quoted text, POSIX classes, ranges, single characters
pub open spec fn p_item(s: Seq<char>) -> Out<Seq<SItem>> {
    if !(perl_item(s) is No) { one(perl_item(s)) }
    else if pre("\\h"@, s) { Out::Ok(rest("\\h"@, s), seq![SItem::H]) } else if pre("\\H"@, s) { Out::Ok(rest("\\H"@, s), seq![SItem::NotH]) }
    else if pre("\\v"@, s) { Out::Ok(rest("\\v"@, s), seq![SItem::V]) } else if pre("\\V"@, s) { Out::Ok(rest("\\V"@, s), seq![SItem::NotV]) }
    else if !(p_quoted_items(s) is No) { p_quoted_items(s) }
    else if !(p_ascii(s) is No) { one(p_ascii(s)) }
    else if !(p_unknown_ascii(s) is No) { p_unknown_ascii(s) }
    else if !(p_item_range(s) is No) { one(p_item_range(s)) }
    else { one(p_item_literal(s)) }
}
pub open spec fn g_item() -> spec_fn(Seq<char>) -> Out<Seq<SItem>> { |s: Seq<char>| p_item(s) }
pub open spec fn flat(v: Seq<Seq<SItem>>) -> Seq<SItem> decreases v.len() { if v.len() == 0 { seq![] } else { flat(v.drop_last()) + v.last() } }
// '[' or '[^', a ']' here being a literal (or the start of a range), items, ']'; not empty
pub open spec fn p_bracket(s: Seq<char>) -> Out<SClass> {
    if !pre("["@, s) { Out::No } else {
        let negated = pre("^"@, rest("["@, s));
        let s1 = after("^"@, rest("["@, s));
        let closing = pre("]"@, s1);
        let s2 = after("]"@, s1);
        let end = if closing { maybe(p_range_end(s2), s2) } else { Out::Ok(s2, None) };
        match end {
            Out::Ok(s3, b) => match many0(g_item(), s3) {
                Out::Ok(s4, v) => if !pre("]"@, s4) { Out::No } else {
                    let first = if !closing { seq![] } else { match b { Some(e) => seq![SItem::Range(']', e.0)], None => seq![SItem::Lit(']')] } };
                    let items = first + flat(v);
                    if items.len() == 0 { Out::No } else { Out::Ok(rest("]"@, s4), SClass::Bracket(negated, items)) }
                },
                Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
            },
            Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
        }
    }
}
pub open spec fn p_class(s: Seq<char>) -> Out<SClass> {
    if pre("."@, s) { Out::Ok(rest("."@, s), SClass::Dot) } else if pre("\\h"@, s) { Out::Ok(rest("\\h"@, s), SClass::H) } else if pre("\\H"@, s) { Out::Ok(rest("\\H"@, s), SClass::NotH) }
    else if pre("\\v"@, s) { Out::Ok(rest("\\v"@, s), SClass::V) } else if pre("\\V"@, s) { Out::Ok(rest("\\V"@, s), SClass::NotV) }
    else { match p_bracket(s) {
        Out::No => match p_perl(s) { Out::Ok(s1, p) => Out::Ok(s1, SClass::Perl(p)), Out::Fatal(e) => Out::Fatal(e), Out::No => match p_prop(s) { Out::Ok(s1, p) => Out::Ok(s1, SClass::Prop(p.0, p.1)), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } },
        o => o,
    } }
}
// -- groups and expressions; d is the nesting depth
pub open spec fn p_name(s: Seq<char>) -> Out<Seq<char>> {
    if s.len() > 0 && c_letters_().contains(s[0]) { let n = 1 + run(c_alnum_(), tail(s)); Out::Ok(s.subrange(n as int, s.len() as int), s.subrange(0, n as int)) } else { Out::No }
}
// an expression and the closing parenthesis
pub open spec fn p_inner(d: nat, s: Seq<char>) -> Out<SAst> decreases 60 - d, 9nat {
    match p_alternation(d, s) { Out::Ok(s1, a) => if pre(")"@, s1) { Out::Ok(rest(")"@, s1), a) } else { Out::No }, o => o }
}
pub open spec fn p_capture(d: nat, s: Seq<char>) -> Out<SGroup> decreases 60 - d, 10nat {
    if !pre("("@, s) { Out::No } else { match p_inner(d, rest("("@, s)) { Out::Ok(s1, a) => Out::Ok(s1, SGroup::Capturing(Box::new(a))), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } }
}
pub open spec fn p_non_capturing(d: nat, s: Seq<char>) -> Out<SGroup> decreases 60 - d, 10nat {
    if !pre("(?"@, s) { Out::No } else {
        match p_flags(rest("(?"@, s)) {
            Out::Ok(s1, f) => if !pre(":"@, s1) { Out::No } else { match p_inner(d, rest(":"@, s1)) { Out::Ok(s2, a) => Out::Ok(s2, SGroup::NonCapturing(f, Box::new(a))), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } },
            Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
        }
    }
}
pub open spec fn p_named_of(d: nat, open: Seq<char>, close: Seq<char>, s: Seq<char>) -> Out<SGroup> decreases 60 - d, 10nat {
    if !pre(open, s) { Out::No } else {
        match p_name(rest(open, s)) {
            Out::Ok(s1, name) => if !pre(close, s1) { Out::No } else { match p_inner(d, rest(close, s1)) { Out::Ok(s2, a) => Out::Ok(s2, SGroup::Named(name, Box::new(a))), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) } },
            Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
        }
    }
}
pub open spec fn p_named(d: nat, s: Seq<char>) -> Out<SGroup> decreases 60 - d, 11nat {
    let o1 = if pre("(?<"@, s) { p_named_of(d, "(?<"@, ">"@, s) } else { p_named_of(d, "(?P<"@, ">"@, s) };
    match o1 { Out::No => p_named_of(d, "(?'"@, "'"@, s), o => o }
}
pub open spec fn p_group(d: nat, s: Seq<char>) -> Out<SGroup> decreases 60 - d, 2nat {
    if d + 1 > RECURSION_LIMIT || d > 55 { Out::Fatal(ParseError::ExceededDepthLimit) }
    else { match p_non_capturing(d + 1, s) { Out::No => match p_capture(d + 1, s) { Out::No => p_named(d + 1, s), o => o }, o => o } }
}
pub open spec fn p_atom(d: nat, s: Seq<char>) -> Out<SAst> decreases 60 - d, 3nat {
    if !(p_quote(s) is No) { p_quote(s) }
    else { match p_flags_expression(s) { Out::Ok(s1, f) => Out::Ok(s1, SAst::Flags(f)), Out::Fatal(e) => Out::Fatal(e), Out::No =>
        match p_group(d, s) { Out::Ok(s1, g) => Out::Ok(s1, SAst::Group(g)), Out::Fatal(e) => Out::Fatal(e), Out::No =>
            match p_assertion(s) { Out::Ok(s1, a) => Out::Ok(s1, SAst::Assert(a)), Out::Fatal(e) => Out::Fatal(e), Out::No =>
                match p_class(s) { Out::Ok(s1, c) => Out::Ok(s1, SAst::Class(c)), Out::Fatal(e) => Out::Fatal(e), Out::No =>
                    match p_literal(LiteralKind::Normal, s) { Out::Ok(s1, l) => Out::Ok(s1, SAst::Lit(l.0, l.1)), Out::Fatal(e) => Out::Fatal(e), Out::No => Out::No } } } } } }
}
// an atom with its quantifier, if it has one
pub open spec fn p_atomic(d: nat, s: Seq<char>) -> Out<SAst> decreases 60 - d, 4nat {
    match p_atom(d, s) {
        Out::Ok(s1, a) => match p_quantifier(s1) { Out::Ok(s2, q) => Out::Ok(s2, SAst::Rep(q, Box::new(a))), Out::No => Out::Ok(s1, a), Out::Fatal(e) => Out::Fatal(e) },
        o => o,
    }
}
pub open spec fn p_concat(d: nat, s: Seq<char>) -> Out<SAst> decreases 60 - d, 6nat {
    match many1(g_atomic(d), s) { Out::Ok(s1, v) => Out::Ok(s1, if v.len() == 1 { v[0] } else { SAst::Concat(v) }), Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e) }
}
pub open spec fn p_alternation(d: nat, s: Seq<char>) -> Out<SAst> decreases 60 - d, 8nat {
    match separated("|"@, g_concat(d), s) {
        Out::Ok(s1, v) => Out::Ok(s1, if v.len() == 1 { or_empty(v[0]) } else { SAst::Alt(v.map_values(|o: Option<SAst>| or_empty(o))) }),
        Out::No => Out::No, Out::Fatal(e) => Out::Fatal(e),
    }
}
pub open spec fn or_empty(o: Option<SAst>) -> SAst { match o { Some(a) => a, None => SAst::Empty } }
pub open spec fn g_atomic(d: nat) -> spec_fn(Seq<char>) -> Out<SAst> decreases 60 - d, 5nat { |t: Seq<char>| p_atomic(d, t) }
pub open spec fn g_concat(d: nat) -> spec_fn(Seq<char>) -> Out<SAst> decreases 60 - d, 7nat { |t: Seq<char>| p_concat(d, t) }
pub open spec fn p_pattern(s: Seq<char>) -> Out<SAst> { match p_alternation(0, s) { Out::Ok(s1, a) => if s1.len() == 0 { Out::Ok(s1, a) } else { Out::No }, o => o } }
pub open spec fn parsed(r: Result<Ast, ParseError>, s: Seq<char>) -> bool {
    match p_pattern(s) { Out::Ok(_, a) => r is Ok && ast_v(r->Ok_0) == a, Out::No => r is Err && r->Err_0 is InvalidSyntax, Out::Fatal(e) => r is Err && r->Err_0 == e }
}
// ---- assumed contracts ---------------------------------------------------------------------------------
// nom::bytes::complete, nom::character::complete, nom::multi
#[verifier::external_body]
pub fn vp_tag<'a>(t: &str, i: Input<'a>) -> (r: ParseResult<'a, Input<'a>>) ensures ok(r, i.depth, p_tag(t@, i.value@)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_one_of<'a>(t: &str, i: Input<'a>) -> (r: ParseResult<'a, char>) ensures ok(r, i.depth, p_one_of(chars(t@), i.value@)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_none_of<'a>(t: &str, i: Input<'a>) -> (r: ParseResult<'a, char>) ensures ok(r, i.depth, p_none_of(chars(t@), i.value@)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_take_until<'a>(t: &str, i: Input<'a>) -> (r: ParseResult<'a, Input<'a>>) ensures ok(r, i.depth, p_until(t@, i.value@)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_many_of<'a>(t: &str, i: Input<'a>) -> (r: ParseResult<'a, Vec<char>>) ensures ok(r, i.depth, p_many_of(chars(t@), i.value@)) { unimplemented!() }
#[verifier::external_body]
pub fn vp_many0<'a, T: Tree, F: Fn(Input<'a>) -> ParseResult<'a, T>>(f: F, i: Input<'a>) -> (r: ParseResult<'a, Vec<T>>)
    requires forall|j: Input<'a>| j.depth == i.depth ==> #[trigger] f.requires((j,)),
    ensures forall|g: spec_fn(Seq<char>) -> Out<T::V>| #[trigger] agrees(f, g, i.depth) ==> ok(r, i.depth, many0(g, i.value@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_many1<'a, T: Tree, F: Fn(Input<'a>) -> ParseResult<'a, T>>(f: F, i: Input<'a>) -> (r: ParseResult<'a, Vec<T>>)
    requires forall|j: Input<'a>| j.depth == i.depth ==> #[trigger] f.requires((j,)),
    ensures forall|g: spec_fn(Seq<char>) -> Out<T::V>| #[trigger] agrees(f, g, i.depth) ==> ok(r, i.depth, many1(g, i.value@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_many_m_n<'a, T: Tree, F: Fn(Input<'a>) -> ParseResult<'a, T>>(m: usize, n: usize, f: F, i: Input<'a>) -> (r: ParseResult<'a, Vec<T>>)
    requires m == 0, forall|j: Input<'a>| j.depth == i.depth ==> #[trigger] f.requires((j,)),
    ensures forall|g: spec_fn(Seq<char>) -> Out<T::V>| #[trigger] agrees(f, g, i.depth) ==> ok(r, i.depth, up_to(n as nat, g, i.value@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_separated_opt<'a, T: Tree, F: Fn(Input<'a>) -> ParseResult<'a, T>>(t: &str, f: F, i: Input<'a>) -> (r: ParseResult<'a, Vec<Option<T>>>)
    requires forall|j: Input<'a>| j.depth == i.depth ==> #[trigger] f.requires((j,)),
    ensures forall|g: spec_fn(Seq<char>) -> Out<T::V>| #[trigger] agrees(f, g, i.depth) ==> ok(r, i.depth, separated(t@, g, i.value@)),
{ unimplemented!() }
// the text between two positions (nom::combinator::recognize)
#[verifier::external_body]
pub fn vp_between<'a>(i: Input<'a>, j: Input<'a>) -> (r: Input<'a>)
    requires j.value@.len() <= i.value@.len(),
    ensures r.depth == i.depth, r.value@ == i.value@.subrange(0, i.value@.len() - j.value@.len()),
{ unimplemented!() }
#[verifier::external_body]
pub fn digit1<'a>(i: Input<'a>) -> (r: ParseResult<'a, Input<'a>>)
    ensures ok(r, i.depth, if dec_run(i.value@) == 0 { Out::No } else { Out::Ok(i.value@.subrange(dec_run(i.value@) as int, i.value@.len() as int), i.value@.subrange(0, dec_run(i.value@) as int)) }),
{ unimplemented!() }
#[verifier::external_body]
pub fn eof<'a>(i: Input<'a>) -> (r: ParseResult<'a, Input<'a>>) ensures ok(r, i.depth, if i.value@.len() == 0 { Out::Ok(i.value@, i.value@) } else { Out::No }) { unimplemented!() }
// the recursion: `expression` is used by its contract
#[verifier::external_body]
pub fn vp_expression<'a>(input: Input<'a>) -> (r: ParseResult<'a, Ast>)
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_alternation(input.depth as nat, input.value@)),
{ unimplemented!() }
// std
#[verifier::external_body]
pub fn vp_u32(s: &str) -> (r: Result<u32, ()>) ensures s@.len() > 0 && all_dec(s@) ==> (if dec_val(s@) <= 0xffff_ffff { r == Ok::<u32, ()>(dec_val(s@) as u32) } else { r is Err }) { unimplemented!() }
#[verifier::external_body]
pub fn vp_radix16(s: &str) -> (r: Result<u32, ()>)
    ensures s@.len() == 0 ==> r is Err,
        s@.len() > 0 && s@[0] != '+' ==> (if all_hex(s@) && hex_val(s@) <= 0xffff_ffff { r == Ok::<u32, ()>(hex_val(s@) as u32) } else { r is Err }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_from_u32(n: u32) -> (r: Option<char>) ensures r == (if scalar(n as nat) { Some(n as char) } else { None }) { unimplemented!() }
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures 'A' <= *c <= 'Z' ==> r as u32 == *c as u32 + 32, !('A' <= *c <= 'Z') ==> r == *c;
pub fn vp_or(r: Result<u32, ()>, d: u32) -> (v: u32) ensures v == (match r { Ok(x) => x, Err(_) => d }) { match r { Ok(x) => x, Err(_) => d } }
#[verifier::external_body]
pub fn vp_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body]
pub fn vp_is_property(s: &str) -> (r: bool) ensures r == is_property(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_map_vec<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_flatten(v: Vec<Vec<BracketCharacterClassItem>>) -> (r: Vec<BracketCharacterClassItem>) ensures items_v(r@) == flat(v.tv()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_first(v: &Vec<Ast>) -> (r: Ast) requires v@.len() > 0 ensures r == v@[0] { unimplemented!() }
// ---- the code ------------------------------------------------------------------------------------------
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "perl_character_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_perl(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("\\d"); reveal_strlit("\\s"); reveal_strlit("\\w"); reveal_strlit("\\D"); reveal_strlit("\\S"); reveal_strlit("\\W"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "assertion"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_assertion(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("\\b"); reveal_strlit("\\B"); reveal_strlit("^"); reveal_strlit("$"); reveal_strlit("\\A"); reveal_strlit("\\z"); reveal_strlit("\\Z"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "flag"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_flag(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("i"); reveal_strlit("m"); reveal_strlit("s"); reveal_strlit("x"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "flags"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_flags(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("-"); }
proof { assert(agrees(flag, g_flag(), input.depth)); }'''
[[rewrite]]
from = '''many0($x)(input)'''
to = '''vp_run!(input; many0($x))'''
[[rewrite]]
from = '''opt($x)(input)'''
to = '''vp_run!(input; opt($x))'''
[[rewrite]]
from = '''remove.map(|$y| $e).unwrap_or($d)'''
to = '''match remove { Some($y) => $e, None => $d }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "flags_expression"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_flags_expression(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("(?"); reveal_strlit(")"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "integer"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_integer(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
proof { lemma_dec_run(input.value@); }'''
[[rewrite]]
from = '''u32::from_str($x).unwrap_or($d)'''
to = '''vp_or(vp_u32($x), $d)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quantifier_range_exact"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_range_exact(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("{"); reveal_strlit("}"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quantifier_range_min_max"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_range_min_max(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("{"); reveal_strlit(","); reveal_strlit("}"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quantifier_range_min"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_range_min(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("{"); reveal_strlit(","); reveal_strlit("}"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quantifier"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_quantifier(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("*"); reveal_strlit("+"); reveal_strlit("?"); }
proof { reveal_strlit("{"); reveal_strlit(","); reveal_strlit("}"); }'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
[[rewrite]]
from = '''opt($x)(input)'''
to = '''vp_run!(input; opt($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "unicode_property_name"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_prop_name(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; lemma_consts(); }
proof { lemma_name(input.value@); }'''
[[rewrite]]
from = '''recognize($x)(input)'''
to = '''vp_run!(input; recognize($x))'''
[[rewrite]]
from = '''UNICODE_PROPERTY_NAMES.contains(&$x)'''
to = '''vp_is_property($x)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "unicode_property_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_prop(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("\\p{"); reveal_strlit("}"); reveal_strlit("\\P{"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "hex_digit"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_hex_digit(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; lemma_consts(); }
'''
[[rewrite]]
from = '''one_of($x)(input)'''
to = '''vp_run!(input; one_of($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "escaped_control_sequence"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_control(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("c"); lemma_consts(); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''one_of($x)(input)'''
to = '''vp_run!(input; one_of($x))'''
[[rewrite]]
from = '''char::from_u32($x)'''
to = '''vp_from_u32($x)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "hex_escaped_literal"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_hex(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("x{"); reveal_strlit("}"); reveal_strlit("x"); }
proof { lemma_hex2(rest("x"@, input.value@)); reveal_strlit("x{"); }proof { assert(agrees(hex_digit, g_hex_digit(), input.depth)); }'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
[[rewrite]]
from = '''hex_string.value.starts_with($c)'''
to = '''vp_starts_with(hex_string.value, $c)'''
[[rewrite]]
from = '''u32::from_str_radix($x, 16).map_err(|_| $e)?'''
to = '''match vp_radix16($x) { Ok(v) => v, Err(_) => return Err($e) }'''
[[rewrite]]
from = '''u32::from_str_radix($x, 16).unwrap_or($d)'''
to = '''vp_or(vp_radix16($x), $d)'''
[[rewrite]]
from = '''char::from_u32($x)'''
to = '''vp_from_u32($x)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "escaped_literal"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_escaped(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("e"); reveal_strlit("f"); reveal_strlit("n"); reveal_strlit("r"); reveal_strlit("t"); reveal_strlit("v"); }
proof { reveal_strlit("c"); reveal_strlit("x"); reveal_strlit("x{"); }'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "literal"
kind = "closure"
closure = "move |input: Input| $body"
rename = "vp_literal"
sig = "fn vp_literal<'a>(kind: LiteralKind, input: Input<'a>) -> (r: ParseResult<'a, Literal>)"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_literal(kind, input.value@)),
'''
start = "proof { lemma_consts(); }"
[[rewrite]]
from = "opt($x)(input)"
to = "vp_run!(input; opt($x))"
[[rewrite]]
from = "alt(($x))(input)"
to = "vp_run!(input; alt(($x)))"
[[rewrite]]
from = "none_of($x)(input)"
to = "vp_run!(input; none_of($x))"
all = true
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quoted_literals"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_quoted(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("\\Q"); reveal_strlit("\\E"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''take_until($x)(input)'''
to = '''vp_run!(input; take_until($x))'''
[[rewrite]]
from = '''literals.value.chars().collect()'''
to = '''vp_chars(literals.value)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "quote_expression"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_quote(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
[[rewrite]]
from = '''literals.into_iter().map(|c| $e).collect::<Vec<_>>()'''
to = '''{ let ghost vp_l = literals@; let vp_m = vp_map_vec(literals, |c: char| -> (vp_r: Ast) ensures vp_r == ($e) { $e }); proof { assert(vp_m.tv() =~= vp_l.map_values(|c: char| SAst::Lit(c, true))); } vp_m }'''
[[rewrite]]
from = '''literals.first().unwrap().clone()'''
to = '''vp_first(&literals)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_ascii_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_ascii(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("[:"); reveal_strlit("^"); reveal_strlit("alnum"); reveal_strlit("alpha"); reveal_strlit("ascii"); reveal_strlit("blank"); reveal_strlit("cntrl"); reveal_strlit("digit"); reveal_strlit("graph"); reveal_strlit("lower"); reveal_strlit("print"); reveal_strlit("punct"); reveal_strlit("space"); reveal_strlit("upper"); reveal_strlit("word"); reveal_strlit("xdigit"); reveal_strlit(":]"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''opt($x)(input)'''
to = '''vp_run!(input; opt($x))'''
all = true
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_unknown_ascii_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_unknown_ascii(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("[:"); reveal_strlit("^"); reveal_strlit(":]"); lemma_consts(); }
'''
[[rewrite]]
from = '''tuple(($x))(input)'''
to = '''vp_run!(input; tuple(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_quoted_literals"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_quoted_items(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
[[rewrite]]
from = '''literals.into_iter().map($f).collect()'''
to = '''{ let ghost vp_l = literals@; let vp_m = vp_map_vec(literals, |c: char| -> (vp_r: BracketCharacterClassItem) ensures vp_r == $f(c) { $f(c) }); proof { assert(items_v(vp_m@) =~= vp_l.map_values(|c: char| SItem::Lit(c))); } vp_m }'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_range_end"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_range_end(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("-"); lemma_consts(); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''not($x)(input)'''
to = '''vp_run!(input; not($x))'''
all = true
[[rewrite]]
from = '''literal($x)(input)'''
to = '''vp_run!(input; literal($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_item_range"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_item_range(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
[[rewrite]]
from = '''literal($x)(input)'''
to = '''vp_run!(input; literal($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_item_literal"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_item_literal(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class_item"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_item(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("\\h"); reveal_strlit("\\H"); reveal_strlit("\\v"); reveal_strlit("\\V"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "bracket_character_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_bracket(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("["); reveal_strlit("^"); reveal_strlit("]"); }
proof { assert(agrees(bracket_character_class_item, g_item(), input.depth)); }'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''opt($x)(input)'''
to = '''vp_run!(input; opt($x))'''
all = true
[[rewrite]]
from = '''many0($x)(input)'''
to = '''vp_run!(input; many0($x))'''
[[rewrite]]
from = '''let mut items: Vec<_> = items.into_iter().flatten().collect();'''
to = '''let mut items: Vec<BracketCharacterClassItem> = vp_flatten(items);'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "character_class"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_class(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("."); reveal_strlit("\\h"); reveal_strlit("\\H"); reveal_strlit("\\v"); reveal_strlit("\\V"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "capture_group_name"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_name(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; lemma_consts(); }
proof { lemma_name(input.value@); }'''
[[rewrite]]
from = '''recognize($x)(input)'''
to = '''vp_run!(input; recognize($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "capture_group"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_capture(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("("); reveal_strlit(")"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''expression(input)'''
to = '''vp_expression(input)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "named_capture_group"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_named(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("(?<"); reveal_strlit("(?P<"); reveal_strlit(">"); reveal_strlit(")"); reveal_strlit("(?'"); reveal_strlit("'"); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
[[rewrite]]
from = '''name.to_string()'''
to = '''vp_string(name)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "non_capturing_group"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_non_capturing(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("(?"); reveal_strlit(":"); reveal_strlit(")"); }
'''
[[rewrite]]
from = '''tag($x)(input)'''
to = '''vp_run!(input; tag($x))'''
all = true
[[rewrite]]
from = '''expression(input)'''
to = '''vp_expression(input)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "group"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_group(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; lemma_consts(); }
'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "atomic"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_atomic(input.depth as nat, input.value@)),
'''
start = '''hide(p_quote); hide(p_flags_expression); hide(p_assertion); hide(p_class); hide(p_literal); hide(p_quantifier); proof { reveal_with_fuel(p_atomic, 2); reveal_with_fuel(p_atom, 2); }'''
[[rewrite]]
from = '''alt(($x))(input)'''
to = '''vp_run!(input; alt(($x)))'''
[[rewrite]]
from = '''opt($x)(input)'''
to = '''vp_run!(input; opt($x))'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "concat_expression"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_concat(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
proof { assert(agrees(atomic, g_atomic(input.depth as nat), input.depth)); }'''
[[rewrite]]
from = '''many1($x)(input)'''
to = '''vp_run!(input; many1($x))'''
[[rewrite]]
from = '''children.first().unwrap().clone()'''
to = '''vp_first(&children)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "alternate_expression"
kind = "closure"
closure = "map(|ast| $body)"
rename = "vp_branch"
sig = "fn vp_branch(ast: Option<Ast>) -> (r: Ast)"
contract = '''
    ensures r == (match ast { Some(a) => a, None => Ast::Empty }),
'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "alternate_expression"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_alternation(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; reveal_strlit("|"); }
proof { assert(agrees(concat_expression, g_concat(input.depth as nat), input.depth)); }'''
[[rewrite]]
from = '''separated_list1($x)(input)'''
to = '''vp_run!(input; separated_list1($x))'''
[[rewrite]]
from = '''children.into_iter().map($f).collect()'''
to = '''{ let ghost vp_l = children; let vp_m = vp_map_vec(children, vp_branch); proof { assert(vp_m.tv() =~= vp_l.tv().map_values(|o: Option<SAst>| or_empty(o))); } vp_m }'''
[[rewrite]]
from = '''children.first().unwrap().clone()'''
to = '''vp_first(&children)'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "expression"
ret = "r"
contract = '''
    requires input.depth <= RECURSION_LIMIT,
    ensures ok(r, input.depth, p_alternation(input.depth as nat, input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
@*/
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "regex_pattern"
ret = "r"
contract = '''
    requires input.depth == 0,
    ensures ok(r, input.depth, p_pattern(input.value@)),
'''
start = '''proof { broadcast use {lemma_pre, lemma_run, lemma_tv_flags, lemma_tv_chars, lemma_tv_items, lemma_concat, lemma_alternation, lemma_find, lemma_one, lemma_insert}; }
'''
@*/
impl<'a> Input<'a> {
/*@extract
file = "sds/src/parser/input.rs"
item = "From for Input::from"
rename = "vp_input"
ret = "r"
contract = "ensures r.value@ == value.0@, r.depth == value.1,"
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "InputLength for Input::input_len"
ret = "r"
contract = "ensures r == blen(self.value@),"
[[rewrite]]
from = 'self.value.len()'
to = 'vp_str_len(self.value)'
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "InputTake for Input::take"
ret = "r"
contract = "requires cut(self.value@, count as int), ensures r.value@ == text_before(self.value@, count as int), r.depth == self.depth,"
[[rewrite]]
from = 'self.value.take('
to = 'vp_str_take(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "InputTake for Input::take_split"
ret = "r"
contract = "requires cut(self.value@, count as int), ensures r.0.value@ == text_after(self.value@, count as int), r.1.value@ == text_before(self.value@, count as int), r.0.depth == self.depth, r.1.depth == self.depth,"
[[rewrite]]
from = 'self.value.take_split('
to = 'vp_str_take_split(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "InputIter for Input::slice_index"
ret = "r"
contract = "ensures r == vp_index_spec(self.value@, count),"
[[rewrite]]
from = 'Result<usize, Needed>'
to = 'Option<usize>'
[[rewrite]]
from = 'self.value.slice_index('
to = 'vp_str_slice_index(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "Slice for Input::slice"
nth = [0, 2]
rename = "slice_from"
ret = "r"
contract = "requires cut(self.value@, range as int), ensures r.value@ == text_after(self.value@, range as int), r.depth == self.depth,"
[[rewrite]]
from = 'range: RangeFrom<usize>'
to = 'range: usize'
[[rewrite]]
from = 'self.value.slice('
to = 'vp_str_slice_from(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "Slice for Input::slice"
nth = [1, 2]
rename = "slice_to"
ret = "r"
contract = "requires cut(self.value@, range as int), ensures r.value@ == text_before(self.value@, range as int), r.depth == self.depth,"
[[rewrite]]
from = 'range: RangeTo<usize>'
to = 'range: usize'
[[rewrite]]
from = 'self.value.slice('
to = 'vp_str_slice_to(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "Offset for Input::offset"
ret = "r"
contract = "ensures r == vp_offset_spec(self.value, second.value),"
[[rewrite]]
from = 'self.value.offset('
to = 'vp_str_offset(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "Input::compare"
ret = "r"
contract = "ensures r == vp_compare_spec(self.value@, t@),"
[[rewrite]]
from = 'CompareResult'
to = 'VpCompare'
[[rewrite]]
from = 'self.value.compare('
to = 'vp_str_compare(self.value, '
@*/
/*@extract
file = "sds/src/parser/input.rs"
item = "Input::find_substring"
ret = "r"
contract = "ensures r == vp_find_spec(self.value@, substr@),"
[[rewrite]]
from = 'self.value.find_substring('
to = 'vp_str_find(self.value, '
@*/
}
// how nom reports an error of its own: always as a syntax error; an error of a branch is passed on
pub struct Error<I> { pub input: I, pub code: u8 }
impl<I> Error<I> { pub fn new(input: I, code: u8) -> (r: Self) { Error { input, code } } }
impl ParseError {
/*@extract
file = "sds/src/parser/error.rs"
item = "ParseError::from_error_kind"
contract = "ensures r is InvalidSyntax,"
[[rewrite]]
from = "from_error_kind(input: Input<'a>, kind: ErrorKind) -> Self"
to = "from_error_kind<'a>(input: Input<'a>, kind: u8) -> (r: Self)"
@*/
/*@extract
file = "sds/src/parser/error.rs"
item = "ParseError::append"
contract = "ensures r == other,"
[[rewrite]]
from = "append(_input: Input<'a>, _kind: ErrorKind, other: Self) -> Self"
to = "append<'a>(_input: Input<'a>, _kind: u8, other: Self) -> (r: Self)"
@*/
/*@extract
file = "sds/src/parser/error.rs"
item = "From for ParseError::from"
contract = "ensures r is InvalidSyntax,"
[[rewrite]]
from = "from(_value: Error<Input<'a>>) -> Self"
to = "from<'a>(_value: Error<Input<'a>>) -> (r: Self)"
@*/
}
// nom's operations on &str; `text_before` and `text_after`: the text before and after a byte position
pub uninterp spec fn blen(s: Seq<char>) -> int;
pub uninterp spec fn cut(s: Seq<char>, n: int) -> bool;
pub uninterp spec fn text_before(s: Seq<char>, n: int) -> Seq<char>;
pub uninterp spec fn text_after(s: Seq<char>, n: int) -> Seq<char>;
pub enum VpCompare { Ok, Incomplete, Error }
pub uninterp spec fn vp_index_spec(s: Seq<char>, n: usize) -> Option<usize>;
pub uninterp spec fn vp_offset_spec(a: &str, b: &str) -> usize;
pub uninterp spec fn vp_compare_spec(s: Seq<char>, t: Seq<char>) -> VpCompare;
pub uninterp spec fn vp_find_spec(s: Seq<char>, t: Seq<char>) -> Option<usize>;
#[verifier::external_body] pub fn vp_str_len(s: &str) -> (r: usize) ensures r == blen(s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_take<'a>(s: &'a str, n: usize) -> (r: &'a str) requires cut(s@, n as int) ensures r@ == text_before(s@, n as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_take_split<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str)) requires cut(s@, n as int) ensures r.0@ == text_after(s@, n as int), r.1@ == text_before(s@, n as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_slice_index(s: &str, n: usize) -> (r: Option<usize>) ensures r == vp_index_spec(s@, n) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_slice_from<'a>(s: &'a str, n: usize) -> (r: &'a str) requires cut(s@, n as int) ensures r@ == text_after(s@, n as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_slice_to<'a>(s: &'a str, n: usize) -> (r: &'a str) requires cut(s@, n as int) ensures r@ == text_before(s@, n as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_offset(s: &str, t: &str) -> (r: usize) ensures r == vp_offset_spec(s, t) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_compare(s: &str, t: &str) -> (r: VpCompare) ensures r == vp_compare_spec(s@, t@) { unimplemented!() }
#[verifier::external_body] pub fn vp_str_find(s: &str, t: &str) -> (r: Option<usize>) ensures r == vp_find_spec(s@, t@) { unimplemented!() }
/*@extract
file = "sds/src/parser/regex_parser.rs"
item = "parse_regex_pattern"
ret = "r"
contract = '''
    ensures parsed(r, input@),
'''
[[rewrite]]
from = "regex_pattern(Input::from($x)).map_err(|err| $e)?"
to = "match regex_pattern(Input::vp_input($x)) { Ok(v) => v, Err(err) => return Err($e) }"
@*/

} // verus!
fn main() {}
