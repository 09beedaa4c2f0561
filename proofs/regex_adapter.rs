use vstd::prelude::*;
verus! {
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
global size_of usize == 8;
// ---- the syntax trees of the regex-syntax crate (declared as there) ------------------------------------
pub struct Position { pub offset: usize, pub line: usize, pub column: usize }
pub struct Span { pub start: Position, pub end: Position }
pub enum HexLiteralKind { X, UnicodeShort, UnicodeLong }
pub enum RegexLiteralKind { Verbatim, Meta, Superfluous, Octal, HexFixed(HexLiteralKind), HexBrace(HexLiteralKind), Special(u8) }
pub type RegexHexLiteralKind = HexLiteralKind;
pub struct RegexLiteral { pub span: Span, pub kind: RegexLiteralKind, pub c: char }
pub enum RegexClassAsciiKind { Alnum, Alpha, Ascii, Blank, Cntrl, Digit, Graph, Lower, Print, Punct, Space, Upper, Word, Xdigit }
pub struct RegexClassAscii { pub span: Span, pub kind: RegexClassAsciiKind, pub negated: bool }
pub enum RegexClassUnicodeKind { OneLetter(char), Named(String), NamedValue { op: u8, name: String, value: String } }
pub struct RegexClassUnicode { pub span: Span, pub negated: bool, pub kind: RegexClassUnicodeKind }
pub struct RegexClassSetRange { pub span: Span, pub start: RegexLiteral, pub end: RegexLiteral }
pub struct RegexClassSetUnion { pub span: Span, pub items: Vec<RegexClassSetItem> }
pub enum RegexClassSetItem { Empty(Span), Literal(RegexLiteral), Range(RegexClassSetRange), Ascii(RegexClassAscii), Unicode(RegexClassUnicode), Perl(u8), Bracketed(Box<RegexClassBracketed>), Union(RegexClassSetUnion) }
pub enum RegexClassSet { Item(RegexClassSetItem), BinaryOp(u8) }
pub struct RegexClassBracketed { pub span: Span, pub negated: bool, pub kind: RegexClassSet }
pub enum RegexClass { Unicode(RegexClassUnicode), Perl(u8), Bracketed(RegexClassBracketed) }
pub enum RegexFlag { CaseInsensitive, MultiLine, DotMatchesNewLine, SwapGreed, Unicode, CRLF, IgnoreWhitespace }
pub enum RegexFlagsItemKind { Negation, Flag(RegexFlag) }
pub struct RegexFlagsItem { pub span: Span, pub kind: RegexFlagsItemKind }
pub struct RegexFlags { pub span: Span, pub items: Vec<RegexFlagsItem> }
pub struct RegexSetFlags { pub span: Span, pub flags: RegexFlags }
pub enum RegexAssertionKind { StartLine, EndLine, StartText, EndText, WordBoundary, NotWordBoundary, Other(u8) }
pub struct RegexAssertion { pub span: Span, pub kind: RegexAssertionKind }
pub enum RepetitionRange { Exactly(u32), AtLeast(u32), Bounded(u32, u32) }
pub enum RegexRepetitionKind { ZeroOrOne, ZeroOrMore, OneOrMore, Range(RepetitionRange) }
pub struct RegexRepetitionOp { pub span: Span, pub kind: RegexRepetitionKind }
pub struct RegexRepetition { pub span: Span, pub op: RegexRepetitionOp, pub greedy: bool, pub ast: Box<RegexAst> }
pub struct RegexCaptureName { pub span: Span, pub name: String, pub index: u32 }
pub enum RegexGroupKind { CaptureIndex(u32), CaptureName { starts_with_p: bool, name: RegexCaptureName }, NonCapturing(RegexFlags) }
pub struct RegexGroup { pub span: Span, pub kind: RegexGroupKind, pub ast: Box<RegexAst> }
pub struct RegexConcat { pub span: Span, pub asts: Vec<RegexAst> }
pub struct RegexAlternation { pub span: Span, pub asts: Vec<RegexAst> }
pub enum RegexAst { Empty(Span), Flags(RegexSetFlags), Literal(RegexLiteral), Dot(Span), Assertion(RegexAssertion), Class(RegexClass), Repetition(RegexRepetition), Group(RegexGroup), Alternation(RegexAlternation), Concat(RegexConcat) }
// ---- the SDS syntax trees ------------------------------------------------------------------------------
/*@extract
file = "sds/src/parser/ast.rs"
item = "Ast"
kind = "enum"
[[rewrite]]
from = "Rc<Group>"
to = "Box<Group>"
@*/
#[derive(Copy, Clone)]
/*@extract
file = "sds/src/parser/ast.rs"
item = "Literal"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Group"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "CaptureGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "NonCapturingGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "NamedCapturingGroup"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "CharacterClass"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "UnicodePropertyClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "QuantifierKind"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Quantifier"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "PerlCharacterClass"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "BracketCharacterClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "BracketCharacterClassItem"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AsciiClass"
kind = "struct"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AsciiClassKind"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Repetition"
kind = "struct"
[[rewrite]]
from = "Rc<Ast>"
to = "Box<Ast>"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "AssertionType"
kind = "enum"
@*/
/*@extract
file = "sds/src/parser/ast.rs"
item = "Flags"
kind = "struct"
@*/
#[derive(Copy, Clone)]
/*@extract
file = "sds/src/parser/ast.rs"
item = "Flag"
kind = "enum"
@*/
use Ast as SdsAst; use Group as SdsGroup; use AssertionType as SdsAssertionType; use AsciiClassKind as SdsAsciiClassKind;
use BracketCharacterClassItem as SdsBracketCharacterClassItem; use Flag as SdsFlag; use Flags as SdsFlags; use PerlCharacterClass as SdsPerlCharacterClass;
use Quantifier as SdsQuantifier; use QuantifierKind as SdsQuantifierKind; use Repetition as SdsRepetition; use UnicodePropertyClass as SdsUnicodePropertyClass;
/*@extract
file = "sds/src/parser/error.rs"
item = "ParseError"
kind = "enum"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "LiteralKind"
kind = "enum"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "QUANTIFIER_LIMIT"
kind = "const"
@*/
impl Position { pub fn new(offset: usize, line: usize, column: usize) -> Position { Position { offset, line, column } } }
impl Span { pub fn new(start: Position, end: Position) -> Span { Span { start, end } } }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "span"
@*/
pub open spec fn touch<T>(c: T) -> bool { true }
// ---- characters ----------------------------------------------------------------------------------------
pub uninterp spec fn ws_beyond_ascii(c: char) -> bool;
pub open spec fn ws(c: char) -> bool { if c <= '\x7F' { hspace(c) || vspace(c) } else { ws_beyond_ascii(c) } }   // char::is_whitespace
pub uninterp spec fn case_variants(a: char, b: char) -> bool;      // simple case folding
pub uninterp spec fn has_property(name: Seq<char>, c: char) -> bool;
pub uninterp spec fn has_property_letter(l: char, c: char) -> bool;
pub open spec fn meta(c: char) -> bool { c == '\\' || c == '.' || c == '+' || c == '*' || c == '?' || c == '(' || c == ')' || c == '|' || c == '[' || c == ']' || c == '{' || c == '}' || c == '^' || c == '$' || c == '#' || c == '&' || c == '-' || c == '~' }
#[verifier::external_body]
pub fn vp_is_whitespace(c: char) -> (r: bool) ensures r == ws(c) { unimplemented!() }
#[verifier::external_body]
pub fn vp_is_meta(c: char) -> (r: bool) ensures r == meta(c) { unimplemented!() }
#[verifier::external_body]
pub fn vp_is_escapeable(c: char) -> (r: bool) { unimplemented!() }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "ASCII_WHITESPACE_CHARS"
kind = "const"
[[rewrite]]
from = "const ASCII_WHITESPACE_CHARS: &[char] = &[$x];"
to = "open spec fn ascii_ws_list() -> Seq<char> { seq![$x] }"
@*/
#[verifier::external_body]
pub fn vp_ascii_whitespace(c: char) -> (r: bool) ensures r == ascii_ws_list().contains(c) { unimplemented!() }
// a stands for c: it is c, or (i flag) a case variant of it
pub open spec fn like(ci: bool, a: char, c: char) -> bool { a == c || ci && case_variants(a, c) }
pub open spec fn within(a: char, lo: char, hi: char) -> bool { lo <= a && a <= hi }
// ---- what the classes contain: (i flag, character) ------------------------------------------------------
pub open spec fn lit_in(ci: bool, l: char, c: char) -> bool { like(ci, l, c) }
pub open spec fn range_in(ci: bool, lo: char, hi: char, c: char) -> bool { exists|a: char| within(a, lo, hi) && #[trigger] like(ci, a, c) }
pub open spec fn digit(a: char) -> bool { within(a, '0', '9') }
pub open spec fn upper(a: char) -> bool { within(a, 'A', 'Z') }
pub open spec fn lower(a: char) -> bool { within(a, 'a', 'z') }
pub open spec fn word(a: char) -> bool { digit(a) || upper(a) || lower(a) || a == '_' }
pub open spec fn hspace(a: char) -> bool { a == ' ' || a == '\t' }
pub open spec fn vspace(a: char) -> bool { a == '\n' || a == '\x0B' || a == '\x0C' || a == '\r' }
pub open spec fn posix(k: AsciiClassKind, a: char) -> bool {
    match k {
        AsciiClassKind::Alnum => digit(a) || upper(a) || lower(a),
        AsciiClassKind::Alpha => upper(a) || lower(a),
        AsciiClassKind::Ascii => within(a, '\x00', '\x7F'),
        AsciiClassKind::Blank => hspace(a),
        AsciiClassKind::Cntrl => within(a, '\x00', '\x1F') || a == '\x7F',
        AsciiClassKind::Digit => digit(a),
        AsciiClassKind::Graph => within(a, '!', '~'),
        AsciiClassKind::Lower => lower(a),
        AsciiClassKind::Print => within(a, ' ', '~'),
        AsciiClassKind::Punct => within(a, '!', '/') || within(a, ':', '@') || within(a, '[', '`') || within(a, '{', '~'),
        AsciiClassKind::Space => hspace(a) || vspace(a),
        AsciiClassKind::Upper => upper(a),
        AsciiClassKind::Word => word(a),
        AsciiClassKind::Xdigit => digit(a) || within(a, 'A', 'F') || within(a, 'a', 'f'),
    }
}
// [:x:] in the regex crate (ascii_class of regex-syntax)
pub open spec fn rust_posix(k: RegexClassAsciiKind, a: char) -> bool {
    match k {
        RegexClassAsciiKind::Alnum => within(a, '0', '9') || within(a, 'A', 'Z') || within(a, 'a', 'z'),
        RegexClassAsciiKind::Alpha => within(a, 'A', 'Z') || within(a, 'a', 'z'),
        RegexClassAsciiKind::Ascii => within(a, '\x00', '\x7F'),
        RegexClassAsciiKind::Blank => a == '\t' || a == ' ',
        RegexClassAsciiKind::Cntrl => within(a, '\x00', '\x1F') || a == '\x7F',
        RegexClassAsciiKind::Digit => within(a, '0', '9'),
        RegexClassAsciiKind::Graph => within(a, '!', '~'),
        RegexClassAsciiKind::Lower => within(a, 'a', 'z'),
        RegexClassAsciiKind::Print => within(a, ' ', '~'),
        RegexClassAsciiKind::Punct => within(a, '!', '/') || within(a, ':', '@') || within(a, '[', '`') || within(a, '{', '~'),
        RegexClassAsciiKind::Space => a == '\t' || a == '\n' || a == '\x0B' || a == '\x0C' || a == '\r' || a == ' ',
        RegexClassAsciiKind::Upper => within(a, 'A', 'Z'),
        RegexClassAsciiKind::Word => within(a, '0', '9') || within(a, 'A', 'Z') || within(a, 'a', 'z') || a == '_',
        RegexClassAsciiKind::Xdigit => within(a, '0', '9') || within(a, 'A', 'F') || within(a, 'a', 'f'),
    }
}
pub open spec fn perl_in(ci: bool, p: PerlCharacterClass, c: char) -> bool {
    match p {
        PerlCharacterClass::Digit => exists|a: char| digit(a) && #[trigger] like(ci, a, c),
        PerlCharacterClass::Space => exists|a: char| (hspace(a) || vspace(a)) && #[trigger] like(ci, a, c),
        PerlCharacterClass::Word => exists|a: char| word(a) && #[trigger] like(ci, a, c),
        PerlCharacterClass::NonDigit => !perl_in0(ci, 0, c),
        PerlCharacterClass::NonSpace => !perl_in0(ci, 1, c),
        PerlCharacterClass::NonWord => !perl_in0(ci, 2, c),
    }
}
pub open spec fn perl_in0(ci: bool, k: int, c: char) -> bool { exists|a: char| (if k == 0 { digit(a) } else if k == 1 { hspace(a) || vspace(a) } else { word(a) }) && #[trigger] like(ci, a, c) }
pub open spec fn hspace_in(ci: bool, c: char) -> bool { exists|a: char| hspace(a) && #[trigger] like(ci, a, c) }
pub open spec fn vspace_in(ci: bool, c: char) -> bool { exists|a: char| vspace(a) && #[trigger] like(ci, a, c) }
pub open spec fn prop_in(ci: bool, p: UnicodePropertyClass, c: char) -> bool { p.negate != exists|a: char| has_property(p.name@, a) && #[trigger] like(ci, a, c) }
pub open spec fn item_in(ci: bool, it: BracketCharacterClassItem, c: char) -> bool {
    match it {
        BracketCharacterClassItem::Literal(l) => lit_in(ci, l, c),
        BracketCharacterClassItem::Range(lo, hi) => range_in(ci, lo, hi, c),
        BracketCharacterClassItem::PerlCharacterClass(p) => perl_in(ci, p, c),
        BracketCharacterClassItem::UnicodeProperty(p) => prop_in(ci, p, c),
        BracketCharacterClassItem::AsciiClass(k) => k.negated != exists|a: char| posix(k.kind, a) && #[trigger] like(ci, a, c),
        BracketCharacterClassItem::HorizontalWhitespace => hspace_in(ci, c),
        BracketCharacterClassItem::NotHorizontalWhitespace => !hspace_in(ci, c),
        BracketCharacterClassItem::VerticalWhitespace => vspace_in(ci, c),
        BracketCharacterClassItem::NotVerticalWhitespace => !vspace_in(ci, c),
    }
}
pub open spec fn items_in(ci: bool, v: Seq<BracketCharacterClassItem>, c: char) -> bool { exists|k: int| 0 <= k < v.len() && item_in(ci, #[trigger] v[k], c) }
// the same for the classes of the regex crate
pub open spec fn rust_prop_in(ci: bool, p: RegexClassUnicode, c: char) -> bool {
    p.negated != exists|a: char| (match p.kind { RegexClassUnicodeKind::Named(n) => has_property(n@, a), RegexClassUnicodeKind::OneLetter(l) => has_property_letter(l, a), _ => false }) && #[trigger] like(ci, a, c)
}
pub open spec fn rust_item_in(ci: bool, it: RegexClassSetItem, c: char) -> bool
    decreases it
{
    match it {
        RegexClassSetItem::Empty(_) => false,
        RegexClassSetItem::Literal(l) => like(ci, l.c, c),
        RegexClassSetItem::Range(r) => range_in(ci, r.start.c, r.end.c, c),
        RegexClassSetItem::Ascii(k) => k.negated != exists|a: char| rust_posix(k.kind, a) && #[trigger] like(ci, a, c),
        RegexClassSetItem::Unicode(p) => rust_prop_in(ci, p, c),
        RegexClassSetItem::Perl(_) => false,
        RegexClassSetItem::Bracketed(b) => b.negated != match b.kind { RegexClassSet::Item(i) => rust_item_in(ci, i, c), RegexClassSet::BinaryOp(_) => false },
        RegexClassSetItem::Union(u) => exists|k: int| 0 <= k < u.items@.len() && rust_item_in(ci, #[trigger] u.items@[k], c),
    }
}
pub open spec fn rust_items_in(ci: bool, v: Seq<RegexClassSetItem>, c: char) -> bool { exists|k: int| 0 <= k < v.len() && rust_item_in(ci, #[trigger] v[k], c) }
pub open spec fn rust_bracket_in(ci: bool, b: RegexClassBracketed, c: char) -> bool { b.negated != match b.kind { RegexClassSet::Item(i) => rust_item_in(ci, i, c), RegexClassSet::BinaryOp(_) => false } }
// what a printed literal of a class stands for: itself (nothing ends the class, nothing is skipped under x, nothing becomes an operator)
pub open spec fn lit_prints(l: RegexLiteral, class: bool) -> bool {
    match l.kind {
        RegexLiteralKind::Verbatim => !meta(l.c) && (class ==> !ws(l.c)),
        RegexLiteralKind::Meta => meta(l.c),
        RegexLiteralKind::HexBrace(HexLiteralKind::X) => true,
        _ => false,
    }
}
pub open spec fn item_prints(it: RegexClassSetItem) -> bool
    decreases it
{
    match it {
        RegexClassSetItem::Empty(_) => true,
        RegexClassSetItem::Literal(l) => lit_prints(l, true),
        RegexClassSetItem::Range(r) => lit_prints(r.start, true) && lit_prints(r.end, true),
        RegexClassSetItem::Ascii(_) => true,
        RegexClassSetItem::Unicode(p) => p.kind is Named,
        RegexClassSetItem::Perl(_) => false,
        RegexClassSetItem::Bracketed(b) => match b.kind { RegexClassSet::Item(i) => item_prints(i), RegexClassSet::BinaryOp(_) => false },
        RegexClassSetItem::Union(u) => forall|k: int| 0 <= k < u.items@.len() ==> item_prints(#[trigger] u.items@[k]),
    }
}
pub open spec fn bracket_prints(b: RegexClassBracketed) -> bool { match b.kind { RegexClassSet::Item(i) => item_prints(i), RegexClassSet::BinaryOp(_) => false } }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_literal"
ret = "r"
contract = '''
    ensures
        r.c == literal.c,
        lit_prints(r, kind is BracketedCharacterClass),
        // ignored under x exactly if it is unescaped whitespace
        kind is Normal ==> (r.kind is Verbatim && ws(r.c) <==> !literal.escaped && ws(literal.c)),
'''
start = "proof { let l = ascii_ws_list(); assert(touch(l[0]) && touch(l[1]) && touch(l[2]) && touch(l[3]) && touch(l[4]) && touch(l[5]) && touch(l[6]) && touch(l[7])); }"
[[rewrite]]
from = "regex_syntax::is_meta_character($x)"
to = "vp_is_meta($x)"
[[rewrite]]
from = "kind == LiteralKind::BracketedCharacterClass"
to = "matches!(kind, LiteralKind::BracketedCharacterClass)"
[[rewrite]]
from = "kind == LiteralKind::Normal"
to = "matches!(kind, LiteralKind::Normal)"
[[rewrite]]
from = "literal.c.is_whitespace()"
to = "vp_is_whitespace(literal.c)"
[[rewrite]]
from = "ASCII_WHITESPACE_CHARS.contains(&literal.c)"
to = "vp_ascii_whitespace(literal.c)"
[[rewrite]]
from = "regex_syntax::is_escapeable_character($x)"
to = "vp_is_escapeable($x)"
@*/
pub proof fn lemma_union(b: RegexClassBracketed)
    ensures
        b.kind matches RegexClassSet::Item(RegexClassSetItem::Union(u)) ==> (forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, b, c) == (b.negated != rust_items_in(ci, u.items@, c)))
            && (bracket_prints(b) <==> forall|k: int| 0 <= k < u.items@.len() ==> item_prints(#[trigger] u.items@[k])),
{
    reveal_with_fuel(rust_item_in, 2); reveal_with_fuel(item_prints, 2);
    if let RegexClassSet::Item(RegexClassSetItem::Union(u)) = b.kind {
        assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, b, c) == (b.negated != rust_items_in(ci, u.items@, c)) by {}
    }
}
pub open spec fn one_item(l: RegexClassSetItem, it: BracketCharacterClassItem) -> bool {
    match (l, it) {
        (RegexClassSetItem::Bracketed(b), _) => forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, *b, c) == item_in(ci, it, c),
        _ => forall|ci: bool, c: char| #[trigger] rust_item_in(ci, l, c) == item_in(ci, it, c),
    }
}
pub proof fn lemma_one(l: RegexClassSetItem, it: BracketCharacterClassItem)
    requires one_item(l, it),
    ensures forall|ci: bool, c: char| #[trigger] rust_item_in(ci, l, c) == item_in(ci, it, c),
{
    if let RegexClassSetItem::Bracketed(b) = l {
        assert forall|ci: bool, c: char| #[trigger] rust_item_in(ci, l, c) == item_in(ci, it, c) by { assert(rust_bracket_in(ci, *b, c) == item_in(ci, it, c)); }
    }
}
pub open spec fn items_of(b: RegexClassBracketed) -> Seq<RegexClassSetItem> { match b.kind { RegexClassSet::Item(RegexClassSetItem::Union(u)) => u.items@, _ => seq![] } }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "horizontal_whitespace"
ret = "r"
contract = '''
    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == (negated != hspace_in(ci, c)), bracket_prints(r),
'''
tail = '''
proof {
    lemma_union(vp_r); let s = items_of(vp_r); assert(touch(s[0]) && touch(s[1]) && touch(s[2]) && touch(s[3]) && touch(s[4]) && touch(s[5]) && touch(s[6]) && touch(s[7]) && true);
    assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == (negated != hspace_in(ci, c)) by {}
}
'''
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "vertical_whitespace"
ret = "r"
contract = '''
    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == (negated != vspace_in(ci, c)), bracket_prints(r),
'''
tail = '''
proof {
    lemma_union(vp_r); let s = items_of(vp_r); assert(touch(s[0]) && touch(s[1]) && touch(s[2]) && touch(s[3]) && touch(s[4]) && touch(s[5]) && touch(s[6]) && touch(s[7]) && true);
    assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == (negated != vspace_in(ci, c)) by {}
}
'''
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "perl_class_digit"
ret = "r"
contract = '''
    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == (negated != perl_in0(ci, 0, c)), bracket_prints(r),
'''
tail = '''
proof {
    lemma_union(vp_r); let s = items_of(vp_r); assert(touch(s[0]) && touch(s[1]) && touch(s[2]) && touch(s[3]) && touch(s[4]) && touch(s[5]) && touch(s[6]) && touch(s[7]) && true);
    assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == (negated != perl_in0(ci, 0, c)) by {}
}
'''
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "perl_class_space"
ret = "r"
contract = '''
    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == (negated != perl_in0(ci, 1, c)), bracket_prints(r),
'''
tail = '''
proof {
    lemma_union(vp_r); let s = items_of(vp_r); assert(touch(s[0]) && touch(s[1]) && touch(s[2]) && touch(s[3]) && touch(s[4]) && touch(s[5]) && touch(s[6]) && touch(s[7]) && true);
    assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == (negated != perl_in0(ci, 1, c)) by {}
}
'''
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "perl_class_word"
ret = "r"
contract = '''
    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == (negated != perl_in0(ci, 2, c)), bracket_prints(r),
'''
tail = '''
proof {
    lemma_union(vp_r); let s = items_of(vp_r); assert(touch(s[0]) && touch(s[1]) && touch(s[2]) && touch(s[3]) && touch(s[4]) && touch(s[5]) && touch(s[6]) && touch(s[7]) && true);
    assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == (negated != perl_in0(ci, 2, c)) by {}
}
'''
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_perl_class"
ret = "r"
contract = "    ensures forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, r, c) == perl_in(ci, *class, c), bracket_prints(r),"
tail = "proof { assert forall|ci: bool, c: char| #[trigger] rust_bracket_in(ci, vp_r, c) == perl_in(ci, *class, c) by { let _ = (perl_in0(ci, 0, c), perl_in0(ci, 1, c), perl_in0(ci, 2, c)); } }"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_ascii_class_kind"
ret = "r"
contract = "    ensures forall|a: char| #[trigger] rust_posix(r, a) == posix(*kind, a),"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_unicode_class"
ret = "r"
contract = "    ensures r.kind is Named, forall|ci: bool, c: char| #[trigger] rust_prop_in(ci, r, c) == prop_in(ci, *class, c),"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_bracket_items"
ret = "r"
contract = '''
    ensures
        forall|ci: bool, c: char| #[trigger] rust_items_in(ci, r@, c) == items_in(ci, items@, c),
        forall|k: int| 0 <= k < r@.len() ==> item_prints(#[trigger] r@[k]),
'''
[[rewrite]]
from = "for item in items"
to = "for item in vp_it: items"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        vp_it.seq().len() == items@.len(), forall|k: int| 0 <= k < items@.len() ==> *vp_it.seq()[k] == items@[k],
        forall|ci: bool, c: char| #[trigger] rust_items_in(ci, output@, c) == items_in(ci, items@.take(vp_it.index()), c),
        forall|k: int| 0 <= k < output@.len() ==> item_prints(#[trigger] output@[k]),
'''
start = "let ghost o0 = output@; let ghost n0 = vp_it.index();"
end = '''proof {
    let l = output@[o0.len() as int];
    assert(output@.len() == o0.len() + 1 && forall|k: int| 0 <= k < o0.len() ==> #[trigger] output@[k] == o0[k]);
    lemma_one(l, *item);
    let t = items@.take(n0 + 1);
    assert forall|ci: bool, c: char| #[trigger] rust_items_in(ci, output@, c) == items_in(ci, t, c) by {
        assert(rust_items_in(ci, o0, c) == items_in(ci, items@.take(n0), c));
        assert(t[n0] == *item);
        if rust_items_in(ci, o0, c) { let k = choose|k: int| 0 <= k < o0.len() && rust_item_in(ci, #[trigger] o0[k], c); assert(rust_item_in(ci, output@[k], c)); }
        if items_in(ci, items@.take(n0), c) { let k = choose|k: int| 0 <= k < n0 && item_in(ci, #[trigger] items@.take(n0)[k], c); assert(t[k] == items@.take(n0)[k]); }
        if rust_items_in(ci, output@, c) { let k = choose|k: int| 0 <= k < output@.len() && rust_item_in(ci, #[trigger] output@[k], c); if k < o0.len() { assert(rust_item_in(ci, o0[k], c)); } }
        if items_in(ci, t, c) { let k = choose|k: int| 0 <= k < t.len() && item_in(ci, #[trigger] t[k], c); if k < n0 { assert(items@.take(n0)[k] == t[k]); } }
    }
}'''
after = "proof { assert(items@.take(items@.len() as int) =~= items@); }"
@*/
// ---- flags -----------------------------------------------------------------------------------------------
pub struct Eff { pub i: Option<bool>, pub m: Option<bool>, pub s: Option<bool>, pub x: Option<bool>, pub u: Option<bool>, pub others: bool }
pub open spec fn negated_at(v: Seq<RegexFlagsItem>, k: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] v[j]).kind is Negation }
pub open spec fn is_flag(it: RegexFlagsItem, f: RegexFlag) -> bool { it.kind == RegexFlagsItemKind::Flag(f) }
pub open spec fn turned_on(v: Seq<RegexFlagsItem>, f: RegexFlag) -> bool { exists|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && !negated_at(v, k) }
pub open spec fn turned_off(v: Seq<RegexFlagsItem>, f: RegexFlag) -> bool { exists|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && negated_at(v, k) }
pub open spec fn effect(v: Seq<RegexFlagsItem>, f: RegexFlag) -> Option<bool> { if turned_off(v, f) { Some(false) } else if turned_on(v, f) { Some(true) } else { None } }
pub open spec fn rust_eff(v: Seq<RegexFlagsItem>) -> Eff {
    Eff { i: effect(v, RegexFlag::CaseInsensitive), m: effect(v, RegexFlag::MultiLine), s: effect(v, RegexFlag::DotMatchesNewLine), x: effect(v, RegexFlag::IgnoreWhitespace),
        u: effect(v, RegexFlag::Unicode), others: effect(v, RegexFlag::SwapGreed) is Some || effect(v, RegexFlag::CRLF) is Some }
}
// flags print as something the regex crate accepts: each at most once, at most one "-", and it is not last
pub open spec fn flags_print(v: Seq<RegexFlagsItem>) -> bool {
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> (#[trigger] v[j]).kind != (#[trigger] v[k]).kind
    &&& v.len() > 0 ==> !(v.last().kind is Negation)
}
pub open spec fn sds_effect(f: Flags, x: Flag) -> Option<bool> { if f.remove@.contains(x) { Some(false) } else if f.add@.contains(x) { Some(true) } else { None } }
pub open spec fn sds_eff(f: Flags) -> Eff {
    Eff { i: sds_effect(f, Flag::CaseInsensitive), m: sds_effect(f, Flag::MultiLine), s: sds_effect(f, Flag::DotMatchesNewLine), x: sds_effect(f, Flag::IgnoreWhitespace), u: None, others: false }
}
pub open spec fn of_flag(f: Flag) -> RegexFlag {
    match f { Flag::CaseInsensitive => RegexFlag::CaseInsensitive, Flag::MultiLine => RegexFlag::MultiLine, Flag::DotMatchesNewLine => RegexFlag::DotMatchesNewLine, Flag::IgnoreWhitespace => RegexFlag::IgnoreWhitespace }
}
pub open spec fn rank(f: Flag) -> int { match f { Flag::CaseInsensitive => 0, Flag::MultiLine => 1, Flag::DotMatchesNewLine => 2, Flag::IgnoreWhitespace => 3 } }
pub open spec fn sorted(v: Seq<Flag>) -> bool { forall|j: int, k: int| 0 <= j < k < v.len() ==> rank(#[trigger] v[j]) <= rank(#[trigger] v[k]) }
#[verifier::external_body]
pub fn vp_clone(v: &Vec<Flag>) -> (r: Vec<Flag>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_sort(v: &mut Vec<Flag>) ensures sorted(final(v)@), forall|f: Flag| #[trigger] final(v)@.contains(f) <==> old(v)@.contains(f) { unimplemented!() }
#[verifier::external_body]
pub fn vp_dedup(v: &mut Vec<Flag>) ensures sorted(old(v)@) ==> final(v)@.no_duplicates(), forall|f: Flag| #[trigger] final(v)@.contains(f) <==> old(v)@.contains(f) { unimplemented!() }
#[verifier::external_body]
pub fn vp_contains(v: &Vec<Flag>, f: &Flag) -> (r: bool) ensures r == v@.contains(*f) { unimplemented!() }
#[verifier::external_body]
pub fn vp_remove_all(v: &mut Vec<Flag>, f: Flag) ensures old(v)@.no_duplicates() ==> final(v)@.no_duplicates(), forall|g: Flag| #[trigger] final(v)@.contains(g) <==> old(v)@.contains(g) && g != f { unimplemented!() }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_flag"
ret = "r"
contract = "    ensures r == of_flag(*flag),"
@*/
pub open spec fn flag_items(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>) -> bool {
    &&& v.len() == add.len() + if remove.len() > 0 { 1 + remove.len() } else { 0 }
    &&& forall|k: int| 0 <= k < add.len() ==> (#[trigger] v[k]).kind == RegexFlagsItemKind::Flag(of_flag(add[k]))
    &&& remove.len() > 0 ==> v[add.len() as int].kind is Negation
    &&& forall|k: int| 0 <= k < remove.len() ==> v[add.len() + 1 + k].kind == RegexFlagsItemKind::Flag(of_flag(#[trigger] remove[k]))
}
pub open spec fn flags_of(add: Seq<Flag>, remove: Seq<Flag>, f: Flags) -> bool {
    &&& add.no_duplicates() && remove.no_duplicates()
    &&& forall|x: Flag| #[trigger] remove.contains(x) <==> f.remove@.contains(x)
    &&& forall|x: Flag| #[trigger] add.contains(x) <==> f.add@.contains(x) && !f.remove@.contains(x)
}
pub proof fn lemma_item(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, k: int)
    requires flag_items(v, add, remove), 0 <= k < v.len(),
    ensures
        k < add.len() ==> v[k].kind == RegexFlagsItemKind::Flag(of_flag(add[k])),
        k == add.len() ==> v[k].kind is Negation,
        k > add.len() ==> 0 <= k - add.len() - 1 < remove.len() && v[k].kind == RegexFlagsItemKind::Flag(of_flag(remove[k - add.len() - 1])),
        negated_at(v, k) == (k > add.len()),
{
    if k > add.len() { assert(touch(remove[k - add.len() - 1])); assert(v[add.len() as int].kind is Negation); }
}
pub proof fn lemma_on(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, x: Flag)
    requires flag_items(v, add, remove),
    ensures turned_on(v, of_flag(x)) == add.contains(x), turned_off(v, of_flag(x)) == remove.contains(x),
{
    let f = of_flag(x);
    if turned_on(v, f) { let k = choose|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && !negated_at(v, k); lemma_item(v, add, remove, k); assert(add[k] == x); }
    if add.contains(x) { let k = choose|k: int| 0 <= k < add.len() && add[k] == x; lemma_item(v, add, remove, k); assert(is_flag(v[k], f)); }
    if turned_off(v, f) { let k = choose|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && negated_at(v, k); lemma_item(v, add, remove, k); assert(remove[k - add.len() - 1] == x); }
    if remove.contains(x) { let k = choose|k: int| 0 <= k < remove.len() && remove[k] == x; lemma_item(v, add, remove, add.len() + 1 + k); assert(is_flag(v[add.len() + 1 + k], f)); }
}
pub proof fn lemma_others(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, f: RegexFlag)
    requires flag_items(v, add, remove), f is Unicode || f is SwapGreed || f is CRLF,
    ensures effect(v, f) is None,
{
    if turned_on(v, f) { let k = choose|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && !negated_at(v, k); lemma_item(v, add, remove, k); }
    if turned_off(v, f) { let k = choose|k: int| 0 <= k < v.len() && is_flag(#[trigger] v[k], f) && negated_at(v, k); lemma_item(v, add, remove, k); }
}
pub proof fn lemma_effect(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, f: Flags, x: Flag)
    requires flag_items(v, add, remove), flags_of(add, remove, f),
    ensures effect(v, of_flag(x)) == sds_effect(f, x),
{
    lemma_on(v, add, remove, x);
    assert(remove.contains(x) == f.remove@.contains(x));
    assert(add.contains(x) == (f.add@.contains(x) && !f.remove@.contains(x)));
}
pub proof fn lemma_distinct(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, f: Flags, j: int, k: int)
    requires flag_items(v, add, remove), flags_of(add, remove, f), 0 <= j < k < v.len(),
    ensures v[j].kind != v[k].kind,
{
    lemma_item(v, add, remove, j); lemma_item(v, add, remove, k);
    let n = add.len() as int;
    if j < n && k > n {
        assert(add.contains(add[j])); assert(!f.remove@.contains(add[j])); assert(!remove.contains(add[j]));
        if remove[k - n - 1] == add[j] { assert(remove.contains(add[j])); }
    }
}
pub proof fn lemma_flags(v: Seq<RegexFlagsItem>, add: Seq<Flag>, remove: Seq<Flag>, f: Flags)
    requires flag_items(v, add, remove), flags_of(add, remove, f),
    ensures rust_eff(v) == sds_eff(f), flags_print(v), v.len() > 0 <==> f.add@.len() + f.remove@.len() > 0,
{
    lemma_effect(v, add, remove, f, Flag::CaseInsensitive); lemma_effect(v, add, remove, f, Flag::MultiLine);
    lemma_effect(v, add, remove, f, Flag::DotMatchesNewLine); lemma_effect(v, add, remove, f, Flag::IgnoreWhitespace);
    lemma_others(v, add, remove, RegexFlag::Unicode); lemma_others(v, add, remove, RegexFlag::SwapGreed); lemma_others(v, add, remove, RegexFlag::CRLF);
    assert forall|j: int, k: int| 0 <= j < k < v.len() implies (#[trigger] v[j]).kind != (#[trigger] v[k]).kind by { lemma_distinct(v, add, remove, f, j, k); }
    if v.len() > 0 { lemma_item(v, add, remove, v.len() - 1); }
    if f.add@.len() > 0 { let x = f.add@[0]; assert(f.add@.contains(x)); assert(add.contains(x) || remove.contains(x)); }
    if f.remove@.len() > 0 { let x = f.remove@[0]; assert(f.remove@.contains(x)); assert(remove.contains(x)); }
    if v.len() > 0 { if add.len() > 0 { assert(add.contains(add[0])); } else { assert(remove.contains(remove[0])); } }
}
pub proof fn lemma_take(v: Seq<Flag>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|f: Flag| #[trigger] v.take(n + 1).contains(f) <==> v.take(n).contains(f) || f == v[n],
{
    assert(v.take(n + 1) =~= v.take(n).push(v[n]));
    assert forall|f: Flag| #[trigger] v.take(n + 1).contains(f) <==> v.take(n).contains(f) || f == v[n] by { lemma_push(v.take(n), v.take(n + 1), f); }
}
pub proof fn lemma_push(a: Seq<Flag>, b: Seq<Flag>, f: Flag)
    ensures b == a ==> b.contains(f) == a.contains(f), b.len() == a.len() + 1 && b == a.push(b.last()) ==> b.contains(f) == (a.contains(f) || f == b.last()),
{
    if b.len() == a.len() + 1 && b == a.push(b.last()) {
        if a.contains(f) { let k = choose|k: int| 0 <= k < a.len() && a[k] == f; assert(b[k] == f); }
        if f == b.last() { assert(b[b.len() - 1] == f); }
        if b.contains(f) { let k = choose|k: int| 0 <= k < b.len() && b[k] == f; if k < a.len() { assert(a[k] == f); } }
    }
}
#[verifier::loop_isolation(false)]
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_flags"
ret = "r"
contract = "    ensures rust_eff(r.items@) == sds_eff(*flags), flags_print(r.items@), r.items@.len() > 0 <==> flags.add@.len() + flags.remove@.len() > 0,"
[[rewrite]]
from = "flags.add.clone()"
to = "vp_clone(&flags.add)"
[[rewrite]]
from = "flags.remove.clone()"
to = "vp_clone(&flags.remove)"
[[rewrite]]
from = "add_flags.sort();"
to = "vp_sort(&mut add_flags);"
optional = true
[[rewrite]]
from = "add_flags.dedup();"
to = "vp_dedup(&mut add_flags);"
optional = true
[[rewrite]]
from = "remove_flags.sort();"
to = "vp_sort(&mut remove_flags);"
optional = true
[[rewrite]]
from = "remove_flags.dedup();"
to = "vp_dedup(&mut remove_flags);"
optional = true
[[rewrite]]
from = "add_flags.contains(flag)"
to = "vp_contains(&add_flags, flag)"
[[rewrite]]
from = "add_flags.retain(|x| *x != flag);"
to = "vp_remove_all(&mut add_flags, flag);"
[[rewrite]]
from = "let mut items = vec![];"
to = "let mut items: Vec<RegexFlagsItem> = vec![];"
[[rewrite]]
from = "let mut flags_in_both = vec![];"
to = "let mut flags_in_both: Vec<Flag> = vec![];"
[[rewrite]]
from = "in &remove_flags"
to = "in vp_it: &remove_flags"
all = true
[[rewrite]]
from = "in flags_in_both"
to = "in vp_it: flags_in_both"
[[rewrite]]
from = "in &add_flags"
to = "in vp_it: &add_flags"
[[loop]]
n = 0
kind = "for"
spec = '''
    invariant
        vp_it.seq().len() == remove_flags@.len(), forall|k: int| 0 <= k < remove_flags@.len() ==> *vp_it.seq()[k] == remove_flags@[k],
        forall|f: Flag| #[trigger] flags_in_both@.contains(f) <==> add_flags@.contains(f) && remove_flags@.take(vp_it.index()).contains(f),
'''
start = "let ghost b0 = flags_in_both@; let ghost n0 = vp_it.index();"
end = '''proof {
    lemma_take(remove_flags@, n0);
    assert forall|f: Flag| #[trigger] flags_in_both@.contains(f) <==> add_flags@.contains(f) && remove_flags@.take(n0 + 1).contains(f) by { lemma_push(b0, flags_in_both@, f); }
}'''
after = "proof { assert(remove_flags@.take(remove_flags@.len() as int) =~= remove_flags@); }"
[[loop]]
n = 1
kind = "for"
before = "let ghost a0 = add_flags@; let ghost both = flags_in_both@;"
spec = '''
    invariant
        vp_it.seq() == both, add_flags@.no_duplicates(),
        forall|f: Flag| #[trigger] add_flags@.contains(f) <==> a0.contains(f) && !both.take(vp_it.index()).contains(f),
'''
start = "proof { lemma_take(both, vp_it.index()); }"
after = "proof { assert(both.take(both.len() as int) =~= both); }"
[[loop]]
n = 2
kind = "for"
spec = '''
    invariant
        vp_it.seq().len() == add_flags@.len(), forall|k: int| 0 <= k < add_flags@.len() ==> *vp_it.seq()[k] == add_flags@[k],
        items@.len() == vp_it.index(), forall|k: int| 0 <= k < items@.len() ==> (#[trigger] items@[k]).kind == RegexFlagsItemKind::Flag(of_flag(add_flags@[k])),
'''
[[loop]]
n = 3
kind = "for"
spec = '''
    invariant
        vp_it.seq().len() == remove_flags@.len(), forall|k: int| 0 <= k < remove_flags@.len() ==> *vp_it.seq()[k] == remove_flags@[k],
        items@.len() == add_flags@.len() + 1 + vp_it.index(), items@[add_flags@.len() as int].kind is Negation,
        forall|k: int| 0 <= k < add_flags@.len() ==> (#[trigger] items@[k]).kind == RegexFlagsItemKind::Flag(of_flag(add_flags@[k])),
        forall|k: int| 0 <= k < vp_it.index() ==> items@[add_flags@.len() + 1 + k].kind == RegexFlagsItemKind::Flag(of_flag(#[trigger] remove_flags@[k])),
'''
[[before]]
pattern = "RegexFlags { span: span(), items,"
text = "proof { lemma_flags(items@, add_flags@, remove_flags@, *flags); }"
@*/
// ---- the meaning of a pattern ------------------------------------------------------------------------------
pub enum Look { StartLine, EndLine, StartText, EndText, AsciiWord, NotAsciiWord, UnicodeWord, NotUnicodeWord, Other(u8) }
pub enum Den {
    Nil,                                      // the empty text
    Char(char),                               // this character
    Skippable(char),                          // this character, nothing if the x flag is on
    Any,
    Set(ISet<(bool, char)>),                  // a character of the set: (i flag, character)
    Look(Look),
    Flags(Eff),                               // flags from here on
    Cap(Option<Seq<char>>, Box<Den>),         // capture
    Scope(Eff, Box<Den>),                     // flags for the inner part
    Cat(Seq<Den>),
    Alt(Seq<Den>),
    Rep(nat, Option<nat>, bool, Box<Den>),    // least, most, lazy
    Unknown,
}
pub open spec fn plain(e: Eff) -> bool { e.i is None && e.m is None && e.s is None && e.x is None && !e.others }
pub open spec fn scope(e: Eff, d: Den) -> Den { if plain(e) { d } else { Den::Scope(Eff { u: None, ..e }, Box::new(d)) } }
pub open spec fn newline_opt(l: Look) -> Den { Den::Cat(seq![Den::Rep(0, Some(1), false, Box::new(Den::Char('\n'))), Den::Look(l)]) }
// ... of an SDS pattern
pub open spec fn count(k: QuantifierKind) -> (nat, Option<nat>) {
    match k {
        QuantifierKind::ZeroOrMore => (0, None), QuantifierKind::OneOrMore => (1, None), QuantifierKind::ZeroOrOne => (0, Some(1)),
        QuantifierKind::RangeExact(n) => (n as nat, Some(n as nat)), QuantifierKind::RangeMinMax(n, m) => (n as nat, Some(m as nat)), QuantifierKind::RangeMin(n) => (n as nat, None),
    }
}
pub open spec fn class_den(cl: CharacterClass) -> Den {
    match cl {
        CharacterClass::Bracket(b) => Den::Set(ISet::new(|p: (bool, char)| b.negated != items_in(p.0, b.items@, p.1))),
        CharacterClass::Perl(k) => Den::Set(ISet::new(|p: (bool, char)| perl_in(p.0, k, p.1))),
        CharacterClass::Dot => Den::Any,
        CharacterClass::HorizontalWhitespace => Den::Set(ISet::new(|p: (bool, char)| hspace_in(p.0, p.1))),
        CharacterClass::NotHorizontalWhitespace => Den::Set(ISet::new(|p: (bool, char)| !hspace_in(p.0, p.1))),
        CharacterClass::VerticalWhitespace => Den::Set(ISet::new(|p: (bool, char)| vspace_in(p.0, p.1))),
        CharacterClass::NotVerticalWhitespace => Den::Set(ISet::new(|p: (bool, char)| !vspace_in(p.0, p.1))),
        CharacterClass::UnicodeProperty(k) => Den::Set(ISet::new(|p: (bool, char)| prop_in(p.0, k, p.1))),
    }
}
pub open spec fn den(a: Ast) -> Den
    decreases a
{
    match a {
        Ast::Empty => Den::Nil,
        Ast::Literal(l) => if !l.escaped && ws(l.c) { Den::Skippable(l.c) } else { Den::Char(l.c) },
        Ast::Concat(v) => Den::Cat(Seq::new(v@.len(), |k: int| if 0 <= k < v@.len() { den(v@[k]) } else { Den::Unknown })),
        Ast::Alternation(v) => Den::Alt(Seq::new(v@.len(), |k: int| if 0 <= k < v@.len() { den(v@[k]) } else { Den::Unknown })),
        Ast::Group(g) => match *g {
            Group::Capturing(x) => Den::Cap(None, Box::new(den(x.inner))),
            Group::NonCapturing(x) => scope(sds_eff(x.flags), den(x.inner)),
            Group::NamedCapturing(x) => Den::Cap(Some(x.name@), Box::new(den(x.inner))),
        },
        Ast::CharacterClass(c) => class_den(c),
        Ast::Repetition(r) => Den::Rep(count(r.quantifier.kind).0, count(r.quantifier.kind).1, r.quantifier.lazy, Box::new(den(*r.inner))),
        Ast::Assertion(k) => match k {
            AssertionType::WordBoundary => Den::Look(Look::AsciiWord),
            AssertionType::NotWordBoundary => Den::Look(Look::NotAsciiWord),
            AssertionType::StartLine => Den::Look(Look::StartLine),
            AssertionType::EndLine => newline_opt(Look::EndLine),
            AssertionType::StartText => Den::Look(Look::StartText),
            AssertionType::EndText => Den::Look(Look::EndText),
            AssertionType::EndTextOptionalNewline => newline_opt(Look::EndText),
        },
        Ast::Flags(f) => Den::Flags(sds_eff(f)),
    }
}
// ... of a pattern of the regex crate, in Unicode mode or not
pub open spec fn rust_count(k: RegexRepetitionKind) -> (nat, Option<nat>) {
    match k {
        RegexRepetitionKind::ZeroOrMore => (0, None), RegexRepetitionKind::OneOrMore => (1, None), RegexRepetitionKind::ZeroOrOne => (0, Some(1)),
        RegexRepetitionKind::Range(RepetitionRange::Exactly(n)) => (n as nat, Some(n as nat)), RegexRepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (n as nat, Some(m as nat)),
        RegexRepetitionKind::Range(RepetitionRange::AtLeast(n)) => (n as nat, None),
    }
}
pub open spec fn rust_den(a: RegexAst, u: bool) -> Den
    decreases a
{
    match a {
        RegexAst::Empty(_) => Den::Nil,
        RegexAst::Flags(f) => if rust_eff(f.flags.items@).u is Some { Den::Unknown } else { Den::Flags(rust_eff(f.flags.items@)) },
        RegexAst::Literal(l) => if l.kind is Verbatim && ws(l.c) { Den::Skippable(l.c) } else { Den::Char(l.c) },
        RegexAst::Dot(_) => Den::Any,
        RegexAst::Assertion(k) => Den::Look(match k.kind {
            RegexAssertionKind::StartLine => Look::StartLine, RegexAssertionKind::EndLine => Look::EndLine, RegexAssertionKind::StartText => Look::StartText, RegexAssertionKind::EndText => Look::EndText,
            RegexAssertionKind::WordBoundary => if u { Look::UnicodeWord } else { Look::AsciiWord },
            RegexAssertionKind::NotWordBoundary => if u { Look::NotUnicodeWord } else { Look::NotAsciiWord },
            RegexAssertionKind::Other(n) => Look::Other(n),
        }),
        RegexAst::Class(c) => match c {
            RegexClass::Bracketed(b) => Den::Set(ISet::new(|p: (bool, char)| rust_bracket_in(p.0, b, p.1))),
            RegexClass::Unicode(k) => Den::Set(ISet::new(|p: (bool, char)| rust_prop_in(p.0, k, p.1))),
            RegexClass::Perl(_) => Den::Unknown,
        },
        RegexAst::Repetition(r) => Den::Rep(rust_count(r.op.kind).0, rust_count(r.op.kind).1, !r.greedy, Box::new(rust_den(*r.ast, u))),
        RegexAst::Group(g) => match g.kind {
            RegexGroupKind::CaptureIndex(_) => Den::Cap(None, Box::new(rust_den(*g.ast, u))),
            RegexGroupKind::CaptureName { starts_with_p, name } => Den::Cap(Some(name.name@), Box::new(rust_den(*g.ast, u))),
            RegexGroupKind::NonCapturing(f) => scope(rust_eff(f.items@), rust_den(*g.ast, match rust_eff(f.items@).u { Some(b) => b, None => u })),
        },
        RegexAst::Alternation(v) => Den::Alt(Seq::new(v.asts@.len(), |k: int| if 0 <= k < v.asts@.len() { rust_den(v.asts@[k], u) } else { Den::Unknown })),
        RegexAst::Concat(v) => Den::Cat(Seq::new(v.asts@.len(), |k: int| if 0 <= k < v.asts@.len() { rust_den(v.asts@[k], u) } else { Den::Unknown })),
    }
}
// the text printed for the tree is parsed back as a tree with the same meaning
pub open spec fn prints(a: RegexAst) -> bool
    decreases a
{
    match a {
        RegexAst::Empty(_) => true,
        RegexAst::Flags(f) => flags_print(f.flags.items@) && f.flags.items@.len() > 0,
        RegexAst::Literal(l) => lit_prints(l, false),
        RegexAst::Dot(_) => true,
        RegexAst::Assertion(k) => !(k.kind is Other),
        RegexAst::Class(c) => match c { RegexClass::Bracketed(b) => bracket_prints(b), RegexClass::Unicode(k) => k.kind is Named, RegexClass::Perl(_) => false },
        RegexAst::Repetition(r) => prints(*r.ast) && atom(*r.ast),
        RegexAst::Group(g) => prints(*g.ast) && match g.kind { RegexGroupKind::NonCapturing(f) => flags_print(f.items@), _ => true },
        RegexAst::Alternation(v) => forall|k: int| 0 <= k < v.asts@.len() ==> prints(#[trigger] v.asts@[k]),
        RegexAst::Concat(v) => forall|k: int| 0 <= k < v.asts@.len() ==> prints(#[trigger] v.asts@[k]) && !(v.asts@[k] is Alternation),
    }
}
// trees as the parser builds them, but for a quantifier after \Q..\E or after flags, and flags naming none
pub open spec fn parsed(a: Ast) -> bool
    decreases a
{
    match a {
        Ast::Concat(v) => forall|k: int| 0 <= k < v@.len() ==> parsed(#[trigger] v@[k]) && !(v@[k] is Alternation),
        Ast::Alternation(v) => forall|k: int| 0 <= k < v@.len() ==> parsed(#[trigger] v@[k]),
        Ast::Group(g) => match *g { Group::Capturing(x) => parsed(x.inner), Group::NonCapturing(x) => parsed(x.inner), Group::NamedCapturing(x) => parsed(x.inner) },
        Ast::Repetition(r) => parsed(*r.inner) && match *r.inner { Ast::Empty | Ast::Flags(_) | Ast::Repetition(_) | Ast::Alternation(_) | Ast::Concat(_) => false, _ => true },
        Ast::Flags(f) => f.add@.len() + f.remove@.len() > 0,
        _ => true,
    }
}
pub open spec fn count_ok(k: QuantifierKind) -> bool {
    match k { QuantifierKind::RangeExact(n) => n <= 3000, QuantifierKind::RangeMinMax(n, m) => n <= 3000 && m <= 3000, QuantifierKind::RangeMin(n) => n <= 3000, _ => true }
}
pub open spec fn counts_ok(a: Ast) -> bool
    decreases a
{
    match a {
        Ast::Concat(v) => forall|k: int| 0 <= k < v@.len() ==> counts_ok(#[trigger] v@[k]),
        Ast::Alternation(v) => forall|k: int| 0 <= k < v@.len() ==> counts_ok(#[trigger] v@[k]),
        Ast::Group(g) => match *g { Group::Capturing(x) => counts_ok(x.inner), Group::NonCapturing(x) => counts_ok(x.inner), Group::NamedCapturing(x) => counts_ok(x.inner) },
        Ast::Repetition(r) => counts_ok(*r.inner) && count_ok(r.quantifier.kind),
        _ => true,
    }
}
// the conversion of a tree
pub open spec fn converts(a: Ast, r: Result<RegexAst, ParseError>) -> bool {
    &&& r is Ok <==> counts_ok(a)
    &&& r is Err ==> r->Err_0 is ExceededQuantifierLimit
    &&& r is Ok ==> rust_den(r->Ok_0, true) == den(a) && (parsed(a) ==> prints(r->Ok_0)) && (r->Ok_0 is Alternation ==> a is Alternation)
        && (a is Literal || a is Group || a is CharacterClass || a is Assertion && !(a->Assertion_0 is EndLine || a->Assertion_0 is EndTextOptionalNewline) ==> atom(r->Ok_0))
}
pub open spec fn atom(r: RegexAst) -> bool { match r { RegexAst::Empty(_) | RegexAst::Flags(_) | RegexAst::Repetition(_) | RegexAst::Alternation(_) | RegexAst::Concat(_) => false, _ => true } }
// list.iter().map(convert_ast).collect::<Result<_, _>>()
#[verifier::exec_allows_no_decreases_clause]
fn vp_convert_all(list: &Vec<Ast>) -> (r: Result<Vec<RegexAst>, ParseError>)
    ensures
        r is Ok <==> forall|k: int| 0 <= k < list@.len() ==> counts_ok(#[trigger] list@[k]),
        r is Err ==> r->Err_0 is ExceededQuantifierLimit,
        r is Ok ==> (r->Ok_0)@.len() == list@.len() && forall|k: int| 0 <= k < list@.len() ==> converts(list@[k], Ok(#[trigger] (r->Ok_0)@[k])),
{
    let mut out: Vec<RegexAst> = vec![];
    let mut i: usize = 0;
    while i < list.len()
        invariant
            i <= list@.len(), out@.len() == i,
            forall|k: int| 0 <= k < i ==> counts_ok(#[trigger] list@[k]),
            forall|k: int| 0 <= k < i ==> converts(list@[k], Ok(#[trigger] out@[k])),
        decreases list@.len() - i,
    {
        match convert_ast(&list[i]) {
            Ok(x) => out.push(x),
            Err(e) => { assert(!counts_ok(list@[i as int])); return Err(e); }
        }
        i = i + 1;
    }
    Ok(out)
}
// Rc is a Box here
pub struct Rc;
impl Rc { pub fn new<T>(x: T) -> (r: Box<T>) ensures *r == x { Box::new(x) } }
pub proof fn lemma_no_unicode(v: Seq<RegexFlagsItem>)
    ensures
        v.len() == 2 && v[0].kind is Negation && is_flag(v[1], RegexFlag::Unicode) ==> plain(rust_eff(v)) && rust_eff(v).u == Some(false),
        v.len() == 0 ==> plain(rust_eff(v)) && rust_eff(v).u is None,
{
    if v.len() == 2 && v[0].kind is Negation && is_flag(v[1], RegexFlag::Unicode) { assert(negated_at(v, 1)); assert(turned_off(v, RegexFlag::Unicode)); }
}
// \n?$
pub open spec fn optional_newline(r: RegexAst) -> bool {
    r matches RegexAst::Repetition(p) && p.greedy && p.op.kind is ZeroOrOne && (*p.ast matches RegexAst::Literal(l) && l.c == '\n' && l.kind == RegexLiteralKind::HexBrace(HexLiteralKind::X))
}
pub open spec fn line_end(r: RegexAst) -> bool {
    r matches RegexAst::Concat(v) && v.asts@.len() == 2 && optional_newline(v.asts@[0]) && (v.asts@[1] matches RegexAst::Assertion(k) && k.kind is EndLine)
}
pub proof fn lemma_optional_newline(r: RegexAst)
    requires optional_newline(r),
    ensures rust_den(r, true) == Den::Rep(0, Some(1), false, Box::new(Den::Char('\n'))), prints(r),
{
    reveal_with_fuel(rust_den, 2); reveal_with_fuel(prints, 2);
}
pub proof fn lemma_line_end(r: RegexAst)
    ensures line_end(r) ==> rust_den(r, true) == newline_opt(Look::EndLine) && prints(r),
{
    if line_end(r) {
        let v = (r->Concat_0).asts@;
        lemma_optional_newline(v[0]);
        reveal_with_fuel(rust_den, 2); reveal_with_fuel(prints, 2);
        assert(rust_den(v[1], true) == Den::Look(Look::EndLine));
        assert(rust_den(r, true)->Cat_0 =~= newline_opt(Look::EndLine)->Cat_0);
    }
}
pub open spec fn sds_optional_newline(a: Ast) -> bool {
    a matches Ast::Repetition(p) && !p.quantifier.lazy && p.quantifier.kind is ZeroOrOne && (*p.inner matches Ast::Literal(l) && l.c == '\n' && l.escaped)
}
pub open spec fn text_end(a: Ast) -> bool { a matches Ast::Concat(v) && v@.len() == 2 && sds_optional_newline(v@[0]) && v@[1] == Ast::Assertion(AssertionType::EndText) }
pub proof fn lemma_text_end(a: Ast)
    ensures text_end(a) ==> den(a) == newline_opt(Look::EndText) && parsed(a) && counts_ok(a),
{
    if text_end(a) {
        let v = (a->Concat_0)@;
        reveal_with_fuel(den, 3); reveal_with_fuel(parsed, 3); reveal_with_fuel(counts_ok, 3);
        assert(den(v[0]) == Den::Rep(0, Some(1), false, Box::new(Den::Char('\n'))));
        assert(den(v[1]) == Den::Look(Look::EndText));
        assert(den(a)->Cat_0 =~= newline_opt(Look::EndText)->Cat_0);
    }
}
#[verifier::exec_allows_no_decreases_clause]
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_ast"
kind = "closure"
closure = "SdsAst::Assertion(assertion_type) => $body , SdsAst::CharacterClass"
sig = "fn vp_assertion(assertion_type: &AssertionType) -> (r: Result<RegexAst, ParseError>)"
contract = "    ensures converts(Ast::Assertion(*assertion_type), r),"
tail = '''proof {
    lemma_line_end(vp_r);
    if vp_r is Group { let k = (vp_r->Group_0).kind; if k is NonCapturing { lemma_no_unicode((k->NonCapturing_0).items@); } reveal_with_fuel(rust_den, 2); reveal_with_fuel(prints, 2); }
}'''
tail_value = "Ok(vp_r)"
[[rewrite]]
from = "convert_ast(&SdsAst::Concat($x))?"
to = "{ let vp_a = SdsAst::Concat($x); proof { lemma_text_end(vp_a); } convert_ast(&vp_a)? }"
@*/
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_ast"
kind = "closure"
closure = "SdsAst::CharacterClass(class) => $body ,"
sig = "fn vp_class(class: &CharacterClass) -> (r: RegexAst)"
contract = "    ensures converts(Ast::CharacterClass(*class), Ok(r)), r is Class || r is Dot,"
tail = '''proof {
    let d = den(Ast::CharacterClass(*class)); let e = rust_den(vp_r, true);
    if vp_r is Class { let c = vp_r->Class_0; if c is Bracketed { lemma_union(c->Bracketed_0); } }
    if d is Set && e is Set { assert(e->Set_0 =~= d->Set_0); }
}'''
@*/
#[verifier::exec_allows_no_decreases_clause]
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_ast"
ret = "r"
contract = "    ensures converts(*sds_ast, r),"
start = "proof { reveal_with_fuel(rust_den, 2); reveal_with_fuel(prints, 2); }"
tail = '''proof {
    let a = *sds_ast; let r = vp_r->Ok_0; let d = den(a); let e = rust_den(r, true);
    if a is Concat && r is Concat {
        let v = (r->Concat_0).asts@;
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] e->Cat_0[k] == d->Cat_0[k] by { assert(converts(a->Concat_0@[k], Ok(v[k]))); }
        assert(e->Cat_0 =~= d->Cat_0);
    }
    if a is Alternation && r is Alternation {
        let v = (r->Alternation_0).asts@;
        assert forall|k: int| 0 <= k < v.len() implies #[trigger] e->Alt_0[k] == d->Alt_0[k] by { assert(converts(a->Alternation_0@[k], Ok(v[k]))); }
        assert(e->Alt_0 =~= d->Alt_0);
    }
    if r is Repetition && *(r->Repetition_0).ast is Group { let k = (*(r->Repetition_0).ast)->Group_0.kind; if k is NonCapturing { lemma_no_unicode((k->NonCapturing_0).items@); } }
}'''
[[rewrite]]
from = "group.as_ref()"
to = "&**group"
[[rewrite]]
from = "repetition.inner.as_ref()"
to = "&*repetition.inner"
[[rewrite]]
from = "list.iter().map(convert_ast).collect::<Result<_, _>>()?"
to = "vp_convert_all(list)?"
all = true
[[rewrite]]
from = "SdsAst::Assertion(assertion_type) => match assertion_type { $x }"
to = "SdsAst::Assertion(assertion_type) => vp_assertion(assertion_type)?"
[[rewrite]]
from = "SdsAst::CharacterClass(class) => match class { $x }"
to = "SdsAst::CharacterClass(class) => vp_class(class)"
@*/
// ---- the whole conversion ----------------------------------------------------------------------------------
pub uninterp spec fn parse_of(p: Seq<char>) -> Result<Ast, ParseError>;      // the parser (checked by the driver)
pub uninterp spec fn printed(r: RegexAst) -> Seq<char>;                      // Display of regex-syntax
#[verifier::external_body]
fn parse_regex_pattern(p: &str) -> (r: Result<Ast, ParseError>) ensures r == parse_of(p@) { unimplemented!() }
#[verifier::external_body]
fn vp_print(r: RegexAst) -> (t: String) ensures t@ == printed(r) { unimplemented!() }
pub open spec fn converted_text(a: Ast, t: Seq<char>) -> bool { exists|x: RegexAst| t == #[trigger] printed(x) && rust_den(x, true) == den(a) && (parsed(a) ==> prints(x)) }
/*@extract
file = "sds/src/normalization/rust_regex_adapter.rs"
item = "convert_to_rust_regex"
ret = "r"
contract = """
    ensures
        parse_of(pattern@) is Err ==> r is Err && r->Err_0 == parse_of(pattern@)->Err_0,
        parse_of(pattern@) is Ok ==> (r is Ok <==> counts_ok(parse_of(pattern@)->Ok_0)) && (r is Err ==> r->Err_0 is ExceededQuantifierLimit),
        r is Ok ==> converted_text(parse_of(pattern@)->Ok_0, (r->Ok_0)@),
"""
[[rewrite]]
from = "regex_ast.to_string()"
to = "vp_print(regex_ast)"
@*/
} // verus!
fn main() {}
