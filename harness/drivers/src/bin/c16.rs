//! What an SDS pattern matches: random pattern trees are printed in SDS syntax and, independently, in
//! the syntax of the regex crate; the scanner must accept exactly the non-empty, small, well-formed
//! ones and find the same matches.
use dd_sds::*;
use drivers::{Rng, Run};
use regex::{Regex, RegexBuilder};

#[derive(Clone, Debug)]
enum It { Lit(char, u8), Range(char, char, u8), Perl(char), Posix(&'static str, bool), Prop(&'static str, bool), Quote(String), Hyphen(char, u8, Box<It>) /* c-\d : the hyphen is a literal */ }
#[derive(Clone, Debug)]
enum N {
    Lit(char, u8),                 // character, way of writing it
    Space(char),                   // unescaped whitespace, ignored (x flag in force)
    Raw(&'static str),             // text that is literal although it looks like a quantifier
    Perl(char), Dot, Prop(&'static str, bool),
    Class(bool, bool, Vec<It>),    // negated, ']' first, items
    Look(&'static str),
    Quote(String),
    Flags(String, String),
    Group(u8, String, String, Box<N>), // kind, add, remove, inner
    Rep(Box<N>, u32, Option<u32>, bool, u8), // min, max, lazy, way of writing it
    Cat(Vec<N>), Alt(Vec<N>),
}
const CHARS: &[char] = &['a', 'b', 'c', 'A', 'B', 'Z', 'k', 's', '1', '2', '_', '-', ' ', '\n', '\t', '\u{b}', '\u{c}', '\r', 'é', 'É', 'ſ', '\u{212a}', '#', '&', '~', '<', '>', '=', '!', ',', ':', ';', '%', '"', '\'', '/', '@', '`', '{', '}', '[', ']', '(', ')', '.', '*', '+', '?', '|', '^', '$', '\\', '\u{1}', '\u{7}', '\u{8}', '\u{1b}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{3000}', '日', '😀', '٣', 'i', 'm', 'y', 'I', 'O', 'T', '0', '9'];
const PROPS: &[&str] = &["L", "Lu", "Ll", "Nd", "P", "Zs", "S", "Greek", "Latin", "Cc", "Han"];
const POSIX: &[&str] = &["alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"];

fn hex(c: char) -> String { format!("\\x{{{:X}}}", c as u32) }
/// SDS text of a literal outside ([false]) or inside a bracket class
fn sds_lit(c: char, how: u8, class: bool, x: bool) -> String {
    let named = match c { '\u{7}' => "\\a", '\u{1b}' => "\\e", '\u{c}' => "\\f", '\n' => "\\n", '\r' => "\\r", '\t' => "\\t", '\u{8}' if class => "\\b", _ => "" };
    let u = c as u32;
    let ident = c.is_ascii_alphanumeric() && !"ijmqyFIJMOTY".contains(c);
    match how % 7 {
        0 if !named.is_empty() => named.to_string(),
        1 if (1..=26).contains(&u) => format!("\\c{}", (b'a' - 1 + u as u8) as char),
        2 if (1..=26).contains(&u) => format!("\\c{}", (b'A' - 1 + u as u8) as char),
        3 if u < 256 => format!("\\x{u:02x}"),
        4 => format!("\\x{{{u:x}}}"),
        5 if !ident => format!("\\{c}"),
        _ => {
            let bad = if class { "]\\^-[:".contains(c) } else { "|[().+?*^$\\{".contains(c) || (x && (c.is_whitespace() || c == '#')) };
            if bad { if ident { hex(c) } else { format!("\\{c}") } } else { c.to_string() }
        }
    }
}
fn perl(c: char) -> (&'static str, bool) {
    match c { 'd' => ("0-9", false), 'w' => ("0-9A-Za-z_", false), 's' => (r"\x09\x0A\x0B\x0C\x0D\x20", false), 'h' => (r"\x09\x20", false), 'v' => (r"\x0A-\x0D", false),
        'D' => ("0-9", true), 'W' => ("0-9A-Za-z_", true), 'S' => (r"\x09\x0A\x0B\x0C\x0D\x20", true), 'H' => (r"\x09\x20", true), _ => (r"\x0A-\x0D", true) }
}
fn posix(n: &str) -> &'static str {
    match n { "alnum" => "0-9A-Za-z", "alpha" => "A-Za-z", "ascii" => r"\x00-\x7F", "blank" => r"\x09\x20", "cntrl" => r"\x00-\x1F\x7F", "digit" => "0-9", "graph" => r"\x21-\x7E", "lower" => "a-z",
        "print" => r"\x20-\x7E", "punct" => r"\x21-\x2F\x3A-\x40\x5B-\x60\x7B-\x7E", "space" => r"\x09-\x0D\x20", "upper" => "A-Z", "word" => "0-9A-Za-z_", _ => "0-9A-Fa-f" }
}
fn flags_net(add: &str, rem: &str, c: char) -> i8 { if rem.contains(c) { -1 } else if add.contains(c) { 1 } else { 0 } }
fn rust_flags(add: &str, rem: &str) -> String {
    let a: String = "ims".chars().filter(|c| flags_net(add, rem, *c) == 1).collect();
    let r: String = "ims".chars().filter(|c| flags_net(add, rem, *c) == -1).collect();
    if r.is_empty() { a } else { format!("{a}-{r}") }
}
fn sds_flags(add: &str, rem: &str) -> String { if rem.is_empty() { add.to_string() } else { format!("{add}-{rem}") } }
impl It {
    fn sds(&self) -> String {
        match self {
            It::Lit(c, h) => sds_lit(*c, *h, true, false),
            It::Range(a, b, h) => format!("{}-{}", sds_lit(*a, *h, true, false), sds_lit(*b, h.wrapping_add(3), true, false)),
            It::Perl(c) => format!("\\{c}"),
            It::Posix(n, neg) => format!("[:{}{n}:]", if *neg { "^" } else { "" }),
            It::Prop(n, neg) => format!("\\{}{{{n}}}", if *neg { 'P' } else { 'p' }),
            It::Quote(s) => format!("\\Q{s}\\E"),
            It::Hyphen(c, h, i) => format!("{}-{}", sds_lit(*c, *h, true, false), i.sds()),
        }
    }
    fn rust(&self) -> String {
        match self {
            It::Lit(c, _) => hex(*c),
            It::Range(a, b, _) => format!("{}-{}", hex(*a), hex(*b)),
            It::Perl(c) => { let (s, n) = perl(*c); if n { format!("[^{s}]") } else { s.to_string() } }
            It::Posix(n, neg) => if *neg { format!("[^{}]", posix(n)) } else { posix(n).to_string() },
            It::Prop(n, neg) => format!("\\{}{{{n}}}", if *neg { 'P' } else { 'p' }),
            It::Quote(s) => s.chars().map(hex).collect(),
            It::Hyphen(c, _, i) => format!("{}\\-{}", hex(*c), i.rust()),
        }
    }
}
impl N {
    fn sds(&self, x: &mut bool) -> String {
        match self {
            N::Lit(c, h) => sds_lit(*c, *h, false, *x),
            N::Space(c) => c.to_string(),
            N::Raw(s) => s.to_string(),
            N::Perl(c) => format!("\\{c}"),
            N::Dot => ".".into(),
            N::Prop(n, neg) => It::Prop(n, *neg).sds(),
            N::Class(neg, close, items) => format!("[{}{}{}]", if *neg { "^" } else { "" }, if *close { "]" } else { "" }, items.iter().map(|i| i.sds()).collect::<String>()),
            N::Look(s) => s.to_string(),
            N::Quote(s) => format!("\\Q{s}\\E"),
            N::Flags(a, r) => { match flags_net(a, r, 'x') { 1 => *x = true, -1 => *x = false, _ => {} } format!("(?{})", sds_flags(a, r)) }
            N::Group(k, a, r, n) => {
                let mut y = *x;
                let open = match k { 0 => "(".to_string(), 1 => { match flags_net(a, r, 'x') { 1 => y = true, -1 => y = false, _ => {} } format!("(?{}:", sds_flags(a, r)) } 2 => format!("(?<{a}>"), 3 => format!("(?P<{a}>"), _ => format!("(?'{a}'") };
                format!("{open}{})", n.sds(&mut y))
            }
            N::Rep(n, lo, hi, lazy, how) => {
                let i = n.sds(x);
                let q = match (lo, hi) { (0, None) if how % 2 == 0 => "*".into(), (1, None) if how % 2 == 0 => "+".into(), (0, Some(1)) if how % 2 == 0 => "?".into(),
                    (l, Some(h)) if l == h && how % 3 != 0 => format!("{{{l}}}"), (l, Some(h)) => format!("{{{l},{h}}}"), (l, None) => format!("{{{l},}}") };
                format!("{i}{q}{}", if *lazy { "?" } else { "" })
            }
            N::Cat(v) => v.iter().map(|n| n.sds(x)).collect(),
            N::Alt(v) => v.iter().map(|n| n.sds(x)).collect::<Vec<_>>().join("|"),
        }
    }
    fn rust(&self) -> String {
        match self {
            N::Lit(c, _) => hex(*c),
            N::Space(_) => String::new(),
            N::Raw(s) => s.chars().map(hex).collect(),
            N::Perl(c) => { let (s, n) = perl(*c); format!("[{}{s}]", if n { "^" } else { "" }) }
            N::Dot => ".".into(),
            N::Prop(n, neg) => It::Prop(n, *neg).rust(),
            N::Class(neg, close, items) => format!("[{}{}{}]", if *neg { "^" } else { "" }, if *close { "\\]" } else { "" }, items.iter().map(|i| i.rust()).collect::<String>()),
            N::Look(s) => match *s { "$" => r"(?:\x0A?$)".into(), "\\Z" => r"(?:\x0A?\z)".into(), "\\b" => r"(?-u:\b)".into(), "\\B" => r"(?-u:\B)".into(), o => o.into() },
            N::Quote(s) => s.chars().map(hex).collect(),
            N::Flags(a, r) => { let f = rust_flags(a, r); if f.is_empty() { f } else { format!("(?{f})") } }
            N::Group(k, a, r, n) => { let i = n.rust(); match k { 0 => format!("({i})"), 1 => format!("(?{}:{i})", rust_flags(a, r)), _ => format!("(?P<{a}>{i})") } }
            N::Rep(n, lo, hi, lazy, _) => format!("{}{{{lo},{}}}{}", n.rust(), hi.map(|h| h.to_string()).unwrap_or_default(), if *lazy { "?" } else { "" }),
            N::Cat(v) => v.iter().map(|n| n.rust()).collect(),
            N::Alt(v) => v.iter().map(|n| n.rust()).collect::<Vec<_>>().join("|"),
        }
    }
    fn nullable(&self) -> bool {
        match self {
            N::Lit(..) | N::Raw(_) | N::Perl(_) | N::Dot | N::Prop(..) | N::Class(..) => false,
            N::Space(_) | N::Look(_) | N::Flags(..) => true,
            N::Quote(s) => s.is_empty(),
            N::Group(_, _, _, n) => n.nullable(),
            // a quantifier after a quote applies to its last character
            N::Rep(n, lo, ..) => match &**n { N::Quote(s) => s.chars().count() == 1 && *lo == 0, n => *lo == 0 || n.nullable() },
            N::Cat(v) => v.iter().all(|n| n.nullable()),
            N::Alt(v) => v.iter().any(|n| n.nullable()),
        }
    }
    /// some text the pattern may match
    fn sample(&self, r: &mut Rng, out: &mut String) {
        match self {
            N::Lit(c, _) => out.push(if r.chance(1, 6) { swap(*c) } else { *c }),
            N::Raw(s) => out.push_str(s),
            N::Quote(s) => out.push_str(s),
            N::Perl(c) => out.push(match c { 'd' => *r.pick(&['0', '7', '9', '٣']), 'w' => *r.pick(&['a', 'Z', '_', '0', 'é']), 's' => *r.pick(&[' ', '\n', '\t', '\u{a0}', '\u{b}', '\u{c}', '\r']), 'h' => *r.pick(&[' ', '\t', '\u{a0}', '\n']), 'v' => *r.pick(&['\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{2028}']), _ => *r.pick(CHARS) }),
            N::Dot => out.push(*r.pick(&['a', '\n', 'é', '\r', ' '])),
            N::Prop(..) => out.push(*r.pick(CHARS)),
            N::Class(_, close, items) => match if items.is_empty() { None } else { Some(r.pick(items)) } {
                Some(It::Lit(c, _)) if !*close || r.chance(1, 2) => out.push(if r.chance(1, 6) { swap(*c) } else { *c }),
                Some(It::Range(a, b, _)) => { let (a, b) = (*a as u32, *b as u32); if let Some(c) = char::from_u32(a + r.below((b - a + 3) as usize) as u32) { out.push(c) } }
                Some(It::Perl(c)) => N::Perl(*c).sample(r, out),
                Some(It::Hyphen(c, ..)) => out.push(*r.pick(&[*c, '-', 'b', '5', ' ', '?'])),
                Some(It::Posix(..)) => out.push((r.below(130) as u8) as char),
                Some(It::Quote(s)) if !s.is_empty() => out.push(s.chars().nth(r.below(s.chars().count())).unwrap()),
                None => out.push(']'),
                _ => out.push(*r.pick(CHARS)),
            },
            N::Look(s) => if matches!(*s, "$" | "\\Z") && r.chance(1, 2) { out.push('\n') },
            N::Space(_) | N::Flags(..) => {}
            N::Group(_, _, _, n) => n.sample(r, out),
            N::Rep(n, lo, hi, ..) => { let m = *lo as usize + r.below(hi.map(|h| (h - lo) as usize + 1).unwrap_or(3)); for _ in 0..m.min(6) { n.sample(r, out) } }
            N::Cat(v) => for n in v { n.sample(r, out) },
            N::Alt(v) => v[r.below(v.len())].sample(r, out),
        }
    }
}
fn swap(c: char) -> char { if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() } }
struct Gen<'a> { r: &'a mut Rng, names: usize }
impl Gen<'_> {
    fn flags(&mut self) -> (String, String) {
        let mut s = |n: usize| -> String { (0..self.r.below(n)).map(|_| *self.r.pick(&['i', 'm', 's', 'x'])).collect() };
        (s(4), s(3))
    }
    fn item(&mut self) -> It {
        match self.r.below(13) {
            12 => { let i = match self.r.below(3) { 0 => It::Posix(*self.r.pick(POSIX), self.r.chance(1, 3)), 1 => It::Prop(*self.r.pick(PROPS), self.r.chance(1, 3)), _ => It::Perl(*self.r.pick(&['d', 'D', 'w', 'W', 's', 'S', 'h', 'H', 'v', 'V'])) };
                It::Hyphen(*self.r.pick(CHARS), self.r.below(7) as u8, Box::new(i)) }
            0..=4 => It::Lit(*self.r.pick(CHARS), self.r.below(7) as u8),
            5..=6 => { let (a, b) = (*self.r.pick(CHARS), *self.r.pick(CHARS)); It::Range(a.min(b), a.max(b), self.r.below(7) as u8) }
            7..=8 => It::Perl(*self.r.pick(&['d', 'D', 'w', 'W', 's', 'S', 'h', 'H', 'v', 'V'])),
            9 => It::Posix(*self.r.pick(POSIX), self.r.chance(1, 3)),
            10 => It::Prop(*self.r.pick(PROPS), self.r.chance(1, 3)),
            _ => It::Quote(self.quote()),
        }
    }
    fn quote(&mut self) -> String { (0..self.r.below(4)).map(|_| *self.r.pick(CHARS)).collect::<String>().replace("\\E", "E").trim_end_matches('\\').to_string() }
    fn atom(&mut self, depth: usize, x: &mut bool) -> N {
        match self.r.below(if depth == 0 { 16 } else { 20 }) {
            0..=6 => N::Lit(*self.r.pick(CHARS), self.r.below(7) as u8),
            7..=8 => N::Perl(*self.r.pick(&['d', 'D', 'w', 'W', 's', 'S', 'h', 'H', 'v', 'V'])),
            9 => N::Dot,
            10 => N::Prop(*self.r.pick(PROPS), self.r.chance(1, 3)),
            11..=12 => { let close = self.r.chance(1, 8); let n = self.r.range(if close { 0 } else { 1 }, 4); let mut v: Vec<It> = (0..n).map(|_| self.item()).collect();
                if !close && v.iter().all(|i| matches!(i, It::Quote(s) if s.is_empty())) { v.push(It::Lit('q', 6)); }
                N::Class(self.r.chance(1, 3), close, v) }
            13 => N::Look(*self.r.pick(&["\\b", "\\B", "^", "$", "\\A", "\\z", "\\Z"])),
            14 => N::Quote(self.quote()),
            15 => { if self.r.chance(1, 3) { N::Raw(*self.r.pick(&["{,3}", "{x}", "{}", "}", "{ 1}", "]"])) } else { let (a, r) = self.flags(); if a.is_empty() && r.is_empty() { N::Dot } else { match flags_net(&a, &r, 'x') { 1 => *x = true, -1 => *x = false, _ => {} } N::Flags(a, r) } } }
            _ => { let k = *self.r.pick(&[0u8, 0, 1, 1, 1, 2, 3, 4]); let (mut a, mut r) = if k == 1 { self.flags() } else { (String::new(), String::new()) };
                if k >= 2 { self.names += 1; a = format!("n{}", self.names); r.clear(); }
                let mut y = *x; if k == 1 { match flags_net(&a, &r, 'x') { 1 => y = true, -1 => y = false, _ => {} } }
                let n = self.alt(depth - 1, &mut y); N::Group(k, a, r, Box::new(n)) }
        }
    }
    fn cat(&mut self, depth: usize, x: &mut bool) -> N {
        let mut v = vec![];
        for _ in 0..self.r.range(1, 4) {
            if *x && self.r.chance(1, 5) { v.push(N::Space(*self.r.pick(&[' ', '\n', '\t']))); }
            let a = self.atom(depth, x);
            let a = match a {
                N::Raw("{ 1}") if *x => N::Lit('{', 5),
                a => a,
            };
            let quant = !matches!(a, N::Flags(..) | N::Raw(_)) && !matches!(&a, N::Quote(s) if s.is_empty());
            if quant && self.r.chance(1, 3) {
                let lo = *self.r.pick(&[0u32, 0, 1, 1, 2, 3]);
                let hi = match self.r.below(3) { 0 => None, 1 => Some(lo.max(1)), _ => Some(lo + self.r.below(3) as u32) };
                v.push(N::Rep(Box::new(a), lo, hi, self.r.chance(1, 3), self.r.below(6) as u8));
                if *x || true { /* an unescaped '?' or '{n}' cannot follow: those are always escaped */ }
            } else { v.push(a); }
        }
        N::Cat(v)
    }
    fn alt(&mut self, depth: usize, x: &mut bool) -> N {
        let n = if self.r.chance(1, 4) { self.r.range(2, 3) } else { 1 };
        let mut v: Vec<N> = (0..n).map(|_| if n > 1 && self.r.chance(1, 12) { N::Cat(vec![]) } else { self.cat(depth, x) }).collect();
        if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) }
    }
}
fn build(p: &str) -> Result<Scanner, CreateScannerError> { Scanner::builder(&[RegexRuleConfig::new(p).build()]).build() }
fn found(s: &Scanner, t: &str) -> Vec<(usize, usize)> {
    let mut e = t.to_string();
    s.scan(&mut e, vec![]).iter().map(|m| (m.start_index, m.end_index_exclusive)).collect()
}
fn main() {
    let mut r = Run::new();
    let mut rng = Rng(r.rng.next());
    let (mut accepted, mut rejected, mut matched) = (0u64, 0u64, 0u64);
    for case in 0..r.n(9000) {
        if r.stop() { break; }
        let mut x = false;
        let n = { let mut g = Gen { r: &mut rng, names: 0 }; g.alt(1 + case % 3, &mut x) };
        let (mut y, rs) = (false, n.rust());
        let sds = n.sds(&mut y);
        println_last(&sds);
        let want = RegexBuilder::new(&rs).size_limit(1_000_000).build();
        let expect = match &want { Err(regex::Error::CompiledTooBig(_)) => Err("complex"), Err(_) => Err("rejected"), Ok(_) if n.nullable() => Err("empty"), Ok(_) => Ok(()) };
        let got = r.call(|| validate_regex(&sds));
        let ok = match (&got, &expect) { (Ok(Ok(())), Ok(())) => true, (Ok(Err(RegexValidationError::MatchesEmptyString)), Err("empty")) => true, (Ok(Err(RegexValidationError::TooComplex)), Err("complex")) => true, (Ok(Err(RegexValidationError::InvalidSyntax)), Err("rejected")) => true, _ => false };
        r.case(ok, || sds.clone());
        if !ok { r.fail("accept", serde_json::json!({"pattern": sds, "meaning": rs}), format!("{expect:?} {:?}", want.err()), format!("{got:?}")); continue; }
        let s = r.call(|| build(&sds));
        let s = match (s, expect) { (Ok(Ok(s)), Ok(())) => s, (Ok(Err(_)), Err(_)) => { rejected += 1; continue } (g, e) => { r.fail("build", serde_json::json!({"pattern": sds}), format!("{e:?}"), format!("{:?}", g.map(|x| x.map(|_| "built")))); continue } };
        accepted += 1;
        let rx = want.unwrap();
        for k in 0..6 {
            let mut t = String::new();
            if k > 0 { t.push_str(&(0..rng.below(3)).map(|_| *rng.pick(CHARS)).collect::<String>()); }
            for _ in 0..rng.range(1, 3) { n.sample(&mut rng, &mut t); if k > 2 && rng.chance(1, 2) { t.push(*rng.pick(CHARS)); } }
            if t.len() > 4000 { continue; }
            let want: Vec<_> = rx.find_iter(&t).map(|m| (m.start(), m.end())).collect();
            let got = r.call(|| found(&s, &t));
            matched += !want.is_empty() as u64;
            r.case(!want.is_empty(), || format!("{sds} {t}"));
            if got != Ok(want.clone()) { r.fail("match", serde_json::json!({"pattern": sds, "meaning": rs, "text": t}), format!("{want:?}"), format!("{got:?}")); break; }
        }
    }
    // each class and property, every character below U+3000 and some above
    let mut cls: Vec<N> = "dDwWsShHvV".chars().map(N::Perl).collect();
    for p in POSIX { for neg in [false, true] { cls.push(N::Class(false, false, vec![It::Posix(p, neg)])); cls.push(N::Class(true, false, vec![It::Posix(p, neg), It::Lit('é', 6)])); } }
    for p in "dDwWsShHvV".chars() { cls.push(N::Class(false, false, vec![It::Perl(p)])); cls.push(N::Class(true, false, vec![It::Perl(p), It::Lit('a', 6)])); }
    cls.push(N::Dot);
    let all: String = (1..0xC00u32).chain(0x1F00..0x2200).chain([0x3000]).chain([0xFEFF, 0xFFFF, 0x10000, 0x10FFFF]).filter_map(char::from_u32).collect();
    for n in cls { for f in ["", "(?i)", "(?s)"] {
        let p = format!("{f}{}", n.sds(&mut false));
        let rx = Regex::new(&format!("{f}{}", n.rust())).unwrap();
        let want: Vec<_> = rx.find_iter(&all).map(|m| (m.start(), m.end())).collect();
        let got = r.call(|| build(&p).map(|s| found(&s, &all)).map_err(|e| format!("{e:?}")));
        r.case(true, || p.clone());
        if got != Ok(Ok(want.clone())) { let g = got.clone().and_then(|x| x).unwrap_or_default(); let d: Vec<_> = want.iter().filter(|x| !g.contains(x)).chain(g.iter().filter(|x| !want.contains(x))).map(|x| &all[x.0..x.1]).take(5).collect(); r.fail("class", serde_json::json!({"pattern": p}), format!("{} matches; differ on {d:?}", want.len()), format!("{:?}", got.map(|x| x.map(|v| v.len())))); }
    } }
    // every character as a literal, in every way of writing it, in and out of a bracket class
    for u in (0..if r.thorough { 0x3000u32 } else { 0x180 }).chain([0x85, 0x1680, 0x2000, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x10FFFF]) {
        let Some(c) = char::from_u32(u) else { continue };
        for x in ["", "(?x)", "(?i)"] {
            let mut pats: Vec<String> = (0..7).map(|h| format!("{x}{}q", sds_lit(c, h, false, x == "(?x)"))).collect();
            pats.extend((0..7).map(|h| format!("{x}[{}]q", sds_lit(c, h, true, false))));
            pats.push(format!("{x}\\Q{c}\\Eq")); pats.push(format!("{x}[\\Q{c}\\E]q"));
            pats.sort(); pats.dedup();
            let rx = Regex::new(&format!("{}{}q", x.replace("(?x)", ""), hex(c))).unwrap();
            let t = format!("{c}q{}q q{}qq", swap(c), c.to_lowercase());
            let want: Vec<_> = rx.find_iter(&t).map(|m| (m.start(), m.end())).collect();
            for p in pats {
                if p.contains("\\Q\\\\E") { continue; }
                let got = r.call(|| build(&p).map(|s| found(&s, &t)).map_err(|e| format!("{e:?}")));
                r.case(true, || p.clone());
                if got != Ok(Ok(want.clone())) { r.fail("literal", serde_json::json!({"pattern": p, "text": t}), format!("{want:?}"), format!("{got:?}")); }
            }
        }
    }
    for (p, t, want) in [("\\xq", "\0q", vec![(0, 2)]), ("\\x7q", "\u{7}q", vec![(0, 2)]), ("[\\x]", "\0", vec![(0, 1)]), ("\\x0aq", "\nq", vec![(0, 2)]), ("x{,3}", "x{,3}", vec![(0, 5)]), ("[a-]", "b-a", vec![(1, 2), (2, 3)]), ("[-a]", "b-a", vec![(1, 2), (2, 3)]),
        ("[\\d-z]", "-z5b", vec![(0, 1), (1, 2), (2, 3)]), ("[a\\-z]", "-mz", vec![(0, 1), (2, 3)]), ("[a&&b]", "&ab", vec![(0, 1), (1, 2), (2, 3)]), ("[a~~b]", "~", vec![(0, 1)]), ("[[a]b]", "[b]a", vec![(0, 3)]),
        ("a\\Qb\\E+", "abbab", vec![(0, 3), (3, 5)]), ("\\Qab\\E{2}", "ababb", vec![(2, 5)]), ("a$?b", "a\nb ab", vec![(4, 6)]), ("a\\Z?b", "a\nb ab", vec![(4, 6)]), ("a$", "a\n", vec![(0, 2)]), ("a\\z", "a\n", vec![]), ("(?m)a$", "a\na", vec![(0, 1), (2, 3)]), ("(?m)^a", "a\na", vec![(0, 1), (2, 3)]), ("\\Aa", "aa", vec![(0, 1)]), ("a(?i)b|c", "aBCA", vec![(0, 2), (2, 3)]), ("(?:(?i)a)a", "AaAA", vec![(0, 2)]), ("(?i-i)a", "A", vec![]), ("é\\b", "é a", vec![]), ("\\bé", "aé", vec![(1, 3)]), ("[[:^alpha:]]", "a1", vec![(1, 2)]), ("[^[:^alpha:]]", "a1", vec![(0, 1)])] {
        let got = r.call(|| build(p).map(|s| found(&s, t)).map_err(|e| format!("{e:?}")));
        r.case(true, || p.to_string());
        if got != Ok(Ok(want.clone())) { r.fail("fixed", serde_json::json!({"pattern": p, "text": t}), format!("{want:?}"), format!("{got:?}")); }
    }
    // every way to set and clear up to four flags
    let words = |n: usize| -> Vec<String> { let mut v = vec![String::new()]; let mut l = v.clone(); for _ in 0..n { l = l.iter().flat_map(|s| "imsx".chars().map(move |c| format!("{s}{c}"))).collect(); v.extend(l.clone()); } v };
    for a in words(4) { for d in words(4 - a.len()) {
        if a.is_empty() && d.is_empty() { continue; }
        for form in 0..2 {
            let x = flags_net(&a, &d, 'x') == 1;
            let f = rust_flags(&a, &d);
            let (p, q) = if form == 0 { (format!("(?{})a.c|^b| d", sds_flags(&a, &d)), format!("{}a.c|^b|{}d", if f.is_empty() { f } else { format!("(?{f})") }, if x { "" } else { " " })) }
                else { (format!("(?i)(?{}:a.c|^b| d)e", sds_flags(&a, &d)), format!("(?i)(?{f}:a.c|^b|{}d)e", if x { "" } else { " " })) };
            let t = "A\nc ac a\nC b\nb B\nB bD d  D A\nce aceA\nCE be\nbe BE\nBe de DE";
            let want: Vec<_> = Regex::new(&q).unwrap().find_iter(t).map(|m| (m.start(), m.end())).collect();
            println_last(&p);
            let got = r.call(|| build(&p).map(|s| found(&s, t)).map_err(|e| format!("{e:?}")));
            r.case(true, || p.clone());
            if got != Ok(Ok(want.clone())) { r.fail("flags", serde_json::json!({"pattern": p, "meaning": q, "text": t}), format!("{want:?}"), format!("{got:?}")); }
        }
    } }
    // pairs of patterns with the same meaning
    for (p, q) in [("[a-\\d]", "[a\\-0-9]"), ("[+-\\w]", "[+\\-0-9A-Za-z_]"), ("[\\x00-\\h]", "[\\x00\\-\\x09\\x20]"), ("[a-\\D]", "[a\\-[^0-9]]"), ("[+-[:alpha:]]", "[+\\-A-Za-z]"), ("[+-[:^alpha:]]", "[+\\-[^A-Za-z]]"), ("[a-\\p{Lu}]", "[a\\-\\p{Lu}]"),
        ("[]-a]", "[\\]-a]"), ("[^]-a]", "[^\\]-a]"), ("[]-]", "[\\]\\-]"), ("[]-\\d]", "[\\]\\-0-9]"), ("[]-\\x{61}b]", "[\\]-ab]"), ("[]a-c]", "[\\]a-c]"), ("[a-c-z]", "[a-c\\-z]"), ("[+--]", "[+-\\-]"), ("[\\--a]", "[\\--a]"), ("[a-]", "[a\\-]"), ("[^-a]", "[^\\-a]"), ("[\\d-]", "[0-9\\-]"), ("[[:alpha:]-z]", "[A-Za-z\\-]"), ("[[:]", "[\\[:]"), ("[[:a]", "[\\[:a]"), ("[[a:]", "[\\[a:]"), ("[:alpha:]", "[:alph]")] {
        let rx = Regex::new(q).unwrap();
        let want: Vec<_> = rx.find_iter(&all).map(|m| (m.start(), m.end())).collect();
        let got = r.call(|| build(p).map(|s| found(&s, &all)).map_err(|e| format!("{e:?}")));
        r.case(true, || p.to_string());
        if got != Ok(Ok(want.clone())) { r.fail("pair", serde_json::json!({"pattern": p, "meaning": q}), format!("{} matches", want.len()), format!("{:?}", got.map(|x| x.map(|v| v.len())))); }
    }
    // limits, and syntax that is not supported
    use RegexValidationError as E;
    let nest = |n: usize, o: &str| format!("{}x{}", o.repeat(n), ")".repeat(n));
    let mut fixed: Vec<(String, Result<(), E>)> = vec![];
    for o in ["(", "(?:", "(?i:", "(a|"] { for n in [1, 2, 10, 48, 49] { fixed.push((nest(n, o), Ok(()))); } for n in [50, 51, 60, 500, 5000] { fixed.push((nest(n, o), Err(E::ExceededDepthLimit))); } }
    fixed.push(("(x)".repeat(200), Ok(()))); fixed.push(("(a(b)c)".repeat(60), Ok(())));
    fixed.push((format!("{}{}", nest(49, "("), nest(49, "(?:")), Ok(())));
    // groups that are closed again do not count, those still open do
    for (o, n) in [("(", 30), ("(?:", 40), ("(?<n>", 1), ("(a|", 45)] { for inner in [20, 49 - n, 50 - n, 51 - n, 60] { for mid in ["(x)", "((x))", "(?:y)(z)", "[(]", "\\Q(\\E", "(?i)", "()"] {
        let p = format!("{}{mid}{}{}", o.repeat(n), nest(inner, "("), ")".repeat(n));
        fixed.push((p, if n + inner > 49 { Err(E::ExceededDepthLimit) } else { Ok(()) }));
    } } }
    for (a, b) in [("a{3000}", true), ("a{3001}", false), ("a{0,3000}b", true), ("a{0,3001}b", false), ("a{3000,}", true), ("a{3001,}", false), ("a{3001,3002}", false), ("a{4294967295}", false), ("(b(a{3001}))", false), ("a|b{1,9999}", false), ("[ab]{3001}?", false), ("a{4294967296}", false), ("a{4294967295,}", false), ("a{99999999999}", false), ("a{1,99999999999999999999999}", false), ("a{99999999999,}", false)] { fixed.push((a.into(), if b { Ok(()) } else { Err(E::ExceededQuantifierLimit) })); }
    for a in ["a{3,2}", "a{2,1}b", "[z-a]", "[b-a]", "*a", "+a", "?a", "a++", "a*+", "a?+", "a**", "(", ")", "(a", "a)", "(?:a", "(?", "(?i", "(?a)", "(?U)a", "(?--i)a", "(?-i-s)a", "(?i-s-m:a)", "(?i:a", "(?i:", "(?:", "(?i;a)", "(? i)a", "(?i )a", "(?i :a)", "(?u)a", "(?R)", "(?=a)b", "(?!a)b", "(?<=a)b", "(?<!a)b", "(?>a)", "(?#c)a", "(?(1)a)", "(?|a)", "(?&n)", "(?P=n)", "(?P>n)", "(?<>a)", "(?<1>a)", "(?<a-b>c)", "(?<a)", "(?'a>b)", "(?<a'b)", "(?<n>a)(?<n>b)", "[", "[a", "[]", "[^]", "[^", "a[", "\\", "a\\", "\\1", "\\0", "\\9", "\\12", "\\c", "\\c1", "\\cé", "\\g1", "\\k<n>", "\\K", "\\G", "\\l", "\\L", "\\u", "\\U", "\\u0041", "\\u{41}", "\\o{101}", "\\N", "\\N{x}", "\\R", "\\X", "\\C", "\\E", "\\Q", "\\Qa", "\\p", "\\pL", "\\p{", "\\p{}", "\\p{L", "\\p{nope}", "\\P{nope}", "\\p{^L}", "\\x{}", "\\x{110000}", "\\x{d800}", "\\x{g}", "\\x{100000000}", "[\\A]", "[\\z]", "[\\Z]", "[\\B]", "[\\1]", "[\\R]", "[\\x{}]", "[\\p{nope}]", "(?i)*", "^**", "\\x{+41}", "\\x{-41}", "\\x{ 41}", "\\x{+}", "[\\x{+41}]", "\\x{+041}", "\\x{+0000041}", "[\\x{+000041}]", "\\x{41 }", "\\x{4_1}", "\\x{0x41}", "\\x{ffffffff}", "\\x{dfff}", "\\x{0000110000}", "[[:Alpha:]]", "[[:foo:]]", "[[::]]", "[[:^:]]", "[[:^foo:]a]", "[a[:foo:]]"] { fixed.push((a.into(), Err(E::InvalidSyntax))); }
    for a in ["", "a*", "a?", "(a|)", "a|", "|a", "()", "(?:)", "^", "$", "\\b", "\\B", "\\A", "\\z", "\\Z", "^$", "a*\\b", "\\ba*", "x|\\b", "(a|\\b)c*", "a{0}", "a{0,0}", "(?i)", "(?x) ", "(?x)  ^", "\\Q\\E", "(a*)+", "(\\b)+", "(a|b*)", "a{0,5}", "(?m)^", "(?m)$", "a??", "a*?", "\\b\\w*\\b", "(?<n>)", "\\B|a"] { fixed.push((a.into(), Err(E::MatchesEmptyString))); }
    // property names are those of the list, as they are written there
    for a in ["lu", "LU", "lU", "ll", "l", "greek", "GREEK", "latin", "Letter", "letter", "Lu ", " Lu", "L_u", "gc=Lu", "Script=Greek", "sc=Greek", "Luu", "", "Lx", "Alphabetic", "alpha", "Emoji", "ASCII", "White_Space", "Uppercase", "nd", "ND", "Zx", "\u{212a}"] {
        for f in ["\\p{@}", "\\P{@}", "[\\p{@}]", "[^\\P{@}a]", "a\\p{@}+"] { fixed.push((f.replace('@', a), Err(E::InvalidSyntax))); }
    }
    for a in [".{1000}", "\\p{L}{600}", "(a{100}){1000}"] { fixed.push((a.into(), Err(E::TooComplex))); }
    for a in ["\\x{0000000041}", "\\x{10FFFF}", "\\x{10ffff}", "\\x{1F600}", "\\x{e000}", "(a|)b", "a*b", "\\ba", "x?y", ".{800}", "[a]", "(?i)a", "(?:)a", "a||b{1}|c(d|)".trim_start_matches("a||")] { fixed.push((a.into(), Ok(()))); }
    for (p, want) in fixed {
        println_last(&p);
        let got = r.call(|| validate_regex(&p));
        r.case(true, || p.chars().take(60).collect());
        if got != Ok(clone(&want)) { r.fail("limits", serde_json::json!({"pattern": p.chars().take(200).collect::<String>()}), format!("{want:?}"), format!("{got:?}")); }
        let b = r.call(|| build(&p).map(|_| ()));
        let same = match (&b, &want) { (Ok(Ok(())), Ok(())) => true, (Ok(Err(CreateScannerError::InvalidRegex(e))), Err(w)) => e == w, _ => false };
        if !same { r.fail("limits", serde_json::json!({"build": p.chars().take(200).collect::<String>()}), format!("{want:?}"), format!("{b:?}")); }
    }
    // every character of the first blocks, plain, quoted, escaped in a class
    for u in (0..0x180u32).chain([0x2028, 0x2029, 0x85, 0xa0, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
        let c = char::from_u32(u).unwrap();
        let text = format!("a{c}b {c}{c} [{c}] ab");
        let h = hex(c);
        for (p, rust) in [(format!("\\Qa{c}b\\E"), format!("a{h}b")), (format!("\\Q{c}\\E+"), format!("{h}+")), (format!("a\\x{{{u:x}}}b"), format!("a{h}b")), (format!("(?x)a\\Q{c}\\Eb"), format!("a{h}b")), (format!("a[\\x{{{u:x}}}-\\x{{{u:x}}}]b"), format!("a{h}b")), (format!("(?i)\\Q{c}\\E"), format!("(?i){h}")), (format!("a[^\\x{{{u:X}}}]"), format!("a[^{h}]"))] {
            if c == '\\' { continue; }
            println_last(&p);
            let want: Vec<(usize, usize)> = Regex::new(&rust).unwrap().find_iter(&text).map(|m| (m.start(), m.end())).collect();
            let got = r.call(|| build(&p).map(|s| found(&s, &text)).map_err(|e| format!("{e:?}")));
            r.case(true, || p.clone());
            if got != Ok(Ok(want.clone())) { r.fail("char", serde_json::json!({"pattern": p, "meaning": rust, "text": text}), format!("{want:?}"), format!("{got:?}")); }
        }
    }
    // long forms: names, literals, quotes, alternations, classes, flag groups, digits
    for n in [1usize, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 700] {
        let lit: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
        let words: Vec<String> = (0..n).map(|i| format!("w{i}x")).collect();
        let set: Vec<char> = (0..n as u32).map(|i| char::from_u32(0x4e00 + i * 3).unwrap()).collect();
        let text = format!("{lit} {} {}Z", words.join(" "), set.iter().collect::<String>());
        let forms: Vec<(String, String)> = vec![
            (format!("(?<n{}>{lit})", "a_9".repeat(n)), lit.clone()), (format!("(?P<_{lit}>x)|(?<B{lit}>w)"), "x|w".into()),
            (lit.clone(), lit.clone()), (format!("\\Q{lit}\\E"), lit.clone()), (format!("\\Q{}\\E", words.join("\\E \\Q")), words.join(" ")),
            (words.join("|"), words.join("|")), (format!("({}|x)", words.join("|")), format!("({}|x)", words.join("|"))),
            (format!("[{}]", set.iter().collect::<String>()), format!("[{}]", set.iter().collect::<String>())),
            (format!("[^{}]", set.iter().map(|c| format!("\\x{{{:x}}}", *c as u32)).collect::<String>()), format!("[^{}]", set.iter().collect::<String>())),
            (format!("[{}]+", set.iter().map(|c| format!("{c}-{c}")).collect::<String>()), format!("[{}]+", set.iter().collect::<String>())),
            (format!("{}w", "(?i)".repeat(n)), "(?i)w".into()), (format!("(?{}:w)", "i".repeat(n)), "(?i:w)".into()), (format!("(?{}-{}:w)", "s".repeat(n), "i".repeat(n)), "w".into()),
            (format!("\\x{{{}77}}", "0".repeat(n)), "w".into()), (format!("x{{{}1}}", "0".repeat(n)), "x".into()), (format!("x{{{}1,{}2}}", "0".repeat(n), "0".repeat(n)), "x{1,2}".into()),
            (format!("{}x", "(w)?".repeat(n)), format!("{}x", "(w)?".repeat(n))), (words.iter().map(|w| format!("({w})")).collect::<Vec<_>>().join(" "), words.join(" ")),
        ];
        for (p, q) in forms {
            println_last(&p);
            let Ok(re) = RegexBuilder::new(&q).size_limit(1 << 20).build() else { continue };
            let want: Vec<(usize, usize)> = re.find_iter(&text).map(|m| (m.start(), m.end())).collect();
            let got = r.call(|| build(&p).map(|s| found(&s, &text)).map_err(|e| format!("{e:?}")));
            r.case(true, || p.chars().take(60).collect());
            let complex = matches!(&got, Ok(Err(e)) if e.contains("TooComplex"));
            if !complex && got != Ok(Ok(want.clone())) { r.fail("long", serde_json::json!({"pattern": p.chars().take(300).collect::<String>(), "meaning": q.chars().take(300).collect::<String>(), "size": n}), format!("{} matches", want.len()), format!("{:?}", got.map(|x| x.map(|v| v.len())))); }
        }
    }
    // the estimate is the least limit under which the pattern compiles
    for _ in 0..r.n(60) {
        let mut x = false;
        let n = { let mut g = Gen { r: &mut rng, names: 0 }; g.alt(1, &mut x) };
        let (sds, rs) = (n.sds(&mut false), n.rust());
        if Regex::new(&rs).is_err() { continue; }
        let fits = |l: usize| RegexBuilder::new(&rs).size_limit(l).build().is_ok();
        let got = r.call(|| get_regex_complexity_estimate_very_slow(&sds));
        let ok = match &got { Ok(Ok(c)) => *c >= 1 && fits(*c) && (*c == 1 || !fits(*c - 1)), _ => false };
        r.case(ok, || format!("estimate {sds}"));
        if !ok { r.fail("estimate", serde_json::json!({"pattern": sds}), "the least limit that admits the pattern".into(), format!("{got:?}")); }
    }
    // token soup: never a panic; what is accepted never matches empty text and its scans end
    const SOUP: &[&str] = &["a", "b", "(", ")", "(?:", "(?i)", "(?x)", "[", "]", "^", "-", "\\", "\\Q", "\\E", "{", "}", "2", ",", "*", "+", "?", "|", "$", ".", "\\b", "\\w", "\\x", "\\x{", "\\c", "\\p{", "L", "[:", ":]", "alpha", "é", " ", "\n", "(?<n>", "'", "#", "\\Z", "{2,3}", "{0}"];
    for _ in 0..r.n(20000) {
        if r.stop() { break; }
        let p = rng.string(SOUP, 9);
        println_last(&p);
        let got = r.call(|| validate_regex(&p).is_ok());
        let t = rng.string(&["a", "b", "(", " ", "é", "\n", "2", "L", "-", "x"], 12);
        match got {
            Err(e) => r.fail("panic", serde_json::json!({"pattern": p}), "no panic".into(), e),
            Ok(false) => { r.case(false, String::new); }
            Ok(true) => {
                let g = r.call(|| found(&build(&p).unwrap(), &t));
                r.case(true, || format!("{p} {t}"));
                match g { Ok(v) if v.iter().all(|m| m.0 < m.1 && m.1 <= t.len()) => {} g => r.fail("soup", serde_json::json!({"pattern": p, "text": t}), "non-empty matches".into(), format!("{g:?}")) }
            }
        }
    }
    // the classes are ASCII, also when case is ignored
    for (p, neg, key) in [("(?i)\\w", false, "fold-word"), ("(?i)\\W", true, "fold-word"), ("(?i)[[:alpha:]]", false, "fold-posix"), ("(?i)[[:^alpha:]]", true, "fold-posix"), ("(?i)\\d", false, "fold"), ("(?i)\\s", false, "fold"), ("(?i)[[:digit:]]", false, "fold"), ("(?i)[[:punct:]]", false, "fold")] {
        for c in ['\u{17f}', '\u{212a}', 'é', 'İ', '\u{1e9e}'] {
            let t = c.to_string();
            let got = r.call(|| build(p).map(|s| !found(&s, &t).is_empty()).map_err(|e| format!("{e:?}")));
            r.case(true, || format!("{p} {t}"));
            if got != Ok(Ok(neg)) { r.fail(if "\u{17f}\u{212a}".contains(c) { key } else { "fold" }, serde_json::json!({"pattern": p, "text": t}), format!("{neg}"), format!("{got:?}")); }
        }
    }
    eprintln!("accepted {accepted} rejected {rejected} matched {matched}");
    r.finish("accepted patterns, error kinds and matches as given by an independent translation to the regex crate", "pattern trees of depth <= 3, texts below 4000 bytes; every class on U+0001-U+3000; token soup of 9");
}
fn clone(r: &Result<(), RegexValidationError>) -> Result<(), RegexValidationError> {
    use RegexValidationError::*;
    match r { Ok(()) => Ok(()), Err(InvalidSyntax) => Err(InvalidSyntax), Err(ExceededDepthLimit) => Err(ExceededDepthLimit), Err(TooComplex) => Err(TooComplex), Err(MatchesEmptyString) => Err(MatchesEmptyString), Err(ExceededQuantifierLimit) => Err(ExceededQuantifierLimit) }
}
/// remembered so that a hang can be reported with its input
fn println_last(p: &str) { use std::io::Write; if let Ok(mut f) = std::fs::File::create("c16.last") { let _ = f.write_all(p.as_bytes()); } }
