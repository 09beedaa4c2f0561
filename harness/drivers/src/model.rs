//! An independent, deliberately naive model of what a scan must produce for rules whose patterns
//! are fixed sequences of character classes (so that matching itself is trivial to specify).
use dd_sds::*;
use std::collections::BTreeMap;

/// pattern = one character class per position
#[derive(Clone, Debug)]
pub struct Pat(pub Vec<Vec<char>>);
impl Pat {
    pub fn regex(&self) -> String {
        self.0.iter().map(|c| {
            if c.len() == 1 { c[0].to_string() } else { format!("[{}]", c.iter().collect::<String>()) }
        }).collect()
    }
    pub fn at(&self, t: &[(usize, char)], i: usize) -> bool {
        i + self.0.len() <= t.len() && self.0.iter().zip(&t[i..]).all(|(c, (_, x))| c.contains(x))
    }
    /// leftmost non-overlapping occurrences (byte ranges)
    pub fn find(&self, text: &str) -> Vec<(usize, usize)> {
        let t: Vec<(usize, char)> = text.char_indices().collect();
        let mut out = vec![];
        let mut i = 0;
        while i < t.len() {
            if self.at(&t, i) {
                let e = t.get(i + self.0.len()).map(|x| x.0).unwrap_or(text.len());
                out.push((t[i].0, e));
                i += self.0.len();
            } else { i += 1; }
        }
        out
    }
}
#[derive(Clone, Debug)]
pub struct Raw { pub rule: usize, pub start: usize, pub end: usize }

pub fn mutating(a: &MatchAction) -> bool { !matches!(a, MatchAction::None) }

/// the documented resolution of overlapping matches
pub fn resolve(mut ms: Vec<Raw>, actions: &[MatchAction]) -> Vec<Raw> {
    ms.sort_by_key(|m| (!mutating(&actions[m.rule]), m.start, std::cmp::Reverse(m.end - m.start), m.rule));
    let mut kept: Vec<Raw> = vec![];
    for m in ms {
        if kept.iter().all(|k| k.end <= m.start || m.end <= k.start) { kept.push(m); }
    }
    kept.sort_by_key(|m| m.start);
    kept
}

#[allow(deprecated)]
pub fn hash_hex(bytes: &[u8]) -> String { format!("{:x}", farmhash::fingerprint64(bytes)) }

/// (text of the match after the action)
#[allow(deprecated)]
pub fn act(a: &MatchAction, m: &str) -> String {
    match a {
        MatchAction::None => m.to_string(),
        MatchAction::Redact { replacement } => replacement.clone(),
        MatchAction::Hash => hash_hex(m.as_bytes()),
        MatchAction::Utf16Hash => hash_hex(&m.encode_utf16().flat_map(|u| vec![(u & 255) as u8, (u >> 8) as u8]).collect::<Vec<_>>()),
        MatchAction::PartialRedact { direction, character_count } => {
            let cs: Vec<char> = m.chars().collect();
            let n = *character_count;
            let stars = "*".repeat(n);
            match direction {
                PartialRedactDirection::FirstCharacters => format!("{stars}{}", cs.iter().skip(n).collect::<String>()),
                PartialRedactDirection::LastCharacters => format!("{}{stars}", cs[..cs.len().saturating_sub(n)].iter().collect::<String>()),
            }
        }
    }
}
#[allow(deprecated)]
pub fn rtype(a: &MatchAction) -> ReplacementType {
    match a {
        MatchAction::None => ReplacementType::None,
        MatchAction::Redact { .. } => ReplacementType::Placeholder,
        MatchAction::Hash | MatchAction::Utf16Hash => ReplacementType::Hash,
        MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, .. } => ReplacementType::PartialStart,
        MatchAction::PartialRedact { .. } => ReplacementType::PartialEnd,
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Out { pub rule: usize, pub start: usize, pub end: usize, pub shift: isize, pub rt: String, pub path: String }

/// the redacted string and the reported matches, positions measured by `width`
pub fn redact(text: &str, ms: &[Raw], actions: &[MatchAction], path: &str, width: fn(&str) -> usize) -> (String, Vec<Out>) {
    let mut out = String::new();
    let mut pos = 0;
    let mut outs = vec![];
    for m in ms {
        out.push_str(&text[pos..m.start]);
        let s = width(&out);
        out.push_str(&act(&actions[m.rule], &text[m.start..m.end]));
        let e = width(&out);
        outs.push(Out { rule: m.rule, start: s, end: e, shift: e as isize - width(&text[..m.end]) as isize,
                        rt: format!("{:?}", rtype(&actions[m.rule])), path: path.to_string() });
        pos = m.end;
    }
    out.push_str(&text[pos..]);
    (out, outs)
}
pub fn to_out(m: &RuleMatch) -> Out {
    Out { rule: m.rule_index, start: m.start_index, end: m.end_index_exclusive, shift: m.shift_offset,
          rt: format!("{:?}", m.replacement_type), path: format!("{:?}", m.path) }
}
pub fn w8(s: &str) -> usize { s.len() }
pub fn w16(s: &str) -> usize { s.encode_utf16().count() }
pub fn w32(s: &str) -> usize { s.chars().count() }

// ---- events with other index encodings -----------------------------------------------------
pub struct Units<const W: usize>;
fn wid<const W: usize>(s: &str) -> usize { if W == 16 { w16(s) } else { w32(s) } }
impl<const W: usize> Encoding for Units<W> {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize { 0 }
    fn zero_shift() -> isize { 0 }
    fn get_index(value: &usize, _utf8_index: usize) -> usize { *value }
    fn get_shift(value: &isize, _utf8_shift: isize) -> isize { *value }
    fn calculate_indices<'a>(content: &str, match_visitor: impl Iterator<Item = EncodeIndices<'a, Self>>) {
        let mut last = 0;
        for m in match_visitor {
            assert!(m.utf8_start >= last, "calculate_indices: not sorted by start");
            last = m.utf8_start;
            *m.custom_start = wid::<W>(&content[..m.utf8_start]);
            *m.custom_end = wid::<W>(&content[..m.utf8_end]);
        }
    }
    fn adjust_shift(shift: &mut isize, before: &str, after: &str) { *shift += wid::<W>(after) as isize - wid::<W>(before) as isize; }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MapEvent<E>(pub BTreeMap<String, String>, pub std::marker::PhantomData<E>, pub Vec<(String, bool)>);
impl<E> MapEvent<E> { pub fn new(m: BTreeMap<String, String>) -> Self { MapEvent(m, std::marker::PhantomData, vec![]) } }
impl<E: Encoding> Event for MapEvent<E> {
    type Encoding = E;
    fn visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>) {
        for (k, v) in &self.0 {
            visitor.push_segment(PathSegment::Field(k.as_str().into()));
            let might = visitor.visit_string(v).might_mutate;
            self.2.push((k.clone(), might));
            visitor.pop_segment();
        }
    }
    fn visit_string_mut(&mut self, path: &Path, mut visit: impl FnMut(&mut String) -> bool) {
        let PathSegment::Field(k) = &path.segments[0] else { panic!("path") };
        let v = self.0.get_mut(k.as_ref()).unwrap();
        let before = v.clone();
        let mutated = visit(v);
        assert!(mutated || before == *v, "visit_string_mut returned false for a mutated string");
    }
}
