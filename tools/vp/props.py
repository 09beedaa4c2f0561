"""The single source of properties.jsonl and MANIFEST.json (written by tools/gen.py) and of check.py.

units    proof units (proofs/<unit>.rs) whose obligations decide the property
driver   contract driver (harness/drivers/src/bin/<driver>.rs): witness search on the real code
"""
SDS = "sds/src/"
EXT = ("the proof text is the current source of the listed functions, extracted on every run; "
       "attributes/visibility and the listed token rewrites are the only differences")

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, qtext, why, files, mechanism, units, driver, level, note,
         technique=None, theorems=None, assumptions=(), timeout=None, hang=False):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
        units=units, driver=driver, level=level, note=note, theorems=theorems or [],
        technique=technique or "contract-based deductive verification (Verus/Z3) of extracted source, plus contract driver for witnesses",
        assumptions=list(assumptions), hang_is_violation=hang)
    if timeout:
        PROPS[pid]["timeout"] = timeout


prop("C01", "A scan rewrites exactly the matched text and reports where it went",
     "After a scan, every scanned string equals the original with each reported match replaced by the output of its rule's action and every other byte unchanged, and strings without a mutating match are untouched. The reported start, end and shift of each match locate the replaced text inside the final string, in the index encoding of the event. No scan panics, whatever the lengths and characters of matches and replacements.",
     ["inputs", "configurations"], "every event content, every set of non-overlapping matches sorted by start, every match action and every index encoding whose width is additive",
     "Tests replace one or two ASCII matches in UTF-8 events; the interplay of several length-changing replacements, multi-byte text and foreign index encodings is an arithmetic fact over all sequences of matches.",
     [SDS + "scanner/mod.rs", SDS + "match_action.rs", SDS + "encoding.rs", SDS + "rule_match.rs"],
     [("Scanner::apply_match_actions", SDS + "scanner/mod.rs"), ("Scanner::apply_match_actions_for_string", SDS + "scanner/mod.rs"), ("Utf8Encoding::adjust_shift", SDS + "encoding.rs")],
     ["redact"], "c01", "proof",
     "Proved for all inputs of apply_match_actions/apply_match_actions_for_string and the UTF-8 encoding; " + EXT + ". The wiring of Scanner::scan around them is exercised by the driver only (bounded).",
     ["apply_match_actions contract (good_output for every i, final content == build)"],
     assumptions=["strings are byte sequences (VpText); std String::replace_range, slicing and is_char_boundary by assumed contracts", "sizes fit isize (step_ok precondition)", "get_replacement by its own contract, proved in unit match_action and re-proved here"])

prop("C02", "Overlapping matches are resolved by the documented priority",
     "Of all raw matches in one string, the reported ones never overlap, are ordered by position, and are exactly those left by taking matches in priority order (mutating rules first, then earlier start, then longer, then earlier rule) and dropping any that overlaps one already taken. In particular no two mutating matches ever overlap and a match is only dropped in favour of one of higher priority that overlaps it.",
     ["inputs", "configurations"], "every list of raw matches of every set of rules",
     "Tests fix a handful of two- or three-match overlaps; the resolution is a statement about every arrangement of intervals and actions.",
     [SDS + "scanner/mod.rs", SDS + "rule_match.rs", SDS + "match_action.rs"],
     [("Scanner::sort_and_remove_overlapping_rules", SDS + "scanner/mod.rs"), ("MatchAction::is_mutating", SDS + "match_action.rs"), ("InternalRuleMatch::len", SDS + "rule_match.rs")],
     ["overlap"], "c02", "proof",
     "Proved for all inputs; " + EXT + ". sort_unstable_by/sort_unstable_by_key by assumed contracts (result is a permutation, ordered by the comparator, which is proved total).",
     ["sort_and_remove_overlapping_rules ensures resolved(..)"],
     assumptions=["slice::sort_unstable_by returns a permutation ordered by the given comparator", "raw matches are non-empty intervals"])

prop("C03", "Each match action produces exactly the documented replacement",
     "For every matched text: redaction yields the configured placeholder, hashing the hexadecimal fingerprint of the match, partial redaction the same text with exactly the first/last n characters (not bytes) replaced by n asterisks, and no action leaves the text alone; the reported replacement type names that action. A partial redaction of zero characters is rejected when the scanner is built.",
     ["inputs", "configurations"], "every match text (any characters) and every action configuration",
     "Tests use short, mostly ASCII matches; character counting must be right for every UTF-8 string and every count, including counts beyond the length.",
     [SDS + "match_action.rs", SDS + "rule_match.rs"],
     [("MatchAction::get_replacement", SDS + "match_action.rs"), ("MatchAction::partial_redact_*", SDS + "match_action.rs"), ("MatchAction::replacement_type", SDS + "match_action.rs"), ("MatchAction::validate", SDS + "match_action.rs")],
     ["match_action"], "c03", "proof",
     "Proved for all inputs; " + EXT + ". The fingerprint function (farmhash) is an uninterpreted dependency.",
     ["get_replacement contract over rp(action, match)"],
     assumptions=["farmhash::fingerprint64 and format!(\"{:x}\") are uninterpreted functions of the bytes", "str::char_indices/nth by assumed contracts over UTF-8 lead bytes"])

prop("C04", "Scopes decide by path prefix which rules see which strings",
     "A rule is applied to a string exactly when one of the rule's include paths (the root for an exclude-only scope) is a prefix of the string's path, it is reported as excluded there exactly when one of its exclude paths is a prefix, and each applicable rule is applied once. With implicit index wildcards enabled, index segments of the event path may additionally be skipped while matching a scope path. The decision at one string does not depend on the siblings or strings visited before.",
     ["inputs", "configurations", "histories"], "every list of scopes, every event shape and every order of visits",
     "Tests enumerate a few dozen scope/event pairs; nesting, duplicates, overlapping includes and index runs interact combinatorially.",
     [SDS + "scoped_ruleset/mod.rs", SDS + "scoped_ruleset/bool_set.rs", SDS + "scanner/scope.rs"],
     [("RuleTree::insert_rule_inner / recursively_remove", SDS + "scoped_ruleset/mod.rs"), ("ScopedRuledSetEventVisitor::push_segment / pop_segment", SDS + "scoped_ruleset/mod.rs"), ("RuleIndexVisitor::visit_rule_indices", SDS + "scoped_ruleset/mod.rs"), ("ExclusionCheck::is_excluded", SDS + "scoped_ruleset/mod.rs"), ("BoolSet", SDS + "scoped_ruleset/bool_set.rs")],
     ["scope"], "c04", "proof",
     "Proved for all inputs and all histories of push/pop: tree construction, visitor invariant, rule visiting, exclusion; theorems connect them to the prefix rule. " + EXT + ". Under contract from end to end: visit_string_rule_combinations starts the walk at the root node with a cleared rule set, visit_string hands over exactly the nodes of the string's path.",
     ["visit_string_rule_combinations ensures presented(strings of the event, tree, ..)", "visit_string ensures asked == old.push(path, text, nodes of the path)", "theorem_included", "theorem_excluded", "theorem_plain", "theorem_offered_once"],
     assumptions=["AHashMap by assumed map contracts (entry/or_insert_with, get, values_mut)", "Vec::retain/contains by assumed contracts", "the closure passed to visit_rule_indices is replaced by a recording vector", "the walk over an event makes the pushes, pops and visits C17 proves; content visitor and event are traits with a recording contract"])

_digits = "every string, including separators, non-ASCII characters and any number of digits"
prop("C05", "The Luhn validator accepts exactly the Luhn-valid digit strings",
     "For every matched text, the Luhn validator accepts if and only if the text contains a digit and the digits it contains, in order and ignoring every other character, satisfy the Luhn formula. It never overflows or panics.",
     ["inputs"], _digits, "Tests check a list of known card numbers; the checksum must be right for every digit string of every length.",
     [SDS + "secondary_validation/luhn_checksum.rs", SDS + "secondary_validation/mod.rs"],
     [("LuhnChecksum::is_valid_match", SDS + "secondary_validation/luhn_checksum.rs"), ("get_previous_digit", SDS + "secondary_validation/mod.rs")],
     ["luhn", "dispatch"], "c05", "proof", "Proved for all strings below 2^28 characters (u32 sum); " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == luhn_ok(regex_match@)"],
     assumptions=["Chars::next_back and char::to_digit by assumed contracts"])
prop("C06", "The Chinese ID validator accepts exactly ISO 7064 MOD 11-2 IDs",
     "For every matched text, the Chinese resident ID validator accepts if and only if the text is 18 bytes long, its first 17 characters are decimal digits and its last character (either case) is the ISO 7064 MOD 11-2 check character of those 17 digits. It never panics.",
     ["inputs"], _digits, "Tests check a few IDs; every remainder and every malformed shape must be handled.",
     [SDS + "secondary_validation/chinese_id_checksum.rs"], [("ChineseIdChecksum::is_valid_match", SDS + "secondary_validation/chinese_id_checksum.rs")],
     ["chinese_id", "dispatch"], "c06", "proof", "Proved for all strings; " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == cid_ok(regex_match@)"],
     assumptions=["Chars, take/enumerate, to_digit, to_ascii_uppercase by assumed contracts"])
prop("C07", "The NHS validator accepts exactly ten-digit numbers with a valid check digit",
     "For every matched text, the NHS validator accepts if and only if the text contains exactly ten digits (other characters ignored) and their weighted sum with weights 10 down to 1 is divisible by 11. It never overflows or panics.",
     ["inputs"], _digits, "Tests check a few ten-digit numbers; shorter and longer digit strings and every remainder matter.",
     [SDS + "secondary_validation/nhs_check_digit.rs", SDS + "secondary_validation/mod.rs"], [("NhsCheckDigit::is_valid_match", SDS + "secondary_validation/nhs_check_digit.rs"), ("get_previous_digit", SDS + "secondary_validation/mod.rs")],
     ["nhs", "dispatch"], "c07", "proof", "Proved for all strings; " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == nhs_ok(regex_match@)"],
     assumptions=["Chars::next_back and char::to_digit by assumed contracts"])
prop("C08", "The NIR validator accepts exactly fifteen-digit numbers with a valid key",
     "For every matched text, the French NIR validator accepts if and only if the text contains exactly fifteen digits (other characters ignored) and the last two, read as a number, equal 97 minus the first thirteen modulo 97. It never overflows or panics.",
     ["inputs"], _digits, "Tests check a few numbers; the statement is over every digit string and separator placement.",
     [SDS + "secondary_validation/nir_checksum.rs", SDS + "secondary_validation/mod.rs"], [("NirChecksum::is_valid_match", SDS + "secondary_validation/nir_checksum.rs"), ("get_next_digit", SDS + "secondary_validation/mod.rs")],
     ["nir", "dispatch"], "c08", "proof", "Proved for all strings; " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == nir_ok(regex_match@)"],
     assumptions=["Chars::next and char::to_digit by assumed contracts"])
prop("C09", "The GitHub token validator accepts exactly tokens with the right checksum",
     "For every matched text, the GitHub token validator accepts if and only if the part after the last underscore is alphanumeric, longer than six characters, and its last six characters are the CRC32 of the rest, in base62 with leading zeros. It never panics, whatever characters the text contains.",
     ["inputs"], "every matched text (any characters, any length)", "Tests check a few tokens; checksums with leading zeros, several underscores and multi-byte characters are rare among them.",
     [SDS + "secondary_validation/github_token_checksum.rs"], [("GithubTokenChecksum::is_valid_match", SDS + "secondary_validation/github_token_checksum.rs")],
     ["github", "dispatch"], "c09", "proof", "Proved for all strings; " + EXT + ". CRC32 is uninterpreted, base62 encoding by assumed contract.", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == github_ok(regex_match@)"],
     assumptions=["crc32fast::hash is a function of the bytes", "base62::encode by assumed contract", "str::split/collect, chars().all, byte slicing at character boundaries, format!(\"{:0>6}\") by assumed contracts"])
prop("C10", "Proximity keywords admit and veto exactly the matches near them",
     "A rule with included keywords reports a regex match exactly when a keyword (case-insensitive, at word boundaries) starts at the match or at most the look-ahead number of characters before it, except that of overlapping candidates only one is reported. A rule with excluded keywords drops exactly the matches that have an excluded keyword, with '-' and '_' removed from both, within the look-ahead characters before it. Windows are counted in characters, the position of other matches and keywords never hides a keyword, and bad keyword configurations (window 0 or above 50, more than 50 keywords, empty or too long keywords) are rejected when the rule is built. No text makes it panic.",
     ["inputs", "configurations"], "every text, every keyword list and window size",
     "Tests use one or two keywords and matches; which keyword is found depends on every other keyword and match in the text, on multi-byte characters around window edges and on stripped characters.",
     [SDS + "proximity_keywords/mod.rs", SDS + "proximity_keywords/included_keywords.rs", SDS + "proximity_keywords/excluded_keywords.rs", SDS + "scanner/regex_rule/compiled.rs", SDS + "scanner/mod.rs"],
     [("IncludedKeywordSearch::next", SDS + "proximity_keywords/included_keywords.rs"), ("contains_excluded_keyword_match", SDS + "proximity_keywords/excluded_keywords.rs"), ("RegexCompiledRule::get_string_matches_with_included_keywords", SDS + "scanner/regex_rule/compiled.rs"), ("TruePositiveSearch::next", SDS + "scanner/regex_rule/compiled.rs")],
     ["keywords", "keyword_patterns"], "c10", "proof",
     "Proved for all texts, windows and regexes: window arithmetic, excluded-keyword window, included-keyword search, true-positive search and their combination; " + EXT + ". The patterns of the keyword regexes are proved to be the alternation of the keywords (trimmed, for excluded ones without '-' and '_'), each literal, between ASCII word boundaries where it begins or ends with a letter or digit, case ignored, and bad configurations to be rejected with the named error; what such a regex matches is a leftmost-search contract on regex-automata.",
     ["compile_keywords_proximity_config ensures Err(config_error) or regexes for exactly the configured keywords", "calculate_keyword_content_pattern ensures is_content(r, keyword)", "contains_excluded_keyword_match ensures r == excluded_before(..)", "TruePositiveSearch::next enumerates tp_list", "get_string_matches_with_included_keywords ensures reported(..): sound, ascending, complete up to overlap"],
     assumptions=["the printed keyword pattern compiles and means its syntax tree; str::trim and str::replace by assumed contracts", "regex-automata search/search_half return the leftmost match at or after the start, as a function of regex, text and position", "regex matches of a rule are non-empty and start and end at character boundaries", "str::char_indices/nth/nth_back/next_back by assumed contracts", "ExclusionCheck by the contract of C04, validators by an uninterpreted predicate"])
prop("C11", "Paths are standardised, compared and searched for keywords as documented",
     "The standardised form of a field segment keeps its first and last character, replaces any other separator ('-', '_', '.', ' ', '/') by '.' unless it directly follows another separator (then it is kept), inserts '.' before any other capital that follows a character that is neither capital nor separator, keeps everything else, and lower-cases ASCII letters; a path joins its fields with '.' and skips indices. The shortcuts for all-lower-case and all-upper-case fields give the same result. A keyword is found in a path exactly when its standardised form occurs there at word boundaries. A path starts with a prefix exactly when the prefix's segments are its first segments.",
     ["inputs"], "every path (any number of segments, any characters) and every keyword",
     "Tests fix some twenty segments; the character automaton and its two shortcuts must agree on every string.",
     [SDS + "path.rs", SDS + "proximity_keywords/mod.rs"],
     [("Path::sanitize", SDS + "path.rs"), ("PathSegment::sanitize", SDS + "path.rs"), ("standardize_path_chars", SDS + "proximity_keywords/mod.rs"), ("should_bypass_standardize_path", SDS + "proximity_keywords/mod.rs"), ("Path::starts_with", SDS + "path.rs")],
     ["paths", "keyword_patterns"], "c11", "proof",
     "Proved for all strings and paths; " + EXT + ". The closures passed to standardize_path_chars are replaced by a recording vector. The path pattern of a keyword is proved to be its standardised, lower-case form, each character literal, between ASCII word boundaries where the keyword begins or ends with a letter or digit; what such a regex matches is a contract on regex-automata.",
     ["standardize_path_chars ensures emitted == std(chars)", "should_bypass_standardize_path is only true where std is the identity", "Path::sanitize ensures r == sanitized(segments)", "calculate_keyword_path_pattern ensures is_path(r, keyword)", "Path::starts_with ensures r == is_prefix"],
     assumptions=["Chars iteration, Peekable, to_ascii_lowercase by assumed contracts"])
prop("C12", "A match status only moves towards the stronger result",
     "Merging a status into a match's status keeps the stronger of the two in the order NotChecked < NotAvailable < Invalid < Error < Valid, and keeps the old one when neither is stronger. So after any sequence of merges, in any order, the status is one of those seen and none of those seen was stronger; Valid is final.",
     ["histories"], "every sequence of statuses returned for one match, in every order",
     "Tests merge a few pairs; the final status must not depend on the order in which many HTTP responses arrive.",
     [SDS + "match_validation/match_status.rs"], [("MatchStatus::merge", SDS + "match_validation/match_status.rs")],
     ["status"], "c12", "proof", "Proved for all statuses and all histories; " + EXT + ".", ["merge contract; theorem_history"],
     assumptions=["#[derive(PartialOrd, Ord)] orders variants by declaration, read from the extracted enum"])
prop("C13", "The IBAN validator accepts exactly well-formed IBANs, whatever their punctuation",
     "For every matched text, the IBAN validator accepts if and only if the text with every character that is not alphanumeric removed is an IBAN: a country's length and layout and a valid MOD 97-10 checksum. Punctuation between the characters never changes the answer, and it never panics.",
     ["inputs"], "every matched text (any characters, any length)", "Tests check one IBAN per country; every length, separator and letter case must work.",
     [SDS + "secondary_validation/iban_checker.rs"], [("IbanChecker::is_valid_match", SDS + "secondary_validation/iban_checker.rs")],
     ["iban", "dispatch"], "c13", "proof", "Proved for all strings; " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == iban(keep(regex_match@))"],
     assumptions=["the iban crate parses exactly valid IBANs (uninterpreted predicate; the driver compares it with an independent MOD 97 computation)", "chars().filter().collect() by assumed contract"])
prop("C14", "The JWT expiration validator rejects exactly expired or malformed tokens",
     "For every matched text, the JWT validator accepts if and only if the text has three dot-separated parts, header and payload are unpadded URL-safe base64 of JSON values, and the payload either has no exp claim or its exp is an integer strictly greater than the current Unix time. It never panics.",
     ["inputs"], "every matched text (any characters, any length)", "Tests decode two or three tokens; malformed parts and every kind of exp value matter.",
     [SDS + "secondary_validation/jwt_expiration_checker.rs"], [("JwtExpirationChecker::is_valid_match", SDS + "secondary_validation/jwt_expiration_checker.rs")],
     ["jwt", "dispatch"], "c14", "proof", "Proved for all strings relative to uninterpreted base64 and JSON decoding; " + EXT + ".", ["SecondaryValidator::is_valid_match ensures the rule's own validator decides", "is_valid_match ensures r == jwt_ok(regex_match@)"],
     assumptions=["base64 and serde_json decoding are uninterpreted functions of the text", "the clock is an uninterpreted value"])
prop("C15", "Sharing compiled regexes never changes what a scanner finds",
     "Scanners share compiled regexes through a global store. Whatever scanners were built, dropped or used before, on this or other threads, a scanner only ever uses a regex compiled for the pattern of its own rule and a search cache made for that very regex; a regex in use is never removed from the store, and one nobody uses any more is removed at the latest after the next thousand insertions.",
     ["histories", "schedules"], "every history of building, dropping and using scanners, on any number of threads",
     "Tests insert a thousand patterns once, on one thread; stale entries, collisions and clean-ups depend on the whole history.",
     [SDS + "scanner/regex_rule/regex_store.rs", SDS + "scanner/regex_rule/regex_cache_store.rs", SDS + "scanner/regex_rule/config.rs"],
     [("RegexStore::insert/get/gc", SDS + "scanner/regex_rule/regex_store.rs"), ("get_memoized_regex_with_custom_store", SDS + "scanner/regex_rule/regex_store.rs"), ("RegexCaches::get", SDS + "scanner/regex_rule/regex_cache_store.rs")],
     ["regex_store"], "c15", "proof",
     "Proved for all histories: every operation preserves the store invariant (index and slots in bijection, each slot's regex compiled for its pattern), get/insert return a regex of the pattern asked for, gc removes exactly dead entries, caches belong to the regex they are used with; " + EXT + ". That rule construction passes its own pattern is checked by the driver (bounded).",
     ["RegexStore invariant", "get_memoized_regex_with_custom_store ensures source(r) == pattern", "RegexCaches::get ensures made_for(cache) == regex"],
     assumptions=["slotmap keys are never reissued (in fact: after 2^31 reuses of a slot)", "a Weak whose upgrade fails stays dead", "Mutex: the lock invariant holds when the lock is taken and is re-established at release", "the factory returns a regex compiled for its argument", "debug_assert! is dropped by the extraction"])
prop("C16", "A pattern is accepted exactly when it is safe, and matches what it says",
     "A rule's pattern is accepted exactly when it is in the supported syntax, can never match an empty string, and its compiled size stays within the limit (1,000,000 bytes); every other pattern is rejected with the error that names the reason, and none makes building or scanning panic or run forever. An accepted pattern matches what its syntax means in PCRE: classes \\d \\w \\s \\b are ASCII, \\h \\v are ASCII blanks and line breaks, [[:x:]] are the POSIX classes, \\Q..\\E and every escape are literal, $ and \\Z also match before a final newline, flags i m s x apply from where they are set to the end of the group, quantifiers apply to the whole item before them. Conversion never changes a pattern's meaning: no literal becomes an operator, no class item is lost. The complexity estimate is the smallest limit under which the pattern compiles.",
     ["inputs"], "every pattern text, and every text scanned with it",
     "Tests convert some eighty patterns; items interact (flags with groups and ignored whitespace, quantifiers with multi-item conversions, class items with negation), so single-feature samples do not settle them.",
     [SDS + "validation.rs", SDS + "parser/regex_parser.rs", SDS + "parser/input.rs", SDS + "parser/unicode_property_names.rs", SDS + "parser/ast.rs", SDS + "normalization/mod.rs", SDS + "normalization/rust_regex_adapter.rs"],
     [("validate_and_create_regex", SDS + "validation.rs"), ("can_match_empty_string", SDS + "validation.rs"), ("is_regex_within_complexity_limit", SDS + "validation.rs"), ("get_regex_complexity_estimate_very_slow", SDS + "validation.rs"), ("convert_ast", SDS + "normalization/rust_regex_adapter.rs"), ("parse_regex_pattern", SDS + "parser/regex_parser.rs")],
     ["validation", "regex_adapter", "parser"], "c16", "proof",
     "Proved for all patterns: the parser accepts exactly the texts of the stated grammar (p_pattern) and builds the tree the grammar gives, every function of regex_parser.rs being under contract; the conversion gives every node its PCRE meaning in the regex crate's syntax (equal character sets for every class, equal flags in force everywhere, quantifiers on the whole item, literals that print back as themselves) and fails exactly for a quantifier above 3000; acceptance exactly for well-formed, small patterns that match no empty string (empty-path search over the NFA), the error reported for each rejection, the complexity estimate being the smallest accepted limit, termination of the validation; " + EXT + ". What an accepted pattern matches in the end is also checked by the driver against an independent printing and reading of random pattern trees (bounded).",
     ["validate_and_create_regex ensures acceptable(..) and the named error", "can_match_empty_string ensures r == may_match_empty(nfa)", "get_regex_complexity_estimate_very_slow ensures least fitting limit", "convert_ast ensures converts(tree, r): same meaning, prints back, Ok iff every count <= 3000", "convert_flags ensures the flags in force are the same", "class functions ensure equal character sets", "convert_to_rust_regex ensures converted_text", "parse_regex_pattern ensures parsed(r, text): the tree of the grammar, or the error it calls for", "each p_* function of the grammar is the contract of one parser function; lemma_consts: character lists are the intended sets"],
     assumptions=["regex-automata builds a pattern iff it is well-formed and its NFA fits the limit", "the NFA built for the emptiness test is that of the pattern; look-around conditions on it are taken as satisfiable", "the tree types of regex-syntax are declared as in the crate; its Display and is_meta_character by assumed contracts; Rc is its content", "case folding, whitespace beyond ASCII and the Unicode property tables are uninterpreted; a class under the i flag contains the case variants of its members", "sort, dedup, contains and retain by assumed contracts; the recursion of convert_ast terminates because a tree is finite (not proved)", "nom 7: what alt, map, opt, not, tuple, delimited and recognize do is written out by a macro, the text of the parser expressions stays; tag, one_of, none_of, take_until, digit1, eof, many0, many1, many_m_n and separated_list1 by assumed contracts; the recursion through `expression` uses its own contract (its depth is bounded by the recursion limit)", "the list of Unicode property names is uninterpreted in the proof", "unit regex_adapter takes the parser's result as any tree (parse_of); unit parser proves which", "not specified: a quantifier right after \\Q..\\E or a flag setting, an unescaped '#' with the x flag, repeated quantifiers such as a{2}{3}, flag groups naming no flag, a hyphen next to \\Q..\\E, [[.a.]] and [[=a=]]"], timeout={"quick": 500, "thorough": 1500}, hang=True)
prop("C17", "Every string of an event is visited once, under its path, and edited in place",
     "For every supported event type (String, SimpleEvent, serde_json::Value, HashMap of JSON values): visiting presents every string of the event - for JSON also booleans and numbers, as their text, but not null - exactly once, with the path of field names and list indices that leads to it, pushes and pops balanced, in document order (SimpleEvent: the \"message\" entry of each map first), and changes nothing. Visiting a presented path for mutation hands over exactly the text presented there; what is written is found at that path afterwards (a boolean or number becomes a string only if it was changed), and nothing else in the event changes. Neither ever panics on a presented path.",
     ["inputs"], "every event tree (any nesting, any keys, any leaf values) and every edit",
     "Tests visit two small events and one path; order, paths, duplicate-looking keys and the reach of an edit are facts about every tree.",
     [SDS + "event.rs", SDS + "event_json.rs", SDS + "simple_event.rs", SDS + "path.rs"],
     [("SimpleEvent::visit_event / visit_string_mut", SDS + "simple_event.rs"), ("Value::visit_event / visit_string_mut", SDS + "event_json.rs"), ("HashMap::visit_event / visit_string_mut", SDS + "event_json.rs"), ("String::visit_event / visit_string_mut", SDS + "event.rs")],
     ["events_simple", "events_json"], "c17", "proof",
     "Proved for all event trees: visit_event makes exactly the calls ops(tree), visit_string_mut calls the closure once with the text at the path and yields set(tree, path, edited text); theorems show that ops presents each leaf once under its path and that set changes only that leaf; " + EXT + ". The receiver of visit_event is taken as shared (so writing to the event while visiting is rejected); visitor and closure are replaced by recording objects.",
     ["theorem_visits: presented (path, text) <==> text at path", "theorem_visits_once", "theorem_set: only the edited leaf changes"],
     assumptions=["BTreeMap/HashMap/serde_json::Map as lists of entries with distinct keys, in iteration order; get_mut by assumed contract", "serde_json::Value declared as in the crate; text of numbers uninterpreted", "the closure reports true when it changed the string"])
prop("C18", "The binary exchange format carries events and results without loss",
     "An event encoded in the documented byte format (0 field, 1 index, 2 pop, 3 string; big-endian 32-bit lengths) is visited as exactly the pushes, pops and strings it was encoded from, invalid UTF-8 being replaced unless the strings are declared valid. Strings that might be mutated are kept under their path, edits go to the kept string and set its mutated flag to whether it was changed. The response is absent exactly when there is no match; otherwise it consists of one mutation record per changed string (its path and new content) followed by one record per match, in order, with rule index, path text, replacement type, start, end and shift.",
     ["inputs"], "every event tree, every set of edits and matches",
     "No test covers the format; lengths, tags and nesting must agree for every tree on both sides of the language boundary.",
     ["sds-bindings-utils/src/binary_encoding.rs", SDS + "path.rs", SDS + "rule_match.rs", "sds-go/rust/src/native/scan.rs", "sds-go/rust/src/native/mod.rs", "sds-go/rust/src/native/rule.rs", "sds-go/rust/src/native/create_scanner.rs", "sds-go/rust/src/native/delete_scanner.rs"],
     [("BinaryEvent::visit_event / visit_string_mut", "sds-bindings-utils/src/binary_encoding.rs"), ("encode_response, encode_match, encode_mutation, encode_path, encode_bytes", "sds-bindings-utils/src/binary_encoding.rs"), ("Display for Path, ReplacementType", SDS + "path.rs")],
     ["binary"], "c18", "proof",
     "Proved for all bytes, trees and responses: visit_event makes exactly the decoded calls and keeps the right strings, theorem_decode shows that decoding inverts the documented encoding, the encode_* functions produce the documented bytes; " + EXT + ". The C interface of sds-go (unsafe pointer code) is exercised by the driver only (bounded); the Go code itself is not covered.",
     ["theorem_decode", "BinaryEvent::visit_event ensures log == old + decoded(bytes)", "encode_response ensures bytes == mutations + matches"],
     assumptions=["lengths, indices and offsets fit 32 bits (as the format requires)", "from_be_bytes/to_be_bytes, from_utf8_lossy, from_utf8_unchecked (given valid bytes), BTreeMap by assumed contracts", "the visitor reports its current path", "to_string writes what fmt writes; decimal text of numbers uninterpreted"])
prop("C19", "A scan reports exactly the matches its rules, scopes and filters call for",
     "For each string of an event and each rule whose scope covers it and that is not blocked, the rule's matches are: start after the end of the previous regex match (or after the first character of a rejected one), keep those not rejected by excluded keywords or the secondary validator; with included keywords, those near a keyword, or all of them when the path contains one; with multi-pass on and the path excluded for the rule, nothing, and the matched texts are remembered. Of all these, a rule's matches whose text was remembered are dropped, overlaps are resolved by priority, the actions applied, and each surviving match is reported once with its rule, path, final position, value and status. Strings without a mutating match, and everything else in the event, stay as they were; the same event scanned again by the same scanner gives the same result.",
     ["inputs", "histories"], "every rule set, event, block list, feature combination and earlier scans",
     "Tests check single features on single strings; the composition over arbitrary rule sets, events and filters has far too many combinations.",
     [SDS + "scanner/mod.rs", SDS + "scanner/regex_rule/compiled.rs", SDS + "scoped_ruleset/mod.rs", SDS + "proximity_keywords/mod.rs", SDS + "rule_match.rs"],
     [("Scanner::scan", SDS + "scanner/mod.rs"), ("ScannerContentVisitor::visit_content", SDS + "scanner/mod.rs"), ("RegexCompiledRule::get_string_matches, true_positive_matches", SDS + "scanner/regex_rule/compiled.rs"), ("TruePositiveSearch::next", SDS + "scanner/regex_rule/compiled.rs"), ("is_false_positive_match, get_next_regex_start", SDS + "scanner/mod.rs")],
     ["search", "scan"], "c19", "proof",
     "Proved for all rules, texts and events over the contracts of C01, C02, C04, C10 and C17: get_string_matches emits exactly tp_list (theorem_list characterises it), visit_content lists a string exactly when something was found, with all matches of the unblocked rules in order, positions converted; the second pass drops exactly the remembered texts, resolves, applies, and answers `false` only for unchanged text; scan edits exactly the listed strings and reports their matches in order (theorem_untouched); " + EXT + ". The driver compares whole scans with an independent model (bounded). With included keywords on a path excluded for the rule, which texts are remembered is only settled for the true positives near a keyword.",
     ["RegexCompiledRule::get_string_matches emits tp_list or nothing on excluded paths", "theorem_list", "visit_content ensures reported(..)", "vp_edit (the closure of visit_string_mut) ensures edited(..) and !r ==> unchanged", "scan ensures visited(..) && done(..)", "theorem_untouched"],
     assumptions=["contracts of units overlap (C02), redact (C01), scope (C04), keywords (C10), events (C17) at the calls", "closures passed to library iterators are verified as functions; Vec::retain, sort_unstable_by_key, AHashSet and Encoding::calculate_indices by assumed contracts", "regex engine: leftmost match from a start position, as an uninterpreted function of text and position", "metrics, timing and the per-rule scan caches are dropped from the verified text", "a string's length and the length of its redacted form fit isize"])
prop("C20", "A scanner is built exactly as its configuration says",
     "A rule configuration holds exactly what was last set on it (by the setters in any order, or in its JSON form, where absent or null optional parts mean their defaults), writing it and reading it back gives an equal one, and malformed label lists are refused. Building a scanner fails if and only if some rule is invalid, with the error of the first such rule (naming what is wrong with it; code -2 pattern, -3 keywords, -4 action); otherwise rule i of the scanner is compiled from configuration i with its own pattern, action, scope, keywords and validators; each feature switch sets only its own feature; a match validator is kept for each validation kind some rule can create, that of the first such rule, and only those; the scanner's labels precede the rule's own on the rule's metrics, and label lists are merged, written and read in order with nothing lost or added.",
     ["inputs"], "every rule configuration, label list, order of setters and list of rules",
     "Tests set one field at a time with one or two labels; a swapped field, a dropped label or a rule compiled with the wrong index shows only for particular combinations.",
     [SDS + "scanner/regex_rule/config.rs", SDS + "scanner/mod.rs", SDS + "scanner/scope.rs", SDS + "observability/labels.rs", SDS + "match_validation/config.rs", SDS + "scanner/error.rs"],
     [("ScannerBuilder::build and setters", SDS + "scanner/mod.rs"), ("RegexRuleConfig", SDS + "scanner/regex_rule/config.rs"), ("Labels", SDS + "observability/labels.rs"), ("MatchValidationType", SDS + "match_validation/config.rs"), ("Scope", SDS + "scanner/scope.rs")],
     ["labels", "build"], "c20", "proof",
     "Proved for all inputs: every setter changes only its field; convert_to_compiled_rule succeeds iff pattern, action and keywords are valid, names what is wrong otherwise, and copies every part; the error codes; ScannerBuilder::build succeeds iff every rule compiles, keeps rules and scopes in order, features and labels, and exactly one validator per creatable kind (that of the first such rule); labels are concatenated, read and written in order and theorem_round_trip; " + EXT + ". The derived serde code of the configurations is outside the verifier's reach: their JSON form is checked by the driver (bounded).",
     ["setters: r == RegexRuleConfig { field: value, ..*self }", "convert_to_compiled_rule ensures r is Ok <==> self.compiles()", "ScannerBuilder::build ensures kept(..), rules, scopes, features, labels", "Labels::clone_with_labels, visit_seq, serialize", "theorem_round_trip"],
     assumptions=["derived Clone gives an equal value; derived Serialize and Deserialize are outside the proof", "contracts of units regex_store (C15), validation (C16), match_action (C03), keywords (C10) at the calls", "group_configs and the statistics counters are dropped from the verified text of ScannerBuilder::build (no rule type of the crate uses group configs)", "Box, Arc and trait objects are their contents; AHashMap by assumed map contracts"])
prop("C21", "Validating matches changes only statuses, to the strongest answer received",
     "validate_matches keeps every match of the list and changes nothing but statuses; the result is ordered by start index. A match of a rule without a match validator keeps its status. An HTTP match is sent to every configured endpoint and host with the configured method and headers ($MATCH replaced by the matched text); an AWS secret is tried with every id in the list, signed, against the configured endpoint. An HTTP answer means Valid if its code is in a valid range, else Invalid if it is in an invalid range, else an error naming the code; an AWS answer Valid for 2xx, Invalid for 4xx, an error for 5xx, nothing otherwise; no answer is an error. The match ends with the strongest of its old status and those of all answers it took part in (Valid > Error > Invalid > NotAvailable > NotChecked). The call fails, changing nothing, exactly when the scanner has no match validator. No match text, configuration or answer makes it panic.",
     ["inputs", "configurations", "faults"], "every list of matches of a scanner, every validator configuration, every mixture of answers and failures",
     "Tests use one or two mock endpoints and one pair; which answers meet which matches, and which one wins, depends on the whole list and every mixture of failures.",
     [SDS + "scanner/mod.rs", SDS + "match_validation/http_validator.rs", SDS + "match_validation/aws_validator.rs", SDS + "match_validation/config.rs", SDS + "match_validation/match_status.rs", SDS + "match_validation/validator_utils.rs"],
     [("Scanner::validate_matches", SDS + "scanner/mod.rs"), ("HttpValidator::validate, handle_reqwest_response", SDS + "match_validation/http_validator.rs"), ("AwsValidator::validate, handle_reqwest_response", SDS + "match_validation/aws_validator.rs"), ("RequestHeader::get_value_with_match", SDS + "match_validation/config.rs"), ("MatchStatus::merge", SDS + "match_validation/match_status.rs")],
     ["validate", "status"], "c21", "proof",
     "Proved for all lists, configurations and answers: which requests are made, how each answer is classified, that statuses are merged with all answers and nothing else changes (theorem_best: the strongest), that every match is kept and the list is ordered; " + EXT + ". The parallel iterators of rayon are verified closure by closure. The defaults of the configurations, the constructors, the choice of the secret inside a match and the contents of the signed request are under contract. The signature itself (aws-sign-v4), the secret regex and the actual requests are uninterpreted; the driver runs them against a loopback server and compares with an independent signing (bounded).",
     ["HttpValidator::validate ensures statuses merged over all endpoints", "AwsValidator::validate ensures statuses merged over all pairs", "Scanner::validate_matches ensures kept, ordered, only statuses changed", "theorem_best"],
     assumptions=["a server's answer is a function of the request", "reqwest, rayon and AHashMap by assumed contracts; the order of answers is irrelevant because merge is a maximum (unit status)", "aws-sign-v4, URL parsing and header values by assumed contracts", "the matches come from a scan by the same scanner (rule index in range, match value present)"])
prop("C22", "The exported metrics report what really happened",
     "scanner.creations grows by one for each scanner built and not for failed builds, scanner.deletions by one for each scanner dropped, and the gauge scanner.total_count shows the number of scanners in existence, also when they are built and dropped concurrently and the exporter is slow. scanner.total_regexes and scanner.total_regex_cache_size show how many compiled regexes the store holds and the memory of their caches. Each scan adds one to scanned_events and the number of matches it returned to scanning.match_count, under the scanner's labels. Each match dropped because its text was found under an excluded path adds one to its rule's false_positive.multipass.excluded_match, and each candidate rejected for an excluded keyword one to its rule's false_positive.proximity_keywords, under the scanner's and the rule's labels.",
     ["histories", "schedules", "inputs"], "every history of builds, drops and scans, on any number of threads",
     "Tests read single counters after one scan; that gauges stay right depends on every interleaving and on clean-ups of the regex store that tests hardly trigger.",
     [SDS + "stats.rs", SDS + "scanner/mod.rs", SDS + "scanner/metrics.rs", SDS + "scanner/regex_rule/regex_store.rs", SDS + "proximity_keywords/excluded_keywords.rs"],
     [("Stats", SDS + "stats.rs"), ("RegexStore::insert, gc", SDS + "scanner/regex_rule/regex_store.rs"), ("Scanner::scan, drop", SDS + "scanner/mod.rs"), ("ScannerBuilder::build", SDS + "scanner/mod.rs"), ("is_false_positive_match", SDS + "proximity_keywords/excluded_keywords.rs"), ("on_excluded_match_multipass_v0", SDS + "scanner/regex_rule/compiled.rs")],
     ["stats"], "c22", "proof",
     "Proved for all histories and inputs, with counters and gauges as cells of a world that is an extra parameter: each update of the number of scanners changes it by one and leaves the gauge equal to it whenever the lock is released (whatever other threads did before); insert and gc of the regex store keep both regex gauges equal to the contents of the store; build, drop, scan and the filters count each thing once; " + EXT + ". In the verified text of build and scan everything but the statistics is opaque (it is decided by C19 and C20). The metrics carry the stated names and labels and are kept apart from each other (Stats::new, ScannerMetrics::new, RuleMetrics::new; theorem_own).",
     ["Stats::update_total_scanners ensures gauge == count at release", "RegexStore::insert, gc ensure shown(..)", "ScannerBuilder::build, Scanner::drop ensure counted(..)", "Scanner::scan ensures +1 event, +len matches", "vp_edit ensures each cell += drops(..)", "Stats::new ensures apart() and the names", "ScannerMetrics::new, RuleMetrics::new ensure made(labels)", "theorem_own"],
     assumptions=["counts stay below 2^52 (exact as f64); stored caches fit in memory", "counters add atomically; the gauges of the store are only set while the store's lock is held (insert and gc have exclusive access)", "Mutex: the lock invariant holds when the lock is taken and is re-established at release", "slotmap, AHashMap and Vec::retain by assumed contracts", "the exporter keeps metrics apart that differ in name or labels (axiom_cells)"])
