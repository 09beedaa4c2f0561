use vstd::prelude::*;
verus! {
// ======== opaque parts of a configuration: values; a clone is equal =====================================
#[verifier::external_body]
pub struct VpStr { x: u8 }
#[verifier::external_body]
pub struct MatchAction { x: u8 }
#[verifier::external_body]
pub struct Path { x: u8 }
#[verifier::external_body]
pub struct ProximityKeywordsConfig { x: u8 }
#[verifier::external_body]
pub struct SecondaryValidator { x: u8 }
#[verifier::external_body]
pub struct Labels { x: u8 }
#[verifier::external_body]
pub struct AwsConfig { x: u8 }
#[verifier::external_body]
pub struct HttpValidatorConfig { x: u8 }
#[verifier::external_body]
pub struct InternalMatchValidationType { x: u8 }
#[verifier::external_body]
pub struct RegexValidationError { x: u8 }
#[verifier::external_body]
pub struct ProximityKeywordsValidationError { x: u8 }
#[verifier::external_body]
pub struct MatchActionValidationError { x: u8 }
/*@extract
file = "sds/src/scanner/error.rs"
item = "MatchValidatorCreationError"
kind = "enum"
@*/
/*@extract
file = "sds/src/scanner/error.rs"
item = "CreateScannerError"
kind = "enum"
@*/
pub type VpError = CreateScannerError;
/*@extract
file = "sds/src/scanner/error.rs"
item = "From for i64::from"
rename = "vp_error_code"
ret = "r"
contract = '''
    ensures
        // one code per kind of error, and never a valid handle
        value is InvalidRegex ==> r == -2, value is InvalidKeywords ==> r == -3, value is InvalidMatchAction ==> r == -4, value is InvalidMatchValidator ==> r == -5,
'''
@*/
impl VpStr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl MatchAction {
    pub uninterp spec fn none() -> MatchAction;
    pub uninterp spec fn valid(self) -> bool;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn vp_none() -> (r: Self) ensures r == MatchAction::none() { unimplemented!() }
    // unit match_action (C03)
    #[verifier::external_body] pub fn validate(&self) -> (r: Result<(), VpError>) ensures r is Ok <==> self.valid(), r is Err ==> r->Err_0 is InvalidMatchAction { unimplemented!() }
}
impl ProximityKeywordsConfig { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SecondaryValidator { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Labels {
    pub uninterp spec fn with(self, o: Labels) -> Labels;
    pub uninterp spec fn none() -> Labels;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    // unit labels
    #[verifier::external_body] pub fn clone_with_labels(&self, o: Labels) -> (r: Labels) ensures r == self.with(o) { unimplemented!() }
    #[verifier::external_body] pub fn empty() -> (r: Labels) ensures r == Labels::none() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Labels) ensures r == Labels::none() { unimplemented!() }
}
impl AwsConfig { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl HttpValidatorConfig { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vp_opt_clone<T>(o: &Option<T>) -> (r: Option<T>) ensures r == *o { unimplemented!() }

// `Box::new`, `Arc::new`: the value
pub fn vp_id<T>(x: T) -> (r: T) ensures r == x { x }
// ======== scopes ========================================================================================
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope"
kind = "enum"
[[rewrite]]
from = "Path<'static>"
to = "Path"
all = true
@*/
impl Scope {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn parts(self) -> (bool, Seq<Path>, Seq<Path>) { match self { Scope::Include { include, exclude } => (true, include@, exclude@), Scope::Exclude(e) => (false, Seq::empty(), e@) } }
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope::all"
ret = "r"
contract = "ensures r.parts() == (false, Seq::<Path>::empty(), Seq::<Path>::empty()),"
[[rewrite]]
from = "vec![]"
to = "Vec::new()"
@*/
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope::include_and_exclude"
ret = "r"
contract = "ensures r.parts() == (true, include@, exclude@),"
[[rewrite]]
from = "Path<'static>"
to = "Path"
all = true
@*/
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope::include"
ret = "r"
contract = "ensures r.parts() == (true, include@, Seq::<Path>::empty()),"
[[rewrite]]
from = "Path<'static>"
to = "Path"
all = true
[[rewrite]]
from = "vec![]"
to = "Vec::new()"
@*/
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Scope::exclude"
ret = "r"
contract = "ensures r.parts() == (false, Seq::<Path>::empty(), exclude@),"
[[rewrite]]
from = "Path<'static>"
to = "Path"
all = true
@*/
/*@extract
file = "sds/src/scanner/scope.rs"
item = "Default for Scope::default"
ret = "r"
contract = "ensures r.parts() == (false, Seq::<Path>::empty(), Seq::<Path>::empty()),"
@*/
}
// ======== rule configurations ===========================================================================
/*@extract
file = "sds/src/match_validation/config.rs"
item = "AwsType"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "MatchValidationType"
kind = "enum"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig"
kind = "struct"
[[rewrite]]
from = "pattern: String"
to = "pattern: VpStr"
@*/
#[verifier::external_body]
pub fn vp_to_owned(s: &VpStr) -> (r: VpStr) ensures r == *s { unimplemented!() }
impl RegexRuleConfig {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::new"
ret = "r"
contract = "ensures r.pattern == *pattern, r.match_action == MatchAction::none(), r.scope.parts() == (false, Seq::<Path>::empty(), Seq::<Path>::empty()), r.proximity_keywords is None, r.validator is None, r.labels == Labels::none(), r.match_validation_type is None,"
[[rewrite]]
from = "pattern: &str"
to = "pattern: &VpStr"
[[rewrite]]
from = "pattern.to_owned()"
to = "vp_to_owned(pattern)"
[[rewrite]]
from = "MatchAction::None"
to = "MatchAction::vp_none()"
@*/
// `mutate_clone(f)` is a clone to which f has been applied; it is inlined at its uses
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::mutate_clone"
ret = "r"
contract = "ensures r == vp_modified(*self),"
[[rewrite]]
from = "modify: impl FnOnce(&mut Self)"
to = "modify: VpModify"
[[rewrite]]
from = "modify(&mut clone)"
to = "modify.call(&mut clone)"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::pattern"
ret = "r"
contract = "ensures r == (RegexRuleConfig { pattern: pattern, ..*self }),"
[[rewrite]]
from = "String"
to = "VpStr"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::match_action"
ret = "r"
contract = "ensures r == (RegexRuleConfig { match_action: match_action, ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::scope"
ret = "r"
contract = "ensures r == (RegexRuleConfig { scope: scope, ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::proximity_keywords"
ret = "r"
contract = "ensures r == (RegexRuleConfig { proximity_keywords: Some(proximity_keywords), ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::validator"
ret = "r"
contract = "ensures r == (RegexRuleConfig { validator: Some(validator), ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::labels"
ret = "r"
contract = "ensures r == (RegexRuleConfig { labels: labels, ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::match_validation_type"
ret = "r"
contract = "ensures r == (RegexRuleConfig { match_validation_type: Some(match_validation_type), ..*self }),"
[[rewrite]]
from = "self.mutate_clone(|x| $b)"
to = "{ let mut vp_c = self.clone(); { let x = &mut vp_c; $b; } vp_c }"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::build"
contract = "ensures r == *self,"
[[rewrite]]
from = "-> Arc<dyn RuleConfig>"
to = "-> (r: RegexRuleConfig)"
[[rewrite]]
from = "Arc::new"
to = "vp_id"
[[rewrite]]
from = "self.proximity_keywords.clone()"
to = "vp_opt_clone(&self.proximity_keywords)"
[[rewrite]]
from = "self.validator.clone()"
to = "vp_opt_clone(&self.validator)"
[[rewrite]]
from = "self.match_validation_type.clone()"
to = "vp_opt_clone(&self.match_validation_type)"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::get_match_validation_type"
ret = "r"
contract = "ensures r == (match self.match_validation_type { Some(t) => Some(&t), None => None::<&MatchValidationType> }),"
@*/
}
pub uninterp spec fn vp_modified(x: RegexRuleConfig) -> RegexRuleConfig;
pub struct VpModify { pub x: u8 }
impl VpModify { #[verifier::external_body] pub fn call(&self, x: &mut RegexRuleConfig) ensures *final(x) == vp_modified(*old(x)) { unimplemented!() } }
// ======== compiling a rule ==============================================================================
#[verifier::external_body]
pub struct SharedRegex { x: u8 }
#[verifier::external_body]
pub struct CompiledIncludedProximityKeywords { x: u8 }
#[verifier::external_body]
pub struct CompiledExcludedProximityKeywords { x: u8 }
#[verifier::external_body]
pub struct RuleMetrics { x: u8 }
pub uninterp spec fn regex_of(p: VpStr) -> Option<SharedRegex>;                    // C15, C16
pub uninterp spec fn keywords_of(c: ProximityKeywordsConfig) -> Option<(Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>)>;   // C10
#[verifier::external_body]
pub fn vp_regex(p: &VpStr) -> (r: Result<SharedRegex, VpError>) ensures r is Ok <==> regex_of(*p) is Some, r is Ok ==> r->Ok_0 == regex_of(*p)->0, r is Err ==> r->Err_0 is InvalidRegex { unimplemented!() }
#[verifier::external_body]
pub fn compile_keywords_proximity_config(c: &ProximityKeywordsConfig, l: &Labels) -> (r: Result<(Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>), VpError>)
    ensures r is Ok <==> keywords_of(*c) is Some, r is Ok ==> r->Ok_0 == keywords_of(*c)->0, r is Err ==> r->Err_0 is InvalidKeywords { unimplemented!() }
impl RuleMetrics {
    pub uninterp spec fn labels(&self) -> Labels;
    #[verifier::external_body] pub fn new(l: &Labels) -> (r: RuleMetrics) ensures r.labels() == *l { unimplemented!() }
}
impl MatchValidationType { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule"
kind = "struct"
[[rewrite]]
from = "Arc<dyn Validator>"
to = "SecondaryValidator"
@*/
impl RegexRuleConfig {
    pub open spec fn keywords(self) -> Option<(Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>)> {
        if self.proximity_keywords is Some { keywords_of(self.proximity_keywords->0) } else { Some((None, None)) }
    }
    // what is wrong with the rule, for each error it can be rejected with
    pub open spec fn wrong(self, e: VpError) -> bool {
        match e {
            CreateScannerError::InvalidRegex(_) => regex_of(self.pattern) is None,
            CreateScannerError::InvalidMatchAction(_) => !self.match_action.valid(),
            CreateScannerError::InvalidKeywords(_) => self.keywords() is None,
            CreateScannerError::InvalidMatchValidator(_) => false,
        }
    }
    pub open spec fn compiles(self) -> bool { regex_of(self.pattern) is Some && self.match_action.valid() && self.keywords() is Some }
/*@extract
file = "sds/src/scanner/regex_rule/config.rs"
item = "RegexRuleConfig::convert_to_compiled_rule"
contract = '''
    ensures
        r is Ok <==> self.compiles(),
        r is Err ==> self.wrong(r->Err_0),
        r is Ok ==> ({ let c = r->Ok_0;
            &&& c.rule_index == rule_index && c.regex == regex_of(self.pattern)->0 && c.match_action == self.match_action && c.scope == self.scope
            &&& c.included_keywords == (self.keywords()->0).0 && c.excluded_keywords == (self.keywords()->0).1 && c.validator == self.validator
            &&& c.match_validation_type == self.match_validation_type
            &&& c.internal_match_validation_type == (match self.match_validation_type { Some(t) => Some(internal(t)), None => None::<InternalMatchValidationType> })
            // scanner labels first, then those of the rule
            &&& c.metrics.labels() == scanner_labels.with(self.labels)
        }),
'''
[[rewrite]]
from = "-> Result<Box<dyn CompiledRuleDyn>, CreateScannerError>"
to = "-> (r: Result<RegexCompiledRule, VpError>)"
[[rewrite]]
from = "get_memoized_regex(&self.pattern, validate_and_create_regex)?"
to = "vp_regex(&self.pattern)?"
[[rewrite]]
from = "self.proximity_keywords.as_ref().map(|config| $b).unwrap_or(Ok((None, None)))?"
to = "(match &self.proximity_keywords { Some(config) => $b, None => Ok((None, None)) })?"
[[rewrite]]
from = "Box::new"
to = "vp_id"
[[rewrite]]
from = "self.validator.clone().map(|x| Arc::new(x) as Arc<dyn Validator>)"
to = "vp_opt_clone(&self.validator)"
[[rewrite]]
from = "self.get_match_validation_type().cloned()"
to = "(match self.get_match_validation_type() { Some(vp_t) => Some(vp_t.clone()), None => None })"
[[rewrite]]
from = "self.get_match_validation_type().map(|x| $b)"
to = "(match self.get_match_validation_type() { Some(x) => Some($b), None => None })"
@*/
}
// ======== what the scanner asks of a compiled rule ======================================================
impl RegexCompiledRule {
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_match_action"
ret = "r"
contract = "ensures *r == self.match_action,"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_scope"
ret = "r"
contract = "ensures *r == self.scope,"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_included_keywords"
ret = "r"
contract = "ensures r is Some <==> self.included_keywords is Some, r is Some ==> *(r->0) == self.included_keywords->0,"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_match_validation_type"
ret = "r"
contract = "ensures r is Some <==> self.match_validation_type is Some, r is Some ==> *(r->0) == self.match_validation_type->0,"
@*/
/*@extract
file = "sds/src/scanner/regex_rule/compiled.rs"
item = "RegexCompiledRule::get_internal_match_validation_type"
ret = "r"
contract = "ensures r is Some <==> self.internal_match_validation_type is Some, r is Some ==> *(r->0) == self.internal_match_validation_type->0,"
@*/
}
// ======== match validators ==============================================================================
pub uninterp spec fn internal_aws() -> InternalMatchValidationType;
pub uninterp spec fn internal_http(endpoints: HttpValidatorConfig) -> InternalMatchValidationType;
pub open spec fn internal(t: MatchValidationType) -> InternalMatchValidationType { match t { MatchValidationType::Aws(_) => internal_aws(), MatchValidationType::CustomHttp(c) => internal_http(c) } }
pub open spec fn creatable(t: MatchValidationType) -> bool { match t { MatchValidationType::Aws(a) => a is AwsSecret, MatchValidationType::CustomHttp(_) => true } }
pub enum VpValidator { Aws(AwsConfig), Http(HttpValidatorConfig) }
pub open spec fn validator_of(t: MatchValidationType) -> VpValidator { match t { MatchValidationType::Aws(a) => VpValidator::Aws(a->AwsSecret_0), MatchValidationType::CustomHttp(c) => VpValidator::Http(c) } }
#[verifier::external_body]
pub fn vp_internal_aws() -> (r: InternalMatchValidationType) ensures r == internal_aws() { unimplemented!() }
#[verifier::external_body]
pub fn vp_internal_http(c: &HttpValidatorConfig) -> (r: InternalMatchValidationType) ensures r == internal_http(*c) { unimplemented!() }
#[verifier::external_body]
pub struct VpMessage { x: u8 }
#[verifier::external_body]
pub fn vp_message() -> VpMessage { unimplemented!() }
impl MatchValidationType {
/*@extract
file = "sds/src/match_validation/config.rs"
item = "MatchValidationType::can_create_match_validator"
ret = "r"
contract = "ensures r == creatable(*self),"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "MatchValidationType::get_internal_match_validation_type"
ret = "r"
contract = "ensures r == internal(*self),"
[[rewrite]]
from = "InternalMatchValidationType::Aws"
to = "vp_internal_aws()"
[[rewrite]]
from = "InternalMatchValidationType::CustomHttp(http_config.endpoints.clone())"
to = "vp_internal_http(http_config)"
@*/
/*@extract
file = "sds/src/match_validation/config.rs"
item = "MatchValidationType::into_match_validator"
contract = "ensures r is Ok <==> creatable(*self), r is Ok ==> r->Ok_0 == validator_of(*self),"
[[rewrite]]
from = "-> Result<Box<dyn MatchValidator>, String>"
to = "-> (r: Result<VpValidator, VpMessage>)"
[[rewrite]]
from = "Box::new"
to = "vp_id"
all = true
[[rewrite]]
from = "AwsValidator::new"
to = "VpValidator::Aws"
[[rewrite]]
from = "HttpValidator::new_from_config"
to = "VpValidator::Http"
[[rewrite]]
from = "\"This aws type shall not be used to create a validator\".to_string()"
to = "vp_message()"
@*/
}
// ======== the scanner ===================================================================================
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerFeatures"
kind = "struct"
@*/
impl ScannerFeatures {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Default for ScannerFeatures::default"
ret = "r"
contract = "ensures r == (ScannerFeatures { should_keywords_match_event_paths: false, add_implicit_index_wildcards: false, multipass_v0_enabled: true, return_matches: false }),"
@*/
}
// `Arc<dyn RuleConfig>`, `Box<dyn CompiledRuleDyn>`
#[verifier::external_body]
pub struct VpConfig { x: u8 }
#[verifier::external_body]
pub struct VpRule { x: u8 }
pub uninterp spec fn compiled(c: VpConfig, i: int, l: Labels) -> Option<VpRule>;
pub open spec fn first_wrong(c: Seq<VpConfig>, l: Labels, i: int) -> bool {
    0 <= i < c.len() && compiled(c[i], i, l) is None && forall|k: int| 0 <= k < i ==> compiled(#[trigger] c[k], k, l) is Some
}
pub open spec fn rejected(c: Seq<VpConfig>, l: Labels, e: VpError) -> bool {
    exists|i: int| #[trigger] first_wrong(c, l, i) && e == rejection(c[i], i, l)
}
pub uninterp spec fn rejection(c: VpConfig, i: int, l: Labels) -> VpError;
impl VpConfig {
    pub uninterp spec fn vtype(&self) -> Option<MatchValidationType>;
    #[verifier::external_body]
    pub fn get_match_validation_type(&self) -> (r: Option<&MatchValidationType>) ensures r is Some <==> self.vtype() is Some, r is Some ==> *r->0 == self.vtype()->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_to_compiled_rule(&self, rule_index: usize, l: Labels) -> (r: Result<VpRule, VpError>)
        ensures r is Ok <==> compiled(*self, rule_index as int, l) is Some, r is Ok ==> r->Ok_0 == compiled(*self, rule_index as int, l)->0,
            r is Err ==> r->Err_0 == rejection(*self, rule_index as int, l) { unimplemented!() }
}
impl VpRule { pub uninterp spec fn scope(&self) -> Scope;
    #[verifier::external_body] pub fn get_scope(&self) -> (r: &Scope) ensures *r == self.scope() { unimplemented!() } }
#[verifier::external_body]
pub struct VpValidators { x: u8 }
impl View for VpValidators { type V = Map<InternalMatchValidationType, VpValidator>; uninterp spec fn view(&self) -> Map<InternalMatchValidationType, VpValidator>; }
impl VpValidators {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<InternalMatchValidationType, VpValidator>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &InternalMatchValidationType) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: InternalMatchValidationType, v: VpValidator) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub struct ScopedRuleSet { x: u8 }
impl ScopedRuleSet {
    pub uninterp spec fn scopes(&self) -> Seq<Scope>;
    pub uninterp spec fn wildcards(&self) -> bool;
    pub uninterp spec fn kw_paths(&self) -> bool;
    #[verifier::external_body] pub fn new(s: &Vec<Scope>) -> (r: ScopedRuleSet) ensures r.scopes() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn with_implicit_index_wildcards(self, v: bool) -> (r: ScopedRuleSet) ensures r.scopes() == self.scopes(), r.wildcards() == v, r.kw_paths() == self.kw_paths() { unimplemented!() }
    #[verifier::external_body] pub fn with_keywords_should_match_event_paths(self, v: bool) -> (r: ScopedRuleSet) ensures r.scopes() == self.scopes(), r.wildcards() == self.wildcards(), r.kw_paths() == v { unimplemented!() }
}
#[verifier::external_body]
pub struct ScannerMetrics { x: u8 }
impl ScannerMetrics { pub uninterp spec fn labels(&self) -> Labels;
    #[verifier::external_body] pub fn new(l: &Labels) -> (r: ScannerMetrics) ensures r.labels() == *l { unimplemented!() } }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "Scanner"
kind = "struct"
[[rewrite]]
from = "rules: Vec<Box<dyn CompiledRuleDyn>>"
to = "pub rules: Vec<VpRule>"
[[rewrite]]
from = "scoped_ruleset:"
to = "pub scoped_ruleset:"
[[rewrite]]
from = "scanner_features:"
to = "pub scanner_features:"
[[rewrite]]
from = "metrics:"
to = "pub metrics:"
[[rewrite]]
from = "labels:"
to = "pub labels:"
[[rewrite]]
from = "match_validators_per_type: AHashMap<InternalMatchValidationType, Box<dyn MatchValidator>>"
to = "pub match_validators_per_type: VpValidators"
[[rewrite]]
from = "group_configs: AHashMap<TypeId, Box<dyn Any + Send + Sync>>,"
to = ""
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder"
kind = "struct"
[[rewrite]]
from = "rules: &'a [Arc<dyn RuleConfig>]"
to = "pub rules: &'a [VpConfig]"
[[rewrite]]
from = "labels:"
to = "pub labels:"
[[rewrite]]
from = "scanner_features:"
to = "pub scanner_features:"
@*/
// the validator kept for a type is that of the first rule with it
pub open spec fn first_with(c: Seq<VpConfig>, n: int, k: InternalMatchValidationType, i: int) -> bool {
    &&& 0 <= i < n && offers(c[i], k)
    &&& forall|j: int| 0 <= j < i ==> !offers(#[trigger] c[j], k)
}
pub open spec fn offers(c: VpConfig, k: InternalMatchValidationType) -> bool { c.vtype() is Some && creatable(c.vtype()->0) && internal(c.vtype()->0) == k }
pub open spec fn kept(c: Seq<VpConfig>, n: int, m: Map<InternalMatchValidationType, VpValidator>) -> bool {
    &&& forall|k: InternalMatchValidationType| #[trigger] m.contains_key(k) ==> exists|i: int| #[trigger] first_with(c, n, k, i) && m[k] == validator_of(c[i].vtype()->0)
    &&& forall|i: int| 0 <= i < n && (#[trigger] c[i]).vtype() is Some && creatable(c[i].vtype()->0) ==> m.contains_key(internal(c[i].vtype()->0))
}
pub open spec fn any_creatable(c: Seq<VpConfig>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] c[i]).vtype() is Some && creatable(c[i].vtype()->0) }
impl<'a> ScannerBuilder<'a> {
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::new"
ret = "r"
contract = "ensures r.rules@ == rules@, r.labels == Labels::none(), r.scanner_features == (ScannerFeatures { should_keywords_match_event_paths: false, add_implicit_index_wildcards: false, multipass_v0_enabled: true, return_matches: false }),"
[[rewrite]]
from = "rules: &[Arc<dyn RuleConfig>]"
to = "rules: &[VpConfig]"
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::labels"
ret = "r"
contract = "ensures r == (ScannerBuilder { labels: labels, ..self }),"
start = "let mut vp_s = self;"
[[rewrite]]
from = "mut self,"
to = "self,"
optional = true
[[rewrite]]
from = "self."
to = "vp_s."
all = true
optional = true
[[rewrite]]
from = "; self }"
to = "; vp_s }"
optional = true
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::with_keywords_should_match_event_paths"
ret = "r"
contract = "ensures r == (ScannerBuilder { scanner_features: ScannerFeatures { should_keywords_match_event_paths: value, ..self.scanner_features }, ..self }),"
start = "let mut vp_s = self;"
[[rewrite]]
from = "mut self,"
to = "self,"
optional = true
[[rewrite]]
from = "self."
to = "vp_s."
all = true
optional = true
[[rewrite]]
from = "; self }"
to = "; vp_s }"
optional = true
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::with_implicit_wildcard_indexes_for_scopes"
ret = "r"
contract = "ensures r == (ScannerBuilder { scanner_features: ScannerFeatures { add_implicit_index_wildcards: value, ..self.scanner_features }, ..self }),"
start = "let mut vp_s = self;"
[[rewrite]]
from = "mut self,"
to = "self,"
optional = true
[[rewrite]]
from = "self."
to = "vp_s."
all = true
optional = true
[[rewrite]]
from = "; self }"
to = "; vp_s }"
optional = true
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::with_multipass_v0"
ret = "r"
contract = "ensures r == (ScannerBuilder { scanner_features: ScannerFeatures { multipass_v0_enabled: value, ..self.scanner_features }, ..self }),"
start = "let mut vp_s = self;"
[[rewrite]]
from = "mut self,"
to = "self,"
optional = true
[[rewrite]]
from = "self."
to = "vp_s."
all = true
optional = true
[[rewrite]]
from = "; self }"
to = "; vp_s }"
optional = true
@*/
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::build"
kind = "closure"
closure = "map(|(rule_index, config)| $body)"
sig = "fn vp_compile(&self, rule_index: usize, config: &VpConfig) -> (r: Result<VpRule, VpError>)"
contract = "ensures r is Ok <==> compiled(*config, rule_index as int, self.labels) is Some, r is Ok ==> r->Ok_0 == compiled(*config, rule_index as int, self.labels)->0, r is Err ==> r->Err_0 == rejection(*config, rule_index as int, self.labels),"
@*/
    // `.iter().enumerate().map(..).collect::<Result<Vec<_>, _>>()`
    fn vp_compile_all(&self) -> (r: Result<Vec<VpRule>, VpError>)
        ensures r is Ok <==> (forall|i: int| 0 <= i < self.rules@.len() ==> compiled(#[trigger] self.rules@[i], i, self.labels) is Some),
            r is Ok ==> r->Ok_0@.len() == self.rules@.len() && forall|i: int| 0 <= i < self.rules@.len() ==> #[trigger] r->Ok_0@[i] == compiled(self.rules@[i], i, self.labels)->0,
            r is Err ==> rejected(self.rules@, self.labels, r->Err_0),
    {
        let mut v: Vec<VpRule> = Vec::new();
        let mut i: usize = 0;
        while i < self.rules.len()
            invariant i <= self.rules@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> compiled(#[trigger] self.rules@[k], k, self.labels) is Some && v@[k] == compiled(self.rules@[k], k, self.labels)->0,
            decreases self.rules@.len() - i,
        {
            match self.vp_compile(i, &self.rules[i]) { Ok(x) => { v.push(x); } Err(e) => { proof { assert(first_wrong(self.rules@, self.labels, i as int)); } return Err(e); } }
            i += 1;
        }
        Ok(v)
    }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::build"
kind = "closure"
closure = "map(|rule| $body)"
sig = "fn vp_scope(rule: &VpRule) -> (r: Scope)"
contract = "ensures r == rule.scope(),"
@*/
    fn vp_scopes(v: &Vec<VpRule>) -> (r: Vec<Scope>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[i].scope()
    {
        let mut r: Vec<Scope> = Vec::new();
        let mut i: usize = 0;
        while i < v.len() invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k] == v@[k].scope(), decreases v@.len() - i,
        { r.push(Self::vp_scope(&v[i])); i += 1; }
        r
    }
/*@extract
file = "sds/src/scanner/mod.rs"
item = "ScannerBuilder::build"
contract = '''
    ensures
        r is Ok <==> (forall|i: int| 0 <= i < self.rules@.len() ==> compiled(#[trigger] self.rules@[i], i, self.labels) is Some),
        // the error of the first rule that doesn't compile
        r is Err ==> rejected(self.rules@, self.labels, r->Err_0),
        r is Ok ==> ({ let s = r->Ok_0;
            &&& s.rules@.len() == self.rules@.len() && s.scoped_ruleset.scopes().len() == self.rules@.len()
            &&& forall|i: int| 0 <= i < self.rules@.len() ==> #[trigger] s.rules@[i] == compiled(self.rules@[i], i, self.labels)->0
            &&& forall|i: int| 0 <= i < self.rules@.len() ==> #[trigger] s.scoped_ruleset.scopes()[i] == s.rules@[i].scope()
            &&& s.scoped_ruleset.wildcards() == self.scanner_features.add_implicit_index_wildcards
            &&& s.scoped_ruleset.kw_paths() == self.scanner_features.should_keywords_match_event_paths
            &&& s.scanner_features == (ScannerFeatures { return_matches: self.scanner_features.return_matches || any_creatable(self.rules@, self.rules@.len() as int), ..self.scanner_features })
            &&& s.labels == self.labels && s.metrics.labels() == self.labels
            &&& kept(self.rules@, self.rules@.len() as int, s.match_validators_per_type@)
        }),
'''
[[rewrite]]
from = "-> Result<Scanner, CreateScannerError>"
to = "-> (r: Result<Scanner, VpError>)"
[[rewrite]]
from = "AHashMap::new();"
to = "VpValidators::new();"
n = 0
[[rewrite]]
from = "for rule in self.rules.iter()"
to = "for vp_i in 0..vp_n"
[[rewrite]]
from = "self.rules.iter().enumerate().map($c).collect::<Result<Vec<Box<dyn CompiledRuleDyn>>, CreateScannerError>>()?"
to = "self.vp_compile_all()?"
[[rewrite]]
from = "let mut group_configs: AHashMap<TypeId, Box<dyn Any + Send + Sync>> = AHashMap::new(); compiled_rules.iter().for_each($c);"
to = ""
[[rewrite]]
from = "&compiled_rules.iter().map($c).collect::<Vec<_>>()"
to = "&Self::vp_scopes(&compiled_rules)"
[[rewrite]]
from = "let stats = &*GLOBAL_STATS; stats.scanner_creations.increment(1); stats.increment_total_scanners();"
to = ""
[[rewrite]]
from = "group_configs,"
to = ""
[[loop]]
n = 0
kind = "for"
before = "let vp_n = self.rules.len();"
spec = '''
    invariant
        vp_n == self.rules@.len(), kept(self.rules@, vp_i as int, match_validators_per_type@),
        scanner_features == (ScannerFeatures { return_matches: self.scanner_features.return_matches || any_creatable(self.rules@, vp_i as int), ..self.scanner_features }),
'''
start = "let rule = &self.rules[vp_i]; let ghost m0 = match_validators_per_type@; let ghost f0 = scanner_features;"
end = "proof { lemma_kept(self.rules@, vp_i as int, m0, match_validators_per_type@); }"
@*/
}
proof fn lemma_kept(c: Seq<VpConfig>, i: int, m0: Map<InternalMatchValidationType, VpValidator>, m: Map<InternalMatchValidationType, VpValidator>)
    requires 0 <= i < c.len(), kept(c, i, m0),
        m == (if c[i].vtype() is Some && creatable(c[i].vtype()->0) && !m0.contains_key(internal(c[i].vtype()->0)) { m0.insert(internal(c[i].vtype()->0), validator_of(c[i].vtype()->0)) } else { m0 }),
    ensures kept(c, i + 1, m), 
        any_creatable(c, i + 1) <==> any_creatable(c, i) || (c[i].vtype() is Some && creatable(c[i].vtype()->0)),
        c[i].vtype() is Some && creatable(c[i].vtype()->0) && m0.contains_key(internal(c[i].vtype()->0)) ==> any_creatable(c, i),
{
    assert forall|k: InternalMatchValidationType| #[trigger] m.contains_key(k) implies exists|j: int| #[trigger] first_with(c, i + 1, k, j) && m[k] == validator_of(c[j].vtype()->0) by {
        if m0.contains_key(k) {
            let j = choose|j: int| #[trigger] first_with(c, i, k, j) && m0[k] == validator_of(c[j].vtype()->0);
            assert(first_with(c, i + 1, k, j));
        } else {
            assert forall|j: int| 0 <= j < i implies !offers(#[trigger] c[j], k) by { if offers(c[j], k) { assert(m0.contains_key(internal(c[j].vtype()->0))); } }
            assert(first_with(c, i + 1, k, i));
        }
    }
    if c[i].vtype() is Some && creatable(c[i].vtype()->0) && m0.contains_key(internal(c[i].vtype()->0)) {
        let k = internal(c[i].vtype()->0);
        let j = choose|j: int| #[trigger] first_with(c, i, k, j) && m0[k] == validator_of(c[j].vtype()->0);
        assert(offers(c[j], k));
    }
}
} // verus!
fn main() {}
