/*@extract
file = "sds/src/match_action.rs"
item = "MatchAction"
kind = "enum"
@*/
/*@extract
file = "sds/src/match_action.rs"
item = "PartialRedactDirection"
kind = "enum"
@*/
pub open spec fn mutating(a: MatchAction) -> bool { !(a is None) }
