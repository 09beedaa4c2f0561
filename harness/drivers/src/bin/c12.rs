//! MatchStatus::merge keeps the higher-priority status, whatever the order of arrival.
use dd_sds::MatchStatus;
use drivers::Run;
fn rank(s: &MatchStatus) -> (u8, String) {
    match s { MatchStatus::NotChecked => (0, String::new()), MatchStatus::NotAvailable => (1, String::new()), MatchStatus::Invalid => (2, String::new()),
              MatchStatus::Error(e) => (3, e.clone()), MatchStatus::Valid => (4, String::new()) }
}
fn main() {
    let mut r = Run::new();
    let all = [MatchStatus::NotChecked, MatchStatus::NotAvailable, MatchStatus::Invalid, MatchStatus::Error("".into()), MatchStatus::Error("a".into()), MatchStatus::Error("b".into()), MatchStatus::Error("Error making HTTP request: x".into()), MatchStatus::Valid];
    // every sequence of up to five updates
    let n = all.len();
    let max = if r.thorough { 6 } else { 5 };
    for len in 1..=max {
        let total = n.pow(len as u32);
        for code in 0..total {
            let mut c = code;
            let seq: Vec<usize> = (0..len).map(|_| { let x = c % n; c /= n; x }).collect();
            let best = seq.iter().map(|i| rank(&all[*i]).0).max().unwrap();
            let g = r.call(|| { let mut s = all[seq[0]].clone(); for i in &seq[1..] { s.merge(all[*i].clone()); } s });
            r.case(len > 1, || format!("{seq:?}"));
            // the highest class wins; among errors, one of the errors that arrived is kept
            let ok = match &g { Ok(s) => rank(s).0 == best && seq.iter().any(|i| all[*i] == *s), Err(_) => false };
            if !ok { r.fail("merge", serde_json::json!(seq.iter().map(|i| format!("{:?}", all[*i])).collect::<Vec<_>>()), format!("class {best}"), format!("{g:?}")); }
            // order independence of the class and of the error kept
            if len <= 4 {
                let g2 = r.call(|| { let mut s = all[seq[len - 1]].clone(); for i in seq[..len - 1].iter().rev() { s.merge(all[*i].clone()); } s });
                if g2 != g { r.fail("merge-order", serde_json::json!(seq.iter().map(|i| format!("{:?}", all[*i])).collect::<Vec<_>>()), format!("{g:?}"), format!("{g2:?}")); }
            }
        }
        if r.stop() { break; }
    }
    r.finish("sequences of status updates; non-trivial = at least two", "all sequences of up to 5 (thorough 6) updates over 8 statuses")
}
