//! Reading file:line out of diagnostics.

use std::collections::BTreeSet;

/// Lines of `file` (its last path component) that are named in the diagnostics
pub fn named_lines(err: &str, base: &str) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    let pat = format!("{base}:");
    let mut i = 0;
    while let Some(p) = err[i..].find(&pat) {
        let at = i + p;
        i = at + pat.len();
        // not the end of a longer name
        if err[..at].chars().next_back().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' && !err[..at].ends_with('/')) {
            continue;
        }
        let d: String = err[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = d.parse() {
            s.insert(n);
        }
    }
    s
}

