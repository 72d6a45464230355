//! Reference rules for column names, written from the documentation, not from
//! the code under test (only plain character scanning, no regex, no heck).

pub fn valid(name: &str) -> bool {
    let b = name.as_bytes();
    !b.is_empty()
        && (b[0].is_ascii_alphabetic() || b[0] == b'_')
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// symbols to underscores, digit prefix; None when the name has to be omitted
pub fn column(name: &str) -> Option<String> {
    let mut s: String = name.chars().map(|c| if c == '.' || c == '-' { '_' } else { c }).collect();
    if s.chars().next().map(|c| c.is_numeric()).unwrap_or(false) {
        s.insert(0, '_');
    }
    if valid(&s) {
        Some(s)
    } else {
        None
    }
}

/// Words of an ASCII string by the documented word boundaries.
pub fn words(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    for chunk in s.split(|c: char| !c.is_ascii_alphanumeric()) {
        let cs: Vec<char> = chunk.chars().collect();
        if cs.is_empty() {
            continue;
        }
        // effective case of each position: digits take the case of the most
        // recent letter, digits before the first letter have none
        let mut eff: Vec<u8> = Vec::new(); // 0 none, 1 lower, 2 upper
        let mut last = 0u8;
        for c in &cs {
            if c.is_ascii_lowercase() {
                last = 1
            } else if c.is_ascii_uppercase() {
                last = 2
            }
            eff.push(last);
        }
        let mut cuts = vec![false; cs.len()];
        for i in 1..cs.len() {
            // lower (with its digits) followed by an upper-case letter
            if cs[i].is_ascii_uppercase() && eff[i - 1] == 1 {
                cuts[i] = true;
            }
            // before the last upper-case letter of a run followed by lower case
            if cs[i].is_ascii_uppercase() && eff[i - 1] == 2 {
                if i + 1 < cs.len() && cs[i + 1].is_ascii_lowercase() {
                    cuts[i] = true;
                }
            }
        }
        let mut w = String::new();
        for (i, c) in cs.iter().enumerate() {
            if cuts[i] && !w.is_empty() {
                out.push(std::mem::take(&mut w));
            }
            w.push(c.to_ascii_lowercase());
        }
        out.push(w);
    }
    out
}

pub fn snake(s: &str) -> String {
    words(s).join("_")
}

/// column name under case normalisation
pub fn column_nc(name: &str) -> Option<String> {
    let c = column(name)?;
    let mut s = snake(&c);
    if s.is_empty() {
        return Some(c);
    }
    if s.as_bytes()[0].is_ascii_digit() {
        s.insert(0, '_');
    }
    Some(s)
}

pub fn map_name(name: &str, nc: bool) -> Option<String> {
    if nc {
        column_nc(name)
    } else {
        column(name)
    }
}
