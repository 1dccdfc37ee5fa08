//! Exhaustive enumeration of short strings.

/// All strings over `alphabet` with at most `max_len` characters, shortest first.
pub fn all_strings(alphabet: &[char], max_len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut start = 0;
    for _ in 0..max_len {
        let end = out.len();
        for i in start..end {
            for c in alphabet {
                let mut s = out[i].clone();
                s.push(*c);
                out.push(s);
            }
        }
        start = end;
    }
    out
}

/// All sequences over 0..n with at most `max_len` elements (shortest first), the empty one included.
pub fn all_sequences(n: usize, max_len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut start = 0;
    for _ in 0..max_len {
        let end = out.len();
        for i in start..end {
            for c in 0..n {
                let mut s = out[i].clone();
                s.push(c);
                out.push(s);
            }
        }
        start = end;
    }
    out
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(n, cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut vec![false; n], &mut out);
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Sizes at which limits, counters and buffers tend to end: all up to `dense`, then the surroundings of powers of
/// two and ten up to `max`.
pub fn ladder(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense.min(max)).collect();
    let mut p = 1usize;
    while p <= max {
        v.extend([p.saturating_sub(1), p, p + 1]);
        p *= 2;
    }
    let mut p = 10usize;
    while p <= max {
        v.extend([p - 1, p, p + 1, 2 * p, 2 * p + 1, 5 * p, 5 * p + 1]);
        p *= 10;
    }
    v.retain(|&x| x >= 1 && x <= max + 1);
    v.sort();
    v.dedup();
    v
}
