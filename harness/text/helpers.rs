//! stdx.
use std::cmp::Ordering;
use sxrt::*;

fn ascii(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..pick(n + 1) {
        push_char_of(&mut s, 1);
    }
    s
}

/// Names in other cases. params: letters, words in front
pub fn case() {
    let s = "aB_".repeat(param(1)) + &ascii(param(0));
    let p = stdx::to_pascal_case(&s);
    let mut want = String::new();
    for part in s.split('_') {
        for (i, c) in part.chars().enumerate() {
            want.push(if i == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
        }
    }
    check(p == want, 250);
    let (l, u) = (stdx::to_lower_snake_case(&s), stdx::to_upper_snake_case(&s));
    let mut w = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 && s.as_bytes()[i - 1] != b'_' {
            w.push('_');
        }
        w.push(c);
    }
    check(l == w.to_ascii_lowercase(), 251);
    check(u == w.to_ascii_uppercase(), 252);
    observe_str(&p);
    observe_str(&l);
    let c = (s.len() > 0).then(|| s.as_bytes()[s.len() - 1] as char).unwrap_or('x');
    let mut r = s.clone();
    stdx::replace(&mut r, c, "<>");
    let mut w = String::new();
    for x in s.chars() {
        if x == c {
            w.push_str("<>");
        } else {
            w.push(x);
        }
    }
    check(r == w, 253);
    reach(250);
}

/// params: characters, lines in front, their indentation
pub fn indent() {
    let n = pick(param(0) + 1);
    let mut s = (" ".repeat(param(2)) + "x\n").repeat(param(1));
    for _ in 0..n {
        s.push(b" \na{"[choose(4)] as char);
    }
    let got = stdx::trim_indent(&s);
    let t = s.strip_prefix('\n').unwrap_or(&s);
    let blank = |l: &str| l.bytes().all(|b| b == b' ' || b == b'\n');
    let by = t.split('\n').filter(|l| !blank(l)).map(|l| l.bytes().take_while(|b| *b == b' ').count()).min().unwrap_or(0);
    let mut want = String::new();
    let mut rest = t;
    while !rest.is_empty() {
        let k = rest.find('\n').map_or(rest.len(), |k| k + 1);
        let line = &rest[..k];
        let sp = line.bytes().take_while(|b| *b == b' ').count();
        // blank lines may have less to lose
        want.push_str(&line[if line.len() <= by { sp } else { by }..]);
        rest = &rest[k..];
    }
    check(got == want, 254);
    observe_str(&got);
    reach(254);
}

/// params: elements, more on either side
pub fn ranges() {
    let n = pick(param(0) + 1);
    let mut v: Vec<u8> = (0..n).map(|_| u8()).collect();
    let more = param(1);
    if more > 0 {
        v.splice(0..0, vec![1; more]);
        v.extend(vec![200; more]);
    }
    let n = v.len();
    for i in 1..n {
        assume(v[i - 1] <= v[i]);
    }
    let k = if more > 0 { [0, 1, 100, 200, 255][pick(5)] } else { u8() };
    let r = stdx::equal_range_by(&v, |x| x.cmp(&k));
    for i in 0..n {
        let want = match v[i].cmp(&k) {
            Ordering::Less => i < r.start,
            Ordering::Equal => r.start <= i && i < r.end,
            Ordering::Greater => r.end <= i,
        };
        check(want, 255);
    }
    check(r.start <= r.end && r.end <= n, 256);
    let m = pick(param(0) + 1);
    let mut w: Vec<u8> = (0..m).map(|_| u8()).collect();
    if more > 0 {
        w.splice(0..0, vec![1; more]);
        w.extend(vec![200; more]);
    }
    let eq = stdx::iter_eq_by(&v, &w, |a, b| a == b);
    check(eq == (v == w), 257);
    observe(eq as u64);
    reach(255);
}
