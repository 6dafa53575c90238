//! Literals of the source under test, as words for the generators. They only steer generation, towards
//! conditions on particular values; no oracle looks at them. Literals that the committed baseline does not
//! have are preferred.
use proptest::prelude::*;
use proptest::sample::select;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

/// One strategy per thread: recursive generators ask for it again and again.
#[macro_export]
macro_rules! memo {
    ($t:ty, $e:expr) => {{
        thread_local!(static S: std::cell::OnceCell<BoxedStrategy<$t>> = const { std::cell::OnceCell::new() });
        S.with(|s| s.get_or_init(|| $e.boxed()).clone())
    }};
}

const BASELINE: &str = include_str!("../baseline_literals.json");

#[derive(Default, Clone)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
}

#[derive(Default)]
pub struct Dicts {
    /// all literals
    pub all: Dict,
    /// those that occur more often than in the baseline
    pub new: Dict,
}

type Counts = BTreeMap<String, u32>;

pub fn get() -> &'static Dicts {
    static D: OnceLock<Dicts> = OnceLock::new();
    D.get_or_init(|| {
        let (words, numbers) = mine(Path::new(&std::env::var("CSIG_SRC").unwrap_or_else(|_| "/repo/src".into())));
        let base: [Counts; 2] = serde_json::from_str(BASELINE).unwrap_or_default();
        let new = |now: &Counts, base: &Counts| -> Vec<String> {
            now.iter().filter(|(k, n)| base.get(*k).copied().unwrap_or(0) < **n).map(|(k, _)| k.clone()).collect()
        };
        let (mut words, mut numbers) = (words, numbers);
        if words.is_empty() || numbers.is_empty() {
            words.insert("x".into(), 0);
            numbers.insert("0".into(), 0);
        }
        let nums = |v: Vec<String>| -> Vec<u64> { v.iter().filter_map(|s| s.parse().ok()).collect() };
        Dicts {
            all: Dict { words: words.keys().cloned().collect(), numbers: nums(numbers.keys().cloned().collect()) },
            new: Dict { words: new(&words, &base[0]), numbers: nums(new(&numbers, &base[1])) },
        }
    })
}

/// For the baseline file.
pub fn literals() -> String {
    let c = mine(Path::new(&std::env::var("CSIG_SRC").unwrap_or_else(|_| "/repo/src".into())));
    serde_json::to_string_pretty(&[c.0, c.1]).unwrap() + "\n"
}

fn files(d: &Path, out: &mut BTreeSet<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") && p.file_name().is_some_and(|n| n != "vp_hooks.rs") {
            out.insert(p);
        }
    }
}

fn mine(dir: &Path) -> (Counts, Counts) {
    let (mut words, mut numbers) = (Counts::new(), Counts::new());
    let mut fs = BTreeSet::new();
    files(dir, &mut fs);
    for f in fs {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let code = match text.find("#[cfg(test)]\nmod ") {
            Some(i) => &text[..i],
            None => &text,
        };
        lex(code, &mut words, &mut numbers);
    }
    (words, numbers)
}

fn escape(c: &mut std::iter::Peekable<std::str::Chars>, out: &mut String) {
    match c.next() {
        Some('n') => out.push('\n'),
        Some('r') => out.push('\r'),
        Some('t') => out.push('\t'),
        Some('0') => out.push('\0'),
        Some('x') => {
            let h: String = c.by_ref().take(2).collect();
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        }
        Some('u') => {
            let h: String = c.by_ref().take_while(|c| *c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
            out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        }
        Some('\n') => {
            while c.peek().is_some_and(|c| c.is_whitespace()) {
                c.next();
            }
        }
        Some(x) => out.push(x),
        None => {}
    }
}

fn lex(text: &str, words: &mut Counts, numbers: &mut Counts) {
    let mut add = |w: String| {
        // the parts of a format string too
        let mut parts = BTreeSet::new();
        for p in w.split(['{', '}', ' ', '\n', '\r', '\t', '/', ',', ';', '=', ':', '"']) {
            parts.insert(p.to_string());
        }
        parts.insert(w);
        for p in parts {
            if !p.is_empty() && p.len() <= 200 {
                *words.entry(p).or_default() += 1;
            }
        }
    };
    let mut product: Option<(u64, char)> = None;
    let mut c = text.chars().peekable();
    let mut prev = ' ';
    while let Some(x) = c.next() {
        let before = prev;
        prev = x;
        match x {
            '/' if c.peek() == Some(&'/') => while c.next().is_some_and(|x| x != '\n') {},
            '/' if c.peek() == Some(&'*') => {
                let mut last = ' ';
                c.next();
                for x in c.by_ref() {
                    if last == '*' && x == '/' {
                        break;
                    }
                    last = x;
                }
            }
            'r' if (!before.is_alphanumeric() && before != '_' || before == 'b') && matches!(c.peek(), Some('"' | '#')) => {
                let mut n = 0;
                while c.peek() == Some(&'#') {
                    n += 1;
                    c.next();
                }
                if c.peek() != Some(&'"') {
                    continue;
                }
                c.next();
                let end = format!("\"{}", "#".repeat(n));
                let mut s = String::new();
                for x in c.by_ref() {
                    s.push(x);
                    if s.ends_with(&end) {
                        break;
                    }
                }
                add(s.strip_suffix(&end).unwrap_or(&s).to_string());
                prev = '"';
            }
            '"' => {
                let mut s = String::new();
                while let Some(x) = c.next() {
                    match x {
                        '"' => break,
                        '\\' => escape(&mut c, &mut s),
                        x => s.push(x),
                    }
                }
                add(s);
            }
            '\'' => {
                // a character, or else a lifetime
                let mut d = c.clone();
                let mut s = String::new();
                match d.next() {
                    Some('\\') => escape(&mut d, &mut s),
                    Some(x) => s.push(x),
                    None => {}
                }
                if d.next() == Some('\'') {
                    c = d;
                    add(s);
                }
            }
            '0'..='9' if !before.is_alphanumeric() && before != '_' => {
                let mut s = String::from(x);
                while let Some(y) = c.peek().filter(|y| y.is_alphanumeric() || **y == '_') {
                    s.push(*y);
                    c.next();
                }
                prev = '0';
                let t = s.replace('_', "");
                let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|e| t.strip_suffix(e)).unwrap_or(&t).to_string();
                let v = match t.get(..2) {
                    Some("0x") => u64::from_str_radix(&t[2..], 16).ok(),
                    Some("0b") => u64::from_str_radix(&t[2..], 2).ok(),
                    Some("0o") => u64::from_str_radix(&t[2..], 8).ok(),
                    _ => t.parse().ok(),
                };
                if let Some(v) = v {
                    *numbers.entry(v.to_string()).or_default() += 1;
                    // a * b, a << b, a + b, a - b
                    let both = match product {
                        Some((a, '*')) => a.checked_mul(v),
                        Some((a, '<')) if v < 64 => a.checked_shl(v as u32),
                        Some((a, '+')) => a.checked_add(v),
                        Some((a, '-')) => a.checked_sub(v),
                        _ => None,
                    };
                    if let Some(b) = both {
                        *numbers.entry(b.to_string()).or_default() += 1;
                    }
                    let op = c.clone().find(|x| !x.is_whitespace()).unwrap_or(' ');
                    product = Some((both.unwrap_or(v), op));
                }
            }
            _ => {}
        }
    }
}

/// How much more often a literal is used when the code has ones the baseline does not.
fn weight(new: bool, base: u32) -> u32 {
    if new { base * 4 } else { base }
}
pub fn w(base: u32) -> u32 {
    weight(!get().new.words.is_empty(), base)
}
pub fn wn(base: u32) -> u32 {
    weight(!get().new.numbers.is_empty(), base)
}

pub fn plain_word() -> BoxedStrategy<String> {
    let d = get();
    let all = &d.all.words[..];
    if d.new.words.is_empty() {
        select(all).boxed()
    } else {
        prop_oneof![4 => select(&d.new.words[..]), 1 => select(all)].boxed()
    }
}

/// A literal as it is, or changed a little.
pub fn word() -> BoxedStrategy<String> {
    memo!(String, prop_oneof![
        5 => plain_word(),
        1 => plain_word().prop_map(|s| s.to_uppercase()),
        1 => plain_word().prop_map(|s| s.to_lowercase()),
        1 => (plain_word(), any::<u64>()).prop_map(|(s, m)| flip(&s, m)),
        1 => (plain_word(), any::<bool>(), 33u8..127).prop_map(|(s, f, b)| if f { format!("{}{s}", b as char) } else { format!("{s}{}", b as char) }),
        1 => (plain_word(), plain_word()).prop_map(|(a, b)| a + &b),
    ])
}

/// Letters where `m` has a bit set in the other case.
pub fn flip(s: &str, m: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| match m >> (i % 64) & 1 {
            0 => c,
            _ if c.is_ascii_uppercase() => c.to_ascii_lowercase(),
            _ => c.to_ascii_uppercase(),
        })
        .collect()
}

pub fn number() -> BoxedStrategy<u64> {
    let d = get();
    let all = &d.all.numbers[..];
    let n = if d.new.numbers.is_empty() { select(all).boxed() } else { prop_oneof![5 => select(&d.new.numbers[..]), 1 => select(all)].boxed() };
    memo!(u64, (n, select(vec![0i8, 0, -1, 1])).prop_map(|(n, o)| n.saturating_add_signed(o as i64)))
}

/// A length near a number the code mentions.
pub fn length(max: u64) -> BoxedStrategy<usize> {
    number().prop_map(move |n| n.min(max) as usize).boxed()
}

#[cfg(test)]
mod tests {
    #[test]
    fn lexes() {
        let (mut w, mut n) = Default::default();
        super::lex("let a: &'a str = \"x\\n{b} y\"; // \"no\"\n f('\\'', b'q', r#\"r\"s\"#, 16 * 1024, 0x10_u8, 1 << 4, 2024)", &mut w, &mut n);
        assert!(["x\n{b} y", "b", "y", "'", "q", "r\"s"].iter().all(|k| w.contains_key(*k)), "{w:?}");
        assert!(["16384", "16", "2024"].iter().all(|k| n.contains_key(*k)), "{n:?}");
    }
}
